// P21: comparing evaluations is Pareto dominance over the declared objectives.
#include "eval_kinds.hpp"
using namespace mc;

static std::vector<RP> params()
{
	return {RP::numf("a", -10, 10, 0), RP::numf("b", -10, 10, 0), RP::numi("c", -10, 10, 0)};
}
static int             MANY; // this many parameters instead
static std::vector<RP> numbered(int n)
{
	static std::vector<std::string> names;
	for (int i = (int)names.size(); i < 400; i++)
		names.push_back(strf("p%d", i));
	std::vector<RP> r;
	for (int i = 0; i < n; i++)
		r.push_back(RP::numf(names[(size_t)i].c_str(), -10, 10, 0));
	return r;
}
static OSp objective_space(const std::vector<RP> &ps, const std::vector<RO> &o, std::vector<Par> &own, bool bulk)
{
	std::vector<ccs_parameter_t> p;
	for (auto &r : ps)
		own.push_back(r.make()), p.push_back(own.back());
	OSp                            s = mkos("os", p);
	std::vector<Exp>               e;
	std::vector<ccs_expression_t>  h;
	std::vector<ccs_objective_type_t> t;
	for (auto &x : o) {
		e.push_back(build(*x.e, p, true));
		h.push_back(e.back());
		t.push_back(x.max ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE);
	}
	if (bulk)
		MC_OK(ccs_objective_space_add_objectives(s, h.size(), h.data(), t.data()));
	else
		for (size_t i = 0; i < h.size(); i++)
			MC_OK(ccs_objective_space_add_objective(s, h[i], t[i]));
	for (size_t i = 0; i < h.size(); i++) {
		ccs_expression_t     x = nullptr;
		ccs_objective_type_t y;
		MC_OK(ccs_objective_space_get_objective(s, i, &x, &y));
		MC_CHECK(x == h[i] && y == t[i]);
	}
	return s;
}
// objective values reported one by one and together, in arrays of all sizes
template <class K> static void objective_values(typename K::E e, const std::vector<RO> &o, const std::vector<RP> &ps, const std::vector<V> &v)
{
	std::vector<V> want;
	bool           err = false;
	for (auto &x : o) {
		want.push_back(ref_eval(*x.e, ps, v));
		err = err || want.back().t == V::ERR;
	}
	size_t n = o.size();
	for (size_t i = 0; i <= n; i++) {
		ccs_datum_t  d;
		ccs_result_t rc = K::objective(e, i, &d);
		step();
		if (i == n)
			MC_REQ(rc < 0, "objective %zu of %zu gave a value", i, n);
		else if (want[i].t == V::ERR)
			MC_REQ(rc < 0, "objective %zu cannot be computed but gave a value", i);
		else
			MC_REQ(rc == CCS_RESULT_SUCCESS && V::from(d) == want[i], "objective %zu of %s is %s (code %d), want %s", i, K::name(), V::from(d).str().c_str(), (int)rc, want[i].str().c_str());
	}
	size_t m = 99;
	MC_OK(K::objectives(e, 0, nullptr, &m));
	MC_CHECK(m == n);
	for (size_t len = 1; len <= n + 2; len++) {
		// exactly sized heap block: writes past it are caught
		std::unique_ptr<ccs_datum_t[]> d(new ccs_datum_t[len]);
		for (size_t i = 0; i < len; i++)
			d[i] = ccs_int(4242);
		m               = 99;
		ccs_result_t rc = K::objectives(e, len, d.get(), &m);
		step();
		if (len < n) {
			MC_REQ(rc == CCS_RESULT_ERROR_INVALID_VALUE, "%zu objective values in an array of %zu: %d", n, len, (int)rc);
			for (size_t i = 0; i < len; i++)
				MC_CHECK(V::from(d[i]) == V::I(4242));
		} else if (err)
			MC_CHECK(rc < 0);
		else {
			MC_REQ(rc == CCS_RESULT_SUCCESS && m == n, "objective values: %d, %zu of %zu", (int)rc, m, n);
			for (size_t i = 0; i < len; i++)
				MC_REQ(V::from(d[i]) == (i < n ? want[i] : V::none()), "objective values entry %zu", i);
		}
	}
}
template <class K> static void pairs(const std::vector<RO> &o, const std::vector<std::vector<V>> &grid, bool bulk)
{
	std::vector<RP>  ps = MANY ? numbered(MANY) : params();
	std::vector<Par> own;
	EvEnv            env(2, 2);
	OSp              s = objective_space(ps, o, own, bulk);
	struct Ev { Own<typename K::E> e; std::vector<V> v; int f, c; };
	std::vector<Ev> evs;
	int             k = 0;
	for (auto &v : grid)
		for (int f = 0; f < (K::features ? 3 : 1); f++) { // features 0 and 2 are equal
			Data d;
			for (auto &x : v)
				d.push_back(x.datum());
			Ev w;
			w.v = v, w.f = f, w.c = k++ % 2;
			typename K::E e = nullptr;
			MC_OK(K::create(env, s, w.c, f, CCS_RESULT_SUCCESS, d.size(), d.data(), &e));
			w.e = Own<typename K::E>(e);
			objective_values<K>(e, o, ps, v);
			evs.push_back(std::move(w));
		}
	for (auto &a : evs)
		for (auto &b : evs) {
			bool err  = false;
			Dom  want = dominance(o, ps, a.v, b.v, &err);
			if (&a == &b)
				want = EQUAL, err = false;
			else if (a.f % 2 != b.f % 2)
				want = INCOMPARABLE;
			ccs_comparison_t c  = (ccs_comparison_t)77;
			ccs_result_t     rc = K::compare(a.e, b.e, &c);
			step();
			std::string what;
			for (auto &x : o)
				what += (x.max ? "max " : "min ") + estr(*x.e, &ps) + "; ";
			if (rc < 0)
				MC_REQ(err, "%s%s: comparing %s with %s returned %d", K::name(), what.c_str(), vstr(a.v).c_str(), vstr(b.v).c_str(), (int)rc);
			else
				MC_REQ((int)c == (int)want, "%s %s: comparing %s with %s says %d, want %d", K::name(), what.c_str(), vstr(a.v).c_str(), vstr(b.v).c_str(), (int)c, (int)want);
			obs((uint64_t)((int)want + 5));
		}
}
static void kinds(const std::vector<RO> &o, const std::vector<std::vector<V>> &grid, int kind, bool bulk)
{
	if (kind == 0)
		pairs<KPlain>(o, grid, bulk);
	else if (kind == 1)
		pairs<KFeat>(o, grid, bulk);
	else
		pairs<KTree>(o, grid, bulk);
}
static std::vector<EP> forms()
{
	auto a = eV(0), b = eV(1), c = eV(2);
	return {a, b, c, eB(CCS_EXPRESSION_TYPE_ADD, a, b), eB(CCS_EXPRESSION_TYPE_MULTIPLY, a, c), eO(CCS_EXPRESSION_TYPE_NEGATIVE, {b})};
}
static std::vector<std::vector<V>> grid3(const std::vector<V> &fa, const std::vector<V> &fb, const std::vector<V> &fc)
{
	std::vector<std::vector<V>> g;
	for (auto &x : fa)
		for (auto &y : fb)
			for (auto &z : fc)
				g.push_back({x, y, z});
	return g;
}
// one to three objectives with every direction and a family of expressions
MC_SUITE(directions)
{
	int             kind = choose(3, "kind"), n = choose(4, "objectives");
	std::vector<RO> o;
	auto            f = forms();
	for (int i = 0; i < n; i++) {
		RO r;
		r.e   = pick(n == 3 ? std::vector<EP>{f[0], f[1], f[2]} : f, "objective");
		r.max = flip("maximize");
		o.push_back(r);
	}
	bool bulk = flip();
	shard_point();
	if (n >= 2)
		nontrivial();
	int m = tier_bound(2, 3);
	std::vector<V> fl = {V::F(0), V::F(1), V::F(2)}, in = {V::I(1), V::I(2), V::I(0)};
	fl.resize((size_t)m), in.resize((size_t)m);
	if (n == 1)
		fl = {V::F(0), V::F(1), V::F(-2.5)};
	kinds(o, grid3(fl, fl, in), kind, bulk);
}
// extreme, undefined and ill-typed outcomes
MC_SUITE(unusual)
{
	int                         kind = choose(3, "kind"), n = 1 + choose(2, "objectives");
	auto                        f    = forms();
	f                                = {f[0], f[2], f[3], eB(CCS_EXPRESSION_TYPE_DIVIDE, eL(V::I(6)), eV(2)), eB(CCS_EXPRESSION_TYPE_LESS, eV(0), eV(1))};
	std::vector<RO>             o;
	for (int i = 0; i < n; i++) {
		RO r;
		r.e   = pick(f, "objective");
		r.max = flip("maximize");
		o.push_back(r);
	}
	shard_point();
	nontrivial();
	std::vector<V> fa = {V::F(0), V::F(-1), V::F(NAN), V::F(INFINITY), V::I(1), V::none(), V::inactive()}, fb = {V::F(1), V::S("s")},
		       fc = {V::I(0), V::I(1), V::I(INT64_MIN), V::I(INT64_MAX)};
	if (n == 2)
		fb = {V::F(1)}, fc = {V::I(0), V::I(INT64_MAX)};
	kinds(o, grid3(fa, fb, fc), kind, true);
}
// failed evaluations and evaluations of different objective spaces are never ordered
template <class K> static void unordered(int ra, int rb, int how, int other, int va, int vb)
{
	std::vector<RP>  ps = params();
	std::vector<RO>  o  = {{eV(0), false}};
	std::vector<Par> own1, own2;
	EvEnv            env(2, 1);
	OSp              s1 = objective_space(ps, o, own1, true), s2 = objective_space(ps, o, own2, true);
	ccs_evaluation_result_t res[3] = {CCS_RESULT_SUCCESS, CCS_RESULT_ERROR_OUT_OF_MEMORY, (ccs_evaluation_result_t)5};
	auto mk = [&](ccs_objective_space_t s, int r, int v, int c) {
		ccs_datum_t   d[3] = {ccs_float(v), ccs_float(0), ccs_int(0)};
		typename K::E e    = nullptr;
		if (how == 0)
			MC_OK(K::create(env, s, c, 0, res[r], 3, d, &e));
		else {
			MC_OK(K::create(env, s, c, 0, res[2 - r], 3, d, &e));
			MC_OK(K::set_result(e, res[r]));
		}
		ccs_evaluation_result_t got;
		MC_OK(K::result(e, &got));
		MC_CHECK(got == res[r]);
		typename K::C cc = nullptr;
		MC_OK(K::configuration(e, &cc));
		MC_CHECK(cc == K::config(env, c));
		return Own<typename K::E>(e);
	};
	auto a = mk(s1, ra, va, 0), b = mk(other ? s2 : s1, rb, vb, 1);
	ccs_comparison_t c  = (ccs_comparison_t)77;
	ccs_result_t     rc = K::compare(a, b, &c);
	step("compare -> %d", (int)rc);
	bool ordered = !ra && !rb && !other;
	if (ordered)
		MC_CHECK(rc == CCS_RESULT_SUCCESS && (int)c == (va < vb ? BETTER : va > vb ? WORSE : EQUAL));
	else
		MC_REQ(rc < 0 || (int)c == INCOMPARABLE, "%s: results %d and %d, %s objective space: compare gives %d (code %d)", K::name(), ra, rb, other ? "another" : "same", (int)c, (int)rc);
	obs((uint64_t)rc * 8 + (uint64_t)c);
	MC_OK(K::compare(a, a, &c));
	MC_CHECK((int)c == EQUAL);
}
MC_SUITE(never_ordered)
{
	int kind = choose(3, "kind"), ra = choose(3), rb = choose(3), how = choose(2), other = choose(2), va = choose(2), vb = choose(2);
	shard_point();
	nontrivial();
	if (kind == 0)
		unordered<KPlain>(ra, rb, how, other, va, vb);
	else if (kind == 1)
		unordered<KFeat>(ra, rb, how, other, va, vb);
	else
		unordered<KTree>(ra, rb, how, other, va, vb);
}
// many objectives, of which those at either end and in the middle differ
MC_SUITE(sizes)
{
	int kind = choose(3, "kind"), n = pick(std::vector<int>{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129, 257}, "objectives"), dirs = choose(4, "directions");
	bool bulk = flip("together");
	shard_point();
	nontrivial();
	MANY = n;
	std::vector<RO> o;
	for (int i = 0; i < n; i++)
		o.push_back({eV(n - 1 - i), dirs == 0 ? false : dirs == 1 ? true : dirs == 2 ? i % 2 == 0 : i >= n / 2});
	std::vector<std::vector<V>> grid;
	std::vector<int>            at = {0, 1, n / 2, n - 1};
	for (int m = 0; m < 16; m++) {
		std::vector<V> v;
		for (int i = 0; i < n; i++)
			v.push_back(V::F(i % 7));
		for (int k = 0; k < 4; k++)
			if (m >> k & 1)
				v[(size_t)at[(size_t)k]] = V::F(9);
		grid.push_back(v);
	}
	if (n > 33)
		grid = {grid[0], grid[1], grid[8], grid[9], grid[4], grid[15]};
	kinds(o, grid, kind, bulk);
	MANY = 0;
}
// parameters and objectives added while evaluations exist: an evaluation has no value for the parameters younger than itself
template <class K> static void grow()
{
	std::vector<RP>  all = params();
	std::vector<Par> own;
	for (auto &r : all)
		own.push_back(r.make());
	std::vector<ccs_parameter_t> hp(own.begin(), own.end());
	EvEnv                        env(2, 2);
	OSp                          s  = mkos("os", {});
	size_t                       np = 0;
	std::vector<RO>              o;
	std::vector<Exp>             keep;
	struct Ev { Own<typename K::E> e; std::vector<V> v; int f; };
	std::vector<Ev> evs;
	auto            f = forms();
	size_t          need[] = {1, 2, 3, 2, 3, 2};
	int             depth = tier_bound(5, 6);
	for (int i = 0; i < depth; i++) {
		int op = choose(3, "operation");
		if (i == 2)
			shard_point();
		if (op == 0) {
			int n = 1 + choose(2, "how many");
			if (np + (size_t)n > 3)
				prune();
			if (n == 1)
				MC_OK(ccs_objective_space_add_parameter(s, hp[np]));
			else
				MC_OK(ccs_objective_space_add_parameters(s, 2, hp.data() + np));
			np += (size_t)n;
		} else if (op == 1) {
			size_t k = (size_t)choose(tier_bound(5, 6), "objective");
			if (need[k] > np)
				prune();
			// the same objective twice adds nothing here
			for (auto &x : o)
				if (x.e == f[k])
					prune();
			RO r{f[k], k % 2 == 1};
			keep.push_back(build(*r.e, hp, true));
			MC_OK(ccs_objective_space_add_objective(s, keep.back(), r.max ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE));
			o.push_back(r);
		} else {
			if (evs.size() == 3)
				prune();
			Ev   w;
			Data d;
			int  x = (int)evs.size();
			for (size_t j = 0; j < np; j++) {
				w.v.push_back(j == 2 ? V::I(x + 1) : V::F(j == 1 ? 2 - x : x));
				d.push_back(w.v.back().datum());
			}
			w.f             = K::features ? choose(2, "features") : 0;
			typename K::E e = nullptr;
			MC_OK(K::create(env, s, x % 2, w.f, CCS_RESULT_SUCCESS, d.size(), d.empty() ? nullptr : d.data(), &e));
			w.e = Own<typename K::E>(e);
			evs.push_back(std::move(w));
		}
		step("operation %d: %zu parameters, %zu objectives, %zu evaluations", op, np, o.size(), evs.size());
		std::vector<RP>             ps(all.begin(), all.begin() + (long)np);
		std::vector<std::vector<V>> vs;
		for (auto &w : evs) {
			vs.push_back(w.v);
			vs.back().resize(np, V::none());
			if (w.v.size() < np)
				nontrivial();
			objective_values<K>(w.e, o, ps, vs.back());
		}
		for (size_t a = 0; a < evs.size(); a++)
			for (size_t b = 0; b < evs.size(); b++) {
				bool err  = false;
				Dom  want = dominance(o, ps, vs[a], vs[b], &err);
				if (a == b)
					want = EQUAL, err = false;
				else if (evs[a].f != evs[b].f)
					want = INCOMPARABLE;
				ccs_comparison_t c  = (ccs_comparison_t)77;
				ccs_result_t     rc = K::compare(evs[a].e, evs[b].e, &c);
				if (rc < 0)
					MC_REQ(err, "%s: comparing %s with %s returned %d", K::name(), vstr(vs[a]).c_str(), vstr(vs[b]).c_str(), (int)rc);
				else
					MC_REQ((int)c == (int)want, "%s: comparing %s with %s says %d, want %d", K::name(), vstr(vs[a]).c_str(), vstr(vs[b]).c_str(), (int)c, (int)want);
				obs((uint64_t)((int)want + 5));
			}
	}
}
MC_SUITE(grows)
{
	int kind = choose(3, "kind");
	if (kind == 0)
		grow<KPlain>();
	else if (kind == 1)
		grow<KFeat>();
	else
		grow<KTree>();
}
