// P12: declaring parameters, conditions and forbidden clauses, in any sequence.
#include "cspace_ref.hpp"
using namespace mc;

struct World {
	RS               r;
	LS               l;
	Par              z; // never in the space
	std::vector<Exp> ce, fe;
	World()
	{
		static const RP a = RP::en(RP::CAT, "a", {V::B(false), V::B(true)}, 1), b = RP::en(RP::ORD, "b", {V::S("lo"), V::S("hi")}, 0), c = RP::numi("c", -1, 3, 1);
		for (auto &p : {a, b, c}) {
			r.add(p);
			l.add(p);
			ce.emplace_back();
		}
		z = pint("z", 0, 3, 0);
	}
};
static void observe(World &w)
{
	size_t n = w.r.ps.size(), m = 0;
	MC_OK(ccs_configuration_space_get_num_parameters(w.l.s, &m));
	MC_REQ(m == n, "%zu parameters, want %zu", m, n);
	std::vector<ccs_expression_t> e(n + 2, (ccs_expression_t)&m);
	MC_OK(ccs_configuration_space_get_conditions(w.l.s, n + 1, e.data(), &m));
	MC_CHECK(m == n && e[n] == nullptr && e[n + 1] == (ccs_expression_t)&m);
	for (size_t i = 0; i < n; i++) {
		MC_REQ(e[i] == w.ce[i].get(), "condition %zu reported wrongly", i);
		ccs_expression_t x;
		MC_OK(ccs_configuration_space_get_condition(w.l.s, i, &x));
		MC_CHECK(x == e[i]);
		ccs_parameter_t p;
		MC_OK(ccs_configuration_space_get_parameter(w.l.s, i, &p));
		MC_CHECK(p == w.l.p[i]);
	}
	ccs_expression_t keep = (ccs_expression_t)&m, x = keep;
	MC_RET(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_configuration_space_get_condition(w.l.s, n, &x));
	MC_RET(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_configuration_space_get_condition(w.l.s, (size_t)1 << 32, &x));
	size_t nf = w.fe.size();
	std::vector<ccs_expression_t> f(nf + 2, keep);
	MC_OK(ccs_configuration_space_get_forbidden_clauses(w.l.s, nf + 1, f.data(), &m));
	MC_REQ(m == nf && f[nf] == nullptr && f[nf + 1] == keep, "%zu clauses, want %zu", m, nf);
	for (size_t i = 0; i < nf; i++) {
		MC_REQ(f[i] == w.fe[i].get(), "clause %zu reported wrongly", i);
		MC_OK(ccs_configuration_space_get_forbidden_clause(w.l.s, i, &x));
		MC_CHECK(x == f[i]);
	}
	x = keep;
	MC_RET(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_configuration_space_get_forbidden_clause(w.l.s, nf, &x));
	MC_CHECK(x == keep);
	if (n > 1) {
		std::vector<ccs_expression_t> few(n - 1, keep);
		MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_configuration_space_get_conditions(w.l.s, n - 1, few.data(), &m));
		for (auto q : few)
			MC_CHECK(q == keep);
	}
	if (nf > 1) {
		std::vector<ccs_expression_t> few(nf - 1, keep);
		MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_configuration_space_get_forbidden_clauses(w.l.s, nf - 1, few.data(), &m));
		for (auto q : few)
			MC_CHECK(q == keep);
	}
	// the default configuration is always valid
	std::vector<V> d;
	MC_CHECK(w.r.defaults(d));
	Cfg c;
	MC_OK(ccs_configuration_space_get_default_configuration(w.l.s, c.ret()));
	auto got = cfg_values(c, n);
	MC_REQ(same(got, d), "default is %s, want %s in %s", vstr(got).c_str(), vstr(d).c_str(), sstr(w.r).c_str());
	ccs_bool_t ok = 9;
	MC_OK(ccs_configuration_check(c, &ok));
	MC_REQ(ok == CCS_TRUE, "the default configuration of %s is invalid", sstr(w.r).c_str());
}
static EP at(World &w, int j, int k)
{
	const RP &p = w.r.ps[(size_t)j];
	if (p.k == RP::NUMI)
		return eB(k ? CCS_EXPRESSION_TYPE_GREATER : CCS_EXPRESSION_TYPE_LESS_OR_EQUAL, eV(j), eL(V::I(0)));
	return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(j), eL(p.vals[(size_t)k]));
}
static void do_condition(World &w, size_t i, EP f)
{
	Exp e = build(*f, w.l.p, true);
	auto before = ser((ccs_object_t)w.l.s.get());
	step("set_condition %zu %s", i, estr(*f).c_str());
	ccs_result_t rc = ccs_configuration_space_set_condition(w.l.s, i, e);
	ccs_result_t want = CCS_RESULT_SUCCESS;
	if (i >= w.r.ps.size())
		want = CCS_RESULT_ERROR_OUT_OF_BOUNDS;
	else if (w.r.cond[i])
		want = CCS_RESULT_ERROR_INVALID_PARAMETER;
	else {
		w.r.cond[i] = f;
		if (w.r.cyclic()) {
			want        = CCS_RESULT_ERROR_INVALID_GRAPH;
			w.r.cond[i] = nullptr;
		}
	}
	MC_REQ(rc == want, "set_condition(%zu, %s) on %s returned %d, want %d", i, estr(*f).c_str(), sstr(w.r).c_str(), (int)rc, (int)want);
	if (rc == CCS_RESULT_SUCCESS)
		w.ce[i] = std::move(e);
	else {
		MC_REQ(ser((ccs_object_t)w.l.s.get()) == before, "a refused condition changed the space");
		MC_CHECK(refcount(e) == 1);
		nontrivial();
	}
}
static ccs_result_t clause_verdict(World &w, const E &f)
{
	std::vector<V> d;
	MC_CHECK(w.r.defaults(d));
	V v = ref_eval(f, w.r.ps, d);
	return v.t == V::ERR ? CCS_RESULT_ERROR_INVALID_VALUE : RS::holds(v) ? CCS_RESULT_ERROR_INVALID_CONFIGURATION : CCS_RESULT_SUCCESS;
}
static void do_forbid(World &w, EP f)
{
	Exp  e      = build(*f, w.l.p, true);
	auto before = ser((ccs_object_t)w.l.s.get());
	step("add_forbidden_clause %s", estr(*f).c_str());
	ccs_result_t rc = ccs_configuration_space_add_forbidden_clause(w.l.s, e), want = clause_verdict(w, *f);
	MC_REQ(rc == want, "add_forbidden_clause(%s) on %s returned %d, want %d", estr(*f, &w.r.ps).c_str(), sstr(w.r).c_str(), (int)rc, (int)want);
	if (rc == CCS_RESULT_SUCCESS) {
		w.r.forb.push_back(f);
		w.fe.push_back(std::move(e));
	} else {
		MC_REQ(ser((ccs_object_t)w.l.s.get()) == before, "a refused clause changed the space");
		MC_CHECK(refcount(e) == 1);
		nontrivial();
	}
}
static EP clause(World &w, int k)
{
	int last = (int)w.r.ps.size() - 1;
	switch (k) {
	case 0: return at(w, 0, 0);
	case 1: return at(w, 0, 1); // holds on the default unless a is inactive
	case 2: return eB(CCS_EXPRESSION_TYPE_AND, at(w, 1, 1), at(w, 2, 1));
	case 3: return eB(CCS_EXPRESSION_TYPE_OR, at(w, last, 0), at(w, 1, 0));
	default: return eB(CCS_EXPRESSION_TYPE_LESS, eV(0), eL(V::B(true))); // ill typed
	}
}
static void operation(World &w)
{
	int n = (int)w.r.ps.size();
	switch (choose(thorough() ? 8 : 7, "operation")) {
	case 0: { // simple condition
		int i = choose(n, "target"), j = choose(n, "on");
		do_condition(w, (size_t)i, at(w, j, 1));
		break;
	}
	case 1: { // condition on two others
		int i = choose(3, "target");
		int j = (i + 1) % 3, k = (i + 2) % 3;
		do_condition(w, (size_t)i, eB(flip() ? CCS_EXPRESSION_TYPE_OR : CCS_EXPRESSION_TYPE_AND, at(w, j, 1), at(w, k, 0)));
		break;
	}
	case 2: do_forbid(w, clause(w, choose(5, "clause"))); break;
	case 3: { // foreign parameter in a condition or a clause, bad positions, bad handles
		auto before = ser((ccs_object_t)w.l.s.get());
		Exp  e      = ebin(CCS_EXPRESSION_TYPE_EQUAL, od(w.z), ccs_int(2));
		switch (choose(6, "misuse")) {
		case 0: {
			bool taken = w.r.cond[0] != nullptr;
			(void)taken;
			MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_set_condition(w.l.s, 0, e));
			break;
		}
		case 1: MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_add_forbidden_clause(w.l.s, e)); break;
		case 2: MC_RET(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_configuration_space_set_condition(w.l.s, (size_t)n, e)); break;
		case 3: MC_RET(CCS_RESULT_ERROR_INVALID_OBJECT, ccs_configuration_space_set_condition(w.l.s, 0, (ccs_expression_t)w.z.get())); break;
		case 4: MC_RET(CCS_RESULT_ERROR_INVALID_OBJECT, ccs_configuration_space_add_forbidden_clause(w.l.s, nullptr)); break;
		default: { // partly foreign
			Exp g = ebin(CCS_EXPRESSION_TYPE_AND, od(e), ccs_bool(CCS_TRUE));
			Exp h = ebin(CCS_EXPRESSION_TYPE_OR, ccs_object(w.l.p[0]), od(g));
			MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_set_condition(w.l.s, (size_t)n - 1, h));
			MC_CHECK(refcount(h) == 1);
			break;
		}
		}
		MC_CHECK(refcount(e) == 1);
		MC_REQ(ser((ccs_object_t)w.l.s.get()) == before, "a refused call changed the space");
		break;
	}
	case 4: { // several clauses: as if declared one by one up to the first refused
		int k1 = choose(3), k2 = choose(3);
		EP  f[3] = {clause(w, k1), clause(w, k2), clause(w, 2)};
		std::vector<Exp>              e;
		std::vector<ccs_expression_t> h;
		for (auto &x : f) {
			e.push_back(build(*x, w.l.p, true));
			h.push_back(e.back());
		}
		ccs_result_t want = CCS_RESULT_SUCCESS;
		size_t       good = 0;
		for (; good < 3 && want == CCS_RESULT_SUCCESS; good++)
			if ((want = clause_verdict(w, *f[good])) != CCS_RESULT_SUCCESS)
				break;
		step("add_forbidden_clauses");
		ccs_result_t rc = ccs_configuration_space_add_forbidden_clauses(w.l.s, 3, h.data());
		MC_REQ(rc == want, "add_forbidden_clauses returned %d, want %d", (int)rc, (int)want);
		for (size_t i = 0; i < good; i++) {
			w.r.forb.push_back(f[i]);
			w.fe.push_back(std::move(e[i]));
		}
		for (size_t i = good; i < 3; i++)
			MC_CHECK(refcount(e[i]) == 1);
		break;
	}
	case 5: { // another parameter
		auto before = ser((ccs_object_t)w.l.s.get());
		static const RP d = RP::en(RP::DIS, "d", {V::I(4), V::I(5)}, 1), e = RP::numi("e", 0, 9, 3);
		if (n == 5)
			prune();
		const RP &q = n == 3 ? d : e;
		switch (choose(5, "parameter")) {
		case 0:
			w.r.add(q);
			w.l.add(q);
			w.ce.emplace_back();
			break;
		case 1: { // a name already there
			Par t = pint("b", 0, 5, 1);
			MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_add_parameter(w.l.s, t, nullptr));
			MC_CHECK(refcount(t) == 1);
			MC_REQ(ser((ccs_object_t)w.l.s.get()) == before, "a refused parameter changed the space");
			break;
		}
		case 2: { // the same parameter again
			int rp = refcount(w.l.p[1]);
			MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_add_parameter(w.l.s, w.l.p[1], nullptr));
			MC_CHECK(refcount(w.l.p[1]) == rp);
			MC_REQ(ser((ccs_object_t)w.l.s.get()) == before, "a refused parameter changed the space");
			break;
		}
		case 3: { // strings cannot be configured
			Par t = pstr("text");
			MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_add_parameter(w.l.s, t, nullptr));
			MC_CHECK(refcount(t) == 1);
			MC_REQ(ser((ccs_object_t)w.l.s.get()) == before, "a refused parameter changed the space");
			break;
		}
		default: { // two dimensional distribution for one parameter
			Par  t = q.make();
			Dis  u1, u2, mv;
			OKX(ccs_create_uniform_int_distribution(0, 2, CCS_SCALE_TYPE_LINEAR, 0, u1.ret()));
			ccs_distribution_t two[2] = {u1, u1};
			OKX(ccs_create_multivariate_distribution(2, two, mv.ret()));
			MC_RET(CCS_RESULT_ERROR_INVALID_DISTRIBUTION, ccs_configuration_space_add_parameter(w.l.s, t, mv));
			MC_CHECK(refcount(t) == 1 && refcount(mv) == 1);
			MC_REQ(ser((ccs_object_t)w.l.s.get()) == before, "a refused parameter changed the space");
			break;
		}
		}
		break;
	}
	case 6: { // a condition closing over the last parameter
		int last = n - 1;
		do_condition(w, (size_t)choose(last + 1, "target"), eB(CCS_EXPRESSION_TYPE_OR, at(w, last, 1), at(w, 0, 1)));
		break;
	}
	default: { // several parameters at once: as if added one by one
		static const RP d = RP::en(RP::DIS, "d", {V::I(4), V::I(5)}, 1), e = RP::numi("e", 0, 9, 3);
		if (n != 3)
			prune();
		bool bad = flip();
		w.l.add(d, false);
		w.l.add(e, false);
		Par dup = pint("a", 0, 3, 1);
		ccs_parameter_t ps[3] = {w.l.p[3], bad ? dup.get() : w.l.p[4], nullptr};
		MC_RET(bad ? CCS_RESULT_ERROR_INVALID_PARAMETER : CCS_RESULT_SUCCESS, ccs_configuration_space_add_parameters(w.l.s, 2, ps, nullptr));
		w.r.add(d);
		w.ce.emplace_back();
		if (bad)
			MC_CHECK(refcount(dup) == 1);
		else {
			w.r.add(e);
			w.ce.emplace_back();
		}
		if (bad)
			w.l.p.resize(4);
		break;
	}
	}
}
MC_SUITE(sequences)
{
	int n = tier_bound(3, 4);
	World w;
	observe(w);
	for (int i = 0; i < n; i++) {
		operation(w);
		observe(w);
		if (i == 0)
			shard_point();
	}
	uint64_t h = 0;
	for (auto &c : w.r.cond)
		h = h * 31 + (c ? std::hash<std::string>()(estr(*c)) : 7);
	obs(h + w.r.forb.size());
}

// many conditions and clauses: each is reported at its place, one refused in the middle stops a bulk addition there
MC_SUITE(sizes)
{
	static const std::vector<int> ns{7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 128, 129, 257};
	int n = pick(ns, "size"), bad = choose(4, "refused"), what = choose(3, "what is wrong"), bulk = choose(2, "at once");
	shard_point();
	RS r;
	LS l;
	for (int i = 0; i < n; i++) {
		r.add(RP::numi(strf("p%d", i).c_str(), 0, 10, 1));
		l.add(r.ps.back());
	}
	Par  z  = pint("z", 0, 10, 1);
	int  at = bad == 0 ? -1 : bad == 1 ? 0 : bad == 2 ? n / 2 : n - 1;
	auto lt = [&](int j, int k) { return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(j), eL(V::I(k))); };
	// conditions: i on i - 1; the one at `at` closes a cycle with the last
	std::vector<Exp> ce((size_t)n);
	for (int i = n - 1; i > 0; i--) {
		ce[(size_t)i] = build(*lt(i - 1, 1), l.p, i % 2);
		MC_OK(ccs_configuration_space_set_condition(l.s, (size_t)i, ce[(size_t)i]));
	}
	if (at >= 0) {
		Exp e = build(*lt(at, 1), l.p, true); // p0 on p_at: a cycle, for at = 0 of length one
		MC_RET(CCS_RESULT_ERROR_INVALID_GRAPH, ccs_configuration_space_set_condition(l.s, 0, e));
		MC_CHECK(refcount(e) == 1);
		if (at > 0)
			MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_configuration_space_set_condition(l.s, (size_t)at, e));
	}
	std::vector<ccs_expression_t> got((size_t)n + 2, (ccs_expression_t)8);
	size_t                        m = 0;
	MC_OK(ccs_configuration_space_get_conditions(l.s, (size_t)n + 1, got.data(), &m));
	MC_CHECK(m == (size_t)n && got[(size_t)n] == nullptr && got[(size_t)n + 1] == (ccs_expression_t)8);
	for (int i = 0; i < n; i++) {
		ccs_expression_t x = (ccs_expression_t)8;
		MC_OK(ccs_configuration_space_get_condition(l.s, (size_t)i, &x));
		MC_REQ(x == ce[(size_t)i].get() && got[(size_t)i] == x, "condition %d of %d is not the one declared", i, n);
	}
	// clauses
	std::vector<Exp>              fe;
	std::vector<ccs_expression_t> raw;
	for (int i = 0; i < n; i++) {
		if (i == at && what == 0) // excludes the default
			fe.push_back(build(*lt(i, 1), l.p, true));
		else if (i == at && what == 1) { // of another space
			std::vector<ccs_parameter_t> q(1, z.get());
			fe.push_back(build(*lt(0, 2), q, true));
		} else if (i == at)
			fe.push_back(build(*eB(CCS_EXPRESSION_TYPE_EQUAL, eB(CCS_EXPRESSION_TYPE_MODULO, eL(V::I(1)), eL(V::I(0))), eL(V::I(1))), l.p, true));
		else
			fe.push_back(build(*lt(i, 2 + i % 5), l.p, true));
		raw.push_back(fe.back());
	}
	std::vector<ccs_expression_t> want;
	if (bulk) {
		ccs_result_t rc = ccs_configuration_space_add_forbidden_clauses(l.s, raw.size(), raw.data());
		MC_REQ((rc == CCS_RESULT_SUCCESS) == (at < 0), "adding %d clauses, number %d refused, returned %d", n, at, (int)rc);
		for (int i = 0; i < (at < 0 ? n : at); i++)
			want.push_back(raw[(size_t)i]);
	} else
		for (int i = 0; i < n; i++) {
			ccs_result_t rc = ccs_configuration_space_add_forbidden_clause(l.s, raw[(size_t)i]);
			MC_REQ((rc == CCS_RESULT_SUCCESS) == (i != at), "adding clause %d returned %d", i, (int)rc);
			if (i != at)
				want.push_back(raw[(size_t)i]);
		}
	std::vector<ccs_expression_t> g2(want.size() + 2, (ccs_expression_t)8);
	MC_OK(ccs_configuration_space_get_forbidden_clauses(l.s, want.size() + 1, g2.data(), &m));
	MC_CHECK(m == want.size() && g2[want.size()] == nullptr && g2[want.size() + 1] == (ccs_expression_t)8);
	for (size_t i = 0; i < want.size(); i++) {
		ccs_expression_t x = (ccs_expression_t)8;
		MC_OK(ccs_configuration_space_get_forbidden_clause(l.s, i, &x));
		MC_REQ(x == want[i] && g2[i] == x && refcount(x) == 2, "clause %zu of %zu is not the one declared", i, want.size());
	}
	ccs_expression_t x = (ccs_expression_t)8;
	MC_ERR(ccs_configuration_space_get_forbidden_clause(l.s, want.size(), &x));
	Cfg c;
	MC_OK(ccs_configuration_space_get_default_configuration(l.s, c.ret()));
	for (auto &v : cfg_values(c, (size_t)n))
		MC_CHECK(v == V::I(1));
	obs((uint64_t)want.size());
	nontrivial();
}
