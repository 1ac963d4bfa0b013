// Operation sequences on random tuners against an exact reference of history and optima.
#pragma once
#include "eval_kinds.hpp"

struct TPlain : KPlain {
	typedef ccs_tuner_t T;
	static ccs_result_t make(EvEnv &v, ccs_objective_space_t os, T *t) { return ccs_create_random_tuner("tuner", v.cs, os, t); }
	static ccs_result_t ask(EvEnv &, T t, int, size_t n, C *c, size_t *r) { return ccs_tuner_ask(t, n, c, r); }
	static ccs_result_t tell(T t, size_t n, E *e) { return ccs_tuner_tell(t, n, e); }
	static ccs_result_t suggest(EvEnv &, T t, int, C *c) { return ccs_tuner_suggest(t, c); }
	static ccs_result_t optima(EvEnv &, T t, int, size_t n, E *e, size_t *r) { return ccs_tuner_get_optima(t, n, e, r); }
	static ccs_result_t history(EvEnv &, T t, int, size_t n, E *e, size_t *r) { return ccs_tuner_get_history(t, n, e, r); }
	static ccs_result_t ccheck(C c, ccs_bool_t *b) { return ccs_configuration_check(c, b); }
	static bool         cspace(EvEnv &v, C c)
	{
		ccs_configuration_space_t s = nullptr;
		return ccs_configuration_get_configuration_space(c, &s) == CCS_RESULT_SUCCESS && s == v.cs.get();
	}
	static void rng(EvEnv &v, ccs_rng_t g) { OKX(ccs_configuration_space_set_rng(v.cs, g)); }
};
struct TFeat : KFeat {
	typedef ccs_features_tuner_t T;
	static ccs_features_t f(EvEnv &v, int i) { return i < 0 ? nullptr : v.fea[(size_t)i].get(); }
	static ccs_result_t make(EvEnv &v, ccs_objective_space_t os, T *t) { return ccs_create_random_features_tuner("tuner", v.cs, v.fs, os, t); }
	static ccs_result_t ask(EvEnv &v, T t, int i, size_t n, C *c, size_t *r) { return ccs_features_tuner_ask(t, f(v, i), n, c, r); }
	static ccs_result_t tell(T t, size_t n, E *e) { return ccs_features_tuner_tell(t, n, e); }
	static ccs_result_t suggest(EvEnv &v, T t, int i, C *c) { return ccs_features_tuner_suggest(t, f(v, i), c); }
	static ccs_result_t optima(EvEnv &v, T t, int i, size_t n, E *e, size_t *r) { return ccs_features_tuner_get_optima(t, f(v, i), n, e, r); }
	static ccs_result_t history(EvEnv &v, T t, int i, size_t n, E *e, size_t *r) { return ccs_features_tuner_get_history(t, f(v, i), n, e, r); }
	static ccs_result_t ccheck(C c, ccs_bool_t *b) { return ccs_configuration_check(c, b); }
	static bool         cspace(EvEnv &v, C c) { return TPlain::cspace(v, c); }
	static void         rng(EvEnv &v, ccs_rng_t g) { TPlain::rng(v, g); }
};
struct TTree : KTree {
	typedef ccs_tree_tuner_t T;
	static ccs_result_t make(EvEnv &v, ccs_objective_space_t os, T *t) { return ccs_create_random_tree_tuner("tuner", v.ts, os, t); }
	static ccs_result_t ask(EvEnv &, T t, int, size_t n, C *c, size_t *r) { return ccs_tree_tuner_ask(t, n, c, r); }
	static ccs_result_t tell(T t, size_t n, E *e) { return ccs_tree_tuner_tell(t, n, e); }
	static ccs_result_t suggest(EvEnv &, T t, int, C *c) { return ccs_tree_tuner_suggest(t, c); }
	static ccs_result_t optima(EvEnv &, T t, int, size_t n, E *e, size_t *r) { return ccs_tree_tuner_get_optima(t, n, e, r); }
	static ccs_result_t history(EvEnv &, T t, int, size_t n, E *e, size_t *r) { return ccs_tree_tuner_get_history(t, n, e, r); }
	static ccs_result_t ccheck(C c, ccs_bool_t *b) { return ccs_tree_configuration_check(c, b); }
	static bool         cspace(EvEnv &v, C c)
	{
		ccs_tree_space_t s = nullptr;
		return ccs_tree_configuration_get_tree_space(c, &s) == CCS_RESULT_SUCCESS && s == v.ts.get();
	}
	static void rng(EvEnv &v, ccs_rng_t g) { OKX(ccs_tree_space_set_rng(v.ts, g)); }
};
// what is told: an outcome (values of the objective parameters), features and a result
struct Told {
	std::vector<V> v;
	int            f = 0, c = 0;
	bool           failed = false;
};
template <class K> struct TunerWorld {
	EvEnv            env;
	std::vector<RP>  ps;
	std::vector<RO>  ob;
	std::vector<Par> own;
	OSp              os;
	Own<typename K::T> t;
	std::vector<Told>                told; // every evaluation made
	std::vector<Own<typename K::E>>  ev;
	std::vector<int>                 hist; // told successfully, in order (indices in ev)
	TunerWorld(int ncfg, int nfea, const std::vector<RP> &p, const std::vector<RO> &o) : env(ncfg, nfea), ps(p), ob(o)
	{
		std::vector<ccs_parameter_t> h;
		for (auto &r : ps)
			own.push_back(r.make()), h.push_back(own.back());
		os = mkos("os", h);
		for (auto &x : ob) {
			Exp e = build(*x.e, h, true);
			OKX(ccs_objective_space_add_objective(os, e, x.max ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE));
		}
		OKX(K::make(env, os, t.ret()));
	}
	int mk(const Told &w)
	{
		Data d;
		for (auto &x : w.v)
			d.push_back(x.datum());
		typename K::E e = nullptr;
		OKX(K::create(env, os, w.c, w.f, w.failed ? CCS_RESULT_ERROR_OUT_OF_BOUNDS : CCS_RESULT_SUCCESS, d.size(), d.data(), &e));
		ev.push_back(Own<typename K::E>(e));
		told.push_back(w);
		return (int)ev.size() - 1;
	}
	void tell(const std::vector<int> &ids)
	{
		std::vector<typename K::E> h;
		for (int i : ids)
			h.push_back(ev[(size_t)i]);
		ccs_result_t rc = K::tell(t, h.size(), h.empty() ? nullptr : h.data());
		std::string  s;
		for (int i : ids)
			s += vstr(told[(size_t)i].v) + (told[(size_t)i].failed ? "(failed) " : "") + (K::features ? strf("f%d ", told[(size_t)i].f % env.nfea) : "");
		mc::step("tell %s-> %d", s.c_str(), (int)rc);
		MC_REQ(rc == CCS_RESULT_SUCCESS, "tell returned %d", (int)rc);
		for (int i : ids)
			if (!told[(size_t)i].failed)
				hist.push_back(i);
	}
	bool same_feat(int a, int b) { return !K::features || told[(size_t)a].f % env.nfea == told[(size_t)b].f % env.nfea; }
	Dom  dom(int a, int b)
	{
		if (!same_feat(a, b))
			return INCOMPARABLE;
		return dominance(ob, ps, told[(size_t)a].v, told[(size_t)b].v);
	}
	// f < 0: no features given; otherwise an index into env.fea
	bool sel(int f, int id) { return f < 0 || told[(size_t)id].f % env.nfea == f % env.nfea; }
	std::vector<int> front(int f)
	{
		std::vector<int> o;
		for (int i : hist) {
			bool dominated = false;
			for (int j : hist)
				dominated = dominated || dom(j, i) == BETTER;
			if (!dominated && sel(f, i))
				o.push_back(i);
		}
		return o;
	}
	int id_of(typename K::E e)
	{
		for (size_t i = 0; i < ev.size(); i++)
			if (ev[i].get() == e)
				return (int)i;
		return -1;
	}
	// a list query in arrays of every size around the right one
	template <class Q> std::vector<int> list(Q q, const char *what, bool all_sizes)
	{
		size_t n = 9999;
		MC_OK(q((size_t)0, (typename K::E *)nullptr, &n));
		MC_REQ(n <= 5000, "%s reports %zu evaluations", what, n);
		std::vector<int> r;
		for (size_t len = all_sizes ? 1 : n; len <= n + (all_sizes ? 2 : 0); len++) {
			if (len == 0)
				continue;
			std::unique_ptr<typename K::E[]> a(new typename K::E[len]);
			for (size_t i = 0; i < len; i++)
				a[i] = (typename K::E)8;
			size_t       m  = 7777;
			ccs_result_t rc = q(len, a.get(), &m);
			mc::step();
			if (len < n) {
				MC_REQ(rc == CCS_RESULT_ERROR_INVALID_VALUE, "%s: %zu entries in an array of %zu: %d", what, n, len, (int)rc);
				for (size_t i = 0; i < len; i++)
					MC_REQ(a[i] == (typename K::E)8, "%s: refused query wrote its array", what);
				continue;
			}
			MC_REQ(rc == CCS_RESULT_SUCCESS && m == n, "%s: %d, %zu entries of %zu", what, (int)rc, m, n);
			std::vector<int> x;
			for (size_t i = 0; i < len; i++)
				if (i < n) {
					x.push_back(id_of(a[i]));
					MC_REQ(x.back() >= 0, "%s returned an evaluation that was never told", what);
				} else
					MC_REQ(a[i] == nullptr, "%s: extra entries are not cleared", what);
			if (!r.empty())
				MC_CHECK(r == x);
			r = x;
			MC_OK(q(len, a.get(), nullptr));
		}
		return r;
	}
	void check_view(int f, bool sizes)
	{
		auto h = list([&](size_t n, typename K::E *e, size_t *r) { return K::history(env, t, f, n, e, r); }, "history", sizes);
		std::vector<int> want;
		for (int i : hist)
			if (sel(f, i))
				want.push_back(i);
		MC_REQ(h == want, "history has %zu evaluations (features %d), told %zu successfully, or another order", h.size(), f, want.size());
		auto o = list([&](size_t n, typename K::E *e, size_t *r) { return K::optima(env, t, f, n, e, r); }, "optima", sizes);
		auto w = front(f);
		// every reported optimum is non-dominated, none twice and no two equivalent; every non-dominated outcome is represented
		for (size_t i = 0; i < o.size(); i++) {
			MC_REQ(std::find(w.begin(), w.end(), o[i]) != w.end(), "evaluation %s is reported optimal (features %d) but is dominated or was not told", vstr(told[(size_t)o[i]].v).c_str(), f);
			for (size_t j = 0; j < i; j++)
				MC_REQ(o[i] != o[j] && dom(o[i], o[j]) == INCOMPARABLE, "two equivalent optima are reported");
		}
		for (int i : w) {
			bool rep = false;
			for (int j : o)
				rep = rep || j == i || dom(j, i) == EQUAL;
			MC_REQ(rep, "non-dominated evaluation %s is not represented among the optima (features %d)", vstr(told[(size_t)i].v).c_str(), f);
		}
		mc::obs(o.size() * 131 + h.size());
		for (int i : o)
			mc::obs((uint64_t)i);
	}
	void check(bool sizes = false)
	{
		if (!K::features)
			check_view(-1, sizes);
		else
			for (int f = -1; f < 2 * env.nfea; f++)
				check_view(f, sizes && f <= 0);
		// the tuner keeps one reference per time an evaluation was told
		for (size_t i = 0; i < ev.size(); i++) {
			int n = (int)std::count(hist.begin(), hist.end(), (int)i);
			MC_REQ(refcount(ev[i]) == 1 + n, "evaluation told %d times has %d references", n, refcount(ev[i]));
		}
	}
	void judge(typename K::C c, const char *what)
	{
		MC_REQ(c != nullptr && K::cspace(env, c), "%s is not a configuration of the tuner's space", what);
		ccs_bool_t b = CCS_FALSE;
		MC_OK(K::ccheck(c, &b));
		MC_REQ(b == CCS_TRUE, "%s is not valid", what);
	}
	void ask(int f, size_t n)
	{
		size_t k = 0;
		MC_OK(K::ask(env, t, f, 0, nullptr, &k));
		MC_CHECK(k == 1);
		std::vector<typename K::C> c(n + 1, (typename K::C)8);
		k = 99;
		MC_OK(K::ask(env, t, f, n, c.data(), &k));
		MC_REQ(k == n && c[n] == (typename K::C)8, "asked %zu configurations, got %zu", n, k);
		std::vector<Own<typename K::C>> o;
		for (size_t i = 0; i < n; i++)
			o.push_back(Own<typename K::C>(c[i]));
		for (auto &x : o) {
			judge(x, "asked configuration");
			MC_CHECK(refcount(x) == 1);
		}
	}
	// suggestions under every draw of the generator
	void suggest(int f)
	{
		auto               w = front(f);
		std::set<typename K::C> allowed, seen;
		for (int i : w)
			allowed.insert(K::config(env, told[(size_t)i].c));
		size_t n = 0;
		OKX(K::optima(env, t, f, 0, nullptr, &n));
		size_t rounds = n ? n + 1 : 2;
		for (size_t k = 0; k < rounds; k++) {
			mc::tape_fixed(std::vector<uint32_t>(8, n ? (uint32_t)k : (uint32_t)(k * 0x90000000u)));
			Rng g(mc::tape_rng());
			K::rng(env, g);
			typename K::C c = nullptr;
			MC_OK(K::suggest(env, t, f, &c));
			MC_CHECK(c != nullptr);
			Own<typename K::C> o(c);
			judge(c, "suggestion");
			if (!w.empty()) {
				MC_REQ(allowed.count(c), "the suggestion is not the configuration of an optimum");
				seen.insert(c);
			} else
				for (auto &x : ev)
					(void)x;
		}
		if (!w.empty() && n <= 1)
			MC_CHECK(seen.size() == 1);
	}
};
// long histories: a front built in some order, copies of some of its points and points behind it,
// then points that dominate a range of the front at either end, in its middle or whole
template <class K> static void long_histories()
{
	int  n     = mc::pick(mc::thorough() ? std::vector<int>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257} : std::vector<int>{9, 16, 17, 33, 65, 130}, "front");
	int  order = mc::choose(3, "order"), end = mc::choose(6, "range dominated"), rest = mc::choose(3, "others"), nf = K::features ? mc::choose(2, "features") + 1 : 1;
	bool once = mc::flip("told at once");
	mc::shard_point();
	mc::nontrivial();
	TunerWorld<K> w(5, nf, {RP::numf("a", -10000, 10000, 0), RP::numf("b", -10000, 10000, 0)}, {{eV(0), false}, {eV(1), true}});
	std::vector<int> all;
	auto             put = [&](double x, double y, int f, bool failed = false) {
		Told t;
		t.v      = {V::F(x), V::F(y)};
		t.c      = (int)(all.size() % 5);
		t.f      = f;
		t.failed = failed;
		all.push_back(w.mk(t));
		if (!once)
			w.tell({all.back()});
		if (!once && n <= 17)
			w.check();
	};
	for (int k = 0; k < n; k++) {
		int i = order == 0 ? k : order == 1 ? n - 1 - k : k % 2 ? n - 1 - k / 2 : k / 2;
		for (int f = 0; f < nf; f++)
			put(2 * i, 2 * i, f);
		if (rest == 1 && k % 5 == 0)
			put(2 * i, 2 * i, 0); // a copy
		if (rest == 2 && k % 3 == 0) {
			put(2 * i + 1, 2 * i, 0); // behind
			put(-5000, 5000, 0, true);
		}
	}
	if (once)
		w.tell(all);
	w.check(n <= 17);
	// minimize x, maximize y: (x, y) dominates the points i with x <= 2i and 2i <= y
	int lo = end == 0 ? 0 : end == 1 ? n - 1 : end == 2 ? 0 : end == 3 ? n / 2 : end == 4 ? n / 3 : 1;
	int hi = end == 0 ? 0 : end == 1 ? n - 1 : end == 2 ? n - 1 : end == 3 ? n - 1 : end == 4 ? 2 * n / 3 : n - 2;
	once   = false;
	put(2 * lo - 1, 2 * hi, 0);
	w.check(n <= 17);
	put(2 * lo - 1, 2 * hi + 1, nf - 1);
	w.check();
	w.ask(K::features ? 0 : -1, (size_t)n);
	if (n == 9 || n == 33)
		w.ask(K::features ? 0 : -1, n == 9 ? 257 : 1000);
	if (n <= 33)
		w.suggest(K::features ? 0 : -1);
	put(-9999, 9999, 0);
	w.check(n <= 17);
}
