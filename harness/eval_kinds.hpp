// The three kinds of evaluations (plain, with features, of tree configurations) behind one interface,
// and the reference notion of Pareto dominance.
#pragma once
#include "cspace_ref.hpp"

// grows a tree lazily: arity 2 nodes down to depth 2
inline ccs_result_t ev_grow(ccs_tree_space_t, ccs_tree_t parent, size_t index, ccs_tree_t *child)
{
	size_t depth = 0;
	OKX(ccs_tree_get_position(parent, 0, nullptr, &depth));
	return ccs_create_tree(depth < 1 ? 2 : 0, ccs_int((ccs_int_t)index + 1), child);
}
inline ccs_result_t ev_grow_del(ccs_tree_space_t) { return CCS_RESULT_SUCCESS; }
// configurations, features and tree configurations that evaluations refer to
struct EvEnv {
	Par              cp, fp;
	CSp              cs;
	FSp              fs;
	Tre              tree;
	TSp              ts;
	std::vector<Cfg> cfg;
	std::vector<Fea> fea; // fea[i] has feature value i % nfea: equal features exist as distinct objects
	std::vector<TCf> tcf;
	int              nfea;
	static inline bool dynamic = false; // lazily grown tree space
	EvEnv(int ncfg, int nfea_) : nfea(nfea_)
	{
		cp = pint("x", 0, 100, 0);
		cs = mkcs("cs", {cp});
		fp = pcat("f", {ccs_string("f0"), ccs_string("f1"), ccs_string("f2")});
		fs = mkfs("fs", {fp});
		static const char *fn[] = {"f0", "f1", "f2"};
		for (int i = 0; i < ncfg; i++) {
			ccs_datum_t d = ccs_int(i);
			Cfg         c;
			OKX(ccs_create_configuration(cs, 1, &d, c.ret()));
			cfg.push_back(std::move(c));
		}
		for (int i = 0; i < 2 * nfea; i++) {
			ccs_datum_t d = tstr(fn[i % nfea]);
			Fea         f;
			OKX(ccs_create_features(fs, 1, &d, f.ret()));
			fea.push_back(std::move(f));
		}
		OKX(ccs_create_tree((size_t)ncfg, ccs_int(0), tree.ret()));
		if (dynamic) {
			ccs_dynamic_tree_space_vector_t vec = {ev_grow_del, ev_grow, nullptr, nullptr};
			OKX(ccs_create_dynamic_tree_space("ts", tree, &vec, nullptr, ts.ret()));
		} else {
			for (int i = 0; i < ncfg; i++) {
				Tre t;
				OKX(ccs_create_tree(0, ccs_int(i + 1), t.ret()));
				OKX(ccs_tree_set_child(tree, (size_t)i, t));
			}
			OKX(ccs_create_static_tree_space("ts", tree, ts.ret()));
		}
		for (int i = 0; i < ncfg; i++) {
			size_t pos = (size_t)i;
			TCf    c;
			OKX(ccs_create_tree_configuration(ts, 1, &pos, c.ret()));
			tcf.push_back(std::move(c));
		}
	}
};
#define EV_COMMON(P)                                                                                                                                           \
	static ccs_result_t compare(E a, E b, ccs_comparison_t *r) { return ccs_##P##_compare(a, b, r); }                                                      \
	static ccs_result_t objective(E e, size_t i, ccs_datum_t *v) { return ccs_##P##_get_objective_value(e, i, v); }                                        \
	static ccs_result_t objectives(E e, size_t n, ccs_datum_t *v, size_t *r) { return ccs_##P##_get_objective_values(e, n, v, r); }                        \
	static ccs_result_t values(E e, size_t n, ccs_datum_t *v, size_t *r) { return ccs_##P##_get_values(e, n, v, r); }                                      \
	static ccs_result_t value(E e, size_t i, ccs_datum_t *v) { return ccs_##P##_get_value(e, i, v); }                                                      \
	static ccs_result_t set_value(E e, size_t i, ccs_datum_t v) { return ccs_##P##_set_value(e, i, v); }                                                   \
	static ccs_result_t by_name(E e, const char *n, ccs_datum_t *v) { return ccs_##P##_get_value_by_name(e, n, v); }                                       \
	static ccs_result_t space(E e, ccs_objective_space_t *s) { return ccs_##P##_get_objective_space(e, s); }                                               \
	static ccs_result_t result(E e, ccs_evaluation_result_t *r) { return ccs_##P##_get_result(e, r); }                                                     \
	static ccs_result_t set_result(E e, ccs_evaluation_result_t r) { return ccs_##P##_set_result(e, r); }                                                  \
	static ccs_result_t check(E e, ccs_bool_t *b) { return ccs_##P##_check(e, b); }                                                                        \
	static ccs_result_t hash(E e, ccs_hash_t *h) { return ccs_##P##_hash(e, h); }                                                                          \
	static ccs_result_t cmp(E a, E b, int *c) { return ccs_##P##_cmp(a, b, c); }

struct KPlain {
	typedef ccs_evaluation_t E;
	typedef ccs_configuration_t C;
	static const char *name() { return "evaluation"; }
	static const bool  features = false;
	static ccs_result_t create(EvEnv &v, ccs_objective_space_t os, int c, int, ccs_evaluation_result_t r, size_t n, ccs_datum_t *d, E *e)
	{
		return ccs_create_evaluation(os, v.cfg[(size_t)c], r, n, d, e);
	}
	static C config(EvEnv &v, int c) { return v.cfg[(size_t)c]; }
	static ccs_result_t configuration(E e, C *c) { return ccs_evaluation_get_configuration(e, c); }
	EV_COMMON(evaluation)
};
struct KFeat {
	typedef ccs_features_evaluation_t E;
	typedef ccs_configuration_t C;
	static const char *name() { return "features evaluation"; }
	static const bool  features = true;
	static ccs_result_t create(EvEnv &v, ccs_objective_space_t os, int c, int f, ccs_evaluation_result_t r, size_t n, ccs_datum_t *d, E *e)
	{
		return ccs_create_features_evaluation(os, v.cfg[(size_t)c], v.fea[(size_t)f], r, n, d, e);
	}
	static C config(EvEnv &v, int c) { return v.cfg[(size_t)c]; }
	static ccs_result_t configuration(E e, C *c) { return ccs_features_evaluation_get_configuration(e, c); }
	EV_COMMON(features_evaluation)
};
struct KTree {
	typedef ccs_tree_evaluation_t E;
	typedef ccs_tree_configuration_t C;
	static const char *name() { return "tree evaluation"; }
	static const bool  features = false;
	static ccs_result_t create(EvEnv &v, ccs_objective_space_t os, int c, int, ccs_evaluation_result_t r, size_t n, ccs_datum_t *d, E *e)
	{
		return ccs_create_tree_evaluation(os, v.tcf[(size_t)c], r, n, d, e);
	}
	static C config(EvEnv &v, int c) { return v.tcf[(size_t)c]; }
	static ccs_result_t configuration(E e, C *c) { return ccs_tree_evaluation_get_configuration(e, c); }
	EV_COMMON(tree_evaluation)
};

// objectives of the reference
struct RO {
	EP   e;
	bool max;
};
enum Dom { BETTER = -1, EQUAL = 0, WORSE = 1, INCOMPARABLE = 2 };
// a against b; objectives that cannot be computed, are not numbers, or have different types cannot be ordered
inline Dom dominance(const std::vector<RO> &o, const std::vector<RP> &ps, const std::vector<V> &a, const std::vector<V> &b, bool *err = nullptr)
{
	bool better = false, worse = false, inc = false;
	if (err)
		*err = false;
	for (auto &x : o) {
		V u = ref_eval(*x.e, ps, a), v = ref_eval(*x.e, ps, b);
		if (u.t == V::ERR || v.t == V::ERR) {
			if (err)
				*err = true;
			inc = true;
			continue;
		}
		if (!u.num() || u.t != v.t || u.d() != u.d() || v.d() != v.d()) {
			inc = true;
			continue;
		}
		bool lt = u.t == V::INT ? u.i < v.i : u.f < v.f, gt = u.t == V::INT ? u.i > v.i : u.f > v.f;
		if (x.max)
			std::swap(lt, gt);
		better = better || lt;
		worse  = worse || gt;
	}
	return inc || (better && worse) ? INCOMPARABLE : better ? BETTER : worse ? WORSE : EQUAL;
}
