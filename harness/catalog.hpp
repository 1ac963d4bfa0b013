// One object of every kind the library can serialize, with its variants as choices.
#pragma once
#include "describe.hpp"
#include <float.h>

// user data: interned strings
inline const int UD_SHORT = 4, UD_N = 14;
inline const std::vector<const char *> &ud_pool()
{
	static const std::vector<const char *> v = [] {
		std::vector<const char *> p = {"u", "", "user data 1", "a much longer piece of user data, that takes more than one byte to give its length 0123456789012345678901234567890123456789"};
		// sizes around those where the length takes more bytes
		for (size_t n : {126, 127, 128, 200, 255, 256, 16382, 16383, 65535, 70000}) {
			char *s = (char *)malloc(n + 1);
			for (size_t i = 0; i < n; i++)
				s[i] = (char)('a' + i % 26);
			s[n] = 0;
			p.push_back(s);
		}
		return p;
	}();
	return v;
}
inline ccs_result_t ud_ser(ccs_object_t o, size_t sz, void *buf, size_t *ret, void *)
{
	void *d = nullptr;
	OKX(ccs_object_get_user_data(o, &d));
	size_t n = strlen((const char *)d) + 1;
	if (buf) {
		if (sz < n)
			mc::fail("user data callback given %zu bytes instead of %zu", sz, n);
		memcpy(buf, d, n);
	}
	if (ret)
		*ret = n;
	return CCS_RESULT_SUCCESS;
}
inline ccs_result_t ud_deser(ccs_object_t o, size_t sz, const char *buf, void *)
{
	std::string s(buf, sz); // reads all of it
	for (auto p : ud_pool())
		if (s.size() == strlen(p) + 1 && !strcmp(p, s.c_str()))
			return ccs_object_set_user_data(o, (void *)p);
	return ccs_object_set_user_data(o, (void *)"unknown");
}
// state of a user defined tuner or dynamic space
struct UD {
	std::string       state;
	std::vector<Obj>  history, optima;
	int               deleted = 0, restored = 0;
	ccs_result_t      fail    = CCS_RESULT_SUCCESS; // what the restoring callback answers
};
inline std::set<UD *> &ud_all()
{
	static std::set<UD *> s;
	return s;
}
inline std::string ud_text(ccs_object_t, void *d)
{
	if (!d)
		return "none";
	if (ud_all().count((UD *)d))
		return "[" + ((UD *)d)->state + "]";
	return (const char *)d;
}
template <class T> UD *ud_of(T t);
template <> inline UD *ud_of(ccs_tuner_t t)
{
	void *d = nullptr;
	OKX(ccs_user_defined_tuner_get_tuner_data(t, &d));
	return (UD *)d;
}
template <> inline UD *ud_of(ccs_features_tuner_t t)
{
	void *d = nullptr;
	OKX(ccs_user_defined_features_tuner_get_tuner_data(t, &d));
	return (UD *)d;
}
template <> inline UD *ud_of(ccs_tree_tuner_t t)
{
	void *d = nullptr;
	OKX(ccs_user_defined_tree_tuner_get_tuner_data(t, &d));
	return (UD *)d;
}
template <> inline UD *ud_of(ccs_tree_space_t t)
{
	void *d = nullptr;
	OKX(ccs_dynamic_tree_space_get_tree_space_data(t, &d));
	return (UD *)d;
}
template <class E> ccs_result_t ud_get(std::vector<Obj> &v, size_t n, E *e, size_t *r)
{
	if (e) {
		if (n < v.size())
			return CCS_RESULT_ERROR_INVALID_VALUE;
		for (size_t i = 0; i < n; i++)
			e[i] = i < v.size() ? (E)v[i].get() : nullptr;
	}
	if (r)
		*r = v.size();
	return CCS_RESULT_SUCCESS;
}
inline void ud_push(std::vector<Obj> &v, ccs_object_t o)
{
	OKX(ccs_retain_object(o));
	v.emplace_back(o);
}
template <class T, class E> struct UDV {
	static ccs_result_t del(T t)
	{
		UD *u = ud_of(t);
		if (!u)
			return CCS_RESULT_SUCCESS;
		u->deleted++;
		u->history.clear();
		u->optima.clear();
		return CCS_RESULT_SUCCESS;
	}
	static ccs_result_t tell(T t, size_t n, E *e)
	{
		UD *u = ud_of(t);
		for (size_t i = 0; i < n; i++)
			ud_push(u->history, (ccs_object_t)e[i]);
		u->optima.clear();
		if (u->history.size())
			ud_push(u->optima, u->history.back().get());
		return CCS_RESULT_SUCCESS;
	}
	static ccs_result_t ser(T t, size_t n, void *b, size_t *r)
	{
		UD *u = ud_of(t);
		if (b) {
			if (n < u->state.size())
				mc::fail("state callback given %zu bytes instead of %zu", n, u->state.size());
			memcpy(b, u->state.data(), u->state.size());
		}
		if (r)
			*r = u->state.size();
		return CCS_RESULT_SUCCESS;
	}
	static ccs_result_t deser(T t, size_t nh, E *h, size_t no, E *o, size_t n, const void *s)
	{
		UD *u = ud_of(t);
		u->restored++;
		if (u->fail)
			return u->fail;
		u->state.assign((const char *)s, n);
		for (size_t i = 0; i < nh; i++)
			ud_push(u->history, (ccs_object_t)h[i]);
		for (size_t i = 0; i < no; i++)
			ud_push(u->optima, (ccs_object_t)o[i]);
		return CCS_RESULT_SUCCESS;
	}
	static ccs_result_t opt(T t, size_t n, E *e, size_t *r) { return ud_get(ud_of(t)->optima, n, e, r); }
	static ccs_result_t his(T t, size_t n, E *e, size_t *r) { return ud_get(ud_of(t)->history, n, e, r); }
	static ccs_result_t fopt(T t, ccs_features_t, size_t n, E *e, size_t *r) { return opt(t, n, e, r); }
	static ccs_result_t fhis(T t, ccs_features_t, size_t n, E *e, size_t *r) { return his(t, n, e, r); }
};
inline ccs_result_t utn_ask(ccs_tuner_t t, size_t n, ccs_configuration_t *c, size_t *r)
{
	ccs_configuration_space_t s;
	OKX(ccs_tuner_get_configuration_space(t, &s));
	if (r)
		*r = c ? n : 1;
	return c ? ccs_configuration_space_samples(s, n, c) : CCS_RESULT_SUCCESS;
}
inline ccs_result_t ufn_ask(ccs_features_tuner_t t, ccs_features_t, size_t n, ccs_configuration_t *c, size_t *r)
{
	ccs_configuration_space_t s;
	OKX(ccs_features_tuner_get_configuration_space(t, &s));
	if (r)
		*r = c ? n : 1;
	return c ? ccs_configuration_space_samples(s, n, c) : CCS_RESULT_SUCCESS;
}
inline ccs_result_t utt_ask(ccs_tree_tuner_t t, size_t n, ccs_tree_configuration_t *c, size_t *r)
{
	ccs_tree_space_t s;
	OKX(ccs_tree_tuner_get_tree_space(t, &s));
	if (r)
		*r = c ? n : 1;
	return c ? ccs_tree_space_samples(s, n, c) : CCS_RESULT_SUCCESS;
}
typedef UDV<ccs_tuner_t, ccs_evaluation_t>                   UVT;
typedef UDV<ccs_features_tuner_t, ccs_features_evaluation_t> UVF;
typedef UDV<ccs_tree_tuner_t, ccs_tree_evaluation_t>         UVR;
inline ccs_user_defined_tuner_vector_t         vec_t  = {UVT::del, utn_ask, UVT::tell, UVT::opt, UVT::his, nullptr, UVT::ser, UVT::deser};
inline ccs_user_defined_features_tuner_vector_t vec_f = {UVF::del, ufn_ask, UVF::tell, UVF::fopt, UVF::fhis, nullptr, UVF::ser, UVF::deser};
inline ccs_user_defined_tree_tuner_vector_t    vec_r  = {UVR::del, utt_ask, UVR::tell, UVR::opt, UVR::his, nullptr, UVR::ser, UVR::deser};
// the same without callbacks for the state: history is told again
inline ccs_user_defined_tuner_vector_t         vec_t0  = {UVT::del, utn_ask, UVT::tell, UVT::opt, UVT::his, nullptr, nullptr, nullptr};
inline ccs_user_defined_features_tuner_vector_t vec_f0 = {UVF::del, ufn_ask, UVF::tell, UVF::fopt, UVF::fhis, nullptr, nullptr, nullptr};
inline ccs_user_defined_tree_tuner_vector_t    vec_r0  = {UVR::del, utt_ask, UVR::tell, UVR::opt, UVR::his, nullptr, nullptr, nullptr};
inline ccs_result_t dyn_del(ccs_tree_space_t t)
{
	if (UD *u = ud_of(t))
		u->deleted++;
	return CCS_RESULT_SUCCESS;
}
inline ccs_result_t dyn_child(ccs_tree_space_t, ccs_tree_t parent, size_t index, ccs_tree_t *child)
{
	size_t depth = 0;
	OKX(ccs_tree_get_position(parent, 0, nullptr, &depth));
	return ccs_create_tree(depth < 1 ? 2 : 0, ccs_int((ccs_int_t)index + 10), child);
}
inline ccs_result_t dyn_ser(ccs_tree_space_t t, size_t n, void *b, size_t *r)
{
	UD *u = ud_of(t);
	if (b)
		memcpy(b, u->state.data(), u->state.size());
	if (r)
		*r = u->state.size();
	return CCS_RESULT_SUCCESS;
}
inline ccs_result_t dyn_deser(ccs_tree_space_t t, size_t n, const void *s)
{
	UD *u = ud_of(t);
	u->restored++;
	if (u->fail)
		return u->fail;
	u->state.assign((const char *)s, n);
	return CCS_RESULT_SUCCESS;
}
inline ccs_dynamic_tree_space_vector_t vec_d  = {dyn_del, dyn_child, dyn_ser, dyn_deser};
inline ccs_dynamic_tree_space_vector_t vec_d0 = {dyn_del, dyn_child, nullptr, nullptr};

inline const std::vector<ccs_int_t> &ints()
{
	static std::vector<ccs_int_t> v;
	if (v.empty()) {
		v = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, (ccs_int_t)INT32_MAX + 1, INT32_MIN, (ccs_int_t)INT32_MIN - 1};
		for (int k = 6; k < 63; k += 7)
			for (int s : {1, -1})
				for (int o : {-1, 0, 1})
					v.push_back(s * (((ccs_int_t)1 << k) + o));
		for (int k = 7; k < 63; k += 7)
			v.push_back((ccs_int_t)1 << k), v.push_back(((ccs_int_t)1 << k) - 1);
	}
	return v;
}
inline const std::vector<double> &flts()
{
	static const std::vector<double> v = {0.0, -0.0, 1.5, -2.25, HUGE_VAL, -HUGE_VAL, NAN, DBL_MIN, DBL_MAX, -DBL_MAX, 4.9e-324, 1.0 / 3};
	return v;
}
inline const std::vector<std::string> &strs()
{
	static const std::vector<std::string> v = {"", "a", "\xc3\xa9\xff\x01", std::string(126, 'x'), std::string(127, 'y'), std::string(128, 'z'), std::string(16383, 'w')};
	return v;
}
// every value a datum can hold (no objects)
inline const std::vector<ccs_datum_t> &scalars()
{
	static std::vector<ccs_datum_t> v;
	if (v.empty()) {
		for (auto i : ints())
			v.push_back(ccs_int(i));
		for (auto f : flts())
			v.push_back(ccs_float(f));
		for (auto &s : strs())
			v.push_back(ccs_string(s.c_str()));
		v.push_back(ccs_true), v.push_back(ccs_false), v.push_back(ccs_none), v.push_back(ccs_inactive);
	}
	return v;
}

enum Kind {
	K_RNG, K_UNIFORM, K_NORMAL, K_ROULETTE, K_MIXTURE, K_MULTI,
	K_PNUM, K_PCAT, K_PSTR, K_ELIT, K_EVAR, K_EOP,
	K_CSPACE, K_FSPACE, K_OSPACE, K_CFG, K_FEA, K_EVA, K_FEV,
	K_TREE, K_TSPACE, K_DTSPACE, K_TCFG, K_TEV,
	K_TUNER, K_FTUNER, K_TTUNER, K_UTUNER, K_UFTUNER, K_UTTUNER, K_MAP, K_N
};
inline const char *kname(int k)
{
	static const char *n[] = {"rng", "uniform", "normal", "roulette", "mixture", "multivariate", "numerical", "categorical", "string parameter", "literal", "variable", "expression",
				  "configuration space", "features space", "objective space", "configuration", "features", "evaluation", "features evaluation",
				  "tree", "tree space", "dynamic tree space", "tree configuration", "tree evaluation",
				  "tuner", "features tuner", "tree tuner", "user tuner", "user features tuner", "user tree tuner", "map"};
	return n[k];
}
struct World {
	bool                      full; // all variants, or a few representative ones
	std::vector<std::unique_ptr<UD>> uds;
	std::vector<Obj>          own; // released last to first
	std::vector<ccs_object_t> deps; // to be sent before main
	ccs_object_t              main = nullptr;
	void                     *vector = nullptr;
	UD                       *ud     = nullptr;
	ccs_rng_t                 smallrng = nullptr;

	explicit World(bool full_) : full(full_) {}
	~World()
	{
		clear();
		for (auto &u : uds)
			ud_all().erase(u.get());
	}
	void clear()
	{
		while (own.size())
			own.pop_back();
	}
	template <class T> T keep(T o)
	{
		own.emplace_back((ccs_object_t)o);
		return o;
	}
	UD *newud(const std::string &s)
	{
		uds.emplace_back(new UD);
		uds.back()->state = s;
		ud_all().insert(uds.back().get());
		return uds.back().get();
	}
	void dropud(UD *u)
	{
		ud_all().erase(u);
		if (uds.size() && uds.back().get() == u)
			uds.pop_back();
	}
	// a variant: one of n when exploring fully, else one of the first `few`
	int var(int n, int few = 1) { return mc::choose(full ? n : std::min(n, few)); }
	template <class T> const T &vpick(const std::vector<T> &v, int few = 1) { return v[(size_t)var((int)v.size(), few)]; }

	ccs_rng_t rng(int few = 1)
	{
		static const std::vector<const gsl_rng_type *> ty = {gsl_rng_rand, gsl_rng_taus, gsl_rng_mt19937, gsl_rng_ranlxd2};
		Rng r;
		OKX(ccs_create_rng_with_type(vpick(ty, few), r.ret()));
		OKX(ccs_rng_set_seed(r, 77));
		return keep(r.take());
	}
	ccs_distribution_t uni(ccs_int_t l, ccs_int_t u)
	{
		Dis d;
		OKX(ccs_create_uniform_int_distribution(l, u, CCS_SCALE_TYPE_LINEAR, 0, d.ret()));
		return keep(d.take());
	}
	ccs_distribution_t unif(double l, double u)
	{
		Dis d;
		OKX(ccs_create_uniform_float_distribution(l, u, CCS_SCALE_TYPE_LINEAR, 0, d.ret()));
		return keep(d.take());
	}
	ccs_parameter_t intp(const char *n, ccs_int_t l = 0, ccs_int_t u = 10, ccs_int_t d = 1) { return keep(pint(n, l, u, d).take()); }
	ccs_expression_t lit(ccs_datum_t d) { return keep(elit(d).take()); }
	ccs_expression_t varx(ccs_parameter_t q) { return keep(evar(q).take()); }
	ccs_expression_t bin(ccs_expression_type_t t, ccs_datum_t a, ccs_datum_t b) { return keep(ebin(t, a, b).take()); }

	ccs_configuration_space_t cspace(bool v)
	{
		int n = v ? var(4) : 1; // number of parameters: 2, 0, 1, 3
		n     = n == 0 ? 2 : n == 1 ? 0 : n == 2 ? 1 : 3;
		if (!v)
			n = 2;
		CSp s;
		OKX(ccs_create_configuration_space("cs", s.ret()));
		OKX(ccs_configuration_space_set_rng(s, v ? rng() : rng()));
		std::vector<ccs_parameter_t> ps;
		if (n > 0)
			ps.push_back(intp("x", 0, 10, 1));
		if (n > 1)
			ps.push_back(keep(pcat("c", {ccs_string("a"), ccs_string("b"), ccs_int(3)}, 1).take()));
		if (n > 2)
			ps.push_back(keep(pflt("y", 0, 10, 5).take()));
		for (auto q : ps)
			OKX(ccs_configuration_space_add_parameter(s, q, nullptr));
		ccs_configuration_space_t cs = keep(s.take());
		if (v && n >= 1) {
			int d = var(5, 2);
			if (d == 1) {
				size_t i = 0;
				OKX(ccs_configuration_space_set_distribution(cs, uni(0, 5), &i));
			} else if (d == 2 && n == 3) { // multivariate over 2 and 0
				ccs_distribution_t dd[2] = {unif(0, 1), uni(2, 4)};
				Dis                m;
				OKX(ccs_create_multivariate_distribution(2, dd, m.ret()));
				size_t ix[2] = {2, 0};
				OKX(ccs_configuration_space_set_distribution(cs, m, ix));
			} else if (d == 3 && n == 3) { // one distribution used for two parameters
				ccs_distribution_t dd = uni(0, 2);
				size_t             i  = 0;
				OKX(ccs_configuration_space_set_distribution(cs, dd, &i));
				i = 1;
				OKX(ccs_configuration_space_set_distribution(cs, dd, &i));
			} else if (d >= 2)
				mc::prune();
		}
		if (v && n >= 2) {
			int c = var(6, 2);
			if (c == 1 || c >= 4) { // c active when x < 5
				OKX(ccs_configuration_space_set_condition(cs, 1, bin(CCS_EXPRESSION_TYPE_LESS, ccs_object(varx(ps[0])), ccs_int(5))));
			} else if (c == 2) { // x active when c in [a, 3]
				Exp l = enary(CCS_EXPRESSION_TYPE_LIST, {ccs_string("a"), ccs_int(3)});
				OKX(ccs_configuration_space_set_condition(cs, 0, bin(CCS_EXPRESSION_TYPE_IN, ccs_object(varx(ps[1])), ccs_object(l.get()))));
			} else if (c == 3 && n < 3)
				mc::prune();
			if (n == 3 && (c == 3 || c == 4)) { // a chain, or one expression for two conditions
				ccs_expression_t e = bin(CCS_EXPRESSION_TYPE_LESS, ccs_object(varx(ps[0])), ccs_int(6));
				if (c == 3)
					OKX(ccs_configuration_space_set_condition(cs, 1, e));
				OKX(ccs_configuration_space_set_condition(cs, 2, c == 3 ? e : bin(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(varx(ps[1])), ccs_string("b"))));
			} else if (c >= 4 && n < 3)
				mc::prune();
			int f = var(4, 2);
			if (f >= 1) {
				ccs_expression_t e = bin(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(varx(ps[0])), ccs_int(7));
				OKX(ccs_configuration_space_add_forbidden_clause(cs, e));
				if (f >= 2)
					OKX(ccs_configuration_space_add_forbidden_clause(cs, f == 2 ? e : bin(CCS_EXPRESSION_TYPE_GREATER, ccs_object(varx(ps[0])), ccs_int(8))));
			}
		}
		if (v) { // a generator that has been used
			int d = var(2, 1);
			for (int i = 0; i < d; i++) {
				Cfg c;
				OKX(ccs_configuration_space_sample(cs, c.ret()));
			}
		}
		return cs;
	}
	ccs_features_space_t fspace(bool v)
	{
		int n = v ? var(4, 1) : 0;
		FSp s;
		OKX(ccs_create_features_space("fs", s.ret()));
		if (n != 1)
			OKX(ccs_features_space_add_parameter(s, keep(pcat("f", {ccs_string("f0"), ccs_string("f1")}).take())));
		if (n >= 2)
			OKX(ccs_features_space_add_parameter(s, keep(pstr("s").take())));
		if (n >= 3)
			OKX(ccs_features_space_add_parameter(s, intp("i")));
		return keep(s.take());
	}
	ccs_objective_space_t ospace(bool v)
	{
		int n = v ? var(5, 2) : 0;
		OSp s;
		OKX(ccs_create_objective_space("os", s.ret()));
		ccs_objective_space_t os = keep(s.take());
		if (n == 1)
			return os;
		ccs_parameter_t p = keep(pflt("t", 0, 100, 0).take());
		OKX(ccs_objective_space_add_parameter(os, p));
		ccs_expression_t e = varx(p);
		OKX(ccs_objective_space_add_objective(os, e, CCS_OBJECTIVE_TYPE_MINIMIZE));
		if (n >= 2) {
			ccs_parameter_t q = keep(pflt("e", 0, 100, 0).take());
			OKX(ccs_objective_space_add_parameter(os, q));
			if (n == 2)
				OKX(ccs_objective_space_add_objective(os, varx(q), CCS_OBJECTIVE_TYPE_MAXIMIZE));
			if (n == 3) // an expression on both, and the first one once more
				OKX(ccs_objective_space_add_objective(os, bin(CCS_EXPRESSION_TYPE_ADD, ccs_object(e), ccs_object(varx(q))), CCS_OBJECTIVE_TYPE_MINIMIZE));
			if (n == 4) {
				OKX(ccs_objective_space_add_parameter(os, keep(pstr("log").take())));
				OKX(ccs_objective_space_add_objective(os, e, CCS_OBJECTIVE_TYPE_MAXIMIZE));
			}
		}
		return os;
	}
	ccs_configuration_t cfg(ccs_configuration_space_t cs, int k = 0)
	{
		Cfg c;
		if (k == 0)
			OKX(ccs_configuration_space_get_default_configuration(cs, c.ret()));
		else
			OKX(ccs_configuration_space_sample(cs, c.ret()));
		return keep(c.take());
	}
	Data someval(ccs_context_t s, int k)
	{
		size_t n;
		OKX(ccs_context_get_num_parameters(s, &n));
		Data d;
		for (size_t i = 0; i < n; i++) {
			ccs_parameter_t q;
			OKX(ccs_context_get_parameter(s, i, &q));
			ccs_parameter_type_t t;
			OKX(ccs_parameter_get_type(q, &t));
			ccs_datum_t v;
			OKX(ccs_parameter_get_default_value(q, &v));
			if (t == CCS_PARAMETER_TYPE_STRING)
				v = tstr(k ? "value" : "");
			else if (v.type == CCS_DATA_TYPE_FLOAT)
				v = ccs_float(1.5 * k + (double)i);
			else if (v.type == CCS_DATA_TYPE_INT)
				v = ccs_int(k);
			d.push_back(v);
		}
		return d;
	}
	ccs_features_t fea(ccs_features_space_t fs, int k = 0)
	{
		Data d = someval((ccs_context_t)fs, k);
		if (k && d.size())
			d[0] = tstr("f1");
		Fea f;
		OKX(ccs_create_features(fs, d.size(), d.data(), f.ret()));
		return keep(f.take());
	}
	ccs_evaluation_t eva(ccs_objective_space_t os, ccs_configuration_t c, int k, ccs_evaluation_result_t r = CCS_RESULT_SUCCESS)
	{
		Data d = someval((ccs_context_t)os, k);
		Eva  e;
		OKX(ccs_create_evaluation(os, c, r, d.size(), d.data(), e.ret()));
		return keep(e.take());
	}
	ccs_features_evaluation_t fev(ccs_objective_space_t os, ccs_configuration_t c, ccs_features_t f, int k, ccs_evaluation_result_t r = CCS_RESULT_SUCCESS)
	{
		Data d = someval((ccs_context_t)os, k);
		FEv  e;
		OKX(ccs_create_features_evaluation(os, c, f, r, d.size(), d.data(), e.ret()));
		return keep(e.take());
	}
	ccs_tree_evaluation_t tev(ccs_objective_space_t os, ccs_tree_configuration_t c, int k, ccs_evaluation_result_t r = CCS_RESULT_SUCCESS)
	{
		Data d = someval((ccs_context_t)os, k);
		TEv  e;
		OKX(ccs_create_tree_evaluation(os, c, r, d.size(), d.data(), e.ret()));
		return keep(e.take());
	}
	// values of tree nodes: object and inactive values are refused
	ccs_tree_t tnode(size_t arity, ccs_datum_t v)
	{
		Tre t;
		OKX(ccs_create_tree(arity, v, t.ret()));
		return keep(t.take());
	}
	ccs_tree_t tree(bool v)
	{
		int shape = v ? var(5, 2) : 2;
		// 0: root with one slot filled, one empty; 1: a leaf; 2: two leaves; 3: chain of 3; 4: three slots, first a subtree
		ccs_tree_t t = shape == 1 ? tnode(0, ccs_int(0)) : shape == 3 ? tnode(1, tstr("root")) : shape == 4 ? tnode(3, ccs_float(0.5)) : tnode(2, ccs_int(0));
		if (shape == 0)
			OKX(ccs_tree_set_child(t, 0, tnode(0, tstr("leaf"))));
		if (shape == 2)
			for (size_t i = 0; i < 2; i++)
				OKX(ccs_tree_set_child(t, i, tnode(0, ccs_int((ccs_int_t)i + 1))));
		if (shape == 3 || shape == 4) {
			ccs_tree_t m = tnode(2, ccs_none);
			OKX(ccs_tree_set_child(m, shape == 3 ? 1 : 0, tnode(0, ccs_true)));
			OKX(ccs_tree_set_child(t, 0, m));
			if (shape == 4)
				OKX(ccs_tree_set_child(t, 2, tnode(0, ccs_int(9))));
			OKX(ccs_tree_set_weight(m, 3.0));
			OKX(ccs_tree_set_bias(m, 0.25));
		}
		if (v)
			switch (var(4, 1)) {
			case 1:
				OKX(ccs_tree_set_weight(t, 0.0));
				break;
			case 2:
				OKX(ccs_tree_set_weight(t, 2.5));
				OKX(ccs_tree_set_bias(t, 0.5));
				break;
			case 3:
				OKX(ccs_tree_set_bias(t, 0.0));
				break;
			}
		return t;
	}
	ccs_tree_space_t tspace(bool v)
	{
		ccs_tree_t t = tree(v);
		TSp        s;
		OKX(ccs_create_static_tree_space("ts", t, s.ret()));
		OKX(ccs_tree_space_set_rng(s, rng()));
		return keep(s.take());
	}
	ccs_tree_space_t dtspace(bool v)
	{
		ccs_tree_t t = tree(v);
		int        k = v ? var(4, 2) : 0; // state: short, no callbacks, empty, long
		ud           = newud(k == 0 ? "st" : k == 3 ? std::string(200, 's') : "");
		vector       = k == 1 ? &vec_d0 : &vec_d;
		TSp s;
		OKX(ccs_create_dynamic_tree_space("ts", t, (ccs_dynamic_tree_space_vector_t *)vector, ud, s.ret()));
		OKX(ccs_tree_space_set_rng(s, rng()));
		ccs_tree_space_t ts = keep(s.take());
		if (v && var(2, 1)) {
			TCf c;
			ccs_tree_space_sample(ts, c.ret());
		}
		return ts;
	}
	ccs_tree_configuration_t tcfg(ccs_tree_space_t ts, std::vector<size_t> pos)
	{
		TCf c;
		OKX(ccs_create_tree_configuration(ts, pos.size(), pos.data(), c.ret()));
		return keep(c.take());
	}
	// tells: 0 nothing, 1 one evaluation, 2 two incomparable or equal ones, 3 one dominated, 4 one failed, 5 the same evaluation twice
	template <class E, class F, class T> void tells(int k, F mk, T tell)
	{
		std::vector<E> e;
		if (k >= 1)
			e.push_back(mk(1, 0, CCS_RESULT_SUCCESS));
		if (k == 2)
			e.push_back(mk(1, 1, CCS_RESULT_SUCCESS));
		if (k == 3)
			e.push_back(mk(2, 1, CCS_RESULT_SUCCESS)), e.push_back(mk(0, 2, CCS_RESULT_SUCCESS));
		if (k == 4)
			e.push_back(mk(2, 1, CCS_RESULT_ERROR_EXTERNAL)), e.push_back(mk(0, 0, CCS_RESULT_SUCCESS));
		if (k == 5)
			e.push_back(e[0]);
		if (e.size())
			OKX(tell(e.size(), e.data()));
	}
	int userstate(void *v, void *v0)
	{
		int k  = var(4, 2);
		ud     = newud(k == 0 ? "st" : k == 3 ? std::string(200, 's') : "");
		vector = k == 1 ? v0 : v;
		return k;
	}
	void make(int kind)
	{
		switch (kind) {
		case K_RNG: {
			const gsl_rng_type **ty = gsl_rng_types_setup();
			int                  n  = 0;
			while (ty[n])
				n++;
			static const gsl_rng_type *few[] = {gsl_rng_rand, gsl_rng_taus};
			const gsl_rng_type        *t     = full ? ty[mc::choose(n)] : few[mc::choose(2)];
			mc::shard_point();
			Rng r;
			OKX(ccs_create_rng_with_type(t, r.ret()));
			OKX(ccs_rng_set_seed(r, 4242));
			for (int i = var(3); i > 0; i--) {
				unsigned long x;
				OKX(ccs_rng_get(r, &x));
			}
			main = (ccs_object_t)keep(r.take());
			break;
		}
		case K_UNIFORM: {
			Dis d;
			if (var(2, 2) == 0) {
				ccs_int_t l = vpick(ints()), u = full ? ints()[(size_t)mc::choose((int)ints().size())] : 10;
				int       sc = var(2), q = var(2);
				mc::shard_point();
				if (l >= u || (sc && l <= 0) || (q && (double)u - (double)l < 4) || (double)u - (double)l > 9e18)
					mc::prune();
				OKX(ccs_create_uniform_int_distribution(l, u, sc ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR, q ? 2 : 0, d.ret()));
			} else {
				static const std::vector<double> v = {0.0, -0.0, 1.5, -2.25, 1e300, 4.9e-324, 1.0 / 3, 100};
				double l = vpick(v), u = full ? v[(size_t)mc::choose((int)v.size())] : 10;
				int    sc = var(2), q = var(2);
				mc::shard_point();
				if (l >= u || (sc && l <= 0) || (q && u - l < 0.5))
					mc::prune();
				OKX(ccs_create_uniform_float_distribution(l, u, sc ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR, q ? 0.25 : 0, d.ret()));
			}
			main = (ccs_object_t)keep(d.take());
			break;
		}
		case K_NORMAL: {
			Dis                              d;
			static const std::vector<double> mus = {1.0, 0.0, -3.5, 1e5}, sg = {2.0, 0.5, 1e3};
			double                           mu = vpick(mus), s = vpick(sg);
			int                              sc = var(2), q = var(2);
			mc::shard_point();
			if (sc && (mu > 100 || s > 100))
				mc::prune();
			if (var(2, 2) == 0)
				OKX(ccs_create_normal_int_distribution(mu, s, sc ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR, q ? 2 : 0, d.ret()));
			else
				OKX(ccs_create_normal_float_distribution(mu, s, sc ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR, q ? 0.25 : 0, d.ret()));
			main = (ccs_object_t)keep(d.take());
			break;
		}
		case K_ROULETTE: {
			static const std::vector<std::vector<double>> v = {{1, 3}, {1}, {0.25, 0, 0.75}, {1, 1, 1, 1, 1, 1, 1}, {1e-9, 5}, {0, 1}, std::vector<double>(130, 1.0)};
			auto                                          a = vpick(v);
			mc::shard_point();
			Dis d;
			OKX(ccs_create_roulette_distribution(a.size(), a.data(), d.ret()));
			main = (ccs_object_t)keep(d.take());
			break;
		}
		case K_MIXTURE: {
			int k = var(4), sharedd = var(2);
			mc::shard_point();
			std::vector<ccs_distribution_t> v;
			std::vector<double>             w;
			if (k == 0 || k == 2)
				v = {uni(0, 10), uni(5, 20)}, w = {1, 3};
			else if (k == 1)
				v = {unif(0, 1)}, w = {2};
			else {
				Dis n;
				OKX(ccs_create_normal_float_distribution(0, 1, CCS_SCALE_TYPE_LINEAR, 0, n.ret()));
				v = {unif(0, 1), keep(n.take()), unif(2, 3)}, w = {0.5, 0, 0.5};
			}
			if (sharedd)
				v[v.size() - 1] = v[0];
			Dis d;
			OKX(ccs_create_mixture_distribution(v.size(), v.data(), w.data(), d.ret()));
			if (k == 2) { // a mixture of mixtures
				ccs_distribution_t x[2] = {keep(d.take()), uni(1, 2)};
				double             y[2] = {1, 1};
				OKX(ccs_create_mixture_distribution(2, x, y, d.ret()));
			}
			main = (ccs_object_t)keep(d.take());
			break;
		}
		case K_MULTI: {
			int k = var(4), sharedd = var(2);
			mc::shard_point();
			double                          a[3] = {1, 0, 2};
			Dis                             r;
			OKX(ccs_create_roulette_distribution(3, a, r.ret()));
			std::vector<ccs_distribution_t> v = {uni(0, 10), keep(r.take())};
			if (k >= 1)
				v.push_back(unif(-1, 1));
			Dis d;
			if (sharedd)
				v[1] = v[0];
			if (k == 2) {
				double w[2] = {1, 2};
				ccs_distribution_t x[2] = {v[0], v[0]};
				OKX(ccs_create_mixture_distribution(2, x, w, d.ret()));
				v.push_back(keep(d.take()));
			}
			OKX(ccs_create_multivariate_distribution(v.size(), v.data(), d.ret()));
			if (k == 3) {
				ccs_distribution_t x[2] = {unif(5, 6), keep(d.take())};
				OKX(ccs_create_multivariate_distribution(2, x, d.ret()));
			}
			main = (ccs_object_t)keep(d.take());
			break;
		}
		case K_PNUM: {
			Par p;
			if (var(2, 2) == 0) {
				ccs_int_t l = vpick(ints()), u = full ? ints()[(size_t)mc::choose((int)ints().size())] : 10;
				int       k = var(3);
				mc::shard_point();
				if (l >= u || (double)u - (double)l > 9e18)
					mc::prune();
				ccs_int_t d = k == 0 ? l : k == 1 ? u - 1 : l + (u - l) / 2;
				OKX(ccs_create_int_numerical_parameter("int", l, u, 0, d, p.ret()));
			} else {
				static const std::vector<double> v = {0.0, -0.0, 1.5, -2.25, 1e300, 4.9e-324, 1.0 / 3, 100};
				double l = vpick(v), u = full ? v[(size_t)mc::choose((int)v.size())] : 10;
				int    q = var(2);
				mc::shard_point();
				if (l >= u || (q && u - l < 0.5))
					mc::prune();
				OKX(ccs_create_float_numerical_parameter("", l, u, q ? 0.25 : 0, l, p.ret()));
			}
			main = (ccs_object_t)keep(p.take());
			break;
		}
		case K_PCAT: {
			static const std::vector<Data> v = {{ccs_int(1), ccs_string("two"), ccs_float(3.0)}, {ccs_none}, {ccs_true, ccs_false, ccs_string("")}, scalars()};
			int ty = var(3, 3);
			Par p;
			if (ty == 2) {
				static const std::vector<Data> w = {{ccs_int(1), ccs_int(5)}, {ccs_float(-1.5), ccs_float(0.0), ccs_float(7)}, {ccs_int(3), ccs_float(2.5)}};
				Data x = vpick(w);
				int  d = var((int)x.size(), 1);
				mc::shard_point();
				OKX(ccs_create_discrete_parameter("dis", x.size(), x.data(), (size_t)d, p.ret()));
			} else {
				Data x = vpick(v);
				// inactive is not a value; equal values are refused
				x.erase(std::remove_if(x.begin(), x.end(), [](const ccs_datum_t &d) { return d.type == CCS_DATA_TYPE_INACTIVE; }), x.end());
				for (size_t i = 0; i < x.size(); i++)
					for (size_t j = i + 1; j < x.size();)
						if (deq(x[i], x[j]) && !(x[i].type == CCS_DATA_TYPE_FLOAT && memcmp(&x[i].value, &x[j].value, 8)))
							x.erase(x.begin() + (long)j);
						else
							j++;
				int d = var((int)x.size(), 1);
				mc::shard_point();
				if (ty == 0)
					OKX(ccs_create_categorical_parameter("cat", x.size(), x.data(), (size_t)d, p.ret()));
				else
					OKX(ccs_create_ordinal_parameter("ord", x.size(), x.data(), (size_t)d, p.ret()));
			}
			main = (ccs_object_t)keep(p.take());
			break;
		}
		case K_PSTR: {
			std::string s = vpick(strs(), 2);
			mc::shard_point();
			main = (ccs_object_t)keep(pstr(s.c_str()).take());
			break;
		}
		case K_ELIT: {
			static const std::vector<ccs_datum_t> few = {ccs_int(300), ccs_float(1.5), ccs_string("str"), ccs_true, ccs_none};
			ccs_datum_t d = full ? scalars()[(size_t)mc::choose((int)scalars().size())] : few[(size_t)mc::choose((int)few.size())];
			mc::shard_point();
			if (d.type == CCS_DATA_TYPE_INACTIVE)
				mc::prune();
			main = (ccs_object_t)lit(d);
			break;
		}
		case K_EVAR: {
			mc::shard_point();
			ccs_parameter_t p = intp("x");
			deps              = {(ccs_object_t)p};
			main              = (ccs_object_t)varx(p);
			break;
		}
		case K_EOP: {
			int t = full ? mc::choose(CCS_EXPRESSION_TYPE_LIST + 1) : (int[]){CCS_EXPRESSION_TYPE_ADD, CCS_EXPRESSION_TYPE_IN, CCS_EXPRESSION_TYPE_NOT}[mc::choose(3)];
			int deep = var(2);
			mc::shard_point();
			ccs_parameter_t p = intp("x"), q = intp("y");
			deps              = {(ccs_object_t)p, (ccs_object_t)q};
			auto leaf = [&](int k) { return k == 0 ? ccs_object(varx(p)) : k == 1 ? ccs_object(varx(q)) : ccs_int(3); };
			auto mk   = [&](int ty, int k) -> ccs_expression_t {
                                if (ty == CCS_EXPRESSION_TYPE_IN) {
                                        Exp l = enary(CCS_EXPRESSION_TYPE_LIST, {ccs_int(1), leaf(k), ccs_string("s")});
                                        return bin(CCS_EXPRESSION_TYPE_IN, leaf(1), ccs_object(l.get()));
                                }
                                if (ty == CCS_EXPRESSION_TYPE_LIST) {
                                        Exp l = k == 0 ? enary(CCS_EXPRESSION_TYPE_LIST, {}) : enary(CCS_EXPRESSION_TYPE_LIST, {leaf(0), leaf(1), leaf(2)});
                                        return keep(l.take());
                                }
                                if (ccs_expression_arity[ty] == 1)
                                        return keep(euna((ccs_expression_type_t)ty, leaf(k)).take());
                                return bin((ccs_expression_type_t)ty, leaf(k), leaf(2 - k));
			};
			ccs_expression_t e = mk(t, deep ? 1 : 0);
			if (deep) // both operands the same expression object
				e = bin(CCS_EXPRESSION_TYPE_AND, ccs_object(e), ccs_object(var(2) ? e : mk(CCS_EXPRESSION_TYPE_LESS, 2)));
			main = (ccs_object_t)e;
			break;
		}
		case K_CSPACE:
			main = (ccs_object_t)cspace(true);
			break;
		case K_FSPACE:
			main = (ccs_object_t)fspace(true);
			break;
		case K_OSPACE:
			main = (ccs_object_t)ospace(true);
			break;
		case K_CFG: {
			int k = var(3), v = var(2);
			ccs_configuration_space_t cs = cspace(v);
			deps                         = {(ccs_object_t)cs};
			ccs_configuration_t c        = cfg(cs, k);
			if (k == 2) { // an invalid one is sent as it is
				size_t n;
				OKX(ccs_configuration_space_get_num_parameters(cs, &n));
				if (!n)
					mc::prune();
				OKX(ccs_configuration_set_value(c, 0, ccs_inactive));
			}
			main = (ccs_object_t)c;
			break;
		}
		case K_FEA: {
			int                  k = var(2);
			ccs_features_space_t fs = fspace(true);
			deps                    = {(ccs_object_t)fs};
			main                    = (ccs_object_t)fea(fs, k);
			break;
		}
		case K_EVA: {
			int k = var(3);
			ccs_configuration_space_t cs = cspace(false);
			ccs_objective_space_t     os = ospace(full);
			deps                         = {(ccs_object_t)cs, (ccs_object_t)os};
			main                         = (ccs_object_t)eva(os, cfg(cs, k), k, k == 2 ? CCS_RESULT_ERROR_EXTERNAL : CCS_RESULT_SUCCESS);
			break;
		}
		case K_FEV: {
			int k = var(3);
			ccs_configuration_space_t cs = cspace(false);
			ccs_features_space_t      fs = fspace(full);
			ccs_objective_space_t     os = ospace(full);
			deps                         = {(ccs_object_t)cs, (ccs_object_t)fs, (ccs_object_t)os};
			main = (ccs_object_t)fev(os, cfg(cs, k), fea(fs, k), k, k == 2 ? CCS_RESULT_ERROR_EXTERNAL : CCS_RESULT_SUCCESS);
			break;
		}
		case K_TREE:
			main = (ccs_object_t)tree(true);
			break;
		case K_TSPACE:
			main = (ccs_object_t)tspace(true);
			if (var(2)) {
				TCf c;
				ccs_tree_space_sample((ccs_tree_space_t)main, c.ret());
			}
			break;
		case K_DTSPACE:
			main = (ccs_object_t)dtspace(true);
			break;
		case K_TCFG: {
			int              k  = var(4);
			ccs_tree_space_t ts = tspace(true);
			deps                = {(ccs_object_t)ts};
			std::vector<size_t> pos = k == 0 ? std::vector<size_t>{0} : k == 1 ? std::vector<size_t>{} : k == 2 ? std::vector<size_t>{0, 1} : std::vector<size_t>{1};
			ccs_bool_t          ok;
			OKX(ccs_tree_space_check_position(ts, pos.size(), pos.data(), &ok));
			TCf c;
			if (ccs_create_tree_configuration(ts, pos.size(), pos.data(), c.ret()) != CCS_RESULT_SUCCESS)
				mc::prune();
			main = (ccs_object_t)keep(c.take());
			break;
		}
		case K_TEV: {
			int                   k  = var(2);
			ccs_tree_space_t      ts = tspace(false);
			ccs_objective_space_t os = ospace(full);
			deps                     = {(ccs_object_t)ts, (ccs_object_t)os};
			main                     = (ccs_object_t)tev(os, tcfg(ts, {(size_t)k}), k, k ? CCS_RESULT_ERROR_EXTERNAL : CCS_RESULT_SUCCESS);
			break;
		}
		case K_TUNER:
		case K_UTUNER: {
			int                       k  = full ? var(6) : 2;
			ccs_configuration_space_t cs = cspace(false);
			ccs_objective_space_t     os = ospace(full);
			Tun                       t;
			if (kind == K_TUNER)
				OKX(ccs_create_random_tuner("tuner", cs, os, t.ret()));
			else {
				userstate(&vec_t, &vec_t0);
				OKX(ccs_create_user_defined_tuner("tuner", cs, os, (ccs_user_defined_tuner_vector_t *)vector, ud, t.ret()));
			}
			ccs_tuner_t tt = keep(t.take());
			std::vector<ccs_configuration_t> c = {cfg(cs, 0), cfg(cs, 1), cfg(cs, 1)};
			tells<ccs_evaluation_t>(
				k, [&](int v, int ci, ccs_evaluation_result_t r) { return eva(os, c[(size_t)ci], v, r); },
				[&](size_t n, ccs_evaluation_t *e) { return ccs_tuner_tell(tt, n, e); });
			main = (ccs_object_t)tt;
			break;
		}
		case K_FTUNER:
		case K_UFTUNER: {
			int                       k  = full ? var(6) : 2;
			ccs_configuration_space_t cs = cspace(false);
			ccs_features_space_t      fs = fspace(false);
			ccs_objective_space_t     os = ospace(full);
			FTu                       t;
			if (kind == K_FTUNER)
				OKX(ccs_create_random_features_tuner("tuner", cs, fs, os, t.ret()));
			else {
				userstate(&vec_f, &vec_f0);
				OKX(ccs_create_user_defined_features_tuner("tuner", cs, fs, os, (ccs_user_defined_features_tuner_vector_t *)vector, ud, t.ret()));
			}
			ccs_features_tuner_t tt = keep(t.take());
			std::vector<ccs_configuration_t> c = {cfg(cs, 0), cfg(cs, 1), cfg(cs, 1)};
			std::vector<ccs_features_t>      f = {fea(fs, 0), fea(fs, 1), fea(fs, 0)};
			tells<ccs_features_evaluation_t>(
				k, [&](int v, int ci, ccs_evaluation_result_t r) { return fev(os, c[(size_t)ci], f[(size_t)ci], v, r); },
				[&](size_t n, ccs_features_evaluation_t *e) { return ccs_features_tuner_tell(tt, n, e); });
			main = (ccs_object_t)tt;
			break;
		}
		case K_TTUNER:
		case K_UTTUNER: {
			int                   k  = full ? var(6) : 2;
			ccs_tree_space_t      ts = kind == K_TTUNER && var(2) ? dtspace(false) : tspace(false);
			ccs_objective_space_t os = ospace(full);
			TTu                   t;
			if (kind == K_TTUNER)
				OKX(ccs_create_random_tree_tuner("tuner", ts, os, t.ret()));
			else {
				userstate(&vec_r, &vec_r0);
				OKX(ccs_create_user_defined_tree_tuner("tuner", ts, os, (ccs_user_defined_tree_tuner_vector_t *)vector, ud, t.ret()));
			}
			ccs_tree_tuner_t                      tt = keep(t.take());
			std::vector<ccs_tree_configuration_t> c  = {tcfg(ts, {0}), tcfg(ts, {1}), tcfg(ts, {})};
			tells<ccs_tree_evaluation_t>(
				k, [&](int v, int ci, ccs_evaluation_result_t r) { return tev(os, c[(size_t)ci], v, r); },
				[&](size_t n, ccs_tree_evaluation_t *e) { return ccs_tree_tuner_tell(tt, n, e); });
			main = (ccs_object_t)tt;
			break;
		}
		case K_MAP: {
			int k = var(3, 1), i = 0, j = 0;
			if (k == 2)
				i = var((int)scalars().size()), j = var(3);
			mc::shard_point();
			Map m;
			OKX(ccs_create_map(m.ret()));
			ccs_map_t mm = keep(m.take());
			if (k == 0) {
				OKX(ccs_map_set(mm, tstr("key"), ccs_int(1)));
				OKX(ccs_map_set(mm, ccs_int(2), tstr("value")));
			} else if (k == 2) {
				const ccs_datum_t others[3] = {ccs_int(5), ccs_string("o"), ccs_none};
				OKX(ccs_map_set(mm, scalars()[(size_t)i], others[j]));
				OKX(ccs_map_set(mm, others[(j + 1) % 3], scalars()[(size_t)i]));
			}
			main = (ccs_object_t)mm;
			break;
		}
		default:
			mc::fail("no such kind");
		}
		if (kind > K_EOP && kind != K_MAP)
			mc::shard_point();
	}
	// large objects: n elements, levels or characters
	static constexpr int BIG_N = 22;
	static bool          by_length(int k) { return k >= 18; } // n is a number of characters
	std::string          text_of(int i, size_t len) { return std::string(len, (char)('a' + i % 26)) + mc::strf("%d", i); }
	ccs_configuration_space_t bigspace(int n)
	{
		CSp s;
		OKX(ccs_create_configuration_space("cs", s.ret()));
		OKX(ccs_configuration_space_set_rng(s, rng()));
		ccs_configuration_space_t    cs = keep(s.take());
		std::vector<ccs_parameter_t> ps;
		for (int i = 0; i < n; i++) {
			std::string nm = mc::strf("p%d", i);
			ps.push_back(i % 3 == 0 ? intp(nm.c_str()) : i % 3 == 1 ? keep(pflt(nm.c_str(), 0, 10, 5).take()) : keep(pcat(nm.c_str(), {ccs_string("a"), ccs_string("b"), ccs_int(3)}, 1).take()));
			OKX(ccs_configuration_space_add_parameter(cs, ps.back(), i % 5 == 0 && i % 3 == 0 ? uni(0, 4) : nullptr));
		}
		for (int i = 3; i < n; i += 2) { // each depends on an earlier or a later one
			int j = i % 4 == 1 ? (i / 6 + 1) * 6 : (i - 3) / 3 * 3;
			OKX(ccs_configuration_space_set_condition(cs, (size_t)i, bin(CCS_EXPRESSION_TYPE_NOT_EQUAL, ccs_object(varx(ps[(size_t)(j < n ? j : 0)])), ccs_int(7))));
		}
		for (int i = 0; i < n; i += 3)
			OKX(ccs_configuration_space_add_forbidden_clause(cs, bin(CCS_EXPRESSION_TYPE_EQUAL, ccs_object(varx(ps[(size_t)i])), ccs_int(9))));
		if (n >= 8) {
			std::vector<ccs_distribution_t> d;
			std::vector<size_t>             ix;
			for (int i = (n - 1) / 3 * 3; i >= 3; i -= 6)
				d.push_back(uni(0, 2 + i % 4)), ix.push_back((size_t)i);
			Dis m;
			OKX(ccs_create_multivariate_distribution(d.size(), d.data(), m.ret()));
			OKX(ccs_configuration_space_set_distribution(cs, m, ix.data()));
		}
		return cs;
	}
	ccs_objective_space_t bigobjectives(int n)
	{
		OSp s;
		OKX(ccs_create_objective_space("os", s.ret()));
		ccs_objective_space_t os = keep(s.take());
		for (int i = 0; i < n; i++) {
			std::string     nm = mc::strf("o%d", i);
			ccs_parameter_t p  = keep(pflt(nm.c_str(), -1000, 1000, 0).take());
			OKX(ccs_objective_space_add_parameter(os, p));
			OKX(ccs_objective_space_add_objective(os, varx(p), i % 2 ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE));
		}
		return os;
	}
	ccs_tree_t bigtree(int n, bool deep)
	{
		ccs_tree_t t = tnode(deep ? 1 : (size_t)n, ccs_string("root")), c = t;
		for (int i = 0; i < n; i++) {
			std::string v = text_of(i, (size_t)(i % 40));
			ccs_tree_t  x = tnode(deep ? (i + 1 < n ? 1 + (size_t)(i % 3) : 0) : (size_t)(i % 2), i % 2 ? ccs_int(i) : tstr(v.c_str()));
			OKX(ccs_tree_set_weight(x, i % 4));
			OKX(ccs_tree_set_bias(x, 0.5 * (i % 3)));
			if (deep)
				OKX(ccs_tree_set_child(c, (size_t)(c == t ? 0 : (i - 1) % 3), x));
			else if (i != n / 2)
				OKX(ccs_tree_set_child(t, (size_t)i, x));
			c = x;
		}
		return t;
	}
	void big(int k, int n)
	{
		Dis d;
		Par p;
		switch (k) {
		case 0: {
			std::vector<double> a;
			for (int i = 0; i < n; i++)
				a.push_back(1 + i % 3);
			OKX(ccs_create_roulette_distribution(a.size(), a.data(), d.ret()));
			main = (ccs_object_t)keep(d.take());
			break;
		}
		case 1:
		case 2: {
			std::vector<ccs_distribution_t> v;
			std::vector<double>             a;
			for (int i = 0; i < n; i++)
				v.push_back(uni(i, i + 5)), a.push_back(1 + i % 4);
			if (k == 1)
				OKX(ccs_create_mixture_distribution(v.size(), v.data(), a.data(), d.ret()));
			else
				OKX(ccs_create_multivariate_distribution(v.size(), v.data(), d.ret()));
			main = (ccs_object_t)keep(d.take());
			break;
		}
		case 3:
		case 4: {
			std::vector<std::string> st;
			Data                     v;
			for (int i = 0; i < n; i++)
				st.push_back(text_of(i, (size_t)(i * 7 % 150)));
			for (int i = 0; i < n; i++)
				v.push_back(k == 4 ? (i % 2 ? ccs_int(i * 1000) : ccs_float(i + 0.5)) : i % 3 ? ccs_string(st[(size_t)i].c_str()) : ccs_int(i));
			if (k == 4)
				OKX(ccs_create_discrete_parameter("many", v.size(), v.data(), (size_t)n - 1, p.ret()));
			else if (n % 2)
				OKX(ccs_create_categorical_parameter("many", v.size(), v.data(), (size_t)n - 1, p.ret()));
			else
				OKX(ccs_create_ordinal_parameter("many", v.size(), v.data(), (size_t)n / 2, p.ret()));
			main = (ccs_object_t)keep(p.take());
			break;
		}
		case 5: { // a long list
			ccs_parameter_t q = intp("x");
			deps              = {(ccs_object_t)q};
			Data v;
			for (int i = 0; i < n; i++)
				v.push_back(i % 3 == 0 ? ccs_int(i * 100) : i % 3 == 1 ? ccs_object(varx(q)) : ccs_float(i));
			Exp l = enary(CCS_EXPRESSION_TYPE_LIST, v);
			main  = (ccs_object_t)bin(CCS_EXPRESSION_TYPE_IN, ccs_object(varx(q)), ccs_object(l.get()));
			break;
		}
		case 6: { // a deep expression
			ccs_parameter_t q = intp("x");
			deps              = {(ccs_object_t)q};
			ccs_expression_t e = varx(q);
			for (int i = 0; i < n; i++)
				e = i % 3 == 2 ? keep(euna(CCS_EXPRESSION_TYPE_NEGATIVE, ccs_object(e)).take()) : i % 3 ? bin(CCS_EXPRESSION_TYPE_ADD, ccs_object(e), ccs_int(i)) : bin(CCS_EXPRESSION_TYPE_SUBSTRACT, ccs_float(i), ccs_object(e));
			main = (ccs_object_t)e;
			break;
		}
		case 7: main = (ccs_object_t)bigspace(n); break;
		case 8: {
			ccs_configuration_space_t cs = bigspace(n);
			deps                         = {(ccs_object_t)cs};
			main                         = (ccs_object_t)cfg(cs, n % 2);
			break;
		}
		case 9: {
			FSp s;
			OKX(ccs_create_features_space("fs", s.ret()));
			ccs_features_space_t fs = keep(s.take());
			Data                 v;
			std::vector<std::string> st;
			for (int i = 0; i < n; i++)
				st.push_back(text_of(i, (size_t)(i % 130)));
			for (int i = 0; i < n; i++) {
				std::string nm = mc::strf("f%d", i);
				OKX(ccs_features_space_add_parameter(fs, i % 2 ? intp(nm.c_str()) : keep(pstr(nm.c_str()).take())));
				v.push_back(i % 2 ? ccs_int(i % 10) : tstr(st[(size_t)i].c_str()));
			}
			Fea f;
			OKX(ccs_create_features(fs, v.size(), v.data(), f.ret()));
			deps = {(ccs_object_t)fs};
			main = (ccs_object_t)keep(f.take());
			break;
		}
		case 10: main = (ccs_object_t)bigobjectives(n); break;
		case 11: {
			ccs_configuration_space_t cs = cspace(false);
			ccs_objective_space_t     os = bigobjectives(n);
			deps                         = {(ccs_object_t)cs, (ccs_object_t)os};
			main                         = (ccs_object_t)eva(os, cfg(cs), 1);
			break;
		}
		case 12: main = (ccs_object_t)bigtree(n, false); break;
		case 13: main = (ccs_object_t)bigtree(n, true); break;
		case 14: { // a long position
			TSp s;
			OKX(ccs_create_static_tree_space("ts", bigtree(n, true), s.ret()));
			OKX(ccs_tree_space_set_rng(s, rng()));
			ccs_tree_space_t    ts = keep(s.take());
			std::vector<size_t> pos;
			for (int i = 0; i < n; i++)
				pos.push_back(i ? (size_t)((i - 1) % 3) : 0);
			deps = {(ccs_object_t)ts};
			main = (ccs_object_t)tcfg(ts, pos);
			break;
		}
		case 15:
		case 16: {
			ccs_configuration_space_t cs = cspace(false);
			ccs_objective_space_t     os = bigobjectives(2);
			Tun                       t;
			if (k == 15)
				OKX(ccs_create_random_tuner("tuner", cs, os, t.ret()));
			else {
				ud     = newud(std::string((size_t)n * 3, 's'));
				vector = n % 2 ? &vec_t0 : &vec_t;
				OKX(ccs_create_user_defined_tuner("tuner", cs, os, (ccs_user_defined_tuner_vector_t *)vector, ud, t.ret()));
			}
			ccs_tuner_t         tt = keep(t.take());
			ccs_configuration_t c[3] = {cfg(cs, 0), cfg(cs, 1), cfg(cs, 1)};
			for (int i = 0; i < n; i++) {
				ccs_datum_t v[2] = {ccs_float(i), ccs_float(i % 4 == 3 ? i - 2 : i)};
				Eva         e;
				OKX(ccs_create_evaluation(os, c[i % 3], CCS_RESULT_SUCCESS, 2, v, e.ret()));
				ccs_evaluation_t h = keep(e.take());
				OKX(ccs_tuner_tell(tt, 1, &h));
			}
			main = (ccs_object_t)tt;
			break;
		}
		case 17: {
			Map m;
			OKX(ccs_create_map(m.ret()));
			ccs_map_t mm = keep(m.take());
			for (int i = 0; i < n; i++) {
				std::string a = text_of(i, (size_t)(i % 140)), b = text_of(i + 1, (size_t)(i * 3 % 140));
				OKX(ccs_map_set(mm, i % 2 ? tstr(a.c_str()) : ccs_int(i), i % 3 ? tstr(b.c_str()) : ccs_float(i)));
			}
			main = (ccs_object_t)mm;
			break;
		}
		case 18: main = (ccs_object_t)keep(pstr(text_of(3, (size_t)n).c_str()).take()); break;
		case 19: {
			std::string a = text_of(1, (size_t)n), b = text_of(2, (size_t)n / 2);
			Data        v = {tstr(a.c_str()), ccs_int(1), tstr(b.c_str())};
			main          = (ccs_object_t)keep(pcat("c", v, 2).take());
			break;
		}
		case 20: {
			std::string a = text_of(4, (size_t)n);
			main          = (ccs_object_t)lit(tstr(a.c_str()));
			break;
		}
		case 21: {
			ud     = newud(text_of(5, (size_t)n));
			vector = &vec_d;
			TSp s;
			OKX(ccs_create_dynamic_tree_space(text_of(6, (size_t)n / 3).c_str(), tree(false), &vec_d, ud, s.ret()));
			OKX(ccs_tree_space_set_rng(s, rng()));
			main = (ccs_object_t)keep(s.take());
			break;
		}
		}
	}
	// one of the large objects
	void choose_big(bool all)
	{
		int k = mc::choose(BIG_N, "large kind");
		static const std::vector<int> few = {8, 17, 65, 129, 300}, many = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300};
		static const std::vector<int> fewl = {126, 127, 128, 16380, 16384, 65536, 70000}, manyl = {120, 125, 126, 127, 128, 129, 250, 255, 256, 4095, 4096, 4097, 16380, 16381, 16382, 16383, 16384, 65534, 65535, 65536, 70000, 200000, 2097150, 2097152};
		int n = by_length(k) ? mc::pick(all ? manyl : fewl, "length") : mc::pick(all ? many : few, "size");
		mc::shard_point();
		big(k, n);
	}
	// attach user data to the main object (1), to every object of the graph (2), or long user data to the main object
	void attach(int how, bool own_callback)
	{
		if (!how)
			return;
		Describe d;
		for (auto x : deps)
			d.obj(x);
		d.obj(main);
		for (auto &x : d.id) {
			if (how != 2 && x.first != main)
				continue;
			OKX(ccs_object_set_user_data(x.first, (void *)ud_pool()[how == 1 ? 2 : how == 2 ? (size_t)x.second % UD_SHORT : (size_t)(UD_SHORT + how - 3)]));
			if (own_callback)
				OKX(ccs_object_set_serialize_callback(x.first, ud_ser, nullptr));
		}
	}
	std::vector<char> bytes(ccs_object_t o)
	{
		size_t sz = 0;
		OKX(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END));
		std::vector<char> b(sz);
		OKX(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b.data(), CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END));
		return b;
	}
	// deserialize from memory with everything this kind of object needs
	ccs_result_t restore(const char *b, size_t n, ccs_map_t map, UD *fresh, ccs_object_t *ret)
	{
		mc::step();
		if (map && vector)
			return ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_VECTOR, vector,
						      CCS_DESERIALIZE_OPTION_DATA, (void *)fresh, CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, (void *)nullptr, CCS_DESERIALIZE_OPTION_END);
		if (map)
			return ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser,
						      (void *)nullptr, CCS_DESERIALIZE_OPTION_END);
		if (vector)
			return ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_DESERIALIZE_OPTION_VECTOR, vector, CCS_DESERIALIZE_OPTION_DATA, (void *)fresh,
						      CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, (void *)nullptr, CCS_DESERIALIZE_OPTION_END);
		return ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, (void *)nullptr, CCS_DESERIALIZE_OPTION_END);
	}
	std::string text(const std::vector<ccs_object_t> &objs, std::set<int> content, std::map<void *, int> *ids = nullptr)
	{
		Describe d(content);
		d.user = ud_text;
		for (auto o : objs)
			d.obj(o);
		if (ids)
{
			*ids = d.id;
			for (auto o : d.seen)
				ids->emplace(o, -1);
		}
		return d.out;
	}
	std::string self(std::set<int> content = {}, std::map<void *, int> *ids = nullptr)
	{
		auto v = deps;
		v.push_back(main);
		return text(v, content, ids);
	}
};
// first difference of two descriptions
inline std::string difference(const std::string &a, const std::string &b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i])
		i++;
	size_t s = i > 120 ? i - 120 : 0;
	return "\n--- expected ..." + a.substr(s, 240) + "\n--- got ..." + b.substr(s, 240);
}
