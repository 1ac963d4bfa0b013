// Everything the public interface lets a user see of an object graph, as text.
// Objects get numbers in the order in which they are met; `share` says for which kinds
// of objects identity is part of the description (others are described by content wherever met).
#pragma once
#include "ccsx.hpp"
#include <cinttypes>
#include <algorithm>

struct Describe {
	std::map<void *, int> id;
	std::string           out;
	bool                  sampling = true;                                        // draw from copies of the generators
	std::set<void *>      seen; // all objects met
	std::set<std::pair<void *, void *>> edges; // which object leads to which
	void                 *cur = nullptr;
	std::set<int>         content;                                                // object types described by content only
	std::function<std::string(ccs_object_t, void *)> user;                        // text of attached user data
	explicit Describe(std::set<int> c = {}) : content(c) {}

	void p(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char    b[512];
		va_list ap;
		va_start(ap, fmt);
		int n = vsnprintf(b, sizeof b, fmt, ap);
		va_end(ap);
		if (n >= (int)sizeof b)
			mc::fail("description line too long");
		out += b;
	}
	void str(const char *s)
	{
		if (!s)
			out += "(null)";
		else
			out += '"', out += s, out += '"';
	}
	void datum(const ccs_datum_t &d)
	{
		if (d.type == CCS_DATA_TYPE_STRING)
			str(d.value.s);
		else if (d.type == CCS_DATA_TYPE_FLOAT) {
			uint64_t u;
			memcpy(&u, &d.value.f, 8);
			p("float(%" PRIx64 ")", u);
		} else if (d.type == CCS_DATA_TYPE_OBJECT && !(d.flags & CCS_DATUM_FLAG_ID))
			obj(d.value.o);
		else
			out += dstr(d);
	}
	void num(ccs_numeric_type_t t, ccs_numeric_t v)
	{
		if (t == CCS_NUMERIC_TYPE_INT)
			p("i%" PRId64, (int64_t)v.i);
		else
			p("f%" PRIx64, (uint64_t)v.i);
	}
	void interval(const ccs_interval_t &i)
	{
		out += i.lower_included ? "[" : "(";
		num(i.type, i.lower);
		out += ",";
		num(i.type, i.upper);
		out += i.upper_included ? "]" : ")";
	}
	void data(const Data &v)
	{
		out += "{";
		for (auto &d : v)
			datum(d), out += " ";
		out += "}";
	}
	template <class F> Data getdata(F f)
	{
		size_t n = 0;
		OKX(f((size_t)0, (ccs_datum_t *)nullptr, &n));
		Data v(n);
		if (n)
			OKX(f(n, v.data(), nullptr));
		return v;
	}
	template <class T, class F> std::vector<T> getlist(F f)
	{
		size_t n = 0;
		OKX(f((size_t)0, (T *)nullptr, &n));
		std::vector<T> v(n);
		if (n)
			OKX(f(n, v.data(), nullptr));
		return v;
	}
	bool tolerant = false; // evaluations may fail
	bool attempt(ccs_result_t r)
	{
		mc::step();
		if (r == CCS_RESULT_SUCCESS)
			return true;
		if (!tolerant)
			mc::fail("evaluation returned %d", (int)r);
		p(" error %d ", (int)r);
		return false;
	}
	void obj(ccs_object_t o)
	{
		if (!o) {
			out += "null";
			return;
		}
		ccs_object_type_t t;
		OKX(ccs_object_get_type(o, &t));
		edges.insert({cur, o});
		auto it = id.find(o);
		if (it != id.end() && !content.count((int)t)) {
			p("#%d", it->second);
			return;
		}
		seen.insert(o);
		if (!content.count((int)t)) {
			int n = (int)id.size();
			id[o] = n;
			p("#%d=", n);
		}
		p("<%d ", (int)t);
		void *ud = nullptr;
		OKX(ccs_object_get_user_data(o, &ud));
		if (ud && user)
			p("user:"), out += user(o, ud), p(" ");
		void *outer = cur;
		cur         = o;
		body(o, t);
		cur = outer;
		out += ">\n";
	}
	static const std::vector<ccs_datum_t> &probes()
	{
		static const std::vector<ccs_datum_t> v = {ccs_int(0), ccs_int(1), ccs_int(-1), ccs_int(100), ccs_int(INT64_MAX), ccs_int(INT64_MIN), ccs_float(0.0), ccs_float(-0.0), ccs_float(0.5), ccs_float(1e300),
							   ccs_string(""), ccs_string("a"), ccs_string("b"), ccs_true, ccs_false, ccs_none, ccs_inactive};
		return v;
	}
	void dist(ccs_distribution_t d)
	{
		ccs_distribution_type_t t;
		size_t                  dim;
		OKX(ccs_distribution_get_type(d, &t));
		OKX(ccs_distribution_get_dimension(d, &dim));
		std::vector<ccs_numeric_type_t> ty(dim);
		std::vector<ccs_interval_t>     iv(dim);
		OKX(ccs_distribution_get_data_types(d, ty.data()));
		OKX(ccs_distribution_get_bounds(d, iv.data()));
		p("distribution %d dim %zu ", (int)t, dim);
		for (size_t i = 0; i < dim; i++)
			p("%d", (int)ty[i]), interval(iv[i]);
		ccs_scale_type_t sc;
		ccs_numeric_t    q;
		switch (t) {
		case CCS_DISTRIBUTION_TYPE_UNIFORM: {
			ccs_numeric_t l, u;
			OKX(ccs_uniform_distribution_get_properties(d, &l, &u, &sc, &q));
			num(ty[0], l), out += " ", num(ty[0], u), p(" scale%d q", (int)sc), num(ty[0], q);
			break;
		}
		case CCS_DISTRIBUTION_TYPE_NORMAL: {
			double mu, sg;
			OKX(ccs_normal_distribution_get_properties(d, &mu, &sg, &sc, &q));
			p("mu%a sigma%a scale%d q", mu, sg, (int)sc), num(ty[0], q);
			break;
		}
		case CCS_DISTRIBUTION_TYPE_ROULETTE: {
			auto a = getlist<double>([&](size_t n, double *v, size_t *r) { return ccs_roulette_distribution_get_areas(d, n, v, r); });
			for (double x : a)
				p("%.9g ", x); // areas are renormalized: equal up to rounding
			break;
		}
		case CCS_DISTRIBUTION_TYPE_MIXTURE: {
			auto w = getlist<double>([&](size_t n, double *v, size_t *r) { return ccs_mixture_distribution_get_weights(d, n, v, r); });
			for (double x : w)
				p("%.9g ", x);
			for (auto s : getlist<ccs_distribution_t>([&](size_t n, ccs_distribution_t *v, size_t *r) { return ccs_mixture_distribution_get_distributions(d, n, v, r); }))
				obj(s);
			break;
		}
		case CCS_DISTRIBUTION_TYPE_MULTIVARIATE:
			for (auto s : getlist<ccs_distribution_t>([&](size_t n, ccs_distribution_t *v, size_t *r) { return ccs_multivariate_distribution_get_distributions(d, n, v, r); }))
				obj(s);
			break;
		default:
			mc::fail("unknown distribution type %d", (int)t);
		}
		if (sampling && drawable(d)) {
			Rng r;
			OKX(ccs_create_rng(r.ret()));
			OKX(ccs_rng_set_seed(r, 7));
			std::vector<ccs_numeric_t> v(dim * 3);
			OKX(ccs_distribution_samples(d, r, 3, v.data()));
			for (size_t i = 0; i < v.size(); i++)
				num(ty[i % dim], v[i]), out += " ";
		}
	}
	// normal distributions of integers can reject forever: leave distributions of absurd parameters alone
	static bool drawable(ccs_distribution_t d)
	{
		ccs_distribution_type_t t;
		OKX(ccs_distribution_get_type(d, &t));
		double mu, sg;
		if (t == CCS_DISTRIBUTION_TYPE_NORMAL) {
			OKX(ccs_normal_distribution_get_properties(d, &mu, &sg, nullptr, nullptr));
			return std::fabs(mu) < 1e6 && std::fabs(sg) < 1e6;
		}
		if (t == CCS_DISTRIBUTION_TYPE_MIXTURE || t == CCS_DISTRIBUTION_TYPE_MULTIVARIATE) {
			size_t n = 0;
			auto   f = t == CCS_DISTRIBUTION_TYPE_MIXTURE ? ccs_mixture_distribution_get_distributions : ccs_multivariate_distribution_get_distributions;
			OKX(f(d, 0, nullptr, &n));
			std::vector<ccs_distribution_t> v(n);
			OKX(f(d, n, v.data(), nullptr));
			for (auto x : v)
				if (!drawable(x))
					return false;
		}
		return true;
	}
	void param(ccs_parameter_t q)
	{
		ccs_parameter_type_t t;
		const char          *n;
		ccs_datum_t          d;
		OKX(ccs_parameter_get_type(q, &t));
		OKX(ccs_parameter_get_name(q, &n));
		OKX(ccs_parameter_get_default_value(q, &d));
		p("parameter %d ", (int)t), str(n), out += " default ", datum(d), out += " ";
		switch (t) {
		case CCS_PARAMETER_TYPE_NUMERICAL: {
			ccs_numeric_type_t nt;
			ccs_numeric_t      l, u, z;
			OKX(ccs_numerical_parameter_get_properties(q, &nt, &l, &u, &z));
			num(nt, l), out += " ", num(nt, u), out += " q", num(nt, z);
			break;
		}
		case CCS_PARAMETER_TYPE_CATEGORICAL:
			data(getdata([&](size_t n, ccs_datum_t *v, size_t *r) { return ccs_categorical_parameter_get_values(q, n, v, r); }));
			break;
		case CCS_PARAMETER_TYPE_ORDINAL: {
			Data v = getdata([&](size_t n, ccs_datum_t *v, size_t *r) { return ccs_ordinal_parameter_get_values(q, n, v, r); });
			data(v);
			if (v.size() > 1) {
				ccs_int_t c;
				OKX(ccs_ordinal_parameter_compare_values(q, v[0], v[1], &c));
				p("cmp%d", (int)c);
			}
			break;
		}
		case CCS_PARAMETER_TYPE_DISCRETE:
			data(getdata([&](size_t n, ccs_datum_t *v, size_t *r) { return ccs_discrete_parameter_get_values(q, n, v, r); }));
			break;
		default:
			break;
		}
		if (t != CCS_PARAMETER_TYPE_STRING) {
			ccs_interval_t iv;
			OKX(ccs_parameter_sampling_interval(q, &iv));
			interval(iv);
			Dis dd;
			OKX(ccs_parameter_get_default_distribution(q, dd.ret()));
			auto keep = id;
			content.insert(CCS_OBJECT_TYPE_DISTRIBUTION); // a new object per call
			obj((ccs_object_t)dd.get());
			id = keep;
		}
		out += " ok:";
		for (auto &x : probes()) {
			ccs_bool_t b;
			OKX(ccs_parameter_check_value(q, x, &b));
			out += b ? "1" : "0";
		}
	}
	void expr(ccs_expression_t e)
	{
		ccs_expression_type_t t;
		OKX(ccs_expression_get_type(e, &t));
		p("expression %d ", (int)t);
		if (t == CCS_EXPRESSION_TYPE_LITERAL) {
			ccs_datum_t d;
			OKX(ccs_literal_get_value(e, &d));
			datum(d);
		} else if (t == CCS_EXPRESSION_TYPE_VARIABLE) {
			ccs_parameter_t q;
			OKX(ccs_variable_get_parameter(e, &q));
			obj((ccs_object_t)q);
		}
		for (auto x : getlist<ccs_expression_t>([&](size_t n, ccs_expression_t *v, size_t *r) { return ccs_expression_get_nodes(e, n, v, r); }))
			obj((ccs_object_t)x);
		out += " on ";
		std::vector<int> on; // in no given order; all were met in the nodes
		for (auto x : getlist<ccs_parameter_t>([&](size_t n, ccs_parameter_t *v, size_t *r) { return ccs_expression_get_parameters(e, n, v, r); }))
			on.push_back(id.count(x) ? id[x] : -1);
		std::sort(on.begin(), on.end());
		for (int x : on)
			p("#%d", x);
	}
	void context(ccs_context_t c)
	{
		const char *n;
		OKX(ccs_context_get_name(c, &n));
		str(n);
		auto ps = getlist<ccs_parameter_t>([&](size_t n, ccs_parameter_t *v, size_t *r) { return ccs_context_get_parameters(c, n, v, r); });
		p(" %zu parameters ", ps.size());
		for (size_t i = 0; i < ps.size(); i++) {
			const char *pn;
			size_t      k;
			OKX(ccs_parameter_get_name(ps[i], &pn));
			OKX(ccs_context_get_parameter_index_by_name(c, pn, &k));
			if (k != i)
				p("(name index %zu) ", k);
			OKX(ccs_context_get_parameter_index(c, ps[i], &k));
			if (k != i)
				p("(index %zu) ", k);
			obj((ccs_object_t)ps[i]);
		}
	}
	bool rngs = true; // describe the state of generators
	void rng(ccs_rng_t r)
	{
		gsl_rng *g;
		OKX(ccs_rng_get_gsl_rng(r, &g));
		if (!rngs) {
			p("rng %s", gsl_rng_name(g));
			return;
		}
		p("rng %s state ", gsl_rng_name(g));
		uint64_t h = 1469598103934665603ULL;
		for (size_t i = 0; i < gsl_rng_size(g); i++)
			h = (h ^ ((unsigned char *)gsl_rng_state(g))[i]) * 1099511628211ULL;
		p("%zu:%" PRIx64, gsl_rng_size(g), h);
		if (sampling) { // what the generator would produce next
			gsl_rng *c = gsl_rng_clone(g);
			for (int i = 0; i < 3; i++)
				p(" %lx", gsl_rng_get(c));
			gsl_rng_free(c);
		}
	}
	void cspace(ccs_configuration_space_t s)
	{
		out += "configuration space ";
		context((ccs_context_t)s);
		ccs_rng_t r;
		OKX(ccs_configuration_space_get_rng(s, &r));
		obj((ccs_object_t)r);
		size_t n;
		OKX(ccs_configuration_space_get_num_parameters(s, &n));
		for (size_t i = 0; i < n; i++) {
			ccs_distribution_t d;
			size_t             k;
			OKX(ccs_configuration_space_get_parameter_distribution(s, i, &d, &k));
			p("\n dist[%zu]=%zu of ", i, k);
			obj((ccs_object_t)d);
			ccs_expression_t e;
			OKX(ccs_configuration_space_get_condition(s, i, &e));
			p("\n cond[%zu] ", i);
			obj((ccs_object_t)e);
		}
		out += "\n forbidden ";
		for (auto e : getlist<ccs_expression_t>([&](size_t n, ccs_expression_t *v, size_t *r) { return ccs_configuration_space_get_forbidden_clauses(s, n, v, r); }))
			obj((ccs_object_t)e);
		Cfg c;
		if (attempt(ccs_configuration_space_get_default_configuration(s, c.ret()))) {
			out += " default ";
			data(values((ccs_binding_t)c.get()));
		}
	}
	Data values(ccs_binding_t b)
	{
		return getdata([&](size_t n, ccs_datum_t *v, size_t *r) { return ccs_binding_get_values(b, n, v, r); });
	}
	void ospace(ccs_objective_space_t s)
	{
		out += "objective space ";
		context((ccs_context_t)s);
		size_t n = 0;
		OKX(ccs_objective_space_get_objectives(s, 0, nullptr, nullptr, &n));
		for (size_t i = 0; i < n; i++) {
			ccs_expression_t     e;
			ccs_objective_type_t t;
			OKX(ccs_objective_space_get_objective(s, i, &e, &t));
			p("\n objective %d ", (int)t);
			obj((ccs_object_t)e);
		}
	}
	void tree(ccs_tree_t t)
	{
		size_t      a;
		ccs_datum_t v;
		double      w, b;
		OKX(ccs_tree_get_arity(t, &a));
		OKX(ccs_tree_get_value(t, &v));
		OKX(ccs_tree_get_weight(t, &w));
		OKX(ccs_tree_get_bias(t, &b));
		p("tree %zu weight %a bias %a value ", a, w, b);
		datum(v);
		for (auto c : getlist<ccs_tree_t>([&](size_t n, ccs_tree_t *v, size_t *r) { return ccs_tree_get_children(t, n, v, r); })) {
			if (c) {
				ccs_tree_t par;
				size_t     ix;
				OKX(ccs_tree_get_parent(c, &par, &ix));
				p("\n child %zu%s ", ix, par == t ? "" : " of another parent");
			}
			obj((ccs_object_t)c);
		}
		if (sampling) {
			Rng r;
			OKX(ccs_create_rng(r.ret()));
			OKX(ccs_rng_set_seed(r, 5));
			size_t       ix[3] = {99, 99, 99};
			ccs_result_t res   = ccs_tree_samples(t, r, 3, ix);
			p(" samples %d: %zu %zu %zu", (int)res, ix[0], ix[1], ix[2]);
		}
	}
	void tspace(ccs_tree_space_t s)
	{
		ccs_tree_space_type_t t;
		const char           *n;
		ccs_rng_t             r;
		ccs_tree_t            tr;
		OKX(ccs_tree_space_get_type(s, &t));
		OKX(ccs_tree_space_get_name(s, &n));
		OKX(ccs_tree_space_get_rng(s, &r));
		OKX(ccs_tree_space_get_tree(s, &tr));
		p("tree space %d ", (int)t);
		str(n);
		if (t == CCS_TREE_SPACE_TYPE_DYNAMIC && user) {
			void *d;
			OKX(ccs_dynamic_tree_space_get_tree_space_data(s, &d));
			out += " data ", out += user((ccs_object_t)s, d);
		}
		obj((ccs_object_t)r);
		obj((ccs_object_t)tr);
	}
	template <class E, class L> void evals(const char *what, L f)
	{
		p("\n %s ", what);
		for (auto e : getlist<E>(f))
			obj((ccs_object_t)e);
	}
	void body(ccs_object_t o, ccs_object_type_t t)
	{
		ccs_bool_t  ok;
		const char *n;
		switch (t) {
		case CCS_OBJECT_TYPE_RNG:
			return rng((ccs_rng_t)o);
		case CCS_OBJECT_TYPE_DISTRIBUTION:
			return dist((ccs_distribution_t)o);
		case CCS_OBJECT_TYPE_PARAMETER:
			return param((ccs_parameter_t)o);
		case CCS_OBJECT_TYPE_EXPRESSION:
			return expr((ccs_expression_t)o);
		case CCS_OBJECT_TYPE_CONFIGURATION_SPACE:
			return cspace((ccs_configuration_space_t)o);
		case CCS_OBJECT_TYPE_OBJECTIVE_SPACE:
			return ospace((ccs_objective_space_t)o);
		case CCS_OBJECT_TYPE_FEATURES_SPACE:
			out += "features space ";
			return context((ccs_context_t)o);
		case CCS_OBJECT_TYPE_CONFIGURATION:
		case CCS_OBJECT_TYPE_FEATURES: {
			ccs_context_t c;
			OKX(ccs_binding_get_context((ccs_binding_t)o, &c));
			obj((ccs_object_t)c);
			data(values((ccs_binding_t)o));
			if (t == CCS_OBJECT_TYPE_CONFIGURATION)
				attempt(ccs_configuration_check((ccs_configuration_t)o, &(ok = 0)));
			else
				attempt(ccs_features_check((ccs_features_t)o, &(ok = 0)));
			p(" valid %d", !!ok);
			return;
		}
#define D_EVAL(T, P, X)                                                                                                                                        \
	{                                                                                                                                                      \
		T                       e = (T)o;                                                                                                              \
		ccs_context_t           c;                                                                                                                     \
		ccs_evaluation_result_t r;                                                                                                                     \
		OKX(ccs_binding_get_context((ccs_binding_t)o, &c));                                                                                            \
		obj((ccs_object_t)c);                                                                                                                          \
		data(values((ccs_binding_t)o));                                                                                                                \
		OKX(P##_get_result(e, &r));                                                                                                                    \
		p(" result %d ", (int)r);                                                                                                                      \
		attempt(P##_check(e, &(ok = 0)));                                                                                                              \
		p(" valid %d", !!ok);                                                                                                                          \
		size_t nobj = 0;                                                                                                                               \
		OKX(ccs_objective_space_get_objectives((ccs_objective_space_t)c, 0, nullptr, nullptr, &nobj));                                                 \
		for (size_t i = 0; i < nobj; i++) {                                                                                                            \
			ccs_datum_t  v  = ccs_none;                                                                                                            \
			ccs_result_t rr = P##_get_objective_value(e, i, &v);                                                                                   \
			p(" objective %d ", (int)rr);                                                                                                          \
			if (!rr)                                                                                                                               \
				datum(v);                                                                                                                      \
		}                                                                                                                                              \
		X                                                                                                                                              \
		return;                                                                                                                                        \
	}
		case CCS_OBJECT_TYPE_EVALUATION:
			D_EVAL(ccs_evaluation_t, ccs_evaluation, {
				ccs_configuration_t cf;
				OKX(ccs_evaluation_get_configuration(e, &cf));
				obj((ccs_object_t)cf);
			})
		case CCS_OBJECT_TYPE_FEATURES_EVALUATION:
			D_EVAL(ccs_features_evaluation_t, ccs_features_evaluation, {
				ccs_configuration_t cf;
				ccs_features_t      fe;
				OKX(ccs_features_evaluation_get_configuration(e, &cf));
				OKX(ccs_features_evaluation_get_features(e, &fe));
				obj((ccs_object_t)cf);
				obj((ccs_object_t)fe);
			})
		case CCS_OBJECT_TYPE_TREE_EVALUATION:
			D_EVAL(ccs_tree_evaluation_t, ccs_tree_evaluation, {
				ccs_tree_configuration_t cf;
				OKX(ccs_tree_evaluation_get_configuration(e, &cf));
				obj((ccs_object_t)cf);
			})
		case CCS_OBJECT_TYPE_TREE:
			return tree((ccs_tree_t)o);
		case CCS_OBJECT_TYPE_TREE_SPACE:
			return tspace((ccs_tree_space_t)o);
		case CCS_OBJECT_TYPE_TREE_CONFIGURATION: {
			ccs_tree_configuration_t c = (ccs_tree_configuration_t)o;
			ccs_tree_space_t         s;
			OKX(ccs_tree_configuration_get_tree_space(c, &s));
			obj((ccs_object_t)s);
			for (auto i : getlist<size_t>([&](size_t n, size_t *v, size_t *r) { return ccs_tree_configuration_get_position(c, n, v, r); }))
				p("/%zu", i);
			OKX(ccs_tree_configuration_check(c, &ok));
			p(" valid %d", !!ok);
			if (ok) { // a valid position may end at a slot without a node
				ccs_tree_t   node = nullptr;
				size_t       nv   = 0;
				ccs_result_t r0   = ccs_tree_configuration_get_node(c, &node);
				OKX(ccs_tree_configuration_get_values(c, 0, nullptr, &nv));
				Data         v(nv);
				ccs_result_t r1 = ccs_tree_configuration_get_values(c, nv, v.data(), nullptr);
				p(" node %d values %d/%zu", (int)r0, (int)r1, nv);
				if (!r1)
					data(v);
				if (!r0)
					obj((ccs_object_t)node);
			}
			return;
		}
		case CCS_OBJECT_TYPE_TUNER: {
			ccs_tuner_t               u = (ccs_tuner_t)o;
			ccs_tuner_type_t          ty;
			ccs_configuration_space_t cs;
			ccs_objective_space_t     os;
			OKX(ccs_tuner_get_type(u, &ty));
			OKX(ccs_tuner_get_name(u, &n));
			p("tuner %d ", (int)ty), str(n);
			if (ty == CCS_TUNER_TYPE_USER_DEFINED && user) {
				void *d;
				OKX(ccs_user_defined_tuner_get_tuner_data(u, &d));
				out += " data ", out += user(o, d);
			}
			OKX(ccs_tuner_get_configuration_space(u, &cs));
			OKX(ccs_tuner_get_objective_space(u, &os));
			obj((ccs_object_t)cs);
			obj((ccs_object_t)os);
			evals<ccs_evaluation_t>("history", [&](size_t n, ccs_evaluation_t *v, size_t *r) { return ccs_tuner_get_history(u, n, v, r); });
			evals<ccs_evaluation_t>("optima", [&](size_t n, ccs_evaluation_t *v, size_t *r) { return ccs_tuner_get_optima(u, n, v, r); });
			return;
		}
		case CCS_OBJECT_TYPE_FEATURES_TUNER: {
			ccs_features_tuner_t      u = (ccs_features_tuner_t)o;
			ccs_features_tuner_type_t ty;
			ccs_configuration_space_t cs;
			ccs_features_space_t      fs;
			ccs_objective_space_t     os;
			OKX(ccs_features_tuner_get_type(u, &ty));
			OKX(ccs_features_tuner_get_name(u, &n));
			p("features tuner %d ", (int)ty), str(n);
			if (ty == CCS_FEATURES_TUNER_TYPE_USER_DEFINED && user) {
				void *d;
				OKX(ccs_user_defined_features_tuner_get_tuner_data(u, &d));
				out += " data ", out += user(o, d);
			}
			OKX(ccs_features_tuner_get_configuration_space(u, &cs));
			OKX(ccs_features_tuner_get_features_space(u, &fs));
			OKX(ccs_features_tuner_get_objective_space(u, &os));
			obj((ccs_object_t)cs);
			obj((ccs_object_t)fs);
			obj((ccs_object_t)os);
			evals<ccs_features_evaluation_t>("history", [&](size_t n, ccs_features_evaluation_t *v, size_t *r) { return ccs_features_tuner_get_history(u, nullptr, n, v, r); });
			evals<ccs_features_evaluation_t>("optima", [&](size_t n, ccs_features_evaluation_t *v, size_t *r) { return ccs_features_tuner_get_optima(u, nullptr, n, v, r); });
			return;
		}
		case CCS_OBJECT_TYPE_TREE_TUNER: {
			ccs_tree_tuner_t      u = (ccs_tree_tuner_t)o;
			ccs_tree_tuner_type_t ty;
			ccs_tree_space_t      cs;
			ccs_objective_space_t os;
			OKX(ccs_tree_tuner_get_type(u, &ty));
			OKX(ccs_tree_tuner_get_name(u, &n));
			p("tree tuner %d ", (int)ty), str(n);
			if (ty == CCS_TREE_TUNER_TYPE_USER_DEFINED && user) {
				void *d;
				OKX(ccs_user_defined_tree_tuner_get_tuner_data(u, &d));
				out += " data ", out += user(o, d);
			}
			OKX(ccs_tree_tuner_get_tree_space(u, &cs));
			OKX(ccs_tree_tuner_get_objective_space(u, &os));
			obj((ccs_object_t)cs);
			obj((ccs_object_t)os);
			evals<ccs_tree_evaluation_t>("history", [&](size_t n, ccs_tree_evaluation_t *v, size_t *r) { return ccs_tree_tuner_get_history(u, n, v, r); });
			evals<ccs_tree_evaluation_t>("optima", [&](size_t n, ccs_tree_evaluation_t *v, size_t *r) { return ccs_tree_tuner_get_optima(u, n, v, r); });
			return;
		}
		case CCS_OBJECT_TYPE_MAP: {
			ccs_map_t m  = (ccs_map_t)o;
			size_t    sz = 0;
			OKX(ccs_map_get_keys(m, 0, nullptr, &sz));
			Data k(sz), v(sz);
			if (sz)
				OKX(ccs_map_get_pairs(m, sz, k.data(), v.data(), nullptr));
			p("map %zu ", sz);
			for (size_t i = 0; i < sz; i++) {
				datum(k[i]), out += ":", datum(v[i]), out += " ";
				ccs_datum_t g;
				OKX(ccs_map_get(m, k[i], &g));
				if (!deq(g, v[i]) && k[i].type != CCS_DATA_TYPE_FLOAT)
					out += "(lookup differs)";
			}
			return;
		}
		case CCS_OBJECT_TYPE_ERROR_STACK: {
			ccs_result_t            code;
			const char             *msg;
			size_t                  n;
			ccs_error_stack_elem_t *e;
			OKX(ccs_error_stack_get_code((ccs_error_stack_t)o, &code));
			OKX(ccs_error_stack_get_message((ccs_error_stack_t)o, &msg));
			OKX(ccs_error_stack_get_elems((ccs_error_stack_t)o, &n, &e));
			p("error %d %s %zu", (int)code, msg, n);
			return;
		}
		default:
			mc::fail("unknown object type %d", (int)t);
		}
	}
};
inline std::string describe(ccs_object_t o, std::set<int> content = {})
{
	Describe d(content);
	d.obj(o);
	return d.out;
}
