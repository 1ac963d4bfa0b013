// P11: the validity verdict of configurations and raw values.
#include "cspace_ref.hpp"
using namespace mc;

static std::vector<V> candidates(const RP &p)
{
	switch (p.k) {
	case RP::NUMI: return {V::I((int64_t)p.lo), V::I((int64_t)p.hi - 1), V::I((int64_t)p.hi), V::I((int64_t)p.lo - 1), V::F(p.lo), V::inactive()};
	case RP::NUMF: return {V::F(p.lo), V::F(p.hi - 0.5), V::F(p.hi), V::F(p.lo - 0.5), V::I((int64_t)p.lo), V::inactive()};
	default: {
		std::vector<V> r(p.vals);
		r.push_back(V::I(42));
		r.push_back(V::S("nope"));
		r.push_back(V::inactive());
		return r;
	}
	}
}
static void judge_all(RS &r, LS &l, bool all_values)
{
	// all assignments of candidate values are part of one execution: they do not interact
	size_t n = r.ps.size();
	std::vector<std::vector<V>> cand;
	for (auto &p : r.ps)
		cand.push_back(candidates(p));
	auto before = ser((ccs_object_t)l.s.get());
	std::vector<size_t> ix(n, 0);
	std::string what = sstr(r);
	long valid = 0, total = 0;
	for (;;) {
		std::vector<V> v;
		for (size_t i = 0; i < n; i++)
			v.push_back(cand[i][ix[i]]);
		bool err;
		bool ok = r.valid(v, err);
		check_verdict(l.s, v, ok ? 1 : err ? -1 : 0, what);
		valid += ok;
		total++;
		size_t i = 0;
		while (i < n && ++ix[i] == cand[i].size())
			ix[i++] = 0;
		if (i == n)
			break;
	}
	(void)all_values;
	if (valid && valid < total)
		nontrivial();
	obs((uint64_t)(valid * 1000003 + total));
	MC_REQ(ser((ccs_object_t)l.s.get()) == before, "checking configurations changed the space");
}
static void add_forbidden(RS &r, LS &l, EP f)
{
	std::vector<V> d;
	MC_CHECK(r.defaults(d));
	V   v  = ref_eval(*f, r.ps, d);
	Exp e  = build(*f, l.p, true);
	step("forbid %s", estr(*f, &r.ps).c_str());
	ccs_result_t rc = ccs_configuration_space_add_forbidden_clause(l.s, e);
	if (v.t == V::ERR || RS::holds(v)) {
		MC_REQ(rc < 0, "clause accepted although it excludes the default");
		return;
	}
	MC_REQ(rc == CCS_RESULT_SUCCESS, "clause %s refused with %d", estr(*f, &r.ps).c_str(), (int)rc);
	r.forb.push_back(f);
}
// two-valued parameters of every enumerated kind, all condition graphs, one or two forbidden clauses
MC_SUITE(enumerated)
{
	RS r;
	r.add(RP::en(RP::CAT, "a", {V::B(false), V::B(true)}, 1));
	r.add(RP::en(RP::ORD, "b", {V::S("lo"), V::S("hi")}, 0));
	r.add(RP::en(RP::DIS, "c", {V::I(0), V::F(1.5)}, 0));
	std::vector<EP> forms;
	for (int i = 0; i < 3; i++)
		forms.push_back(pick(condition_forms(r, i, false), "condition"));
	shard_point();
	RS probe = r;
	probe.cond = forms;
	if (probe.cyclic())
		prune();
	auto at = [&](int j, int k) { return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(j), eL(r.ps[(size_t)j].vals[(size_t)k])); };
	std::vector<EP> clauses{nullptr, at(0, 0), at(1, 1), eB(CCS_EXPRESSION_TYPE_AND, at(1, 1), at(2, 1)), eB(CCS_EXPRESSION_TYPE_OR, at(0, 0), at(1, 1)),
				eB(CCS_EXPRESSION_TYPE_AND, at(0, 1), eO(CCS_EXPRESSION_TYPE_NOT, {at(2, 0)})), eB(CCS_EXPRESSION_TYPE_GREATER, eV(1), eL(V::S("lo"))),
				eB(CCS_EXPRESSION_TYPE_GREATER, eV(2), eL(V::I(1)))};
	EP f1 = pick(clauses, "forbidden"), f2 = pick(clauses, "forbidden");
	bool before = flip("clauses before conditions");
	LS l;
	for (auto &p : r.ps)
		l.add(p);
	auto conds = [&] {
		for (int i = 0; i < 3; i++)
			if (forms[(size_t)i]) {
				Exp e = build(*forms[(size_t)i], l.p, true);
				MC_OK(ccs_configuration_space_set_condition(l.s, (size_t)i, e));
				r.cond[(size_t)i] = forms[(size_t)i];
			}
	};
	if (!before)
		conds();
	if (f1)
		add_forbidden(r, l, f1);
	if (f2)
		add_forbidden(r, l, f2);
	if (before)
		conds();
	judge_all(r, l, true);
}
// numerical parameters at their bounds, conditions and clauses comparing parameters
MC_SUITE(numerical)
{
	RS r;
	r.add(RP::numi("i", -2, 3, 1));
	r.add(RP::numf("f", -1.0, 1.5, 0.5));
	r.add(RP::numi("j", 0, 4, 0));
	auto rel = [&](int op, EP a, EP b) { return eB(op, a, b); };
	auto forms = [&](int self) {
		int a = (self + 1) % 3, b = (self + 2) % 3;
		std::vector<EP> o{nullptr, rel(CCS_EXPRESSION_TYPE_GREATER, eV(a), eL(V::I(0))), rel(CCS_EXPRESSION_TYPE_LESS, eV(a), eV(b)),
				  rel(CCS_EXPRESSION_TYPE_LESS_OR_EQUAL, eB(CCS_EXPRESSION_TYPE_ADD, eV(a), eV(b)), eL(V::F(0.5))),
				  rel(CCS_EXPRESSION_TYPE_EQUAL, eV(b), eV(b)), // true whenever active
				  eV(a)};                                       // not a boolean: never holds
		return o;
	};
	std::vector<EP> f;
	for (int i = 0; i < 3; i++)
		f.push_back(pick(forms(i), "condition"));
	shard_point();
	RS probe = r;
	probe.cond = f;
	if (probe.cyclic())
		prune();
	std::vector<EP> clauses{nullptr, rel(CCS_EXPRESSION_TYPE_GREATER, eV(0), eV(1)), rel(CCS_EXPRESSION_TYPE_EQUAL, eB(CCS_EXPRESSION_TYPE_MULTIPLY, eV(0), eV(2)), eL(V::I(0))),
				rel(CCS_EXPRESSION_TYPE_LESS, eV(1), eL(V::I(0))), rel(CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL, eV(2), eL(V::F(2.5)))};
	EP c1 = pick(clauses, "forbidden"), c2 = pick(clauses, "forbidden");
	LS l;
	for (auto &p : r.ps)
		l.add(p);
	for (int i = 0; i < 3; i++)
		if (f[(size_t)i]) {
			Exp e = build(*f[(size_t)i], l.p, false);
			MC_OK(ccs_configuration_space_set_condition(l.s, (size_t)i, e));
			r.cond[(size_t)i] = f[(size_t)i];
		}
	if (c1)
		add_forbidden(r, l, c1);
	if (c2)
		add_forbidden(r, l, c2);
	judge_all(r, l, true);
}
// bad arguments and configurations of other spaces
MC_SUITE(arguments)
{
	int c = choose(7);
	shard_point();
	RS r;
	r.add(RP::numi("i", -2, 3, 1));
	r.add(RP::en(RP::CAT, "a", {V::S("x"), V::S("y")}, 1));
	LS l, other;
	for (auto &p : r.ps) {
		l.add(p);
		other.add(p);
	}
	Cfg        mine, foreign;
	Data       d{ccs_int(0), tstr("x"), ccs_int(1)};
	ccs_bool_t b = 55;
	OKX(ccs_configuration_space_get_default_configuration(l.s, mine.ret()));
	OKX(ccs_configuration_space_get_default_configuration(other.s, foreign.ret()));
	switch (c) {
	case 0: MC_RET(CCS_RESULT_ERROR_INVALID_CONFIGURATION, ccs_configuration_space_check_configuration(l.s, foreign, &b)); break;
	case 1: MC_RET(CCS_RESULT_ERROR_INVALID_CONFIGURATION, ccs_configuration_space_check_configuration_values(l.s, 1, d.data(), &b)); break;
	case 2: MC_RET(CCS_RESULT_ERROR_INVALID_CONFIGURATION, ccs_configuration_space_check_configuration_values(l.s, 3, d.data(), &b)); break;
	case 3: {
		ccs_configuration_t x = nullptr;
		MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_create_configuration(l.s, 1, d.data(), &x));
		MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_create_configuration(l.s, 3, d.data(), &x));
		MC_CHECK(!x);
		break;
	}
	case 4: // transient strings are replaced by the parameter's own copy
		{
			char  t[4] = "x";
			d[1]       = tstr(t);
			Cfg x;
			MC_OK(ccs_create_configuration(l.s, 2, d.data(), x.ret()));
			strcpy(t, "q");
			ccs_datum_t v;
			MC_OK(ccs_configuration_get_value(x, 1, &v));
			MC_CHECK(v.type == CCS_DATA_TYPE_STRING && !strcmp(v.value.s, "x"));
			MC_OK(ccs_configuration_check(x, &b));
			MC_CHECK(b == CCS_TRUE);
			b = 55;
			break;
		}
	case 5: { // a transient value outside the domain cannot be kept
		ccs_configuration_t x = nullptr;
		int rs = refcount(l.s);
		d[1]   = tstr("other");
		MC_ERR(ccs_create_configuration(l.s, 2, d.data(), &x));
		MC_REQ(!x && refcount(l.s) == rs, "refused creation kept a reference to the space");
		break;
	}
	default: { // values set afterwards are judged too
		MC_OK(ccs_configuration_set_value(mine, 0, ccs_int(2)));
		MC_OK(ccs_configuration_check(mine, &b));
		MC_CHECK(b == CCS_TRUE);
		ccs_configuration_set_value(mine, 0, ccs_int(3));
		MC_OK(ccs_configuration_check(mine, &b));
		ccs_datum_t v;
		MC_OK(ccs_configuration_get_value(mine, 0, &v));
		MC_CHECK(b == (v.value.i < 3 ? CCS_TRUE : CCS_FALSE));
		b = 55;
	}
	}
	MC_REQ(b == 55, "output written by a refused call");
	nontrivial();
	obs((uint64_t)c);
}
// ---- features and evaluations: valid exactly when every value is in the domain of its parameter --------------
#include "dist_ref.hpp"
struct Dom {
	const char                               *what;
	std::function<Par(const char *)>          make;
	std::function<bool(const ccs_datum_t &)>  in;
	std::vector<ccs_datum_t>                  some;
};
static bool isint(const ccs_datum_t &d, int64_t lo, int64_t hi) { return d.type == CCS_DATA_TYPE_INT && d.value.i >= lo && d.value.i < hi; }
static bool isstr(const ccs_datum_t &d, const char *s) { return d.type == CCS_DATA_TYPE_STRING && !strcmp(d.value.s, s); }
static const std::vector<Dom> &doms()
{
	static const std::vector<Dom> d{
		{"int", [](const char *n) { return pint(n, 0, 10, 1); }, [](const ccs_datum_t &x) { return isint(x, 0, 10); }, {ccs_int(0), ccs_int(9), ccs_int(10), ccs_int(-1), ccs_float(1), ccs_inactive, ccs_none}},
		{"float", [](const char *n) { return pflt(n, 0, 1, 0); }, [](const ccs_datum_t &x) { return x.type == CCS_DATA_TYPE_FLOAT && x.value.f >= 0 && x.value.f < 1; }, {ccs_float(0), ccs_float(0.5), ccs_float(1), ccs_float(NAN), ccs_int(0), ccs_inactive}},
		{"categorical", [](const char *n) { return pcat(n, {ccs_string("a"), ccs_int(2), ccs_true}); }, [](const ccs_datum_t &x) { return isstr(x, "a") || isint(x, 2, 3) || (x.type == CCS_DATA_TYPE_BOOL && x.value.i); }, {ccs_string("a"), tstr("a"), ccs_int(2), ccs_true, ccs_false, ccs_int(1), ccs_string("b"), tstr("b"), ccs_inactive, ccs_none}},
		{"ordinal", [](const char *n) { return pord(n, {ccs_string("lo"), ccs_string("hi")}); }, [](const ccs_datum_t &x) { return isstr(x, "lo") || isstr(x, "hi"); }, {ccs_string("lo"), tstr("hi"), ccs_string("mid"), ccs_int(0), ccs_inactive}},
		{"discrete", [](const char *n) { return pdis(n, {ccs_int(1), ccs_int(4), ccs_float(0.5)}); }, [](const ccs_datum_t &x) { return isint(x, 1, 2) || isint(x, 4, 5) || (x.type == CCS_DATA_TYPE_FLOAT && x.value.f == 0.5); }, {ccs_int(1), ccs_int(4), ccs_float(0.5), ccs_int(2), ccs_float(1), ccs_inactive}},
		{"string", [](const char *n) { return pstr(n); }, [](const ccs_datum_t &x) { return x.type == CCS_DATA_TYPE_STRING; }, {ccs_string("any"), tstr("thing"), ccs_string(""), ccs_int(0), ccs_inactive, ccs_none}},
	};
	return d;
}
MC_SUITE(bound)
{
	int  kind = choose(4, "kind"), n = choose(tier_bound(3, 4), "parameters");
	std::vector<int> pk;
	for (int i = 0; i < n; i++)
		pk.push_back(choose((int)doms().size(), "parameter kind"));
	shard_point();
	std::vector<Par>             keep;
	std::vector<ccs_parameter_t> ps;
	static const char           *nm[] = {"p0", "p1", "p2", "p3"};
	for (int i = 0; i < n; i++) {
		keep.push_back(doms()[(size_t)pk[(size_t)i]].make(nm[i]));
		ps.push_back(keep.back());
	}
	CSp cs = mkcs("cs", {});
	Cfg cf;
	OKX(ccs_configuration_space_get_default_configuration(cs, cf.ret()));
	FSp fs = mkfs("fs", kind == 0 ? ps : std::vector<ccs_parameter_t>{});
	OSp os = mkos("os", kind ? ps : std::vector<ccs_parameter_t>{});
	Fea fe;
	if (kind)
		OKX(ccs_create_features(fs, 0, nullptr, fe.ret()));
	Tre t;
	TSp ts;
	TCf tc;
	OKX(ccs_create_tree(0, ccs_int(0), t.ret()));
	OKX(ccs_create_static_tree_space("ts", t, ts.ret()));
	OKX(ccs_create_tree_configuration(ts, 0, nullptr, tc.ret()));
	std::vector<size_t> ix((size_t)n, 0);
	long                valid = 0, total = 0;
	auto                before = ser(kind ? (ccs_object_t)os.get() : (ccs_object_t)fs.get());
	for (;;) {
		Data v;
		bool good = true, transient_bad = false;
		std::string what;
		for (int i = 0; i < n; i++) {
			auto       &d = doms()[(size_t)pk[(size_t)i]];
			ccs_datum_t x = d.some[ix[(size_t)i]];
			v.push_back(x);
			bool in = d.in(x);
			good &= in;
			transient_bad |= !in && (x.flags & CCS_DATUM_FLAG_TRANSIENT);
			what += strf(" %s %s", d.what, dstr(x).c_str());
		}
		ccs_bool_t r = 7, r2 = 7, r3 = 7;
		if (kind == 0)
			OKX(ccs_features_space_check_features_values(fs, (size_t)n, v.data(), &r));
		else
			OKX(ccs_objective_space_check_evaluation_values(os, (size_t)n, v.data(), &r));
		MC_REQ((r == CCS_TRUE || r == CCS_FALSE) && !!r == good, "values%s judged %d", what.c_str(), (int)r);
		Obj          o;
		ccs_result_t e = kind == 0 ? ccs_create_features(fs, (size_t)n, v.data(), (ccs_features_t *)o.ret()) : kind == 1 ? ccs_create_evaluation(os, cf, CCS_RESULT_SUCCESS, (size_t)n, v.data(), (ccs_evaluation_t *)o.ret()) : kind == 2 ? ccs_create_features_evaluation(os, cf, fe, CCS_RESULT_SUCCESS, (size_t)n, v.data(), (ccs_features_evaluation_t *)o.ret()) : ccs_create_tree_evaluation(os, tc, CCS_RESULT_SUCCESS, (size_t)n, v.data(), (ccs_tree_evaluation_t *)o.ret());
		MC_REQ(e == (transient_bad ? CCS_RESULT_ERROR_INVALID_VALUE : CCS_RESULT_SUCCESS), "creation with%s returned %d", what.c_str(), (int)e);
		if (o.o) {
			auto b1 = ser(o.o);
			if (kind == 0) {
				OKX(ccs_features_check((ccs_features_t)o.o, &r2));
				OKX(ccs_features_space_check_features(fs, (ccs_features_t)o.o, &r3));
			} else if (kind == 1)
				OKX(ccs_evaluation_check((ccs_evaluation_t)o.o, &r2));
			else if (kind == 2)
				OKX(ccs_features_evaluation_check((ccs_features_evaluation_t)o.o, &r2));
			else
				OKX(ccs_tree_evaluation_check((ccs_tree_evaluation_t)o.o, &r2));
			MC_REQ((r2 == CCS_TRUE || r2 == CCS_FALSE) && !!r2 == good && (kind || !!r3 == good), "object with%s judged %d (%d by the space)", what.c_str(), (int)r2, (int)r3);
			MC_REQ(ser(o.o) == b1, "checking changed the object");
		}
		valid += good;
		total++;
		size_t i = 0;
		while (i < (size_t)n && ++ix[i] == doms()[(size_t)pk[i]].some.size())
			ix[i++] = 0;
		if (i == (size_t)n)
			break;
	}
	MC_REQ(ser(kind ? (ccs_object_t)os.get() : (ccs_object_t)fs.get()) == before, "checking changed the space");
	if (valid && valid < total)
		nontrivial();
	obs((uint64_t)(valid * 1000003 + total));
}
// the verdict follows the values of the moment and the constraints of the moment
MC_SUITE(changes)
{
	int depth = tier_bound(4, 5);
	RS  r;
	r.add(RP::en(RP::CAT, "a", {V::B(false), V::B(true)}, 1));
	r.add(RP::en(RP::ORD, "b", {V::S("lo"), V::S("hi")}, 0));
	r.add(RP::numi("c", 0, 3, 1));
	LS l;
	for (auto &p : r.ps)
		l.add(p);
	auto at = [&](int j, const V &v) { return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(j), eL(v)); };
	Cfg c, other;
	OKX(ccs_configuration_space_get_default_configuration(l.s, c.ret()));
	OKX(ccs_configuration_space_get_default_configuration(l.s, other.ret()));
	std::vector<V> cur, ov;
	MC_CHECK(r.defaults(cur));
	ov = cur;
	bool conditioned = false;
	int  clauses     = 0;
	for (int k = 0; k < depth; k++) {
		if (k == 2)
			shard_point();
		int op = choose(11, "operation");
		static const std::vector<V> sv[3] = {{V::B(false), V::inactive(), V::I(9)}, {V::S("hi"), V::S("lo"), V::inactive()}, {V::I(2), V::I(3), V::inactive()}};
		if (op < 9) {
			const V &v = sv[op / 3][(size_t)(op % 3)];
			step("set %d to %s", op / 3, v.str().c_str());
			OKX(ccs_configuration_set_value(c, (size_t)(op / 3), v.datum()));
			cur[(size_t)(op / 3)] = v;
		} else if (op == 9) {
			if (conditioned)
				prune();
			conditioned = true;
			r.cond[2]   = at(0, V::B(true));
			Exp e       = build(*r.cond[2], l.p, true);
			step("condition");
			OKX(ccs_configuration_space_set_condition(l.s, 2, e));
		} else {
			if (clauses == 2)
				prune();
			EP f = clauses ? at(1, V::S("hi")) : at(2, V::I(2));
			clauses++;
			r.forb.push_back(f);
			Exp e = build(*f, l.p, true);
			step("clause");
			OKX(ccs_configuration_space_add_forbidden_clause(l.s, e));
		}
		for (int w = 0; w < 2; w++) {
			auto &v = w ? ov : cur;
			bool  err;
			bool  ok = r.valid(v, err);
			ccs_bool_t b1 = 7, b2 = 7;
			ccs_result_t e1 = ccs_configuration_check(w ? other : c, &b1), e2 = ccs_configuration_space_check_configuration(l.s, w ? other : c, &b2);
			int g1 = e1 < 0 ? -1 : b1, g2 = e2 < 0 ? -1 : b2;
			MC_REQ(g1 == g2 && (err ? g1 != 1 : g1 == ok), "%s: %s judged %d and %d, want %d", sstr(r).c_str(), vstr(v).c_str(), g1, g2, (int)ok);
			obs((uint64_t)(ok * 2 + w));
		}
	}
	nontrivial();
}
// many parameters and many clauses: each of them matters
MC_SUITE(sizes)
{
	static const std::vector<int> ns{5, 8, 9, 16, 17, 32, 33, 64, 65};
	int n = pick(ns, "parameters"), conds = choose(2, "conditions"), clauses = choose(3, "clauses");
	shard_point();
	RS r;
	LS l;
	for (int i = 0; i < n; i++)
		r.add(i % 3 == 2 ? RP::numi(strf("p%d", i).c_str(), 0, 4, 0) : RP::en(i % 3 ? RP::ORD : RP::CAT, strf("p%d", i).c_str(), {V::I(0), V::I(1)}, 0));
	for (auto &p : r.ps)
		l.add(p);
	auto one = [&](int j) { return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(j), eL(V::I(1))); };
	if (conds)
		for (int i = 0; i + 1 < n; i += 2) { // odd ones are active when the one before is 0
			r.cond[(size_t)i + 1] = eB(CCS_EXPRESSION_TYPE_EQUAL, eV(i), eL(V::I(0)));
			Exp e = build(*r.cond[(size_t)i + 1], l.p, true);
			OKX(ccs_configuration_space_set_condition(l.s, (size_t)i + 1, e));
		}
	std::vector<Exp>              es;
	std::vector<ccs_expression_t> raw;
	for (int i = 0; i + 1 < n && clauses; i++) {
		EP f = eB(CCS_EXPRESSION_TYPE_AND, one(i), one(i + 1));
		r.forb.push_back(f);
		es.push_back(build(*f, l.p, true));
		raw.push_back(es.back());
	}
	if (clauses == 1)
		OKX(ccs_configuration_space_add_forbidden_clauses(l.s, raw.size(), raw.data()));
	else
		for (auto &e : es)
			OKX(ccs_configuration_space_add_forbidden_clause(l.s, e));
	std::vector<V> base;
	MC_CHECK(r.defaults(base));
	long valid = 0, total = 0;
	auto test = [&](const std::vector<V> &v, const char *what, int k) {
		bool err, ok = r.valid(v, err);
		check_verdict(l.s, v, ok ? 1 : err ? -1 : 0, strf("%d parameters, %s at %d", n, what, k));
		valid += ok;
		total++;
	};
	test(base, "default", 0);
	for (int k = 0; k < n; k++) {
		auto v = base;
		v[(size_t)k] = V::I(1);
		test(v, "one", k);
		if (k + 1 < n) {
			v[(size_t)k + 1] = V::I(1);
			test(v, "two", k);
			v[(size_t)k + 1] = V::inactive();
			test(v, "then inactive", k);
		}
		v = base;
		v[(size_t)k] = V::I(7);
		test(v, "out of domain", k);
		v[(size_t)k] = V::inactive();
		test(v, "inactive", k);
		v[(size_t)k] = V::F(0);
		test(v, "other type", k);
	}
	obs((uint64_t)(valid * 1000003 + total));
	nontrivial();
}
