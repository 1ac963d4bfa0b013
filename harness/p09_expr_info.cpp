// P09: expression construction and introspection.
#include "expr_ref.hpp"
using namespace mc;

static const std::vector<RP> &params()
{
	static std::vector<RP> p{RP::numi("x", 0, 5, 1), RP::numf("y", 0, 1, 0.5), RP::en(RP::CAT, "z", {V::S("a"), V::I(1)})};
	return p;
}
static EP leaf()
{
	switch (choose(6, "leaf")) {
	case 0: return eL(V::I(7));
	case 1: return eL(V::S("text"));
	case 2: return eL(V::none());
	case 3: return eV(0);
	case 4: return eV(1);
	default: return eV(2);
	}
}
// a node: leaf, unary, binary, or list of 0..3
static EP tree(int depth)
{
	int k = depth ? choose(6, "shape") : 0;
	switch (k) {
	case 0: return leaf();
	case 1: return eO(CCS_EXPRESSION_TYPE_NOT, {tree(depth - 1)});
	case 2: return eB(CCS_EXPRESSION_TYPE_LESS, tree(depth - 1), tree(depth - 1));
	case 3: return eO(CCS_EXPRESSION_TYPE_LIST, {});
	case 4: return eB(CCS_EXPRESSION_TYPE_IN, tree(depth - 1), eO(CCS_EXPRESSION_TYPE_LIST, {leaf()}));
	default: return eO(CCS_EXPRESSION_TYPE_LIST, {tree(depth - 1), leaf(), eV(0)});
	}
}
static void verify(const E &e, ccs_expression_t x, const std::vector<ccs_parameter_t> &ps)
{
	ccs_expression_type_t t;
	MC_OK(ccs_expression_get_type(x, &t));
	MC_REQ((int)t == e.op, "type %d, built as %d", (int)t, e.op);
	ccs_object_type_t ot;
	MC_OK(ccs_object_get_type(x, &ot));
	MC_CHECK(ot == CCS_OBJECT_TYPE_EXPRESSION);
	size_t n = 99;
	MC_OK(ccs_expression_get_num_nodes(x, &n));
	MC_REQ(n == e.kids.size(), "%zu nodes, built with %zu", n, e.kids.size());
	n = 99;
	MC_OK(ccs_expression_get_nodes(x, 0, nullptr, &n));
	MC_CHECK(n == e.kids.size());
	std::vector<ccs_expression_t> nodes(n + 2, (ccs_expression_t)&n);
	MC_OK(ccs_expression_get_nodes(x, n + 1, nodes.data(), nullptr));
	MC_REQ(nodes[n] == nullptr && nodes[n + 1] == (ccs_expression_t)&n, "padding");
	for (size_t i = 0; i < n; i++)
		verify(*e.kids[i], nodes[i], ps);
	if (n) {
		std::vector<ccs_expression_t> few(n, (ccs_expression_t)&n);
		size_t                        m = 77;
		if (n > 1)
			MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_expression_get_nodes(x, n - 1, few.data(), &m));
		for (auto f : few)
			MC_CHECK(f == (ccs_expression_t)&n);
		MC_OK(ccs_expression_get_nodes(x, n, few.data(), &m));
		MC_CHECK(m == n && std::equal(few.begin(), few.end(), nodes.begin()));
	}
	ccs_datum_t     v;
	ccs_parameter_t p;
	if (e.op == CCS_EXPRESSION_TYPE_LITERAL) {
		MC_OK(ccs_literal_get_value(x, &v));
		MC_REQ(V::from(v) == e.lit, "literal %s, built with %s", dstr(v).c_str(), e.lit.str().c_str());
		if (e.lit.t == V::STR)
			MC_REQ(v.value.s != e.lit.s.c_str(), "string literal is not the expression's own copy");
	} else
		MC_RET(CCS_RESULT_ERROR_INVALID_EXPRESSION, ccs_literal_get_value(x, &v));
	if (e.op == CCS_EXPRESSION_TYPE_VARIABLE) {
		MC_OK(ccs_variable_get_parameter(x, &p));
		MC_CHECK(p == ps[(size_t)e.var]);
	} else
		MC_RET(CCS_RESULT_ERROR_INVALID_EXPRESSION, ccs_variable_get_parameter(x, &p));
}
static void check_params(ccs_expression_t x, const std::set<int> &used, const std::vector<ccs_parameter_t> &ps)
{
	size_t n = 99;
	MC_OK(ccs_expression_get_parameters(x, 0, nullptr, &n));
	MC_REQ(n == used.size(), "%zu parameters reported, %zu occur", n, used.size());
	std::vector<ccs_parameter_t> got(n + 2, (ccs_parameter_t)&n);
	size_t                       m = 99;
	MC_OK(ccs_expression_get_parameters(x, n + 1, got.data(), &m));
	MC_CHECK(m == n && got[n] == nullptr && got[n + 1] == (ccs_parameter_t)&n);
	std::set<ccs_parameter_t> s(got.begin(), got.begin() + (long)n), want;
	for (int u : used)
		want.insert(ps[(size_t)u]);
	MC_REQ(s == want, "parameter set differs");
	if (n > 1) {
		std::vector<ccs_parameter_t> few(n - 1, (ccs_parameter_t)&n);
		MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_expression_get_parameters(x, n - 1, few.data(), &m));
		for (auto f : few)
			MC_CHECK(f == (ccs_parameter_t)&n);
	}
	// contexts: every subset of the parameters
	for (int mask = 0; mask < 8; mask++) {
		bool in = true;
		for (int u : used)
			in = in && (mask >> u & 1);
		std::vector<ccs_parameter_t> sub;
		for (int i = 2; i >= 0; i--)
			if (mask >> i & 1)
				sub.push_back(ps[(size_t)i]);
		FSp fs;
		OSp os;
		CSp cs;
		ccs_context_t c;
		if (mask % 3 == 0) {
			fs = mkfs("f", sub);
			c  = (ccs_context_t)fs.get();
		} else if (mask % 3 == 1) {
			os = mkos("o", sub);
			c  = (ccs_context_t)os.get();
		} else {
			cs = mkcs("c", sub);
			c  = (ccs_context_t)cs.get();
		}
		step();
		ccs_result_t rc = ccs_expression_check_context(x, c);
		MC_REQ(rc == (in ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_INVALID_PARAMETER), "check_context returned %d for parameter subset %d", (int)rc, mask);
	}
	step();
	ccs_result_t rc = ccs_expression_check_context(x, nullptr);
	MC_REQ(rc == (used.empty() ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_INVALID_VALUE), "check without context returned %d", (int)rc);
}
MC_SUITE(trees)
{
	EP   e      = tree(tier_bound(2, 2));
	bool direct = flip("direct operands");
	shard_point();
	std::vector<Par>             own;
	std::vector<ccs_parameter_t> ps;
	for (auto &p : params()) {
		own.push_back(p.make());
		ps.push_back(own.back().get());
	}
	std::set<int> used;
	evars(*e, used);
	Exp x = build(*e, ps, direct);
	MC_CHECK(refcount(x) == 1);
	verify(*e, x, ps);
	check_params(x, used, ps);
	// parameters are held exactly while the expression lives
	for (int i = 0; i < 3; i++)
		MC_REQ((refcount(ps[(size_t)i]) > 1) == (used.count(i) != 0), "references to parameter %d", i);
	x.reset();
	for (int i = 0; i < 3; i++)
		MC_CHECK(refcount(ps[(size_t)i]) == 1);
	obs(std::hash<std::string>()(estr(*e)));
	nontrivial();
}
// every operator with every number of operands 0..3
MC_SUITE(arity)
{
	static const int ar[] = {2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2, -1, 0, 0};
	int  op = choose(CCS_EXPRESSION_TYPE_MAX + 2, "op") - 1;
	int  n  = choose(5, "operands");
	int  k  = choose(4, "operand kind"), how = choose(3, "constructor");
	shard_point();
	Par  p = params()[0].make();
	Exp  s = ebin(CCS_EXPRESSION_TYPE_ADD, od(p), ccs_int(1));
	ccs_datum_t one = k == 0 ? ccs_int(3) : k == 1 ? od(p) : k == 2 ? od(s) : tstr("text");
	Data d((size_t)n, one);
	int  rp = refcount(p), rs = refcount(s);
	bool valid_type = op >= 0 && op <= CCS_EXPRESSION_TYPE_LIST;
	bool ok         = valid_type && (ar[op] < 0 || ar[op] == n);
	Exp  x;
	ccs_expression_t r = (ccs_expression_t)&d;
	ccs_result_t     rc;
	step("op %d operands %d", op, n);
	if (how == 1 && n == 2)
		rc = ccs_create_binary_expression((ccs_expression_type_t)op, one, one, &r);
	else if (how == 1 && n == 1)
		rc = ccs_create_unary_expression((ccs_expression_type_t)op, one, &r);
	else
		rc = ccs_create_expression((ccs_expression_type_t)op, (size_t)n, n ? d.data() : nullptr, &r);
	MC_REQ(rc == (ok ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_INVALID_VALUE), "returned %d", (int)rc);
	if (!ok) {
		MC_REQ(r == (ccs_expression_t)&d, "failed creation wrote its output");
		MC_CHECK(refcount(p) == rp && refcount(s) == rs);
		return;
	}
	x = Exp(r);
	nontrivial();
	obs((uint64_t)(op * 16 + n * 4 + k));
	size_t m;
	MC_OK(ccs_expression_get_num_nodes(x, &m));
	MC_CHECK(m == (size_t)n);
	std::vector<ccs_expression_t> nodes((size_t)n);
	if (n)
		MC_OK(ccs_expression_get_nodes(x, m, nodes.data(), nullptr));
	if (k == 2)
		for (auto q : nodes)
			MC_CHECK(q == s.get());
	if (k == 2 && how == 2) { // operands outlive their first owner
		s.reset();
		for (auto q : nodes)
			MC_CHECK(refcount(q) == n);
	} else
		MC_CHECK(refcount(s) == rs + (k == 2 ? n : 0));
	x.reset();
	MC_CHECK(refcount(p) == (s.get() ? rp : 1));
}
// operands that cannot be part of an expression, at every position
MC_SUITE(bad_operands)
{
	int op = choose(CCS_EXPRESSION_TYPE_LIST + 1, "op"), bad = choose(7, "operand"), pos = choose(3, "position");
	shard_point();
	int n = ccs_expression_arity[op] < 0 ? 3 : ccs_expression_arity[op];
	if (pos >= n)
		prune();
	Par p = params()[0].make();
	Rng rng;
	OKX(ccs_create_rng(rng.ret()));
	CSp cs = mkcs("cs", {p});
	Exp sub = evar(p);
	ccs_datum_t b = ccs_none;
	switch (bad) {
	case 0: b = od(rng); break;
	case 1: b = od(cs); break;
	case 2: b = ccs_object(nullptr); break;
	case 3: b = ccs_inactive; break;
	case 4: b.type = (ccs_data_type_t)-1; break;
	case 5: b.type = CCS_DATA_TYPE_MAX; break;
	default: b.type = (ccs_data_type_t)1000; break;
	}
	Data d((size_t)n, pos == 2 ? od(p) : od(sub));
	d[(size_t)pos] = b;
	int  rp = refcount(p), rs = refcount(sub), rr = refcount(rng), rc_ = refcount(cs);
	ccs_expression_t r = (ccs_expression_t)&d;
	step("op %d operand %d at %d", op, bad, pos);
	ccs_result_t rc = ccs_create_expression((ccs_expression_type_t)op, d.size(), d.data(), &r);
	if (bad != 3) { // an inactive literal is accepted or not by the library, never half way
		MC_REQ(rc < 0, "accepted");
	}
	if (rc < 0) {
		MC_CHECK(r == (ccs_expression_t)&d);
		nontrivial();
	} else {
		Exp x(r);
	}
	MC_CHECK(refcount(p) == rp && refcount(sub) == rs && refcount(rng) == rr && refcount(cs) == rc_);
	obs((uint64_t)(op * 64 + bad * 4 + pos));
}
MC_SUITE(leaves)
{
	int c = choose(6);
	shard_point();
	ccs_expression_t r = nullptr;
	Par p = params()[2].make();
	switch (c) {
	case 0: MC_ERR(ccs_create_variable(nullptr, &r)); break;
	case 1: {
		Rng g;
		OKX(ccs_create_rng(g.ret()));
		MC_ERR(ccs_create_variable((ccs_parameter_t)g.get(), &r));
		MC_ERR(ccs_create_literal(od(g), &r));
		MC_CHECK(refcount(g) == 1);
		break;
	}
	case 2: MC_ERR(ccs_create_variable(p, nullptr)); MC_ERR(ccs_create_literal(ccs_int(1), nullptr)); break;
	case 3: MC_ERR(ccs_create_literal(od(p), &r)); break;
	case 4: { // the literal keeps its own text
		char  t[8] = "abc";
		Exp   x    = elit(flip() ? ccs_string(t) : tstr(t));
		Exp   y    = ebin(CCS_EXPRESSION_TYPE_EQUAL, tstr(t), od(x));
		strcpy(t, "zzz");
		ccs_datum_t v;
		MC_OK(ccs_literal_get_value(x, &v));
		MC_CHECK(v.type == CCS_DATA_TYPE_STRING && !strcmp(v.value.s, "abc"));
		MC_OK(ccs_expression_eval(y, nullptr, nullptr, &v));
		MC_CHECK(v.type == CCS_DATA_TYPE_BOOL && v.value.i);
		break;
	}
	default: {
		Exp x = evar(p);
		ccs_parameter_t q = p.get();
		MC_CHECK(refcount(q) == 2);
		p.reset();
		ccs_parameter_t got;
		MC_OK(ccs_variable_get_parameter(x, &got));
		MC_CHECK(got == q && refcount(q) == 1);
		break;
	}
	}
	MC_CHECK(r == nullptr);
	if (p.get())
		MC_CHECK(refcount(p) == 1);
	nontrivial();
}
// many parameters, long lists and deep nesting; contexts that miss one of them or hold another of the same name
MC_SUITE(sizes)
{
	static const std::vector<int> ns{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
	int n = pick(ns, "parameters"), shape = choose(4, "shape"), repeat = choose(3, "repeated");
	shard_point();
	std::vector<Par>             own;
	std::vector<ccs_parameter_t> ps;
	for (int i = 0; i < n; i++) {
		own.push_back(pint(strf("p%d", i).c_str(), 0, 10, 1));
		ps.push_back(own.back().get());
	}
	std::vector<EP> vs;
	for (int i = 0; i < n * (1 + repeat); i++)
		vs.push_back(eV(repeat == 1 ? i / 2 : repeat == 2 ? (i * 7) % n : i));
	EP e;
	switch (shape) {
	case 0: e = eO(CCS_EXPRESSION_TYPE_LIST, vs); break;
	case 1: // leaning left
	case 2: // leaning right
		e = vs[0];
		for (size_t i = 1; i < vs.size(); i++)
			e = shape == 1 ? eB(CCS_EXPRESSION_TYPE_ADD, e, vs[i]) : eB(CCS_EXPRESSION_TYPE_ADD, vs[i], e);
		break;
	default: { // balanced
		std::vector<EP> l = vs;
		while (l.size() > 1) {
			std::vector<EP> m;
			for (size_t i = 0; i < l.size(); i += 2)
				m.push_back(i + 1 < l.size() ? eB(CCS_EXPRESSION_TYPE_MULTIPLY, l[i], l[i + 1]) : l[i]);
			l = m;
		}
		e = l[0];
	}
	}
	std::set<int> used;
	evars(*e, used);
	Exp x = build(*e, ps, shape % 2);
	verify(*e, x, ps);
	size_t c = 0;
	MC_OK(ccs_expression_get_parameters(x, 0, nullptr, &c));
	MC_REQ(c == used.size(), "%zu parameters reported, %zu occur", c, used.size());
	std::vector<ccs_parameter_t> got(c + 3, (ccs_parameter_t)&c);
	MC_OK(ccs_expression_get_parameters(x, c + 2, got.data(), nullptr));
	MC_CHECK(got[c] == nullptr && got[c + 1] == nullptr && got[c + 2] == (ccs_parameter_t)&c);
	MC_REQ((std::set<ccs_parameter_t>(got.begin(), got.begin() + (long)c).size() == c), "a parameter is reported twice");
	for (size_t i = 0; i < c; i++)
		MC_CHECK(std::find(ps.begin(), ps.end(), got[i]) != ps.end());
	OSp all = mkos("all", ps);
	MC_OK(ccs_expression_check_context(x, (ccs_context_t)all.get()));
	for (int miss : {0, n / 2, n - 1}) {
		std::vector<ccs_parameter_t> some;
		Par                          same = pint(strf("p%d", miss).c_str(), 0, 10, 1);
		for (int i = 0; i < n; i++)
			if (i != miss)
				some.push_back(ps[(size_t)i]);
		ccs_result_t want = used.count(miss) ? CCS_RESULT_ERROR_INVALID_PARAMETER : CCS_RESULT_SUCCESS;
		FSp          fs   = mkfs("some", some);
		step();
		MC_RET(want, ccs_expression_check_context(x, (ccs_context_t)fs.get()));
		some.push_back(same);
		CSp cs = mkcs("homonym", some);
		step();
		MC_RET(want, ccs_expression_check_context(x, (ccs_context_t)cs.get()));
	}
	obs((uint64_t)c);
	nontrivial();
}
