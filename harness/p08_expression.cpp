// P08: expression evaluation against the reference semantics.
#include "expr_ref.hpp"
using namespace mc;

// variables; values offered: domain members and inactive
static const std::vector<RP> &params()
{
	static std::vector<RP> p{
		RP::numi("ni", -4, 5, 1),
		RP::numf("nf", -4.0, 4.0, 1.0),
		RP::en(RP::CAT, "ca", {V::S("a"), V::I(1), V::B(true), V::none(), V::F(0.5)}),
		RP::en(RP::ORD, "oa", {V::S("b"), V::S("a"), V::I(1), V::I(0)}),
		RP::en(RP::ORD, "ob", {V::I(0), V::S("a"), V::S("b"), V::I(1)}),
		RP::en(RP::DIS, "di", {V::I(1), V::F(1.5), V::I(-2)}),
		RP::str("st"),
		RP::en(RP::CAT, "cb", {V::B(false), V::B(true)}),
	};
	return p;
}
static const std::vector<std::vector<V>> &pvals()
{
	static std::vector<std::vector<V>> v{
		{V::I(1), V::I(0), V::I(-3), V::inactive()},
		{V::F(1.0), V::F(-0.0), V::F(2.5), V::inactive()},
		{V::S("a"), V::I(1), V::B(true), V::none(), V::inactive()},
		{V::S("a"), V::S("b"), V::I(1), V::inactive()},
		{V::S("a"), V::S("b"), V::I(0), V::inactive()},
		{V::I(1), V::F(1.5), V::inactive()},
		{V::S("a"), V::S(""), V::inactive()},
		{V::B(true), V::B(false), V::inactive()},
	};
	return v;
}
static const std::vector<V> &lits()
{
	static std::vector<V> v{V::none(), V::B(true), V::B(false), V::I(0), V::I(1), V::I(-1), V::I(2), V::I(7), V::F(0.0), V::F(-0.0),
				V::F(1.0), V::F(-2.0), V::F(1.5), V::F(0.1), V::S(""), V::S("a"), V::S("b"), V::S("aa")};
	return v;
}
static const int NB = 13; // binary operators OR .. MODULO

struct Ctx {
	std::vector<Par>             own;
	std::vector<ccs_parameter_t> ps;
	FSp                          fs;
	OSp                          cs;
	ccs_context_t                ctx = nullptr;
	std::vector<size_t>          idx;
	Data                         values;
	std::vector<V>               vals;
	Ctx(const std::set<int> &used, bool reversed)
	{
		auto &P = params();
		for (auto &p : P) {
			own.push_back(p.make());
			ps.push_back(own.back().get());
		}
		vals.resize(P.size());
		for (size_t i = 0; i < P.size(); i++)
			vals[i] = used.count((int)i) ? pick(pvals()[i], P[i].name.c_str()) : pvals()[i][0];
		std::vector<ccs_parameter_t> order(ps);
		if (reversed)
			std::reverse(order.begin(), order.end());
		if (reversed) {
			fs  = mkfs("ctx", order);
			ctx = (ccs_context_t)fs.get();
		} else {
			cs  = mkos("ctx", order);
			ctx = (ccs_context_t)cs.get();
		}
		for (size_t i = 0; i < P.size(); i++)
			values.push_back(vals[reversed ? P.size() - 1 - i : i].datum());
	}
};
static void evaluate(const E &e, bool reversed, bool direct)
{
	std::set<int> used;
	evars(e, used);
	Ctx  c(used, reversed);
	Exp  x = build(e, c.ps, direct);
	V    want = ref_eval(e, params(), c.vals);
	Data before = c.values;
	ccs_datum_t r = ccs_int(424242);
	step("%s", estr(e, &params()).c_str());
	ccs_result_t rc = ccs_expression_eval(x, c.ctx, c.values.data(), &r);
	V got = rc == CCS_RESULT_SUCCESS ? V::from(r) : V::err();
	MC_REQ(rc <= 0, "evaluation returned %d", (int)rc);
	std::string desc;
	if (got != want) {
		for (int u : used)
			desc += params()[(size_t)u].name + "=" + c.vals[(size_t)u].str() + " ";
		fail("%s with %s gives %s (code %d), want %s", estr(e, &params()).c_str(), desc.c_str(), got.str().c_str(), (int)rc, want.str().c_str());
	}
	for (size_t i = 0; i < before.size(); i++)
		MC_REQ(deq(before[i], c.values[i]), "evaluation changed the values");
	// repeatable
	ccs_datum_t  r2  = ccs_int(1);
	step();
	ccs_result_t rc2 = ccs_expression_eval(x, c.ctx, c.values.data(), &r2);
	MC_REQ(rc2 == rc && (rc != CCS_RESULT_SUCCESS || V::from(r2) == got), "second evaluation differs");
	obs((uint64_t)want.t * 1000003u + (uint64_t)want.i * 31 + std::hash<double>()(want.f) + want.s.size());
	if (want.t != V::ERR)
		nontrivial();
}
static EP leaf(const char *l)
{
	int n = (int)lits().size(), m = (int)params().size();
	int i = choose(n + m, l);
	return i < n ? eL(lits()[(size_t)i]) : eV(i - n);
}
MC_SUITE(binary)
{
	int  op  = choose(NB, "op");
	EP   a   = leaf("left");
	shard_point();
	EP   b   = leaf("right");
	bool rev = flip("context");
	evaluate(*eB(op, a, b), rev, rev);
}
MC_SUITE(unary)
{
	int op = CCS_EXPRESSION_TYPE_POSITIVE + choose(3, "op");
	EP  a  = leaf("operand");
	shard_point();
	evaluate(*eO(op, {a}), flip(), flip());
}
MC_SUITE(membership)
{
	EP  a = leaf("left");
	shard_point();
	int n = choose(3, "length");
	std::vector<EP> k;
	for (int i = 0; i < n; i++)
		k.push_back(leaf("element"));
	evaluate(*eB(CCS_EXPRESSION_TYPE_IN, a, eO(CCS_EXPRESSION_TYPE_LIST, k)), false, true);
}
// small leaf alphabet for nesting
static EP sleaf()
{
	switch (choose(8, "leaf")) {
	case 0: return eL(V::B(true));
	case 1: return eL(V::B(false));
	case 2: return eL(V::I(2));
	case 3: return eL(V::F(0.5));
	case 4: return eL(V::S("a"));
	case 5: return eV(0);  // numerical: 1, 0, -3, inactive
	case 6: return eV(3);  // ordinal
	default: return eV(7); // boolean categorical: true, false, inactive
	}
}
static EP stree(int depth)
{
	if (depth == 0)
		return sleaf();
	int op = choose(NB + 4, "op");
	if (op < NB)
		return eB(op, stree(depth - 1), stree(depth - 1));
	if (op < NB + 3)
		return eO(CCS_EXPRESSION_TYPE_POSITIVE + op - NB, {stree(depth - 1)});
	return eB(CCS_EXPRESSION_TYPE_IN, stree(depth - 1), eO(CCS_EXPRESSION_TYPE_LIST, {stree(depth - 1), eL(V::I(2))}));
}
MC_SUITE(nested_left)
{
	int op = choose(NB + 4, "op");
	EP  a  = stree(1);
	shard_point();
	if (op < NB)
		evaluate(*eB(op, a, sleaf()), false, true);
	else if (op < NB + 3)
		evaluate(*eO(CCS_EXPRESSION_TYPE_POSITIVE + op - NB, {a}), false, true);
	else
		evaluate(*eB(CCS_EXPRESSION_TYPE_IN, a, eO(CCS_EXPRESSION_TYPE_LIST, {sleaf(), eL(V::B(true))})), false, false);
}
MC_SUITE(nested_right)
{
	int op = choose(NB + 1, "op");
	EP  b  = stree(1);
	shard_point();
	EP a = sleaf();
	if (op < NB)
		evaluate(*eB(op, a, b), true, false);
	else
		evaluate(*eB(CCS_EXPRESSION_TYPE_IN, a, eO(CCS_EXPRESSION_TYPE_LIST, {b, eL(V::I(2))})), true, true);
}
// full depth two over logical and comparison operators on the boolean/inactive leaves
static EP bleaf()
{
	switch (choose(4, "leaf")) {
	case 0: return eL(V::B(true));
	case 1: return eL(V::I(1));
	case 2: return eV(0);
	default: return eV(7);
	}
}
static EP btree(int depth)
{
	static const std::vector<int> ops{CCS_EXPRESSION_TYPE_OR, CCS_EXPRESSION_TYPE_AND, CCS_EXPRESSION_TYPE_EQUAL, CCS_EXPRESSION_TYPE_NOT_EQUAL,
					  CCS_EXPRESSION_TYPE_LESS, CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL, CCS_EXPRESSION_TYPE_ADD};
	if (depth == 0)
		return bleaf();
	int o = choose((int)ops.size() + 1);
	if (o == (int)ops.size())
		return eO(CCS_EXPRESSION_TYPE_NOT, {btree(depth - 1)});
	return eB(ops[(size_t)o], btree(depth - 1), btree(depth - 1));
}
MC_SUITE(nested_both)
{
	int op = choose(thorough() ? NB : 3, "op"); // quick: OR, AND, EQUAL
	EP  a  = btree(1);
	shard_point();
	EP b = btree(1);
	evaluate(*eB(op, a, b), false, false);
}
// lists are not values; membership needs a list; unbound variables and missing values are errors
MC_SUITE(misuse)
{
	int c = choose(9, "case"), v = choose((int)params().size(), "variable"), op = choose(NB, "op");
	shard_point();
	EP list = eO(CCS_EXPRESSION_TYPE_LIST, {eL(V::I(1)), eL(V::I(2))});
	Ctx k({}, false);
	ccs_datum_t r = ccs_none;
	switch (c) {
	case 0: evaluate(*list, false, true); break;
	case 1: evaluate(*eB(op, list, eL(V::I(1))), false, true); break;
	case 2: evaluate(*eB(op, eL(V::I(1)), list), false, true); break;
	case 3: evaluate(*eB(CCS_EXPRESSION_TYPE_IN, eL(V::I(1)), eL(V::I(1))), false, true); break;
	case 4: { // variable absent from the context
		Par foreign = pint("zz", 0, 4, 1);
		Exp x       = ebin((ccs_expression_type_t)op, od(foreign), ccs_int(1));
		MC_ERR(ccs_expression_eval(x, k.ctx, k.values.data(), &r));
		MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_expression_check_context(x, k.ctx));
		// same name, other parameter: still another parameter
		Par twin = params()[(size_t)v].make();
		Exp y    = ebin((ccs_expression_type_t)op, od(twin), ccs_int(1));
		MC_ERR(ccs_expression_eval(y, k.ctx, k.values.data(), &r));
		MC_RET(CCS_RESULT_ERROR_INVALID_PARAMETER, ccs_expression_check_context(y, k.ctx));
		break;
	}
	case 5: { // no values
		Exp x = ebin((ccs_expression_type_t)op, ccs_int(1), ccs_object(k.ps[(size_t)v]));
		MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_expression_eval(x, k.ctx, nullptr, &r));
		break;
	}
	case 6: { // no context
		Exp x = ebin((ccs_expression_type_t)op, ccs_int(1), ccs_object(k.ps[(size_t)v]));
		MC_RET(CCS_RESULT_ERROR_INVALID_OBJECT, ccs_expression_eval(x, nullptr, k.values.data(), &r));
		break;
	}
	case 7: { // constant expressions need neither
		Exp x = ebin(CCS_EXPRESSION_TYPE_ADD, ccs_int(1), ccs_int(v));
		MC_OK(ccs_expression_eval(x, nullptr, nullptr, &r));
		MC_CHECK(r.type == CCS_DATA_TYPE_INT && r.value.i == 1 + v);
		MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_expression_eval(x, nullptr, nullptr, nullptr));
		MC_RET(CCS_RESULT_ERROR_INVALID_OBJECT, ccs_expression_eval((ccs_expression_t)k.ps[0], nullptr, nullptr, &r));
		break;
	}
	case 8: { // list entries
		Exp x = build(*eO(CCS_EXPRESSION_TYPE_LIST, {eL(V::S("q")), eV(v), eB(op, eV(0), eL(V::I(3)))}), k.ps, true);
		for (size_t i = 0; i < 3; i++) {
			V want = i == 0 ? V::S("q") : i == 1 ? k.vals[(size_t)v] : ref_eval(*eB(op, eV(0), eL(V::I(3))), params(), k.vals);
			step();
			ccs_result_t rc = ccs_expression_list_eval_node(x, k.ctx, k.values.data(), i, &r);
			V got = rc == CCS_RESULT_SUCCESS ? V::from(r) : V::err();
			MC_REQ(got == want, "entry %zu is %s, want %s", i, got.str().c_str(), want.str().c_str());
		}
		MC_RET(CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_expression_list_eval_node(x, k.ctx, k.values.data(), 3, &r));
		Exp y = elit(ccs_int(1));
		MC_RET(CCS_RESULT_ERROR_INVALID_EXPRESSION, ccs_expression_list_eval_node(y, k.ctx, k.values.data(), 0, &r));
		break;
	}
	}
	obs((uint64_t)c);
}
// extreme numbers; additions, subtractions and products that fit their type
MC_SUITE(extremes)
{
	static const std::vector<V> ev{V::I(INT64_MIN), V::I(INT64_MAX), V::I(-1), V::I(1), V::I(2), V::I(0), V::F(-1.0), V::F(1e308), V::F(4.9e-324), V::F(INFINITY),
				       V::I(INT64_MIN + 1), V::I(1L << 31), V::I(-(1L << 31) - 1), V::I(1L << 32), V::I((1L << 53) + 1), V::F(9007199254740992.0),
				       V::F(0.1), V::F(-2147483648.5), V::I(3)};
	static const std::vector<int> ops{CCS_EXPRESSION_TYPE_DIVIDE, CCS_EXPRESSION_TYPE_MODULO, CCS_EXPRESSION_TYPE_LESS, CCS_EXPRESSION_TYPE_GREATER,
					  CCS_EXPRESSION_TYPE_LESS_OR_EQUAL, CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL, CCS_EXPRESSION_TYPE_EQUAL, CCS_EXPRESSION_TYPE_NOT_EQUAL,
					  CCS_EXPRESSION_TYPE_ADD, CCS_EXPRESSION_TYPE_SUBSTRACT, CCS_EXPRESSION_TYPE_MULTIPLY};
	int op = pick(ops);
	V   va = pick(ev), vb = pick(ev);
	shard_point();
	int64_t o;
	if (va.t == V::INT && vb.t == V::INT &&
	    ((op == CCS_EXPRESSION_TYPE_ADD && __builtin_add_overflow(va.i, vb.i, &o)) || (op == CCS_EXPRESSION_TYPE_SUBSTRACT && __builtin_sub_overflow(va.i, vb.i, &o)) ||
	     (op == CCS_EXPRESSION_TYPE_MULTIPLY && __builtin_mul_overflow(va.i, vb.i, &o))))
		prune();
	evaluate(*eB(op, eL(va), eL(vb)), false, false);
}
MC_SUITE(extremes_unary)
{
	static const std::vector<V> ev{V::I(INT64_MAX), V::I(INT64_MIN + 1), V::I(1L << 33), V::F(INFINITY), V::F(1e308), V::F(-0.0), V::F(0.0)};
	int op = CCS_EXPRESSION_TYPE_POSITIVE + choose(3);
	V   v  = pick(ev);
	shard_point();
	evaluate(*eO(op, {eL(v)}), false, false);
}
// long lists: the match may be at any position
MC_SUITE(long_lists)
{
	int n = choose(7, "length"), at = choose(8, "match position"), other = choose(3), k = choose(4, "kind"), inact = choose(8, "inactive position");
	shard_point();
	static const std::vector<std::vector<V>> filler{{V::I(3), V::F(2.5), V::I(-2)}, {V::S("b"), V::S("b"), V::S("b")}, {V::I(1), V::none(), V::S("a")}, {V::I(5), V::I(6), V::F(7)}};
	// left: literal 2, ordinal variable, categorical variable, numerical variable
	EP left = k == 0 ? eL(V::I(2)) : k == 1 ? eV(3) : k == 2 ? eV(2) : eV(0);
	V  hit  = k == 0 ? V::F(2.0) : k == 1 ? V::S("a") : k == 2 ? V::B(true) : V::F(1.0);
	std::vector<EP> l;
	for (int i = 0; i < n; i++)
		l.push_back(i == at ? eL(hit) : i == inact ? eV(7) : eL(filler[(size_t)k][(size_t)((i + other) % 3)]));
	evaluate(*eB(CCS_EXPRESSION_TYPE_IN, left, eO(CCS_EXPRESSION_TYPE_LIST, l)), flip(), true);
}
// one expression evaluated again and again: with other values, in another context, after its parts were used alone
MC_SUITE(reuse)
{
	typedef std::vector<EP> L;
	static const int AND = CCS_EXPRESSION_TYPE_AND, OR = CCS_EXPRESSION_TYPE_OR, EQ = CCS_EXPRESSION_TYPE_EQUAL, IN = CCS_EXPRESSION_TYPE_IN, LT = CCS_EXPRESSION_TYPE_LESS, ADD = CCS_EXPRESSION_TYPE_ADD, NOT = CCS_EXPRESSION_TYPE_NOT, LIST = CCS_EXPRESSION_TYPE_LIST;
	EP sum = eB(ADD, eV(0), eV(1));
	static const std::vector<EP> forms{
		eV(2), eB(ADD, eV(0), eV(1)), eB(EQ, eV(2), eL(V::I(1))), eB(EQ, eV(2), eL(V::S("a"))), eB(LT, eV(3), eL(V::S("a"))), eB(LT, eV(4), eL(V::S("b"))),
		eB(IN, eV(2), eO(LIST, L{eL(V::S("a")), eL(V::B(true))})), eB(IN, eL(V::I(1)), eO(LIST, L{eV(0), eV(5)})), eB(OR, eB(EQ, eV(0), eL(V::I(1))), eV(7)),
		eB(AND, eO(NOT, L{eV(7)}), eB(EQ, eV(6), eL(V::S("a")))), eB(EQ, sum, sum), eB(AND, eB(LT, sum, eL(V::I(2))), eB(EQ, sum, eL(V::F(1.0)))), eB(CCS_EXPRESSION_TYPE_DIVIDE, eL(V::I(6)), eV(0))};
	const E &e = *pick(forms, "expression");
	std::set<int> used;
	evars(e, used);
	bool rev0 = flip("context"), direct = flip("direct"), split = flip("parts used alone");
	shard_point();
	auto        &P = params();
	std::vector<Par>             own;
	std::vector<ccs_parameter_t> ps;
	for (auto &p : P) {
		own.push_back(p.make());
		ps.push_back(own.back().get());
	}
	std::vector<ccs_parameter_t> back(ps.rbegin(), ps.rend());
	OSp os = mkos("forward", ps);
	FSp fs = mkfs("backward", back);
	Exp x  = build(e, ps, direct);
	std::vector<Exp> kids;
	if (split) {
		size_t n = 0;
		OKX(ccs_expression_get_num_nodes(x, &n));
		std::vector<ccs_expression_t> k(n);
		if (n)
			OKX(ccs_expression_get_nodes(x, n, k.data(), nullptr));
		for (auto q : k) {
			OKX(ccs_retain_object(q));
			kids.emplace_back(Exp(q));
		}
	}
	for (int round = 0; round < 3; round++) {
		std::vector<V> vals(P.size());
		for (size_t i = 0; i < P.size(); i++)
			vals[i] = used.count((int)i) ? pick(pvals()[i], P[i].name.c_str()) : pvals()[i][0];
		bool rev = (round == 1) != rev0;
		Data d;
		for (size_t i = 0; i < P.size(); i++)
			d.push_back(vals[rev ? P.size() - 1 - i : i].datum());
		ccs_context_t c = rev ? (ccs_context_t)fs.get() : (ccs_context_t)os.get();
		for (size_t i = 0; i < kids.size(); i++) {
			V           want = ref_eval(*e.kids[i], P, vals);
			ccs_datum_t r;
			step();
			V got = ccs_expression_eval(kids[i], c, d.data(), &r) == CCS_RESULT_SUCCESS ? V::from(r) : V::err();
			MC_REQ(got == want, "%s gives %s, want %s", estr(*e.kids[i], &P).c_str(), got.str().c_str(), want.str().c_str());
		}
		V           want = ref_eval(e, P, vals);
		ccs_datum_t r;
		step();
		V got = ccs_expression_eval(x, c, d.data(), &r) == CCS_RESULT_SUCCESS ? V::from(r) : V::err();
		MC_REQ(got == want, "evaluation %d of %s gives %s, want %s", round, estr(e, &P).c_str(), got.str().c_str(), want.str().c_str());
		obs((uint64_t)want.t + (uint64_t)want.i * 31);
		if (round == 1 && used.size() > 1)
			break;
	}
	nontrivial();
}
// sizes: long lists, deep nesting, long strings
MC_SUITE(sizes)
{
	static const std::vector<int> n{8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000};
	int size = pick(n, "size"), what = choose(8, "what");
	shard_point();
	EP e;
	switch (what) {
	case 0: case 1: case 2: case 3: { // a match at the first, middle, last or no position
		std::vector<EP> l;
		for (int i = 0; i < size; i++)
			l.push_back(eL(V::I(100 + i)));
		e = eB(CCS_EXPRESSION_TYPE_IN, eL(V::I(what == 0 ? 100 : what == 1 ? 100 + size / 2 : what == 2 ? 99 + size : 100 + size)), eO(CCS_EXPRESSION_TYPE_LIST, l));
		break;
	}
	case 4: // a chain of additions
		e = eV(0);
		for (int i = 0; i < size; i++)
			e = i % 2 ? eB(CCS_EXPRESSION_TYPE_ADD, e, eL(V::I(i))) : eB(CCS_EXPRESSION_TYPE_SUBSTRACT, eL(V::I(i)), e);
		break;
	case 5: // negations
		e = eV(7);
		for (int i = 0; i < size; i++)
			e = eO(CCS_EXPRESSION_TYPE_NOT, {e});
		break;
	case 6: // a disjunction decided at its very end
		e = eB(CCS_EXPRESSION_TYPE_EQUAL, eV(0), eL(V::I(1)));
		for (int i = 0; i < size; i++)
			e = eB(i % 2 ? CCS_EXPRESSION_TYPE_OR : CCS_EXPRESSION_TYPE_AND, i % 3 ? eL(V::B(i % 2 == 0)) : e, i % 3 ? e : eL(V::B(i % 2 == 0)));
		break;
	default: { // strings that differ in their last character
		std::string s((size_t)size, 'x'), t = s;
		int         c = choose(3, "last character"), op = CCS_EXPRESSION_TYPE_EQUAL + choose(6, "operator");
		t.back() = (char)('w' + c);
		e        = eB(op, eL(V::S(s.c_str())), eL(V::S(t.c_str())));
		break;
	}
	}
	evaluate(*e, false, what % 2);
}
