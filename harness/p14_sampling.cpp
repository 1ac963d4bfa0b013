// P14: every sampled configuration is valid, whatever the generator returns.
#include "cspace_ref.hpp"
#include "dist_ref.hpp"
using namespace mc;

static const RP P0 = RP::en(RP::CAT, "a", {V::B(false), V::B(true)}, 0), P1 = RP::en(RP::ORD, "b", {V::S("lo"), V::S("hi")}, 0),
		P2 = RP::en(RP::DIS, "c", {V::I(0), V::F(1.5)}, 0);
static const uint32_t LO = 0x10000000u, HI = 0xF0000000u;

static void judge(const RS &r, ccs_configuration_space_t s, ccs_configuration_t c, const std::string &what)
{
	ccs_configuration_space_t cs = nullptr;
	OKX(ccs_configuration_get_configuration_space(c, &cs));
	MC_CHECK(cs == s);
	auto v   = cfg_values(c, r.ps.size());
	bool err = false;
	MC_REQ(r.valid(v, err), "%s: sampled configuration %s is not valid", what.c_str(), vstr(v).c_str());
	ccs_bool_t b = CCS_FALSE;
	MC_OK(ccs_configuration_check(c, &b));
	MC_REQ(b == CCS_TRUE, "%s: the space refuses the sampled configuration %s", what.c_str(), vstr(v).c_str());
	obs(vhash(v));
}
// one or several samples; every result must be valid, failures leave nothing behind
static std::vector<V> first_sampled;
static ccs_result_t sample_and_judge(const RS &r, ccs_configuration_space_t s, int count, const std::string &what)
{
	first_sampled.clear();
	if (count < 0) {
		ccs_configuration_t c  = nullptr;
		ccs_result_t        rc = ccs_configuration_space_sample(s, &c);
		step("sample -> %d", (int)rc);
		if (rc == CCS_RESULT_SUCCESS) {
			MC_CHECK(c != nullptr);
			Cfg own(c);
			judge(r, s, c, what);
			first_sampled = cfg_values(c, r.ps.size());
			MC_CHECK(refcount(c) == 1);
		}
		return rc;
	}
	std::vector<ccs_configuration_t> c((size_t)count + 1, (ccs_configuration_t)8);
	ccs_result_t rc = ccs_configuration_space_samples(s, (size_t)count, c.data());
	step("samples(%d) -> %d", count, (int)rc);
	MC_CHECK(c[(size_t)count] == (ccs_configuration_t)8);
	std::vector<Cfg> own;
	int              got = 0;
	for (int i = 0; i < count; i++)
		if (c[(size_t)i]) {
			own.push_back(Cfg(c[(size_t)i]));
			MC_REQ(got == i, "%s: sampled configurations are not contiguous", what.c_str());
			got++;
			for (int j = 0; j < i; j++)
				MC_REQ(c[(size_t)j] != c[(size_t)i], "%s: the same configuration was returned twice", what.c_str());
		}
	for (auto &o : own)
		judge(r, s, o, what);
	if (!own.empty())
		first_sampled = cfg_values(own[0], r.ps.size());
	if (rc == CCS_RESULT_SUCCESS)
		MC_REQ(got == count, "%s: %d configurations requested, %d returned", what.c_str(), count, got);
	else
		MC_REQ(got < count || rc != CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "%s: all configurations were returned with an error", what.c_str());
	return rc;
}
static std::vector<EP> clauses(const RS &r)
{
	std::vector<EP> o;
	auto is = [&](int j, int k) { return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(j), eL(r.ps[(size_t)j].vals[(size_t)k])); };
	int  n  = (int)r.ps.size();
	for (int j = 0; j < n; j++)
		o.push_back(is(j, 1));
	for (int j = 0; j < n; j++)
		for (int k = j + 1; k < n; k++)
			for (int m = 0; m < 4; m++)
				if (m != 0) // the default (all first values) stays allowed
					o.push_back(eB(CCS_EXPRESSION_TYPE_AND, is(j, m & 1), is(k, m >> 1)));
	return o;
}
// which draw decides which parameter, in a space of these parameters without constraints
static std::vector<int> drawn_for(const RS &r)
{
	static std::vector<int> known;
	int                     n = (int)r.ps.size();
	if (!known.empty())
		return known;
	std::vector<int> o((size_t)n, -1);
	for (int i = 0; i < n; i++) {
		LS l;
		for (auto &p : r.ps)
			l.add(p);
		std::vector<uint32_t> tape((size_t)n, LO);
		tape[(size_t)i] = HI;
		tape_fixed(tape);
		Rng g(tape_rng());
		OKX(ccs_configuration_space_set_rng(l.s, g));
		Cfg c;
		OKX(ccs_configuration_space_sample(l.s, c.ret()));
		auto v = cfg_values(c, (size_t)n);
		for (int j = 0; j < n; j++)
			if (v[(size_t)j] == r.ps[(size_t)j].vals[1]) {
				MC_REQ(o[(size_t)j] < 0, "two draws decide parameter %d", j);
				o[(size_t)j] = i;
			}
	}
	for (int j = 0; j < n; j++)
		MC_REQ(o[(size_t)j] >= 0, "no draw decides parameter %d", j);
	return known = o;
}
// conditions x forbidden clauses x draws of the first attempts
static void enumerated(bool rich, int attempts)
{
	RS r;
	r.add(P0), r.add(P1), r.add(P2);
	for (int i = 0; i < 3; i++)
		r.cond[(size_t)i] = pick(condition_forms(r, i, rich), "condition");
	if (r.cyclic())
		prune();
	auto cl = clauses(r);
	int  k1 = choose((int)cl.size() + 1, "clause");
	if (k1)
		r.forb.push_back(cl[(size_t)k1 - 1]);
	if (k1 && rich == thorough()) {
		int k2 = choose(k1, "second clause");
		if (k2)
			r.forb.push_back(cl[(size_t)k2 - 1]);
	}
	// the declared default has to be allowed
	std::vector<V> def;
	if (!r.defaults(def))
		prune();
	bool err = false;
	if (!r.valid(def, err))
		prune();
	shard_point();
	if (!r.forb.empty())
		nontrivial();
	LS l;
	for (auto &p : r.ps)
		l.add(p);
	for (int i = 0; i < 3; i++)
		if (r.cond[(size_t)i]) {
			Exp e = build(*r.cond[(size_t)i], l.p, true);
			MC_OK(ccs_configuration_space_set_condition(l.s, (size_t)i, e));
		}
	for (auto &f : r.forb) {
		Exp e = build(*f, l.p, true);
		MC_OK(ccs_configuration_space_add_forbidden_clause(l.s, e));
	}
	auto of = drawn_for(r);
	for (int m = 0; m < 1 << (3 * attempts); m++) {
		std::vector<uint32_t> tape;
		for (int i = 0; i < 3 * attempts; i++)
			tape.push_back(m >> i & 1 ? HI : LO);
		for (int count : {-1, 1, 2}) {
			if (attempts == 1 && count == 2)
				continue;
			tape_fixed(tape);
			Rng g(tape_rng());
			OKX(ccs_configuration_space_set_rng(l.s, g));
			std::string  what = sstr(r);
			ccs_result_t rc   = sample_and_judge(r, l.s, count, what);
			// the draws beyond the tape walk through all corners, so a valid sample exists
			MC_REQ(rc == CCS_RESULT_SUCCESS, "%s: sampling returned %d", what.c_str(), (int)rc);
			// the first drawn assignment which is valid once inactive parameters are set aside is the one returned
			for (int a = 0; a < attempts; a++) {
				std::vector<V> v;
				bool           e = false;
				for (int j = 0; j < 3; j++)
					v.push_back(r.ps[(size_t)j].vals[m >> (3 * a + of[(size_t)j]) & 1]);
				if (r.actives(v) && r.valid(v, e)) {
					MC_REQ(same(first_sampled, v), "%s: drew %s, which is valid, and returned %s", what.c_str(), vstr(v).c_str(), vstr(first_sampled).c_str());
					break;
				}
			}
		}
	}
}
MC_SUITE(conditions_and_clauses) { enumerated(false, 2); }
MC_SUITE(rich_conditions) { enumerated(true, thorough() ? 2 : 1); }

// numerical parameters with distributions that exceed the domain, alone or jointly
MC_SUITE(numerical)
{
	RS r;
	r.add(RP::numi("i", 0, 8, 2));
	r.add(RP::numf("x", -1.0, 3.0, 0.5));
	r.add(RP::en(RP::CAT, "c", {V::S("u"), V::S("v"), V::S("w")}, 0));
	std::vector<DP> di = {nullptr, dui(-4, 12), dni(3, 4), dui(0, 8, false, 2), dmi({dui(0, 3), dui(5, 20)}, {1, 2})};
	std::vector<DP> dx = {nullptr, duf(-2, 4), dnf(1, 2), duf(-1, 3, false, 0.5), duf(0.001, 100, true)};
	std::vector<DP> dc = {nullptr, dro({1, 0, 1}), dro({0, 1, 3})};
	DP              a = pick(di, "int distribution"), b = pick(dx, "float distribution"), c = pick(dc, "index distribution");
	int             joint = a && b ? choose(c ? 4 : 2, "joint") : 0; // 1: (i,x) 2: (x,c,i) 3: mixture-free triple reversed
	std::vector<EP> fo = {nullptr, eB(CCS_EXPRESSION_TYPE_GREATER, eV(0), eV(1)), eB(CCS_EXPRESSION_TYPE_LESS, eB(CCS_EXPRESSION_TYPE_ADD, eV(0), eV(1)), eL(V::I(1))),
			      eB(CCS_EXPRESSION_TYPE_AND, eB(CCS_EXPRESSION_TYPE_EQUAL, eV(2), eL(V::S("w"))), eB(CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL, eV(0), eL(V::I(4))))};
	std::vector<EP> co = {nullptr, eB(CCS_EXPRESSION_TYPE_LESS, eV(0), eL(V::I(4))), eB(CCS_EXPRESSION_TYPE_NOT_EQUAL, eV(2), eL(V::S("v")))};
	EP f = pick(fo, "forbidden"), x = pick(co, "condition of x");
	r.cond[1] = x;
	if (f)
		r.forb.push_back(f);
	std::vector<V> def;
	MC_CHECK(r.defaults(def));
	bool err = false;
	if (!r.valid(def, err))
		prune();
	shard_point();
	LS l;
	for (auto &p : r.ps)
		l.add(p);
	if (x) {
		Exp e = build(*x, l.p, true);
		MC_OK(ccs_configuration_space_set_condition(l.s, 1, e));
	}
	if (f) {
		Exp e = build(*f, l.p, true);
		MC_OK(ccs_configuration_space_add_forbidden_clause(l.s, e));
	}
	auto assign = [&](DP d, std::vector<size_t> ix) {
		if (!d)
			return;
		Dis q = build(*d);
		MC_OK(ccs_configuration_space_set_distribution(l.s, q, ix.data()));
	};
	if (joint == 0)
		assign(a, {0}), assign(b, {1}), assign(c, {2});
	else if (joint == 1)
		assign(dmv({a, b}), {0, 1}), assign(c, {2});
	else if (joint == 2)
		assign(dmv({b, c, a}), {1, 2, 0});
	else
		assign(dmv({c, b, a}), {2, 1, 0});
	if (a && b && joint)
		nontrivial();
	// draws: a fixed prefix on the grid, then the fair walk
	static const std::vector<uint32_t> grid = {0u, 0x20000000u, 0x80000000u, 0xE0000000u, 0xFFFFFFFFu};
	int                                n    = tier_bound(3, 4), total = 1;
	for (int i = 0; i < n; i++)
		total *= (int)grid.size();
	for (int m = 0; m < total; m++) {
		std::vector<uint32_t> tape;
		for (int i = 0, t = m; i < n; i++, t /= (int)grid.size())
			tape.push_back(grid[(size_t)(t % (int)grid.size())]);
		tape_fixed(tape);
		Rng g(tape_rng());
		OKX(ccs_configuration_space_set_rng(l.s, g));
		std::string  what = sstr(r);
		ccs_result_t rc   = sample_and_judge(r, l.s, m % 4 - 1, what);
		MC_REQ(rc == CCS_RESULT_SUCCESS || rc == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "%s: sampling returned %d", what.c_str(), (int)rc);
	}
}
// sampling that cannot succeed, or only for some of the requested configurations
MC_SUITE(unsuccessful)
{
	int count = choose(6) - 1;
	int good  = choose(5, "valid attempts"), bad = choose(3, "invalid attempts before each");
	int joint = choose(2), second = choose(2, "again");
	shard_point();
	RS r;
	r.add(P0), r.add(P1);
	LS l;
	for (auto &p : r.ps)
		l.add(p);
	auto cl = eB(CCS_EXPRESSION_TYPE_EQUAL, eV(0), eL(V::B(true)));
	r.forb.push_back(cl);
	Exp e = build(*cl, l.p, true);
	MC_OK(ccs_configuration_space_add_forbidden_clause(l.s, e));
	if (joint) {
		Dis    d     = build(*dmv({dro({1, 1}), dro({1, 2})}));
		size_t ix[2] = {0, 1};
		MC_OK(ccs_configuration_space_set_distribution(l.s, d, ix));
	}
	nontrivial();
	for (int rep = 0; rep <= second; rep++) {
		// `good` attempts with the allowed value among forbidden ones, then only forbidden ones
		std::vector<uint32_t> tape;
		for (int i = 0; i < good; i++) {
			for (int j = 0; j < bad; j++)
				tape.push_back(HI), tape.push_back(LO);
			tape.push_back(LO), tape.push_back(HI);
		}
		for (int i = 0; i < 2000; i++)
			tape.push_back(HI);
		tape_fixed(tape);
		Rng g(tape_rng());
		OKX(ccs_configuration_space_set_rng(l.s, g));
		int          rcs  = refcount(l.s);
		ccs_result_t rc   = sample_and_judge(r, l.s, count, "partly forbidden");
		int          need = count < 0 ? 1 : count;
		MC_REQ(rc == (good >= need ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL), "%d configurations with %d valid attempts: %d", need, good, (int)rc);
		MC_CHECK(refcount(l.s) == rcs);
		obs((uint64_t)rc * 7 + (uint64_t)good);
	}
}
// expressions that cannot be evaluated on some draws: an error, never an invalid configuration
MC_SUITE(unevaluable)
{
	int  count = choose(4) - 1, where = choose(2), m = choose(16);
	shard_point();
	RS r;
	r.add(RP::en(RP::DIS, "n", {V::I(1), V::I(0)}, 0));
	r.add(P0);
	auto ex = eB(CCS_EXPRESSION_TYPE_LESS, eB(CCS_EXPRESSION_TYPE_DIVIDE, eL(V::I(4)), eV(0)), eL(V::I(2)));
	auto ok = eB(CCS_EXPRESSION_TYPE_GREATER, eB(CCS_EXPRESSION_TYPE_DIVIDE, eL(V::I(4)), eV(0)), eL(V::I(2)));
	LS   l;
	for (auto &p : r.ps)
		l.add(p);
	if (where) {
		r.cond[1] = ok;
		Exp e     = build(*ok, l.p, true);
		MC_OK(ccs_configuration_space_set_condition(l.s, 1, e));
	} else {
		r.forb.push_back(ex);
		Exp e = build(*ex, l.p, true);
		MC_OK(ccs_configuration_space_add_forbidden_clause(l.s, e));
	}
	nontrivial();
	std::vector<uint32_t> tape;
	bool                  any = false;
	int                   need = count < 0 ? 1 : count;
	for (int i = 0; i < 4; i++) {
		tape.push_back(m >> i & 1 ? HI : LO);
		tape.push_back(LO);
		any = any || (i < need && (m >> i & 1));
	}
	tape_fixed(tape);
	Rng g(tape_rng());
	OKX(ccs_configuration_space_set_rng(l.s, g));
	ccs_result_t rc = sample_and_judge(r, l.s, count, "division");
	MC_REQ((rc == CCS_RESULT_SUCCESS) == !any, "sampling returned %d", (int)rc);
	obs((uint64_t)rc);
}

// many configurations at once, with refused attempts in between and conditions
MC_SUITE(sizes)
{
	static const std::vector<int> ns{7, 8, 9, 31, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 300};
	int count = pick(ns, "count"), bad = choose(4, "refused attempts"), cond = choose(2, "condition"), missing = choose(3, "missing at the end");
	shard_point();
	RS r;
	r.add(P0), r.add(P1), r.add(P2);
	LS l;
	for (auto &p : r.ps)
		l.add(p);
	if (cond) {
		r.cond[2] = eB(CCS_EXPRESSION_TYPE_EQUAL, eV(1), eL(V::S("lo")));
		Exp e     = build(*r.cond[2], l.p, true);
		MC_OK(ccs_configuration_space_set_condition(l.s, 2, e));
	}
	auto cl = eB(CCS_EXPRESSION_TYPE_EQUAL, eV(0), eL(V::B(true)));
	r.forb.push_back(cl);
	Exp e = build(*cl, l.p, true);
	MC_OK(ccs_configuration_space_add_forbidden_clause(l.s, e));
	std::vector<uint32_t>       tape;
	std::vector<std::vector<V>> wants;
	int                         good = missing == 0 ? count : missing == 1 ? count - 1 : count / 2;
	for (int i = 0; i < good; i++) {
		for (int j = 0; j < (bad == 3 ? i % 3 : bad); j++)
			for (int k = 0; k < 3; k++)
				tape.push_back(k ? (i + j) & k ? HI : LO : HI);
		std::vector<V> v;
		tape.push_back(LO), tape.push_back(i & 1 ? HI : LO), tape.push_back(i & 2 ? HI : LO);
		v.push_back(P0.vals[0]), v.push_back(P1.vals[(size_t)(i & 1)]), v.push_back(P2.vals[(size_t)(i >> 1 & 1)]);
		MC_CHECK(r.actives(v));
		wants.push_back(v);
	}
	if (missing)
		for (int i = 0; i < 330 * count; i++)
			tape.push_back(HI);
	tape_fixed(tape);
	Rng g(tape_rng());
	OKX(ccs_configuration_space_set_rng(l.s, g));
	std::vector<ccs_configuration_t> c((size_t)count + 1, (ccs_configuration_t)8);
	ccs_result_t rc = ccs_configuration_space_samples(l.s, (size_t)count, c.data());
	step("samples(%d) -> %d", count, (int)rc);
	MC_CHECK(c[(size_t)count] == (ccs_configuration_t)8);
	MC_REQ(rc == (missing ? CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL : CCS_RESULT_SUCCESS), "sampling %d configurations of which %d can be found returned %d", count, good, (int)rc);
	std::vector<Cfg> own;
	for (int i = 0; i < count; i++)
		if (c[(size_t)i])
			own.push_back(Cfg(c[(size_t)i]));
	for (int i = 0; i < count; i++) {
		MC_REQ(!c[(size_t)i] == (i >= good), "configuration %d of %d: %p, %d could be found", i, count, (void *)c[(size_t)i], good);
		if (i >= good)
			continue;
		auto v = cfg_values(c[(size_t)i], 3);
		MC_REQ(same(v, wants[(size_t)i]), "configuration %d is %s, drawn was %s", i, vstr(v).c_str(), vstr(wants[(size_t)i]).c_str());
		if (i < 4)
			judge(r, l.s, c[(size_t)i], "many");
	}
	nontrivial();
}
