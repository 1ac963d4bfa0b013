// P10: activity of parameters in default and sampled configurations follows the conditions.
#include "cspace_ref.hpp"
using namespace mc;

static const RP P0 = RP::en(RP::CAT, "a", {V::B(false), V::B(true)}, 1), P1 = RP::en(RP::ORD, "b", {V::S("lo"), V::S("hi")}, 1),
		P2 = RP::en(RP::DIS, "c", {V::I(0), V::F(1.5)}, 0), P3 = RP::en(RP::CAT, "d", {V::none(), V::I(3)}, 1);

// declare every condition in the given order; cyclic ones are refused
static void declare(RS &r, LS &l, const std::vector<int> &order, const std::vector<EP> &forms)
{
	for (int i : order) {
		EP f = forms[(size_t)i];
		if (!f)
			continue;
		Exp e               = build(*f, l.p, true);
		r.cond[(size_t)i]   = f;
		bool         cyc    = r.cyclic();
		ccs_result_t rc     = ccs_configuration_space_set_condition(l.s, (size_t)i, e);
		step("condition on %d: %s -> %d", i, estr(*f, &r.ps).c_str(), (int)rc);
		MC_REQ(rc == (cyc ? CCS_RESULT_ERROR_INVALID_GRAPH : CCS_RESULT_SUCCESS), "set_condition(%d, %s) returned %d (cyclic: %d)", i, estr(*f, &r.ps).c_str(), (int)rc, cyc);
		if (cyc)
			r.cond[(size_t)i] = nullptr;
		MC_REQ(refcount(e) == (cyc ? 1 : 2), "references of the condition after set_condition");
	}
}
static void verify(RS &r, LS &l)
{
	size_t n = r.ps.size();
	std::vector<V> want;
	MC_CHECK(r.defaults(want));
	Cfg c;
	MC_OK(ccs_configuration_space_get_default_configuration(l.s, c.ret()));
	auto got = cfg_values(c, n);
	MC_REQ(same(got, want), "%s default is %s, want %s", sstr(r).c_str(), vstr(got).c_str(), vstr(want).c_str());
	// every combination of draws
	uint64_t h = 0;
	for (int mask = 0; mask < 1 << n; mask++) {
		std::vector<uint32_t> tape;
		std::vector<V>        v;
		for (size_t i = 0; i < n; i++) {
			tape.push_back(mask >> i & 1 ? 0xF0000000u : 0x10000000u);
			v.push_back(r.ps[i].vals[(size_t)(mask >> i & 1)]);
		}
		tape_fixed(tape);
		Rng g(tape_rng());
		OKX(ccs_configuration_space_set_rng(l.s, g));
		MC_CHECK(r.actives(v));
		if (mask & 1) {
			Cfg s;
			MC_OK(ccs_configuration_space_sample(l.s, s.ret()));
			got = cfg_values(s, n);
		} else {
			ccs_configuration_t s = nullptr;
			MC_OK(ccs_configuration_space_samples(l.s, 1, &s));
			Cfg own(s);
			got = cfg_values(s, n);
		}
		MC_REQ(tape_log().size() == n, "sampling %zu parameters used %zu draws", n, tape_log().size());
		MC_REQ(same(got, v), "%s sample is %s, want %s", sstr(r).c_str(), vstr(got).c_str(), vstr(v).c_str());
		h = h * 31 + vhash(got);
	}
	obs(h);
}
static std::vector<int> perm(int n)
{
	std::vector<int> left, o;
	for (int i = 0; i < n; i++)
		left.push_back(i);
	while (!left.empty()) {
		int k = choose((int)left.size(), "declaration order");
		o.push_back(left[(size_t)k]);
		left.erase(left.begin() + k);
	}
	return o;
}
static void space(int n, bool rich, int orders)
{
	RS r;
	for (int i = 0; i < n; i++)
		r.add(i == 0 ? P0 : i == 1 ? P1 : i == 2 ? P2 : P3);
	std::vector<EP> forms;
	for (int i = 0; i < n; i++)
		forms.push_back(pick(condition_forms(r, i, rich), "condition"));
	shard_point();
	std::vector<int> order;
	if (orders == 0)
		order = perm(n);
	else {
		int k = choose(orders, "declaration order");
		for (int i = 0; i < n; i++)
			order.push_back(k == 0 ? i : n - 1 - i);
	}
	int nc = 0;
	for (auto &f : forms)
		nc += f != nullptr;
	if (nc >= 2)
		nontrivial();
	LS l;
	for (auto &p : r.ps)
		l.add(p);
	declare(r, l, order, forms);
	verify(r, l);
}
MC_SUITE(three_parameters) { space(3, true, 0); }
MC_SUITE(four_parameters) { space(4, false, thorough() ? 0 : 2); }
// long chains and fans, declared in any rotation, parameters added before or between conditions
MC_SUITE(chains)
{
	int n = 2 + choose(6, "length"), rot = choose(n), dir = choose(2), shape = choose(3), late = choose(2, "interleave");
	shard_point();
	RS r;
	LS l;
	static const char *nm[] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"};
	for (int i = 0; i < n; i++)
		r.add(RP::en(RP::CAT, nm[i], {V::B(false), V::B(true)}, 1));
	auto at = [&](int j) { return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(j), eL(V::B(true))); };
	std::vector<EP> f((size_t)n);
	for (int i = 0; i + 1 < n; i++) { // i depends on i+1 (or the reverse)
		int a = dir ? i + 1 : i, b = dir ? i : i + 1;
		if (shape == 0)
			f[(size_t)a] = at(b);
		else if (shape == 1) // fan: all depend on one
			f[(size_t)(dir ? i + 1 : i)] = at(dir ? 0 : n - 1);
		else { // a depends on all on the other side
			EP e = at(b);
			for (int k = dir ? b - 1 : b + 1; dir ? k >= 0 : k < n; k += dir ? -1 : 1)
				e = eB(k & 1 ? CCS_EXPRESSION_TYPE_AND : CCS_EXPRESSION_TYPE_OR, at(k), e);
			f[(size_t)a] = e;
		}
	}
	std::vector<int> order;
	for (int i = 0; i < n; i++)
		order.push_back((i + rot) % n);
	nontrivial();
	if (!late || dir == 0) {
		for (auto &p : r.ps)
			l.add(p);
		declare(r, l, order, f);
	} else { // add parameter i, then its condition
		for (int i = 0; i < n; i++) {
			l.add(r.ps[(size_t)i]);
			declare(r, l, {i}, f);
		}
	}
	verify(r, l);
}
// many parameters: chains, fans, trees and ladders of conditions, several samples from the same space
MC_SUITE(sizes)
{
	static const std::vector<int> ns{9, 15, 16, 17, 31, 32, 33, 64, 65, 100};
	int n = pick(ns, "parameters"), shape = choose(7, "shape"), order = choose(3, "declaration order"), rev = choose(2, "reversed"), bulk = choose(2, "at once");
	shard_point();
	RS r;
	LS l;
	for (int i = 0; i < n; i++)
		r.add(RP::en(RP::CAT, strf("p%d", i).c_str(), {V::B(false), V::B(true)}, 1));
	auto id = [&](int i) { return rev ? n - 1 - i : i; };
	auto at = [&](int j) { return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(id(j)), eL(V::B(true))); };
	std::vector<EP> f((size_t)n);
	// every earlier parameter, in either order, all or any of them
	auto all = [&](int i) {
		EP e = at(shape == 5 ? 0 : i - 1);
		for (int k = 1; k < i; k++)
			e = eB(shape == 5 && i % 2 ? CCS_EXPRESSION_TYPE_AND : CCS_EXPRESSION_TYPE_OR, e, at(shape == 5 ? k : i - 1 - k));
		return e;
	};
	for (int i = 1; i < n; i++)
		f[(size_t)id(i)] = shape >= 5 ? (n <= 33 || i % 16 == 1 ? all(i) : at(i - 1)) : shape == 0 ? at(i - 1) : shape == 1 ? at(0) : shape == 2 ? at((i - 1) / 2) : shape == 3 ? (i > 1 ? eB(CCS_EXPRESSION_TYPE_OR, at(i - 1), at(i - 2)) : at(0)) : i % 8 ? at(i - i % 8) : nullptr;
	for (auto &p : r.ps)
		l.add(p);
	std::vector<int> o;
	for (int i = 0; i < n; i++)
		o.push_back(order == 0 ? i : order == 1 ? n - 1 - i : i);
	if (order == 2)
		std::stable_sort(o.begin(), o.end(), [](int a, int b) { return a % 5 < b % 5; });
	declare(r, l, o, f);
	std::vector<V> want;
	MC_CHECK(r.defaults(want));
	Cfg c;
	MC_OK(ccs_configuration_space_get_default_configuration(l.s, c.ret()));
	auto got = cfg_values(c, (size_t)n);
	MC_REQ(same(got, want), "default is %s, want %s", vstr(got).c_str(), vstr(want).c_str());
	std::vector<uint32_t>       tape;
	std::vector<std::vector<V>> wants;
	for (int k : {-1, 0, 1, n / 2, n - 2, n - 1, -2, -3}) { // all true, one false, alternating, all false
		std::vector<V> v;
		for (int i = 0; i < n; i++) {
			bool b = k == -1 ? true : k == -2 ? i % 2 : k == -3 ? false : id(i) != k;
			tape.push_back(b ? 0xF0000000u : 0x10000000u);
			v.push_back(V::B(b));
		}
		MC_CHECK(r.actives(v));
		wants.push_back(v);
	}
	tape_fixed(tape);
	Rng g(tape_rng());
	OKX(ccs_configuration_space_set_rng(l.s, g));
	std::vector<ccs_configuration_t> s(wants.size(), nullptr);
	if (bulk)
		MC_OK(ccs_configuration_space_samples(l.s, s.size(), s.data()));
	else
		for (auto &x : s)
			MC_OK(ccs_configuration_space_sample(l.s, &x));
	for (size_t i = 0; i < s.size(); i++) {
		Cfg  own(s[i]);
		auto v = cfg_values(s[i], (size_t)n);
		MC_REQ(same(v, wants[i]), "sample %zu is %s, want %s", i, vstr(v).c_str(), vstr(wants[i]).c_str());
		obs(vhash(v));
	}
	nontrivial();
}
