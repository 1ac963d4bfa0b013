// Reference model of a configuration space: parameters, conditions, forbidden clauses.
#pragma once
#include "expr_ref.hpp"

struct RS {
	std::vector<RP> ps;
	std::vector<EP> cond;
	std::vector<EP> forb;
	void add(const RP &p) { ps.push_back(p); cond.push_back(nullptr); }
	std::vector<int> topo() const // empty when cyclic (and there are parameters)
	{
		std::vector<int> r;
		std::vector<bool> done(ps.size(), false);
		for (bool progress = true; progress;) {
			progress = false;
			for (size_t i = 0; i < ps.size(); i++) {
				if (done[i])
					continue;
				std::set<int> u;
				if (cond[i])
					evars(*cond[i], u);
				bool ready = true;
				for (int j : u)
					ready = ready && done[(size_t)j];
				if (ready) {
					done[i]  = true;
					progress = true;
					r.push_back((int)i);
				}
			}
		}
		if (r.size() < ps.size())
			r.clear();
		return r;
	}
	bool cyclic() const { return !ps.empty() && topo().empty(); }
	static bool holds(const V &v) { return v.t == V::BOOL && v.i; }
	// set parameters whose condition does not hold inactive; false: a condition cannot be evaluated
	bool actives(std::vector<V> &v) const
	{
		for (int i : topo())
			if (cond[(size_t)i]) {
				V c = ref_eval(*cond[(size_t)i], ps, v);
				if (c.t == V::ERR)
					return false;
				if (!holds(c))
					v[(size_t)i] = V::inactive();
			}
		return true;
	}
	bool defaults(std::vector<V> &v) const
	{
		v.clear();
		for (auto &p : ps)
			v.push_back(p.def);
		return actives(v);
	}
	// any: some expression cannot be evaluated on these values
	bool valid(const std::vector<V> &v, bool &any_error) const
	{
		bool ok   = true;
		any_error = false;
		for (size_t i = 0; i < ps.size(); i++) {
			bool act = true;
			if (cond[i]) {
				V c = ref_eval(*cond[i], ps, v);
				if (c.t == V::ERR)
					any_error = true;
				act = holds(c);
			}
			if (act != (v[i].t != V::INACTIVE))
				ok = false;
			else if (act && !ps[i].has(v[i]))
				ok = false;
		}
		for (auto &f : forb) {
			V c = ref_eval(*f, ps, v);
			if (c.t == V::ERR)
				any_error = true;
			if (holds(c))
				ok = false;
		}
		return ok && !any_error;
	}
};
// the real space, with its parameters
struct LS {
	std::vector<Par>             own;
	std::vector<ccs_parameter_t> p;
	CSp                          s;
	LS() { OKX(ccs_create_configuration_space("space", s.ret())); }
	void add(const RP &r, bool bind = true)
	{
		own.push_back(r.make());
		p.push_back(own.back().get());
		if (bind)
			OKX(ccs_configuration_space_add_parameter(s, p.back(), nullptr));
	}
};
inline std::vector<V> cfg_values(ccs_configuration_t c, size_t n)
{
	Data   d(n + 1);
	size_t m = 0;
	OKX(ccs_configuration_get_values(c, n, n ? d.data() : nullptr, &m));
	if (m != n)
		mc::fail("configuration has %zu values, the space %zu parameters", m, n);
	std::vector<V> r;
	for (size_t i = 0; i < n; i++)
		r.push_back(V::from(d[i]));
	return r;
}
inline std::string vstr(const std::vector<V> &v)
{
	std::string r;
	for (auto &x : v)
		r += x.str() + " ";
	return r;
}
inline std::string sstr(const RS &r)
{
	std::string s;
	for (size_t i = 0; i < r.ps.size(); i++)
		s += r.ps[i].name + (r.cond[i] ? " if " + estr(*r.cond[i], &r.ps) : "") + "; ";
	for (auto &f : r.forb)
		s += "forbid " + estr(*f, &r.ps) + "; ";
	return s;
}
inline uint64_t vhash(const std::vector<V> &v) { return std::hash<std::string>()(vstr(v)); }
inline bool same(const std::vector<V> &a, const std::vector<V> &b)
{
	return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}
// all three validity entry points must agree on `want` (1 valid, 0 invalid, -1 invalid or error)
inline void check_verdict(ccs_configuration_space_t s, const std::vector<V> &v, int want, const std::string &what)
{
	Data d;
	for (auto &x : v)
		d.push_back(x.datum());
	Cfg c;
	OKX(ccs_create_configuration(s, d.size(), d.data(), c.ret()));
	auto judge = [&](ccs_result_t rc, ccs_bool_t b, const char *via) {
		int got = rc < 0 ? -1 : b == CCS_TRUE ? 1 : 0;
		mc::step();
		if (want >= 0 ? got != want : got == 1)
			mc::fail("%s: %s gives %d (code %d), want %d for values %s", what.c_str(), via, got, (int)rc, want, vstr(v).c_str());
		return got;
	};
	ccs_bool_t b1 = 77, b2 = 77, b3 = 77;
	int a = judge(ccs_configuration_space_check_configuration_values(s, d.size(), d.data(), &b1), b1, "check_configuration_values");
	ccs_result_t r2 = ccs_configuration_space_check_configuration(s, c, &b2);
	ccs_result_t r3 = ccs_configuration_check(c, &b3);
	if (judge(r2, b2, "check_configuration") != a || judge(r3, b3, "configuration_check") != a)
		mc::fail("%s: the validity checks disagree", what.c_str());
	if (!same(cfg_values(c, v.size()), v))
		mc::fail("%s: checking changed the configuration", what.c_str());
	for (size_t i = 0; i < v.size(); i++)
		if (V::from(d[i]) != v[i])
			mc::fail("%s: checking changed the values", what.c_str());
}
// condition language used by the space suites: over parameters other than `self`
// (all parameters have two values; hit(j) is an atom true for the second value of j)
inline std::vector<EP> condition_forms(const RS &r, int self, bool rich)
{
	std::vector<EP> o;
	o.push_back(nullptr);
	int n = (int)r.ps.size();
	auto at = [&](int j) {
		const RP &p = r.ps[(size_t)j];
		return eB(CCS_EXPRESSION_TYPE_EQUAL, eV(j), eL(p.vals[1]));
	};
	for (int j = 0; j < n; j++)
		if (j != self) {
			o.push_back(at(j));
			if (rich) {
				o.push_back(eO(CCS_EXPRESSION_TYPE_NOT, {at(j)}));
				o.push_back(eV(j)); // not a boolean, unless the parameter is
				o.push_back(eB(CCS_EXPRESSION_TYPE_IN, eV(j), eO(CCS_EXPRESSION_TYPE_LIST, {eL(r.ps[(size_t)j].vals[0]), eL(r.ps[(size_t)j].vals[1])})));
			}
		}
	for (int j = 0; j < n; j++)
		for (int k = j + 1; k < n; k++)
			if (j != self && k != self) {
				o.push_back(eB(CCS_EXPRESSION_TYPE_AND, at(j), at(k)));
				o.push_back(eB(CCS_EXPRESSION_TYPE_OR, at(j), at(k)));
				if (rich)
					o.push_back(eB(CCS_EXPRESSION_TYPE_OR, at(k), eO(CCS_EXPRESSION_TYPE_NOT, {eB(CCS_EXPRESSION_TYPE_AND, at(j), at(k))})));
			}
	if (rich) {
		o.push_back(eL(V::B(false)));
		o.push_back(at(self)); // self reference
	}
	return o;
}
