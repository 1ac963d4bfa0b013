// P19: interval operations against explicit sets of numbers.
#include "mc.hpp"
#include <set>
using namespace mc;

// float candidates live on a half-integer grid finer than the bounds so that open/closed
// bounds are distinguishable; integer candidates are all integers around the bounds.
static const int LO = -2, HI = 2;
struct Iv {
	ccs_interval_t c;
	bool           f;
	double         l, u;
	bool           li, ui;
	bool           has(double x) const { return (li ? x >= l : x > l) && (ui ? x <= u : x < u); }
	std::set<double> set() const
	{
		std::set<double> s;
		for (double x = LO - 2; x <= HI + 2; x += f ? 0.5 : 1.0)
			if (has(x))
				s.insert(x);
		return s;
	}
	bool empty() const { return set().empty(); }
	std::string str() const { return strf("%s%s%g,%g%s", f ? "f" : "i", li ? "[" : "]", l, u, ui ? "]" : "["); }
};
static Iv mk(bool f, int l, int u, bool li, bool ui)
{
	Iv v;
	memset((void *)&v.c, 0xA5, sizeof v.c);
	v.f  = f;
	v.l  = l;
	v.u  = u;
	v.li = li;
	v.ui = ui;
	v.c.type = f ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	if (f) {
		v.c.lower = ccs_numeric_t((ccs_float_t)l);
		v.c.upper = ccs_numeric_t((ccs_float_t)u);
	} else {
		v.c.lower = ccs_numeric_t((ccs_int_t)l);
		v.c.upper = ccs_numeric_t((ccs_int_t)u);
	}
	v.c.lower_included = li ? CCS_TRUE : CCS_FALSE;
	v.c.upper_included = ui ? CCS_TRUE : CCS_FALSE;
	return v;
}
static Iv pick_iv(bool f)
{
	int l = LO + choose(HI - LO + 1, "lower"), u = LO + choose(HI - LO + 1, "upper");
	int inc = choose(4, "inclusion");
	return mk(f, l, u, inc & 1, inc & 2);
}
static std::set<double> members(ccs_interval_t *c, bool f)
{
	std::set<double> s;
	for (double x = LO - 2; x <= HI + 2; x += f ? 0.5 : 1.0) {
		ccs_numeric_t v = f ? ccs_numeric_t((ccs_float_t)x) : ccs_numeric_t((ccs_int_t)x);
		step();
		if (ccs_interval_include(c, v))
			s.insert(x);
	}
	return s;
}
static void same(const ccs_interval_t &a, const ccs_interval_t &b, const char *what)
{
	bool f = a.type == CCS_NUMERIC_TYPE_FLOAT;
	MC_REQ(a.type == b.type && (f ? a.lower.f == b.lower.f && a.upper.f == b.upper.f
				      : a.lower.i == b.lower.i && a.upper.i == b.upper.i) &&
		       !a.lower_included == !b.lower_included && !a.upper_included == !b.upper_included,
	       "%s modified its operand", what);
}

MC_SUITE(single)
{
	bool f = flip("float");
	Iv   a = pick_iv(f);
	shard_point();
	ccs_interval_t orig = a.c;
	ccs_bool_t     e    = 7;
	MC_OK(ccs_interval_empty(&a.c, &e));
	MC_REQ(!!e == a.empty(), "emptiness of %s is reported %d", a.str().c_str(), e);
	MC_REQ(members(&a.c, f) == a.set(), "membership in %s", a.str().c_str());
	same(a.c, orig, "empty/include");
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_empty(nullptr, &e));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_empty(&a.c, nullptr));
	MC_CHECK(!ccs_interval_include(nullptr, a.c.lower));
	obs(a.set().size() * 2 + !!e);
}

MC_SUITE(pairs)
{
	bool f1 = flip("float1"), f2 = flip("float2");
	Iv   a = pick_iv(f1);
	shard_point();
	Iv             b  = pick_iv(f2);
	ccs_interval_t oa = a.c, ob = b.c, r;
	ccs_bool_t     eq = 7;
	if (f1 != f2) {
		MC_RET(CCS_RESULT_ERROR_INVALID_TYPE, ccs_interval_intersect(&a.c, &b.c, &r));
		MC_RET(CCS_RESULT_ERROR_INVALID_TYPE, ccs_interval_union(&a.c, &b.c, &r));
		MC_RET(CCS_RESULT_ERROR_INVALID_TYPE, ccs_interval_equal(&a.c, &b.c, &eq));
		return;
	}
	std::set<double> sa = a.set(), sb = b.set(), si, sm;
	for (double x : sa)
		if (sb.count(x))
			si.insert(x);
	memset((void *)&r, 0x5A, sizeof r);
	MC_OK(ccs_interval_intersect(&a.c, &b.c, &r));
	MC_REQ(r.type == a.c.type, "type of the intersection");
	MC_REQ(members(&r, f1) == si, "intersection of %s and %s", a.str().c_str(), b.str().c_str());
	ccs_bool_t e = 7;
	MC_OK(ccs_interval_empty(&r, &e));
	MC_REQ(!!e == si.empty(), "emptiness of the intersection of %s and %s", a.str().c_str(), b.str().c_str());
	// result may alias an operand
	ccs_interval_t alias = a.c;
	MC_OK(ccs_interval_intersect(&alias, &b.c, &alias));
	same(alias, r, "aliased intersection");
	alias = b.c;
	MC_OK(ccs_interval_intersect(&a.c, &alias, &alias));
	same(alias, r, "aliased intersection");
	if (!sa.empty() && !sb.empty()) {
		memset((void *)&r, 0x5A, sizeof r);
		MC_OK(ccs_interval_union(&a.c, &b.c, &r));
		MC_REQ(r.type == a.c.type, "type of the union");
		double lo = *sa.begin() < *sb.begin() ? *sa.begin() : *sb.begin();
		double hi = *sa.rbegin() > *sb.rbegin() ? *sa.rbegin() : *sb.rbegin();
		for (double x = LO - 2; x <= HI + 2; x += f1 ? 0.5 : 1.0)
			if (x >= lo && x <= hi)
				sm.insert(x);
		MC_REQ(members(&r, f1) == sm, "union of %s and %s", a.str().c_str(), b.str().c_str());
		// the same set, not just the same grid points: bounds are bounds of the operands
		if (f1) {
			double l = a.l < b.l ? a.l : b.l, u = a.u > b.u ? a.u : b.u;
			MC_REQ(r.lower.f == l && r.upper.f == u, "bounds of the union of %s and %s", a.str().c_str(), b.str().c_str());
		}
		nontrivial();
	}
	MC_OK(ccs_interval_equal(&a.c, &b.c, &eq));
	MC_REQ(!!eq == (sa == sb), "equality of %s and %s", a.str().c_str(), b.str().c_str());
	same(a.c, oa, "pair operation");
	same(b.c, ob, "pair operation");
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_union(nullptr, &b.c, &r));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_union(&a.c, nullptr, &r));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_union(&a.c, &b.c, nullptr));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_intersect(nullptr, &b.c, &r));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_intersect(&a.c, nullptr, &r));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_intersect(&a.c, &b.c, nullptr));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_equal(nullptr, &b.c, &eq));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_equal(&a.c, nullptr, &eq));
	MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_interval_equal(&a.c, &b.c, nullptr));
	obs(si.size() * 100 + sm.size() * 2 + (sa == sb));
}

// large magnitudes: bounds that differ only beyond 2^53 or at the extremes of the types
MC_SUITE(extremes)
{
	static const std::vector<int64_t> iv{INT64_MIN, INT64_MIN + 1, -((int64_t)1 << 53) - 1, -((int64_t)1 << 53), ((int64_t)1 << 53),
					     ((int64_t)1 << 53) + 1, INT64_MAX - 1, INT64_MAX};
	static const std::vector<double>  fv{-INFINITY, -1e308, -1.0, -4.9e-324, 0.0, 4.9e-324, 1.0, 1.0000000000000002, 1e308, INFINITY};
	bool f = flip("float");
	shard_point();
	ccs_interval_t a, b, r;
	int            n = f ? (int)fv.size() : (int)iv.size();
	int            l = choose(n), u = choose(n), x = choose(n), inc = choose(4);
	a.type           = f ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	a.lower          = f ? ccs_numeric_t(fv[(size_t)l]) : ccs_numeric_t((ccs_int_t)iv[(size_t)l]);
	a.upper          = f ? ccs_numeric_t(fv[(size_t)u]) : ccs_numeric_t((ccs_int_t)iv[(size_t)u]);
	a.lower_included = (inc & 1) ? CCS_TRUE : CCS_FALSE;
	a.upper_included = (inc & 2) ? CCS_TRUE : CCS_FALSE;
	ccs_numeric_t v  = f ? ccs_numeric_t(fv[(size_t)x]) : ccs_numeric_t((ccs_int_t)iv[(size_t)x]);
	bool exp = ((inc & 1) ? x >= l : x > l) && ((inc & 2) ? x <= u : x < u);
	step();
	MC_REQ(!!ccs_interval_include(&a, v) == exp, "membership at extremes l=%d u=%d x=%d inc=%d", l, u, x, inc);
	b = a;
	b.lower_included = b.upper_included = CCS_TRUE;
	b.lower = b.upper = v; // singleton
	memset((void *)&r, 0x5A, sizeof r);
	MC_OK(ccs_interval_intersect(&a, &b, &r));
	step();
	MC_REQ(!!ccs_interval_include(&r, v) == exp, "intersection with a singleton at extremes");
	obs((uint64_t)exp);
	// equality with every interval over the same bounds; the extremes are discrete enough to list
	int l2 = choose(n), u2 = choose(n), inc2 = choose(4);
	b.lower          = f ? ccs_numeric_t(fv[(size_t)l2]) : ccs_numeric_t((ccs_int_t)iv[(size_t)l2]);
	b.upper          = f ? ccs_numeric_t(fv[(size_t)u2]) : ccs_numeric_t((ccs_int_t)iv[(size_t)u2]);
	b.lower_included = (inc2 & 1) ? CCS_TRUE : CCS_FALSE;
	b.upper_included = (inc2 & 2) ? CCS_TRUE : CCS_FALSE;
	auto norm = [&](const ccs_interval_t &i, __int128 &lo, __int128 &hi) {
		lo = (__int128)i.lower.i + !i.lower_included;
		hi = (__int128)i.upper.i - !i.upper_included;
		return lo <= hi;
	};
	auto fempty = [&](const ccs_interval_t &i) { return i.lower.f > i.upper.f || (i.lower.f == i.upper.f && !(i.lower_included && i.upper_included)); };
	bool want;
	if (f)
		want = fempty(a) || fempty(b) ? fempty(a) && fempty(b) : l == l2 && u == u2 && inc == inc2;
	else {
		__int128 a1, a2, b1, b2;
		bool     na = norm(a, a1, a2), nb = norm(b, b1, b2);
		want = na && nb ? a1 == b1 && a2 == b2 : na == nb;
	}
	ccs_bool_t eq = 7;
	MC_OK(ccs_interval_equal(&a, &b, &eq));
	MC_REQ(!!eq == want, "equality at extremes (%d,%d,%d) (%d,%d,%d) is %d", l, u, inc, l2, u2, inc2, eq);
}
