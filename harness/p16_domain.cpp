// P16: parameter domains and sampling inside them.
#include "dist_ref.hpp"
using namespace mc;

static std::vector<ccs_datum_t> candidates()
{
	static char hi2[] = "hi"; // same content, other storage
	std::vector<ccs_datum_t> c{ccs_none, ccs_inactive, ccs_true, ccs_false, ccs_string("lo"), ccs_string("hi"), ccs_string(hi2), tstr("hi"), ccs_string(""), ccs_string("other"), ccs_int(INT64_MIN), ccs_int(INT64_MAX), ccs_float(NAN), ccs_float(INFINITY), ccs_float(-INFINITY), ccs_float(std::nextafter(2.0, 0.0)), ccs_float(std::nextafter(-1.0, -2.0))};
	for (int i = -4; i <= 6; i++) {
		c.push_back(ccs_int(i));
		c.push_back(ccs_float(i * 0.5));
		c.push_back(ccs_int(i));
		c.back().flags = CCS_DATUM_FLAG_TRANSIENT;
	}
	return c;
}
// every way of asking must agree with the reference
template <class F> static void check_domain(ccs_parameter_t p, F accept, bool string_copy = false)
{
	auto   c = candidates();
	size_t n = c.size();
	std::vector<ccs_bool_t>  r(n + 1, (ccs_bool_t)7), r2(n + 1, (ccs_bool_t)7);
	std::vector<ccs_datum_t> v(n + 1, ccs_int(777));
	MC_OK(ccs_parameter_check_values(p, n, c.data(), r.data()));
	MC_OK(ccs_parameter_validate_values(p, n, c.data(), v.data(), r2.data()));
	MC_CHECK((int)r[n] == 7 && (int)r2[n] == 7 && v[n].value.i == 777);
	uint64_t h = 0;
	for (size_t i = 0; i < n; i++) {
		bool       want = accept(c[i]);
		ccs_bool_t one = 7, two = 7;
		ccs_datum_t w = ccs_int(777);
		MC_OK(ccs_parameter_check_value(p, c[i], &one));
		MC_OK(ccs_parameter_validate_value(p, c[i], &w, &two));
		MC_REQ(!!one == want && !!two == want && !!r[i] == want && !!r2[i] == want, "value %s: check %d validate %d bulk %d %d, expected %d", dstr(c[i]).c_str(), one, two, r[i], r2[i], want);
		for (auto &x : {w, v[i]}) {
			MC_REQ(want ? deq(x, c[i]) : x.type == CCS_DATA_TYPE_INACTIVE, "value %s validates to %s", dstr(c[i]).c_str(), dstr(x).c_str());
			if (want && x.type == CCS_DATA_TYPE_STRING)
				MC_REQ(x.value.s != c[i].value.s && !(x.flags & CCS_DATUM_FLAG_TRANSIENT), "validated string %s is not the parameter's own", dstr(c[i]).c_str());
		}
		h = h * 3 + (uint64_t)want;
	}
	MC_OK(ccs_parameter_check_values(p, 0, nullptr, nullptr));
	obs(h);
	(void)string_copy;
}
static void check_default(ccs_parameter_t p, ccs_datum_t want)
{
	ccs_datum_t d = ccs_int(777);
	MC_OK(ccs_parameter_get_default_value(p, &d));
	MC_REQ(deq(d, want), "default is %s, declared %s", dstr(d).c_str(), dstr(want).c_str());
	ccs_bool_t b = CCS_FALSE;
	MC_OK(ccs_parameter_check_value(p, d, &b));
	MC_REQ(b, "the default %s is not in the domain", dstr(d).c_str());
}
MC_SUITE(int_parameter)
{
	static const std::vector<ccs_int_t> g{-3, -1, 0, 1, 2, 4, INT64_MIN, INT64_MAX};
	static const std::vector<ccs_int_t> gq{0, 1, 2, 5, -1, INT64_MAX, INT64_MIN};
	ccs_int_t l = pick(g, "lower"), u = pick(g, "upper"), q = pick(gq, "step"), d = pick(g, "default");
	shard_point();
	bool ok = l < u && q >= 0 && (unsigned __int128)q <= (unsigned __int128)((__int128)u - l) && d >= l && d < u;
	Par  p;
	step();
	ccs_result_t rc = ccs_create_int_numerical_parameter("p", l, u, q, d, p.ret());
	MC_REQ((rc == CCS_RESULT_SUCCESS) == ok, "int [%lld,%lld) step %lld default %lld returned %d", (long long)l, (long long)u, (long long)q, (long long)d, (int)rc);
	MC_CHECK((p.get() != nullptr) == ok);
	if (!ok)
		return;
	nontrivial();
	check_domain(p, [&](const ccs_datum_t &x) { return x.type == CCS_DATA_TYPE_INT && x.value.i >= l && x.value.i < u; });
	check_default(p, ccs_int(d));
	ccs_numeric_type_t t;
	ccs_numeric_t      l2, u2, q2;
	MC_OK(ccs_numerical_parameter_get_properties(p, &t, &l2, &u2, &q2));
	MC_CHECK(t == CCS_NUMERIC_TYPE_INT && l2.i == l && u2.i == u && q2.i == q);
	ccs_interval_t iv;
	MC_OK(ccs_parameter_sampling_interval(p, &iv));
	MC_CHECK(iv.type == t && iv.lower.i == l && iv.upper.i == u && iv.lower_included && !iv.upper_included);
	Dis dd;
	MC_OK(ccs_parameter_get_default_distribution(p, dd.ret()));
	ccs_bool_t ov = CCS_TRUE;
	MC_OK(ccs_distribution_check_oversampling(dd, &iv, &ov));
	MC_CHECK(!ov);
}
MC_SUITE(float_parameter)
{
	static const std::vector<double> g{-1.5, -1, 0, 0.5, 2, NAN, INFINITY, -INFINITY};
	static const std::vector<double> gq{0, 0.5, 1, 3, -1, NAN};
	double l = pick(g, "lower"), u = pick(g, "upper"), q = pick(gq, "step"), d = pick(g, "default");
	shard_point();
	bool ok = l < u && q >= 0 && q <= u - l && d >= l && d < u;
	Par  p;
	step();
	ccs_result_t rc = ccs_create_float_numerical_parameter("p", l, u, q, d, p.ret());
	MC_REQ((rc == CCS_RESULT_SUCCESS) == ok, "float [%g,%g) step %g default %g returned %d", l, u, q, d, (int)rc);
	MC_CHECK((p.get() != nullptr) == ok);
	if (!ok)
		return;
	nontrivial();
	check_domain(p, [&](const ccs_datum_t &x) { return x.type == CCS_DATA_TYPE_FLOAT && x.value.f >= l && x.value.f < u; });
	check_default(p, ccs_float(d));
	ccs_numeric_type_t t;
	ccs_numeric_t      l2, u2, q2;
	MC_OK(ccs_numerical_parameter_get_properties(p, &t, &l2, &u2, &q2));
	MC_CHECK(t == CCS_NUMERIC_TYPE_FLOAT && l2.f == l && u2.f == u && q2.f == q);
	ccs_interval_t iv;
	MC_OK(ccs_parameter_sampling_interval(p, &iv));
	MC_CHECK(iv.type == t && iv.lower.f == l && iv.upper.f == u && iv.lower_included && !iv.upper_included);
}
MC_SUITE(enumerated_parameter)
{
	static const std::vector<ccs_datum_t> g{ccs_none, ccs_int(1), ccs_int(2), ccs_float(1.0), ccs_float(0.5), ccs_true, ccs_string("lo"), ccs_string("hi"), ccs_string(""), ccs_inactive, ccs_string(nullptr)};
	int kind = choose(3, "kind"), n = choose(tier_bound(4, 5), "values");
	Data v;
	for (int i = 0; i < n; i++)
		v.push_back(pick(g, "value"));
	shard_point();
	size_t di = (size_t)choose(n + 1, "default");
	bool   ok = n > 0 && di < (size_t)n;
	for (size_t i = 0; i < v.size(); i++) {
		ok = ok && v[i].type != CCS_DATA_TYPE_INACTIVE && !(v[i].type == CCS_DATA_TYPE_STRING && !v[i].value.s);
		ok = ok && (kind != 2 || v[i].type == CCS_DATA_TYPE_INT || v[i].type == CCS_DATA_TYPE_FLOAT);
		for (size_t j = 0; ok && j < i; j++)
			ok = !deq(v[i], v[j]);
	}
	Par p;
	step();
	auto create = kind == 0 ? ccs_create_categorical_parameter : kind == 1 ? ccs_create_ordinal_parameter : ccs_create_discrete_parameter;
	auto get    = kind == 0 ? ccs_categorical_parameter_get_values : kind == 1 ? ccs_ordinal_parameter_get_values : ccs_discrete_parameter_get_values;
	ccs_result_t rc = create("p", v.size(), v.data(), di, p.ret());
	std::string  s;
	for (auto &x : v)
		s += dstr(x) + " ";
	MC_REQ((rc == CCS_RESULT_SUCCESS) == ok, "enumeration kind %d {%s} default %zu returned %d", kind, s.c_str(), di, (int)rc);
	MC_CHECK((p.get() != nullptr) == ok);
	if (!ok)
		return;
	nontrivial();
	check_domain(p, [&](const ccs_datum_t &x) {
		for (auto &y : v)
			if (x.type != CCS_DATA_TYPE_INACTIVE && deq(x, y))
				return true;
		return false;
	});
	check_default(p, v[di]);
	Data   o((size_t)n + 2, ccs_int(777));
	size_t c = 99;
	MC_OK(get(p, (size_t)n + 1, o.data(), &c));
	MC_CHECK(c == (size_t)n && o[(size_t)n + 1].value.i == 777);
	for (int i = 0; i < n; i++)
		MC_REQ(deq(o[(size_t)i], v[(size_t)i]), "value %d reported %s", i, dstr(o[(size_t)i]).c_str());
	MC_REQ(o[(size_t)n].type == CCS_DATA_TYPE_NONE, "extra entries of the values array are not cleared");
	MC_OK(get(p, 0, nullptr, &c));
	MC_CHECK(c == (size_t)n);
	if (n > 1)
		MC_ERR(get(p, (size_t)n - 1, o.data(), &c));
	MC_ERR(get(p, 0, nullptr, nullptr));
	if (kind == 1) { // the order is the declared one
		for (int i = 0; i < n; i++)
			for (int j = 0; j < n; j++) {
				ccs_int_t r = 99;
				MC_OK(ccs_ordinal_parameter_compare_values(p, v[(size_t)i], v[(size_t)j], &r));
				MC_REQ((i < j) == (r < 0) && (i > j) == (r > 0), "ordinal comparison %d %d gave %lld", i, j, (long long)r);
			}
		ccs_int_t r;
		MC_ERR(ccs_ordinal_parameter_compare_values(p, v[0], ccs_string("nope"), &r));
		MC_ERR(ccs_ordinal_parameter_compare_values(p, ccs_string("nope"), v[0], &r));
	}
	// default distribution: every value, nothing else
	Dis dd;
	MC_OK(ccs_parameter_get_default_distribution(p, dd.ret()));
	Rng r(tape_rng());
	std::set<size_t> seen;
	for (uint32_t k = 0; k < 64; k++) {
		tape_fixed({k * 0x04000000u + 0x01000000u});
		ccs_datum_t x;
		MC_OK(ccs_parameter_sample(p, dd, r, &x));
		size_t i = 0;
		while (i < v.size() && !deq(v[i], x))
			i++;
		MC_REQ(i < v.size(), "sampled %s", dstr(x).c_str());
		seen.insert(i);
	}
	MC_REQ(seen.size() == v.size(), "only %zu of the %zu values can be sampled", seen.size(), v.size());
}
MC_SUITE(string_parameter)
{
	Par p = pstr("s");
	shard_point();
	check_domain(p, [](const ccs_datum_t &x) { return x.type == CCS_DATA_TYPE_STRING; });
	ccs_datum_t d;
	MC_OK(ccs_parameter_get_default_value(p, &d));
	Dis o, u = build(*dui(0, 3));
	Rng r(tape_rng());
	MC_RET(CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, ccs_parameter_get_default_distribution(p, o.ret()));
	MC_CHECK(!o.get());
	MC_RET(CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, ccs_parameter_sample(p, u, r, &d));
	MC_RET(CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, ccs_parameter_samples(p, u, r, 1, &d));
	ccs_numeric_t v;
	v.i = 0;
	MC_RET(CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, ccs_parameter_convert_samples(p, CCS_FALSE, 1, &v, &d));
	nontrivial();
}
// sampling any parameter from any distribution
static Par mkpar(int k)
{
	switch (k) {
	case 0: return pint("p", 0, 4, 1);
	case 1: return pint("p", -2, 2, 1, 2);
	case 2: return pflt("p", 0, 1, 0.5);
	case 3: return pflt("p", -1, 1, 0.5, 0.25);
	case 4: return pcat("p", {ccs_string("a"), ccs_int(1), ccs_none});
	case 5: return pord("p", {ccs_int(5), ccs_float(2.5)});
	case 6: return pdis("p", {ccs_int(5), ccs_float(2.5), ccs_int(7), ccs_int(9)});
	default: return pint("p", INT64_MIN, INT64_MAX, 0);
	}
}
static bool inside(ccs_parameter_t p, const ccs_datum_t &d)
{
	ccs_bool_t b = CCS_FALSE;
	return ccs_parameter_check_value(p, d, &b) == CCS_RESULT_SUCCESS && b;
}
static const std::vector<DP> &dists()
{
	static const std::vector<DP> c{dui(0, 4), dui(0, 2), dui(-1, 8), dui(3, 4), dui(50, 60), dui(1, 200, true), dni(1, 2), dro({1, 1, 1}), dro({0, 1, 0, 0, 2, 1}), dro({0, 0, 0, 0, 1}), dmi({dui(0, 2), dui(3, 9)}, {1, 1}), dui(INT64_MIN, INT64_MAX),
				    duf(0, 1), duf(-1, 3), duf(5, 6), dnf(0, 1), duf(0.1, 20, true), duf(0, 1, false, 0.25), dmi({duf(0, 0.5), dnf(0, 2)}, {1, 1}), dmv({dui(0, 1)}), dmv({dui(0, 2), duf(0, 1)}), dmv({duf(0, 2), duf(0, 1), dui(0, 2)})};
	return c;
}
MC_SUITE(sampling)
{
	int    k = choose(8, "parameter");
	DP     d = pick(dists(), "distribution");
	size_t n = (size_t)choose(4, "count");
	shard_point();
	Par  p = mkpar(k);
	Dis  o = build(*d);
	bool flt = k == 2 || k == 3;
	tape_config({0, 0x40000000, 0x80000001, 0xffffffff}, tier_bound(3, 4));
	Rng  r(tape_rng());
	Data v(n + 1, ccs_int(777));
	step();
	ccs_result_t rc = n == 1 && (k & 1) ? ccs_parameter_sample(p, o, r, v.data()) : ccs_parameter_samples(p, o, r, n, v.data());
	MC_CHECK(v[n].value.i == 777 && v[n].type == CCS_DATA_TYPE_INT);
	obs((uint64_t)rc);
	if (n == 0) {
		MC_REQ(rc == CCS_RESULT_SUCCESS || d->dim() != 1, "zero samples returned %d", (int)rc);
		return;
	}
	if (d->dim() != 1 || d->is_float() != flt) {
		MC_REQ(rc < 0, "parameter %d from %s returned %d", k, dstr(*d).c_str(), (int)rc);
		return;
	}
	if (rc == CCS_RESULT_SUCCESS) {
		nontrivial();
		for (size_t i = 0; i < n; i++) {
			MC_REQ(inside(p, v[i]), "parameter %d from %s sampled %s", k, dstr(*d).c_str(), dstr(v[i]).c_str());
			obs((uint64_t)v[i].value.i);
		}
	} else
		MC_REQ(rc == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, "parameter %d from %s returned %d", k, dstr(*d).c_str(), (int)rc);
	// if nothing the distribution produces is in the domain, sampling must say so; if all is, it must succeed
	ccs_interval_t iv, b, x;
	ccs_bool_t     ov, em;
	MC_OK(ccs_parameter_sampling_interval(p, &iv));
	MC_OK(ccs_distribution_get_bounds(o, &b));
	MC_OK(ccs_distribution_check_oversampling(o, &iv, &ov));
	MC_OK(ccs_interval_intersect(&iv, &b, &x));
	MC_OK(ccs_interval_empty(&x, &em));
	if (em)
		MC_REQ(rc != CCS_RESULT_SUCCESS, "sampling outside the domain succeeded");
	if (!ov)
		MC_REQ(rc == CCS_RESULT_SUCCESS, "sampling inside the domain failed");
}
// raw samples converted to parameter values
MC_SUITE(conversion)
{
	int  k  = choose(7, "parameter");
	bool ov = flip("oversampling");
	shard_point();
	Par            p = mkpar(k);
	ccs_interval_t iv;
	MC_OK(ccs_parameter_sampling_interval(p, &iv));
	bool flt = iv.type == CCS_NUMERIC_TYPE_FLOAT;
	std::vector<ccs_numeric_t> raw;
	for (int i = -6; i <= 12; i++)
		raw.push_back(flt ? ccs_numeric_t((ccs_float_t)(i * 0.25)) : ccs_numeric_t((ccs_int_t)i));
	if (flt) {
		raw.push_back(ccs_numeric_t((ccs_float_t)NAN));
		raw.push_back(ccs_numeric_t((ccs_float_t)INFINITY));
	} else {
		raw.push_back(ccs_numeric_t((ccs_int_t)INT64_MIN));
		raw.push_back(ccs_numeric_t((ccs_int_t)INT64_MAX));
		raw.push_back(ccs_numeric_t((ccs_int_t)(1ll << 32)));
	}
	if (!ov)
		raw.erase(std::remove_if(raw.begin(), raw.end(), [&](ccs_numeric_t v) { return !in_interval(iv, v); }), raw.end());
	Data vals;
	if (k >= 4) {
		vals.resize(8);
		size_t n;
		OKX((k == 4 ? ccs_categorical_parameter_get_values : k == 5 ? ccs_ordinal_parameter_get_values : ccs_discrete_parameter_get_values)(p, 8, vals.data(), &n));
		vals.resize(n);
	}
	Data out(raw.size() + 1, ccs_int(777));
	MC_OK(ccs_parameter_convert_samples(p, ov ? CCS_TRUE : CCS_FALSE, raw.size(), raw.data(), out.data()));
	MC_CHECK(out[raw.size()].value.i == 777);
	for (size_t i = 0; i < raw.size(); i++) {
		ccs_datum_t w = ccs_inactive;
		if (in_interval(iv, raw[i]))
			w = k >= 4 ? vals[(size_t)raw[i].i] : flt ? ccs_float(raw[i].f) : ccs_int(raw[i].i);
		MC_REQ(out[i].type == w.type && (w.type == CCS_DATA_TYPE_INACTIVE || deq(out[i], w)), "raw value %zu of parameter %d converted to %s", i, k, dstr(out[i]).c_str());
	}
	MC_OK(ccs_parameter_convert_samples(p, CCS_TRUE, 0, nullptr, nullptr));
	nontrivial();
}
// several parameters drawn jointly from one multidimensional distribution
MC_SUITE(joint)
{
	// entry i of the mixture always yields (i, i + 0.5): values must stay paired after rejection
	int    e = 1 + choose(4, "entries"), hi = choose(5, "domain"), swap = choose(2, "order");
	size_t n = (size_t)choose(4, "count");
	shard_point();
	std::vector<DP>     sub;
	std::vector<double> w;
	for (int i = 0; i < e; i++) {
		DP a = dui(i, i + 1), b = duf(i + 0.5, i + 0.5 + 1e-9);
		sub.push_back(swap ? dmv({b, a}) : dmv({a, b}));
		w.push_back(1);
	}
	Dis o = build(*dmi(sub, w));
	Par a = pint("a", hi > 2 ? 1 : 0, 2 + hi, 1), b = pflt("b", 0, 1 + hi, 0.5);
	std::vector<ccs_parameter_t> ps{a, b};
	if (swap)
		std::swap(ps[0], ps[1]);
	tape_config({0, 0x50000000, 0x90000000, 0xffffffff}, tier_bound(4, 5));
	Rng  r(tape_rng());
	Data v(2 * n + 1, ccs_int(777));
	step();
	ccs_result_t rc = n == 1 ? ccs_distribution_parameters_sample(o, r, ps.data(), v.data()) : ccs_distribution_parameters_samples(o, r, ps.data(), n, v.data());
	MC_CHECK(v[2 * n].value.i == 777);
	obs((uint64_t)rc);
	bool all = true; // nothing to reject
	for (int i = 0; i < e; i++)
		all = all && inside(a, ccs_int(i)) && inside(b, ccs_float(i + 0.5));
	if (rc != CCS_RESULT_SUCCESS) {
		MC_REQ(rc == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !all, "joint sampling returned %d", (int)rc);
		return;
	}
	if (n)
		nontrivial();
	for (size_t i = 0; i < n; i++) {
		const ccs_datum_t &x = v[2 * i + (swap ? 1 : 0)], &y = v[2 * i + (swap ? 0 : 1)];
		MC_REQ(inside(a, x) && inside(b, y), "joint sample %s %s is outside the domains", dstr(x).c_str(), dstr(y).c_str());
		MC_REQ((double)x.value.i + 0.5 <= y.value.f && y.value.f < (double)x.value.i + 0.6, "joint sample mixes draws: %s %s", dstr(x).c_str(), dstr(y).c_str());
		obs((uint64_t)x.value.i);
	}
}
// many values, long strings, many samples at once
MC_SUITE(sizes)
{
	int  kind = choose(3, "kind");
	int  n = pick(std::vector<int>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}, "values"), how = choose(3, "type of the values"), di = choose(3, "default");
	shard_point();
	if (kind == 2 && how == 2)
		return;
	nontrivial();
	std::vector<std::string> text;
	for (int i = 0; i < n; i++)
		text.push_back(std::string((size_t)(i % 5) * 60, 'x') + strf("%d", i));
	Data v;
	for (int i = 0; i < n; i++)
		v.push_back(how == 0 ? ccs_int(i * 3 - 50) : how == 1 ? (i % 2 ? ccs_float(i) : ccs_int(i + 5000)) : i % 7 == 6 ? ccs_int(i) : ccs_string(text[(size_t)i].c_str()));
	size_t dd = di == 0 ? 0 : di == 1 ? (size_t)n / 2 : (size_t)n - 1;
	Par    p;
	auto create = kind == 0 ? ccs_create_categorical_parameter : kind == 1 ? ccs_create_ordinal_parameter : ccs_create_discrete_parameter;
	auto get    = kind == 0 ? ccs_categorical_parameter_get_values : kind == 1 ? ccs_ordinal_parameter_get_values : ccs_discrete_parameter_get_values;
	MC_OK(create("p", v.size(), v.data(), dd, p.ret()));
	// a repeated value at any distance is refused
	for (int i : {0, n / 2, n - 2}) {
		Data        w = v;
		std::string copy;
		w[(size_t)n - 1] = w[(size_t)i];
		if (w[(size_t)i].type == CCS_DATA_TYPE_STRING)
			copy = w[(size_t)i].value.s, w[(size_t)n - 1] = ccs_string(copy.c_str());
		Par q;
		MC_ERR(create("q", w.size(), w.data(), 0, q.ret()));
		MC_CHECK(!q.get());
	}
	check_default(p, v[dd]);
	Data   o((size_t)n + 3, ccs_int(777));
	size_t c = 99;
	MC_OK(get(p, (size_t)n + 2, o.data(), &c));
	MC_CHECK(c == (size_t)n && o[(size_t)n].type == CCS_DATA_TYPE_NONE && o[(size_t)n + 1].type == CCS_DATA_TYPE_NONE && o[(size_t)n + 2].value.i == 777);
	for (int i = 0; i < n; i++)
		MC_REQ(deq(o[(size_t)i], v[(size_t)i]), "value %d of %d reported %s", i, n, dstr(o[(size_t)i]).c_str());
	// a bulk question of n values and as many others
	Data                    ask;
	std::vector<bool>       want;
	std::vector<std::string> fresh;
	for (int i = 0; i < n; i++)
		fresh.push_back(v[(size_t)i].type == CCS_DATA_TYPE_STRING ? v[(size_t)i].value.s : "");
	for (int i = n - 1; i >= 0; i--) {
		ask.push_back(v[(size_t)i].type == CCS_DATA_TYPE_STRING ? tstr(fresh[(size_t)i].c_str()) : v[(size_t)i]), want.push_back(true);
		ask.push_back(i % 2 ? ccs_float(i + 0.25) : ccs_int(-100 - i)), want.push_back(false);
	}
	std::vector<ccs_bool_t> r(ask.size() + 1, (ccs_bool_t)7), r2 = r;
	Data                    val(ask.size() + 1, ccs_int(777));
	MC_OK(ccs_parameter_check_values(p, ask.size(), ask.data(), r.data()));
	MC_OK(ccs_parameter_validate_values(p, ask.size(), ask.data(), val.data(), r2.data()));
	MC_CHECK((int)r.back() == 7 && (int)r2.back() == 7 && val.back().value.i == 777);
	for (size_t i = 0; i < ask.size(); i++) {
		MC_REQ(!!r[i] == want[i] && !!r2[i] == want[i], "value %s (%zu of %zu): %d %d, expected %d", dstr(ask[i]).c_str(), i, ask.size(), r[i], r2[i], (int)want[i]);
		MC_REQ(want[i] ? deq(val[i], ask[i]) && !(val[i].flags & CCS_DATUM_FLAG_TRANSIENT) : val[i].type == CCS_DATA_TYPE_INACTIVE, "value %s validates to %s", dstr(ask[i]).c_str(), dstr(val[i]).c_str());
		if (i < 4 || i + 4 > ask.size() || i == ask.size() / 2) {
			ccs_bool_t b = 7;
			MC_OK(ccs_parameter_check_value(p, ask[i], &b));
			MC_CHECK(!!b == want[i]);
		}
	}
	if (kind == 1)
		for (int i : {0, 1, n / 2, n - 2, n - 1})
			for (int j : {0, 1, n / 2, n - 2, n - 1}) {
				ccs_int_t x = 99;
				MC_OK(ccs_ordinal_parameter_compare_values(p, v[(size_t)i], v[(size_t)j], &x));
				MC_REQ((i < j) == (x < 0) && (i > j) == (x > 0), "ordinal comparison %d %d gave %lld", i, j, (long long)x);
			}
	// the default distribution reaches every value, once per equal share
	Dis dist;
	MC_OK(ccs_parameter_get_default_distribution(p, dist.ret()));
	Rng                   g(tape_rng());
	std::vector<uint32_t> raw;
	for (int i = 0; i < n; i++)
		raw.push_back((uint32_t)((((uint64_t)i << 32) + (1ull << 31)) / (uint64_t)n));
	tape_fixed(raw);
	Data s((size_t)n + 1, ccs_int(777));
	MC_OK(ccs_parameter_samples(p, dist, g, (size_t)n, s.data()));
	MC_CHECK(s.back().value.i == 777);
	std::vector<int> seen((size_t)n);
	for (int k = 0; k < n; k++)
		for (int i = 0; i < n; i++)
			if (deq(v[(size_t)i], s[(size_t)k]))
				seen[(size_t)i]++;
	for (int i = 0; i < n; i++)
		MC_REQ(seen[(size_t)i] == 1, "value %d of %d was drawn %d times", i, n, seen[(size_t)i]);
	// from a distribution that reaches outside, and from none of the values
	Dis  far = build(*dui(-n, 2 * n));
	Data t((size_t)n * 2 + 1, ccs_int(777));
	tape_fixed({});
	MC_OK(ccs_parameter_samples(p, far, g, (size_t)n * 2, t.data()));
	MC_CHECK(t.back().value.i == 777);
	for (size_t k = 0; k + 1 < t.size(); k++)
		MC_REQ(inside(p, t[k]), "sample %zu of %zu is %s", k, t.size() - 1, dstr(t[k]).c_str());
	Dis off = build(*dui(n, 2 * n));
	MC_RET(CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, ccs_parameter_samples(p, off, g, (size_t)n, t.data()));
	obs((uint64_t)n);
}
// many joint samples of many parameters, part of which is rejected
MC_SUITE(joint_sizes)
{
	int    k = pick(std::vector<int>{2, 3, 8, 9, 16, 17, 33, 65}, "parameters"), rej = choose(4, "rejected");
	size_t n = pick(std::vector<size_t>{1, 2, 7, 8, 9, 16, 17, 33, 64, 65, 129, 257, 300}, "samples");
	shard_point();
	nontrivial();
	// entry e of the mixture yields e * 1000 + i for parameter i
	std::vector<DP> sub;
	for (int e = 0; e < 4; e++) {
		std::vector<DP> c;
		for (int i = 0; i < k; i++)
			c.push_back(i % 2 ? duf(e * 1000 + i, e * 1000 + i + 1e-6) : dui(e * 1000 + i, e * 1000 + i + 1));
		sub.push_back(dmv(c));
	}
	Dis              o = build(*dmi(sub, {1, 1, 1, 1}));
	std::vector<Par> own;
	std::vector<ccs_parameter_t> ps;
	for (int i = 0; i < k; i++) {
		// the first, a middle or the last parameter accepts the first two entries only
		bool few = rej && i == (rej == 1 ? 0 : rej == 2 ? k / 2 : k - 1);
		std::string nm = strf("p%d", i);
		own.push_back(i % 2 ? pflt(nm.c_str(), 0, few ? 2000 : 5000, 0) : pint(nm.c_str(), 0, few ? 2000 : 5000, 0));
		ps.push_back(own.back());
	}
	tape_fixed({});
	Rng  g(tape_rng());
	Data v(n * (size_t)k + 1, ccs_int(777));
	step();
	MC_OK(ccs_distribution_parameters_samples(o, g, ps.data(), n, v.data()));
	MC_CHECK(v.back().value.i == 777);
	std::set<int> entries;
	for (size_t s = 0; s < n; s++) {
		int e = (int)v[s * (size_t)k].value.i / 1000;
		MC_REQ(e >= 0 && e < (rej ? 2 : 4), "sample %zu of %zu is outside the domains", s, n);
		entries.insert(e);
		for (int i = 0; i < k; i++) {
			auto &x = v[s * (size_t)k + (size_t)i];
			if (i % 2)
				MC_REQ(x.type == CCS_DATA_TYPE_FLOAT && x.value.f >= e * 1000 + i && x.value.f < e * 1000 + i + 0.5, "sample %zu, parameter %d is %s", s, i, dstr(x).c_str());
			else
				MC_REQ(x.type == CCS_DATA_TYPE_INT && x.value.i == e * 1000 + i, "sample %zu, parameter %d is %s", s, i, dstr(x).c_str());
		}
	}
	obs(entries.size());
}
