// P17: distribution samples respect declared bounds, grid, shape and memory layout.
#include "dist_ref.hpp"
using namespace mc;

static std::vector<DP> catalogue(bool big)
{
	std::vector<DP> c = {
		dui(0, 5), dui(-3, 4), dui(2, 3), dui(0, 10, false, 3), dui(-4, 5, false, 9), dui(7, 19, false, 4), dui(1, 50, true), dui(3, 100, true, 7), dui(1, 2, true), dui(999, 1000, true),
		dui(0, 1ll << 32), dui(-5, (1ll << 40)), dui(INT64_MIN, INT64_MAX), dui(INT64_MIN, INT64_MAX, false, INT64_MAX), dui(0, 1ll << 62, false, 1ll << 20), dui((1ll << 53) + 1, (1ll << 53) + 5, true),
		dui(1, INT64_MAX, true),
		duf(0, 1), duf(-1, 1), duf(1e9, 1e9 + 1), duf(1, 1 + 4e-16), duf(0, 1, false, 0.1), duf(0.1, 1, false, 0.3), duf(-1, 1, false, 2), duf(0.1, 10, true), duf(3, 7, true, 0.5), duf(1, 1 + 4e-16, true), duf(1e-300, 1e300, true),
		duf(0.3, 0.9, false, 0.2), duf(5, 1000, true, 100),
		dni(0, 1), dni(10, 3, false, 2), dni(1, 2, true), dni(0.5, 1, true, 3), dni(-5, 1, true), dni(-4, 2, true, 2), dni(3, 1.5, true, 10), dni(0, 1, true, 100), dni(2, 30, false, 16), dni(20, 1, true, 1ll << 20),
		dnf(0, 1), dnf(-3, 0.5), dnf(1, 2, false, 0.25), dnf(0, 1, true), dnf(0, 1, true, 0.5), dnf(-4, 1, true, 0.5), dnf(2, 1, true, 8), dnf(0, 1, true, 64), dui(-1000, 1000, false, 64), dui(10, 5000, true, 128), duf(-1000, 1000, false, 64),
		dro({1}), dro({1, 2, 1}), dro({0, 1, 0, 3, 0}),
	};
	if (!big)
		return c;
	std::vector<DP> m = {
		dmi({dui(0, 5), dui(10, 12)}, {1, 3}),
		dmi({duf(0, 1), dnf(0, 1), duf(5, 6, false, 0.25)}, {1, 0, 2}),
		dmi({dro({1, 1}), dui(3, 6), dni(0, 1, true)}, {0.25, 0.5, 0.25}),
		dmi({dui(0, 2)}, {7}),
		dmv({dui(0, 5), duf(0, 1)}),
		dmv({dnf(0, 1), dro({1, 1, 2}), dui(-4, -1)}),
		dmv({duf(2, 4)}),
		dmv({dmi({dui(0, 5), dui(10, 12)}, {1, 1}), duf(0, 1)}),
		dmv({dmv({dui(0, 2), duf(0, 1)}), dui(5, 7)}),
		dmi({dmv({dui(0, 2), duf(0, 1)}), dmv({dui(5, 7), dnf(0, 1, true, 0.5)})}, {1, 1}),
		dmi({dmv({dui(0, 2), duf(0, 1), dui(1, 9, true)}), dmv({dro({1, 1}), duf(3, 4), dui(20, 22)})}, {2, 1}),
		dmi({dmv({dui(0, 2), duf(0, 1), duf(7, 8)})}, {2}),
		dmv({dmi({dmv({dui(0, 2), duf(0, 1)}), dmv({dui(5, 7), duf(8, 9)})}, {1, 3}), dui(-3, 0)}),
		dmi({dmi({dui(0, 2), dui(4, 6)}, {1, 1}), dui(9, 11)}, {1, 1}),
	};
	c.insert(c.end(), m.begin(), m.end());
	return c;
}
static const uint64_t SENT = 0xBADC0FFEE0DDF00Dull;
static void check_value(const DR &d, const std::vector<ccs_interval_t> &b, size_t c, ccs_numeric_t v, const char *form)
{
	if (d.is_float(c))
		MC_REQ(accepts(d, c, v), "%s: %s produced %.17g for component %zu", dstr(d).c_str(), form, v.f, c);
	else
		MC_REQ(accepts(d, c, v), "%s: %s produced %lld for component %zu", dstr(d).c_str(), form, (long long)v.i, c);
	MC_REQ(in_interval(b[c], v), "%s: %s produced a value of component %zu outside the reported bounds", dstr(d).c_str(), form, c);
}
static std::vector<ccs_interval_t> bounds_of(const DR &d, ccs_distribution_t o)
{
	size_t dim = 0;
	MC_OK(ccs_distribution_get_dimension(o, &dim));
	MC_REQ(dim == d.dim(), "%s: dimension %zu", dstr(d).c_str(), dim);
	std::vector<ccs_interval_t> b(dim + 1);
	memset((void *)b.data(), 0xA5, sizeof(ccs_interval_t) * (dim + 1));
	auto guard = b[dim];
	MC_OK(ccs_distribution_get_bounds(o, b.data()));
	MC_REQ(!memcmp(&guard, &b[dim], sizeof guard), "%s: bounds written past the dimension", dstr(d).c_str());
	std::vector<ccs_numeric_type_t> t(dim + 1, (ccs_numeric_type_t)77);
	MC_OK(ccs_distribution_get_data_types(o, t.data()));
	MC_CHECK((int)t[dim] == 77);
	for (size_t i = 0; i < dim; i++) {
		MC_REQ(t[i] == (d.is_float(i) ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT), "%s: type of component %zu", dstr(d).c_str(), i);
		MC_REQ(b[i].type == t[i], "%s: type of bounds %zu", dstr(d).c_str(), i);
	}
	b.pop_back();
	return b;
}
// draws from the edges of the generator's range, all forms
static void all_forms(DP d, size_t n, size_t pad, std::function<void()> draws)
{
	Dis    o   = build(*d);
	auto   b   = bounds_of(*d, o);
	size_t dim = b.size();
	draws();
	Rng                        r(tape_rng());
	std::vector<ccs_numeric_t> v(n * dim + 1);
	for (auto &x : v)
		memcpy(&x, &SENT, 8);
	MC_OK(ccs_distribution_samples(o, r, n, v.data()));
	MC_REQ(!memcmp(&v[n * dim], &SENT, 8), "%s: samples wrote past the requested values", dstr(*d).c_str());
	for (size_t i = 0; i < n * dim; i++) {
		check_value(*d, b, i % dim, v[i], "samples");
		obs((uint64_t)v[i].i);
	}
	auto log = tape_log();
	// strided
	size_t                     st = dim + pad;
	std::vector<ccs_numeric_t> s(n * st + 1);
	for (auto &x : s)
		memcpy(&x, &SENT, 8);
	tape_fixed(log);
	MC_OK(ccs_distribution_strided_samples(o, r, n, st, s.data()));
	for (size_t i = 0; i <= n * st; i++) {
		size_t e = i / st, c = i % st;
		if (e < n && c < dim)
			MC_REQ(!memcmp(&s[i], &v[e * dim + c], 8), "%s: strided value (%zu,%zu) differs from the plain one", dstr(*d).c_str(), e, c);
		else
			MC_REQ(!memcmp(&s[i], &SENT, 8), "%s: strided samples wrote the position (%zu,%zu)", dstr(*d).c_str(), e, c);
	}
	MC_REQ(tape_log() == log, "%s: strided samples use other draws", dstr(*d).c_str());
	// structure of arrays, every subset of requested columns
	std::vector<std::vector<bool>> masks;
	if (dim <= 4)
		for (unsigned m = 0; m < 1u << dim; m++) {
			masks.emplace_back();
			for (size_t c = 0; c < dim; c++)
				masks.back().push_back(m >> c & 1);
		}
	else
		for (int k = 0; k < 6; k++) {
			masks.emplace_back();
			for (size_t c = 0; c < dim; c++)
				masks.back().push_back(k == 0 ? true : k == 1 ? c == 0 : k == 2 ? c + 1 == dim : k == 3 ? c % 2 : k == 4 ? c + 1 < dim : c > 0);
		}
	for (auto &mask : masks) {
		bool every = std::find(mask.begin(), mask.end(), false) == mask.end();
		std::vector<std::vector<ccs_numeric_t>> col(dim, std::vector<ccs_numeric_t>(n + 1));
		std::vector<ccs_numeric_t *>            p(dim);
		for (size_t c = 0; c < dim; c++) {
			for (auto &x : col[c])
				memcpy(&x, &SENT, 8);
			p[c] = mask[c] ? col[c].data() : nullptr;
		}
		tape_fixed(log);
		MC_OK(ccs_distribution_soa_samples(o, r, n, p.data()));
		for (size_t c = 0; c < dim; c++)
			for (size_t e = 0; e <= n; e++)
				if (e == n || !p[c])
					MC_REQ(!memcmp(&col[c][e], &SENT, 8), "%s: soa samples wrote column %zu position %zu", dstr(*d).c_str(), c, e);
				else if (every)
					MC_REQ(!memcmp(&col[c][e], &v[e * dim + c], 8), "%s: soa value (%zu,%zu) differs from the plain one", dstr(*d).c_str(), e, c);
				else
					check_value(*d, b, c, col[c][e], "soa samples");
	}
	// single sample
	if (n == 1) {
		std::vector<ccs_numeric_t> z(dim + 1);
		for (auto &x : z)
			memcpy(&x, &SENT, 8);
		tape_fixed(log);
		MC_OK(ccs_distribution_sample(o, r, z.data()));
		MC_REQ(!memcmp(z.data(), v.data(), 8 * dim) && !memcmp(&z[dim], &SENT, 8), "%s: sample differs from samples", dstr(*d).c_str());
	}
	tape_fixed(log);
	MC_OK(ccs_distribution_samples(o, r, 0, nullptr));
	MC_OK(ccs_distribution_strided_samples(o, r, 0, st, nullptr));
	MC_OK(ccs_distribution_soa_samples(o, r, 0, nullptr));
	MC_CHECK(tape_log().empty());
	for (size_t k = 0; k < dim; k += dim > 8 ? dim - 1 : 1)
		MC_ERR(ccs_distribution_strided_samples(o, r, n, k, s.data()));
	MC_ERR(ccs_distribution_samples(o, r, n, nullptr));
	MC_ERR(ccs_distribution_strided_samples(o, r, n, st, nullptr));
	MC_ERR(ccs_distribution_soa_samples(o, r, n, nullptr));
}
MC_SUITE(forms)
{
	auto   cat = catalogue(true);
	DP     d   = pick(cat, "distribution");
	size_t n   = (size_t)choose(3, "samples") + 1;
	size_t pad = (size_t)choose(2, "stride padding") * 2;
	shard_point();
	nontrivial();
	all_forms(d, n, pad, [&] { tape_config({0, 1, 0x40000000, 0x80000001, 0xfffffffe, 0xffffffff}, tier_bound(n == 1 ? 4 : 3, 5)); });
}
// many samples and many components; the draws follow a low discrepancy sequence
MC_SUITE(sizes)
{
	auto                      cat = catalogue(true);
	static const std::vector<size_t> N{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025};
	DP     d;
	size_t n, pad;
	if (flip("many samples")) {
		d   = pick(cat, "distribution");
		n   = pick(N, "samples");
		pad = pick(std::vector<size_t>{0, 1, 7}, "stride padding");
	} else {
		size_t          k = pick(std::vector<size_t>{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 129, 257}, "components");
		int             how = choose(3, "shape");
		std::vector<DP> sub, sub2;
		for (size_t i = 0; i < k; i++) {
			sub.push_back(i % 3 == 0 ? dui((ccs_int_t)i, (ccs_int_t)i + 3) : i % 3 == 1 ? duf((double)i, (double)i + 0.5) : dro({1, 2, 1}));
			sub2.push_back(i % 3 == 0 ? dui((ccs_int_t)i + 1000, (ccs_int_t)i + 1003) : i % 3 == 1 ? dnf((double)i, 0.5) : dro({0, 0, 0, 1}));
		}
		d   = how == 0 ? dmv(sub) : how == 1 ? dmi({dmv(sub), dmv(sub2)}, {1, 1}) : dmv({dmv(sub), dmi({dui(0, 3), dui(5, 9)}, {1, 1})});
		n   = pick(std::vector<size_t>{1, 2, 33}, "samples");
		pad = pick(std::vector<size_t>{0, 3}, "stride padding");
	}
	shard_point();
	nontrivial();
	all_forms(d, n, pad, [&] { tape_fixed({0, 0xffffffffu, 0x80000000u}); });
}
// the whole grid of draws, evenly spaced: every part of the declared range gets its share
static double cdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
MC_SUITE(shape)
{
	auto cat = catalogue(false);
	DP   d   = pick(cat, "distribution");
	shard_point();
	nontrivial();
	Dis o = build(*d);
	Rng r(tape_rng());
	const bool                 normal = d->k == DR::NI || d->k == DR::NF;
	const bool                 flt    = d->is_float();
	std::vector<ccs_numeric_t> v;
	const uint32_t             N = 4096;
	auto raws = [&](uint32_t k, uint32_t n) { return (uint32_t)((((uint64_t)k << 32) + (1ull << 31)) / n); };
	if (!normal) {
		bool wide = d->k == DR::UI && !d->log && (uint64_t)d->u - (uint64_t)d->l > 0xfffffffeull;
		for (uint32_t k = 0; k < N; k++) {
			if (wide)
				tape_fixed({raws(k & 1, 2), raws(k, N), raws((k * 0x9E5u) % N, N), raws((k * 0x3A7u) % N, N), raws(k, N), raws(k, N)});
			else
				tape_fixed({raws(k, N)});
			ccs_numeric_t x;
			OKX(ccs_distribution_sample(o, r, &x));
			v.push_back(x);
		}
	} else {
		const uint32_t        G = 64;
		std::vector<uint32_t> t;
		for (uint32_t i = 0; i < G; i++)
			for (uint32_t j = 0; j < G; j++)
				t.push_back(raws(i, G)), t.push_back(raws(j, G));
		tape_fixed(t);
		do {
			ccs_numeric_t x;
			OKX(ccs_distribution_sample(o, r, &x));
			v.push_back(x);
		} while (tape_log().size() + 2 <= t.size());
	}
	// probability that a value is below the threshold, and the observed share
	auto expect = [&](double t) -> double { // P(value < t), t not on a grid point
		switch (d->k) {
		case DR::UI: {
			if (d->log) {
				double x = std::ceil((t - (double)d->l) / (d->iq ? (double)d->iq : 1.0)) * (d->iq ? (double)d->iq : 1.0) + (double)d->l;
				x        = std::min(std::max(x, (double)d->l), (double)d->u);
				return (std::log(x) - std::log((double)d->l)) / (std::log((double)d->u) - std::log((double)d->l));
			}
			double q = d->iq ? (double)d->iq : 1.0, m = std::floor(((double)d->u - (double)d->l) / q), x = std::ceil((t - (double)d->l) / q);
			return std::min(std::max(x / m, 0.0), 1.0);
		}
		case DR::UF: {
			double x = d->q ? std::ceil((t - d->a) / d->q) * d->q + d->a : t;
			x        = std::min(std::max(x, d->a), d->b);
			return d->log ? (std::log(x) - std::log(d->a)) / (std::log(d->b) - std::log(d->a)) : (x - d->a) / (d->b - d->a);
		}
		case DR::NI:
		case DR::NF: {
			double q = d->k == DR::NI ? (d->iq ? (double)d->iq : 1.0) : d->q;
			double x = q ? (std::ceil(t / q) - 0.5) * q : t;
			if (d->log) {
				double lo = q ? cdf((std::log(q * 0.5) - d->a) / d->b) : 0;
				if (x <= (q ? q * 0.5 : 0))
					return 0;
				return (cdf((std::log(x) - d->a) / d->b) - lo) / (1 - lo);
			}
			return cdf((x - d->a) / d->b);
		}
		case DR::RO: {
			double s = 0, all = 0;
			for (size_t i = 0; i < d->w.size(); i++) {
				all += d->w[i];
				if ((double)i < t)
					s += d->w[i];
			}
			return s / all;
		}
		default: return 0;
		}
	};
	std::vector<double> x;
	for (auto &y : v)
		x.push_back(flt ? y.f : (double)y.i);
	std::vector<double> th = x;
	std::sort(th.begin(), th.end());
	std::vector<double> cut;
	double q = d->k == DR::UI || d->k == DR::NI || d->k == DR::RO ? (d->iq ? (double)d->iq : 1.0) : d->q;
	for (int k = 1; k < 16; k++) { // quantiles of what was observed, moved off the grid
		double t = th[th.size() * (size_t)k / 16];
		cut.push_back(q ? t - q / 2 : t);
		cut.push_back(q ? t + q / 2 : t);
	}
	bool exact = (d->k == DR::UF && d->b - d->a < 1e-12) || std::fabs((double)d->l) > 9e15 || (d->k == DR::UI && !d->log && (uint64_t)d->u - (uint64_t)d->l > 0xfffffffeull); // too few representable values
	if (!exact)
		for (double t : cut) {
			size_t c = 0;
			for (double y : x)
				c += y < t;
			double got = (double)c / (double)x.size(), want = expect(t);
			MC_REQ(std::fabs(got - want) < (normal ? 0.04 : 0.01), "%s: %g of the values are below %.17g, expected %g", dstr(*d).c_str(), got, t, want);
		}
	// small integer ranges: every value can be drawn
	if (d->k == DR::UI && !d->log && (uint64_t)d->u - (uint64_t)d->l <= 20) {
		std::set<ccs_int_t> s, want;
		for (auto &y : v)
			s.insert(y.i);
		ccs_int_t q2 = d->iq ? d->iq : 1;
		for (ccs_int_t k = d->l; k + q2 <= d->u; k += q2)
			want.insert(k);
		MC_REQ(s == want, "%s: %zu distinct values drawn, %zu declared", dstr(*d).c_str(), s.size(), want.size());
	}
	obs(v.size());
}
// logarithmic integer ranges: the transcendental round trip must not leave the range
MC_SUITE(log_int)
{
	ccs_int_t l = 1 + choose(tier_bound(300, 3000), "lower");
	shard_point();
	for (ccs_int_t w : {1, 2, 3, 7, 100, 1000}) {
		DP  d = dui(l, l + w, true), dq = dui(l, l + w, true, w > 1 ? w / 2 : 0), df = duf((double)l, (double)(l + w), true), dg = duf((double)l / 10, (double)(l + w) / 10, true, 0.0625);
		for (auto &x : {d, dq, df, dg}) {
			Dis  o = build(*x);
			auto b = bounds_of(*x, o);
			Rng  r(tape_rng());
			for (uint32_t raw : {0u, 1u, 0x80000000u, 0xfffffffeu, 0xffffffffu}) {
				tape_fixed({raw});
				ccs_numeric_t v;
				MC_OK(ccs_distribution_sample(o, r, &v));
				check_value(*x, b, 0, v, "sample");
				tape_fixed({raw});
				ccs_numeric_t s[3];
				MC_OK(ccs_distribution_strided_samples(o, r, 1, 3, s));
				MC_REQ(s[0].i == v.i, "%s: strided differs", dstr(*x).c_str());
				obs((uint64_t)v.i);
			}
		}
	}
	nontrivial();
}
// oversampling verdict: exactly whether the reported bounds reach outside the interval
MC_SUITE(oversampling)
{
	std::vector<DP> cat = {dui(-1, 2), dui(0, 1), duf(-1, 1), duf(0, 0.5), dro({1, 1}), dni(0, 1, true, 2), dnf(0, 1), dnf(0, 1, true), dnf(0, 1, true, 0.5), dni(0, 1)};
	bool multi = flip("multivariate");
	DP   d     = pick(cat, "distribution");
	int  li = choose(9, "lower"), ui = choose(9, "upper"), inc = choose(4, "inclusion");
	int  ty = choose(2, "type");
	shard_point();
	DP   e = multi ? dmv({dui(0, 3), d}) : d;
	Dis  o = build(*e);
	auto b = bounds_of(*e, o);
	size_t c = multi ? 1 : 0;
	std::vector<ccs_interval_t> iv(c + 1);
	memset((void *)iv.data(), 0, sizeof(ccs_interval_t) * iv.size());
	if (multi) {
		iv[0].type = CCS_NUMERIC_TYPE_INT, iv[0].lower = ccs_numeric_t((ccs_int_t)0), iv[0].upper = ccs_numeric_t((ccs_int_t)(inc & 1 ? 2 : 3));
		iv[0].lower_included = CCS_TRUE, iv[0].upper_included = inc & 1 ? CCS_FALSE : CCS_TRUE;
	}
	bool flt = d->is_float();
	auto at  = [&](int k) -> double { return k == 0 ? -INFINITY : k == 8 ? INFINITY : (k - 4) * (flt ? 0.5 : 1.0); };
	ccs_interval_t &t = iv[c];
	t.type            = ty ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT;
	auto num = [&](double x) { return ty ? ccs_numeric_t((ccs_float_t)x) : ccs_numeric_t(std::isinf(x) ? (x < 0 ? INT64_MIN : INT64_MAX) : (ccs_int_t)x); };
	t.lower = num(at(li)), t.upper = num(at(ui));
	t.lower_included = inc & 1 ? CCS_TRUE : CCS_FALSE, t.upper_included = inc & 2 ? CCS_TRUE : CCS_FALSE;
	std::vector<ccs_bool_t> ov(c + 2, (ccs_bool_t)7);
	step();
	ccs_result_t rc = ccs_distribution_check_oversampling(o, iv.data(), ov.data());
	MC_REQ((int)ov[c + 1] == 7, "oversampling written past the dimension");
	if ((bool)ty != flt) {
		MC_REQ(rc < 0, "oversampling against another type returned %d", (int)rc);
		return;
	}
	MC_REQ(rc == CCS_RESULT_SUCCESS, "check_oversampling returned %d", (int)rc);
	// candidate points: everything around the bounds of either
	bool out = false;
	std::vector<ccs_numeric_t> pts;
	if (flt)
		for (double x = -4; x <= 4; x += 0.25)
			pts.push_back(ccs_numeric_t((ccs_float_t)x));
	else
		for (ccs_int_t x = -6; x <= 6; x++)
			pts.push_back(ccs_numeric_t(x));
	for (auto &iw : {b[c], t})
		for (auto x : {iw.lower, iw.upper}) {
			pts.push_back(x);
			if (flt) {
				pts.push_back(ccs_numeric_t((ccs_float_t)std::nextafter(x.f, -INFINITY)));
				pts.push_back(ccs_numeric_t((ccs_float_t)std::nextafter(x.f, INFINITY)));
			} else {
				if (x.i != INT64_MIN)
					pts.push_back(ccs_numeric_t((ccs_int_t)(x.i - 1)));
				if (x.i != INT64_MAX)
					pts.push_back(ccs_numeric_t((ccs_int_t)(x.i + 1)));
			}
		}
	for (auto &x : pts)
		out = out || (in_interval(b[c], x) && !in_interval(t, x));
	nontrivial();
	MC_REQ((ov[c] == CCS_TRUE) == out && (ov[c] == CCS_TRUE || ov[c] == CCS_FALSE), "%s against interval %d..%d inc %d: oversampling %d, expected %d", dstr(*e).c_str(), li, ui, inc, (int)ov[c], out);
	if (multi)
		MC_REQ((ov[0] == CCS_TRUE) == (inc & 1), "oversampling of the first component");
	obs(out);
}
// parameters are accepted exactly when they denote a non empty range and a sound step, and are reported back
MC_SUITE(construction)
{
	int  kind = choose(3, "kind"); // uniform int, uniform float, normal
	int  sc   = choose(3, "scale");
	int  a = choose(6) - 2, b = choose(6) - 2, q = choose(8) - 2;
	shard_point();
	ccs_scale_type_t scale = sc == 0 ? CCS_SCALE_TYPE_LINEAR : sc == 1 ? CCS_SCALE_TYPE_LOGARITHMIC : (ccs_scale_type_t)12;
	Dis              o;
	ccs_result_t     rc;
	bool             ok;
	step();
	double fq = q * 0.5;
	if (kind == 0) {
		rc = ccs_create_uniform_int_distribution(a, b, scale, q, o.ret());
		ok = sc < 2 && a < b && (sc == 0 || a > 0) && q >= 0 && q <= b - a;
	} else if (kind == 1) {
		rc = ccs_create_uniform_float_distribution(a * 0.5, b * 0.5, scale, fq, o.ret());
		ok = sc < 2 && a < b && (sc == 0 || a > 0) && fq >= 0 && fq <= (b - a) * 0.5;
	} else {
		rc = (a & 1) ? ccs_create_normal_int_distribution(a, b + 3, scale, q, o.ret()) : ccs_create_normal_float_distribution(a, b + 3, scale, fq, o.ret());
		ok = sc < 2 && q >= 0;
	}
	MC_REQ((rc == CCS_RESULT_SUCCESS) == ok, "kind %d scale %d (%d,%d) step %d returned %d", kind, sc, a, b, q, (int)rc);
	obs(ok);
	if (!ok) {
		MC_CHECK(o.get() == nullptr);
		return;
	}
	nontrivial();
	ccs_distribution_type_t ty;
	MC_OK(ccs_distribution_get_type(o, &ty));
	size_t dim = 0;
	MC_OK(ccs_distribution_get_dimension(o, &dim));
	MC_CHECK(dim == 1);
	ccs_scale_type_t s2;
	ccs_numeric_t    qq;
	if (kind < 2) {
		MC_CHECK(ty == CCS_DISTRIBUTION_TYPE_UNIFORM);
		ccs_numeric_t l, u;
		MC_OK(ccs_uniform_distribution_get_properties(o, &l, &u, &s2, &qq));
		MC_REQ(kind == 0 ? (l.i == a && u.i == b && qq.i == q) : (l.f == a * 0.5 && u.f == b * 0.5 && qq.f == fq), "uniform properties");
		ccs_interval_t iv;
		MC_OK(ccs_distribution_get_bounds(o, &iv));
		MC_REQ(iv.lower_included && !iv.upper_included && (kind == 0 ? (iv.lower.i == a && iv.upper.i == b) : (iv.lower.f == a * 0.5 && iv.upper.f == b * 0.5)), "uniform bounds");
		ccs_float_t m, sg;
		MC_ERR(ccs_normal_distribution_get_properties(o, &m, &sg, &s2, &qq));
		MC_OK(ccs_uniform_distribution_get_properties(o, nullptr, nullptr, &s2, nullptr));
		MC_ERR(ccs_uniform_distribution_get_properties(o, nullptr, nullptr, nullptr, nullptr));
	} else {
		MC_CHECK(ty == CCS_DISTRIBUTION_TYPE_NORMAL);
		ccs_float_t m, sg;
		MC_OK(ccs_normal_distribution_get_properties(o, &m, &sg, &s2, &qq));
		MC_REQ(m == a && sg == b + 3 && ((a & 1) ? qq.i == q : qq.f == fq), "normal properties");
		ccs_numeric_t l;
		MC_ERR(ccs_uniform_distribution_get_properties(o, &l, nullptr, nullptr, nullptr));
	}
	MC_CHECK(s2 == scale);
}
