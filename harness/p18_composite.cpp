// P18: roulette / mixture selection by weight, multivariate concatenation.
#include "dist_ref.hpp"
using namespace mc;

// share boundaries as exact rationals over the given integer weights (times 1/den)
struct Shares {
	std::vector<long double> cum; // cum[0] = 0 .. cum[n] = 1
	bool                     dyadic;
	Shares(const std::vector<double> &w)
	{
		long double s = 0;
		for (double x : w)
			s += x;
		long double c = 0;
		cum.push_back(0);
		for (double x : w) {
			c += x;
			cum.push_back(c / s);
		}
		int e;
		dyadic = std::frexp((double)s, &e) == 0.5 && s == std::floor((double)s);
		for (double x : w)
			dyadic = dyadic && x == std::floor(x);
	}
	// is entry i right for this draw
	bool ok(uint32_t raw, ccs_int_t i) const
	{
		if (i < 0 || (size_t)i + 1 >= cum.size())
			return false;
		long double d = (long double)raw / 4294967296.0L, eps = dyadic ? 0 : 1e-14L;
		if (cum[(size_t)i] == cum[(size_t)i + 1])
			return false;
		return d >= cum[(size_t)i] - eps && (dyadic ? d < cum[(size_t)i + 1] : d < cum[(size_t)i + 1] + eps);
	}
	std::vector<uint32_t> raws() const
	{
		std::set<uint32_t> r{0u, 1u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
		for (auto c : cum)
			for (int k = -2; k <= 2; k++) {
				long double x = std::floor(c * 4294967296.0L) + k;
				if (x >= 0 && x <= 4294967295.0L)
					r.insert((uint32_t)x);
			}
		return std::vector<uint32_t>(r.begin(), r.end());
	}
};
static std::string wstr(const std::vector<double> &w)
{
	std::string s;
	for (double x : w)
		s += strf("%g ", x);
	return s;
}
static std::vector<double> pick_weights()
{
	std::vector<double> w;
	if (choose(2, "shape") == 0) { // small, all combinations
		int n = 1 + choose(tier_bound(4, 5), "entries");
		static const std::vector<double> g{0, 1, 2, 0.1, 5e-3};
		for (int i = 0; i < n; i++)
			w.push_back(pick(g, "weight"));
	} else { // bigger, patterned
		static const std::vector<int> more{100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025};
		int few = tier_bound(60, 300), n = choose(few + (int)more.size(), "entries"), pat = choose(7, "pattern");
		n = n < few ? 5 + n : more[(size_t)(n - few)];
		for (int i = 0; i < n; i++)
			w.push_back(pat == 0   ? 1
				    : pat == 1 ? (i % 3 == 0)
				    : pat == 2 ? (i == n - 1 ? 1 : 0.0)
				    : pat == 3 ? (i == 0 ? 1 : 0.0)
				    : pat == 4 ? std::ldexp(1.0, i % 12)
				    : pat == 5 ? 0.1 * (1 + i % 7)
					       : (i % 2 ? 1e-3 : 1e3));
	}
	return w;
}
static void check_areas(ccs_distribution_t o, const std::vector<double> &w, bool mixture)
{
	size_t n = 99;
	double s = 0;
	for (double x : w)
		s += x;
	if (mixture)
		MC_OK(ccs_mixture_distribution_get_num_distributions(o, &n));
	else
		MC_OK(ccs_roulette_distribution_get_num_areas(o, &n));
	MC_CHECK(n == w.size());
	auto get = [&](size_t k, double *p, size_t *r) { return mixture ? ccs_mixture_distribution_get_weights(o, k, p, r) : ccs_roulette_distribution_get_areas(o, k, p, r); };
	std::vector<double> a(w.size() + 3, -7);
	n = 99;
	MC_OK(get(w.size() + 2, a.data(), &n));
	MC_CHECK(n == w.size());
	for (size_t i = 0; i < w.size(); i++)
		MC_REQ(std::fabs(a[i] - w[i] / s) < 1e-12 && a[i] >= 0 && (w[i] > 0 || i + 1 == w.size() || a[i] == 0), "%s: share %zu reported %.17g", wstr(w).c_str(), i, a[i]);
	MC_REQ(a[w.size()] == 0 && a[w.size() + 1] == 0 && a[w.size() + 2] == -7, "padding of the reported shares");
	n = 99;
	MC_OK(get(0, nullptr, &n));
	MC_CHECK(n == w.size());
	std::vector<double> b(w.size() + 1, -7);
	MC_ERR(get(w.size() - 1, w.size() == 1 ? b.data() : b.data(), &n));
	MC_REQ(b[0] == -7, "refused query wrote");
	MC_ERR(get(0, nullptr, nullptr));
	MC_OK(get(w.size(), b.data(), nullptr));
	MC_REQ(b[w.size()] == -7 && (b[0] == a[0]), "exact query");
}
MC_SUITE(roulette)
{
	auto w = pick_weights();
	shard_point();
	double s = 0;
	for (double x : w)
		s += x;
	Dis o;
	if (s == 0) {
		MC_ERR(ccs_create_roulette_distribution(w.size(), w.data(), o.ret()));
		MC_CHECK(!o.get());
		return;
	}
	nontrivial();
	auto w0 = w;
	MC_OK(ccs_create_roulette_distribution(w.size(), w.data(), o.ret()));
	MC_CHECK(w == w0);
	check_areas(o, w0, false);
	ccs_interval_t iv;
	MC_OK(ccs_distribution_get_bounds(o, &iv));
	MC_REQ(iv.type == CCS_NUMERIC_TYPE_INT && iv.lower.i == 0 && iv.lower_included && iv.upper.i == (ccs_int_t)w.size() && !iv.upper_included, "roulette bounds");
	Shares sh(w);
	auto   raws = sh.raws();
	Rng    r(tape_rng());
	size_t n = raws.size();
	std::vector<ccs_numeric_t> v(n), t(2 * n), c(n);
	tape_fixed(raws);
	MC_OK(ccs_distribution_samples(o, r, n, v.data()));
	MC_REQ(tape_log().size() == n, "one draw per value");
	tape_fixed(raws);
	MC_OK(ccs_distribution_strided_samples(o, r, n, 2, t.data()));
	tape_fixed(raws);
	ccs_numeric_t *p = c.data();
	MC_OK(ccs_distribution_soa_samples(o, r, n, &p));
	uint64_t h = 0;
	for (size_t i = 0; i < n; i++) {
		MC_REQ(sh.ok(raws[i], v[i].i), "roulette %s draw %08x gave %lld", wstr(w).c_str(), raws[i], (long long)v[i].i);
		MC_REQ(sh.ok(raws[i], t[2 * i].i) && sh.ok(raws[i], c[i].i), "roulette %s draw %08x strided/soa gave %lld %lld", wstr(w).c_str(), raws[i], (long long)t[2 * i].i, (long long)c[i].i);
		h = h * 33 + (uint64_t)v[i].i;
	}
	obs(h);
}
MC_SUITE(mixture)
{
	auto w   = pick_weights();
	int  dim = 1 + choose(2, "dimension");
	shard_point();
	double s = 0;
	for (double x : w)
		s += x;
	// component i always yields (100 + i [, 0.5 + i])
	std::vector<Dis>                comp;
	std::vector<ccs_distribution_t> h;
	for (size_t i = 0; i < w.size(); i++) {
		DP k = dui(100 + (ccs_int_t)i, 101 + (ccs_int_t)i), f = duf((double)i + 0.5, (double)i + 0.5 + 1e-9);
		comp.push_back(build(dim == 1 ? *k : *dmv({k, f})));
		h.push_back(comp.back());
	}
	auto w0 = w;
	Dis  o;
	if (s == 0) {
		MC_ERR(ccs_create_mixture_distribution(h.size(), h.data(), w.data(), o.ret()));
		MC_CHECK(!o.get());
		for (auto &x : comp)
			MC_CHECK(refcount(x) == 1);
		return;
	}
	nontrivial();
	MC_OK(ccs_create_mixture_distribution(h.size(), h.data(), w.data(), o.ret()));
	MC_CHECK(w == w0);
	check_areas(o, w, true);
	for (auto &x : comp)
		MC_CHECK(refcount(x) == 2);
	size_t n = 0;
	std::vector<ccs_distribution_t> g(h.size() + 1, (ccs_distribution_t)1);
	MC_OK(ccs_mixture_distribution_get_distributions(o, g.size(), g.data(), &n));
	MC_REQ(n == h.size() && g[n] == nullptr && std::equal(h.begin(), h.end(), g.begin()), "components of the mixture");
	MC_ERR(ccs_mixture_distribution_get_distributions(o, h.size() - 1, g.data(), &n));
	// bounds: the smallest interval covering all components
	std::vector<ccs_interval_t> iv(2);
	MC_OK(ccs_distribution_get_bounds(o, iv.data()));
	MC_REQ(iv[0].lower.i == 100 && iv[0].lower_included && iv[0].upper.i == 100 + (ccs_int_t)w.size() && !iv[0].upper_included, "mixture bounds");
	if (dim == 2)
		MC_REQ(iv[1].type == CCS_NUMERIC_TYPE_FLOAT && iv[1].lower.f == 0.5 && iv[1].upper.f == (double)(w.size() - 1) + 0.5 + 1e-9, "mixture bounds");
	comp.clear(); // the mixture keeps its components
	Shares sh(w);
	auto   raws = sh.raws();
	Rng    r(tape_rng());
	size_t m = raws.size();
	std::vector<uint32_t> tape;
	for (auto x : raws) {
		tape.push_back(x);
		for (int k = 0; k < dim; k++)
			tape.push_back(0x12345678);
	}
	size_t                     D = (size_t)dim;
	std::vector<ccs_numeric_t> v(m * D), t(m * (D + 1)), c1(m), c2(m);
	tape_fixed(tape);
	MC_OK(ccs_distribution_samples(o, r, m, v.data()));
	MC_REQ(tape_log().size() == tape.size(), "draws of the mixture");
	tape_fixed(tape);
	MC_OK(ccs_distribution_strided_samples(o, r, m, D + 1, t.data()));
	tape_fixed(tape);
	ccs_numeric_t *p[2] = {c1.data(), c2.data()};
	MC_OK(ccs_distribution_soa_samples(o, r, m, p));
	uint64_t hh = 0;
	for (size_t i = 0; i < m; i++) {
		MC_REQ(sh.ok(raws[i], v[i * D].i - 100), "mixture %s draw %08x gave %lld", wstr(w).c_str(), raws[i], (long long)v[i * D].i - 100);
		MC_REQ(sh.ok(raws[i], t[i * (D + 1)].i - 100) && sh.ok(raws[i], c1[i].i - 100), "mixture %s draw %08x strided/soa", wstr(w).c_str(), raws[i]);
		if (dim == 2) // components stay together
			MC_REQ(v[i * D].i - 100 == (ccs_int_t)v[i * D + 1].f && t[i * (D + 1)].i - 100 == (ccs_int_t)t[i * (D + 1) + 1].f && c1[i].i - 100 == (ccs_int_t)c2[i].f, "components of one sample come from different entries");
		hh = hh * 33 + (uint64_t)v[i * D].i;
	}
	obs(hh);
}
// weights whose cumulated sum rounds above one before trailing empty entries
MC_SUITE(rounding)
{
	std::vector<double> w;
	int n = tier_bound(5, 7);
	static const std::vector<double> g{0.1, 0.2, 0.3, 0.7, 1.0 / 3};
	for (int i = 0; i < n; i++)
		w.push_back(pick(g, "weight"));
	shard_point();
	int z = 1 + choose(2, "trailing zeros");
	for (int i = 0; i < z; i++)
		w.push_back(0);
	nontrivial();
	Dis                             ro, mi, k = build(*dui(0, 3));
	std::vector<ccs_distribution_t> h(w.size(), k.get());
	MC_OK(ccs_create_roulette_distribution(w.size(), w.data(), ro.ret()));
	MC_OK(ccs_create_mixture_distribution(w.size(), h.data(), w.data(), mi.ret()));
	check_areas(ro, w, false);
	check_areas(mi, w, true);
	Rng           r(tape_rng());
	ccs_numeric_t v;
	for (uint32_t raw : {0u, 0xffffffffu}) {
		tape_fixed({raw});
		MC_OK(ccs_distribution_sample(ro, r, &v));
		MC_REQ(v.i >= 0 && (size_t)v.i < w.size() && w[(size_t)v.i] > 0, "roulette %s draw %08x gave %lld", wstr(w).c_str(), raw, (long long)v.i);
		obs((uint64_t)v.i);
	}
}
// unusable weights and components
MC_SUITE(refusal)
{
	static const std::vector<double> g{1, 0, -1, -1e-300, NAN, INFINITY, -INFINITY, 1e308, 5e-324};
	int n = choose(4, "entries");
	std::vector<double> w;
	for (int i = 0; i < n; i++)
		w.push_back(pick(g, "weight"));
	int kinds = choose(1 << (2 * std::max(n, 1)), "components"); // 2 bits each: int, float, 2-dim, int
	shard_point();
	bool   ok = n > 0;
	double s  = 0;
	for (double x : w) {
		ok = ok && x >= 0 && !std::isnan(x) && !std::isinf(x);
		s += x;
	}
	bool weights_ok = ok && s > 0 && !std::isinf(s) && !std::isinf(1.0 / s);
	Dis  o;
	if (kinds == 0) {
		step();
		ccs_result_t rc = ccs_create_roulette_distribution(w.size(), w.data(), o.ret());
		MC_REQ((rc == CCS_RESULT_SUCCESS) == weights_ok, "roulette over %s returned %d", wstr(w).c_str(), (int)rc);
		MC_CHECK((o.get() != nullptr) == weights_ok);
	}
	std::vector<Dis>                comp;
	std::vector<ccs_distribution_t> h;
	bool                            same = true;
	for (int i = 0; i < n; i++) {
		int k = kinds >> (2 * i) & 3;
		same  = same && (k == 3 ? 0 : k) == ((kinds & 3) == 3 ? 0 : (kinds & 3));
		comp.push_back(build(k == 1 ? *duf(0, 1) : k == 2 ? *dmv({dui(0, 1), duf(0, 1)}) : k == 3 ? *dro({1, 1}) : *dui(0, 4)));
		h.push_back(comp.back());
	}
	Dis m;
	step();
	ccs_result_t rc = ccs_create_mixture_distribution(w.size(), h.data(), w.data(), m.ret());
	MC_REQ((rc == CCS_RESULT_SUCCESS) == (weights_ok && same), "mixture over %s (components %x) returned %d", wstr(w).c_str(), kinds, (int)rc);
	for (auto &x : comp)
		MC_CHECK(refcount(x) == (m.get() ? 2 : 1));
	if (m.get())
		nontrivial();
	if (n) {
		auto h2 = h;
		h2.back() = nullptr;
		MC_ERR(ccs_create_mixture_distribution(w.size(), h2.data(), w.data(), o.ret()));
		MC_CHECK(!o.get());
		MC_ERR(ccs_create_multivariate_distribution(h2.size(), h2.data(), o.ret()));
		MC_CHECK(!o.get());
		for (auto &x : comp)
			MC_CHECK(refcount(x) == (m.get() ? 2 : 1));
	}
	obs((uint64_t)(rc == 0));
}
// components of a mixture agree in type dimension by dimension
MC_SUITE(types)
{
	int n = 2 + choose(3, "components"), dim = 1 + choose(tier_bound(6, 9), "dimension"), odd = choose(n + 1, "odd one"), at = odd < n ? choose(dim + 2, "where") : 0, pat = choose(3, "types");
	shard_point();
	std::vector<Dis>                c;
	std::vector<ccs_distribution_t> h;
	std::vector<double>             w;
	for (int i = 0; i < n; i++) {
		std::vector<DP> k;
		int             d = i == odd && at == dim ? dim + 1 : i == odd && at == dim + 1 ? dim - 1 : dim;
		for (int j = 0; j < d; j++) {
			bool f = pat == 1 || (pat == 2 && j % 2);
			if (i == odd && j == at)
				f = !f;
			k.push_back(f ? duf(i, i + 1) : dui(i, i + 2));
		}
		if (k.empty())
			prune();
		c.push_back(build(k.size() == 1 && i % 2 ? *k[0] : *dmv(k)));
		h.push_back(c.back());
		w.push_back(1);
	}
	Dis m;
	step();
	ccs_result_t rc = ccs_create_mixture_distribution(w.size(), h.data(), w.data(), m.ret());
	MC_REQ((rc == CCS_RESULT_SUCCESS) == (odd == n), "%d components of dimension %d, number %d differs in dimension %d: returned %d", n, dim, odd, at, (int)rc);
	MC_REQ((m.get() != nullptr) == (odd == n), "created and refused");
	for (auto &x : c)
		MC_CHECK(refcount(x) == (m.get() ? 2 : 1));
	if (m.get()) {
		nontrivial();
		std::vector<ccs_numeric_type_t> t((size_t)dim);
		std::vector<ccs_interval_t>     b((size_t)dim);
		MC_OK(ccs_distribution_get_data_types(m, t.data()));
		MC_OK(ccs_distribution_get_bounds(m, b.data()));
		for (int j = 0; j < dim; j++) {
			bool f = pat == 1 || (pat == 2 && j % 2);
			MC_REQ(t[(size_t)j] == (f ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT), "type of dimension %d", j);
			MC_REQ(f ? b[(size_t)j].lower.f == 0 && b[(size_t)j].upper.f == n : b[(size_t)j].lower.i == 0 && b[(size_t)j].upper.i == n + 1, "bounds of dimension %d", j);
		}
	}
	obs((uint64_t)(rc == 0));
}
// multivariate: component by component
MC_SUITE(multivariate)
{
	static const std::vector<DP> cat{dui(0, 5), duf(-1, 1), dro({1, 2}), dmv({dui(7, 9), duf(2, 3)}), dmi({dui(0, 2), dui(20, 22)}, {1, 1}), dmi({dmv({dui(0, 2), duf(0, 1)}), dmv({dui(5, 7), duf(8, 9)})}, {1, 3})};
	int n = 1 + choose(tier_bound(3, 4), "components");
	std::vector<DP> k;
	for (int i = 0; i < n; i++)
		k.push_back(pick(cat, "component"));
	shard_point();
	nontrivial();
	std::vector<Dis>                c;
	std::vector<ccs_distribution_t> h;
	for (auto &x : k)
		c.push_back(build(*x)), h.push_back(c.back());
	Dis o;
	MC_OK(ccs_create_multivariate_distribution(h.size(), h.data(), o.ret()));
	for (auto &x : c)
		MC_CHECK(refcount(x) == 2);
	size_t m = 0, dim = 0;
	MC_OK(ccs_multivariate_distribution_get_num_distributions(o, &m));
	MC_CHECK(m == h.size());
	std::vector<ccs_distribution_t> g(h.size() + 1, (ccs_distribution_t)1);
	MC_OK(ccs_multivariate_distribution_get_distributions(o, g.size(), g.data(), &m));
	MC_REQ(m == h.size() && g[m] == nullptr && std::equal(h.begin(), h.end(), g.begin()), "components of the multivariate");
	MC_ERR(ccs_multivariate_distribution_get_distributions(o, h.size() - 1, g.data(), &m));
	MC_OK(ccs_distribution_get_dimension(o, &dim));
	ccs_distribution_type_t ty;
	MC_OK(ccs_distribution_get_type(o, &ty));
	MC_CHECK(ty == CCS_DISTRIBUTION_TYPE_MULTIVARIATE);
	size_t want = 0;
	for (auto &x : k)
		want += x->dim();
	MC_CHECK(dim == want);
	std::vector<ccs_interval_t>     b(dim), cb(dim);
	std::vector<ccs_numeric_type_t> t(dim), ct(dim);
	MC_OK(ccs_distribution_get_bounds(o, b.data()));
	MC_OK(ccs_distribution_get_data_types(o, t.data()));
	size_t at = 0;
	// values: the same draws given to each component in turn
	const size_t N = 3;
	tape_config({0x20000000, 0xE0000000}, n == 1 ? 4 : 2);
	Rng                        r(tape_rng());
	std::vector<ccs_numeric_t> v(N * dim);
	MC_OK(ccs_distribution_samples(o, r, N, v.data()));
	auto log = tape_log();
	tape_fixed(log);
	for (size_t i = 0; i < k.size(); i++) {
		size_t d = k[i]->dim();
		MC_OK(ccs_distribution_get_bounds(c[i], cb.data()));
		MC_OK(ccs_distribution_get_data_types(c[i], ct.data()));
		std::vector<ccs_numeric_t> cv(N * d);
		MC_OK(ccs_distribution_samples(c[i], r, N, cv.data()));
		for (size_t j = 0; j < d; j++) {
			MC_REQ(!memcmp(&b[at + j].lower, &cb[j].lower, 8) && !memcmp(&b[at + j].upper, &cb[j].upper, 8) && b[at + j].type == cb[j].type && b[at + j].lower_included == cb[j].lower_included && b[at + j].upper_included == cb[j].upper_included, "bounds of component %zu", at + j);
			MC_CHECK(t[at + j] == ct[j]);
			for (size_t e = 0; e < N; e++)
				MC_REQ(v[e * dim + at + j].i == cv[e * d + j].i, "value %zu of component %zu differs from the component's own", e, at + j);
		}
		at += d;
	}
	MC_CHECK(tape_log() == log);
	obs(at);
	c.clear();
	MC_OK(ccs_distribution_samples(o, r, N, v.data()));
	step();
	MC_ERR(ccs_create_multivariate_distribution(0, h.data(), o.ret()));
}
