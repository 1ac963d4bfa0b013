// Descriptions of distributions, their construction on the real code and what is known of them
// independently (dimension, types, bounds, grid).
#pragma once
#include "ccsx.hpp"
struct DR;
typedef std::shared_ptr<DR> DP;
struct DR {
	enum K { UI, UF, NI, NF, RO, MI, MV } k;
	double              a = 0, b = 0, q = 0; // float lower/upper or mu/sigma
	ccs_int_t           l = 0, u = 0, iq = 0;
	bool                log = false;
	std::vector<double> w;
	std::vector<DP>     sub;
	size_t              dim() const
	{
		if (k == MI)
			return sub[0]->dim();
		if (k != MV)
			return 1;
		size_t n = 0;
		for (auto &s : sub)
			n += s->dim();
		return n;
	}
	// leaf descriptions that can produce component c
	void leaves(size_t c, std::vector<const DR *> &o) const
	{
		if (k == MI) {
			for (size_t i = 0; i < sub.size(); i++)
				if (w[i] > 0)
					sub[i]->leaves(c, o);
		} else if (k == MV) {
			for (auto &s : sub) {
				if (c < s->dim()) {
					s->leaves(c, o);
					return;
				}
				c -= s->dim();
			}
		} else
			o.push_back(this);
	}
	bool is_float(size_t c = 0) const
	{
		std::vector<const DR *> o;
		leaves(c, o);
		return o[0]->k == UF || o[0]->k == NF;
	}
};
inline DP dui(ccs_int_t l, ccs_int_t u, bool log = false, ccs_int_t q = 0)
{
	DP d(new DR);
	d->k = DR::UI, d->l = l, d->u = u, d->log = log, d->iq = q;
	return d;
}
inline DP duf(double l, double u, bool log = false, double q = 0)
{
	DP d(new DR);
	d->k = DR::UF, d->a = l, d->b = u, d->log = log, d->q = q;
	return d;
}
inline DP dni(double m, double s, bool log = false, ccs_int_t q = 0)
{
	DP d(new DR);
	d->k = DR::NI, d->a = m, d->b = s, d->log = log, d->iq = q;
	return d;
}
inline DP dnf(double m, double s, bool log = false, double q = 0)
{
	DP d(new DR);
	d->k = DR::NF, d->a = m, d->b = s, d->log = log, d->q = q;
	return d;
}
inline DP dro(std::vector<double> w)
{
	DP d(new DR);
	d->k = DR::RO, d->w = w;
	return d;
}
inline DP dmi(std::vector<DP> s, std::vector<double> w)
{
	DP d(new DR);
	d->k = DR::MI, d->sub = s, d->w = w;
	return d;
}
inline DP dmv(std::vector<DP> s)
{
	DP d(new DR);
	d->k = DR::MV, d->sub = s;
	return d;
}
inline std::string dstr(const DR &d)
{
	std::string r;
	switch (d.k) {
	case DR::UI: return strf("ui%s[%lld,%lld)q%lld", d.log ? "log" : "", (long long)d.l, (long long)d.u, (long long)d.iq);
	case DR::UF: return strf("uf%s[%.17g,%.17g)q%g", d.log ? "log" : "", d.a, d.b, d.q);
	case DR::NI: return strf("ni%s(%g,%g)q%lld", d.log ? "log" : "", d.a, d.b, (long long)d.iq);
	case DR::NF: return strf("nf%s(%g,%g)q%g", d.log ? "log" : "", d.a, d.b, d.q);
	case DR::RO: r = "ro("; break;
	case DR::MI: r = "mix("; break;
	case DR::MV: r = "mv("; break;
	}
	for (size_t i = 0; i < d.w.size(); i++)
		r += strf("%g ", d.w[i]);
	for (auto &s : d.sub)
		r += dstr(*s) + " ";
	return r + ")";
}
inline Dis build(const DR &d)
{
	Dis              o;
	ccs_scale_type_t sc = d.log ? CCS_SCALE_TYPE_LOGARITHMIC : CCS_SCALE_TYPE_LINEAR;
	std::vector<Dis> sub;
	std::vector<ccs_distribution_t> h;
	for (auto &s : d.sub)
		sub.push_back(build(*s)), h.push_back(sub.back());
	std::vector<double> w = d.w;
	switch (d.k) {
	case DR::UI: OKX(ccs_create_uniform_int_distribution(d.l, d.u, sc, d.iq, o.ret())); break;
	case DR::UF: OKX(ccs_create_uniform_float_distribution(d.a, d.b, sc, d.q, o.ret())); break;
	case DR::NI: OKX(ccs_create_normal_int_distribution(d.a, d.b, sc, d.iq, o.ret())); break;
	case DR::NF: OKX(ccs_create_normal_float_distribution(d.a, d.b, sc, d.q, o.ret())); break;
	case DR::RO: OKX(ccs_create_roulette_distribution(w.size(), w.data(), o.ret())); break;
	case DR::MI: OKX(ccs_create_mixture_distribution(h.size(), h.data(), w.data(), o.ret())); break;
	case DR::MV: OKX(ccs_create_multivariate_distribution(h.size(), h.data(), o.ret())); break;
	}
	return o;
}
// the value is one the leaf can produce: on its grid and in its declared range
inline bool leaf_accepts(const DR &d, ccs_numeric_t v)
{
	switch (d.k) {
	case DR::UI: return v.i >= d.l && v.i < d.u && (d.iq == 0 || ((uint64_t)v.i - (uint64_t)d.l) % (uint64_t)d.iq == 0);
	case DR::UF: {
		if (!(v.f >= d.a && v.f < d.b))
			return false;
		double x = d.q ? (v.f - d.a) / d.q : 0;
		return std::fabs(x - std::round(x)) < 1e-6;
	}
	case DR::NI: return (!d.log || v.i >= (d.iq ? d.iq : 1)) && (d.iq == 0 || v.i % d.iq == 0);
	case DR::NF: {
		if (std::isnan(v.f) || std::isinf(v.f) || (d.log && !(v.f > 0)))
			return false;
		double x = d.q ? v.f / d.q : 0;
		return std::fabs(x - std::round(x)) < 1e-6 && (!d.log || !d.q || x > 0.5);
	}
	case DR::RO: return v.i >= 0 && v.i < (ccs_int_t)d.w.size() && d.w[(size_t)v.i] > 0;
	default: return false;
	}
}
inline bool accepts(const DR &d, size_t c, ccs_numeric_t v)
{
	std::vector<const DR *> o;
	d.leaves(c, o);
	for (auto x : o)
		if (leaf_accepts(*x, v))
			return true;
	return false;
}
inline bool in_interval(const ccs_interval_t &iv, ccs_numeric_t v)
{
	if (iv.type == CCS_NUMERIC_TYPE_FLOAT)
		return (iv.lower_included ? v.f >= iv.lower.f : v.f > iv.lower.f) && (iv.upper_included ? v.f <= iv.upper.f : v.f < iv.upper.f);
	return (iv.lower_included ? v.i >= iv.lower.i : v.i > iv.lower.i) && (iv.upper_included ? v.i <= iv.upper.i : v.i < iv.upper.i);
}
