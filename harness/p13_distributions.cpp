// P13: every parameter is sampled from the distribution last assigned to it.
#include "cspace_ref.hpp"
#include "dist_ref.hpp"
using namespace mc;

static const int N = 4;
// the model: for each parameter, which assignment covers it and at which component
struct Src {
	int    asg = -1; // -1: the default distribution
	size_t comp = 0;
};
struct Model {
	std::vector<Src> p;
	void drop(int asg) { for (auto &s : p) if (s.asg == asg) s = Src(); }
	void assign(int asg, const std::vector<size_t> &ix)
	{
		for (size_t i : ix)
			if (p[i].asg >= 0)
				drop(p[i].asg);
		for (size_t c = 0; c < ix.size(); c++)
			p[ix[c]].asg = asg, p[ix[c]].comp = c;
	}
};
struct World {
	std::vector<Par> par;
	CSp              s;
	Model            m;
	std::vector<ccs_distribution_t> of; // per assignment: the distribution
	std::vector<std::vector<int>>   sig; // per assignment: its constant values
	struct D { Dis d; std::vector<int> v; };
	std::vector<D>   pool;
	void mk(int n)
	{
		OKX(ccs_create_configuration_space("s", s.ret()));
		for (int i = 0; i < n; i++)
			par.push_back(pint(strf("p%d", i).c_str(), i, 1000 + i, 500));
	}
	// a distribution of the given dimension whose components are constants
	int fresh(int dim)
	{
		std::vector<DP>  c;
		D                d;
		for (int i = 0; i < dim; i++) {
			d.v.push_back(100 + 80 * (int)pool.size() + i);
			c.push_back(dui(d.v.back(), d.v.back() + 1));
		}
		d.d = build(dim == 1 ? *c[0] : *dmv(c));
		pool.push_back(std::move(d));
		return (int)pool.size() - 1;
	}
	void check()
	{
		std::map<ccs_distribution_t, std::set<int>> live;
		std::map<ccs_distribution_t, int>           defs;
		for (size_t i = 0; i < m.p.size(); i++) {
			ccs_distribution_t d = nullptr;
			size_t             k = 99;
			MC_OK(ccs_configuration_space_get_parameter_distribution(s, i, &d, &k));
			MC_CHECK(d != nullptr);
			if (m.p[i].asg >= 0) {
				MC_REQ(d == of[(size_t)m.p[i].asg], "parameter %zu is not reported with the distribution last set for it", i);
				MC_REQ(k == m.p[i].comp, "parameter %zu reported at component %zu, set at %zu", i, k, m.p[i].comp);
				live[d].insert(m.p[i].asg);
			} else {
				for (auto &x : pool)
					MC_REQ(x.d.get() != d, "parameter %zu should have its default distribution again", i);
				size_t dim = 0;
				OKX(ccs_distribution_get_dimension(d, &dim));
				ccs_interval_t iv;
				OKX(ccs_distribution_get_bounds(d, &iv));
				MC_REQ(dim == 1 && k == 0 && iv.lower.i == (ccs_int_t)i && iv.upper.i == 1000 + (ccs_int_t)i, "parameter %zu: not the default distribution", i);
				MC_REQ(defs[d]++ == 0, "two parameters share a default distribution object");
			}
		}
		for (auto &x : pool)
			MC_REQ(refcount(x.d) == 1 + (int)live[x.d].size(), "distribution is referenced %d times, held by %zu assignments and the user", refcount(x.d), live[x.d].size());
		ccs_distribution_t d = nullptr;
		size_t             k = 0;
		MC_ERR(ccs_configuration_space_get_parameter_distribution(s, m.p.size(), &d, &k));
	}
	void sample()
	{
		for (uint32_t raw : {0u, 0xF0000000u}) {
			tape_fixed(std::vector<uint32_t>(200, raw));
			Rng g(tape_rng());
			OKX(ccs_configuration_space_set_rng(s, g));
			Cfg c;
			MC_OK(ccs_configuration_space_sample(s, c.ret()));
			auto v = cfg_values(c, m.p.size());
			for (size_t i = 0; i < v.size(); i++) {
				bool    def  = m.p[i].asg < 0;
				int64_t want = def ? -1 : sig[(size_t)m.p[i].asg][m.p[i].comp];
				MC_REQ(v[i].t == V::INT && (def ? v[i].i >= (int64_t)i && v[i].i < (int64_t)i + 1000 : v[i].i == want), "parameter %zu sampled %s, its source gives %ld", i, v[i].str().c_str(), (long)want);
				obs((uint64_t)want);
			}
		}
	}
	void set(int di, const std::vector<size_t> &ix)
	{
		std::vector<size_t> arg = ix;
		std::string         t;
		bool                ok = true;
		for (size_t i = 0; i < ix.size(); i++) {
			t += strf("%zu ", ix[i]);
			ok = ok && ix[i] < m.p.size();
			for (size_t j = 0; j < i; j++)
				ok = ok && ix[i] != ix[j];
		}
		ccs_result_t rc = ccs_configuration_space_set_distribution(s, pool[(size_t)di].d, arg.data());
		step("set %d-dim distribution %d on %s-> %d", (int)ix.size(), di, t.c_str(), (int)rc);
		MC_REQ(rc == (ok ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_INVALID_VALUE), "set_distribution on %sreturned %d", t.c_str(), (int)rc);
		MC_CHECK(arg == ix);
		if (ok) {
			of.push_back(pool[(size_t)di].d);
			sig.push_back(pool[(size_t)di].v);
			m.assign((int)of.size() - 1, ix);
		}
	}
};
static std::vector<size_t> indices(int dim, size_t lim, bool valid_only)
{
	std::vector<size_t> ix;
	for (int i = 0; i < dim; i++) {
		if (!valid_only)
			ix.push_back((size_t)choose((int)lim + 1, "index"));
		else {
			std::vector<size_t> left;
			for (size_t k = 0; k < lim; k++)
				if (std::find(ix.begin(), ix.end(), k) == ix.end())
					left.push_back(k);
			ix.push_back(pick(left, "index"));
		}
	}
	return ix;
}
static void run(int depth, int maxdim, bool valid_only, bool same)
{
	// all decisions that shape the work are taken before the first allocation
	struct Op { std::vector<size_t> ix; int reuse; };
	std::vector<Op> ops;
	for (int i = 0; i < depth; i++) {
		int dim = 1 + choose(maxdim, "dimension");
		Op  o   = {indices(dim, (size_t)N, valid_only), -1};
		// an earlier distribution of the same dimension can be set again
		if (same)
			for (int j = i - 1; j >= 0; j--)
				if (ops[(size_t)j].ix.size() == (size_t)dim && ops[(size_t)j].reuse < 0) {
					if (flip("set the same distribution again"))
						o.reuse = j;
					break;
				}
		ops.push_back(o);
	}
	shard_point();
	if (depth >= 2)
		nontrivial();
	World w;
	w.mk(N);
	for (int i = 0; i < N; i++)
		OKX(ccs_configuration_space_add_parameter(w.s, w.par[(size_t)i], nullptr));
	w.m.p.resize(N);
	std::vector<int> did;
	for (auto &o : ops) {
		did.push_back(o.reuse >= 0 ? did[(size_t)o.reuse] : w.fresh((int)o.ix.size()));
		w.set(did.back(), o.ix);
		w.check();
	}
	w.sample();
}
MC_SUITE(two_any) { run(2, 3, false, true); }
MC_SUITE(three_small) { run(3, 2, !thorough(), true); }
MC_SUITE(four_small) { run(4, 2, true, false); }
MC_SUITE(two_wide) { run(2, 4, true, true); }
MC_SUITE(three_wide)
{
	if (!thorough())
		return;
	run(3, 3, true, true);
}
// parameters added with and without a distribution, singly or together, in between assignments
MC_SUITE(adding)
{
	struct Op { int kind, dim; std::vector<size_t> ix; };
	std::vector<Op> ops;
	size_t          n = 0;
	int             len = 3 + choose(2);
	bool            bad = false;
	for (int i = 0; i < len; i++) {
		Op o;
		// 0: add with default, 1: add with a distribution, 2: add two at once, 3: assign
		o.kind = n >= 2 ? choose(4, "operation") : choose(3, "operation");
		o.dim  = 1;
		if (o.kind == 1)
			o.dim = 1 + choose(2, "dimension");
		if (o.kind == 2)
			o.dim = choose(4, "which have a distribution");
		if (o.kind == 3) {
			o.dim = 1 + choose(2, "dimension");
			o.ix  = indices(o.dim, n, true);
		}
		if (o.kind == 0)
			n++;
		if (o.kind == 1 && o.dim == 1)
			n++;
		if (o.kind == 1 && o.dim == 2)
			bad = true;
		if (o.kind == 2)
			n += 2;
		if (n > 5)
			prune();
		ops.push_back(o);
	}
	shard_point();
	if (bad)
		nontrivial();
	World w;
	w.mk(6);
	for (auto &o : ops) {
		size_t at = w.m.p.size();
		switch (o.kind) {
		case 0:
			MC_OK(ccs_configuration_space_add_parameter(w.s, w.par[at], nullptr));
			w.m.p.push_back(Src());
			break;
		case 1: {
			int d = w.fresh(o.dim);
			ccs_result_t rc = ccs_configuration_space_add_parameter(w.s, w.par[at], w.pool[(size_t)d].d);
			step("add with %d-dim -> %d", o.dim, (int)rc);
			MC_REQ(rc == (o.dim == 1 ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_INVALID_DISTRIBUTION), "add_parameter with a %d dimensional distribution returned %d", o.dim, (int)rc);
			MC_CHECK(refcount(w.par[at]) == (o.dim == 1 ? 2 : 1));
			if (o.dim == 1) {
				w.m.p.push_back(Src());
				w.of.push_back(w.pool[(size_t)d].d);
				w.sig.push_back(w.pool[(size_t)d].v);
				w.m.assign((int)w.of.size() - 1, {at});
			}
			break;
		}
		case 2: {
			ccs_parameter_t    ps[2] = {w.par[at], w.par[at + 1]};
			ccs_distribution_t ds[2] = {nullptr, nullptr};
			int                id[2] = {-1, -1};
			for (int k = 0; k < 2; k++)
				if (o.dim >> k & 1)
					id[k] = w.fresh(1), ds[k] = w.pool[(size_t)id[k]].d;
			MC_OK(ccs_configuration_space_add_parameters(w.s, 2, ps, o.dim ? ds : nullptr));
			for (size_t k = 0; k < 2; k++) {
				w.m.p.push_back(Src());
				if (id[k] >= 0) {
					w.of.push_back(ds[k]);
					w.sig.push_back(w.pool[(size_t)id[k]].v);
					w.m.assign((int)w.of.size() - 1, {at + k});
				}
			}
			break;
		}
		default: w.set(w.fresh(o.dim), o.ix);
		}
		w.check();
	}
	if (!w.m.p.empty())
		w.sample();
}

// many parameters and wide distributions, overlapping in every arrangement of a family
MC_SUITE(sizes)
{
	static const std::vector<int> ns{8, 9, 16, 17, 33, 64, 65};
	int n = pick(ns, "parameters"), len = 2 + choose(2, "assignments");
	struct A { int dim, order, start; };
	std::vector<A> as;
	for (int i = 0; i < len; i++) {
		A a;
		int k   = choose(4, "dimension");
		a.dim   = k == 0 ? 1 : k == 1 ? n / 2 : k == 2 ? n - 1 : n;
		a.order = choose(3, "order");
		a.start = choose(2, "start");
		as.push_back(a);
	}
	shard_point();
	World w;
	w.mk(n);
	for (int i = 0; i < n; i++)
		OKX(ccs_configuration_space_add_parameter(w.s, w.par[(size_t)i], nullptr));
	w.m.p.resize((size_t)n);
	for (auto &a : as) {
		std::vector<size_t> ix;
		for (int i = 0; i < a.dim; i++)
			ix.push_back((size_t)((i + (a.start ? n / 3 : 0)) % n));
		if (a.order == 1)
			std::reverse(ix.begin(), ix.end());
		if (a.order == 2)
			std::stable_sort(ix.begin(), ix.end(), [](size_t x, size_t y) { return x % 3 < y % 3; });
		w.set(w.fresh(a.dim), ix);
		w.check();
	}
	w.sample();
	nontrivial();
}
