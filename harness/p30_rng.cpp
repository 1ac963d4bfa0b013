// Generators of random numbers: reproducible from type and seed, never shared by accident, replaced for good.
#include "ccsx.hpp"
#include <gsl/gsl_rng.h>

static std::vector<const gsl_rng_type *> types()
{
	std::vector<const gsl_rng_type *> v;
	for (const gsl_rng_type **t = gsl_rng_types_setup(); *t; t++)
		v.push_back(*t);
	return v;
}
struct Gsl { // a generator of the GSL, the reference
	gsl_rng *r;
	explicit Gsl(const gsl_rng_type *t) : r(gsl_rng_alloc(t)) {}
	Gsl(const Gsl &) = delete;
	Gsl(Gsl &&o) noexcept : r(o.r) { o.r = nullptr; }
	Gsl &operator=(Gsl &&o) noexcept
	{
		std::swap(r, o.r);
		return *this;
	}
	~Gsl()
	{
		if (r)
			gsl_rng_free(r);
	}
};
static gsl_rng *inside(ccs_rng_t g)
{
	gsl_rng *r = nullptr;
	OKX(ccs_rng_get_gsl_rng(g, &r));
	return r;
}
static bool same_state(const gsl_rng *a, const gsl_rng *b)
{
	// the memory of a state may have padding: compare what the two produce next
	gsl_rng *x = gsl_rng_clone(a), *y = gsl_rng_clone(b);
	bool     ok = a->type == b->type;
	for (int i = 0; ok && i < 8; i++)
		ok = gsl_rng_get(x) == gsl_rng_get(y);
	gsl_rng_free(x);
	gsl_rng_free(y);
	return ok;
}
static Obj restored(ccs_object_t o)
{
	std::vector<char> b = ser(o);
	Obj               r;
	OKX(ccs_object_deserialize(r.ret(), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_END));
	return r;
}

// every type and seed: raw and uniform draws are those of the GSL, within the GSL's range, through new, reseeded and restored generators
MC_SUITE(types)
{
	static const std::vector<const gsl_rng_type *> all = types();
	static const std::vector<unsigned long> seeds = {0, 1, 2, 42, 12345, 1ul << 15, (1ul << 31) - 1, 1ul << 31, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 1, 1ul << 63, ~0ul};
	const gsl_rng_type *t = all[(size_t)mc::choose((int)all.size(), "type")];
	unsigned long       seed = mc::pick(seeds, "seed"), other = mc::pick(seeds, "seed before");
	int                 how = mc::choose(5, "how");
	// some generators of the GSL leave their own range, or crash, with seeds that wrap around
	static const std::set<std::string> wide = {"mt19937", "mt19937_1998", "taus", "taus2", "taus113", "gfsr4", "ranlxs2", "ranlxd2", "rand48"};
	if ((seed >> 31 || other >> 31) && !wide.count(t->name))
		mc::prune();
	mc::shard_point();
	mc::nontrivial();
	int n = mc::tier_bound(150, 2000);
	Rng g;
	Gsl ref(t);
	OKX(ccs_create_rng_with_type(t, g.ret()));
	const gsl_rng_type *got = nullptr;
	OKX(ccs_rng_get_type(g, &got));
	if (got != t)
		mc::fail("a generator of type %s says it is another", t->name);
	auto draw = [&](ccs_rng_t x, int count, const char *what) {
		unsigned long lo = 7, hi = 7;
		OKX(ccs_rng_min(x, &lo));
		OKX(ccs_rng_max(x, &hi));
		if (lo != gsl_rng_min(ref.r) || hi != gsl_rng_max(ref.r))
			mc::fail("%s: minimum %lu, maximum %lu instead of %lu, %lu", t->name, lo, hi, gsl_rng_min(ref.r), gsl_rng_max(ref.r));
		for (int i = 0; i < count; i++) {
			if (i % 3 == 1) {
				ccs_float_t f = -1;
				OKX(ccs_rng_uniform(x, &f));
				double want = gsl_rng_uniform(ref.r);
				if (f != want)
					mc::fail("%s, %s, seed %lu: uniform draw %d is %.17g instead of %.17g", t->name, what, seed, i, f, want);
			} else {
				unsigned long v = 0, want = gsl_rng_get(ref.r);
				OKX(ccs_rng_get(x, &v));
				if (v != want)
					mc::fail("%s, %s, seed %lu: draw %d is %lu instead of %lu, in %lu .. %lu", t->name, what, seed, i, v, want, lo, hi);
			}
		}
	};
	if (how != 0) { // used before
		OKX(ccs_rng_set_seed(g, other));
		gsl_rng_set(ref.r, other);
		draw(g, how == 4 ? 700 : 5, "before");
	}
	if (how == 0)
		draw(g, 5, "unseeded");
	OKX(ccs_rng_set_seed(g, seed));
	gsl_rng_set(ref.r, seed);
	if (how == 2) { // restored at once
		Obj r = restored(g);
		draw((ccs_rng_t)r.get(), n, "restored");
		gsl_rng_set(ref.r, seed);
		draw(g, n, "serialized");
		return;
	}
	draw(g, n, "seeded");
	if (how == 3) { // restored midway; the original and the copy go on alone
		Obj r = restored(g);
		Gsl at(t);
		gsl_rng_memcpy(at.r, ref.r);
		OKX(ccs_rng_get_type((ccs_rng_t)r.get(), &got));
		if (got != t)
			mc::fail("a restored generator of type %s says it is another", t->name);
		draw((ccs_rng_t)r.get(), n, "restored midway");
		std::swap(at.r, ref.r);
		draw(g, n, "after being restored elsewhere");
	}
}

// ---- histories ---------------------------------------------------------------
static ccs_result_t grow(ccs_tree_space_t, ccs_tree_t parent, size_t index, ccs_tree_t *child)
{
	size_t depth = 0;
	if (ccs_tree_get_position(parent, 0, nullptr, &depth) != CCS_RESULT_SUCCESS)
		mc::fail("ccs_tree_get_position failed");
	return ccs_create_tree(depth < 2 ? 3 : 0, ccs_int((ccs_int_t)index + 1), child);
}
static ccs_result_t grow_del(ccs_tree_space_t) { return CCS_RESULT_SUCCESS; }
struct Space { // a space to sample from, of either kind
	int kind;  // 0 configuration space, 1 with conditions and clauses, 2 tree space, 3 lazily grown tree space
	Obj o;
	explicit Space(int k) : kind(k)
	{
		if (k >= 2) {
			Tre root;
			OKX(ccs_create_tree(3, ccs_int(0), root.ret()));
			TSp s;
			if (k == 3) {
				ccs_dynamic_tree_space_vector_t vec = {grow_del, grow, nullptr, nullptr};
				OKX(ccs_create_dynamic_tree_space("t", root, &vec, nullptr, s.ret()));
			} else {
				for (size_t i = 0; i < 3; i++) {
					Tre c;
					OKX(ccs_create_tree(i, ccs_int(1), c.ret()));
					OKX(ccs_tree_set_weight(c, 1.0 + (double)i));
					OKX(ccs_tree_set_child(root, i, c));
				}
				OKX(ccs_create_static_tree_space("t", root, s.ret()));
			}
			o = Obj((ccs_object_t)s.take());
			return;
		}
		Par a = pflt("a", 0, 1, 0.5), b = pint("b", 0, 1000, 3), c = pcat("c", {ccs_string("x"), ccs_string("y"), ccs_string("z")});
		CSp s = mkcs("s", {a, b, c});
		Dis d;
		OKX(ccs_create_normal_distribution(CCS_NUMERIC_TYPE_FLOAT, 0.5, 0.2, CCS_SCALE_TYPE_LINEAR, CCSF(0.0), d.ret()));
		size_t at = 0;
		OKX(ccs_configuration_space_set_distribution(s, d, &at));
		if (k == 1) {
			OKX(ccs_configuration_space_set_condition(s, 1, ebin(CCS_EXPRESSION_TYPE_EQUAL, od(evar(c)), od(elit(ccs_string("x"))))));
			OKX(ccs_configuration_space_add_forbidden_clause(s, ebin(CCS_EXPRESSION_TYPE_LESS, od(evar(a)), od(elit(ccs_float(0.25))))));
		}
		o = Obj((ccs_object_t)s.take());
	}
	ccs_rng_t rng() const
	{
		ccs_rng_t r = nullptr;
		if (kind >= 2)
			OKX(ccs_tree_space_get_rng((ccs_tree_space_t)o.get(), &r));
		else
			OKX(ccs_configuration_space_get_rng((ccs_configuration_space_t)o.get(), &r));
		return r;
	}
	void set(ccs_rng_t r)
	{
		if (kind >= 2)
			OKX(ccs_tree_space_set_rng((ccs_tree_space_t)o.get(), r));
		else
			OKX(ccs_configuration_space_set_rng((ccs_configuration_space_t)o.get(), r));
	}
	// n samples as text; n == 0: the single sample call
	std::string sample(size_t n)
	{
		std::string                           s;
		size_t                                m = n ? n : 1;
		std::vector<ccs_configuration_t>      c(m, nullptr);
		std::vector<ccs_tree_configuration_t> t(m, nullptr);
		if (kind >= 2) {
			if (n)
				OKX(ccs_tree_space_samples((ccs_tree_space_t)o.get(), n, t.data()));
			else
				OKX(ccs_tree_space_sample((ccs_tree_space_t)o.get(), t.data()));
		} else {
			if (n)
				OKX(ccs_configuration_space_samples((ccs_configuration_space_t)o.get(), n, c.data()));
			else
				OKX(ccs_configuration_space_sample((ccs_configuration_space_t)o.get(), c.data()));
		}
		for (size_t i = 0; i < m; i++) {
			if (kind >= 2) {
				TCf    own(t[i]);
				size_t sz = 0;
				OKX(ccs_tree_configuration_get_position(own, 0, nullptr, &sz));
				std::vector<size_t> p(sz);
				if (sz)
					OKX(ccs_tree_configuration_get_position(own, sz, p.data(), nullptr));
				for (size_t x : p)
					s += strf(" %zu", x);
			} else {
				Cfg         own(c[i]);
				ccs_datum_t d[3];
				OKX(ccs_configuration_get_values(own, 3, d, nullptr));
				for (auto &x : d)
					s += " " + dstr(x);
			}
			s += ";";
		}
		return s;
	}
};

// All sequences of draws, reseedings, samplings, replacements and copies over two spaces and several generators.
// Each generator is shadowed by one of the GSL; a sample must be the one that a new space gives
// from that state, must advance that generator alone, and by as much.
MC_SUITE(histories)
{
	static const int pairs[][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 3}, {2, 2}, {2, 3}};
	int              pair  = mc::choose((int)(sizeof pairs / sizeof *pairs), "spaces");
	int              depth = mc::tier_bound(4, 5);
	enum { SAMPLE, SAMPLES, GIVE_FIRST, GIVE_OTHER, GIVE_NEW, RESTORE, RESEED, DRAW, TUNER, NOPS };
	struct Op {
		int what, on;
	};
	std::vector<Op> ops;
	for (int i = 0; i < depth; i++) {
		int what = mc::choose(NOPS, "operation"), on = mc::choose(2, "space");
		ops.push_back({what, on});
	}
	mc::shard_point();
	mc::nontrivial();
	struct G {
		Rng own; // held here, whoever else uses it
		Gsl shadow;
	};
	std::vector<G>     gens;
	std::vector<Space> sp;
	int                of[2]; // generator of each space
	std::vector<Obj>   keep;
	auto adopt = [&](ccs_rng_t r, Gsl &&shadow) {
		OKX(ccs_retain_object(r));
		gens.push_back(G{Rng(r), std::move(shadow)});
		return (int)gens.size() - 1;
	};
	for (int i = 0; i < 2; i++) {
		sp.emplace_back(pairs[pair][i]);
		of[i] = adopt(sp[(size_t)i].rng(), Gsl(gsl_rng_default));
	}
	{ // a generator of the user, of another type
		Rng r;
		Gsl s(gsl_rng_taus2);
		OKX(ccs_create_rng_with_type(gsl_rng_taus2, r.ret()));
		OKX(ccs_rng_set_seed(r, 99));
		gsl_rng_set(s.r, 99);
		adopt(r, std::move(s));
	}
	const int user = 2;
	auto      look = [&](const char *after) {
                for (size_t i = 0; i < gens.size(); i++)
                        if (!same_state(inside(gens[i].own), gens[i].shadow.r))
                                mc::fail("after %s: generator %zu is not where it should be", after, i);
                for (int i = 0; i < 2; i++)
                        if (sp[(size_t)i].rng() != gens[(size_t)of[i]].own.get())
                                mc::fail("after %s: space %d has another generator", after, i);
	};
	look("creation");
	static const char *names[] = {"a sample", "samples", "giving the user's generator", "giving the other's generator", "giving a new generator", "restoring", "reseeding", "a draw", "an ask"};
	unsigned long      seed    = 5;
	for (auto &op : ops) {
		Space &s = sp[(size_t)op.on];
		G     &g = gens[(size_t)of[op.on]];
		switch (op.what) {
		case SAMPLE:
		case SAMPLES: {
			size_t n = op.what == SAMPLE ? 0 : 3;
			Space  twin(s.kind);
			Rng    r;
			gsl_rng *in = inside(twin.rng());
			if (in->type != g.shadow.r->type) {
				OKX(ccs_create_rng_with_type(g.shadow.r->type, r.ret()));
				twin.set(r);
				in = inside(r);
			}
			gsl_rng_memcpy(in, g.shadow.r);
			std::string want = twin.sample(n), got = s.sample(n);
			if (want != got)
				mc::fail("space %d samples%s, a new space with a generator in the same state%s", op.on, got.c_str(), want.c_str());
			if (same_state(in, g.shadow.r))
				mc::fail("sampling left its generator where it was");
			gsl_rng_memcpy(g.shadow.r, in);
			break;
		}
		case GIVE_FIRST:
			s.set(gens[user].own);
			of[op.on] = user;
			break;
		case GIVE_OTHER:
			s.set(gens[(size_t)of[!op.on]].own);
			of[op.on] = of[!op.on];
			break;
		case GIVE_NEW: {
			Rng r;
			OKX(ccs_create_rng(r.ret()));
			OKX(ccs_rng_set_seed(r, ++seed));
			Gsl sh(gsl_rng_default);
			gsl_rng_set(sh.r, seed);
			s.set(r);
			of[op.on] = adopt(r, std::move(sh));
			break;
		}
		case RESTORE: { // the copy replaces the space; its generator starts from the same state and is its own
			Obj c;
			if (s.kind == 3) {
				std::vector<char>               b = ser(s.o);
				ccs_dynamic_tree_space_vector_t vec = {grow_del, grow, nullptr, nullptr};
				OKX(ccs_object_deserialize(c.ret(), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_VECTOR, &vec, CCS_DESERIALIZE_OPTION_END));
			} else
				c = restored(s.o);
			Gsl sh(g.shadow.r->type);
			gsl_rng_memcpy(sh.r, g.shadow.r);
			keep.push_back(std::move(s.o));
			s.o       = std::move(c);
			of[op.on] = adopt(s.rng(), std::move(sh));
			break;
		}
		case RESEED:
			OKX(ccs_rng_set_seed(s.rng(), ++seed));
			gsl_rng_set(g.shadow.r, seed);
			break;
		case DRAW: {
			unsigned long v = 0, want = gsl_rng_get(g.shadow.r);
			OKX(ccs_rng_get(s.rng(), &v));
			if (v != want)
				mc::fail("a draw gives %lu instead of %lu", v, want);
			break;
		}
		case TUNER: { // a random tuner asks its space
			Own<ccs_object_t> t;
			Space             twin(s.kind);
			Rng               r;
			OKX(ccs_create_rng_with_type(g.shadow.r->type, r.ret()));
			twin.set(r);
			gsl_rng_memcpy(inside(r), g.shadow.r);
			std::string want = twin.sample(2);
			Par         op1 = pflt("y", -10, 10, 0);
			OSp         os = mkos("o", {op1});
			OKX(ccs_objective_space_add_objective(os, evar(op1), CCS_OBJECTIVE_TYPE_MINIMIZE));
			std::string got;
			if (s.kind >= 2) {
				OKX(ccs_create_random_tree_tuner("t", (ccs_tree_space_t)s.o.get(), os, (ccs_tree_tuner_t *)t.ret()));
				ccs_tree_configuration_t c[2] = {nullptr, nullptr};
				OKX(ccs_tree_tuner_ask((ccs_tree_tuner_t)t.get(), 2, c, nullptr));
				for (auto x : c) {
					TCf    own(x);
					size_t sz = 0;
					OKX(ccs_tree_configuration_get_position(own, 0, nullptr, &sz));
					std::vector<size_t> p(sz);
					if (sz)
						OKX(ccs_tree_configuration_get_position(own, sz, p.data(), nullptr));
					for (size_t y : p)
						got += strf(" %zu", y);
					got += ";";
				}
			} else {
				OKX(ccs_create_random_tuner("t", (ccs_configuration_space_t)s.o.get(), os, (ccs_tuner_t *)t.ret()));
				ccs_configuration_t c[2] = {nullptr, nullptr};
				OKX(ccs_tuner_ask((ccs_tuner_t)t.get(), 2, c, nullptr));
				for (auto x : c) {
					Cfg         own(x);
					ccs_datum_t d[3];
					OKX(ccs_configuration_get_values(own, 3, d, nullptr));
					for (auto &y : d)
						got += " " + dstr(y);
					got += ";";
				}
			}
			if (want != got)
				mc::fail("a random tuner of space %d asks%s, a new space with a generator in the same state samples%s", op.on, got.c_str(), want.c_str());
			gsl_rng_memcpy(g.shadow.r, inside(r));
			break;
		}
		}
		look(names[op.what]);
	}
}

// two generators drawn from in turn through distributions, parameters and trees: each sequence is its own
MC_SUITE(samplers)
{
	enum { UNIFORM, NORMAL, ROULETTE, MIXTURE, MULTI, PINT, PCAT, PFLT, TREE, NKINDS };
	static const gsl_rng_type *ts[] = {gsl_rng_mt19937, gsl_rng_taus2, gsl_rng_ranlxd2, gsl_rng_knuthran2002, gsl_rng_cmrg};
	int                        type[2] = {mc::choose(5, "type"), mc::choose(mc::thorough() ? 5 : 2, "type")}, depth = mc::tier_bound(3, 4);
	struct Op {
		int which, kind;
	};
	std::vector<Op> ops;
	for (int i = 0; i < depth; i++) {
		int which = mc::choose(2, "generator"), kind = mc::choose(NKINDS, "sampler");
		ops.push_back({which, kind});
	}
	mc::shard_point();
	mc::nontrivial();
	struct Samplers {
		std::vector<Dis> d;
		std::vector<Par> p;
		Tre              t;
		Samplers()
		{
			d.resize(5);
			OKX(ccs_create_uniform_float_distribution(-1, 1, CCS_SCALE_TYPE_LINEAR, 0, d[0].ret()));
			OKX(ccs_create_normal_distribution(CCS_NUMERIC_TYPE_FLOAT, 0.5, 2.0, CCS_SCALE_TYPE_LINEAR, CCSF(0.0), d[1].ret()));
			ccs_float_t areas[] = {1, 2, 3};
			OKX(ccs_create_roulette_distribution(3, areas, d[2].ret()));
			ccs_distribution_t two[] = {d[0], d[1]};
			ccs_float_t        w[]   = {1, 1};
			OKX(ccs_create_mixture_distribution(2, two, w, d[3].ret()));
			OKX(ccs_create_multivariate_distribution(2, two, d[4].ret()));
			p.push_back(pint("i", 0, 1000, 0));
			p.push_back(pcat("c", {ccs_int(1), ccs_int(2), ccs_int(3), ccs_int(4), ccs_int(5)}));
			p.push_back(pflt("f", 0, 1, 0.5));
			OKX(ccs_create_tree(7, ccs_int(0), t.ret()));
			for (size_t i = 0; i < 7; i++) {
				Tre c;
				OKX(ccs_create_tree(0, ccs_int(1), c.ret()));
				OKX(ccs_tree_set_child(t, i, c));
			}
		}
		std::string draw(int kind, ccs_rng_t g)
		{
			if (kind == TREE) {
				size_t i[2] = {77, 77};
				OKX(ccs_tree_sample(t, g, i));
				OKX(ccs_tree_samples(t, g, 1, i + 1));
				return strf("%zu %zu", i[0], i[1]);
			}
			if (kind >= PINT) {
				ccs_distribution_t dd;
				OKX(ccs_parameter_get_default_distribution(p[(size_t)(kind - PINT)], &dd));
				Dis         own(dd);
				ccs_datum_t x[3];
				OKX(ccs_parameter_sample(p[(size_t)(kind - PINT)], dd, g, x));
				OKX(ccs_parameter_samples(p[(size_t)(kind - PINT)], dd, g, 2, x + 1));
				return dstr(x[0]) + " " + dstr(x[1]) + " " + dstr(x[2]);
			}
			ccs_numeric_t v[6];
			memset(v, 0, sizeof v);
			OKX(ccs_distribution_sample(d[(size_t)kind], g, v));
			OKX(ccs_distribution_samples(d[(size_t)kind], g, 2, v + 2));
			std::string s;
			for (auto &x : v)
				s += strf(" %llx", (unsigned long long)x.i);
			return s;
		}
	};
	Samplers s, fresh;
	Rng      g[2], twin[2];
	for (int i = 0; i < 2; i++) {
		OKX(ccs_create_rng_with_type(ts[type[i]], g[i].ret()));
		OKX(ccs_create_rng_with_type(ts[type[i]], twin[i].ret()));
		OKX(ccs_rng_set_seed(g[i], 17));
		OKX(ccs_rng_set_seed(twin[i], 17));
	}
	std::vector<std::string> got, want;
	for (auto &op : ops)
		got.push_back(s.draw(op.kind, g[op.which]));
	// the second generator's part first, then the first's: the same draws from each
	for (int w : {1, 0})
		for (size_t i = 0; i < ops.size(); i++)
			if (ops[i].which == w) {
				std::string x = fresh.draw(ops[i].kind, twin[w]);
				if (x != got[i])
					mc::fail("draw %zu of generator %d gives %s alone, %s among the draws of another", i, w, x.c_str(), got[i].c_str());
			}
	for (int i = 0; i < 2; i++)
		if (!same_state(inside(g[i]), inside(twin[i])))
			mc::fail("generator %d ended elsewhere than alone", i);
}
