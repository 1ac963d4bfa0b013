// The Kokkos connector: regions are offered declared candidates, timed, fenced until converged, and then given the best.
#include "ccsx.hpp"
#include <impl/Kokkos_Profiling_C_Interface.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <math.h>
#include <iostream>
#include <map>
#include <set>
#include <algorithm>

extern "C" {
void kokkosp_provide_tool_programming_interface(uint32_t, Kokkos_Tools_ToolProgrammingInterface);
void kokkosp_request_tool_settings(uint32_t, Kokkos_Tools_ToolSettings *);
void kokkosp_begin_parallel_for(const char *, uint32_t, uint64_t *);
void kokkosp_end_parallel_for(uint64_t);
void kokkosp_begin_parallel_scan(const char *, uint32_t, uint64_t *);
void kokkosp_end_parallel_scan(uint64_t);
void kokkosp_begin_parallel_reduce(const char *, uint32_t, uint64_t *);
void kokkosp_end_parallel_reduce(uint64_t);
void kokkosp_init_library(int, uint64_t, uint32_t, void *);
void kokkosp_finalize_library();
void kokkosp_declare_input_type(const char *, size_t, Kokkos_Tools_VariableInfo *);
void kokkosp_declare_output_type(const char *, size_t, Kokkos_Tools_VariableInfo *);
void kokkosp_request_values(size_t, size_t, Kokkos_Tools_VariableValue *, size_t, Kokkos_Tools_VariableValue *);
void kokkosp_begin_context(size_t);
void kokkosp_end_context(size_t);
}

namespace mc {
void tape_default();
}

// the clock is the harness's
static bool     own_clock = false;
static uint64_t now_ns    = 0;
extern "C" int  clock_gettime(clockid_t c, struct timespec *t)
{
	if (!own_clock)
		return (int)syscall(SYS_clock_gettime, c, t);
	t->tv_sec  = (time_t)(now_ns / 1000000000ull);
	t->tv_nsec = (long)(now_ns % 1000000000ull);
	return 0;
}

static std::vector<uint32_t> fences;
static void                  fence(uint32_t d) { fences.push_back(d); }

typedef std::string Val; // canonical value, with its type

static Val v_int(int64_t i) { return mc::strf("i%lld", (long long)i); }
static Val v_dbl(double d) { return mc::strf("d%.12g", d == 0.0 ? 0.0 : d); }
static Val v_str(const std::string &s) { return "s" + s; }

struct Var {
	std::string               name;
	Kokkos_Tools_VariableInfo info{};
	std::vector<int64_t>      is;
	std::vector<double>       ds;
	std::vector<std::array<char, 64>> ss;
	size_t                    id = 0;
	void                      set_of(const std::vector<Val> &vals, Kokkos_Tools_VariableInfo_StatisticalCategory c)
	{
		info.valueQuantity = kokkos_value_set;
		info.category      = c;
		for (auto &v : vals) {
			if (v[0] == 'i')
				is.push_back(atoll(v.c_str() + 1));
			else if (v[0] == 'd')
				ds.push_back(atof(v.c_str() + 1));
			else {
				std::array<char, 64> a{};
				memcpy(a.data(), v.c_str() + 1, v.size() - 1);
				ss.push_back(a);
			}
		}
		info.type = !is.empty() ? kokkos_value_int64 : !ds.empty() ? kokkos_value_double : kokkos_value_string;
		info.candidates.set.size = vals.size();
	}
	void irange(int64_t l, int64_t u, int64_t s, bool ol, bool ou)
	{
		info.valueQuantity = kokkos_value_range;
		info.category      = kokkos_value_ratio;
		info.type          = kokkos_value_int64;
		info.candidates.range.lower.int_value = l;
		info.candidates.range.upper.int_value = u;
		info.candidates.range.step.int_value  = s;
		info.candidates.range.openLower       = ol;
		info.candidates.range.openUpper       = ou;
	}
	void drange(double l, double u, double s, bool ol, bool ou)
	{
		info.valueQuantity = kokkos_value_range;
		info.category      = kokkos_value_interval;
		info.type          = kokkos_value_double;
		info.candidates.range.lower.double_value = l;
		info.candidates.range.upper.double_value = u;
		info.candidates.range.step.double_value  = s;
		info.candidates.range.openLower          = ol;
		info.candidates.range.openUpper          = ou;
	}
	void unbounded(Kokkos_Tools_VariableInfo_ValueType t)
	{
		info.valueQuantity = kokkos_value_unbounded;
		info.category      = t == kokkos_value_string ? kokkos_value_categorical : kokkos_value_ratio;
		info.type          = t;
	}
	// as Kokkos does: the declaration's memory is only lent
	void declare(size_t i, bool input)
	{
		id = i;
		Kokkos_Tools_VariableInfo c = info;
		auto                      is2 = is;
		auto                      ds2 = ds;
		auto                      ss2 = ss;
		std::string               n2  = name;
		if (info.valueQuantity == kokkos_value_set) {
			if (!is.empty())
				c.candidates.set.values.int_value = is2.data();
			else if (!ds.empty())
				c.candidates.set.values.double_value = ds2.data();
			else
				c.candidates.set.values.string_value = (Kokkos_Tools_Tuning_String *)ss2.data();
		}
		mc::step("declare %s", name.c_str());
		(input ? kokkosp_declare_input_type : kokkosp_declare_output_type)(n2.c_str(), id, &c);
		for (auto &x : is2)
			x = -777;
		for (auto &x : ds2)
			x = -777;
		for (auto &x : ss2)
			x.fill('#');
		memset(&n2[0], '#', n2.size());
	}
	Val value(const Kokkos_Tools_VariableValue &v) const
	{
		switch (info.type) {
		case kokkos_value_int64:
			return v_int(v.value.int_value);
		case kokkos_value_double:
			return v_dbl(v.value.double_value);
		default:
			MC_REQ(memchr(v.value.string_value, 0, 64), "%s is not terminated", name.c_str());
			return v_str(v.value.string_value);
		}
	}
	Kokkos_Tools_VariableValue slot(const Val *v)
	{
		Kokkos_Tools_VariableValue r;
		memset(&r, 0x5a, sizeof r);
		r.type_id  = id;
		r.metadata = &info;
		if (!v)
			return r;
		if (info.type == kokkos_value_int64)
			r.value.int_value = atoll(v->c_str() + 1);
		else if (info.type == kokkos_value_double)
			r.value.double_value = atof(v->c_str() + 1);
		else
			snprintf(r.value.string_value, 64, "%s", v->c_str() + 1);
		return r;
	}
	// the candidates, when they can be listed
	bool all(std::set<Val> &out) const
	{
		if (info.valueQuantity == kokkos_value_set) {
			for (auto x : is)
				out.insert(v_int(x));
			for (auto x : ds)
				out.insert(v_dbl(x));
			for (auto &x : ss)
				out.insert(v_str(x.data()));
			return true;
		}
		auto &r = info.candidates.range;
		if (info.type == kokkos_value_int64) {
			int64_t s = r.step.int_value ? r.step.int_value : 1;
			for (int64_t v = r.lower.int_value; v <= r.upper.int_value; v += s)
				if (!(r.openLower && v == r.lower.int_value) && !(r.openUpper && v == r.upper.int_value))
					out.insert(v_int(v));
			return true;
		}
		if (r.step.double_value == 0.0)
			return false;
		for (int k = 0;; k++) {
			double v = r.lower.double_value + k * r.step.double_value, e = 1e-9 * r.step.double_value;
			if (v > r.upper.double_value + e)
				break;
			if (!(r.openLower && k == 0) && !(r.openUpper && v > r.upper.double_value - e))
				out.insert(v_dbl(v));
		}
		return true;
	}
	bool allowed(const Kokkos_Tools_VariableValue &v) const
	{
		std::set<Val> s;
		if (all(s))
			return s.count(value(v)) != 0;
		auto  &r = info.candidates.range;
		double d = v.value.double_value;
		return (r.openLower ? d > r.lower.double_value : d >= r.lower.double_value) && (r.openUpper ? d < r.upper.double_value : d <= r.upper.double_value);
	}
};
static Var ints(const char *n, const std::vector<int64_t> &v, Kokkos_Tools_VariableInfo_StatisticalCategory c)
{
	Var              r;
	std::vector<Val> vals;
	for (auto x : v)
		vals.push_back(v_int(x));
	r.name = n;
	r.set_of(vals, c);
	return r;
}

struct Measure {
	std::vector<Val> feat, conf;
	uint64_t         time;
};
struct Region {
	std::vector<size_t>  in, out; // variables
	std::vector<Measure> told;
	bool                 converged = false;
};
struct Open {
	size_t           region, id;
	std::vector<Val> feat, conf;
	uint64_t         at;
	bool             converged, quiet; // converged itself; no fences in it
};
struct World {
	std::vector<Var>    vars;
	std::vector<Region> regions;
	std::vector<Open>   open;
	size_t              next = 100;
	int                 ids  = 0; // increasing, reused as soon as free, from the largest downwards
	bool                quiet() const { return open.empty() || open.back().quiet; }
	World()
	{
		static bool once = false;
		if (!once) {
			std::cout.rdbuf(nullptr);
			once = true;
		}
		own_clock = true;
		now_ns    = 1999999990ull;
		fences.clear();
		Kokkos_Tools_ToolProgrammingInterface p{};
		p.fence = fence;
		kokkosp_init_library(0, 20210623, 0, nullptr);
		mc::tape_default(); // initialization chose the default generator
		kokkosp_provide_tool_programming_interface(1, p);
		Kokkos_Tools_ToolSettings s;
		memset(&s, 1, sizeof s);
		kokkosp_request_tool_settings(1, &s);
		MC_REQ(!s.requires_global_fencing, "asks for fences everywhere");
	}
	~World() { own_clock = false; }
	void finish()
	{
		while (!open.empty())
			end();
		kernel(0, 3);
		kokkosp_finalize_library();
	}
	void kernel(int what, uint32_t dev)
	{
		static void (*const b[])(const char *, uint32_t, uint64_t *) = {kokkosp_begin_parallel_for, kokkosp_begin_parallel_scan, kokkosp_begin_parallel_reduce};
		static void (*const e[])(uint64_t) = {kokkosp_end_parallel_for, kokkosp_end_parallel_scan, kokkosp_end_parallel_reduce};
		uint64_t k = ~0ull;
		fences.clear();
		mc::step("kernel");
		kokkosp_begin_context(0x80000005); // one that asks for nothing
		b[what]("kernel", dev, &k);
		MC_REQ(fences.size() == (quiet() ? 0u : 1u), "%zu fences before a kernel in a %s context", fences.size(), quiet() ? "converged" : "not converged");
		e[what](k);
		kokkosp_end_context(0x80000005);
		std::vector<uint32_t> want(quiet() ? 0 : 2, dev);
		MC_REQ(fences == want, "%zu fences around a kernel in a %s context", fences.size(), quiet() ? "converged" : "not converged");
	}
	// is the region converged? seen by whether kernels are fenced, which tells for outermost contexts
	void request(size_t r, const std::vector<Val> &feat, int order, bool learn = false)
	{
		Region                                 &R = regions[r];
		std::vector<Kokkos_Tools_VariableValue> in, out;
		std::vector<size_t>                     oi(R.in), oo(R.out);
		for (size_t i = 0; i < oi.size(); i++)
			in.push_back(vars[oi[i]].slot(&feat[i]));
		if (order) {
			std::reverse(in.begin(), in.end());
			std::reverse(oo.begin(), oo.end());
		}
		for (auto i : oo)
			out.push_back(vars[i].slot(nullptr));
		size_t id = ids == 0 ? next++ : ids == 1 ? open.size() : ~(size_t)0 - next++;
		mc::step("request %zu", r);
		if (order)
			kokkosp_begin_context(id);
		kokkosp_request_values(id, in.size(), in.data(), out.size(), out.data());
		if (!order)
			kokkosp_begin_context(id);
		Open o{r, id, feat, {}, now_ns, R.converged, false};
		for (size_t i = 0; i < oo.size(); i++) {
			MC_REQ(out[i].type_id == vars[oo[i]].id && out[i].metadata == &vars[oo[i]].info, "the variable is changed");
			MC_REQ(vars[oo[i]].allowed(out[i]), "%s is given %s, which is no candidate", vars[oo[i]].name.c_str(), vars[oo[i]].value(out[i]).c_str());
		}
		for (auto i : R.out)
			for (size_t j = 0; j < oo.size(); j++)
				if (oo[j] == i)
					o.conf.push_back(vars[i].value(out[j]));
		// the values were lent
		for (auto &x : in)
			memset(&x.value, 0x23, sizeof x.value);
		if (learn && !R.converged && quiet()) {
			fences.clear();
			uint64_t k;
			kokkosp_begin_parallel_for("probe", 1, &k);
			if (fences.empty())
				R.converged = o.converged = true;
			kokkosp_end_parallel_for(k);
		}
		o.quiet = quiet() && o.converged;
		open.push_back(o);
		if (o.converged)
			best(o);
	}
	// what a converged region is given is the best of what was measured with these features
	void best(const Open &o)
	{
		uint64_t                   b = ~0ull;
		std::set<std::vector<Val>> s;
		for (auto &m : regions[o.region].told)
			if (m.feat == o.feat) {
				if (m.time < b) {
					b = m.time;
					s.clear();
				}
				if (m.time == b)
					s.insert(m.conf);
			}
		std::string c, w;
		for (auto &x : o.conf)
			c += " " + x;
		for (auto &y : s)
			for (auto &x : y)
				w += " " + x;
		MC_REQ(s.empty() || s.count(o.conf), "a converged region is given%s, the best was%s (%llu ns)", c.c_str(), w.c_str(), (unsigned long long)b);
	}
	void end()
	{
		Open o = open.back();
		mc::step("end");
		kokkosp_end_context(o.id);
		open.pop_back();
		if (!o.converged)
			regions[o.region].told.push_back({o.feat, o.conf, now_ns - o.at});
	}
	// until the region stops measuring; every measure takes a time of its own, slower than `slow`
	void converge(size_t r, const std::vector<std::vector<Val>> &feats, uint64_t slow)
	{
		for (int i = 0; i < 3000; i++) {
			request(r, feats[(size_t)i % feats.size()], i & 1, true);
			bool c = open.back().converged;
			now_ns += slow + (uint64_t)((i * 7919) % 1009);
			end();
			if (c)
				return;
		}
		mc::fail("the region measures for ever");
	}
};


static std::vector<Var> shapes()
{
	std::vector<Var> v;
	auto             add = [&](Var x, const char *n) {
                x.name = n;
                v.push_back(x);
	};
	for (auto c : {kokkos_value_categorical, kokkos_value_ordinal, kokkos_value_interval, kokkos_value_ratio}) {
		add(ints("", {3}, c), "one int");
		add(ints("", {4, -2, 1}, c), "ints");
		add(ints("", {INT64_MIN + 1, 0, INT64_MAX - 1, 7, 8, 9, 10}, c), "far ints");
		Var d;
		d.set_of({v_dbl(0.5)}, c);
		add(d, "one double");
		Var e;
		e.set_of({v_dbl(2.5), v_dbl(-1), v_dbl(1e300), v_dbl(0)}, c);
		add(e, "doubles");
		if (c == kokkos_value_categorical || c == kokkos_value_ordinal) {
			Var s;
			s.set_of({v_str("a"), v_str(""), v_str(std::string(63, 'x')), v_str("été")}, c);
			add(s, "strings");
		}
	}
	for (int o = 0; o < 4; o++) {
		struct {
			int64_t l, u, s;
		} ir[] = {{0, 4, 0}, {0, 4, 1}, {0, 4, 2}, {-3, 7, 5}, {1, 8, 3}, {0, 9, 4}, {5, 6, 0}, {5, 6, 1}, {-10, -5, 2}, {0, 2, 5}, {5, 5, 0}, {5, 5, 2}};
		for (auto &x : ir) {
			Var r;
			r.irange(x.l, x.u, x.s, o & 1, o & 2);
			std::set<Val> s;
			r.all(s);
			if (!s.empty())
				add(r, mc::strf("int %c%lld..%lld%c step %lld", o & 1 ? '(' : '[', (long long)x.l, (long long)x.u, o & 2 ? ')' : ']', (long long)x.s).c_str());
		}
		struct {
			double l, u, s;
		} dr[] = {{0, 1, 0}, {0, 1, 0.25}, {0, 1, 0.1}, {0, 0.3, 0.1}, {-2, 5, 3}, {1, 1, 0}, {1e10, 2e10, 0}, {0, 1, 2}, {-1e-3, 1e-3, 0}};
		for (auto &x : dr) {
			Var r;
			r.drange(x.l, x.u, x.s, o & 1, o & 2);
			std::set<Val> s;
			if (r.all(s) ? s.empty() : x.l == x.u && o)
				continue;
			add(r, mc::strf("double %c%g..%g%c step %g", o & 1 ? '(' : '[', x.l, x.u, o & 2 ? ')' : ']', x.s).c_str());
		}
	}
	return v;
}

// every shape of tuning variable: each value given is a candidate, at the ends of the generator too, and each candidate is given some time
MC_SUITE(candidates)
{
	static const std::vector<Var> all = shapes();
	Var                           v   = mc::pick(all, "variable");
	int                           how = mc::choose(2, "how");
	mc::shard_point();
	if (how == 0)
		mc::tape_config({0u, 1u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}, mc::tier_bound(2, 3));
	else
		mc::tape_fixed({0xffffffffu, 0u});
	World w;
	w.vars.push_back(v);
	w.vars[0].declare(7, false);
	w.regions.push_back({{}, {0}, {}, false});
	std::set<Val> seen, want;
	for (int i = 0; i < (how ? 200 : 3); i++) {
		w.request(0, {}, i & 1);
		seen.insert(w.open.back().conf[0]);
		now_ns += 10;
		w.kernel(i % 3, (uint32_t)i * 0x01010101u);
		w.end();
	}
	if (how && w.vars[0].all(want))
		for (auto &x : want)
			MC_REQ(seen.count(x), "%s is never given %s", v.name.c_str(), x.c_str());
	mc::nontrivial();
	mc::obs(seen.size());
	w.finish();
}

// all histories of contexts: regions, nesting, kernels, times; at the end the best of what was measured wins
MC_SUITE(contexts)
{
	int n = mc::tier_bound(5, 7);
	std::vector<int> ops, args;
	int              depth = 0;
	for (int i = 0; i < n; i++) {
		int o = mc::choose(depth ? (depth < 3 ? 6 : 2) : 5, "op");
		if (depth == 0)
			o++; // nothing to end
		else if (depth == 3 && o == 1)
			o = 5;
		ops.push_back(o);
		if (o == 0)
			depth--;
		else if (o <= 4)
			depth++;
		args.push_back(o == 0 ? mc::choose(2, "time") : 0);
	}
	mc::shard_point();
	mc::tape_fixed({0xffffffffu, 0x10000000u, 0x90000000u});
	World w;
	w.vars.push_back(ints("size", {1, 2, 4, 8}, kokkos_value_ordinal));
	{
		Var s;
		s.name = "mode";
		s.set_of({v_str("fast"), v_str("slow"), v_str("safe")}, kokkos_value_categorical);
		w.vars.push_back(s);
		Var t;
		t.name = "tile";
		t.irange(1, 5, 0, false, true);
		w.vars.push_back(t);
		Var u;
		u.name = "n";
		u.unbounded(kokkos_value_int64);
		w.vars.push_back(u);
		Var x;
		x.name = "kind";
		x.unbounded(kokkos_value_string);
		w.vars.push_back(x);
	}
	w.vars[0].declare(20, false);
	w.vars[3].declare(3, true);
	w.vars[1].declare(10, false);
	w.vars[2].declare(30, false);
	w.vars[4].declare(25, true);
	w.regions.push_back({{3, 4}, {0, 1}, {}, false}); // with features
	w.regions.push_back({{}, {2, 1}, {}, false});     // without
	std::vector<Val> fa = {v_int(5), v_str("k")}, fb = {v_int(5), v_str("kk")};
	for (int i = 0; i < n; i++) {
		switch (ops[(size_t)i]) {
		case 0:
			now_ns += args[(size_t)i] ? 3 : 40;
			w.end();
			break;
		case 1:
			w.request(0, fa, 0);
			break;
		case 2:
			w.request(0, fb, 1);
			break;
		case 3:
			w.request(1, {}, 0);
			break;
		case 4:
			w.request(1, {}, 1);
			break;
		default:
			w.kernel(i % 3, (uint32_t)(i + 2));
			break;
		}
	}
	while (!w.open.empty())
		w.end();
	bool deep = false;
	if (mc::thorough() || n <= 5) {
		// one region converges while the other still measures
		size_t r = (size_t)(ops[0] & 1);
		w.converge(r, r ? std::vector<std::vector<Val>>{{}} : std::vector<std::vector<Val>>{fa, fb}, 100);
		w.request(r, r ? std::vector<Val>{} : fa, 0);
		w.kernel(0, 9);
		w.request(1 - r, r ? fb : std::vector<Val>{}, 1);
		w.kernel(1, 8);
		w.request(r, r ? std::vector<Val>{} : fb, 0);
		w.kernel(2, 7);
		w.end();
		w.end();
		w.end();
		if (r == 0) {
			w.request(0, {v_int(6), v_str("new")}, 0); // never measured
			w.end();
		}
		deep = true;
	}
	mc::nontrivial();
	mc::obs(w.regions[0].told.size() * 1000 + w.regions[1].told.size());
	(void)deep;
	w.finish();
}

// context variables of every shape, whose values differ as little as possible, are told apart
MC_SUITE(features)
{
	struct K {
		const char      *n;
		int              kind;
		std::vector<Val> vals;
	};
	static const std::vector<K> ks = {
		{"unbounded int", 0, {v_int(0), v_int(1), v_int(-1), v_int(INT64_MIN), v_int(INT64_MAX - 1), v_int(1ll << 32), v_int((1ll << 53) + 1), v_int(1ll << 53)}},
		{"unbounded double", 1, {v_dbl(0), v_dbl(1), v_dbl(0.1), v_dbl(-1e300), v_dbl(1e300), v_dbl(1e-300)}},
		{"unbounded string", 2, {v_str(""), v_str("a"), v_str("b"), v_str(std::string(63, 'y')), v_str(std::string(62, 'y') + "z"), v_str("été")}},
		{"set of ints", 3, {v_int(1), v_int(2), v_int(-5)}},
		{"set of doubles", 3, {v_dbl(1), v_dbl(2.5), v_dbl(-5)}},
		{"set of strings", 3, {v_str("one"), v_str("two"), v_str("")}},
		{"int range", 4, {v_int(-2), v_int(0), v_int(10)}},
		{"double range", 5, {v_dbl(-2), v_dbl(0), v_dbl(10)}},
		{"int range with step", 6, {v_int(-2), v_int(0), v_int(10)}},
	};
	const K &k  = mc::pick(ks, "variable");
	const K &k2 = mc::pick(ks, "second variable");
	Val      a = mc::pick(k.vals, "value"), b = mc::pick(k.vals, "other value");
	int      cat = k.kind == 3 ? mc::choose(4, "category") : 0;
	if (a == b || (cat >= 2 && a[0] == 's'))
		mc::prune();
	mc::shard_point();
	mc::tape_fixed({5u});
	World w;
	auto  mk = [&](const K &q, const char *n) {
                Var v;
                v.name = n;
                switch (q.kind) {
                case 0:
                        v.unbounded(kokkos_value_int64);
                        break;
                case 1:
                        v.unbounded(kokkos_value_double);
                        break;
                case 2:
                        v.unbounded(kokkos_value_string);
                        break;
                case 3:
                        v.set_of(q.vals, (Kokkos_Tools_VariableInfo_StatisticalCategory)(&q == &k ? cat : 0));
                        break;
                case 4:
                        v.irange(-2, 10, 0, false, false);
                        break;
                case 5:
                        v.drange(-2, 10, 0, false, false);
                        break;
                case 6:
                        v.irange(-2, 10, 2, false, false);
                        break;
                }
                return v;
	};
	w.vars.push_back(mk(k, "f"));
	w.vars.push_back(mk(k2, "g"));
	w.vars.push_back(ints("size", {1, 2, 4, 8}, kokkos_value_categorical));
	w.vars[0].declare(1, true);
	w.vars[1].declare(2, true);
	w.vars[2].declare(3, false);
	w.regions.push_back({{0, 1}, {2}, {}, false});
	std::vector<Val> fa = {a, k2.vals[0]}, fb = {b, k2.vals[0]};
	w.request(0, fa, 0);
	now_ns += 10;
	w.end();
	for (int i = 0; i < 3; i++) {
		w.request(0, fb, i & 1);
		now_ns += 30 + (uint64_t)i;
		w.end();
	}
	w.converge(0, {fa, fb}, 100);
	for (int i = 0; i < 2; i++) {
		w.request(0, fa, i);
		w.end();
		w.request(0, fb, i);
		w.end();
	}
	mc::nontrivial();
	mc::obs(w.regions[0].told.size());
	w.finish();
}

// many variables, many regions that share most of them, deep nesting
MC_SUITE(sizes)
{
	static const std::vector<int> nts{1, 3, 8, 17, 40}, nfs{0, 1, 4, 17}, nrs{1, 3, 12}, ds{1, 4, 12, 40};
	int nt = mc::pick(nts, "tuning variables"), nf = mc::pick(nfs, "context variables"), nr = mc::pick(nrs, "regions"), depth = mc::pick(ds, "depth"), ids = mc::choose(3, "identifiers");
	if (nr > nt)
		mc::prune();
	mc::shard_point();
	mc::tape_fixed({0xffffffffu, 0x10000000u, 0x90000000u, 0x50000000u, 0xc0000000u});
	World w;
	w.ids = ids;
	for (int i = 0; i < nt; i++) {
		Var v;
		if (i % 3 == 0)
			v = ints("", {10 * i + 1, 10 * i + 2, 10 * i + 3}, kokkos_value_ordinal);
		else if (i % 3 == 1)
			v.irange(10 * i, 10 * i + 4, 0, false, true);
		else
			v.set_of({v_str(mc::strf("a%d", i)), v_str(mc::strf("b%d", i))}, kokkos_value_categorical);
		v.name = mc::strf("t%d", i);
		w.vars.push_back(v);
		w.vars.back().declare((size_t)(ids == 2 ? 1000 - i : 3 * i), false);
	}
	for (int i = 0; i < nf; i++) {
		Var v;
		v.unbounded(i % 2 ? kokkos_value_string : kokkos_value_int64);
		v.name = mc::strf("f%d", i);
		w.vars.push_back(v);
		w.vars.back().declare((size_t)(ids == 2 ? 500 - i : 3 * i + 1), true);
	}
	auto fv = [&](int k) { // only one of the values depends on k
		std::vector<Val> r;
		for (int i = 0; i < nf; i++)
			r.push_back(i % 2 ? v_str(mc::strf("%d", i == nf - 1 ? k : i)) : v_int(i == nf - 1 ? k : i));
		return r;
	};
	// region r has all tuning variables but one, in an order of its own
	for (int r = 0; r < nr; r++) {
		Region g;
		for (int i = 0; i < nf; i++)
			g.in.push_back((size_t)(nt + i));
		for (int i = 0; i < nt; i++) {
			int j = (i + r) % nt;
			if (r == 0 || nt == 1 || j != r - 1)
				g.out.push_back((size_t)j);
		}
		w.regions.push_back(g);
	}
	for (int round = 0; round < 2; round++) {
		for (int d = 0; d < depth; d++) {
			w.request((size_t)((d + round) % nr), fv(d % 2), d & 1);
			now_ns += 3;
			if (d % 4 == 0)
				w.kernel(d % 3, (uint32_t)d);
		}
		while (!w.open.empty()) {
			now_ns += 5 + w.open.size() % 3;
			w.end();
		}
	}
	// the first and last regions converge; the others do not
	for (int r = 0; r < nr; r += nr > 1 ? nr - 1 : 1)
		w.converge((size_t)r, {fv(0), fv(1)}, 1);
	for (int d = 0; d < depth; d++) {
		w.request((size_t)(d < depth / 2 ? (d & 1 ? nr - 1 : 0) : d % nr), fv(d % 3 == 1), d & 1);
		w.kernel(d % 3, (uint32_t)d);
	}
	while (!w.open.empty()) {
		w.kernel(0, 1);
		w.end();
	}
	mc::nontrivial();
	mc::obs(w.regions[0].told.size() * 1000 + w.regions.back().told.size());
	w.finish();
}

// times: any start and length
MC_SUITE(times)
{
	static const std::vector<uint64_t> starts = {0, 1, 999999999ull, 1000000000ull, 1700000000123456789ull}, lens = {0, 1, 2, 999999998ull, 999999999ull, 1000000000ull, 1000000001ull, 5000000000ull, 3600000000000ull};
	uint64_t                           s = mc::pick(starts, "start"), a = mc::pick(lens, "first"), b = mc::pick(lens, "second"), c = mc::pick(lens, "third");
	mc::shard_point();
	mc::tape_fixed({0u, 0x50000000u, 0xf0000000u});
	World w;
	now_ns = s;
	w.vars.push_back(ints("size", {1, 2, 4, 8}, kokkos_value_ratio));
	w.vars[0].declare(0, false);
	w.regions.push_back({{}, {0}, {}, false});
	for (auto l : {a, b, c}) {
		w.request(0, {}, 0);
		now_ns += l;
		w.end();
		now_ns += 17;
	}
	w.converge(0, {{}}, 4000000000000ull);
	w.request(0, {}, 0);
	w.end();
	mc::nontrivial();
	mc::obs(a * 31 + b * 7 + c);
	w.finish();
}
