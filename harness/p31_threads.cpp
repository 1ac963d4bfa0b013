// Threads working on objects of their own: a call of one, interrupted anywhere by calls of another.
#include "calls.hpp"
#include "threads.hpp"
extern "C" void __sanitizer_cov_trace_pc(void) { thr::point(); }

// the outcome of a call: what it returned, gave, and left behind
static std::string outcome(Fix &f, Ctx &c, ccs_result_t e)
{
	std::map<void *, int> id;
	std::string           o = strf("returned %d\n", (int)e) + f.text(true, nullptr, &id) + c.text(id);
	for (auto &m : c.made)
		for (size_t i = 0; i < m.second; i++)
			if (m.first[i]) {
				Describe d;
				d.rngs = true;
				d.user = ud_text;
				d.obj(m.first[i]);
				o += d.out;
			}
	return o;
}
struct Doing {
	Fix          f;
	Ctx          c;
	const Call  &k;
	ccs_result_t e = CCS_RESULT_SUCCESS;
	Doing(const Call &k_, int prep) : c(f, 0), k(k_)
	{
		if (k.prep)
			k.prep(f, prep);
	}
	void go()
	{
		e = thr::call([&] { return k.run(f, c); });
	}
	std::string done()
	{
		std::string o = outcome(f, c, e);
		if (e == CCS_RESULT_SUCCESS)
			c.release();
		return o;
	}
};
struct Alone {
	std::string out;
	long        points;
};
static const Alone &alone(int i, int prep)
{
	static std::map<std::pair<int, int>, Alone> seen;
	auto key = std::make_pair(i, prep);
	if (!seen.count(key)) {
		Doing                              d(book()[(size_t)i], prep);
		std::vector<std::function<void()>> j{[&] { d.go(); }};
		thr::run(j, nullptr);
		long        p = thr::S().points;
		std::string o = d.done();
		seen[key]     = {o, p};
	}
	return seen[key];
}
static void pair_of(int i, int pi, int j, int pj)
{
	const Alone &a = alone(i, pi), &b = alone(j, pj);
	mc::shard_point();
	long  at = mc::choose((int)a.points, "interrupted at");
	Doing x(book()[(size_t)i], pi), y(book()[(size_t)j], pj);
	long  seen = 0;
	std::vector<std::function<void()>> jobs{[&] { x.go(); }, [&] { y.go(); }};
	mc::step();
	thr::run(jobs, [&] { return seen++ == at; });
	mc::nontrivial();
	std::string ox = x.done(), oy = y.done();
	if (ox != a.out)
		mc::fail("%s, interrupted by %s in another thread on other objects, differs: %s", x.k.name, y.k.name, difference(a.out, ox).c_str());
	if (oy != b.out)
		mc::fail("%s, run while %s was under way in another thread on other objects, differs: %s", y.k.name, x.k.name, difference(b.out, oy).c_str());
	mc::obs((uint64_t)i);
}
// the same call in both
MC_SUITE(same)
{
	int i = mc::choose((int)book().size(), "call");
	int p = mc::choose(book()[(size_t)i].preps, "preparation");
	if (alone(i, p).points)
		pair_of(i, p, i, p);
}
// another call, one for each part of the library
MC_SUITE(other)
{
	static const char *names[] = {"ccs_create_categorical_parameter", "ccs_parameter_samples oversampling", "ccs_parameter_validate_values string", "ccs_distribution_samples mixture", "ccs_distribution_parameters_samples",
		"ccs_expression_eval", "ccs_expression_check_context", "ccs_configuration_space_add_parameter", "ccs_configuration_space_set_condition", "ccs_configuration_space_samples", "ccs_create_configuration",
		"ccs_configuration_hash", "ccs_binding_cmp", "ccs_features_space_check_features", "ccs_evaluation_compare", "ccs_tree_samples", "ccs_tree_space_get_values_at_position dynamic", "ccs_tuner_tell", "ccs_features_tuner_ask",
		"ccs_map_set object", "ccs_object_serialize memory", "ccs_object_deserialize memory"};
	if (!mc::thorough())
		return;
	int i = mc::choose((int)book().size(), "call"), w = mc::choose(sizeof names / sizeof *names, "other call");
	int j = -1;
	for (size_t q = 0; q < book().size(); q++)
		if (!strcmp(book()[q].name, names[w]))
			j = (int)q;
	if (j < 0)
		mc::fail("no call %s", names[w]);
	if (i != j && alone(i, 0).points)
		pair_of(i, 0, j, 0);
}
