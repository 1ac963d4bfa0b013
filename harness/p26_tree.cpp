// P26: trees keep a consistent shape, parentage and weights under any operation sequence.
#include "tree_ref.hpp"
using namespace mc;

struct Op { int kind, a, b, c; double x; };
static void apply(TreeWorld &w, const Op &o)
{
	if (!w.alive(o.a) || (o.kind == 0 && !w.alive(o.c)))
		return;
	switch (o.kind) {
	case 0: w.set_child(o.a, o.b, o.c); break;
	case 1: w.set_weight(o.a, o.x); break;
	case 2: w.set_bias(o.a, o.x); break;
	case 3:
		if (w.held[(size_t)o.a])
			w.release(o.a);
		break;
	}
}
static void run(const std::vector<int> &arity, const std::vector<Op> &all, int len, bool sampling)
{
	std::vector<int> seq;
	for (int i = 0; i < len; i++)
		seq.push_back(choose((int)all.size(), "operation"));
	shard_point();
	nontrivial();
	TreeWorld w;
	static const char *names[] = {"alpha", "", "a longer node value than that", "d", "e", "f"};
	for (size_t i = 0; i < arity.size(); i++)
		w.add(arity[i], i % 3 == 0 ? ccs_string(names[i]) : i % 3 == 1 ? ccs_int((int)i) : ccs_float(i / 2.0));
	for (size_t i = 0; i < seq.size(); i++) {
		apply(w, all[(size_t)seq[i]]);
		w.check(sampling || i + 1 == seq.size(), i + 1 == seq.size());
	}
	for (size_t n = 0; n < w.m.size(); n++)
		if (w.alive((int)n))
			obs(n * 64 + (uint64_t)(w.m[n].parent + 1) * 8 + (uint64_t)w.m[n].index), obs((uint64_t)(t_sum(w.m, (int)n) * 1024));
}
// attachments only: every pair, every index, in and out of range
static std::vector<Op> attach(const std::vector<int> &arity, bool out)
{
	std::vector<Op> r;
	int n = (int)arity.size();
	for (int p = 0; p < n; p++)
		for (int i = 0; i < arity[(size_t)p] + (out ? 1 : 0); i++)
			for (int c = 0; c < n; c++)
				r.push_back({0, p, i, c, 0});
	return r;
}
static void weights(std::vector<Op> &r, int n, const std::vector<double> &ws, const std::vector<double> &bs)
{
	for (int i = 0; i < n; i++) {
		for (double x : ws)
			r.push_back({1, i, 0, 0, x});
		for (double x : bs)
			r.push_back({2, i, 0, 0, x});
	}
}
static void releases(std::vector<Op> &r, int n)
{
	for (int i = 0; i < n; i++)
		r.push_back({3, i, 0, 0, 0});
}
MC_SUITE(shape)
{
	std::vector<int> ar = {2, 1, 1, 0};
	auto             all = attach(ar, false);
	run(ar, all, tier_bound(4, 5), false);
}
MC_SUITE(out_of_range)
{
	std::vector<int> ar = {2, 1, 0};
	run(ar, attach(ar, true), tier_bound(3, 4), false);
}
MC_SUITE(lifetime)
{
	std::vector<int> ar = {2, 1, 1};
	auto             all = attach(ar, false);
	releases(all, 3);
	run(ar, all, tier_bound(4, 5), false);
}
MC_SUITE(everything)
{
	std::vector<int> ar = {2, 1, 0};
	auto             all = attach(ar, false);
	weights(all, 3, {0, 2}, {0, 0.5});
	releases(all, 3);
	run(ar, all, tier_bound(3, 4), true);
}
// weight and bias changes at every depth of a built tree
MC_SUITE(reweighting)
{
	int shape = choose(3, "shape"), len = tier_bound(3, 4);
	std::vector<Op> all;
	int magnitude = choose(3, "magnitude of the weights");
	weights(all, 4, magnitude == 0 ? std::vector<double>{0, 1, 2.5} : magnitude == 1 ? std::vector<double>{0, 1, 1 + 0x1p-45} : std::vector<double>{0, 0x1p40, 0x1p-9}, magnitude == 1 ? std::vector<double>{0, 0x1p-45, 1} : std::vector<double>{0, 2, 0.5});
	std::vector<int> seq;
	for (int i = 0; i < len; i++)
		seq.push_back(choose((int)all.size()));
	shard_point();
	nontrivial();
	TreeWorld w;
	static const int ar[3][4] = {{1, 1, 1, 0}, {3, 0, 0, 0}, {2, 2, 0, 0}};
	static const int pa[3][4] = {{-1, 0, 1, 2}, {-1, 0, 0, 0}, {-1, 0, 1, 1}};
	static const int ix[3][4] = {{0, 0, 0, 0}, {0, 2, 0, 1}, {0, 1, 0, 1}};
	for (int i = 0; i < 4; i++)
		w.add(ar[shape][i], ccs_int(i));
	bool bottom_up = flip("bottom up");
	for (int k = 1; k < 4; k++) {
		int i = bottom_up ? 4 - k : k;
		w.set_child(pa[shape][i], ix[shape][i], i);
	}
	for (int s : seq) {
		apply(w, all[(size_t)s]);
		w.check(true, false);
	}
}
MC_SUITE(refused_values)
{
	static const double bad[] = {-1, -0.5, -INFINITY, NAN, INFINITY};
	int k = choose(5), bias = choose(2), node = choose(2);
	shard_point();
	nontrivial();
	TreeWorld w;
	w.add(1, ccs_int(0));
	w.add(1, ccs_int(1));
	w.set_child(0, 0, 1);
	w.set_weight(1, 3);
	w.set_bias(1, 0.5);
	if (bias)
		w.set_bias(node, bad[k]);
	else
		w.set_weight(node, bad[k]);
	w.check();
	w.set_weight(node, 4);
	w.check();
}
// values of every kind, and refused creations
MC_SUITE(values)
{
	static ccs_object_t some = nullptr;
	std::vector<ccs_datum_t> vs = {ccs_none, ccs_inactive, ccs_bool(CCS_TRUE), ccs_int(-3), ccs_float(0.5), ccs_string(""), ccs_string("text"), tstr("transient text"), ccs_object(some), ccs_string(nullptr)};
	int k = choose((int)vs.size()), arity = choose(3);
	shard_point();
	nontrivial();
	ccs_datum_t  v  = vs[(size_t)k];
	Par          p;
	if (v.type == CCS_DATA_TYPE_OBJECT) {
		p = pint("p", 0, 1, 0);
		v = ccs_object((ccs_object_t)p.get());
	}
	char buf[32] = "volatile";
	if (k == 7)
		v = ccs_string(buf), v.flags = CCS_DATUM_FLAG_TRANSIENT;
	Tre          t;
	ccs_result_t rc = ccs_create_tree((size_t)arity, v, t.ret());
	step("create -> %d", (int)rc);
	bool ok = v.type != CCS_DATA_TYPE_OBJECT && v.type != CCS_DATA_TYPE_INACTIVE && !(v.type == CCS_DATA_TYPE_STRING && !v.value.s);
	MC_REQ((rc == CCS_RESULT_SUCCESS) == ok && (ok || !t.get()), "creating a node of value %s returned %d", dstr(v).c_str(), (int)rc);
	if (!ok)
		return;
	if (k == 7)
		strcpy(buf, "changed!");
	ccs_datum_t g;
	MC_OK(ccs_tree_get_value(t, &g));
	MC_CHECK(deq(g, k == 7 ? ccs_string("volatile") : v) && g.flags == CCS_DATUM_FLAG_DEFAULT);
	ccs_datum_t l[1];
	MC_OK(ccs_tree_get_values(t, 1, l, nullptr));
	MC_CHECK(deq(l[0], g));
}
static const std::vector<int> SIZES = {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
// a wide node: children attached in some order, one left out, each light or heavy, some with a child of their own
MC_SUITE(wide)
{
	int n = pick(SIZES, "arity"), order = choose(3, "order"), hole = choose(4, "left out"), heavy = choose(4, "heavy");
	bool before = flip("weights set before attaching");
	shard_point();
	nontrivial();
	TreeWorld w;
	w.add(n, ccs_string("root"));
	int none = hole == 0 ? -1 : hole == 1 ? 0 : hole == 2 ? n / 2 : n - 1;
	int much = heavy == 0 ? -1 : heavy == 1 ? 0 : heavy == 2 ? n / 2 : n - 1;
	std::vector<int> ids((size_t)n, -1);
	for (int k = 0; k < n; k++) {
		int i = order == 0 ? k : order == 1 ? n - 1 - k : k % 2 ? n - 1 - k / 2 : k / 2;
		if (i == none)
			continue;
		int c = ids[(size_t)i] = w.add(i % 8 == 3 ? 1 : 0, ccs_int(i));
		if (!before)
			w.set_child(0, i, c);
		w.set_weight(c, i == much ? 1024 : i % 2 ? 0 : 0.5);
		w.set_bias(c, i == much ? 2 : i % 3 ? 1 : 0.25);
		if (i % 8 == 3) {
			int g = w.add(0, ccs_float(i));
			w.set_weight(g, 4);
			w.set_child(c, 0, g);
		}
		if (before)
			w.set_child(0, i, c);
		if (i == 0)
			w.set_child(0, n, c);
	}
	w.check(n <= 33, false);
	w.check_sampling(0);
	for (int i = 0; i < n; i += n - 1)
		if (ids[(size_t)i] >= 0) {
			w.set_weight(ids[(size_t)i], 3);
			w.check_sampling(0);
			w.set_bias(ids[(size_t)i], 0);
			w.check_sampling(0);
		}
	for (int i = 0; i <= n; i++) {
		w.check_at(0, {(size_t)i});
		if (i < n && ids[(size_t)i] >= 0)
			w.check_at(0, {(size_t)i, 0});
	}
	for (int i = 0; i < n; i += 2)
		if (ids[(size_t)i] >= 0)
			w.release(ids[(size_t)i]);
	w.check(false, false);
	w.release(0);
	w.check(n <= 33, false);
	for (int i = 0; i < n; i++)
		obs((uint64_t)(ids[(size_t)i] + 1));
}
// a long branch: built from either end, changed at its ends and in the middle
MC_SUITE(deep)
{
	int n = pick(SIZES, "depth"), order = choose(3, "order"), where = choose(3, "where"), what = choose(4, "change");
	shard_point();
	nontrivial();
	TreeWorld w;
	for (int i = 0; i <= n; i++) {
		w.add(i == n ? 0 : 1 + i % 2, i % 3 ? ccs_int(i) : ccs_string("a node value"));
		w.set_weight(i, i % 4 ? 0.5 : 0);
	}
	for (int k = 0; k < n; k++) {
		int i = order == 0 ? k : order == 1 ? n - 1 - k : k % 2 ? n - 1 - k / 2 : k / 2;
		w.set_child(i, i % 2, i + 1);
	}
	int at = where == 0 ? n : where == 1 ? n / 2 : 1;
	if (what == 0)
		w.set_weight(at, 64);
	else if (what == 1)
		w.set_bias(at, 0);
	else if (what == 2)
		w.set_bias(at, 8);
	else
		w.set_child(n, 0, 0), w.set_child(at, 0, 0), w.set_child(n - 1, (n - 1) % 2, 1);
	for (int i = 0; i <= n; i++) {
		w.check_node(i, i < 3 || i + 3 > n || n <= 33, false);
		if (i > 2 && n > 33 && i + 3 < n)
			i += n / 16;
	}
	std::vector<size_t> q;
	for (int i = 0; i <= n; i++) {
		w.check_at(0, q);
		auto z = q;
		z.push_back((size_t)(1 - i % 2));
		if (i == n || i + 2 > n || n <= 33)
			w.check_at(0, z);
		q.push_back((size_t)(i % 2));
	}
	w.check_at(0, q);
	w.release(at);
	w.check_node(0, true, false);
	if (where) {
		for (int i = 1; i < at; i++)
			w.release(i);
		w.check(n <= 33, false);
	}
	w.release(0);
	for (int i = 1; i <= n; i++)
		if (w.alive(i) && (i < 4 || i + 4 > n || i == at || i == at + 1))
			w.check_node(i, true, false);
	obs((uint64_t)w.alive(at));
}
