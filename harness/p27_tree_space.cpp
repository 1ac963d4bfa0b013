// P27: positions, values, nodes and samples of static and lazily grown tree spaces.
#include "tree_ref.hpp"
using namespace mc;

static const double PAIR[3][2] = {{1, 1}, {0, 1}, {2, 0.5}};
// a tree chosen node by node; returns the index of the node
struct Spec { std::vector<TNode> t; };
static int gen(Spec &s, int depth, int maxdepth, int maxar, bool holes)
{
	int id = (int)s.t.size();
	s.t.push_back(TNode());
	int pr = choose(depth == maxdepth ? 2 : 3, "weights");
	s.t[(size_t)id].w     = PAIR[pr][0];
	s.t[(size_t)id].b     = PAIR[pr][1];
	s.t[(size_t)id].value = ccs_int(id);
	int ar                = depth == maxdepth ? 0 : choose(maxar + 1, "arity");
	s.t[(size_t)id].arity = ar;
	for (int i = 0; i < ar; i++) {
		int c = holes && flip("unset") ? -1 : gen(s, depth + 1, maxdepth, maxar, holes);
		s.t[(size_t)id].child.push_back(c);
		if (c >= 0)
			s.t[(size_t)c].parent = id, s.t[(size_t)c].index = i;
	}
	return id;
}
static void realize(TreeWorld &w, const Spec &s)
{
	for (auto &n : s.t) {
		int i = w.add(n.arity, n.value);
		w.set_weight(i, n.w);
		w.set_bias(i, n.b);
	}
	for (size_t i = 1; i < s.t.size(); i++)
		w.set_child(s.t[i].parent, s.t[i].index, (int)i);
}
// the walk of one sample: draws are consumed from u[k...]
static std::vector<size_t> pos_of(ccs_tree_configuration_t c)
{
	size_t n = 99, m = 99;
	MC_OK(ccs_tree_configuration_get_position(c, 0, nullptr, &n));
	MC_CHECK(n <= 1000);
	std::vector<size_t> buf(n + 6, 4242);
	MC_OK(ccs_tree_configuration_get_position(c, n + 6, buf.data(), &m));
	MC_CHECK(m == n);
	for (size_t i = n; i < n + 6; i++)
		MC_REQ(buf[i] == 0, "extra entries of a position array are not cleared");
	for (size_t l = 1; l < n && l < 12; l++) {
		std::vector<size_t> small(l);
		MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_tree_configuration_get_position(c, l, small.data(), &m));
	}
	buf.resize(n);
	return buf;
}
static void check_walk(const std::vector<TNode> &t, const std::vector<size_t> &p, const std::vector<uint32_t> &draws, size_t &k)
{
	int n = 0;
	for (size_t i = 0;; i++) {
		MC_REQ(n >= 0, "the sampled position continues below an unset child");
		MC_REQ(k < draws.size(), "more choices than draws");
		size_t c = i < p.size() ? p[i] : (size_t)t[(size_t)n].arity;
		MC_REQ(c <= (size_t)t[(size_t)n].arity, "sampled index %zu for arity %d", c, t[(size_t)n].arity);
		MC_REQ(t_share(t_choices(t, n), c, tape_unit(draws[k])), "draw %.9g chooses entry %zu of a node of arity %d", tape_unit(draws[k]), c, t[(size_t)n].arity);
		k++;
		if (i >= p.size())
			return;
		n = t[(size_t)n].child[c];
		if (n < 0) {
			MC_REQ(i + 1 == p.size(), "the sampled position continues below an unset child");
			return;
		}
	}
}
static const std::vector<uint32_t> GRID = {0, 0x55555556u, 0x80000000u, 0xFFFFFFFFu};
static void sample_static(int maxdepth, int maxar, bool holes, int draws, int nsamples)
{
	Spec s;
	gen(s, 0, maxdepth, maxar, holes);
	bool bulk = flip("bulk");
	tape_config(GRID, draws);
	shard_point();
	nontrivial();
	TreeWorld w;
	realize(w, s);
	TSp ts;
	MC_OK(ccs_create_static_tree_space("ts", w.h[0], ts.ret()));
	Rng g(tape_rng());
	MC_OK(ccs_tree_space_set_rng(ts, g));
	std::vector<TCf> c((size_t)nsamples);
	if (bulk) {
		std::vector<ccs_tree_configuration_t> r((size_t)nsamples + 1, nullptr);
		ccs_result_t rc = ccs_tree_space_samples(ts, (size_t)nsamples, r.data());
		step("samples -> %d", (int)rc);
		MC_CHECK(r[(size_t)nsamples] == nullptr);
		MC_REQ((rc == CCS_RESULT_SUCCESS) == (t_sum(s.t, 0) > 0), "sampling returned %d", (int)rc);
		if (rc)
			return;
		for (int i = 0; i < nsamples; i++)
			c[(size_t)i] = TCf(r[(size_t)i]);
	} else
		for (int i = 0; i < nsamples; i++) {
			ccs_tree_configuration_t r  = nullptr;
			ccs_result_t             rc = ccs_tree_space_sample(ts, &r);
			step("sample -> %d", (int)rc);
			MC_REQ((rc == CCS_RESULT_SUCCESS) == (t_sum(s.t, 0) > 0), "sampling returned %d", (int)rc);
			if (rc) {
				MC_CHECK(r == nullptr);
				return;
			}
			c[(size_t)i] = TCf(r);
		}
	size_t k = 0;
	for (auto &x : c) {
		auto p = pos_of(x);
		check_walk(s.t, p, tape_log(), k);
		ccs_bool_t b = 7;
		MC_OK(ccs_tree_configuration_check(x, &b));
		MC_REQ(b == CCS_TRUE, "a sampled position is judged %d", (int)b);
		for (size_t q : p)
			obs(q);
		obs(77);
	}
	MC_CHECK(k == tape_log().size());
	w.root_refs = 1;
	w.check(false, false); // sampling changes nothing
}
MC_SUITE(samples) { sample_static(2, 2, false, 3, 1); }
MC_SUITE(samples_incomplete) { sample_static(tier_bound(1, 2), 2, true, 3, 2); }
MC_SUITE(samples_deep) { sample_static(tier_bound(3, 4), 1, true, 4, 2); }
MC_SUITE(samples_wide) { sample_static(1, tier_bound(3, 4), false, 2, 2); }

// every position, in every form, against the tree
struct Looker {
	TreeWorld                       &w;
	ccs_tree_space_t                 ts;
	std::function<void(const std::vector<size_t> &)> grow; // reference side of lazy growth
	void look(const std::vector<size_t> &q, int form)
	{
		const size_t *pq = q.empty() ? nullptr : q.data();
		step("look at %zu levels, form %d", q.size(), form);
		TCf c;
		if (form >= 4) {
			MC_OK(ccs_create_tree_configuration(ts, q.size(), pq, c.ret()));
			MC_CHECK(pos_of(c) == q);
			ccs_tree_space_t o = nullptr;
			MC_OK(ccs_tree_configuration_get_tree_space(c, &o));
			MC_CHECK(o == ts && refcount(c) == 1);
		}
		ccs_bool_t     b  = 7;
		ccs_tree_t     r  = (ccs_tree_t)8;
		std::vector<ccs_datum_t> vvv(q.size() + 8, ccs_int(4242));
		ccs_datum_t   *vv  = vvv.data();
		size_t         num = 99;
		ccs_result_t   rc = CCS_RESULT_SUCCESS;
		switch (form) {
		case 0: MC_OK(ccs_tree_space_check_position(ts, q.size(), pq, &b)); break;
		case 1: rc = ccs_tree_space_get_node_at_position(ts, q.size(), pq, &r); break;
		case 2: rc = ccs_tree_space_get_values_at_position(ts, q.size(), pq, q.size() + 1, vv); break;
		case 3: rc = ccs_tree_space_get_values_at_position(ts, q.size(), pq, q.size() + 2, vv); break;
		case 4: MC_OK(ccs_tree_configuration_check(c, &b)); break;
		case 5: MC_OK(ccs_tree_space_check_configuration(ts, c, &b)); break;
		case 6: rc = ccs_tree_configuration_get_node(c, &r); break;
		case 7: rc = ccs_tree_configuration_get_values(c, q.size() + 2, vv, &num); break;
		}
		grow(q);
		int want = t_at(w.m, 0, q);
		if (form == 0 || form == 4 || form == 5)
			MC_REQ(b == (t_reach(w.m, 0, q) ? CCS_TRUE : CCS_FALSE), "position judged %d", (int)b);
		else
			MC_REQ((rc == CCS_RESULT_SUCCESS) == (want >= 0), "position lookup (form %d) returned %d", form, (int)rc);
		if (form == 1 || form == 6)
			MC_REQ(want >= 0 ? w.find(r) == want : r == (ccs_tree_t)8, "another node at a position");
		if (form == 2 || form == 3 || form == 7) {
			size_t len = form == 2 ? q.size() + 1 : q.size() + 2;
			if (form == 7 && !rc)
				MC_CHECK(num == q.size() + 1);
			for (size_t i = 0; i < vvv.size(); i++) {
				if (i >= len)
					MC_REQ(deq(vv[i], ccs_int(4242)), "written past the array");
				else if (!rc) {
					int k = i <= q.size() ? t_at(w.m, 0, std::vector<size_t>(q.begin(), q.begin() + (long)i)) : -1;
					MC_REQ(deq(vv[i], k >= 0 ? w.m[(size_t)k].value : ccs_none), "value %zu along a position is %s", i, dstr(vv[i]).c_str());
				}
			}
			ccs_datum_t v1 = ccs_int(4242);
			if (q.size() >= 1) {
				MC_ERR(ccs_tree_space_get_values_at_position(ts, q.size(), pq, 1, &v1));
				MC_CHECK(deq(v1, ccs_int(4242)));
			}
		}
	}
};
MC_SUITE(positions)
{
	Spec s;
	gen(s, 0, 2, 2, true);
	shard_point();
	nontrivial();
	TreeWorld w;
	realize(w, s);
	TSp ts;
	MC_OK(ccs_create_static_tree_space("space", w.h[0], ts.ret()));
	MC_CHECK(refcount(w.h[0]) == 2);
	ccs_tree_t            t  = nullptr;
	ccs_tree_space_type_t ty = CCS_TREE_SPACE_TYPE_DYNAMIC;
	const char           *nm = nullptr;
	MC_OK(ccs_tree_space_get_tree(ts, &t));
	MC_OK(ccs_tree_space_get_type(ts, &ty));
	MC_OK(ccs_tree_space_get_name(ts, &nm));
	MC_CHECK(t == w.h[0] && ty == CCS_TREE_SPACE_TYPE_STATIC && !strcmp(nm, "space"));
	Looker l{w, ts, [](const std::vector<size_t> &) {}};
	for (auto &q : t_positions(3, 2))
		for (int f = 0; f < 8; f++)
			l.look(q, f);
	ts.reset();
	w.check(false, false);
}

// ---- lazily grown spaces -------------------------------------------------
static Spec             *G;       // the tree the callback grows towards
static TreeWorld        *W;       // what exists now; node i of W is G node map[i]
static std::vector<int>  MAPPED;
static ccs_tree_space_t  TS;
static int               CALLS, DELS, FAIL_AT, FAIL_KIND;
static ccs_result_t grow_cb(ccs_tree_space_t ts, ccs_tree_t parent, size_t index, ccs_tree_t *child)
{
	CALLS++;
	step("callback for child %zu", index);
	MC_REQ(ts == TS, "callback called with another space");
	int p = W->find(parent);
	MC_REQ(p >= 0 && index < (size_t)W->m[(size_t)p].arity, "callback called for a node that does not exist");
	MC_REQ(W->m[(size_t)p].child[index] < 0, "callback called again for a child that was created");
	void *data = nullptr;
	MC_OK(ccs_dynamic_tree_space_get_tree_space_data(ts, &data));
	MC_REQ(data == (void *)&CALLS, "the space's own data is lost");
	if (FAIL_AT && CALLS == FAIL_AT) {
		if (FAIL_KIND == 0)
			return CCS_RESULT_ERROR_UNSUPPORTED_OPERATION;
		if (FAIL_KIND == 1) { // a child that cannot be attached
			*child = nullptr;
			return CCS_RESULT_SUCCESS;
		}
		ccs_retain_object(parent);
		*child = parent;
		return CCS_RESULT_SUCCESS;
	}
	int gid = G->t[(size_t)MAPPED[(size_t)p]].child[index];
	MC_REQ(gid >= 0, "callback called beyond the tree");
	const TNode &n = G->t[(size_t)gid];
	MC_OK(ccs_create_tree((size_t)n.arity, n.value, child));
	MC_OK(ccs_tree_set_weight(*child, n.w));
	MC_OK(ccs_tree_set_bias(*child, n.b));
	TNode x = n;
	x.child.assign((size_t)n.arity, -1);
	x.parent = p;
	x.index  = (int)index;
	int id   = (int)W->m.size();
	W->m.push_back(x), W->h.push_back(*child), W->held.push_back(0);
	W->m[(size_t)p].child[index] = id;
	MAPPED.push_back(gid);
	return CCS_RESULT_SUCCESS;
}
static ccs_result_t del_cb(ccs_tree_space_t) { DELS++; return CCS_RESULT_SUCCESS; }
struct Lazy {
	Spec      g;
	TreeWorld w;
	TSp       ts;
	void begin()
	{
		G = &g, W = &w;
		MAPPED = {0};
		CALLS = DELS = FAIL_AT = FAIL_KIND = 0;
		w.add(g.t[0].arity, g.t[0].value);
		w.set_weight(0, g.t[0].w);
		w.set_bias(0, g.t[0].b);
		ccs_dynamic_tree_space_vector_t v = {del_cb, grow_cb, nullptr, nullptr};
		MC_OK(ccs_create_dynamic_tree_space("lazy", w.h[0], &v, &CALLS, ts.ret()));
		TS = ts;
		w.root_refs = 1;
	}
	// what a lookup of q must have created
	void expect(const std::vector<size_t> &q)
	{
		int n = 0;
		for (size_t x : q) {
			if (x >= (size_t)w.m[(size_t)n].arity)
				return;
			int c = w.m[(size_t)n].child[x];
			MC_REQ(c >= 0, "a looked up position was not created");
			n = c;
		}
	}
	void end()
	{
		w.check(true, false);
		int made = (int)w.m.size() - 1;
		MC_REQ(CALLS == made || FAIL_AT, "%d callbacks for %d nodes", CALLS, made);
		ts.reset();
		MC_REQ(DELS == 1, "the space was deleted %d times", DELS);
		TS = nullptr;
	}
};
static void fixed_spec(Spec &s, int which)
{
	// root of arity 2; child 0 of arity 2 with leaves; child 1 a leaf (or arity 1 chain)
	auto add = [&](int parent, int index, int arity, double w, double b) {
		TNode n;
		n.arity = arity;
		n.child.assign((size_t)arity, -1);
		n.w = w, n.b = b;
		n.value  = ccs_int((int)s.t.size());
		n.parent = parent, n.index = index;
		s.t.push_back(n);
		int id = (int)s.t.size() - 1;
		if (parent >= 0)
			s.t[(size_t)parent].child[(size_t)index] = id;
		return id;
	};
	int r = add(-1, 0, 2, 1, 1);
	int a = add(r, 0, 2, which == 1 ? 0 : 1, which == 2 ? 0 : 1);
	add(a, 0, 0, 1, 1);
	add(a, 1, 0, which == 0 ? 3 : 0, 0.5);
	int b = add(r, 1, which == 2 ? 1 : 0, 2, 0.5);
	if (which == 2)
		add(b, 0, 0, 0, 1);
}
// every sequence of lookups and samples
MC_SUITE(lazy)
{
	int which = choose(3, "tree"), len = tier_bound(3, 4);
	auto ps = std::vector<std::vector<size_t>>{{}, {0}, {1}, {2}, {0, 0}, {0, 1}, {1, 0}, {0, 2}, {0, 1, 0}, {2, 0}};
	struct Op { int pos, form; };
	std::vector<Op> ops;
	for (int i = 0; i < len; i++) {
		Op o;
		o.pos  = choose((int)ps.size() + 1, "position or sample");
		o.form = o.pos < (int)ps.size() ? choose(4, "form") : 0;
		ops.push_back(o);
	}
	int rot = 0;
	shard_point();
	nontrivial();
	Lazy z;
	fixed_spec(z.g, which);
	z.begin();
	Looker l{z.w, z.ts, [&](const std::vector<size_t> &q) { z.expect(q); }};
	static const int forms[2][4] = {{0, 1, 2, 3}, {4, 6, 7, 5}};
	for (auto &o : ops) {
		if (o.pos < (int)ps.size()) {
			l.look(ps[(size_t)o.pos], forms[rot++ % 2][o.form]);
			continue;
		}
		for (uint32_t d : {0u, 0x70000000u, 0xC0000000u}) {
			tape_fixed({d, 0x60000000u, 0x20000000u, 0});
			Rng g(tape_rng());
			MC_OK(ccs_tree_space_set_rng(z.ts, g));
			std::vector<TNode> before = z.w.m;
			TCf c;
			MC_OK(ccs_tree_space_sample(z.ts, c.ret()));
			size_t k = 0;
			auto   p = pos_of(c);
			check_walk(before, p, tape_log(), k);
			ccs_bool_t b = 7;
			MC_OK(ccs_tree_configuration_check(c, &b));
			MC_REQ(b == CCS_TRUE, "a sampled position is not valid");
			z.expect(p);
		}
	}
	obs((uint64_t)CALLS);
	z.end();
}
// a growth callback that fails at any call: the lookup fails, nothing is recorded, and looking again works
MC_SUITE(lazy_failures)
{
	int which = choose(3), form = choose(8), at = 1 + choose(2), kind = choose(3), form2 = choose(8);
	auto ps = std::vector<std::vector<size_t>>{{0}, {0, 0}, {0, 1}, {1}};
	auto q  = ps[(size_t)choose(4)];
	shard_point();
	nontrivial();
	Lazy z;
	fixed_spec(z.g, which);
	z.begin();
	FAIL_AT = at, FAIL_KIND = kind;
	const size_t *pq = q.data();
	ccs_bool_t    b  = 7;
	ccs_tree_t    r  = (ccs_tree_t)8;
	ccs_datum_t   vv[12];
	size_t        num = 99;
	ccs_result_t  rc  = CCS_RESULT_SUCCESS;
	TCf           c;
	MC_OK(ccs_create_tree_configuration(z.ts, q.size(), pq, c.ret()));
	switch (form) {
	case 0: rc = ccs_tree_space_check_position(z.ts, q.size(), pq, &b); break;
	case 1: rc = ccs_tree_space_get_node_at_position(z.ts, q.size(), pq, &r); break;
	case 2: rc = ccs_tree_space_get_values_at_position(z.ts, q.size(), pq, q.size() + 1, vv); break;
	case 3: rc = ccs_tree_space_get_values_at_position(z.ts, q.size(), pq, q.size() + 2, vv); break;
	case 4: rc = ccs_tree_configuration_check(c, &b); break;
	case 5: rc = ccs_tree_space_check_configuration(z.ts, c, &b); break;
	case 6: rc = ccs_tree_configuration_get_node(c, &r); break;
	case 7: rc = ccs_tree_configuration_get_values(c, q.size() + 2, vv, &num); break;
	}
	step("lookup -> %d", (int)rc);
	bool failed = at <= (int)q.size();
	MC_REQ((rc != CCS_RESULT_SUCCESS) == failed, "lookup returned %d", (int)rc);
	if (failed) {
		if (kind == 0)
			MC_REQ(rc == CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, "the callback's error became %d", (int)rc);
		MC_REQ(r == (ccs_tree_t)8 && num == 99, "a failed lookup wrote its result");
		MC_REQ((int)z.w.m.size() == at, "a failed callback left a node");
	}
	z.w.check(true, false);
	FAIL_AT = 99;
	Looker l{z.w, z.ts, [&](const std::vector<size_t> &x) { z.expect(x); }};
	l.look(q, form2);
	c.reset();
	z.end();
}
// partly built trees are completed; a subtree of a bigger tree serves as well
MC_SUITE(lazy_prebuilt)
{
	int which = choose(3), pre = choose(3), sub = choose(2), form = choose(8);
	shard_point();
	nontrivial();
	Lazy z;
	fixed_spec(z.g, which);
	z.begin();
	if (pre) { // the user attaches a node
		int   gid = z.g.t[0].child[(size_t)pre - 1];
		TNode n   = z.g.t[(size_t)gid];
		int   id  = z.w.add(n.arity, n.value);
		MAPPED.push_back(gid);
		z.w.set_weight(id, n.w);
		z.w.set_bias(id, n.b);
		z.w.set_child(0, pre - 1, id);
		CALLS++;
	}
	Tre above;
	if (sub) {
		MC_OK(ccs_create_tree(1, ccs_int(5), above.ret()));
		MC_OK(ccs_tree_set_child(above, 0, z.w.h[0]));
	}
	Looker l{z.w, z.ts, [&](const std::vector<size_t> &q) { z.expect(q); }};
	for (auto &q : t_positions(2, 2))
		l.look(q, form);
	above.reset();
	z.end();
}
// ---- wide and deep spaces, many samples -----------------------------------
static const std::vector<int> SIZES = {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
// wide: a root of n leaves and a node of two in the middle; otherwise a branch of n nodes with a side slot each
static void big_spec(Spec &s, int n, bool wide, int stop)
{
	auto add = [&](int parent, int index, int arity, double w, double b) {
		TNode x;
		x.arity = arity;
		x.child.assign((size_t)arity, -1);
		x.w = w, x.b = b;
		x.value  = ccs_int((int)s.t.size() + 1000);
		x.parent = parent, x.index = index;
		s.t.push_back(x);
		int id = (int)s.t.size() - 1;
		if (parent >= 0)
			s.t[(size_t)parent].child[(size_t)index] = id;
		return id;
	};
	if (wide) {
		add(-1, 0, n, 0, 1);
		for (int i = 0; i < n; i++) {
			int c = add(0, i, i == n / 2 ? 2 : 0, stop == 0 ? 1 : i == n / 2 || i == n - 1 ? 1 : 0, i % 2 ? 0.5 : 1);
			if (i == n / 2)
				add(c, 0, 0, 1, 1), add(c, 1, 0, 1, 4);
		}
		return;
	}
	int at = stop == 0 ? -1 : stop == 1 ? n : stop == 2 ? n / 2 : 3, p = -1;
	for (int i = 0; i <= n; i++) {
		p = add(p, (i + 1) % 2, i == n ? 0 : 2, stop == 0 || i == at ? 1 : 0, stop == 0 ? 2 : 1);
		if (i < n) { // the other slot holds a leaf nobody can be sent to
			int c = add(p, i % 2 ? 0 : 1, 0, 0, 0);
			(void)c;
		}
	}
	for (size_t i = 0; i < s.t.size(); i++)
		for (int k = 0; k < s.t[i].arity; k++)
			if (s.t[i].child[(size_t)k] >= 0)
				s.t[(size_t)s.t[i].child[(size_t)k]].index = k;
}
static std::vector<std::vector<size_t>> some_positions(const Spec &s)
{
	std::vector<std::vector<size_t>> ps = {{}};
	size_t                           n  = s.t.size();
	for (size_t i = 0; i < n; i += i < 4 || i + 5 > n ? 1 : n > 40 ? n / 16 : 1) {
		auto p = t_position(s.t, (int)i);
		ps.push_back(p);
		p.push_back((size_t)s.t[i].arity);
		ps.push_back(p);
		p.back() = 0;
		ps.push_back(p);
		p.push_back(0);
		ps.push_back(p);
	}
	return ps;
}
static void big_samples(const std::vector<TNode> &t, ccs_tree_space_t ts, size_t n, bool bulk, int seed, std::function<void(const std::vector<size_t> &)> after)
{
	std::vector<uint32_t> draws;
	uint32_t              x = (uint32_t)seed * 0x9E3779B9u;
	for (int i = 0; i < 4096; i++)
		draws.push_back(seed == 0 ? 0 : seed == 1 ? 0xFFFFFFFFu : (x = x * 1664525u + 1013904223u));
	tape_fixed(draws);
	Rng g(tape_rng());
	MC_OK(ccs_tree_space_set_rng(ts, g));
	std::vector<ccs_tree_configuration_t> r(n + 1, nullptr);
	if (bulk)
		MC_OK(ccs_tree_space_samples(ts, n, r.data()));
	else
		for (size_t i = 0; i < n; i++)
			MC_OK(ccs_tree_space_sample(ts, &r[i]));
	step("%zu samples", n);
	MC_CHECK(!r[n]);
	std::vector<TCf> c;
	for (size_t i = 0; i < n; i++)
		c.push_back(TCf(r[i]));
	size_t k = 0;
	for (auto &y : c) {
		auto p = pos_of(y);
		check_walk(t, p, tape_log(), k);
		ccs_bool_t b = 7;
		MC_OK(ccs_tree_configuration_check(y, &b));
		MC_REQ(b == CCS_TRUE, "a sampled position is judged %d", (int)b);
		after(p);
		obs(p.size() * 1000 + (p.empty() ? 0 : p[0]));
	}
	MC_CHECK(k == tape_log().size());
}
MC_SUITE(sizes)
{
	bool wide = flip("wide"), lazy = flip("lazy");
	int  n = pick(SIZES, "size"), stop = choose(wide ? 2 : 4, "weights"), what = choose(5, "what");
	shard_point();
	nontrivial();
	Spec   g;
	Lazy   z;
	TreeWorld w;
	TSp    ts;
	big_spec(g, n, wide, stop);
	if (lazy) {
		z.g = g;
		z.begin();
		ts = TSp((ccs_retain_object(z.ts), z.ts.get()));
	} else {
		realize(w, g);
		MC_OK(ccs_create_static_tree_space("big", w.h[0], ts.ret()));
	}
	if (what == 0 || what == 1) {
		Looker l{lazy ? z.w : w, ts, [&](const std::vector<size_t> &q) { if (lazy) z.expect(q); }};
		auto   ps = some_positions(g);
		if (what == 1)
			std::reverse(ps.begin(), ps.end());
		int f = 0;
		for (auto &q : ps)
			if (n <= 17)
				for (f = 0; f < 8; f++)
					l.look(q, f);
			else
				l.look(q, f++ % 8);
	} else if (!lazy) {
		for (int seed = 0; seed < 4; seed++)
			big_samples(g.t, ts, what == 2 ? 1 : what == 3 ? 4 : wide ? (size_t)n : 9, what != 2 || seed % 2, seed, [](const std::vector<size_t> &) {});
	} else { // the walk follows what had grown before
		for (int seed = 0; seed < 4; seed++) {
			auto before = z.w.m;
			big_samples(before, ts, 1, seed % 2, seed + what, [&](const std::vector<size_t> &p) { z.expect(p); });
		}
	}
	if (lazy) {
		ts.reset();
		if (n <= 33)
			z.end();
		else {
			z.ts.reset();
			MC_CHECK(DELS == 1);
			TS = nullptr;
		}
	} else {
		w.root_refs = 1;
		if (n <= 33)
			w.check(false, false);
		ts.reset();
	}
}
