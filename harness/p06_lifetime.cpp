// Lifetimes: every object lives exactly as long as it can be reached from a reference somebody holds.
#include "catalog.hpp"

struct Life {
	int                     alive = 1;
	std::vector<int>        calls; // per registration
	std::vector<int>        order; // registrations in the order in which they were called
};
struct Tag {
	Life *life;
	int   which;
	void *object;
};
static bool watching;
static void destroyed(ccs_object_t o, void *data)
{
	Tag *t = (Tag *)data;
	if (!watching)
		return;
	if (t->object != o)
		mc::fail("destruction callback called with another object");
	ccs_object_type_t ty;
	if (ccs_object_get_type(o, &ty) != CCS_RESULT_SUCCESS)
		mc::fail("object unusable in its destruction callback");
	t->life->calls[(size_t)t->which]++;
	t->life->order.push_back(t->which);
}
struct Watch {
	std::map<void *, Life>            life;
	std::vector<std::unique_ptr<Tag>> tags;
	std::map<void *, std::set<void *>> out; // holds
	std::map<void *, int>             refs; // references held by the user
	Watch() { watching = true; }
	~Watch() { watching = false; }
	void add(ccs_object_t o, int registrations)
	{
		Life &l = life[o];
		for (int i = 0; i < registrations; i++) {
			l.calls.push_back(0);
			tags.emplace_back(new Tag{&l, (int)l.calls.size() - 1, o});
			OKX(ccs_object_set_destroy_callback(o, destroyed, tags.back().get()));
		}
	}
	void graph(const std::vector<ccs_object_t> &roots, int registrations)
	{
		Describe d;
		d.user = ud_text;
		for (auto o : roots)
			d.obj(o);
		for (auto &x : d.id)
			if (!life.count(x.first))
				add(x.first, registrations);
		for (auto &e : d.edges)
			if (e.first && life.count(e.first) && life.count(e.second))
				out[e.first].insert(e.second);
	}
	void check(const char *when)
	{
		std::set<void *>   r;
		std::vector<void *> q;
		for (auto &x : refs)
			if (x.second)
				q.push_back(x.first);
		while (q.size()) {
			void *o = q.back();
			q.pop_back();
			if (r.insert(o).second)
				for (auto t : out[o])
					q.push_back(t);
		}
		for (auto &x : life)
			for (size_t i = 0; i < x.second.calls.size(); i++) {
				int want = r.count(x.first) ? 0 : 1;
				if (x.second.calls[i] != want)
					mc::fail("%s: an object that %s referenced has had destruction callback %zu called %d times", when, want ? "is no longer" : "is still", i, x.second.calls[i]);
			}
	}
};
static std::string textof(ccs_object_t o)
{
	Describe d;
	d.user = ud_text;
	d.obj(o);
	return d.out;
}
static void release_orders(bool full, int maxkept)
{
	World w(full);
	w.make(mc::choose(K_N, "kind"));
	mc::shard_point();
	Watch                     x;
	std::vector<ccs_object_t> refs;
	for (auto &o : w.own)
		refs.push_back(o.get());
	x.graph(refs, 1);
	for (auto o : refs)
		x.refs[o]++;
	int n = (int)refs.size();
	// what is kept longest
	std::vector<int> kept;
	int              k = mc::choose(std::min(maxkept, n) + 1, "kept");
	for (int i = 0, from = 0; i < k; i++) {
		if (n - from - (k - i) < 0)
			mc::prune();
		int j = from + mc::choose(n - from - (k - i) + 1, "which");
		kept.push_back(j);
		from = j + 1;
	}
	bool backward = mc::flip("others released backward");
	mc::nontrivial();
	for (auto &o : w.own)
		(void)o.take();
	w.own.clear();
	std::map<void *, std::string> text;
	for (int i : kept)
		text[refs[(size_t)i]] = textof(refs[(size_t)i]);
	for (int i = 0; i < n; i++) {
		int j = backward ? n - 1 - i : i;
		if (std::find(kept.begin(), kept.end(), j) != kept.end())
			continue;
		OKX(ccs_release_object(refs[(size_t)j]));
		x.refs[refs[(size_t)j]]--;
		x.check("after a release");
	}
	while (kept.size()) {
		for (int i : kept) {
			std::string t = textof(refs[(size_t)i]);
			MC_REQ(t == text[refs[(size_t)i]], "an object that is still held has changed %s", difference(text[refs[(size_t)i]], t).c_str());
		}
		size_t j = (size_t)mc::choose((int)kept.size(), "released");
		OKX(ccs_release_object(refs[(size_t)kept[j]]));
		x.refs[refs[(size_t)kept[j]]]--;
		kept.erase(kept.begin() + (long)j);
		x.check("after a late release");
	}
	if (w.ud)
		MC_REQ(w.ud->deleted == 1, "user data deleted %d times", w.ud->deleted);
	mc::obs((uint64_t)n);
}
MC_SUITE(orders) { release_orders(false, mc::tier_bound(2, 3)); }
MC_SUITE(orders_full) { release_orders(true, mc::tier_bound(0, 1)); }
// references and registrations of one object of every kind
MC_SUITE(counts)
{
	World w(false);
	w.make(mc::choose(K_N, "kind"));
	mc::shard_point();
	mc::nontrivial();
	ccs_object_t o = w.main;
	Watch        x;
	int32_t      base = 0;
	OKX(ccs_object_get_refcount(o, &base));
	// let go of everything but the object itself
	for (auto &y : w.own)
		if (y.get() == o)
			(void)y.take();
	w.clear();
	int32_t c0 = 0;
	OKX(ccs_object_get_refcount(o, &c0));
	if (c0 != 1)
		mc::fail("main object has %d references when only the user holds it", (int)c0);
	int held = 1, steps = mc::tier_bound(6, 8);
	x.add(o, 0);
	Life &l = x.life[o];
	for (int i = 0; i < steps && held; i++) {
		switch (mc::choose(3, "retain, release, register")) {
		case 0:
			OKX(ccs_retain_object(o));
			held++;
			break;
		case 1:
			OKX(ccs_release_object(o));
			held--;
			break;
		default:
			if (l.calls.size() >= 3)
				mc::prune();
			x.add(o, 1);
		}
		for (auto k : l.calls)
			MC_REQ(k == (held ? 0 : 1), "destruction callback called %d times with %d references", k, held);
		if (held) {
			int32_t c = 0;
			OKX(ccs_object_get_refcount(o, &c));
			MC_REQ(c == held, "reference count is %d with %d references", (int)c, held);
		}
	}
	for (; held; held--)
		OKX(ccs_release_object(o));
	for (auto k : l.calls)
		MC_REQ(k == 1, "destruction callback called %d times in the end", k);
	mc::obs(l.calls.size());
}
// many registrations and many references
MC_SUITE(many)
{
	static const std::vector<int> ns{1, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
	int kind = mc::choose(K_N, "kind"), n = mc::pick(ns, "registrations"), refs = mc::pick(ns, "references"), when = mc::choose(2, "registered before the references are taken");
	mc::shard_point();
	mc::nontrivial();
	World w(false);
	w.make(kind);
	ccs_object_t o = w.main;
	Watch        x;
	for (auto &y : w.own)
		if (y.get() == o)
			(void)y.take();
	w.clear();
	if (when)
		x.add(o, n);
	for (int i = 1; i < refs; i++)
		OKX(ccs_retain_object(o));
	if (!when)
		x.add(o, n);
	Life &l = x.life[o];
	for (int i = refs; i > 0; i--) {
		int32_t c = 0;
		OKX(ccs_object_get_refcount(o, &c));
		MC_REQ(c == i, "reference count is %d with %d references", (int)c, i);
		MC_REQ(l.order.empty(), "a destruction callback called with %d references left", i);
		OKX(ccs_release_object(o));
	}
	for (size_t i = 0; i < l.calls.size(); i++)
		MC_REQ(l.calls[i] == 1, "destruction callback %zu of %d called %d times", i, n, l.calls[i]);
	mc::obs(l.calls.size());
}
// what an object holds is replaced, by something else or by itself, whoever else holds it
MC_SUITE(replace)
{
	int  what = mc::choose(3, "configuration space, tree space, distributions");
	Watch x;
	Par   p[2];
	ccs_object_t s = nullptr;
	std::vector<ccs_object_t> things; // rngs, or two distributions of one parameter and one of both
	std::vector<int>          held;
	int                       cur[2] = {-1, -1};
	if (what == 1) {
		ccs_tree_t t, c;
		OKX(ccs_create_tree(2, ccs_int(0), &t));
		OKX(ccs_create_tree(0, ccs_int(1), &c));
		OKX(ccs_tree_set_child(t, 1, c));
		OKX(ccs_release_object(c));
		OKX(ccs_create_static_tree_space("space", t, (ccs_tree_space_t *)&s));
		OKX(ccs_release_object(t));
	} else {
		p[0] = pint("a", 0, 10, 0);
		p[1] = pint("b", 0, 10, 0);
		OKX(ccs_create_configuration_space("space", (ccs_configuration_space_t *)&s));
		for (auto &q : p)
			OKX(ccs_configuration_space_add_parameter((ccs_configuration_space_t)s, q.get(), nullptr));
	}
	if (what < 2) {
		ccs_rng_t r;
		if (what)
			OKX(ccs_tree_space_get_rng((ccs_tree_space_t)s, &r));
		else
			OKX(ccs_configuration_space_get_rng((ccs_configuration_space_t)s, &r));
		things.push_back(r); // its own, nobody else holds it
		held.push_back(0);
		cur[0] = 0;
		for (int i = 0; i < 2; i++) {
			OKX(ccs_create_rng(&r));
			things.push_back(r);
			held.push_back(1);
		}
	} else {
		ccs_distribution_t d[3];
		for (int i = 0; i < 2; i++)
			OKX(ccs_create_uniform_int_distribution(i, 5 + i, CCS_SCALE_TYPE_LINEAR, 0, d + i));
		OKX(ccs_create_multivariate_distribution(2, d, d + 2));
		for (int i = 0; i < 3; i++) {
			things.push_back(d[i]);
			held.push_back(1);
		}
		x.out[d[2]] = {d[0], d[1]};
	}
	for (auto o : things)
		x.add(o, 1);
	x.add(s, 1);
	auto sync = [&](const char *when) {
		x.refs[s] = 1;
		for (size_t i = 0; i < things.size(); i++)
			x.refs[things[i]] = held[i];
		x.out[s].clear();
		for (int c : cur)
			if (c >= 0)
				x.out[s].insert(things[(size_t)c]);
		x.check(when);
	};
	auto gone = [&](size_t i) { return x.life[things[i]].calls[0] > 0; };
	int  len = mc::tier_bound(5, 7);
	for (int k = 0; k < len; k++) {
		int op = mc::choose(what < 2 ? 6 : 8, "op");
		if (k == 0)
			mc::shard_point();
		if (op < 3) { // the user lets go
			if (!held[(size_t)op])
				mc::prune();
			mc::step("release %d", op);
			held[(size_t)op]--;
			MC_OK(ccs_release_object(things[(size_t)op]));
		} else if (what < 2) {
			size_t i = (size_t)(op - 3);
			if (gone(i))
				mc::prune();
			mc::step("set rng %zu", i);
			if (what)
				MC_OK(ccs_tree_space_set_rng((ccs_tree_space_t)s, (ccs_rng_t)things[i]));
			else
				MC_OK(ccs_configuration_space_set_rng((ccs_configuration_space_t)s, (ccs_rng_t)things[i]));
			cur[0] = (int)i;
		} else {
			size_t i = op < 7 ? (size_t)(op - 3) % 2 : 2, on = op < 7 ? (size_t)(op - 3) / 2 : 0;
			if (gone(i))
				mc::prune();
			mc::step("set distribution %zu on %zu", i, on);
			size_t ix[2] = {on, 1};
			MC_OK(ccs_configuration_space_set_distribution((ccs_configuration_space_t)s, (ccs_distribution_t)things[i], ix));
			if (i == 2)
				cur[0] = cur[1] = 2;
			else {
				if (cur[1 - on] == 2)
					cur[1 - on] = -1; // its own again
				cur[on] = (int)i;
			}
		}
		sync("after an operation");
		if (what == 1) {
			ccs_tree_configuration_t c;
			ccs_rng_t                r;
			MC_OK(ccs_tree_space_get_rng((ccs_tree_space_t)s, &r));
			MC_REQ(r == things[(size_t)cur[0]], "%s", "the space gives another generator");
			MC_OK(ccs_tree_space_sample((ccs_tree_space_t)s, &c));
			MC_OK(ccs_release_object(c));
		} else {
			ccs_configuration_t c;
			ccs_rng_t           r;
			MC_OK(ccs_configuration_space_get_rng((ccs_configuration_space_t)s, &r));
			if (what == 0)
				MC_REQ(r == things[(size_t)cur[0]], "%s", "the space gives another generator");
			MC_OK(ccs_configuration_space_sample((ccs_configuration_space_t)s, &c));
			MC_OK(ccs_release_object(c));
			for (size_t i = 0; what == 2 && i < 2; i++) {
				ccs_distribution_t d;
				size_t             at;
				MC_OK(ccs_configuration_space_get_parameter_distribution((ccs_configuration_space_t)s, i, &d, &at));
				if (cur[i] >= 0)
					MC_REQ(d == things[(size_t)cur[i]], "parameter %zu has another distribution", i);
				else
					for (auto o : things)
						MC_REQ(d != o, "parameter %zu has a distribution it was not given", i);
			}
		}
	}
	mc::nontrivial();
	MC_OK(ccs_release_object(s));
	for (size_t i = 0; i < things.size(); i++) {
		int want = held[i] || (i < 2 && what == 2 && held[2]);
		MC_REQ(x.life[things[i]].calls[0] == !want, "in the end object %zu has been destroyed %d times", i, x.life[things[i]].calls[0]);
	}
	for (size_t i = 0; i < things.size(); i++)
		for (; held[i]; held[i]--)
			MC_OK(ccs_release_object(things[i]));
	mc::obs((uint64_t)(cur[0] + 1) * 8 + (uint64_t)(cur[1] + 1));
}
