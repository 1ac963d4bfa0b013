// Objects transferred separately through a handle map: recording, resolution, missing and wrong entries.
#include "catalog.hpp"

static const std::set<int> BY_CONTENT = {CCS_OBJECT_TYPE_DISTRIBUTION, CCS_OBJECT_TYPE_RNG, CCS_OBJECT_TYPE_EXPRESSION, CCS_OBJECT_TYPE_CONFIGURATION, CCS_OBJECT_TYPE_FEATURES, CCS_OBJECT_TYPE_TREE_CONFIGURATION};

static ccs_datum_t handle(ccs_object_t o)
{
	ccs_datum_t k = ccs_object(o);
	k.flags |= CCS_DATUM_FLAG_ID;
	return k;
}
static std::map<ccs_object_t, ccs_datum_t> entries(ccs_map_t m)
{
	size_t n = 0;
	OKX(ccs_map_get_keys(m, 0, nullptr, &n));
	Data k(n), v(n);
	if (n)
		OKX(ccs_map_get_pairs(m, n, k.data(), v.data(), nullptr));
	std::map<ccs_object_t, ccs_datum_t> r;
	for (size_t i = 0; i < n; i++) {
		MC_REQ(k[i].type == CCS_DATA_TYPE_OBJECT, "%s", "key that is not a handle");
		r[k[i].value.o] = v[i];
	}
	MC_REQ(r.size() == n, "%s", "handle recorded twice");
	return r;
}
static bool same(const std::map<ccs_object_t, ccs_datum_t> &a, const std::map<ccs_object_t, ccs_datum_t> &b)
{
	if (a.size() != b.size())
		return false;
	for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
		if (i->first != j->first || !mc::deq(i->second, j->second))
			return false;
	return true;
}
static std::set<void *> reach(ccs_object_t o)
{
	Describe d;
	d.user = ud_text;
	d.obj(o);
	std::set<void *> r;
	for (auto &x : d.id)
		r.insert(x.first);
	return r;
}
struct Env {
	World &w;
	std::vector<std::vector<char>> sent; // bytes of the dependencies then of the main object
	std::vector<ccs_object_t>      src;
	std::vector<UD *>              uds;
	std::set<void *>               needs; // dependencies that main refers to
	explicit Env(World &w_) : w(w_), src(w_.deps)
	{
		src.push_back(w.main);
		for (auto o : src)
			sent.push_back(w.bytes(o));
		auto r = reach(w.main);
		for (auto o : w.deps)
			if (r.count(o))
				needs.insert(o);
	}
	~Env()
	{
		for (auto u : uds)
			u->history.clear(), u->optima.clear(), w.dropud(u);
	}
	ccs_result_t get(size_t i, ccs_map_t m, ccs_object_t *o)
	{
		UD *u = nullptr;
		if (w.vector)
			uds.push_back(u = w.newud("fresh"));
		return w.restore(sent[i].data(), sent[i].size(), m, u, o);
	}
	// must fail, leaving the map as it was and nothing allocated
	void refused(size_t i, ccs_map_t m, int code, const char *why)
	{
		for (int k = 0; k < 2; k++) { // the second time everything allocated once and for all is
			std::map<ccs_object_t, ccs_datum_t> e0, e1;
			if (m)
				e0 = entries(m);
			ccs_clear_thread_error();
			long live = mc::live_blocks();
			{
				UD *u = w.vector ? w.newud("fresh") : nullptr;
				ccs_object_t o = nullptr;
				ccs_result_t r = w.restore(sent[i].data(), sent[i].size(), m, u, &o);
				MC_REQ(r < 0, "%s: returned %d", why, (int)r);
				MC_REQ(!code || r == code, "%s: returned %d instead of %d", why, (int)r, code);
				MC_REQ(!o, "%s: an object is returned", why);
				if (u)
					u->history.clear(), u->optima.clear(), w.dropud(u);
			}
			ccs_clear_thread_error();
			MC_REQ(!k || mc::live_blocks() == live, "%s: %ld blocks left behind", why, mc::live_blocks() - live);
			if (m) {
				e1 = entries(m);
				MC_REQ(same(e0, e1), "%s: the map has changed", why);
			}
		}
	}
};
static bool large;
static void make(World &w)
{
	if (large) {
		w.choose_big(mc::thorough());
		mc::nontrivial();
		return;
	}
	w.make(mc::choose(K_N, "kind"));
	if (mc::flip("user data"))
		w.attach(2, false);
	mc::shard_point();
	mc::nontrivial();
}
// everything sent in order, each recorded under its handle, references linked up; then each once more
static void body_linked(bool full)
{
	World w(full);
	make(w);
	Env                       e(w);
	std::string               t0 = w.text(e.src, BY_CONTENT);
	std::vector<Obj>          own;
	std::vector<ccs_object_t> got;
	Map                       m;
	OKX(ccs_create_map(m.ret()));
	for (size_t i = 0; i < e.src.size(); i++) {
		ccs_object_t o = nullptr;
		ccs_result_t r = e.get(i, m, &o);
		MC_REQ(r == CCS_RESULT_SUCCESS && o, "object %zu: returned %d", i, (int)r);
		own.emplace_back(o);
		got.push_back(o);
		auto en = entries(m);
		MC_REQ(en.size() == i + 1, "%zu handles recorded after %zu objects", en.size(), i + 1);
		for (size_t j = 0; j <= i; j++) {
			auto it = en.find(e.src[j]);
			MC_REQ(it != en.end(), "object %zu is not recorded under its handle", j);
			MC_REQ(it->second.type == CCS_DATA_TYPE_OBJECT && it->second.value.o == got[j], "object %zu: something else is recorded under its handle", j);
		}
	}
	auto r = reach(got.back());
	for (size_t j = 0; j < w.deps.size(); j++) {
		MC_REQ(!e.needs.count(w.deps[j]) || r.count(got[j]), "does not refer to the restored object %zu", j);
		MC_REQ(!r.count(w.deps[j]), "refers to the original of object %zu", j);
	}
	if (!w.vector || w.vector == &vec_d || w.vector == &vec_t || w.vector == &vec_f || w.vector == &vec_r) {
		std::string t1 = w.text(got, BY_CONTENT);
		MC_REQ(t0 == t1, "restored objects differ %s", difference(t0, t1).c_str());
	}
	size_t again = (size_t)mc::choose((int)e.src.size(), "sent twice");
	e.refused(again, m, CCS_RESULT_ERROR_DUPLICATE_HANDLE, "handle that is already recorded");
	// the map keeps what it records, the main object what it refers to
	for (size_t j = 0; j < w.deps.size(); j++)
		own[j].reset();
	OKX(ccs_map_del(m, handle(w.main)));
	ccs_object_t o = nullptr;
	OKX(e.get(w.deps.size(), m, &o));
	{
		Obj second(o);
		own.back().reset();
		m.reset();
		std::string t = w.text({o}, BY_CONTENT);
		mc::obs_bytes(t.data(), t.size());
	}
}
MC_SUITE(linked) { body_linked(false); }
MC_SUITE(large)
{
	large = true;
	body_linked(false);
	large = false;
}
MC_SUITE(linked_full)
{
	body_linked(true);
}
// without the map, or with entries missing, of a wrong type, or changed for an equivalent object
MC_SUITE(entries_changed)
{
	World w(false);
	make(w);
	Env    e(w);
	size_t nd = w.deps.size();
	if (!nd) { // needs nothing: the same with and without
		ccs_object_t o = nullptr;
		OKX(e.get(0, nullptr, &o));
		Obj own(o);
		MC_REQ(!w.vector || true, "%s", "");
		return;
	}
	e.refused(nd, nullptr, 0, "no map");
	int what[4] = {}, ok = 1;
	for (size_t i = 0; i < nd; i++)
		what[i] = mc::choose(6, "entry: right, absent, scalar, other type, main, equivalent object");
	Map              m;
	std::vector<Obj> own;
	std::vector<ccs_object_t> ref(nd);
	OKX(ccs_create_map(m.ret()));
	for (size_t i = 0; i < nd; i++) {
		ccs_object_t o = nullptr;
		switch (what[i]) {
		case 0:
			ref[i] = w.deps[i];
			OKX(ccs_map_set(m, handle(w.deps[i]), ccs_object(w.deps[i])));
			break;
		case 1:
			break;
		case 2:
			OKX(ccs_map_set(m, handle(w.deps[i]), ccs_int(3)));
			break;
		case 3: {
			Rng r;
			OKX(ccs_create_rng(r.ret()));
			OKX(ccs_map_set(m, handle(w.deps[i]), ccs_object(r.get())));
			break;
		}
		case 4:
			OKX(ccs_map_set(m, handle(w.deps[i]), ccs_object(w.main)));
			break;
		default: // a copy
			OKX(e.get(i, nullptr, &o));
			own.emplace_back(o);
			ref[i] = o;
			OKX(ccs_map_set(m, handle(w.deps[i]), ccs_object(o)));
		}
		if (!ref[i] && e.needs.count(w.deps[i]))
			ok = 0;
	}
	if (!ok) {
		e.refused(nd, m, 0, "missing or wrong entry");
		return;
	}
	ccs_object_t o = nullptr;
	ccs_result_t r = e.get(nd, m, &o);
	MC_REQ(r == CCS_RESULT_SUCCESS, "returned %d", (int)r);
	own.emplace_back(o);
	auto s = reach(o);
	for (size_t i = 0; i < nd; i++)
		if (e.needs.count(w.deps[i])) {
			MC_REQ(s.count(ref[i]), "does not refer to the object recorded for %zu", i);
			MC_REQ(ref[i] == w.deps[i] || !s.count(w.deps[i]), "refers to another object than the one recorded for %zu", i);
		}
	auto en = entries(m);
	MC_REQ(en.count(w.main) && en[w.main].value.o == o, "%s", "not recorded under its handle");
}
// sent in any order: fails until what it needs has been received
MC_SUITE(orders)
{
	World w(false);
	make(w);
	Env e(w);
	Map m;
	OKX(ccs_create_map(m.ret()));
	std::vector<Obj>    own;
	std::vector<bool>   have(e.src.size());
	size_t              n = 0;
	int                 bad = 0;
	while (n < e.src.size()) {
		size_t i = (size_t)mc::choose((int)e.src.size(), "next");
		bool   ready = true;
		if (have[i])
			mc::prune();
		if (i == w.deps.size())
			for (size_t j = 0; j < w.deps.size(); j++)
				if (e.needs.count(w.deps[j]) && !have[j])
					ready = false;
		if (!ready) {
			if (bad++)
				mc::prune();
			e.refused(i, m, CCS_RESULT_ERROR_INVALID_HANDLE, "not yet received");
			continue;
		}
		ccs_object_t o = nullptr;
		OKX(e.get(i, m, &o));
		own.emplace_back(o);
		have[i] = true;
		n++;
	}
}
