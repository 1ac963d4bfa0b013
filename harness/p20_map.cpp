// P20: maps against a reference dictionary, all operation histories up to a depth.
#include "ccsx.hpp"
using namespace mc;

struct KV {
	int  kind; // 0 plain, 1 static string, 2 transient string, 3 object retained, 4 object by id
	Data dummy;
	ccs_datum_t d;
	std::string s;
	int         obj;
};
static KV plain(ccs_datum_t d) { KV k; k.kind = 0; k.d = d; k.obj = -1; return k; }
static KV sstr(const char *s) { KV k; k.kind = 1; k.d = ccs_string(s); k.s = s; k.obj = -1; return k; }
static KV tstrk(const char *s) { KV k; k.kind = 2; k.d = ccs_none; k.s = s; k.obj = -1; return k; }
static KV obj(int i, bool id) { KV k; k.kind = id ? 4 : 3; k.d = ccs_none; k.obj = i; return k; }

// a canonical printable form: equal forms <=> equal data
static std::string canon(const ccs_datum_t &d, const std::vector<ccs_object_t> &objs)
{
	if (d.type == CCS_DATA_TYPE_OBJECT) {
		for (size_t i = 0; i < objs.size(); i++)
			if (objs[i] == d.value.o)
				return strf("obj%zu", i);
		return "obj?";
	}
	return dstr(d);
}
struct Passed { // a datum as handed to the library, with the lifetime the flags promise
	ccs_datum_t d;
	char       *buf = nullptr;
	Passed(const KV &k, const std::vector<ccs_object_t> &objs)
	{
		d = k.d;
		if (k.kind == 2) {
			buf = new char[k.s.size() + 1];
			strcpy(buf, k.s.c_str());
			d = tstr(buf);
		} else if (k.kind >= 3) {
			d = ccs_object(objs[(size_t)k.obj]);
			if (k.kind == 4)
				d.flags = CCS_DATUM_FLAG_ID;
		}
	}
	~Passed()
	{
		if (buf) {
			memset(buf, 'X', strlen(buf));
			delete[] buf;
		}
	}
};
struct Entry { std::string v; int kobj, vobj; }; // objects held, -1 none
struct World {
	std::vector<ccs_object_t>    objs;
	std::map<std::string, Entry> ref;
	ccs_map_t                    m = nullptr;
	World()
	{
		for (int i = 0; i < 2; i++) {
			Rng r;
			OKX(ccs_create_rng(r.ret()));
			objs.push_back(r.take());
		}
		OKX(ccs_create_map(&m));
	}
	void compare(const std::vector<KV> &keys)
	{
		for (auto &k : keys) {
			Passed      p(k, objs);
			std::string ck = canon(p.d, objs);
			ccs_bool_t  ex = 7;
			MC_OK(ccs_map_exist(m, p.d, &ex));
			MC_REQ((ex == CCS_TRUE) == (ref.count(ck) > 0) && (ex == CCS_TRUE || ex == CCS_FALSE), "exist(%s)=%d", ck.c_str(), ex);
			ccs_datum_t v = ccs_int(12345);
			MC_OK(ccs_map_get(m, p.d, &v));
			std::string want = ref.count(ck) ? ref[ck].v : "none";
			MC_REQ(canon(v, objs) == want, "get(%s)=%s, want %s", ck.c_str(), canon(v, objs).c_str(), want.c_str());
		}
		size_t n = ref.size(), got = 999;
		MC_OK(ccs_map_get_keys(m, 0, nullptr, &got));
		MC_REQ(got == n, "number of keys %zu, want %zu", got, n);
		MC_OK(ccs_map_get_values(m, 0, nullptr, &got));
		MC_REQ(got == n, "number of values %zu, want %zu", got, n);
		MC_OK(ccs_map_get_pairs(m, 0, nullptr, nullptr, &got));
		MC_REQ(got == n, "number of pairs %zu, want %zu", got, n);
		for (size_t cap : {n ? n - 1 : (size_t)0, n, n + 2}) {
			if (cap == 0)
				continue;
			Data ks(cap, ccs_int(777)), vs(cap, ccs_int(777)), pk(cap, ccs_int(777)), pv(cap, ccs_int(777));
			if (cap < n) {
				MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_keys(m, cap, ks.data(), &got));
				MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_values(m, cap, vs.data(), &got));
				MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_pairs(m, cap, pk.data(), pv.data(), &got));
				continue;
			}
			got = 999;
			MC_OK(ccs_map_get_keys(m, cap, ks.data(), &got));
			MC_REQ(got == n, "num_keys_ret");
			got = 999;
			MC_OK(ccs_map_get_values(m, cap, vs.data(), &got));
			MC_REQ(got == n, "num_values_ret");
			got = 999;
			MC_OK(ccs_map_get_pairs(m, cap, pk.data(), pv.data(), &got));
			MC_REQ(got == n, "num_pairs_ret");
			std::multiset<std::string> k1, v1, v2;
			std::map<std::string, std::string> pr;
			for (size_t i = 0; i < n; i++) {
				k1.insert(canon(ks[i], objs));
				v1.insert(canon(vs[i], objs));
				pr[canon(pk[i], objs)] = canon(pv[i], objs);
			}
			for (size_t i = n; i < cap; i++)
				MC_REQ(ks[i].type == CCS_DATA_TYPE_NONE && vs[i].type == CCS_DATA_TYPE_NONE && pk[i].type == CCS_DATA_TYPE_NONE &&
					       pv[i].type == CCS_DATA_TYPE_NONE, "extra entries are not none");
			std::multiset<std::string> wk;
			std::map<std::string, std::string> wp;
			for (auto &e : ref) {
				wk.insert(e.first);
				v2.insert(e.second.v);
				wp[e.first] = e.second.v;
			}
			MC_REQ(k1 == wk, "keys differ from the entries (first key %s)", n ? canon(ks[0], objs).c_str() : "");
			MC_REQ(v1 == v2, "values differ from the entries");
			MC_REQ(pr == wp, "pairs differ from the entries");
		}
		int want[2] = {1, 1};
		for (auto &e : ref) {
			if (e.second.kobj >= 0)
				want[e.second.kobj]++;
			if (e.second.vobj >= 0)
				want[e.second.vobj]++;
		}
		for (int i = 0; i < 2; i++)
			MC_REQ(refcount(objs[(size_t)i]) == want[i], "object %d has %d references, want %d", i, refcount(objs[(size_t)i]), want[i]);
		obs(n);
	}
	void set(const KV &k, const KV &v)
	{
		std::string ck, cv;
		{
			Passed pk(k, objs), pv(v, objs);
			ck = canon(pk.d, objs);
			cv = canon(pv.d, objs);
			step("set %s = %s", ck.c_str(), cv.c_str());
			MC_OK(ccs_map_set(m, pk.d, pv.d));
		}
		ref[ck] = Entry{cv, k.kind == 3 ? k.obj : -1, v.kind == 3 ? v.obj : -1};
	}
	void del(const KV &k)
	{
		Passed      pk(k, objs);
		std::string ck = canon(pk.d, objs);
		step("del %s", ck.c_str());
		if (ref.count(ck)) {
			MC_OK(ccs_map_del(m, pk.d));
			ref.erase(ck);
		} else
			MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_del(m, pk.d));
	}
	void clear()
	{
		step("clear");
		MC_OK(ccs_map_clear(m));
		ref.clear();
	}
	void end()
	{
		MC_OK(ccs_release_object(m));
		for (int i = 0; i < 2; i++) {
			MC_REQ(refcount(objs[(size_t)i]) == 1, "object %d still referenced after the map is gone", i);
			MC_OK(ccs_release_object(objs[(size_t)i]));
		}
	}
};
static void histories(const std::vector<KV> &keys, const std::vector<KV> &vals, int depth)
{
	int  nops = (int)(keys.size() * vals.size() + keys.size() + 1);
	int  len  = 1 + choose(depth, "length");
	auto decode = [&](World &w, int op) {
		if (op < (int)(keys.size() * vals.size()))
			w.set(keys[(size_t)op % keys.size()], vals[(size_t)op / keys.size()]);
		else if (op < nops - 1)
			w.del(keys[(size_t)op - keys.size() * vals.size()]);
		else
			w.clear();
	};
	int op = choose(nops, "op");
	shard_point();
	World w;
	for (int i = 0; i < len; i++) {
		if (i)
			op = choose(nops, "op");
		decode(w, op);
	}
	w.compare(keys); // intermediate states are the final states of the shorter histories
	w.end();
}
MC_SUITE(all_types)
{
	static const std::vector<KV> keys{plain(ccs_int(0)), plain(ccs_float(0.0)), plain(ccs_bool(CCS_FALSE)), plain(ccs_none), plain(ccs_inactive),
					  sstr("a"), tstrk("a"), tstrk("b"), obj(0, false), obj(0, true), plain(ccs_int(1)), sstr("")};
	static const std::vector<KV> vals{plain(ccs_int(7)), tstrk("v"), obj(1, false), obj(1, true), plain(ccs_none), obj(0, false)};
	histories(keys, vals, tier_bound(3, 3));
}
// one entry told again with values that look alike
MC_SUITE(alike)
{
	static const std::vector<KV> keys{plain(ccs_int(1)), tstrk("a"), obj(0, false)};
	static const std::vector<KV> vals{plain(ccs_int(0)), plain(ccs_float(0.0)), plain(ccs_float(-0.0)), plain(ccs_bool(CCS_FALSE)), plain(ccs_none), plain(ccs_inactive), plain(ccs_int(1)), plain(ccs_bool(CCS_TRUE)), plain(ccs_float(5e-324)),
					  plain(ccs_int(0x7ff8000000000000)), plain(ccs_float(NAN)), plain(ccs_float(INFINITY)), sstr(""), tstrk(""), sstr("a"), tstrk("a"), tstrk("aa"), obj(0, false), obj(0, true), obj(1, false)};
	histories(keys, vals, tier_bound(2, 3));
}
MC_SUITE(small_deep)
{
	static const std::vector<KV> keys{plain(ccs_int(0)), plain(ccs_float(0.0)), tstrk("a")};
	static const std::vector<KV> vals{plain(ccs_int(7)), tstrk("v")};
	histories(keys, vals, tier_bound(5, 7));
}
MC_SUITE(objects_deep)
{
	static const std::vector<KV> keys{obj(0, false), obj(0, true), obj(1, false)};
	static const std::vector<KV> vals{obj(0, false), obj(0, true), obj(1, false)};
	histories(keys, vals, tier_bound(4, 5));
}
// many keys: growth of the table, deletions, reinsertion
MC_SUITE(growth)
{
	int n = 1 + 7 * choose(tier_bound(40, 80), "size"), type = choose(4, "key type"), del = 1 + choose(4, "delete every"), phase = choose(2);
	shard_point();
	World            w;
	std::vector<KV>  keys;
	static char        names[600][16];
	static std::string longs[40];
	if (type == 3 && n > 40)
		mc::prune();
	for (int i = 0; i < n; i++) {
		snprintf(names[i], 16, "key%d", i);
		if (type == 3) { // long keys that only differ at their end, or in the middle
			longs[i] = std::string((size_t)(40 << (2 * (i % 6))), 'k') + names[i] + std::string(i % 2 ? 5000 : 0, 'l');
			keys.push_back(tstrk(longs[i].c_str()));
			continue;
		}
		keys.push_back(type == 0 ? plain(ccs_int(i * 64)) : type == 1 ? plain(ccs_float(i * 0.5)) : tstrk(names[i]));
	}
	for (int i = 0; i < n; i++)
		w.set(keys[(size_t)i], plain(ccs_int(i)));
	for (int i = phase; i < n; i += del)
		w.del(keys[(size_t)i]);
	w.compare(keys);
	for (int i = 0; i < n; i += 3)
		w.set(keys[(size_t)i], plain(ccs_int(-i)));
	w.compare(keys);
	w.clear();
	w.compare(keys);
	w.end();
}
MC_SUITE(invalid)
{
	int c = choose(12);
	World w;
	w.set(plain(ccs_int(1)), plain(ccs_int(2)));
	ccs_datum_t d = ccs_none, bad = ccs_object(nullptr);
	size_t      n;
	ccs_bool_t  b;
	switch (c) {
	case 0: MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_create_map(nullptr)); break;
	case 1: MC_RET(CCS_RESULT_ERROR_INVALID_OBJECT, ccs_map_set((ccs_map_t)w.objs[0], d, d)); break;
	case 2: MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get(w.m, d, nullptr)); break;
	case 3: MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_exist(w.m, d, nullptr)); break;
	case 4: MC_RET(CCS_RESULT_ERROR_INVALID_OBJECT, ccs_map_exist((ccs_map_t)w.objs[0], d, &b)); break;
	case 5: MC_RET(CCS_RESULT_ERROR_INVALID_OBJECT, ccs_map_clear(nullptr)); break;
	case 6: MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_keys(w.m, 0, nullptr, nullptr)); break;
	case 7: MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_values(w.m, 1, nullptr, &n)); break;
	case 8: MC_ERR(ccs_map_set(w.m, bad, d)); break;             // cannot be retained
	case 9: MC_ERR(ccs_map_set(w.m, ccs_object(w.objs[0]), bad)); break; // key must not stay retained
	case 10: MC_ERR(ccs_map_set(w.m, ccs_int(1), bad)); break;            // existing entry must survive
	case 11: MC_RET(CCS_RESULT_ERROR_INVALID_VALUE, ccs_map_get_pairs(w.m, 1, &d, nullptr, &n)); break;
	}
	w.compare({plain(ccs_int(1)), plain(ccs_none), obj(0, false)});
	w.end();
}
