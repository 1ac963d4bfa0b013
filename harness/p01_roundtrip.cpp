// Round trip of every kind of object through binary serialization, all variants of the catalogue.
#include "catalog.hpp"

// kinds of objects that a restored graph may hold by content instead of identity
static const std::set<int> BY_CONTENT = {CCS_OBJECT_TYPE_DISTRIBUTION, CCS_OBJECT_TYPE_RNG, CCS_OBJECT_TYPE_EXPRESSION, CCS_OBJECT_TYPE_CONFIGURATION, CCS_OBJECT_TYPE_FEATURES, CCS_OBJECT_TYPE_TREE_CONFIGURATION};

// replace handles (compressed addresses) by the number of the object they denote
static std::vector<char> normal(const std::vector<char> &b, const std::map<void *, int> &ids)
{
	std::map<std::string, int> enc;
	for (auto &x : ids) {
		std::string s;
		uintptr_t   v = (uintptr_t)x.first;
		do {
			unsigned char c = v & 0x7f;
			v >>= 7;
			s += (char)(v ? c | 0x80 : c);
		} while (v);
		enc[s] = x.second;
	}
	std::vector<char> r;
	for (size_t i = 0; i < b.size();) {
		bool hit = false;
		for (size_t l = 5; l <= 9 && i + l <= b.size() && !hit; l++) {
			auto it = enc.find(std::string(&b[i], l));
			if (it != enc.end()) {
				std::string t = mc::strf("<#%d>", it->second);
				r.insert(r.end(), t.begin(), t.end());
				i += l;
				hit = true;
			}
		}
		if (!hit)
			r.push_back(b[i++]);
	}
	return r;
}
struct Restored {
	Map              map;
	std::vector<Obj> own;
	std::vector<ccs_object_t> objs;
	UD              *ud = nullptr;
	// sends deps then main of w
	Restored(World &w, const std::vector<ccs_object_t> &src)
	{
		if (src.size() > 1)
			OKX(ccs_create_map(map.ret()));
		for (size_t i = 0; i < src.size(); i++) {
			auto b = w.bytes(src[i]);
			ccs_object_t o = nullptr;
			UD *u = w.vector ? w.newud("not restored") : nullptr;
			ccs_result_t r = w.restore(b.data(), b.size(), map, u, &o);
			if (r != CCS_RESULT_SUCCESS)
				mc::fail("deserialization of object %zu returned %d", i, (int)r);
			own.emplace_back(o);
			objs.push_back(o);
			if (u && i + 1 == src.size())
				ud = u;
		}
	}
	~Restored()
	{
		map.reset();
		while (own.size())
			own.pop_back();
	}
};
static void roundtrip(World &w)
{
	std::vector<ccs_object_t> src = w.deps;
	src.push_back(w.main);
	std::map<void *, int> id0, id1;
	std::string           t0 = w.text(src, BY_CONTENT, &id0);
	Restored              a(w, src);
	std::string           t1 = w.text(a.objs, BY_CONTENT, &id1);
	if (w.vector && w.vector != &vec_d && w.vector != &vec_t && w.vector != &vec_f && w.vector != &vec_r) { // no callbacks for the state: it cannot follow
		for (std::string *s : {&t0, &t1})
			for (size_t i; (i = s->find(" data [")) != std::string::npos;)
				s->erase(i, s->find("]", i) - i + 1);
	}
	MC_REQ(t0 == t1, "restored object differs %s", difference(t0, t1).c_str());
	mc::obs_bytes(t0.data(), t0.size());
	for (size_t i = 0; i < src.size(); i++) {
		auto b0 = w.bytes(src[i]), b1 = w.bytes(a.objs[i]);
		auto n0 = normal(b0, id0), n1 = normal(b1, id1);
		size_t k = 0;
		// the header tells the size, which depends on the length of the handles
		MC_REQ(b0.size() == b1.size(), "serialized sizes %zu and %zu", b0.size(), b1.size());
		MC_REQ(n0.size() == n1.size(), "serialized forms differ in length: %zu and %zu", n0.size(), n1.size());
		while (k < n0.size() && n0[k] == n1[k])
			k++;
		auto hex = [&](const std::vector<char> &n) {
			std::string s;
			for (size_t j = k > 20 ? k - 20 : 0; j < n.size() && j < k + 20; j++)
				s += mc::strf("%02x ", (unsigned char)n[j]);
			return s;
		};
		MC_REQ(k == n0.size(), "serialized forms differ at %zu of %zu:\n%s\n%s", k, n0.size(), hex(n0).c_str(), hex(n1).c_str());
	}
	{ // once more, from the restored one
		UD         *keep = w.ud;
		Restored    c(w, a.objs);
		std::string t2 = w.text(c.objs, BY_CONTENT);
		if (w.ud && w.vector)
			for (size_t i; (i = t2.find(" data [")) != std::string::npos && t0.find(" data [") == std::string::npos;)
				t2.erase(i, t2.find("]", i) - i + 1);
		MC_REQ(t0 == t2, "object restored twice differs %s", difference(t0, t2).c_str());
	}
	// the same draws from both
	ccs_object_type_t ty;
	OKX(ccs_object_get_type(w.main, &ty));
	ccs_object_t o0 = w.main, o1 = a.objs.back();
	for (int i = 0; i < 2; i++) {
		Describe d0, d1;
		if (ty == CCS_OBJECT_TYPE_CONFIGURATION_SPACE) {
			Cfg          c0, c1;
			ccs_result_t r0 = ccs_configuration_space_sample((ccs_configuration_space_t)o0, c0.ret());
			ccs_result_t r1 = ccs_configuration_space_sample((ccs_configuration_space_t)o1, c1.ret());
			MC_REQ(r0 == r1, "samples return %d and %d", (int)r0, (int)r1);
			if (!r0)
				d0.data(d0.values((ccs_binding_t)c0.get())), d1.data(d1.values((ccs_binding_t)c1.get()));
		} else if (ty == CCS_OBJECT_TYPE_TREE_SPACE) {
			TCf          c0, c1;
			ccs_result_t r0 = ccs_tree_space_sample((ccs_tree_space_t)o0, c0.ret());
			ccs_result_t r1 = ccs_tree_space_sample((ccs_tree_space_t)o1, c1.ret());
			MC_REQ(r0 == r1, "samples return %d and %d", (int)r0, (int)r1);
			if (!r0)
				d0.obj((ccs_object_t)c0.get()), d1.obj((ccs_object_t)c1.get());
		} else if (ty == CCS_OBJECT_TYPE_TUNER) {
			Cfg c0, c1;
			OKX(ccs_tuner_ask((ccs_tuner_t)o0, 1, c0.ret(), nullptr));
			OKX(ccs_tuner_ask((ccs_tuner_t)o1, 1, c1.ret(), nullptr));
			d0.obj((ccs_object_t)c0.get()), d1.obj((ccs_object_t)c1.get());
		} else if (ty == CCS_OBJECT_TYPE_TREE_TUNER) {
			TCf c0, c1;
			OKX(ccs_tree_tuner_ask((ccs_tree_tuner_t)o0, 1, c0.ret(), nullptr));
			OKX(ccs_tree_tuner_ask((ccs_tree_tuner_t)o1, 1, c1.ret(), nullptr));
			d0.obj((ccs_object_t)c0.get()), d1.obj((ccs_object_t)c1.get());
		} else if (ty == CCS_OBJECT_TYPE_RNG) {
			double u0, u1;
			OKX(ccs_rng_uniform((ccs_rng_t)o0, &u0));
			OKX(ccs_rng_uniform((ccs_rng_t)o1, &u1));
			d0.p("%a", u0), d1.p("%a", u1);
		}
		MC_REQ(d0.out == d1.out, "draws differ %s", difference(d0.out, d1.out).c_str());
	}
	if (a.ud)
		MC_REQ(a.ud->deleted == 0, "user state deleted while its object is alive");
}
MC_SUITE(every_kind)
{
	int   k = mc::choose(K_N, "kind");
	World w(true);
	w.make(k);
	mc::shard_point();
	mc::nontrivial();
	roundtrip(w);
}
MC_SUITE(user_data)
{
	int   k   = mc::choose(K_N, "kind");
	int   how = 1 + mc::choose(2), own = mc::choose(2);
	World w(false);
	w.make(k);
	mc::shard_point();
	w.attach(how, own);
	mc::nontrivial();
	roundtrip(w);
}
MC_SUITE(long_user_data)
{
	int   k   = mc::choose(K_N, "kind");
	int   how = 3 + mc::choose(UD_N - UD_SHORT, "length"), own = mc::choose(2);
	World w(false);
	w.make(k);
	mc::shard_point();
	w.attach(how, own);
	mc::nontrivial();
	roundtrip(w);
}
MC_SUITE(large)
{
	World w(false);
	w.choose_big(mc::thorough());
	mc::nontrivial();
	roundtrip(w);
}
