// Every truncation and every single byte substitution of the serialized form of every kind of object.
#include "catalog.hpp"

struct Damaged {
	World            &w;
	std::vector<char> good;
	explicit Damaged(World &w_) : w(w_), good(w_.bytes(w_.main))
	{
	}
	// deserialize these bytes; what: for messages
	void feed(const char *data, size_t n, bool prefix, const char *what, size_t at, int val, bool again = false)
	{
		char *b = (char *)malloc(n ? n : 1); // so that reading past the end is seen
		memcpy(b, data, n);
		UD *u = w.vector ? w.newud("fresh") : nullptr;
		ccs_clear_thread_error();
		long live = mc::live_blocks();
		{
			Map map;
			if (w.deps.size()) {
				OKX(ccs_create_map(map.ret()));
				for (auto o : w.deps) {
					ccs_datum_t k = ccs_object(o);
					k.flags |= CCS_DATUM_FLAG_ID;
					OKX(ccs_map_set(map, k, ccs_object(o)));
				}
			}
			size_t n0 = 0, n1 = 0;
			if (map.get())
				OKX(ccs_map_get_keys(map, 0, nullptr, &n0));
			ccs_object_t o = nullptr;
			mc::alloc_fail_at(0);
			ccs_result_t r = w.restore(b, n, map, u, &o);
			MC_REQ(mc::alloc_biggest() <= 65536 + 128 * (long)n, "%s at %zu value %d: asks for a block of %ld bytes", what, at, val, mc::alloc_biggest());
			if (r < 0) {
				MC_REQ(o == nullptr, "%s at %zu value %d: error %d but an object is returned", what, at, val, (int)r);
				if (map.get()) {
					OKX(ccs_map_get_keys(map, 0, nullptr, &n1));
					MC_REQ(n0 == n1, "%s at %zu value %d: error %d but an object is recorded in the handle map", what, at, val, (int)r);
				}
			} else {
				MC_REQ(r == CCS_RESULT_SUCCESS, "%s at %zu value %d: returned %d", what, at, val, (int)r);
				MC_REQ(!prefix, "a prefix of %zu of %zu bytes is accepted", n, good.size());
				MC_REQ(o != nullptr, "%s at %zu value %d: success without an object", what, at, val);
				Obj         own(o);
				Describe    d;
				std::string t;
				d.user     = ud_text;
				d.tolerant = true;
				d.sampling = false; // the state of a random generator is taken as it is
				d.obj(o);
			}
		}
		ccs_clear_thread_error();
		if (u)
			std::vector<Obj>().swap(u->history), std::vector<Obj>().swap(u->optima), std::string().swap(u->state);
		long after = mc::live_blocks();
		MC_REQ(after == live || !again, "%s at %zu value %d: %ld blocks left behind", what, at, val, after - live);
		if (u)
			w.dropud(u);
		free(b);
		if (after != live) // unless this was something allocated once and for all
			feed(data, n, prefix, what, at, val, true);
	}
};
static void make(World &w)
{
	int k = mc::choose(K_N, "kind");
	w.make(k);
}
MC_SUITE(truncated)
{
	World w(false);
	make(w);
	int how = mc::choose(2, "user data");
	mc::shard_point();
	if (how)
		w.attach(2, false);
	Damaged d(w);
	mc::nontrivial();
	for (size_t n = 0; n < d.good.size(); n++)
		d.feed(d.good.data(), n, true, "truncation", n, 0);
	mc::obs(d.good.size());
}
MC_SUITE(one_byte)
{
	World w(false);
	make(w);
	int how = mc::choose(2, "user data");
	if (how)
		w.attach(2, false);
	Damaged d(w);
	size_t  at = (size_t)mc::choose((int)d.good.size(), "position");
	mc::shard_point();
	mc::nontrivial();
	std::vector<char> b = d.good;
	unsigned char     g = (unsigned char)d.good[at];
	for (int v = 0; v < 256; v++) {
		if (v == g)
			continue;
		int  x     = v ^ g;
		bool usual = v < 24 || v >= 0xfe || v == 0x7f || v == 0x80 || !(x & (x - 1)) || v == (g + 1) % 256 || v == (g + 255) % 256;
		if (!usual && !mc::thorough())
			continue;
		b[at] = (char)v;
		d.feed(b.data(), b.size(), false, "substitution", at, v);
	}
	mc::obs(at);
}
// a byte lost or repeated, with the size in the header kept or updated
MC_SUITE(shifted)
{
	World w(false);
	make(w);
	int how = mc::choose(2, "user data");
	if (how)
		w.attach(2, false);
	Damaged d(w);
	mc::shard_point();
	mc::nontrivial();
	for (size_t at = 0; at < d.good.size(); at++)
		for (int dup = 0; dup < 2; dup++)
			for (int fix = 0; fix < 2; fix++) {
				std::vector<char> b = d.good;
				if (dup)
					b.insert(b.begin() + at, b[at]);
				else
					b.erase(b.begin() + at);
				if (fix && at >= 12) // the size follows the four bytes of the magic tag
					for (int i = 0; i < 8; i++)
						b[4 + i] = (char)((d.good[4] ? (uint64_t)b.size() >> (8 * i) : (uint64_t)b.size() >> (8 * (7 - i))) & 0xff);
				d.feed(b.data(), b.size(), false, dup ? "repetition" : "loss", at, fix);
			}
	mc::obs(d.good.size());
}
// two bytes changed, of small objects
MC_SUITE(two_bytes)
{
	static const int small[] = {K_UNIFORM, K_ROULETTE, K_MIXTURE, K_PNUM, K_PCAT, K_ELIT, K_EOP, K_FSPACE, K_TREE, K_MAP};
	if (!mc::thorough())
		mc::prune();
	World w(false);
	w.make(small[mc::choose(10, "kind")]);
	Damaged d(w);
	if (d.good.size() > 64)
		mc::prune();
	size_t at = (size_t)mc::choose((int)d.good.size(), "position");
	mc::shard_point();
	mc::nontrivial();
	static const int vals[] = {0, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xff};
	std::vector<char> b = d.good;
	for (size_t to = at + 1; to < b.size(); to++)
		for (int x : vals)
			for (int y : vals) {
				b[at] = (char)x, b[to] = (char)y;
				d.feed(b.data(), b.size(), false, "two substitutions", at * 1000 + to, x * 256 + y);
				b[at] = d.good[at], b[to] = d.good[to];
			}
	mc::obs(at);
}
