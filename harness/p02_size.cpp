// Size query, exact buffers, larger buffers, and every shorter buffer.
#include "catalog.hpp"
#define NOTHING_AFTER CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END
static const size_t ZONE = 24;
static void         sizes(World &w)
{
	ccs_object_t o  = w.main;
	std::string  t0 = w.self();
	size_t       sz = 0, sz2 = 1234567;
	OKX(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, NOTHING_AFTER));
	std::vector<char> ref;
	for (size_t extra : {(size_t)0, (size_t)0, (size_t)1, (size_t)17}) {
		char *b = (char *)malloc(sz + extra); // exactly that many bytes: the sanitizer watches both ends
		memset(b, 0x5a, sz + extra);
		MC_OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz + extra, b, NOTHING_AFTER));
		if (ref.empty())
			ref.assign(b, b + sz);
		MC_REQ(!memcmp(b, ref.data(), sz), "bytes differ from one call to the next (buffer of size + %zu)", extra);
		if (!extra) // every byte is written: nothing of the buffer shows through
		{
			memset(b, 0xa5, sz);
			MC_OK(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, NOTHING_AFTER));
			MC_REQ(!memcmp(b, ref.data(), sz), "some of the %zu bytes announced are not written", sz);
		}
		for (size_t i = 0; i < extra; i++)
			MC_REQ(b[sz + i] == 0x5a, "wrote past the announced size at +%zu", i);
		free(b);
	}
	OKX(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz2, NOTHING_AFTER));
	MC_REQ(sz == sz2, "size query answers %zu then %zu", sz, sz2);
	// the whole of it is needed
	for (size_t n = 0; n < sz; n += n < 1500 || n + 300 >= sz ? 1 : n + 300 + sz / 64 > sz ? sz - 300 - n : 1 + sz / 64) {
		char *b = (char *)malloc(n ? n : 1);
		memset(b, 0x5a, n ? n : 1);
		mc::step();
		ccs_result_t r = ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, NOTHING_AFTER);
		MC_REQ(r == CCS_RESULT_ERROR_NOT_ENOUGH_DATA, "buffer of %zu of %zu bytes: returned %d", n, sz, (int)r);
		if (!n)
			MC_REQ(b[0] == 0x5a, "wrote to an empty buffer");
		free(b);
		ccs_clear_thread_error();
	}
	MC_REQ(t0 == w.self(), "serializing changed the object %s", difference(t0, w.self()).c_str());
	mc::obs_bytes(ref.data(), ref.size() > 12 ? 12 : ref.size());
	mc::nontrivial();
}
MC_SUITE(every_kind)
{
	int   k = mc::choose(K_N, "kind");
	World w(true);
	w.make(k);
	mc::shard_point();
	size_t sz = 0;
	OKX(ccs_object_serialize(w.main, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, NOTHING_AFTER));
	sizes(w);
}
MC_SUITE(user_data)
{
	int   k   = mc::choose(K_N, "kind");
	int   how = 1 + mc::choose(2), own = mc::choose(2);
	World w(false);
	w.make(k);
	mc::shard_point();
	w.attach(how, own);
	sizes(w);
}
MC_SUITE(long_user_data)
{
	int   k   = mc::choose(K_N, "kind");
	int   how = 3 + mc::choose(UD_N - UD_SHORT, "length"), own = mc::choose(2);
	World w(false);
	w.make(k);
	mc::shard_point();
	w.attach(how, own);
	mc::nontrivial();
	sizes(w);
}
MC_SUITE(large)
{
	World w(false);
	w.choose_big(mc::thorough());
	sizes(w);
}
