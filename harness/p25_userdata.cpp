// The callbacks that write and read the users' data of objects: each runs for the objects that have some,
// and when one fails the operation fails with its error and leaves nothing behind.
#include "catalog.hpp"

static const std::set<int> CONTENT = {CCS_OBJECT_TYPE_DISTRIBUTION, CCS_OBJECT_TYPE_RNG, CCS_OBJECT_TYPE_EXPRESSION, CCS_OBJECT_TYPE_CONFIGURATION, CCS_OBJECT_TYPE_FEATURES, CCS_OBJECT_TYPE_TREE_CONFIGURATION};
static int          fail_at, seen;
static ccs_result_t code;
static char         token; // the callback's own argument
static std::multiset<std::string> wrote, readback;

static ccs_result_t ser_cb(ccs_object_t o, size_t sz, void *buf, size_t *ret, void *arg)
{
	if (arg != &token)
		mc::fail("the serialization callback is given another argument");
	if (++seen == fail_at)
		return code;
	if (buf) {
		void *d = nullptr;
		OKX(ccs_object_get_user_data(o, &d));
		wrote.insert((const char *)d);
	}
	return ud_ser(o, sz, buf, ret, nullptr);
}
static ccs_result_t deser_cb(ccs_object_t o, size_t sz, const char *buf, void *arg)
{
	if (arg != &token)
		mc::fail("the deserialization callback is given another argument");
	if (++seen == fail_at)
		return code;
	readback.insert(std::string(buf));
	return ud_deser(o, sz, buf, nullptr);
}
MC_SUITE(userdata)
{
	int   kind = mc::choose(K_N, "kind"), how = 1 + mc::choose(2, "data on the object, or on all");
	World w(mc::thorough());
	w.make(kind);
	mc::nontrivial();
	w.attach(how, false);
	code = mc::choose(2, "code") ? CCS_RESULT_ERROR_OUT_OF_MEMORY : (ccs_result_t)-1234;
	std::string before = w.self();
	size_t      sz = 0;
	auto        measure = [&]() {
                mc::step();
                return ccs_object_serialize(w.main, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_CALLBACK, ser_cb, (void *)&token, CCS_SERIALIZE_OPTION_END);
	};
	fail_at = seen = 0;
	OKX(measure());
	int count = seen;
	if (!count)
		mc::fail("no callback ran for a %s with user data", kname(kind));
	for (fail_at = 1; fail_at <= count; fail_at++) {
		seen           = 0;
		ccs_result_t r = measure();
		if (r != code)
			mc::fail("measuring a %s returned %d when callback %d of %d fails with %d", kname(kind), (int)r, fail_at, count, (int)code);
	}
	fail_at = seen = 0;
	OKX(measure());
	std::vector<char> b(sz);
	auto              write = [&]() {
                mc::step();
                return ccs_object_serialize(w.main, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b.data(), CCS_SERIALIZE_OPTION_CALLBACK, ser_cb, (void *)&token, CCS_SERIALIZE_OPTION_END);
	};
	seen = 0;
	wrote.clear();
	OKX(write());
	count = seen;
	for (fail_at = 1; fail_at <= count; fail_at++) {
		seen           = 0;
		ccs_result_t r = write();
		if (r != code)
			mc::fail("serializing a %s returned %d when callback %d of %d fails with %d", kname(kind), (int)r, fail_at, count, (int)code);
	}
	fail_at = seen = 0;
	wrote.clear();
	OKX(write());
	if (w.self() != before)
		mc::fail("serializing a %s changed it%s", kname(kind), difference(before, w.self()).c_str());
	auto read = [&](ccs_map_t map, UD *fresh, ccs_object_t *ret) {
		mc::step();
		if (w.vector)
			return map ? ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_VECTOR, w.vector, CCS_DESERIALIZE_OPTION_DATA, (void *)fresh,
							    CCS_DESERIALIZE_OPTION_CALLBACK, deser_cb, (void *)&token, CCS_DESERIALIZE_OPTION_END) :
				     ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_VECTOR, w.vector, CCS_DESERIALIZE_OPTION_DATA, (void *)fresh, CCS_DESERIALIZE_OPTION_CALLBACK, deser_cb,
							    (void *)&token, CCS_DESERIALIZE_OPTION_END);
		return map ? ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_CALLBACK, deser_cb, (void *)&token, CCS_DESERIALIZE_OPTION_END) :
			     ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_CALLBACK, deser_cb, (void *)&token, CCS_DESERIALIZE_OPTION_END);
	};
	count = 0;
	for (fail_at = 0; fail_at <= count; fail_at++) {
		Map map;
		if (w.deps.size()) {
			OKX(ccs_create_map(map.ret()));
			for (auto o : w.deps) {
				ccs_datum_t k = ccs_object(o);
				k.flags |= CCS_DATUM_FLAG_ID;
				OKX(ccs_map_set(map, k, ccs_object(o)));
			}
		}
		UD          *u = w.vector ? w.newud("fresh") : nullptr;
		ccs_object_t o = nullptr;
		seen           = 0;
		readback.clear();
		ccs_result_t r = read(map, u, &o);
		if (!fail_at) {
			count = seen;
			if (r != CCS_RESULT_SUCCESS)
				mc::fail("restoring a %s returned %d", kname(kind), (int)r);
			if (readback != wrote)
				mc::fail("restoring a %s: %zu user data read, %zu were written", kname(kind), readback.size(), wrote.size());
			Obj own(o);
		} else if (r != code || o)
			mc::fail("restoring a %s returned %d%s when callback %d of %d fails with %d", kname(kind), (int)r, o ? " and an object" : "", fail_at, count, (int)code);
		if (u)
			std::vector<Obj>().swap(u->history), std::vector<Obj>().swap(u->optima);
	}
	ccs_clear_thread_error();
}
