// Allocation failures: every call of the interface, with each of its allocations failing in turn.
#include "calls.hpp"

// n-th allocation of the call fails; it must then report an error, give nothing, leave everything as it was,
// and succeed when called again
static void one(const Call &k)
{
	int  prep = mc::choose(k.preps, "preparation");
	long count;
	{ // how many allocations it makes
		Fix f;
		if (k.prep)
			k.prep(f, prep);
		Ctx c(f, 0);
		mc::alloc_fail_at(0);
		ccs_result_t e = k.run(f, c);
		count          = mc::alloc_count();
		if (e != CCS_RESULT_SUCCESS)
			mc::fail("%s returned %d without any failure", k.name, (int)e);
		c.release();
	}
	if (!count)
		return;
	Fix f;
	if (k.prep)
		k.prep(f, prep);
	std::map<void *, int> c0, c1;
	bool                  rngs = !(k.flags & DRAWS), grows = k.flags & GROWS;
	std::string           t0   = f.text(rngs, &c0);
	{
		long n = 1 + mc::choose((int)count, "allocation");
		Ctx  c(f, 0);
		mc::alloc_fail_at(n);
		ccs_result_t e = k.run(f, c);
		mc::step();
		bool failed = mc::alloc_failed();
		mc::alloc_fail_at(0);
		if (!failed)
			mc::fail("%s made %ld allocations, then fewer", k.name, count);
		mc::nontrivial();
		if (e == CCS_RESULT_SUCCESS)
			mc::fail("%s succeeded though its allocation %ld failed", k.name, n);
		if (k.flags & SOME)
			c.some_made(k.name);
		else
			c.nothing_made(k.name);
	}
	std::string t1 = f.text(rngs, &c1);
	if (k.flags & PARTS) // the first ones may have been added
		return;
	if (!grows) {
		if (t0 != t1)
			mc::fail("%s failed but changed something: %s", k.name, difference(t0, t1).c_str());
		if (c0 != c1)
			mc::fail("%s failed but changed a reference count", k.name);
	}
	Ctx          c(f, 0);
	ccs_result_t e = k.run(f, c);
	mc::step();
	if (e != CCS_RESULT_SUCCESS)
		mc::fail("%s returned %d when called again with memory available", k.name, (int)e);
	c.release();
	ccs_clear_thread_error();
	mc::obs((uint64_t)(&k - &book()[0]));
}
MC_SUITE(calls)
{
	int i = mc::choose((int)book().size(), "call");
	mc::shard_point();
	one(book()[(size_t)i]);
}

// ---- reading and writing objects ----------------------------------------------
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

struct Memfd { // a file that lives in memory only
	int         fd;
	std::string path;
	Memfd() : fd(memfd_create("ccs", 0)), path(strf("/proc/self/fd/%d", fd))
	{
		if (fd < 0)
			mc::fail("memfd_create failed");
	}
	~Memfd() { close(fd); }
	std::vector<char> content()
	{
		std::vector<char> v((size_t)lseek(fd, 0, SEEK_END));
		if (pread(fd, v.data(), v.size(), 0) != (ssize_t)v.size())
			mc::fail("pread failed");
		return v;
	}
	void fill(const std::vector<char> &v)
	{
		if (ftruncate(fd, 0) || pwrite(fd, v.data(), v.size(), 0) != (ssize_t)v.size())
			mc::fail("pwrite failed");
		lseek(fd, 0, SEEK_SET);
	}
};
static std::string map_keys(ccs_map_t m)
{
	size_t n = 0;
	if (!m)
		return "";
	OKX(ccs_map_get_keys(m, 0, nullptr, &n));
	std::vector<ccs_datum_t> k(n + 1);
	if (n)
		OKX(ccs_map_get_keys(m, n, k.data(), nullptr));
	std::string s;
	for (size_t i = 0; i < n; i++)
		s += strf("%p ", (void *)k[i].value.o);
	return s;
}
enum { VIA_MEMORY, VIA_FILE, VIA_FD, VIA_STEPS };
static const std::set<int> CONTENT = {CCS_OBJECT_TYPE_DISTRIBUTION, CCS_OBJECT_TYPE_RNG, CCS_OBJECT_TYPE_EXPRESSION, CCS_OBJECT_TYPE_CONFIGURATION, CCS_OBJECT_TYPE_FEATURES, CCS_OBJECT_TYPE_TREE_CONFIGURATION};
static ccs_result_t read_object(World &w, int via, std::vector<char> &b, Memfd &m, ccs_map_t map, UD *u, ccs_object_t *ret)
{
	if (via == VIA_MEMORY)
		return w.restore(b.data(), b.size(), map, u, ret);
	m.fill(b);
	mc::step();
	void *state = nullptr;
	auto  with  = [&](auto... o) {
                if (via == VIA_FILE)
                        return ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, m.path.c_str(), o...);
                if (via == VIA_FD)
                        return ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, m.fd, o...);
                return ccs_object_deserialize(ret, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, m.fd, CCS_DESERIALIZE_OPTION_NON_BLOCKING, &state, o...);
	};
	auto mapped = [&](auto... o) {
		return map ? with(CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, (void *)nullptr, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, o...) : with(CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, (void *)nullptr, o...);
	};
	if (w.vector)
		return mapped(CCS_DESERIALIZE_OPTION_VECTOR, w.vector, CCS_DESERIALIZE_OPTION_DATA, (void *)u, CCS_DESERIALIZE_OPTION_END);
	return mapped(CCS_DESERIALIZE_OPTION_END);
}
static void prepare_map(World &w, Map &map)
{
	if (!w.deps.size())
		return;
	OKX(ccs_create_map(map.ret()));
	for (auto o : w.deps) {
		ccs_datum_t k = ccs_object(o);
		k.flags |= CCS_DATUM_FLAG_ID;
		OKX(ccs_map_set(map, k, ccs_object(o)));
	}
}
MC_SUITE(restore)
{
	int   kind = mc::choose(K_N, "kind");
	World w(mc::thorough());
	w.make(kind);
	int               via = mc::choose(4, "from memory, file, descriptor, non blocking descriptor");
	std::vector<char> b   = w.bytes(w.main);
	Memfd             m;
	std::string       expected;
	long              count;
	auto              drop = [&](UD *u) {
                if (u)
                        std::vector<Obj>().swap(u->history), std::vector<Obj>().swap(u->optima);
	};
	{
		UD *u = w.vector ? w.newud("fresh") : nullptr;
		Map map;
		prepare_map(w, map);
		ccs_object_t o = nullptr;
		mc::alloc_fail_at(0);
		ccs_result_t e = read_object(w, via, b, m, map, u, &o);
		count          = mc::alloc_count();
		ccs_clear_thread_error();
		if (e != CCS_RESULT_SUCCESS)
			mc::fail("reading a %s returned %d", kname(kind), (int)e);
		Obj own(o);
		expected = w.text({o}, CONTENT);
		drop(u);
	}
	if (!count)
		mc::prune();
	long n = 1 + mc::choose((int)count, "allocation");
	UD  *u = w.vector ? w.newud("fresh") : nullptr;
	Map  map;
	prepare_map(w, map);
	std::string           k0 = map_keys(map), t0;
	std::map<void *, int> c0, c1;
	t0 = w.self();
	for (auto o : w.deps)
		c0[o] = refcount(o);
	ccs_object_t o = nullptr;
	mc::alloc_fail_at(n);
	ccs_result_t e      = read_object(w, via, b, m, map, u, &o);
	bool         failed = mc::alloc_failed();
	mc::alloc_fail_at(0);
	if (!failed)
		mc::fail("reading a %s made %ld allocations, then fewer", kname(kind), count);
	mc::nontrivial();
	MC_REQ(e < 0, "reading a %s returned %d though its allocation %ld failed", kname(kind), (int)e, n);
	MC_REQ(!o, "reading a %s failed but gave an object", kname(kind));
	MC_REQ(map_keys(map) == k0, "reading a %s failed but changed the handle map", kname(kind));
	for (auto q : w.deps)
		c1[q] = refcount(q);
	MC_REQ(c0 == c1, "reading a %s failed but changed a reference count", kname(kind));
	std::string t1 = w.self();
	MC_REQ(t0 == t1, "reading a %s failed but changed something %s", kname(kind), difference(t0, t1).c_str());
	ccs_clear_thread_error();
	drop(u);
	if (u)
		u = w.newud("fresh");
	e = read_object(w, via, b, m, map, u, &o);
	MC_REQ(e == CCS_RESULT_SUCCESS, "reading a %s returned %d once memory was available", kname(kind), (int)e);
	Obj         own(o);
	std::string t2 = w.text({o}, CONTENT);
	MC_REQ(t2 == expected, "what is read afterwards differs %s", difference(expected, t2).c_str());
	drop(u);
	map.reset();
	mc::obs((uint64_t)kind);
	mc::obs((uint64_t)via);
}
MC_SUITE(write)
{
	int   kind = mc::choose(K_N, "kind");
	World w(mc::thorough());
	w.make(kind);
	int               via = mc::choose(4, "to memory, file, descriptor, non blocking descriptor");
	std::vector<char> b   = w.bytes(w.main);
	auto              put = [&](Memfd &m, std::vector<char> &out) {
                mc::step();
                void *state = nullptr;
                switch (via) {
                case VIA_MEMORY:
                        out.assign(b.size(), 0);
                        return ccs_object_serialize(w.main, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, out.size(), out.data(), CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END);
                case VIA_FILE:
                        return ccs_object_serialize(w.main, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, m.path.c_str(), CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END);
                case VIA_FD:
                        return ccs_object_serialize(w.main, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, m.fd, CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END);
                default:
                        return ccs_object_serialize(w.main, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, m.fd, CCS_SERIALIZE_OPTION_NON_BLOCKING, &state, CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END);
                }
	};
	long count;
	{
		Memfd             m;
		std::vector<char> o;
		mc::alloc_fail_at(0);
		ccs_result_t e = put(m, o);
		count          = mc::alloc_count();
		MC_REQ(e == CCS_RESULT_SUCCESS, "writing a %s returned %d", kname(kind), (int)e);
	}
	if (!count)
		mc::prune();
	long              n  = 1 + mc::choose((int)count, "allocation");
	std::string       t0 = w.self();
	Memfd             m;
	std::vector<char> out;
	mc::alloc_fail_at(n);
	ccs_result_t e      = put(m, out);
	bool         failed = mc::alloc_failed();
	mc::alloc_fail_at(0);
	if (!failed)
		mc::fail("writing a %s made %ld allocations, then fewer", kname(kind), count);
	mc::nontrivial();
	MC_REQ(e < 0, "writing a %s returned %d though its allocation %ld failed", kname(kind), (int)e, n);
	std::string t1 = w.self();
	MC_REQ(t0 == t1, "writing a %s failed but changed something %s", kname(kind), difference(t0, t1).c_str());
	ccs_clear_thread_error();
	Memfd m2;
	e = put(m2, out);
	MC_REQ(e == CCS_RESULT_SUCCESS, "writing a %s returned %d once memory was available", kname(kind), (int)e);
	if (via != VIA_MEMORY)
		out = m2.content();
	MC_REQ(out == b, "a %s is written differently afterwards", kname(kind));
	mc::obs((uint64_t)kind);
	mc::obs((uint64_t)via);
}
