// Transfers through files and file descriptors, under every answer of the system up to a number of deviations.
#include "catalog.hpp"
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

// ---- controlled descriptors ---------------------------------------------------
struct Chan {
	int               fd = -1;
	std::vector<char> data; // what was written, or what can be read
	size_t            pos     = 0;
	int               left    = 0;     // deviations still allowed
	size_t            quantum = 0;     // else: at most that many bytes, would block every second time
	bool              turn = false, eof = false, err = false;
	int               calls = 0, again = 0;
};
static Chan *chans[2];
static Chan *chan_of(int fd)
{
	for (auto c : chans)
		if (c && c->fd == fd)
			return c;
	return nullptr;
}
static ssize_t answer(Chan *c, size_t n, size_t avail, bool rd)
{
	if (++c->calls > 20000)
		mc::fail("still %s after 20000 calls", rd ? "reading" : "writing");
	size_t m = n < avail ? n : avail;
	if (c->err) {
		errno = EIO;
		return -1;
	}
	if (c->eof)
		return 0;
	if (c->quantum) {
		c->turn = !c->turn;
		if (!c->turn) {
			errno = EAGAIN;
			c->again++;
			return -1;
		}
		return (ssize_t)(m < c->quantum ? m : c->quantum);
	}
	if (!c->left || !n)
		return (ssize_t)m;
	// everything, one byte, half, all but one, interrupted, would block, error, end of file
	int k = mc::choose(rd ? 8 : 7, rd ? "read" : "write");
	if (!k)
		return (ssize_t)m;
	c->left--;
	switch (k) {
	case 1:
		return (ssize_t)(m < 1 ? m : 1);
	case 2:
		return (ssize_t)(m < 4 ? m : m / 2);
	case 3:
		return (ssize_t)(m < 2 ? m : m - 1);
	case 4:
		errno = EINTR;
		return -1;
	case 5:
		errno = EAGAIN;
		c->again++;
		return -1;
	case 6:
		c->err = true;
		errno  = EIO;
		return -1;
	default:
		c->eof = true;
		return 0;
	}
}
// ---- faults of the calls on files -----------------------------------------------
static bool armed; // inside a call of the library
static int  fault_call, fault_errno, opened, mapped;
enum { F_NONE, F_OPEN, F_FSTAT, F_MMAP, F_FTRUNCATE, F_MSYNC, F_N };
static bool faulted;
static bool deny(int f)
{
	if (!armed || fault_call != f)
		return false;
	faulted = true;
	errno   = fault_errno;
	return true;
}
extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int     __real_open(const char *, int, ...);
int     __real_close(int);
int     __real_fstat(int, struct stat *);
void   *__real_mmap(void *, size_t, int, int, int, off_t);
int     __real_munmap(void *, size_t);
int     __real_ftruncate(int, off_t);
int     __real_msync(void *, size_t, int);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	Chan *c = chan_of(fd);
	if (!c)
		return __real_read(fd, b, n);
	ssize_t k = answer(c, n, c->data.size() - c->pos, true);
	if (k > 0) {
		memcpy(b, c->data.data() + c->pos, (size_t)k);
		c->pos += (size_t)k;
	}
	return k;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	Chan *c = chan_of(fd);
	if (!c)
		return __real_write(fd, b, n);
	ssize_t k = answer(c, n, n, false);
	if (k > 0)
		c->data.insert(c->data.end(), (const char *)b, (const char *)b + k);
	return k;
}
int __wrap_open(const char *p, int fl, ...)
{
	va_list a;
	va_start(a, fl);
	int m = fl & O_CREAT ? va_arg(a, int) : 0;
	va_end(a);
	if (deny(F_OPEN))
		return -1;
	int fd = __real_open(p, fl, m);
	if (armed && fd >= 0)
		opened++;
	return fd;
}
int __wrap_close(int fd)
{
	if (armed)
		opened--;
	return __real_close(fd);
}
int __wrap_fstat(int fd, struct stat *s) { return deny(F_FSTAT) ? -1 : __real_fstat(fd, s); }
void *__wrap_mmap(void *p, size_t n, int pr, int fl, int fd, off_t o)
{
	if (deny(F_MMAP))
		return MAP_FAILED;
	void *r = __real_mmap(p, n, pr, fl, fd, o);
	if (armed && r != MAP_FAILED)
		mapped++;
	return r;
}
int __wrap_munmap(void *p, size_t n)
{
	if (armed)
		mapped--;
	return __real_munmap(p, n);
}
int __wrap_ftruncate(int fd, off_t n) { return deny(F_FTRUNCATE) ? -1 : __real_ftruncate(fd, n); }
int __wrap_msync(void *p, size_t n, int f) { return deny(F_MSYNC) ? -1 : __real_msync(p, n, f); }
}
struct Armed {
	Armed() { armed = true; }
	~Armed() { armed = false; }
};
struct Open { // the channel of one transfer
	Chan c;
	int  slot;
	explicit Open(int s) : slot(s)
	{
		c.fd     = __real_open("/dev/null", O_RDWR);
		chans[s] = &c;
	}
	~Open()
	{
		chans[slot] = nullptr;
		__real_close(c.fd);
	}
};
static int some_vector;
static ccs_result_t put(World &, ccs_object_t o, int fd, void **state)
{
	Armed a;
	mc::step();
	if (state)
		return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr,
					    CCS_SERIALIZE_OPTION_NON_BLOCKING, state, CCS_SERIALIZE_OPTION_END);
	return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END);
}
static ccs_result_t get(World &w, ccs_object_t *o, int fd, void **state, ccs_map_t map, UD *u)
{
	Armed a;
	mc::step();
	void *v = w.vector ? (void *)w.vector : &some_vector;
	if (state)
		return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_VECTOR, v,
					      CCS_DESERIALIZE_OPTION_DATA, (void *)u, CCS_DESERIALIZE_OPTION_NON_BLOCKING, state, CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, (void *)nullptr,
					      CCS_DESERIALIZE_OPTION_END);
	return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_DESERIALIZE_OPTION_HANDLE_MAP, map, CCS_DESERIALIZE_OPTION_VECTOR, v,
				      CCS_DESERIALIZE_OPTION_DATA, (void *)u, CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, (void *)nullptr, CCS_DESERIALIZE_OPTION_END);
}
static void depmap(World &w, Map &m)
{
	OKX(ccs_create_map(m.ret()));
	for (auto o : w.deps) {
		ccs_datum_t k = ccs_object(o);
		k.flags |= CCS_DATUM_FLAG_ID;
		OKX(ccs_map_set(m, k, ccs_object(o)));
	}
}
static size_t keys(ccs_map_t m)
{
	size_t n = 0;
	OKX(ccs_map_get_keys(m, 0, nullptr, &n));
	return n;
}
// restored from memory: what every other way of transfer must give
static std::string expected(World &w, const std::vector<char> &b)
{
	Map m;
	depmap(w, m);
	UD          *u = w.vector ? w.newud("fresh") : nullptr;
	ccs_object_t o = nullptr;
	OKX(w.restore(b.data(), b.size(), m, u, &o));
	std::string t;
	{
		Obj own(o);
		t = w.text({o}, {});
	}
	m.reset();
	if (u)
		u->history.clear(), u->optima.clear(), w.dropud(u);
	return t;
}
static const int SMALL[] = {K_RNG, K_UNIFORM, K_PCAT, K_EVAR, K_CSPACE, K_EVA, K_TCFG, K_UTUNER, K_MAP};
static bool      large; // large objects instead
static void      make(World &w, bool all)
{
	if (large) {
		w.choose_big(false);
		return;
	}
	w.make(all ? mc::choose(K_N, "kind") : SMALL[mc::choose(9, "kind")]);
	if (int d = mc::choose(3, "user data"))
		w.attach(d == 1 ? 2 : 3 + 3, false); // short ones everywhere, or a long one
	mc::shard_point();
}
static void written(World &w, Chan &c, bool nb, const std::vector<char> &b)
{
	void        *st = nullptr;
	ccs_result_t r;
	int          again = 0;
	long         live = mc::live_blocks();
	for (;;) {
		r = put(w, w.main, c.fd, nb ? &st : nullptr);
		if (r != CCS_RESULT_AGAIN)
			break;
		MC_REQ(nb, "%s", "blocking serialization asks to try again");
		MC_REQ(st, "%s", "nothing to resume from");
		MC_REQ(c.again == ++again, "told to try again %d times, the system said so %d times", again, c.again);
		if (again == 1) {
			ccs_result_t x = put(w, w.main, c.fd + 1, &st);
			MC_REQ(x < 0 && st, "resuming on another descriptor returned %d", (int)x);
		}
	}
	MC_REQ(!st, "%s", "a state is left after the transfer has ended");
	size_t n = c.data.size();
	MC_REQ(n <= b.size() && !memcmp(c.data.data(), b.data(), n), "%zu bytes written differ from the bytes in memory", n);
	if (c.err)
		MC_REQ(r == CCS_RESULT_ERROR_SYSTEM, "system error, returned %d", (int)r);
	else {
		MC_REQ(r == CCS_RESULT_SUCCESS, "returned %d", (int)r);
		MC_REQ(n == b.size(), "%zu bytes written of %zu", n, b.size());
	}
	ccs_clear_thread_error();
	c.data.shrink_to_fit();
	std::vector<char>().swap(c.data);
	MC_REQ(mc::live_blocks() == live, "%ld blocks left behind", mc::live_blocks() - live);
	mc::obs((uint64_t)(r + 100) * 1000 + n);
}
static size_t quantum;
static void   do_write(bool all, int dev)
{
	World w(false);
	make(w, all);
	bool nb = mc::flip("non blocking");
	auto b  = w.bytes(w.main);
	mc::nontrivial();
	{
		Open o(0); // so that what is allocated once and for all is
		written(w, o.c, nb, b);
	}
	Open o(0);
	o.c.left    = dev;
	o.c.quantum = quantum;
	written(w, o.c, nb, b);
	MC_REQ(b == w.bytes(w.main), "%s", "the object serializes differently afterwards");
}
MC_SUITE(write_schedules) { do_write(false, mc::tier_bound(3, 5)); }
MC_SUITE(write_all_kinds) { do_write(true, mc::tier_bound(1, 3)); }

static void readback(World &w, Chan &c, bool nb, const std::vector<char> &b, const std::string &want)
{
	void        *st = nullptr;
	ccs_object_t o  = nullptr;
	ccs_result_t r;
	int          again = 0;
	Map          m;
	depmap(w, m);
	UD    *u  = w.vector ? w.newud("fresh") : nullptr;
	size_t n0 = keys(m);
	for (;;) {
		r = get(w, &o, c.fd, nb ? &st : nullptr, m, u);
		if (r != CCS_RESULT_AGAIN)
			break;
		MC_REQ(nb, "%s", "blocking deserialization asks to try again");
		MC_REQ(st, "%s", "nothing to resume from");
		MC_REQ(!o, "%s", "an object before the end of the transfer");
		MC_REQ(c.again == ++again, "told to try again %d times, the system said so %d times", again, c.again);
		if (again == 1) {
			ccs_result_t x = get(w, &o, c.fd + 1, &st, m, u);
			MC_REQ(x < 0 && st && !o, "resuming on another descriptor returned %d", (int)x);
		}
	}
	MC_REQ(!st, "%s", "a state is left after the transfer has ended");
	if (c.err || c.eof) {
		if (c.err)
			MC_REQ(r == CCS_RESULT_ERROR_SYSTEM, "system error, returned %d", (int)r);
		else
			MC_REQ(r < 0, "end of file after %zu of %zu bytes, returned %d", c.pos, b.size(), (int)r);
		MC_REQ(!o, "%s", "error, but an object is returned");
		MC_REQ(keys(m) == n0, "%s", "error, but an object is recorded");
	} else {
		MC_REQ(r == CCS_RESULT_SUCCESS, "returned %d", (int)r);
		MC_REQ(c.pos == b.size(), "%zu bytes consumed, the object has %zu", c.pos, b.size());
		Obj         own(o);
		std::string t = w.text({o}, {});
		MC_REQ(t == want, "differs from the object restored from memory %s", difference(want, t).c_str());
	}
	m.reset();
	if (u)
		u->history.clear(), u->optima.clear(), w.dropud(u);
	mc::obs((uint64_t)(r + 100) * 1000 + c.pos);
}
static void do_read(bool all, int dev)
{
	World w(false);
	make(w, all);
	bool nb   = mc::flip("non blocking");
	auto b    = w.bytes(w.main);
	auto want = expected(w, b);
	mc::nontrivial();
	Open o(0);
	o.c.left    = dev;
	o.c.quantum = quantum;
	o.c.data    = b;
	o.c.data.insert(o.c.data.end(), b.begin(), b.end()); // followed by something else
	readback(w, o.c, nb, b, want);
}
MC_SUITE(read_schedules) { do_read(false, mc::tier_bound(3, 4)); }
MC_SUITE(read_all_kinds) { do_read(true, mc::tier_bound(1, 3)); }
// the stream ends after any number of bytes
MC_SUITE(read_ends)
{
	World w(false);
	make(w, true);
	bool nb = mc::flip("non blocking");
	auto b  = w.bytes(w.main);
	mc::nontrivial();
	for (size_t n = 0; n < b.size(); n++) {
		Open o(0);
		o.c.data.assign(b.begin(), b.begin() + (long)n);
		o.c.quantum = n % 3;
		Map m;
		depmap(w, m);
		UD          *u  = w.vector ? w.newud("fresh") : nullptr;
		size_t       n0 = keys(m);
		ccs_object_t x  = nullptr;
		void        *st = nullptr;
		ccs_result_t r;
		while ((r = get(w, &x, o.c.fd, nb ? &st : nullptr, m, u)) == CCS_RESULT_AGAIN)
			MC_REQ(nb && st && !x, "%s", "asked to try again");
		MC_REQ(r == CCS_RESULT_ERROR_NOT_ENOUGH_DATA && !x && !st && keys(m) == n0, "%zu of %zu bytes: returned %d", n, b.size(), (int)r);
		m.reset();
		if (u)
			w.dropud(u);
	}
}
// two transfers going on at the same time
MC_SUITE(two_transfers)
{
	static const int quanta[] = {1 << 20, 40, 20};
	World            w(false), v(false);
	w.make(SMALL[mc::choose(9, "kind")]);
	v.make(SMALL[mc::choose(9, "other kind")]);
	int  mode = mc::choose(3, "both written, one read, both read");
	int  q    = quanta[mc::choose(3, "quantum")];
	mc::shard_point();
	mc::nontrivial();
	World            *ws[2] = {&w, &v};
	Open              ch[2] = {Open(0), Open(1)};
	for (int i = 0; i < 2; i++)
		chans[i] = &ch[i].c;
	std::vector<char> b[2];
	std::string       want[2];
	Map               m[2];
	UD               *u[2]  = {};
	ccs_object_t      got[2] = {};
	void             *st[2] = {};
	bool              rd[2] = {mode == 2, mode >= 1}, done[2] = {};
	for (int i = 0; i < 2; i++) {
		b[i]           = ws[i]->bytes(ws[i]->main);
		ch[i].c.quantum = (size_t)q < b[i].size() / 3 + 1 ? b[i].size() / 3 + 1 : (size_t)q;
		if (rd[i]) {
			want[i]      = expected(*ws[i], b[i]);
			ch[i].c.data = b[i];
			depmap(*ws[i], m[i]);
			u[i] = ws[i]->vector ? ws[i]->newud("fresh") : nullptr;
		}
	}
	while (!done[0] || !done[1]) {
		int i = done[0] ? 1 : done[1] ? 0 : mc::choose(2, "who goes on");
		if (ch[i].c.calls > 200)
			mc::fail("transfer %d does not end", i);
		ccs_result_t r = rd[i] ? get(*ws[i], &got[i], ch[i].c.fd, &st[i], m[i], u[i]) : put(*ws[i], ws[i]->main, ch[i].c.fd, &st[i]);
		if (r == CCS_RESULT_AGAIN) {
			MC_REQ(st[i], "%s", "nothing to resume from");
			continue;
		}
		done[i] = true;
		MC_REQ(r == CCS_RESULT_SUCCESS && !st[i], "transfer %d returned %d", i, (int)r);
		if (rd[i]) {
			Obj         own(got[i]);
			std::string t = ws[i]->text({got[i]}, {});
			MC_REQ(t == want[i], "transfer %d: differs from the object restored from memory %s", i, difference(want[i], t).c_str());
		} else
			MC_REQ(ch[i].c.data == b[i], "transfer %d: bytes differ", i);
	}
	for (int i = 0; i < 2; i++) {
		m[i].reset();
		if (u[i])
			u[i]->history.clear(), u[i]->optima.clear(), ws[i]->dropud(u[i]);
	}
}
// ---- files --------------------------------------------------------------------
struct Scratch {
	std::string dir, path;
	Scratch()
	{
		const char *base = getenv("MC_SCRATCH");
		dir  = mc::strf("%s/p04-%d", base ? base : "/tmp", (int)getpid());
		path = dir + "/object";
		mkdir(dir.c_str(), 0700);
		unlink(path.c_str());
	}
	~Scratch()
	{
		unlink(path.c_str());
		rmdir(dir.c_str());
	}
	void store(const char *p, size_t n)
	{
		FILE *f = fopen(path.c_str(), "w");
		if (!f || fwrite(p, 1, n, f) != n || fclose(f))
			mc::fail("cannot write %s", path.c_str());
	}
	std::vector<char> load()
	{
		std::vector<char> v(4 << 20);
		FILE             *f = fopen(path.c_str(), "r");
		if (!f)
			return {};
		v.resize(fread(v.data(), 1, v.size(), f));
		fclose(f);
		return v;
	}
};
static ccs_result_t put_file(ccs_object_t o, const char *path)
{
	Armed a;
	mc::step();
	opened = mapped = 0, faulted = false;
	return ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path, CCS_SERIALIZE_OPTION_CALLBACK, ud_ser, (void *)nullptr, CCS_SERIALIZE_OPTION_END);
}
static ccs_result_t get_file(World &w, ccs_object_t *o, const char *path, ccs_map_t m, UD *u)
{
	Armed a;
	mc::step();
	opened = mapped = 0, faulted = false;
	void *v = w.vector ? (void *)w.vector : &some_vector;
	return ccs_object_deserialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path, CCS_DESERIALIZE_OPTION_HANDLE_MAP, m, CCS_DESERIALIZE_OPTION_VECTOR, v,
				      CCS_DESERIALIZE_OPTION_DATA, (void *)u, CCS_DESERIALIZE_OPTION_CALLBACK, ud_deser, (void *)nullptr, CCS_DESERIALIZE_OPTION_END);
}
static void closed() { MC_REQ(!opened && !mapped, "%d descriptors and %d mappings left", opened, mapped); }
static int  choose_fault()
{
	static const int errs[] = {EIO, ENOMEM, EACCES};
	int              f      = mc::choose(F_N, "failing call");
	fault_errno             = f ? errs[mc::choose(3, "errno")] : 0;
	return f;
}
static void file_write()
{
	World w(false);
	make(w, true);
	int before = mc::choose(3, "no file, shorter, longer");
	fault_call = F_NONE;
	int  f     = large ? F_NONE : choose_fault();
	auto b     = w.bytes(w.main);
	mc::nontrivial();
	Scratch           s;
	std::vector<char> old(before == 1 ? 7 : b.size() + 5000, 'x');
	if (before)
		s.store(old.data(), old.size());
	fault_call     = f;
	ccs_result_t r = put_file(w.main, s.path.c_str());
	fault_call     = F_NONE;
	closed();
	if (faulted)
		MC_REQ(r < 0, "failed system call %d, returned %d", f, (int)r);
	else {
		MC_REQ(r == CCS_RESULT_SUCCESS, "returned %d", (int)r);
		MC_REQ(s.load() == b, "%s", "the file does not hold the bytes of the object");
	}
	r = put_file(w.main, s.path.c_str());
	MC_REQ(r == CCS_RESULT_SUCCESS && s.load() == b, "second serialization returned %d", (int)r);
	MC_REQ(put_file(w.main, (s.dir + "/absent/object").c_str()) == CCS_RESULT_ERROR_INVALID_FILE_PATH, "%s", "no error for an impossible path");
	closed();
	mc::obs((uint64_t)(f * 10 + before));
}
MC_SUITE(file_write) { file_write(); }
static void file_read()
{
	World w(false);
	make(w, true);
	fault_call = F_NONE;
	int  f     = large ? F_NONE : choose_fault();
	auto b     = w.bytes(w.main);
	auto want  = expected(w, b);
	mc::nontrivial();
	Scratch s;
	bool    more = !f && mc::flip("trailing bytes");
	auto    c    = b;
	if (more)
		c.insert(c.end(), b.begin(), b.end());
	s.store(c.data(), c.size());
	Map m;
	depmap(w, m);
	UD          *u  = w.vector ? w.newud("fresh") : nullptr;
	size_t       n0 = keys(m);
	ccs_object_t o  = nullptr;
	MC_REQ(get_file(w, &o, (s.dir + "/absent").c_str(), m, u) == CCS_RESULT_ERROR_INVALID_FILE_PATH, "%s", "no error for an absent file");
	fault_call     = f;
	ccs_result_t r = get_file(w, &o, s.path.c_str(), m, u);
	fault_call     = F_NONE;
	closed();
	if (faulted) {
		MC_REQ(r < 0 && !o && keys(m) == n0, "failed system call %d, returned %d", f, (int)r);
		r = get_file(w, &o, s.path.c_str(), m, u);
	}
	MC_REQ(r == CCS_RESULT_SUCCESS, "returned %d", (int)r);
	{
		Obj         own(o);
		std::string t = w.text({o}, {});
		MC_REQ(t == want, "differs from the object restored from memory %s", difference(want, t).c_str());
	}
	m.reset();
	if (u)
		u->history.clear(), u->optima.clear(), w.dropud(u);
	MC_REQ(s.load() == c, "%s", "the file has changed");
	mc::obs((uint64_t)f);
}
MC_SUITE(file_read) { file_read(); }
MC_SUITE(file_ends)
{
	World w(false);
	make(w, true);
	fault_call = F_NONE;
	auto b     = w.bytes(w.main);
	mc::nontrivial();
	Scratch s;
	Map     m;
	depmap(w, m);
	UD    *u  = w.vector ? w.newud("fresh") : nullptr;
	size_t n0 = keys(m);
	for (size_t n = 0; n < b.size(); n++) {
		s.store(b.data(), n);
		ccs_object_t o = nullptr;
		ccs_result_t r = get_file(w, &o, s.path.c_str(), m, u);
		MC_REQ(r < 0 && !o && keys(m) == n0, "file of %zu of %zu bytes, returned %d", n, b.size(), (int)r);
		closed();
	}
	m.reset();
	if (u)
		w.dropud(u);
}
// objects larger than any buffer
struct Large {
	Large() { large = true, quantum = 0; }
	~Large() { large = false, quantum = 0; }
};
static void choose_quantum()
{
	static const size_t q[] = {0, 100, 4096, 65536};
	quantum                 = q[mc::choose(4, "quantum")];
}
MC_SUITE(large_write)
{
	Large l;
	choose_quantum();
	do_write(true, quantum ? 0 : mc::tier_bound(1, 2));
}
MC_SUITE(large_read)
{
	Large l;
	choose_quantum();
	do_read(true, quantum ? 0 : mc::tier_bound(1, 2));
}
MC_SUITE(large_file)
{
	Large l;
	if (mc::flip("read"))
		file_read();
	else
		file_write();
}
