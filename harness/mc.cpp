#include "mc.hpp"
#include <csignal>
#include <fcntl.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>
#include <unordered_set>
#include <cinttypes>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>

namespace mc {
static const int MAXC = 4096;
struct Shared { // survives a crash of the worker
	volatile uint64_t progress;
	volatile int      suite;
	volatile int      n;
	volatile int      phase; // 0 idle, 1 in case, 2 violation recorded, 3 finished
	volatile uint16_t c[MAXC];
	char              msg[4096];
};
static Shared *sh;

struct State {
	std::vector<uint16_t> tape, lim;
	size_t                pos = 0;
	int                   shard = 0, nshards = 1;
	bool                  sharded = false;
	bool                  thorough = false;
	bool                  replay = false;
	uint64_t              h = 0;
	bool                  nontriv = false;
	uint64_t              steps = 0;
} st;
static bool verbose = false;
struct Skip {};

static std::vector<Suite *> &suites()
{
	static std::vector<Suite *> s;
	return s;
}
Suite::Suite(const char *n, void (*b)(), bool l) : name(n), body(b), leak_check(l) { suites().push_back(this); }

static uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	h ^= h >> 33;
	return h;
}

static void die(const char *m)
{
	fprintf(stderr, "mc: internal error: %s\n", m);
	_exit(9);
}

int choose(int n, const char *label)
{
	if (n <= 0)
		die("choose(0)");
	if (n == 1)
		return 0;
	if (st.pos >= (size_t)MAXC)
		die("choice sequence too long");
	uint16_t v;
	if (st.pos < st.tape.size()) {
		v = st.tape[st.pos];
		if (v >= n)
			die("replay divergence: choice out of range");
		if (st.lim.size() > st.pos && st.lim[st.pos] != n && st.lim[st.pos] != 0)
			die("replay divergence: different number of alternatives");
		if (st.lim.size() <= st.pos)
			st.lim.resize(st.pos + 1, 0);
		st.lim[st.pos] = (uint16_t)n;
	} else {
		v = 0;
		st.tape.push_back(0);
		st.lim.push_back((uint16_t)n);
	}
	sh->c[st.pos] = v;
	st.pos++;
	sh->n = (int)st.pos;
	if (verbose)
		fprintf(stderr, "  choice %s = %d/%d\n", label ? label : "", v, n);
	return v;
}

void shard_point()
{
	if (st.sharded)
		return;
	st.sharded = true;
	if (st.replay || st.nshards == 1)
		return;
	uint64_t h = 12345;
	for (size_t i = 0; i < st.pos; i++)
		h = mix(h, st.tape[i] + 1);
	if ((int)(h % (uint64_t)st.nshards) != st.shard)
		throw Skip();
}
void prune() { throw Skip(); }
bool thorough() { return st.thorough; }
int  tier_bound(int q, int t) { return st.thorough ? t : q; }

static void vrecord(const char *s)
{
	strncpy(sh->msg, s, sizeof(sh->msg) - 1);
	sh->phase = 2;
	msync(sh, sizeof(*sh), MS_SYNC);
	fprintf(stderr, "MC-VIOLATION %s\n", s);
	fflush(nullptr);
	_exit(3);
}
void fail_at(const char *file, int line, const char *cond, const char *fmt, ...)
{
	char    b[2048], b2[4000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	const char *f = strrchr(file, '/');
	snprintf(b2, sizeof b2, "%s:%d: [%s] %s", f ? f + 1 : file, line, cond, b);
	vrecord(b2);
	_exit(3);
}
void fail(const char *fmt, ...)
{
	char    b[3000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	vrecord(b);
	_exit(3);
}
void require(bool cond, const char *fmt, ...)
{
	if (cond)
		return;
	char    b[3000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	vrecord(b);
}
void step(const char *fmt, ...)
{
	st.steps++;
	if (verbose && fmt) {
		va_list ap;
		va_start(ap, fmt);
		fprintf(stderr, "  step ");
		vfprintf(stderr, fmt, ap);
		fprintf(stderr, "\n");
		va_end(ap);
	}
}
void obs(uint64_t v) { st.h = mix(st.h, v); }
void obs_bytes(const void *p, size_t n)
{
	for (size_t i = 0; i < n; i++)
		st.h = mix(st.h, ((const unsigned char *)p)[i]);
}
void nontrivial() { st.nontriv = true; }

std::string strf(const char *fmt, ...)
{
	char    b[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (n < (int)sizeof b)
		return b;
	std::string s((size_t)n + 1, 0);
	va_start(ap, fmt);
	vsnprintf(&s[0], s.size(), fmt, ap);
	va_end(ap);
	s.resize((size_t)n);
	return s;
}
std::string dstr(const ccs_datum_t &d)
{
	switch (d.type) {
	case CCS_DATA_TYPE_NONE:
		return "none";
	case CCS_DATA_TYPE_INACTIVE:
		return "inactive";
	case CCS_DATA_TYPE_INT:
		return strf("int(%" PRId64 ")", (int64_t)d.value.i);
	case CCS_DATA_TYPE_FLOAT:
		return strf("float(%.17g)", d.value.f);
	case CCS_DATA_TYPE_BOOL:
		return d.value.i ? "true" : "false";
	case CCS_DATA_TYPE_STRING:
		return strf("\"%s\"", d.value.s);
	case CCS_DATA_TYPE_OBJECT:
		return strf("object%s", (d.flags & CCS_DATUM_FLAG_ID) ? "-id" : "");
	default:
		return strf("?type%d", (int)d.type);
	}
}
bool deq(const ccs_datum_t &a, const ccs_datum_t &b)
{
	if (a.type != b.type)
		return false;
	switch (a.type) {
	case CCS_DATA_TYPE_INT:
		return a.value.i == b.value.i;
	case CCS_DATA_TYPE_FLOAT:
		return a.value.f == b.value.f || (a.value.f != a.value.f && b.value.f != b.value.f);
	case CCS_DATA_TYPE_BOOL:
		return !a.value.i == !b.value.i;
	case CCS_DATA_TYPE_STRING:
		return a.value.s == b.value.s || (a.value.s && b.value.s && !strcmp(a.value.s, b.value.s));
	case CCS_DATA_TYPE_OBJECT:
		return a.value.o == b.value.o;
	default:
		return true;
	}
}

// ---- allocator ---------------------------------------------------------------
static thread_local int hook_off = 0;
static volatile long    live     = 0;
static void             hook_malloc(const volatile void *p, size_t)
{
	if (p && !hook_off)
		__atomic_add_fetch(&live, 1, __ATOMIC_RELAXED);
}
static void hook_free(const volatile void *p)
{
	if (p && !hook_off)
		__atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
}
long          live_blocks() { return live; }
static long   a_fail = 0, a_count = 0, a_big = 0;
static bool   a_failed = false;
static size_t a_limit  = 0;
void          alloc_fail_at(long n)
{
	a_fail   = n;
	a_count  = 0;
	a_big    = 0;
	a_failed = false;
}
long        alloc_count() { return a_count; }
bool        alloc_failed() { return a_failed; }
long        alloc_biggest() { return a_big; }
void        alloc_limit(size_t n) { a_limit = n; }
static bool deny(size_t sz)
{
	a_count++;
	if ((long)sz > a_big)
		a_big = (long)sz;
	if (a_limit && sz > a_limit)
		return true;
	if (a_fail && a_count == a_fail) {
		a_failed = true;
		return true;
	}
	return false;
}
} // namespace mc
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
void *__wrap_malloc(size_t n)
{
	return mc::deny(n) ? nullptr : __real_malloc(n);
}
void *__wrap_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		mc::a_count++;
		return nullptr;
	}
	return mc::deny(n) ? nullptr : __real_calloc(a, b);
}
void *__wrap_realloc(void *p, size_t n)
{
	return mc::deny(n) ? nullptr : __real_realloc(p, n);
}
char *__wrap_strdup(const char *s)
{
	return mc::deny(strlen(s) + 1) ? nullptr : __real_strdup(s);
}
const char *__asan_default_options()
{
	return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=4:handle_abort=1:handle_sigfpe=1:quarantine_size_mb=16:malloc_context_size=8:max_allocation_size_mb=4096:detect_stack_use_after_return=0";
}
const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=4"; }
}
namespace mc {
struct Off { Off() { hook_off++; } ~Off() { hook_off--; } };
// ---- tape rng ------------------------------------------------------------------
static std::vector<uint32_t> t_grid{0u}, t_log, t_fixed;
static int                   t_budget = 0;
static uint64_t              t_n      = 0;
static bool                  t_isfixed = false;
void                         tape_config(const std::vector<uint32_t> &g, int b)
{
	Off o;
	t_grid    = g;
	t_budget  = b;
	t_n       = 0;
	t_isfixed = false;
	t_log.clear();
}
void tape_fixed(const std::vector<uint32_t> &s)
{
	Off o;
	t_fixed   = s;
	t_isfixed = true;
	t_n       = 0;
	t_log.clear();
}
const std::vector<uint32_t> &tape_log() { return t_log; }
double                       tape_unit(uint32_t r) { return r / 4294967296.0; }
static unsigned long         tape_get(void *)
{
	uint32_t v;
	t_n++;
	if (t_isfixed) {
		if (t_n <= t_fixed.size())
			v = t_fixed[t_n - 1];
		else
			v = (uint32_t)((t_n - t_fixed.size()) * 2654435769u) ^ 0x1234567u;
	} else if (t_n <= (uint64_t)t_budget)
		v = t_grid[(size_t)choose((int)t_grid.size(), "draw")];
	else
		v = (uint32_t)((t_n - (uint64_t)t_budget) * 2654435769u) ^ 0x1234567u;
	{
		Off o;
		t_log.push_back(v);
	}
	return v;
}
static double             tape_getd(void *s) { return tape_get(s) / 4294967296.0; }
static void               tape_set(void *, unsigned long) {}
static const gsl_rng_type tape_type = {"mc_tape", 0xffffffffUL, 0, 8, tape_set, tape_get, tape_getd};
void                      tape_default() { gsl_rng_default = &tape_type; } // generators of the default type are tapes from now on
ccs_rng_t                 tape_rng()
{
	ccs_rng_t r = nullptr;
	if (ccs_create_rng_with_type(&tape_type, &r) != CCS_RESULT_SUCCESS)
		fail("cannot create an rng");
	return r;
}

// ---- driver -----------------------------------------------------------------
static bool advance()
{
	st.tape.resize(st.pos);
	st.lim.resize(st.pos);
	while (!st.tape.empty()) {
		if (st.tape.back() + 1 < st.lim.back()) {
			st.tape.back()++;
			return true;
		}
		st.tape.pop_back();
		st.lim.pop_back();
	}
	return false;
}
static void reset_lib()
{
	ccs_clear_thread_error();
	alloc_fail_at(0);
	alloc_limit(0);
	tape_config({0u}, 0);
}
// returns true if executed, false if abandoned
static bool run_once(Suite *s)
{
	st.pos     = 0;
	st.sharded = false;
	st.h       = 1469598103934665603ULL;
	st.nontriv = false;
	t_log.clear();
	sh->n      = 0;
	sh->phase  = 1;
	bool done  = true;
	try {
		s->body();
	} catch (Skip &) {
		done = false;
	}
	reset_lib();
	sh->phase = 0;
	sh->progress++;
	return done;
}
static long measured_run(Suite *s, bool *done)
{
	reset_lib();
	st.tape.reserve(MAXC);
	st.lim.reserve(MAXC);
	long before = live;
	*done       = run_once(s);
	return live - before;
}
static std::string choices_str()
{
	std::string r;
	for (size_t i = 0; i < st.pos; i++)
		r += (i ? "," : "") + std::to_string(st.tape[i]);
	return r;
}
} // namespace mc

int main(int argc, char **argv)
{
	using namespace mc;
	std::string shm, out, replay, only, list;
	int         first_choice = -1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto        nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--shm")
			shm = nx();
		else if (a == "--out")
			out = nx();
		else if (a == "--shard")
			st.shard = atoi(nx().c_str());
		else if (a == "--nshards")
			st.nshards = atoi(nx().c_str());
		else if (a == "--tier")
			st.thorough = nx() == "thorough";
		else if (a == "--replay")
			replay = nx();
		else if (a == "--suite")
			only = nx();
		else if (a == "-v")
			verbose = true;
		else if (a == "--first") // only executions that begin with this choice (for development)
			first_choice = atoi(nx().c_str());
		else if (a == "--list") {
			for (auto s : suites())
				printf("%s\n", s->name);
			return 0;
		}
	}
	size_t sz = sizeof(Shared);
	if (!shm.empty()) {
		int fd = open(shm.c_str(), O_RDWR | O_CREAT, 0644);
		if (fd < 0 || ftruncate(fd, (off_t)sz))
			die("shm");
		sh = (Shared *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
	} else
		sh = (Shared *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED)
		die("mmap");
	__sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
	{ // warm up lazily allocated thread state
		ccs_clear_thread_error();
		(void)ccs_retain_object(nullptr);
		ccs_clear_thread_error();
	}

	if (!replay.empty()) { // --replay suite:c0,c1,...
		size_t      p = replay.find(':');
		std::string n = replay.substr(0, p), cs = replay.substr(p + 1);
		Suite      *s = nullptr;
		for (auto x : suites())
			if (n == x->name)
				s = x;
		if (!s)
			die("no such suite");
		st.replay = true;
		std::vector<uint16_t> tape;
		for (size_t i = 0; i < cs.size();) {
			tape.push_back((uint16_t)atoi(cs.c_str() + i));
			i = cs.find(',', i);
			if (i == std::string::npos)
				break;
			i++;
		}
		if (cs.empty())
			tape.clear();
		for (int k = 0; k < 3; k++) {
			st.tape = tape;
			st.lim.clear();
			bool done;
			long d = measured_run(s, &done);
			if (s->leak_check && d != 0 && k > 0)
				fail("leak: %ld blocks still allocated after everything was released", d);
		}
		printf("replay: ok\n");
		return 0;
	}

	struct timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
	fprintf(f, "{\"suites\":[");
	bool first = true;
	for (size_t si = 0; si < suites().size(); si++) {
		Suite *s = suites()[si];
		if (!only.empty() && only != s->name)
			continue;
		sh->suite = (int)si;
		st.tape.clear();
		st.lim.clear();
		if (first_choice >= 0)
			st.tape.push_back((uint16_t)first_choice);
		uint64_t                     cases = 0, steps0 = st.steps, nodes = 0, nontriv = 0;
		std::unordered_set<uint64_t> outcomes;
		size_t                       maxdepth = 0;
		std::string                  sample;
		std::vector<uint16_t>        prev;
		do {
			uint64_t steps_before = st.steps;
			bool     done;
			long     d = measured_run(s, &done);
			bool     mine = done && (st.sharded || st.shard == 0 || st.nshards == 1);
			if (!mine) {
				st.steps = steps_before;
				continue;
			}
			if (s->leak_check && d != 0) {
				// a lazily initialised cache is not a leak: it must recur on the same execution
				auto tape = st.tape;
				auto pos  = st.pos;
				tape.resize(pos);
				st.tape = tape;
				bool done2;
				long d2 = measured_run(s, &done2);
				if (d2 != 0) {
					st.tape = tape;
					long d3 = measured_run(s, &done2);
					if (d3 != 0)
						fail("leak: %ld blocks still allocated after everything was released", d3);
				}
			}
			cases++;
			hook_off++;
			size_t common = 0;
			while (common < prev.size() && common < st.pos && prev[common] == st.tape[common])
				common++;
			nodes += st.pos - common + (cases == 1 ? 1 : 0);
			prev.assign(st.tape.begin(), st.tape.begin() + (long)st.pos);
			if (outcomes.size() < 4000000)
				outcomes.insert(st.h);
			if (st.nontriv)
				nontriv++;
			if (st.pos > maxdepth)
				maxdepth = st.pos;
			if (cases == 1 || (cases & (cases - 1)) == 0)
				sample = choices_str();
			hook_off--;
		} while (advance() && (first_choice < 0 || st.tape[0] == first_choice));
		fprintf(f, "%s{\"name\":\"%s\",\"executions\":%" PRIu64 ",\"states\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"outcomes\":%zu,\"nontrivial\":%" PRIu64 ",\"max_choices\":%zu,\"sample\":\"%s:%s\"}",
			first ? "" : ",", s->name, cases, nodes, st.steps - steps0, outcomes.size(), nontriv, maxdepth, s->name, sample.c_str());
		first = false;
		fflush(f);
	}
	clock_gettime(CLOCK_MONOTONIC, &t1);
	fprintf(f, "],\"wall\":%.3f}\n", (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec));
	if (f != stdout)
		fclose(f);
	sh->phase = 3;
	return 0;
}
