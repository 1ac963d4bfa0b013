// Stateless model checking core: a body is executed once per choice sequence;
// every nondeterministic decision (inputs, operations, RNG draws, I/O answers,
// injected faults) goes through mc::choose(), and the driver enumerates all
// choice sequences depth first.  One execution = one trace on the real code.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <cconfigspace.h>

namespace mc {
// ---- exploration -------------------------------------------------------
int  choose(int n, const char *label = nullptr); // 0 .. n-1
inline bool flip(const char *l = nullptr) { return choose(2, l) != 0; }
template <class T> const T &pick(const std::vector<T> &v, const char *l = nullptr)
{
	return v[(size_t)choose((int)v.size(), l)];
}
// Work partitioning: call once, after the first choices and before any
// allocation; executions that belong to another worker are abandoned here.
void shard_point();
// abandon the current execution (not counted): redundant by symmetry
[[noreturn]] void prune();
bool thorough();
int  tier_bound(int quick, int thorough_);

// ---- oracle ------------------------------------------------------------
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void require(bool cond, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void step(const char *fmt = nullptr, ...) __attribute__((format(printf, 1, 2))); // one transition on the real code
void obs(uint64_t h);             // feeds the outcome hash of this execution
void obs_bytes(const void *p, size_t n);
void nontrivial();                // marks this execution as non trivial

#define MC_REQ(cond, ...)                                                      \
	do {                                                                   \
		if (!(cond))                                                   \
			mc::fail_at(__FILE__, __LINE__, #cond, __VA_ARGS__);   \
	} while (0)
#define MC_CHECK(cond)                                                         \
	do {                                                                   \
		if (!(cond))                                                   \
			mc::fail_at(__FILE__, __LINE__, #cond, "%s", "");      \
	} while (0)
// the call must succeed
#define MC_OK(call)                                                            \
	do {                                                                   \
		mc::step();                                                    \
		ccs_result_t mc_r_ = (call);                                   \
		if (mc_r_ != CCS_RESULT_SUCCESS)                               \
			mc::fail_at(__FILE__, __LINE__, #call,                 \
				    "returned %d", (int)mc_r_);                \
	} while (0)
// the call must return exactly this code
#define MC_RET(code, call)                                                     \
	do {                                                                   \
		mc::step();                                                    \
		ccs_result_t mc_r_ = (call);                                   \
		if (mc_r_ != (code))                                           \
			mc::fail_at(__FILE__, __LINE__, #call,                 \
				    "returned %d, expected %d", (int)mc_r_,    \
				    (int)(code));                              \
	} while (0)
// the call must fail (any error code)
#define MC_ERR(call)                                                           \
	do {                                                                   \
		mc::step();                                                    \
		ccs_result_t mc_r_ = (call);                                   \
		if (mc_r_ >= 0)                                                \
			mc::fail_at(__FILE__, __LINE__, #call,                 \
				    "returned %d, expected an error",          \
				    (int)mc_r_);                               \
	} while (0)
[[noreturn]] void fail_at(const char *file, int line, const char *cond, const char *fmt, ...)
	__attribute__((format(printf, 4, 5)));

// ---- owned allocator (link time --wrap) ----------------------------------
long live_blocks();          // blocks allocated by the whole process minus freed
void alloc_fail_at(long n);  // the n-th (1-based) wrapped allocation from now on fails; 0: never
long alloc_count();          // wrapped allocations since alloc_fail_at()
bool alloc_failed();         // did the armed failure trigger
long alloc_biggest();        // biggest single wrapped allocation since alloc_fail_at()
void alloc_limit(size_t n);  // wrapped allocations bigger than n fail (0: no limit)

// ---- owned randomness ----------------------------------------------------
// An RNG whose draws are choices. grid: raw 32 bit values offered at each of
// the first `budget` draws; later draws walk a fixed Weyl sequence.
void                 tape_config(const std::vector<uint32_t> &grid, int budget);
void                 tape_fixed(const std::vector<uint32_t> &seq); // fixed draws, then Weyl
ccs_rng_t            tape_rng();
const std::vector<uint32_t> &tape_log(); // draws made since tape_config
double               tape_unit(uint32_t raw); // value gsl_rng_uniform returns for raw

// ---- suites ----------------------------------------------------------------
struct Suite {
	const char           *name;
	void                (*body)();
	bool                  leak_check;
	Suite(const char *name, void (*body)(), bool leak_check = true);
};
#define MC_SUITE(n)                                                            \
	static void       mc_body_##n();                                       \
	static mc::Suite  mc_suite_##n(#n, mc_body_##n);                       \
	static void       mc_body_##n()
#define MC_SUITE_NOLEAK(n)                                                     \
	static void       mc_body_##n();                                       \
	static mc::Suite  mc_suite_##n(#n, mc_body_##n, false);                \
	static void       mc_body_##n()

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string dstr(const ccs_datum_t &d);
// value equality of data as a user sees it (type and value, strings by content)
bool        deq(const ccs_datum_t &a, const ccs_datum_t &b);
} // namespace mc
