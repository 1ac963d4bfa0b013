/* linked into the shared library the Python suites load: counts the blocks the library itself holds */
#include <stddef.h>
#include <string.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
char *__real_strdup(const char *); void __real_free(void *);
static volatile long live;
#define UP(p) do { if (p) __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); } while (0)
long  pymc_live(void) { return live; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); UP(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); UP(p); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (!q) UP(p); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); UP(p); return p; }
void  __wrap_free(void *p) { if (p) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __real_free(p); }
