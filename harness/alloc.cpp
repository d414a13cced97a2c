// Counts every dynamic allocation made while the library runs (the default `operator new` goes through `malloc`).
// Linked into programs built without sanitizers.
#include <cerrno>
#include <cstddef>

extern "C" {
extern __thread int g_in_lib;
extern __thread unsigned long g_allocs;
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);

void *malloc(size_t n) {
  g_allocs += g_in_lib != 0;
  return __libc_malloc(n);
}
void *calloc(size_t n, size_t m) {
  g_allocs += g_in_lib != 0;
  return __libc_calloc(n, m);
}
void *realloc(void *p, size_t n) {
  g_allocs += g_in_lib != 0;
  return __libc_realloc(p, n);
}
void *memalign(size_t a, size_t n) {
  g_allocs += g_in_lib != 0;
  return __libc_memalign(a, n);
}
void *aligned_alloc(size_t a, size_t n) {
  g_allocs += g_in_lib != 0;
  return __libc_memalign(a, n);
}
int posix_memalign(void **p, size_t a, size_t n) {
  g_allocs += g_in_lib != 0;
  *p = __libc_memalign(a, n);
  return *p ? 0 : ENOMEM;
}
}
int g_alloc_counting = 1;
