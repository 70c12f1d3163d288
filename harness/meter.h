// Counts the memory of the program's heap: live and highest amount since
// meter::start().  Replaces malloc; include in one source file of a program
// built without sanitizers.
#ifndef VERIF_METER_H
#define VERIF_METER_H
#include <cstdlib>
#include <malloc.h>
#include <new>

extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void __libc_free(void *);
namespace meter {
static bool g_on;
static long long g_live, g_peak;
inline void add(void *p) {
  if (!g_on || !p) return;
  g_live += (long long)malloc_usable_size(p);
  if (g_live > g_peak) g_peak = g_live;
}
inline void sub(void *p) { if (g_on && p) g_live -= (long long)malloc_usable_size(p); }
inline void start() { g_live = g_peak = 0; g_on = true; }
inline void stop() { g_on = false; }
inline long long live() { return g_live; }
inline long long peak() { return g_peak; }
} // namespace meter
extern "C" void *malloc(size_t n) { void *p = __libc_malloc(n); meter::add(p); return p; }
extern "C" void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); meter::add(p); return p; }
extern "C" void *realloc(void *o, size_t n) {
  meter::sub(o);
  void *p = __libc_realloc(o, n);
  meter::add(p ? p : n ? o : nullptr);
  return p;
}
extern "C" void free(void *p) { meter::sub(p); __libc_free(p); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
