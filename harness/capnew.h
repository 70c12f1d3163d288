// A capped global operator new: absurd sizes surface as std::bad_alloc at
// once.  Built on malloc, so AddressSanitizer still guards every block.
// Include in exactly one source file of a program.
#ifndef VERIF_CAPNEW_H
#define VERIF_CAPNEW_H
#include <cstdlib>
#include <new>
static size_t g_new_cap = size_t(64) << 20;
static void *capped(size_t n) {
  void *p = n > g_new_cap ? nullptr : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return capped(n); }
void *operator new[](size_t n) { return capped(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return n > g_new_cap ? nullptr : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return n > g_new_cap ? nullptr : malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
