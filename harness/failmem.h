// Replaces malloc, free and the operators new and delete of the program:
// blocks allocated while tracking is on are remembered until freed, and chosen
// allocations can be made to fail.
#ifndef VERIF_FAILMEM_H
#define VERIF_FAILMEM_H
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>

extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);
static const size_t SLOTS = 1 << 16;
static void *g_ptr[SLOTS];
static size_t g_len[SLOTS];
static size_t g_live, g_count, g_fail_at, g_fail_n;
static bool g_on, g_overflow;
static size_t slot_of(void *p) { return (size_t(p) >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
static void *const GONE = reinterpret_cast<void *>(1);
static void remember(void *p, size_t n) {
  if (!p) return;
  for (size_t i = 0, s = slot_of(p); i < SLOTS; ++i, s = (s + 1) % SLOTS)
    if (!g_ptr[s] || g_ptr[s] == GONE) { g_ptr[s] = p; g_len[s] = n; ++g_live; return; }
  g_overflow = true;
}
static bool forget(void *p) {
  for (size_t i = 0, s = slot_of(p); i < SLOTS && g_ptr[s]; ++i, s = (s + 1) % SLOTS)
    if (g_ptr[s] == p) { g_ptr[s] = GONE; --g_live; return true; }
  return false;
}
static bool refuse() {
  if (!g_on) return false;
  ++g_count;
  return g_fail_at && g_count >= g_fail_at && g_count < g_fail_at + g_fail_n;
}
static const size_t HUGE_ALLOC = size_t(256) << 20;
extern "C" void *malloc(size_t n) {
  if (refuse() || n > HUGE_ALLOC) return nullptr;
  void *p = __libc_malloc(n);
  if (g_on) remember(p, n);
  return p;
}
extern "C" void *calloc(size_t a, size_t b) {
  if (refuse() || (b && a > HUGE_ALLOC / b)) return nullptr;
  void *p = __libc_calloc(a, b);
  if (g_on) remember(p, a * b);
  return p;
}
extern "C" void *realloc(void *o, size_t n) {
  if (refuse() || n > HUGE_ALLOC) return nullptr;
  bool known = o && g_live && forget(o);
  void *p = __libc_realloc(o, n);
  if (!p && n && known) remember(o, 0);
  if (p && (known || (g_on && !o))) remember(p, n);
  return p;
}
extern "C" void free(void *p) {
  if (p && g_live) forget(p);
  __libc_free(p);
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

static void start(size_t fail_at, size_t fail_n) {
  memset(g_ptr, 0, sizeof g_ptr);
  g_live = g_count = 0;
  g_overflow = false;
  g_fail_at = fail_at;
  g_fail_n = fail_n;
  g_on = true;
}
static void stop() { g_on = false; g_fail_at = 0; }
static std::string leaks() {
  std::string r;
  size_t k = 0;
  for (size_t i = 0; i < SLOTS && k < 4; ++i) if (g_ptr[i] && g_ptr[i] != GONE) { r += " " + std::to_string(g_len[i]); ++k; }
  return std::to_string(g_live) + " blocks, of" + r + " bytes";
}
#endif
