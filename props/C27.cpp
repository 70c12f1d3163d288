// C27: the boolean element type behaves like bool.
#include "common.h"
#include <cmath>
#include <limits>
using namespace ref;

static_assert(sizeof(npy::boolean) == 1, "one byte");
enum Unscoped { E0 = 0, E1 = 1, E256 = 256, ENEG = -1 };
struct Convertible { bool b; operator bool() const { return b; } };

template <class V> std::string show(V v) { std::ostringstream o; o << v; return o.str(); }
static uint8_t byte_of(const npy::boolean &b) { uint8_t r; memcpy(&r, &b, 1); return r; }
#define SAME(expr, want, what) \
  do { \
    npy::boolean sb_ = (expr); \
    PB_ASSERT(bool(sb_) == (want), what << " is " << bool(sb_) << ", bool gives " << (want)); \
    PB_ASSERT(byte_of(sb_) == ((want) ? 1 : 0), what << " is stored as the byte " << int(byte_of(sb_))); \
  } while (0)
template <class V> void value(const V &v, const std::string &text) {
  const bool want = v ? true : false;
  SAME(npy::boolean(v), want, "boolean(" << text << ")");
  npy::boolean a = v;
  SAME(a, want, "boolean = " << text);
  npy::boolean b(!want);
  b = v;
  SAME(b, want, "assignment of " << text);
  npy::boolean &r = (b = v);
  PB_ASSERT(&r == &b, "assignment does not return the object");
  npy::boolean c;
  PB_ASSERT(!c && byte_of(c) == 0, "a default boolean is not false");
  c = a;
  SAME(c, want, "copy of " << text);
  // converts like bool
  bool back = b;
  PB_ASSERT(back == want, "conversion of boolean(" << text << ") to bool");
  PB_ASSERT((b ? 1 : 0) == int(want) && !b == !want && (b && true) == want && (b || false) == want, "boolean(" << text << ") in an expression");
  PB_ASSERT(int(b) == int(want) && (b == want) && !(b != want), "boolean(" << text << ") compared");
  std::vector<npy::boolean> vec{a, b, npy::boolean(!want)};
  PB_ASSERT(bool(vec[0]) == want && bool(vec[2]) == !want, "boolean in a vector");
}
template <class I> I integer(pbt::Source &s) {
  typedef typename std::make_unsigned<I>::type U;
  switch (s.draw(4)) {
  case 0: return I(s.draw(3));
  case 1: return I(U(U(1) << s.draw(sizeof(I) * 8 - 1)));
  case 2: return I(U(0) - U(s.draw(300)));
  case 3: return std::numeric_limits<I>::min();
  default: return I(U(s.draw(UINT64_MAX)));
  }
}
template <class F> F floating(pbt::Source &s) {
  typedef std::numeric_limits<F> L;
  switch (s.draw(8)) {
  case 0: return F(int(s.draw(10)) - 5);
  case 1: return F(int(s.draw(200)) - 100) / F(128);
  case 2: return F(0.5);
  case 3: return F(-0.0);
  case 4: return s.coin() ? L::quiet_NaN() : -L::quiet_NaN();
  case 5: return s.coin() ? L::infinity() : -L::infinity();
  case 6: return s.coin() ? L::denorm_min() : -L::denorm_min();
  case 7: return std::ldexp(F(1) + F(s.draw(100)) / 128, int(s.draw(140)) - 70) * (s.coin() ? 1 : -1);
  default: return F(1e10);
  }
}
static void values(pbt::Case &c) {
  std::string text;
  auto num = [&](auto v, const char *t) {
    std::string x = std::string("(") + t + ")" + show(+v);
    text += (text.empty() ? "" : " ") + x;
    if (v != 0 && v != 1) c.nontrivial();
    c.label(t);
    value(v, x);
  };
  size_t k = 1 + c.s.draw(4);
  for (size_t i = 0; i < k; ++i)
    switch (c.s.draw(17)) {
    case 0: num(c.s.coin(), "bool"); break;
    case 1: num(integer<char>(c.s), "char"); break;
    case 2: num(integer<signed char>(c.s), "signed char"); break;
    case 3: num(integer<unsigned char>(c.s), "unsigned char"); break;
    case 4: num(integer<short>(c.s), "short"); break;
    case 5: num(integer<unsigned short>(c.s), "unsigned short"); break;
    case 6: num(integer<int>(c.s), "int"); break;
    case 7: num(integer<unsigned>(c.s), "unsigned"); break;
    case 8: num(integer<long>(c.s), "long"); break;
    case 9: num(integer<unsigned long>(c.s), "unsigned long"); break;
    case 10: num(integer<long long>(c.s), "long long"); break;
    case 11: num(integer<wchar_t>(c.s), "wchar_t"); break;
    case 12: num(floating<float>(c.s), "float"); break;
    case 13: num(floating<double>(c.s), "double"); break;
    case 14: num(floating<long double>(c.s), "long double"); break;
    case 15: { static const Unscoped E[] = {E0, E1, E256, ENEG}; num(E[c.s.draw(3)], "enum"); break; }
#ifndef NUMBERS_ONLY
    case 16: { const char *p = c.s.coin() ? "x" : nullptr; text += p ? " pointer" : " null pointer"; value(p, "pointer"); break; }
    default: { Convertible q{c.s.coin()}; text += " class"; value(q, "class with operator bool"); }
#else
    default: break;
#endif
    }
  c.describe(text);
}
// in tensors: what is stored and what a foreign byte means
static void stored(pbt::Case &c) {
  size_t n = 1 + c.s.draw(20);
  std::vector<double> v(n);
  npy::tensor<npy::boolean> t(std::vector<size_t>{n});
  std::string text;
  for (size_t i = 0; i < n; ++i) {
    v[i] = floating<double>(c.s);
    switch (c.s.draw(3)) {
    case 0: t.set({int(i)}, v[i]); break;
    case 1: t(int(i)) = v[i]; break;
    case 2: t.data()[i] = float(v[i]) == 0 ? npy::boolean(v[i]) : npy::boolean(float(v[i])); break;
    default: *(t.begin() + long(i)) = v[i] ? 7 : 0;
    }
    text += " " + show(v[i]);
  }
  c.describe("tensor of" + text);
  c.nontrivial();
  std::ostringstream o;
  npy::save(o, t, draw_endian(c.s));
  std::string b = o.str(), p = b.substr(b.size() - n);
  for (size_t i = 0; i < n; ++i) PB_ASSERT(p[i] == (v[i] ? 1 : 0), "element " << i << " (" << v[i] << ") is stored as " << int((unsigned char)p[i]));
  PB_ASSERT(b.find("|b1") != std::string::npos, "the type code is not |b1");
  std::istringstream in(b);
  auto u = npy::load<npy::tensor<npy::boolean>>(in);
  for (size_t i = 0; i < n; ++i) PB_ASSERT(bool(u(int(i))) == bool(v[i]), "element " << i << " is loaded as " << bool(u(int(i))));
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"values", values, 4}, {"stored", stored, 1}},
                  "values of every arithmetic type (negative, fractional, denormal, NaN, infinite, extreme), enumerations, pointers and classes, constructed, assigned, copied, converted and compared; boolean tensors saved and loaded; non-trivial: a value other than 0 and 1");
}
