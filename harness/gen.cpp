#include "gen.h"
#include <algorithm>
#include <cstring>
#include <set>

namespace gen {
using namespace ref;
using pbt::Source;

static size_t product(const Shape &sh) {
  size_t n = 1;
  for (auto d : sh) n *= d;
  return n;
}

Shape shape(Source &s, const ShapeOpts &o) {
  size_t maxe = std::max<size_t>(o.max_elems, 1);
  Shape r;
  switch (s.weighted({6, 8, 2, o.empty ? 3u : 0u, o.max_ndim > 8 ? 4u : 0u, o.empty && o.wide ? 2u : 0u})) {
  case 0: // vector
    r.push_back(s.size(maxe));
    if (!o.empty && r[0] == 0) r[0] = 1;
    break;
  case 1: { // 2 to 5 dimensions
    size_t nd = 2 + s.weighted({5, 3, 2, 1});
    size_t left = maxe;
    for (size_t i = 0; i < nd; ++i) {
      size_t cap = s.coin() ? left : std::min<size_t>(left, 7);
      size_t d = 1 + s.size(cap - 1);
      r.push_back(d);
      left = std::max<size_t>(1, left / d);
    }
    if (s.coin()) std::reverse(r.begin(), r.end());
    break;
  }
  case 2: // scalar
    break;
  case 3: { // some zero dimension
    size_t nd = 1 + s.draw(4);
    for (size_t i = 0; i < nd; ++i) r.push_back(s.draw(6));
    r[s.draw(nd - 1)] = 0;
    break;
  }
  case 4: { // many dimensions, mostly 1: walks the header length
    size_t nd = s.range(6, o.max_ndim);
    r.assign(nd, 1);
    size_t left = maxe, k = s.draw(3);
    for (size_t i = 0; i < k; ++i) {
      size_t d = 1 + s.draw(std::min<size_t>(left, 12) - 1);
      r[s.draw(nd - 1)] = d;
      left = std::max<size_t>(1, left / d);
    }
    while (product(r) > maxe) *std::max_element(r.begin(), r.end()) = 1;
    break;
  }
  default: { // a zero beside wide dimensions: long headers, no payload
    size_t nd = s.range(2, std::min<size_t>(o.max_ndim, 40));
    unsigned __int128 p = 1;
    for (size_t i = 0; i < nd; ++i) {
      size_t digits = s.draw(10), d = 1;
      for (size_t k = 0; k < digits; ++k) d *= 10;
      d += s.draw(9);
      if (d == 0) d = 1;
      if (p * d > (1ull << 40)) d = 1 + s.draw(1);
      if (p * d > (1ull << 40)) d = 1;
      p *= d;
      r.push_back(d);
    }
    r[s.draw(nd - 1)] = 0;
  }
  }
  return r;
}
int dtype(Source &s) { return int(s.draw(NDT - 1)); }

static uint32_t code_point(Source &s, size_t kind) {
  switch (kind) {
  case 0: return uint32_t(s.range('a', 'z'));
  case 1: return uint32_t(s.range(1, 0x7E));
  case 2: return uint32_t(s.range(0x80, 0x7FF));
  case 3: return uint32_t(s.range(0x800, 0xFFFF));
  default: return uint32_t(s.range(0x10000, 0x10FFFF));
  }
}
Str str(Source &s, size_t max_len, bool interior_nul) {
  Str r;
  size_t n = s.size(max_len);
  if (n > 40) { // one draw per character would be too many
    uint64_t seed = s.draw(0xFFFFFF);
    pbt::Rng g(seed);
    switch (seed % 4) {
    case 0: r.assign(n, uint32_t(1 + g.next() % 255)); break;
    case 1: for (size_t i = 0; i < n; ++i) r.push_back(uint32_t(1 + g.next() % 0x7F)); break;
    default: for (size_t i = 0; i < n; ++i) r.push_back(uint32_t(1 + g.next() % 0x10FFFE));
    }
    return r;
  }
  size_t kind = s.weighted({4, 2, 1, 1, 1, 2});
  for (size_t i = 0; i < n; ++i) {
    size_t k = kind == 5 ? s.draw(4) : kind;
    uint32_t c = code_point(s, k);
    if (interior_nul && i + 1 < n && s.chance(1, 12)) c = 0;
    r.push_back(c);
  }
  return r;
}
void contents(Source &s, Arr &a, size_t max_width) {
  size_t n = a.count();
  if (a.dt == US) {
    a.strs.clear();
    size_t w = s.size(max_width);
    if (n <= 64) {
      for (size_t i = 0; i < n; ++i) a.strs.push_back(str(s, w));
    } else { // a pool of strings, arranged by a seed
      std::vector<Str> pool;
      size_t k = 1 + s.draw(15);
      for (size_t i = 0; i < k; ++i) pool.push_back(str(s, w));
      pbt::Rng g(s.draw(0xFFFF));
      for (size_t i = 0; i < n; ++i) {
        Str x = pool[g.next() % k];
        if (!x.empty()) x[g.next() % x.size()] = uint32_t(1 + g.next() % 0xFFFF);
        a.strs.push_back(x);
      }
    }
    return;
  }
  a.raw.assign(n * DT_SIZE[a.dt], 0);
  s.fill(a.raw.data(), a.raw.size());
  if (a.dt == B1) {
    for (auto &b : a.raw) b &= 1;
  } else if (a.dt == F4 || a.dt == C8) {
    static const uint32_t sp[] = {0x7FC00000, 0xFFC00001, 0x7F800001, 0x7F800000, 0xFF800000, 0x80000000, 1, 0x807FFFFF, 0x3F800000};
    size_t m = a.raw.size() / 4, k = m ? s.draw(4) : 0;
    for (size_t i = 0; i < k; ++i) memcpy(&a.raw[4 * s.draw(m - 1)], &sp[s.draw(8)], 4);
  } else if (a.dt == F8 || a.dt == C16) {
    static const uint64_t sp[] = {0x7FF8000000000000, 0xFFF8000000000001, 0x7FF0000000000001, 0x7FF0000000000000, 0xFFF0000000000000, 0x8000000000000000, 1, 0x800FFFFFFFFFFFFF, 0x3FF0000000000000};
    size_t m = a.raw.size() / 8, k = m ? s.draw(4) : 0;
    for (size_t i = 0; i < k; ++i) memcpy(&a.raw[8 * s.draw(m - 1)], &sp[s.draw(8)], 8);
  }
}
Arr array(Source &s, const ArrOpts &o) {
  Arr a;
  a.dt = o.dt >= 0 ? o.dt : dtype(s);
  ShapeOpts so = o.shape;
  size_t unit = a.dt == US ? 4 * std::max<size_t>(1, o.max_width / 2) : DT_SIZE[a.dt];
  so.max_elems = std::min(so.max_elems, std::max<size_t>(1, o.max_bytes / unit));
  a.shape = shape(s, so);
  a.fortran = s.coin();
  size_t w = o.max_width;
  if (a.dt == US && a.count() > 16) w = std::min<size_t>(w, std::max<size_t>(1, o.max_bytes / 4 / a.count()));
  contents(s, a, w);
  return a;
}
Arr small_array(Source &s, int dt) {
  ArrOpts o;
  o.dt = dt;
  o.shape.max_elems = 64;
  o.shape.max_ndim = 9;
  o.shape.wide = false;
  o.max_width = 8;
  return array(s, o);
}
Arr sized_array(Source &s, unsigned min_log, unsigned max_log) {
  Arr a;
  a.dt = s.chance(1, 4) ? int(s.draw(US - 1)) : U1;
  unsigned k = unsigned(s.range(min_log, max_log));
  size_t total = size_t(1) << k;
  if (k > 8 && s.chance(1, 3)) total = (total >> 3) * (9 + s.draw(6)); // between the powers
  int64_t d = int64_t(s.draw(8)) - 4;
  if (s.chance(1, 6)) d = int64_t(s.draw(258)) - 129;
  total = size_t(std::max<int64_t>(128, int64_t(total) + d));
  a.shape = {(total - 128) / DT_SIZE[a.dt]};
  if (s.chance(1, 6)) a.shape = {a.shape[0] / 3 + 1, 3};
  a.fortran = a.shape.size() > 1 && s.coin();
  contents(s, a, 0);
  return a;
}
bool interesting(const Arr &a) {
  if (a.dt == US) {
    for (auto &x : a.strs) if (x != a.strs[0]) return true;
    return a.max_len() > 1;
  }
  for (auto b : a.raw) if (b != a.raw[0]) return true;
  return false;
}
void classify(pbt::Case &c, const Arr &a) {
  c.label(std::string("type:") + DT_NAME[a.dt]);
  c.label(a.fortran ? "order:F" : "order:C");
  size_t nd = a.shape.size();
  c.label(nd == 0 ? "rank:0" : nd == 1 ? "rank:1" : nd <= 5 ? "rank:2-5" : "rank:6+");
  size_t n = a.count();
  c.label(n == 0 ? "size:0" : n < 16 ? "size:1-15" : n < 1000 ? "size:16-999" : n < 65536 ? "size:1000-65535" : "size:65536+");
  if (a.dt == US)
    for (auto &x : a.strs)
      if (x.size() > 1 && std::find(x.begin(), x.end() - 1, 0u) != x.end() - 1) { c.label("string with an interior NUL"); break; }
}
bool has_suffix(const std::string &n) { return n.size() >= 4 && n.compare(n.size() - 4, 4, ".npy") == 0; }
std::string stored_name(const std::string &n) { return has_suffix(n) ? n : n + ".npy"; }
std::string name(Source &s, bool ascii) {
  // never destroyed: C34 generates names while the process ends
  static const std::vector<std::string> &fixed = *new std::vector<std::string>{
      "a", "b", "arr_0", "color", "depth.npy", "x/y", "a.npy.npy", ".npy", "npy", "a.np", "A", "a b", "data.NPY", "weights/layer.0", "xnpy", "", "..", "a\\b", "a.npy.b", "x.npy.1", ".npyx", ".npy/a", "npy.npy", "a.npy.", ".NPY", "%s%s%s%n", "%d%%.npy"};
  switch (s.weighted({5, 4, 2, 1, ascii ? 0u : 1u})) {
  case 0: return s.pick(fixed);
  case 1: {
    std::string r;
    size_t n = 1 + s.draw(9);
    for (size_t i = 0; i < n; ++i) r += char(s.range('a', 'e'));
    if (s.chance(1, 3)) r += ".npy";
    if (s.chance(1, 12)) r.insert(s.draw(r.size()), ".npy");
    return r;
  }
  case 2: {
    std::string r;
    size_t n = 1 + s.draw(20);
    for (size_t i = 0; i < n; ++i) r += char(s.range(0x20, 0x7E));
    return r;
  }
  case 3: return std::string(s.range(200, 1200), char(s.range('a', 'z'))) + (s.coin() ? ".npy" : "");
  default: {
    static const std::vector<std::string> &u = *new std::vector<std::string>{"\xC3\xA9t\xC3\xA9", "\xE6\x97\xA5\xE6\x9C\xAC", "\xF0\x9F\x98\x80.npy", "\xCE\xB1"};
    return s.pick(u);
  }
  }
}
} // namespace gen
