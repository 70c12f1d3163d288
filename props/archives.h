// The model of an archive and the operations compared with it.
#ifndef VERIF_ARCHIVES_H
#define VERIF_ARCHIVES_H
#include "common.h"
#include <algorithm>
#include <set>
using namespace ref;

struct Model {
  struct E { std::string name; Arr a; bool big; }; // stored name
  std::vector<E> e;
  const E *exact(const std::string &n) const {
    for (size_t i = e.size(); i-- > 0;) if (e[i].name == n) return &e[i];
    return nullptr;
  }
  const E *find(const std::string &n) const {
    const E *x = exact(n);
    return x ? x : exact(n + ".npy");
  }
  std::set<std::string> names() const {
    std::set<std::string> r;
    for (auto &x : e) r.insert(x.name);
    return r;
  }
  bool duplicates() const { return names().size() != e.size(); }
};
inline std::string short_name(const std::string &n) {
  std::string r;
  for (unsigned char ch : n.substr(0, 40)) {
    if (ch >= 0x20 && ch < 0x7F) r += char(ch);
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
  }
  return "'" + r + (n.size() > 40 ? "...(" + std::to_string(n.size()) + ")'" : "'");
}
inline void check_keys(lib::Reader &r, const Model &m, const char *how) {
  const std::vector<std::string> &k = r.keys();
  std::set<std::string> got(k.begin(), k.end()), want = m.names();
  if (got != want) {
    for (auto &n : want) PB_ASSERT(got.count(n), how << ": keys() lacks " << short_name(n));
    for (auto &n : got) PB_ASSERT(want.count(n), how << ": keys() lists " << short_name(n) << " which was never written");
  }
  if (!m.duplicates()) PB_ASSERT(k.size() == m.e.size(), how << ": keys() lists " << k.size() << " names, " << m.e.size() << " were written");
}
// one random look-up compared with the model
inline void check_lookup(lib::Reader &r, const Model &m, const std::string &n, pbt::Source &s, const char *how) {
  const Model::E *e = m.find(n);
  if (!e) {
    PB_ASSERT(!r.contains(n), how << ": contains(" << short_name(n) << ") although nothing was written under it");
    lib::Result x = lib::attempt([&](lib::Result &y) { y.arr = r.read(n, gen::dtype(s), int(s.draw(1))); });
    PB_ASSERT(x.k == lib::Result::INVALID, how << ": reading the absent " << short_name(n) << " gave " << lib::kind_name(x.k) << " instead of std::invalid_argument");
    x = lib::attempt([&](lib::Result &) { r.peek(n); });
    PB_ASSERT(x.k != lib::Result::OK && x.k != lib::Result::NONSTD, how << ": peeking the absent " << short_name(n) << " gave " << lib::kind_name(x.k));
    return;
  }
  PB_ASSERT(r.contains(e->name), how << ": contains(" << short_name(e->name) << ") is false");
  if (s.coin()) {
    std::string d = lib::diff_header(r.peek(n), e->a.dt, e->big, e->a.shape, e->a.fortran, e->a.max_len());
    PB_ASSERT(d.empty(), how << ": peek(" << short_name(n) << "): " << d);
  }
  std::string d = diff(e->a, r.read(n, e->a.dt, int(s.draw(1))));
  PB_ASSERT(d.empty(), how << ": read(" << short_name(n) << "): " << d);
}
// names to look up: all stored ones (with and without suffix) and absent ones
inline std::vector<std::string> lookups(const Model &m, pbt::Source &s) {
  std::vector<std::string> r;
  for (auto &x : m.e) {
    r.push_back(x.name);
    r.push_back(x.name.substr(0, x.name.size() - 4));
    if (s.chance(1, 4)) r.push_back(x.name + ".npy");
    if (s.chance(1, 4)) r.push_back(x.name.substr(0, x.name.size() - 1));
    if (s.chance(1, 4)) r.push_back("x" + x.name);
    if (s.chance(1, 4) && x.name.size() > 4) { std::string y = x.name; y[0] = char(y[0] ^ 0x20); r.push_back(y); }
  }
  r.push_back("absent");
  r.push_back("");
  r.push_back(".npy");
  for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[s.draw(i - 1)]);
  return r;
}
inline Arr entry_array(pbt::Source &s, size_t large_den = 12) {
  if (s.chance(1, 16)) return gen::sized_array(s, 8, 17);
  if (s.chance(1, large_den)) {
    gen::ArrOpts o;
    o.max_bytes = 200000;
    o.shape.max_elems = 60000;
    o.shape.wide = false;
    o.shape.max_ndim = 64; // NumPy's limit
    return gen::array(s, o);
  }
  return gen::small_array(s);
}
inline void strip(Arr &a) {
  if (a.dt == US) for (auto &x : a.strs) while (!x.empty() && x.back() == 0) x.pop_back();
}
#endif
