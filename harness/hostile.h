// Oracles for arbitrary input bytes, and mutations of valid ones.
#ifndef VERIF_HOSTILE_H
#define VERIF_HOSTILE_H
#include "common.h"

namespace hostile {
// What a normal return must follow from.  Returns what the input was.
// dts: the element types to load as, beside the declared one.
inline const char *npy(const std::string &bytes, const std::vector<int> &dts, int way, size_t piece) {
  ref::Header h;
  std::string e = ref::parse_header(bytes, h, false);
  bool v12 = bytes.size() > 6 && (bytes[6] == 1 || bytes[6] == 2);
  if (e.empty() && !v12) e = "unsupported version";
  bool peeked = false;
  for (int kind = 0; kind < (piece ? 2 : 1); ++kind) {
    AnyIn s(kind == 0 ? 0 : 2, bytes, piece);
    lib::Result r = lib::attempt([&](lib::Result &) {
      npy::header_info i = npy::peek(*s.in);
      if (!e.empty()) PB_FAIL("peek accepted bytes that have no well-formed NPY header (" << e << "): " << lib::header_text(i));
      std::string d = lib::diff_header(i, h.dt, h.order == '>', h.shape, h.fortran, h.width);
      if (h.order != '<' && h.order != '>' && d == "byte order is wrong") d = "";
      PB_ASSERT(d.empty(), "peek reports something else than the header says: " << d);
    });
    PB_ASSERT(r.k != lib::Result::NONSTD, "peek threw " << r.what);
    peeked |= r.k == lib::Result::OK;
  }
  bool loaded = false;
  std::vector<int> all = dts;
  if (h.dt >= 0) all.push_back(h.dt);
  for (int dt : all) {
    AnyIn s(piece ? 2 : 0, bytes, piece);
    lib::Result r = lib::attempt([&](lib::Result &r) { r.arr = lib::load(*s.in, dt, way); });
    PB_ASSERT(r.k != lib::Result::NONSTD, "load threw " << r.what);
    if (r.k != lib::Result::OK) continue;
    loaded = true;
    PB_ASSERT(e.empty(), "load accepted bytes that have no well-formed NPY header (" << e << "): " << r.arr.text());
    PB_ASSERT(dt == h.dt, "an array of type " << h.descr << " was loaded as " << ref::DT_NAME[dt]);
    ref::Arr want;
    std::string d = ref::decode_lenient(bytes, h, want);
    PB_ASSERT(d.empty(), "load returned " << r.arr.text() << " although " << d);
    d = ref::diff(truthy(want), truthy(r.arr));
    PB_ASSERT(d.empty(), "load returned something else than declared: " << d);
  }
  return loaded ? "loaded" : peeked ? "peeked only" : e.empty() ? "rejected although well-formed" : "rejected";
}
// Opens, lists, peeks and reads everything.  way/ctor as in lib.
inline const char *npz(const std::string &bytes, bool on_disk, int ctor, const std::vector<int> &dts) {
  std::string p = pbt::scratch() + "/hostile.npz";
  std::unique_ptr<lib::Reader> rd;
  if (on_disk) lib::spit(p, bytes);
  lib::Result r = lib::attempt([&](lib::Result &) { rd = on_disk ? lib::make_reader_file(p, ctor) : lib::make_reader_mem(bytes, ctor & 1); });
  if (on_disk) unlink(p.c_str());
  PB_ASSERT(r.k != lib::Result::NONSTD, "opening threw " << r.what);
  if (r.k != lib::Result::OK) return "refused";
  std::vector<std::string> keys = rd->keys();
  bool any = false, more = false;
  size_t n = 0;
  keys.push_back("no such entry");
  keys.push_back("");
  for (auto &k : keys) {
    if (++n > 40) break;
    r = lib::attempt([&](lib::Result &) { rd->contains(k); });
    PB_ASSERT(r.k == lib::Result::OK, "contains threw " << r.what);
    int declared = -1;
    r = lib::attempt([&](lib::Result &) { declared = lib::dt_of(rd->peek(k).dtype); });
    PB_ASSERT(r.k != lib::Result::NONSTD, "peek threw " << r.what);
    more |= r.k == lib::Result::OK;
    std::vector<int> all = dts;
    if (declared >= 0) all.push_back(declared);
    for (int dt : all) {
      r = lib::attempt([&](lib::Result &) { rd->read(k, dt, n % 2); });
      PB_ASSERT(r.k != lib::Result::NONSTD, "read threw " << r.what);
      any |= r.k == lib::Result::OK;
    }
  }
  return any ? "something read" : more ? "something peeked" : keys.size() > 2 ? "listed only" : "opened, no entries";
}

// 1 to 4 random edits, biased to positions where `hot` is small
inline std::string mutate(pbt::Source &s, std::string b, size_t hot, std::string &what) {
  size_t k = 1 + s.weighted({6, 3, 1, 1});
  for (size_t i = 0; i < k; ++i) {
    size_t lim = b.empty() ? 0 : b.size() - 1;
    size_t at = s.chance(3, 4) ? std::min(lim, size_t(s.draw(hot ? hot - 1 : 0))) : size_t(s.draw(lim));
    size_t n = 1 + s.size(9);
    what += " @" + std::to_string(at);
    switch (s.weighted({5, 5, 3, 3, 2, 2, 2})) {
    case 0: if (!b.empty()) b[at] = char(b[at] ^ (1 << s.draw(7))); what += " flip"; break;
    case 1: if (!b.empty()) b[at] = char(s.draw(255)); what += " set"; break;
    case 2: if (!b.empty()) b.erase(at, n); what += " erase " + std::to_string(n); break;
    case 3: b.insert(at, std::string(n, s.coin() ? char(s.draw(255)) : "\n\r\t \0,'(){}:0L|"[s.draw(14)])); what += " insert " + std::to_string(n); break;
    case 4: b.resize(at); what += " cut"; break;
    case 5: if (!b.empty()) b.insert(s.draw(lim), b.substr(at, n)); what += " copy"; break;
    default: { // an interesting little-endian integer
      static const uint64_t v[] = {0, 1, 0x7F, 0xFF, 0x7FFF, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF};
      uint64_t x = v[s.draw(12)];
      size_t w = size_t(1) << s.draw(3);
      for (size_t q = 0; q < w && at + q < b.size(); ++q) b[at + q] = char(x >> (8 * q));
      what += " int";
    }
    }
  }
  return b;
}
} // namespace hostile
#endif
