// C19: arbitrary bytes offered as an NPZ archive are handled safely.
#include "capnew.h"
#include "hostile.h"
using namespace ref;

static void put(std::string &b, size_t at, uint64_t v, int w) {
  for (int i = 0; i < w && at + size_t(i) < b.size(); ++i) b[at + size_t(i)] = char(v >> (8 * i));
}
static uint64_t get(const std::string &b, size_t at, int w) {
  uint64_t v = 0;
  for (int i = 0; i < w && at + size_t(i) < b.size(); ++i) v |= uint64_t((unsigned char)b[at + size_t(i)]) << (8 * i);
  return v;
}
// (offset, width) of the fields of each record
struct F { size_t off; int w; };
static const std::vector<F> LOCAL = {{4, 2}, {6, 2}, {8, 2}, {10, 4}, {14, 4}, {18, 4}, {22, 4}, {26, 2}, {28, 2}, {0, 4}};
static const std::vector<F> CENTRAL = {{6, 2}, {8, 2}, {10, 2}, {16, 4}, {20, 4}, {24, 4}, {28, 2}, {30, 2}, {32, 2}, {34, 2}, {42, 4}, {4, 2}, {0, 4}};
static const std::vector<F> END = {{8, 2}, {10, 2}, {12, 4}, {16, 4}, {20, 2}, {4, 2}, {0, 4}};
static const std::vector<F> END64 = {{24, 8}, {32, 8}, {40, 8}, {48, 8}, {4, 8}, {12, 2}, {14, 2}, {0, 4}};
static const std::vector<F> LOCATOR = {{8, 8}, {4, 4}, {16, 4}, {0, 4}};

static void patch_fields(pbt::Source &s, std::string &b, std::string &what) {
  std::vector<std::pair<size_t, const std::vector<F> *>> recs;
  for (size_t i = 0; i + 4 <= b.size(); ++i) {
    if (b[i] != 'P' || b[i + 1] != 'K') continue;
    if (b[i + 2] == 3 && b[i + 3] == 4) recs.push_back({i, &LOCAL});
    if (b[i + 2] == 1 && b[i + 3] == 2) recs.push_back({i, &CENTRAL});
    if (b[i + 2] == 5 && b[i + 3] == 6) recs.push_back({i, &END});
    if (b[i + 2] == 6 && b[i + 3] == 6) recs.push_back({i, &END64});
    if (b[i + 2] == 6 && b[i + 3] == 7) recs.push_back({i, &LOCATOR});
  }
  if (recs.empty()) return;
  size_t k = 1 + s.weighted({5, 3, 2, 1});
  for (size_t q = 0; q < k; ++q) {
    auto &r = recs[s.draw(recs.size() - 1)];
    const F &f = (*r.second)[s.draw(r.second->size() - 1)];
    static const uint64_t V[] = {0, 1, 2, 3, 8, 9, 20, 45, 46, 99, 0xFF, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFF0, 0xFFFFFFFFFFFFFFFF};
    uint64_t old = get(b, r.first + f.off, f.w), v;
    switch (s.draw(3)) {
    case 0: v = V[s.draw(23)]; break;
    case 1: v = old + s.draw(40) - 20; break;
    case 2: v = s.draw(b.size() + 30); break;
    default: v = old ^ (uint64_t(1) << s.draw(uint64_t(f.w) * 8 - 1));
    }
    put(b, r.first + f.off, v, f.w);
    what += " [" + std::to_string(r.first) + "+" + std::to_string(f.off) + "]=" + std::to_string(v);
    // the local header as well, so that the two agree
    if (r.second == &CENTRAL && s.coin()) {
      size_t l = size_t(get(b, r.first + 42, 4));
      if (f.off >= 8 && f.off <= 30 && l < b.size()) { put(b, l + f.off - 2, v, f.w); what += " (both)"; }
    }
  }
}
static std::string entry_payload(pbt::Source &s, std::string &what) {
  Arr a = gen::small_array(s);
  std::string d = encode_npy(a, s.coin());
  switch (s.weighted({3, 4, 1, 1})) {
  case 0: break;
  case 1: d = hostile::mutate(s, d, 128, what); break;
  case 2: d.clear(); break;
  default: d = std::string(s.draw(300), char(s.draw(255)));
  }
  return d;
}
static void structured(pbt::Case &c) {
  std::vector<ZEntry> es;
  ZOpts o;
  std::string text;
  size_t n = c.s.weighted({1, 5, 5, 3, 1});
  bool odd = false;
  for (size_t i = 0; i < n; ++i) {
    ZEntry z;
    z.name = c.s.chance(1, 12) ? std::string() : gen::name(c.s, false);
    if (c.s.chance(1, 40)) z.name = std::string(c.s.range(65000, 65535), 'n');
    if (c.s.chance(1, 8) && i) z.name = es[0].name;
    if (c.s.chance(1, 10)) { // a name that means something elsewhere
      static const char *N[] = {"%s%s%s%s%s%s%s%s%n", "%n%n%n%n.npy", "%99999999d", "%1$s%9$s%20$n", "../../../../x.npy", "/dev/null", "`x`$(y);|&", "\\\\host\\c$", "\x1b[2J", "\xFF\xFE.npy"};
      z.name = N[c.s.draw(9)];
    }
    if (c.s.chance(1, 8)) z.force_crc = int64_t(c.s.draw(0xFFFFFFFFu));
    z.data = entry_payload(c.s, text);
    z.method = c.s.coin() ? 8 : 0;
    z.z64_local = c.s.chance(1, 4);
    z.descriptor = c.s.chance(1, 6);
    z.z64_central = c.s.chance(1, 4) ? int(c.s.draw(7)) : 0;
    if (c.s.chance(1, 30)) z.version = uint16_t(c.s.draw(100));
    if (z.method == 8 && c.s.chance(1, 2)) { // a malformed stream under consistent checksums
      z.have_comp = true;
      z.comp = deflate_raw(z.data, int(c.s.draw(9)), int(c.s.draw(4)), 8, 0);
      switch (c.s.draw(4)) {
      case 0: z.comp = hostile::mutate(c.s, z.comp, 40, text); break;
      case 1: z.comp.resize(c.s.draw(z.comp.size())); break;
      case 2: z.comp = std::string(c.s.draw(400), '\0'); c.s.fill(reinterpret_cast<uint8_t *>(&z.comp[0]), z.comp.size()); break;
      case 3: z.comp += z.comp; break;
      default: { // expands to many MiB
        z.comp = deflate_raw(std::string(size_t(1) << (14 + c.s.draw(c.s.chance(1, 8) ? 10 : 4)), 'x'), 9, 0, 9, 0);
      }
      }
      // what the stream really holds, so that the checksum agrees
      std::string real;
      if (inflate_raw(z.comp, real, nullptr) && c.s.coin()) z.data = real;
      odd = true;
    }
    if (z.method == 0 && c.s.chance(1, 8)) z.method = uint16_t(c.s.draw(20));
    text += " " + std::to_string(z.name.size()) + "/" + std::to_string(z.data.size()) + "/" + std::to_string(z.method);
    es.push_back(z);
  }
  o.z64_end = c.s.chance(1, 3);
  if (o.z64_end) o.z64_ph = int(c.s.draw(7));
  std::string b = build_zip(es, o);
  bool patched = c.s.chance(2, 3);
  if (patched) patch_fields(c.s, b, text);
  if (c.s.chance(1, 4)) b = hostile::mutate(c.s, b, b.size(), text);
  if (c.s.chance(1, 4) && b.size() > 100) { // near the end, where the directory is
    std::string t = b.substr(b.size() - 100);
    b = b.substr(0, b.size() - 100) + hostile::mutate(c.s, t, 100, text);
  }
  if (c.s.chance(1, 12)) b += std::string(c.s.draw(50), char(c.s.draw(255)));
  c.describe(std::to_string(b.size()) + " bytes, entries name/data/method:" + text);
  std::vector<int> dts = {int(c.s.draw(NDT - 1)), US};
  const char *r = hostile::npz(b, c.s.chance(1, 5), int(c.s.draw(2)), dts);
  c.label(std::string("structured: ") + r);
  if (odd || patched) c.nontrivial();
}
static void streams(pbt::Case &c) { // valid and broken token streams, consistent headers
  ZEntry z;
  z.name = "a.npy";
  z.method = 8;
  z.have_comp = true;
  size_t n = c.s.draw(600);
  z.comp.resize(n);
  c.s.fill(reinterpret_cast<uint8_t *>(&z.comp[0]), n);
  if (n) z.comp[0] = char((unsigned char)z.comp[0] % 8 | (c.s.draw(31) << 3));
  std::string real;
  bool ok = inflate_raw(z.comp, real, nullptr);
  z.data = real;
  std::vector<ZEntry> es{z};
  std::string b = build_zip(es);
  c.describe("deflate stream " + pbt::hexdump(z.comp, 40));
  const char *r = hostile::npz(b, false, 0, {U1});
  c.label(std::string(ok ? "stream: complete, " : "stream: broken, ") + r);
  c.nontrivial();
}
static void raw(pbt::Case &c) {
  std::string b(c.s.size(400), '\0');
  c.s.fill(reinterpret_cast<uint8_t *>(&b[0]), b.size());
  if (c.s.coin()) b += std::string("PK\5\6", 4) + std::string(18, char(c.s.coin() ? 0 : 0xFF));
  if (c.s.chance(1, 3)) {
    std::string t;
    b = hostile::mutate(c.s, b, b.size(), t);
  }
  c.describe(pbt::hexdump(b, 60));
  const char *r = hostile::npz(b, c.s.chance(1, 4), int(c.s.draw(2)), {int(c.s.draw(NDT - 1))});
  c.label(std::string("raw: ") + r);
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"structured", structured, 8}, {"streams", streams, 3}, {"raw", raw, 1}},
                  "structured: archives with any ZIP64 fields whose embedded NPY files, deflate streams (under consistent checksums) and record fields are altered; streams: random bytes as a deflate stream; raw: random bytes; all opened, listed, peeked and read with ASan+UBSan and a cap on allocations; non-trivial: a field or a stream was altered");
}
