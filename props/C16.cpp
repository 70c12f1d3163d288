// C16: compression is lossless for all contents, sizes and DEFLATE encoders.
#include "archives.h"
#include "flate.h"

static const size_t MIB = 1 << 20;
// an interesting total size of the NPY file
static size_t total_size(pbt::Source &s, size_t big_den) {
  size_t base;
  switch (s.chance(1, big_den) ? s.draw(2) : 3 + s.draw(2)) {
  case 0: base = MIB * (1 + s.draw(1)); break;             // the library's chunk
  case 1: base = MIB + 32768 * s.draw(16); break;
  case 2: base = MIB / 2 + s.draw(2 * MIB); return base;
  case 3: base = 32768 * (1 + s.draw(4)); break;           // the window
  default: return 128 + s.size(100000);
  }
  int64_t d = s.coin() ? 0 : int64_t(s.draw(8)) - 4;
  if (s.chance(1, 5)) d += s.coin() ? 258 : -258;
  return size_t(int64_t(base) + d);
}
static void fill_content(pbt::Source &s, std::string &b, std::string &kind) {
  size_t n = b.size();
  pbt::Rng g(s.draw(0xFFFFFFFF));
  switch (s.draw(7)) {
  case 0: kind = "constant"; std::fill(b.begin(), b.end(), char(s.draw(255))); break;
  case 1: kind = "random"; for (auto &x : b) x = char(g.next()); break;
  case 2: kind = "small alphabet"; { size_t k = 2 + s.draw(6); for (auto &x : b) x = char(g.next() % k); } break;
  case 3: { // a random block repeated at a period around the window size
    kind = "periodic";
    static const size_t p[] = {1, 2, 3, 258, 259, 4096, 32767, 32768, 32769, 65535};
    size_t per = p[s.draw(9)];
    for (size_t i = 0; i < n; ++i) b[i] = i < per ? char(g.next()) : b[i - per];
    break;
  }
  case 4: { // compressible and incompressible stretches in turns
    kind = "alternating";
    size_t i = 0;
    while (i < n) {
      size_t k = 1 + g.next() % 70000;
      bool r = g.next() & 1;
      for (size_t q = 0; q < k && i < n; ++q, ++i) b[i] = r ? char(g.next()) : char(k);
    }
    break;
  }
  case 5: kind = "runs"; { size_t i = 0; while (i < n) { size_t k = 1 + g.next() % 600; char v = char(g.next()); for (; k && i < n; --k) b[i++] = v; } } break;
  case 6: kind = "counter"; for (size_t i = 0; i < n; ++i) b[i] = char((i / 4) >> (8 * (i % 4))); break;
  default: kind = "text"; { static const char *w[] = {"the ", "value ", "of ", "tensor ", "layer", "0", "1", "\n"}; std::string t; while (t.size() < n) t += w[g.next() % 8]; b = t.substr(0, n); }
  }
  if (s.chance(1, 3)) { // another byte at an end
    static const unsigned char X[] = {0, 0xFF, 0x80, 0x0A, 0x20};
    (s.chance(1, 4) ? b.front() : b.back()) = char(X[s.draw(4)]);
  }
}
static Arr u1_array(const std::string &payload) {
  Arr a;
  a.dt = U1;
  a.shape = {payload.size()};
  a.raw.assign(payload.begin(), payload.end());
  return a;
}
// what the library deflates
static void own(pbt::Case &c) {
  size_t total = total_size(c.s, 12);
  size_t entries = 1 + c.s.chance(1, 5);
  auto w = lib::make_writer("", npy::compression_method_t::DEFLATED, npy::endian_t::LITTLE);
  std::vector<Arr> as;
  for (size_t i = 0; i < entries; ++i) {
    std::string body(i == 0 ? (total < 128 ? 0 : total - 128) : c.s.size(70000), 0), kind;
    if (!body.empty()) fill_content(c.s, body, kind);
    else kind = "empty";
    c.describe("own encoder, " + kind + ", NPY file of " + std::to_string(body.size() + 128));
    c.label("content: " + kind);
    c.label(total >= MIB / 2 ? "size: about 1 or 2 MiB" : total >= 30000 ? "size: 32 KiB and more" : "size: small");
    as.push_back(u1_array(body));
    w->write("e" + std::to_string(i), as.back());
  }
  w->close();
  std::string z = w->bytes();
  std::vector<ZParsed> p;
  std::string err = parse_zip(z, p);
  PB_ASSERT(err.empty(), "the deflated archive is not valid: " << err);
  auto rd = lib::make_reader_mem(z);
  for (size_t i = 0; i < entries; ++i) {
    check_bytes(encode_npy(as[i], false), p.at(i).data, "a standard inflater restores something else");
    if (p[i].data.size() > 32768 || p[i].comp.size() > 200) c.nontrivial();
    c.label(p[i].comp.size() < p[i].data.size() / 100 ? "ratio: over 100:1" : p[i].comp.size() < p[i].data.size() ? "ratio: compressed" : "ratio: incompressible");
  }
  for (size_t i = 0; i < entries; ++i) check_arr(as[i], rd->read("e" + std::to_string(i), U1), "reading back a deflated entry of " + std::to_string(as[i].raw.size() + 128) + " bytes");
}
static void read_foreign(pbt::Case &c, const std::string &file, const std::string &comp, const Arr &a) {
  std::string check;
  size_t used = 0;
  PB_ASSERT(inflate_raw(comp, check, &used) && used == comp.size() && check == file, "(harness) the generated DEFLATE stream is not valid");
  std::vector<ZEntry> es(1 + c.s.draw(1));
  for (auto &e : es) {
    e.name = std::string(1, char('a' + (&e - es.data()))) + ".npy";
    e.data = file;
    e.method = 8;
    e.comp = comp;
    e.have_comp = true;
  }
  std::string z = build_zip(es);
  auto rd = lib::make_reader_mem(z);
  for (auto &e : es) {
    lib::Result r = lib::attempt([&](lib::Result &r) { r.arr = rd->read(e.name, a.dt); });
    PB_ASSERT(r.k == lib::Result::OK, "a valid DEFLATE stream of " << comp.size() << " bytes holding " << file.size() << " is refused: " << r.what);
    check_arr(a, r.arr, "decompressing a valid DEFLATE stream of " + std::to_string(comp.size()) + " bytes holding " + std::to_string(file.size()));
  }
  c.label(file.size() > 32768 ? "uncompressed over 32 KiB" : "uncompressed up to 32 KiB");
  if (comp.size() >= MIB - 8) c.label("compressed about 1 MiB or more");
}
// what zlib deflates, over all its parameters
static void zlib(pbt::Case &c) {
  size_t total = total_size(c.s, 20);
  std::string body(total < 128 ? 0 : total - 128, 0), kind = "empty";
  if (!body.empty()) fill_content(c.s, body, kind);
  Arr a = u1_array(body);
  std::string file = encode_npy(a, false);
  int level = int(c.s.draw(9)), strategy = int(c.s.draw(4)), mem = 1 + int(c.s.draw(8));
  int flush = c.s.coin() ? 0 : int(1 + c.s.draw(60000));
  if (flush && file.size() / size_t(flush) > 3000) flush = int(file.size() / 3000) + 1;
  std::string comp = deflate_raw(file, level, strategy, mem, flush);
  c.describe("zlib level " + std::to_string(level) + " strategy " + std::to_string(strategy) + " memLevel " + std::to_string(mem) + " flush every " + std::to_string(flush) + ", " + kind + ", " + std::to_string(file.size()) + " -> " + std::to_string(comp.size()));
  c.label("encoder: zlib strategy " + std::to_string(strategy));
  c.nontrivial();
  read_foreign(c, file, comp, a);
}
// hand-made token streams in every block type
static void tokens(pbt::Case &c) {
  pbt::Source &s = c.s;
  pbt::Rng g(s.draw(0xFFFFFFFF));
  size_t n = s.chance(1, 4) ? s.draw(30) : s.size(4000);
  size_t alphabet = s.coin() ? 256 : 1 + s.draw(255);
  size_t pm = s.draw(9), shape = s.draw(4);
  std::vector<flate::Tok> t;
  size_t at = 128;
  // long literal prefix so that far distances exist
  if (s.chance(1, 3)) for (size_t k = 33000 + s.draw(3000); k > 0; --k) { t.push_back({0, 0, uint8_t(g.next())}); ++at; }
  for (size_t i = 0; i < n; ++i) {
    if (g.next() % 10 >= pm) { t.push_back({0, 0, uint8_t(g.next() % alphabet)}); ++at; continue; }
    static const int ls[] = {3, 4, 10, 11, 12, 18, 19, 257, 258, 258};
    int len = shape == 0 ? 258 : shape == 1 ? 3 : shape == 2 ? ls[g.next() % 10] : int(3 + g.next() % 256);
    size_t lim = std::min<size_t>(at, 32768), dist;
    switch (g.next() % 5) {
    case 0: dist = lim; break;
    case 1: dist = 1; break;
    case 2: dist = 1 + g.next() % std::min<size_t>(lim, 8); break;
    case 3: dist = size_t(flate::DBASE[g.next() % 30]); if (dist > lim) dist = lim; break;
    default: dist = 1 + g.next() % lim;
    }
    t.push_back({uint16_t(len), uint16_t(dist), 0});
    at += size_t(len);
    if (at > 3 * MIB) break;
  }
  Arr a;
  a.dt = U1;
  a.shape = {at - 128};
  std::string header = encode_npy_header("|u1", false, a.shape);
  PB_ASSERT(header.size() == 128, "(harness) header size");
  std::string file = flate::expand(header, t);
  a.raw.assign(file.begin() + 128, file.end());
  size_t pad = s.chance(1, 6) ? 5 * s.draw(4000) : 0;
  std::string what, comp = flate::encode(header, t, s, pad, what);
  c.describe("token stream: " + std::to_string(t.size()) + " tokens, blocks " + what + ", " + std::to_string(file.size()) + " bytes from " + std::to_string(comp.size()));
  c.label("encoder: tokens, " + what);
  c.nontrivial();
  read_foreign(c, file, comp, a);
}
// compressed sizes at the library's input chunk
static void chunk(pbt::Case &c) {
  pbt::Source &s = c.s;
  size_t target = MIB * (1 + s.draw(1)) + s.draw(16) - 8;
  bool stored = s.coin();
  std::string body, kind;
  std::string file, comp;
  Arr a;
  if (stored) { // stored blocks fill the size, then the end
    body.assign(target - 128 - 5 * (target / 65540 + 2) - s.draw(300), 0);
    fill_content(s, body, kind);
    a = u1_array(body);
    file = encode_npy(a, false);
    flate::Bits b;
    for (size_t p = 0; p < file.size();) {
      size_t m = std::min<size_t>(file.size() - p, 65535);
      b.out += '\0';
      b.out += char(m & 255); b.out += char(m >> 8); b.out += char(~m & 255); b.out += char((~m >> 8) & 255);
      b.out.append(file, p, m);
      p += m;
    }
    comp = b.out;
  } else { // few data behind or before very many empty blocks
    body.assign(s.size(70000), 0);
    if (!body.empty()) fill_content(s, body, kind);
    a = u1_array(body);
    file = encode_npy(a, false);
    std::vector<flate::Tok> t;
    for (char ch : file) t.push_back({0, 0, uint8_t(ch)});
    std::string what;
    flate::Bits b;
    std::vector<int> fl, fd;
    flate::fixed_lengths(fl, fd);
    b.put(0, 1);
    b.put(1, 2);
    flate::tokens(b, t, 0, t.size(), fl, fd);
    b.put(0, 3);
    b.align();
    b.out += std::string("\0\0\xFF\xFF", 4);
    comp = b.out;
  }
  std::string fill;
  while (comp.size() + fill.size() + 5 + 2 <= target) fill += std::string("\0\0\0\xFF\xFF", 5);
  if (!stored && s.coin()) comp = fill + comp;
  else comp += fill;
  // the final block in 2 (fixed, empty) to 6 bytes
  switch (target - comp.size()) {
  case 2: comp += std::string("\x03\x00", 2); break;
  case 3: comp += std::string("\x02\x0C\x00", 3); break;    // two empty fixed blocks
  case 5: comp += std::string("\x01\x00\x00\xFF\xFF", 5); break;
  default: comp += std::string("\x03\x00", 2);
  }
  c.describe(std::string(stored ? "stored blocks" : "empty blocks") + ", " + std::to_string(file.size()) + " bytes in a stream of " + std::to_string(comp.size()));
  c.label("encoder: padded to the input chunk");
  c.nontrivial();
  read_foreign(c, file, comp, a);
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"own", own, 8}, {"zlib", zlib, 8}, {"tokens", tokens, 8}, {"chunk", chunk, 1}},
                  "own: arrays of 8 kinds of contents and sizes at window and chunk boundaries deflated by the library and inflated by zlib and by the library; zlib: streams of every level/strategy/memLevel/flush pattern; tokens: generated DEFLATE token streams in every block type with random Huffman codes; chunk: compressed sizes around 1 and 2 MiB; non-trivial: all foreign streams, own streams beyond 32 KiB or 200 compressed bytes");
}
