// C01, arrays beyond 2^31 and 2^32 bytes: sizes must not be cut anywhere.
// The file exists only as a stream buffer that compares or produces it.
#include "common.h"
using namespace ref;

// the elements repeat with a prime period
static const size_t PERIOD = 1048583;
static std::string block_of(int dt, uint64_t seed, bool big) {
  std::string b(PERIOD * DT_SIZE[dt], 0);
  pbt::Rng g(seed);
  for (auto &x : b) x = char(dt == B1 ? g.next() & 1 : g.next());
  size_t u = DT_UNIT[dt];
  if (big && u > 1) for (size_t i = 0; i < b.size(); i += u) std::reverse(b.begin() + long(i), b.begin() + long(i + u));
  return b;
}
// compares what is written with header + the block over and over
struct CompareBuf : std::streambuf {
  const std::string &head, &block;
  uint64_t at = 0;
  bool bad = false;
  uint64_t bad_at = 0;
  std::vector<char> buf;
  CompareBuf(const std::string &h, const std::string &b) : head(h), block(b), buf(1 << 16) { setp(buf.data(), buf.data() + buf.size()); }
  void take(const char *p, size_t n) {
    while (n) {
      const char *q;
      size_t k;
      if (at < head.size()) { q = head.data() + at; k = head.size() - at; }
      else { size_t o = (at - head.size()) % block.size(); q = block.data() + o; k = block.size() - o; }
      if (k > n) k = n;
      if (memcmp(p, q, k) && !bad) { bad = true; bad_at = at; }
      p += k; n -= k; at += k;
    }
  }
  void flush_() { take(pbase(), size_t(pptr() - pbase())); setp(buf.data(), buf.data() + buf.size()); }
  int_type overflow(int_type c) override { flush_(); if (c != traits_type::eof()) sputc(char(c)); return 0; }
  int sync() override { flush_(); return 0; }
  std::streamsize xsputn(const char *p, std::streamsize n) override { flush_(); take(p, size_t(n)); return n; }
};
struct ProduceBuf : std::streambuf {
  const std::string &head, &block;
  uint64_t at = 0, end;
  ProduceBuf(const std::string &h, const std::string &b, uint64_t payload) : head(h), block(b), end(h.size() + payload) {}
  int_type underflow() override {
    if (at >= end) return traits_type::eof();
    const char *q;
    size_t k;
    if (at < head.size()) { q = head.data() + at; k = head.size() - at; }
    else { size_t o = (at - head.size()) % block.size(); q = block.data() + o; k = block.size() - o; }
    k = size_t(std::min<uint64_t>(k, end - at));
    at += k;
    char *p = const_cast<char *>(q);
    setg(p, p, p + k);
    return traits_type::to_int_type(*p);
  }
};
template <class T> static void run(const gen::Shape &sh, bool fortran, npy::endian_t e, const std::string &head, const std::string &native, const std::string &stored, size_t way) {
  size_t n = 1;
  for (auto d : sh) n *= d;
  size_t bytes = n * sizeof(T);
  {
    npy::tensor<T> t(sh, fortran);
    PB_ASSERT(t.size() == n, "size() is " << t.size());
    for (size_t p = 0; p < bytes; p += native.size()) memcpy(reinterpret_cast<char *>(t.data()) + p, native.data(), std::min(native.size(), bytes - p));
    CompareBuf cb(head, stored);
    std::ostream o(&cb);
    if (way) npy::save(o, t, e);
    else { npy::write_npy_header(o, t.dtype(e), t.fortran_order(), t.shape()); npy::write_values(o, t.data(), t.size(), e); }
    o.flush();
    PB_ASSERT(!o.fail(), "saving failed");
    PB_ASSERT(cb.at == head.size() + bytes, "saving wrote " << cb.at << " bytes instead of " << head.size() + bytes);
    PB_ASSERT(!cb.bad, "the saved file differs within the " << 65536 << " bytes from " << cb.bad_at);
  }
  ProduceBuf pb(head, stored, bytes);
  std::istream i(&pb);
  npy::tensor<T> t = npy::load<npy::tensor<T>>(i);
  PB_ASSERT(t.shape() == sh && t.fortran_order() == fortran && t.size() == n, "the loaded tensor has another shape or order");
  for (size_t p = 0; p < bytes; p += native.size())
    PB_ASSERT(!memcmp(reinterpret_cast<const char *>(t.data()) + p, native.data(), std::min(native.size(), bytes - p)), "the loaded tensor differs within the bytes from " << p);
}
static void large(pbt::Case &c, int dt, bool beyond32, bool swapped) {
  size_t bytes = (beyond32 ? size_t(1) << 32 : size_t(1) << 31) + c.s.draw(1u << 20);
  size_t n = bytes / DT_SIZE[dt] + 1;
  gen::Shape sh = {n};
  if (c.s.coin()) { size_t d = 2 + c.s.draw(3000); sh = {n / d + 1, d}; }
  bool f = c.s.coin();
  npy::endian_t e = swapped ? (npy::native_endian() == npy::endian_t::BIG ? npy::endian_t::LITTLE : npy::endian_t::BIG) : draw_endian(c.s);
  if (!swapped && e != npy::endian_t::NATIVE) e = npy::native_endian();
  bool big = is_big(e);
  std::string native = block_of(dt, c.s.draw(0xFFFFFF), false), stored = native;
  if (big && DT_UNIT[dt] > 1) for (size_t i = 0, u = DT_UNIT[dt]; i < stored.size(); i += u) std::reverse(stored.begin() + long(i), stored.begin() + long(i + u));
  std::string head = encode_npy_header(descr(dt, big, 0), f, sh);
  size_t way = c.s.draw(1);
  c.describe(std::string(DT_NAME[dt]) + shape_text(sh) + (f ? " F " : " C ") + endian_name(e));
  c.label(beyond32 ? "size: over 2^32 bytes" : "size: over 2^31 bytes");
  c.label(swapped ? "order: not the host's" : "order: the host's");
  c.nontrivial();
  lib::with_type(dt, [&](auto tag) {
    typedef typename decltype(tag)::type T;
    if constexpr (!std::is_same_v<T, std::wstring>) run<T>(sh, f, e, head, native, stored, way);
  });
}
static int single(pbt::Source &s) { static const int d[] = {I1, U1, B1}; return d[s.draw(2)]; }
static int multi(pbt::Source &s) { static const int d[] = {I2, U2, I4, U4, I8, U8, F4, F8, C8, C16}; return d[s.draw(9)]; }
static void bytes31(pbt::Case &c) { large(c, single(c.s), false, false); }
static void bytes32(pbt::Case &c) { large(c, single(c.s), true, false); }
static void words32(pbt::Case &c) { large(c, multi(c.s), true, false); }
static void swapped31(pbt::Case &c) { large(c, multi(c.s), false, true); }
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"bytes31", bytes31, 1}, {"bytes32", bytes32, 1}, {"words32", words32, 1}, {"swapped31", swapped31, 1}},
                  "a numeric array of more than 2^31 or 2^32 bytes in either byte order saved into a stream that compares every byte and loaded from one that produces them; non-trivial: all");
}
