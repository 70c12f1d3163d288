// C05: peeking reports exactly what loading delivers, reading only the header.
#include "common.h"
using namespace ref;

static void peeks(pbt::Case &c) {
  gen::ArrOpts o;
  o.max_bytes = 2000;
  o.shape.max_elems = 500;
  if (c.s.chance(1, 6)) o.max_width = 300;
  if (c.s.chance(1, 50)) o.max_bytes = o.shape.max_elems = 300000;
  Arr a = gen::array(c.s, o);
  bool big = c.s.coin(), own = c.s.coin();
  size_t width = a.max_len();
  std::string bytes;
  if (own) bytes = lib::save(a, big ? npy::endian_t::BIG : npy::endian_t::LITTLE);
  else {
    width += a.dt == US ? c.s.draw(5) : 0;
    std::string dict = "{'descr': '" + descr(a.dt, big, width) + "', 'fortran_order': " + (a.fortran ? "True" : "False") + ", 'shape': " + shape_text(a.shape) + ", }";
    bytes = wrap_header(dict, c.s.coin() ? 2 : 1, c.s.coin() ? 64 : 0, c.s.chance(1, 4) ? c.s.size(9000) : 0) + encode_payload(a, big, width);
  }
  Header h;
  PB_ASSERT(parse_header(bytes, h, false).empty(), "(harness) header");
  c.describe(std::string(own ? "own " : "foreign ") + (big ? "big " : "little ") + a.text());
  gen::classify(c, a);
  c.label(own ? "own file" : "foreign file");
  if (gen::interesting(a)) c.nontrivial();
  auto ok = [&](const npy::header_info &i, const char *how) {
    std::string d = lib::diff_header(i, a.dt, big, a.shape, a.fortran, width);
    PB_ASSERT(d.empty(), how << ": " << d);
  };
  // streams of three kinds, with bytes around the array
  std::string before(c.s.chance(1, 3) ? c.s.draw(40) : 0, 'b'), after(c.s.chance(1, 3) ? c.s.draw(40) : 0, 'a');
  for (int kind = 0; kind < 3; ++kind) {
    AnyIn s(kind, before + bytes + after, 1 + c.s.draw(30));
    std::string skip(before.size(), 0);
    s.in->read(skip.data(), std::streamsize(skip.size()));
    bool peek_first = c.s.coin();
    npy::header_info i = peek_first ? npy::peek(*s.in) : npy::read_npy_header(*s.in);
    ok(i, "peek(stream)");
    if (bytes.size() > h.size || !after.empty()) PB_ASSERT(s.in->good(), "the stream is not good after peek");
    else PB_ASSERT(!s.in->fail(), "the stream failed after peek");
    s.in->clear();
    size_t pos = s.consumed() - before.size();
    PB_ASSERT(pos == h.size, "peek consumed " << pos << " bytes, the header has " << h.size);
    Arr got = lib::with_type(a.dt, [&](auto t) {
      typedef typename decltype(t)::type T;
      return lib::from_tensor<T>(npy::tensor<T>::load(*s.in, i));
    });
    check_arr(a, got, "payload after peek");
  }
  // only the header is needed
  ok(lib::peek_bytes(bytes.substr(0, h.size)), "peek of the header alone");
  // path
  std::string p = pbt::scratch() + "/p.npy";
  lib::spit(p, bytes);
  ok(npy::peek(p), "peek(path)");
  check_bytes(bytes, lib::slurp(p), "peek changed the file");
  unlink(p.c_str());
  // archive
  std::vector<ZEntry> es(1 + c.s.draw(2));
  for (size_t i = 0; i < es.size(); ++i) {
    es[i].name = std::string(1, char('x' + i)) + ".npy";
    es[i].data = i == 0 ? bytes : encode_npy(gen::small_array(c.s), false);
    es[i].method = c.s.coin() ? 8 : 0;
    es[i].z64_local = c.s.coin(); // as NumPy does
    es[i].descriptor = c.s.chance(1, 8);
    es[i].flags = c.s.chance(1, 8) ? 0x800 : 0;
  }
  if (c.s.coin()) std::swap(es.front(), es.back());
  std::string z = build_zip(es);
  auto mem = lib::make_reader_mem(z);
  ok(mem->peek("x"), "peek in an archive");
  ok(mem->peek("x.npy"), "peek in an archive");
  check_arr(a, mem->read("x", a.dt), "read after peek in an archive");
  ok(mem->peek("x"), "second peek in an archive");
  std::string zp = pbt::scratch() + "/p.npz";
  lib::spit(zp, z);
  auto disk = lib::make_reader_file(zp);
  ok(disk->peek(c.s.coin() ? "x" : "x.npy"), "peek in an archive on disk");
  if (c.s.coin()) ok(disk->peek(c.s.coin() ? "x" : "x.npy"), "second peek in an archive on disk");
  check_arr(a, disk->read("x", a.dt), "read after peek in an archive on disk");
  unlink(zp.c_str());
}
// headers that declare huge arrays can be peeked without their payload
static void huge(pbt::Case &c) {
  Arr a;
  a.dt = gen::dtype(c.s);
  a.fortran = c.s.coin();
  size_t nd = 1 + c.s.draw(4);
  for (size_t i = 0; i < nd; ++i) a.shape.push_back(size_t(1) << c.s.draw(40 / nd));
  for (auto &d : a.shape) d += c.s.draw(9);
  bool big = c.s.coin();
  size_t width = a.dt == US ? 1 + c.s.size(1000000) : 0;
  std::string b = encode_npy_header(descr(a.dt, big, width), a.fortran, a.shape);
  c.describe("header only, " + std::string(DT_NAME[a.dt]) + " " + shape_text(a.shape) + " width " + std::to_string(width));
  c.nontrivial();
  std::string d = lib::diff_header(lib::peek_bytes(b), a.dt, big, a.shape, a.fortran, width);
  PB_ASSERT(d.empty(), "peek of a header for a huge array: " << d);
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"peeks", peeks, 9}, {"huge", huge, 1}},
                  "a random array in a file written by libnpy or by an independent encoder, peeked on three stream kinds (string, file, unseekable in small pieces), by path and in archives, then loaded; non-trivial: elements not all equal, or a header declaring a huge array");
}
