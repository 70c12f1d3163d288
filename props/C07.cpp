// C07: a truncated NPY file is never loaded.
#include "common.h"
using namespace ref;

static void must_throw(const std::string &cut, int dt, int way, size_t n, size_t full) {
  lib::Result r = lib::attempt([&](lib::Result &) { lib::load_bytes(cut, dt, way); });
  PB_ASSERT(r.k != lib::Result::OK, "a file cut to " << n << " of " << full << " bytes was loaded");
  PB_ASSERT(r.k != lib::Result::NONSTD, "a file cut to " << n << " of " << full << " bytes made load throw " << r.what);
}
static void cuts(pbt::Case &c) {
  gen::ArrOpts o;
  size_t mode = c.s.weighted({6, 3, 1});
  o.max_bytes = mode == 0 ? 200 : mode == 1 ? 2000 : 150000;
  o.shape.max_elems = o.max_bytes;
  o.shape.wide = false;
  Arr a = gen::array(c.s, o);
  bool big = c.s.coin(), own = c.s.coin();
  std::string bytes;
  if (own) bytes = lib::save(a, big ? npy::endian_t::BIG : npy::endian_t::LITTLE);
  else {
    std::string dict = "{'descr': '" + descr(a.dt, big, a.max_len()) + "', 'fortran_order': " + (a.fortran ? "True" : "False") + ", 'shape': " + shape_text(a.shape) + ", }";
    bytes = wrap_header(dict, c.s.coin() ? 2 : 1, c.s.coin() ? 64 : 0, c.s.draw(9)) + encode_payload(a, big, a.max_len());
  }
  c.describe(std::string(big ? "big " : "little ") + a.text() + " all cuts of " + std::to_string(bytes.size()));
  gen::classify(c, a);
  c.label(big ? "byte order: big" : "byte order: little");
  if (a.count()) c.nontrivial();
  check_arr(a, lib::load_bytes(bytes, a.dt), "(harness) the complete file");
  int way = int(c.s.draw(lib::LOAD_STREAM_WAYS - 1));
  size_t full = bytes.size(), done = 0;
  if (full <= 2300) {
    for (size_t n = 0; n < full; ++n, ++done) must_throw(bytes.substr(0, n), a.dt, way, n, full);
  } else {
    std::vector<size_t> at = {0, 5, 6, 9, 10, 11, 12, 64, 128, full / 2, full - 1, full - 2, full - 3, full - 7, full - 8, full - 9, full - 16};
    for (size_t k = 0; k < 12; ++k) at.push_back(c.s.draw(full - 1));
    for (size_t k = 0; k < 12; ++k) { size_t p = c.s.size(full - 1); at.push_back(p); at.push_back(full - 1 - p); }
    for (size_t n : at) { must_throw(bytes.substr(0, n), a.dt, way, n, full); ++done; }
  }
  // through a file, a few cuts
  std::string p = pbt::scratch() + "/cut.npy";
  for (int k = 0; k < 4; ++k, ++done) {
    size_t n = k == 0 ? full - 1 : c.s.draw(full - 1);
    lib::spit(p, bytes.substr(0, n));
    int pw = int(c.s.draw(lib::LOAD_PATH_WAYS - 1));
    lib::Result r = lib::attempt([&](lib::Result &) { lib::load(p, a.dt, pw); });
    PB_ASSERT(r.k != lib::Result::OK, "a file on disk cut to " << n << " of " << full << " bytes was loaded");
    PB_ASSERT(r.k != lib::Result::NONSTD, "load threw " << r.what);
  }
  unlink(p.c_str());
  // an unseekable stream, and the cut file as the end of a longer stream
  for (int k = 0; k < 4; ++k, ++done) {
    size_t n = k == 0 ? full - 1 : c.s.draw(full - 1);
    PieceBuf b(bytes + bytes.substr(0, n), 1 + c.s.draw(60));
    std::istream in(&b);
    check_arr(a, lib::load(in, a.dt, way), "(harness) first array");
    lib::Result r = lib::attempt([&](lib::Result &) { lib::load(in, a.dt, way); });
    PB_ASSERT(r.k != lib::Result::OK, "a second array cut to " << n << " of " << full << " bytes was loaded");
  }
  // peeking at a file cut inside its header
  Header h;
  PB_ASSERT(parse_header(bytes, h, false).empty(), "(harness) header");
  for (int k = 0; k < 3; ++k, ++done) {
    size_t n = k == 0 ? h.size - 1 : c.s.draw(h.size - 1);
    lib::Result r = lib::attempt([&](lib::Result &) { lib::peek_bytes(bytes.substr(0, n)); });
    PB_ASSERT(r.k != lib::Result::OK, "a header cut to " << n << " of " << h.size << " bytes was peeked");
  }
  for (size_t k = 0; k < done; ++k) c.label("truncated inputs tried");
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"cuts", cuts, 1}},
                  "a valid NPY file (own or foreign, every type and byte order) offered cut at every byte (files up to 2300 bytes) or at boundary-biased points (larger), through strings, files and unseekable streams; non-trivial: the array has elements");
}
