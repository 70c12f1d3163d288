// C01: NPY save/load round trip is exact.
#include "common.h"
using namespace ref;

static void roundtrip(pbt::Case &c) {
  gen::ArrOpts o;
  switch (c.s.weighted({10, 30, 8, 1})) {
  case 0: o.max_bytes = 64; break;
  case 1: o.max_bytes = 4096; break;
  case 2: o.max_bytes = 200000; break;
  default: o.max_bytes = 2500000; o.max_width = 64;
  }
  o.shape.max_elems = o.max_bytes;
  o.max_width = o.max_bytes >= 4096 && c.s.chance(1, 6) ? 300 : o.max_width;
  npy::endian_t e = draw_endian(c.s);
  Arr a = gen::array(c.s, o);
  size_t way_s = c.s.draw(lib::SAVE_STREAM_WAYS - 1), way_p = c.s.draw(lib::SAVE_PATH_WAYS - 1);
  size_t way_l = c.s.draw(lib::LOAD_STREAM_WAYS - 1), way_lp = c.s.draw(lib::LOAD_PATH_WAYS - 1);
  c.describe("endian=" + std::to_string(int(char(e))) + " ways=" + std::to_string(way_s) + std::to_string(way_p) + std::to_string(way_l) + std::to_string(way_lp) + " " + a.text());
  gen::classify(c, a);
  if (gen::interesting(a)) c.nontrivial();

  Arr after;
  std::string bytes = lib::save_twice(a, e, after);
  check_arr(a, after, "the saved tensor changed");
  check_arr(a, lib::load_bytes(bytes, a.dt, int(way_l)), "load(save(t)) through a stream");
  std::string b2 = lib::save(a, e, int(way_s));
  std::string d = diff_bytes(bytes, b2);
  PB_ASSERT(d.empty(), "entry points write different bytes: " << d);
  // a stream that already holds something
  if (c.s.chance(1, 2)) {
    std::string before(c.s.coin() ? c.s.draw(200) : c.s.size(9000), 'p');
    std::stringstream io;
    io << before;
    bool odd = c.s.chance(1, 2);
    if (odd) odd_state(c.s, io), c.label("odd stream state");
    lib::save(io, a, e, int(way_s));
    d = diff_bytes(before + bytes, io.str());
    PB_ASSERT(d.empty(), "saving after " << before.size() << " other bytes writes different bytes: " << d);
    io.seekg(std::streamoff(before.size()));
    check_arr(a, lib::load(io, a.dt, int(way_l)), "load from the middle of a stream");
    c.label("behind other bytes");
  }
  if (c.s.chance(1, 3)) { // a destination that cannot seek
    SinkBuf sink(c.s.coin() ? 0 : 1 + c.s.draw(600));
    std::ostream o(&sink);
    lib::save(o, a, e, int(way_s));
    PB_ASSERT(o.good(), "saving left the stream in a failed state");
    d = diff_bytes(bytes, sink.bytes());
    PB_ASSERT(d.empty(), "saving to an unseekable stream writes different bytes: " << d);
    c.label("to an unseekable stream");
  }
  // path
  if (c.s.chance(1, 2)) {
    std::string path = pbt::scratch() + "/t.npy";
    if (c.s.coin()) lib::spit(path, std::string(c.s.draw(3000), 'x')); // overwritten
    lib::save(path, a, e, int(way_p));
    d = diff_bytes(bytes, lib::slurp(path));
    PB_ASSERT(d.empty(), "saving to a path writes different bytes: " << d);
    check_arr(a, lib::load(path, a.dt, int(way_lp)), "load from a path");
    unlink(path.c_str());
    c.label("through a file");
  }
  // a reload saved again is the same file
  if (c.s.chance(1, 4)) {
    d = diff_bytes(bytes, lib::save(lib::load_bytes(bytes, a.dt), e));
    PB_ASSERT(d.empty(), "save(load(f)) differs from f: " << d);
  }
}
// headers whose dictionary length walks through every value up to ~3 kB, and
// occasionally beyond what version 1.0 of the format can hold
static void long_header(pbt::Case &c) {
  Arr a;
  a.dt = gen::dtype(c.s);
  a.fortran = c.s.coin();
  size_t nd = c.s.chance(1, 40) ? c.s.range(21800, 22600) : c.s.range(0, 1000);
  a.shape.assign(nd, 1);
  if (nd) {
    size_t k = c.s.draw(3);
    for (size_t i = 0; i < k; ++i) a.shape[c.s.draw(nd - 1)] = c.s.coin() ? 2 : 3;
    if (c.s.chance(1, 3)) {
      size_t z = c.s.draw(nd - 1);
      a.shape[z] = 0;
      if (nd > 1) a.shape[z ? z - 1 : 1] = size_t(1) << c.s.draw(40);
    }
  }
  gen::contents(c.s, a, 12);
  npy::endian_t e = draw_endian(c.s);
  c.describe("long header: ndim=" + std::to_string(nd) + " type " + DT_NAME[a.dt]);
  c.label(nd > 21000 ? "header beyond 64 KiB" : nd > 60 ? "header beyond 255 bytes" : "header short");
  if (nd > 60) c.nontrivial();
  std::string bytes = lib::save(a, e);
  check_arr(a, lib::load_bytes(bytes, a.dt), "load(save(t)) with a long header");
}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"roundtrip", roundtrip, 9}, {"long_header", long_header, 1}},
                  "a generated tensor (14 types, C/F order, scalar/empty/many-dimensional shapes, three byte orders) saved by two entry points and loaded back; non-trivial: the elements are not all equal, or the header exceeds 255 bytes");
}
