// C03: every NPY file NumPy writes for a supported type loads exactly.
#include "common.h"
#include "npd.h"
using namespace ref;

static void numpy_written(pbt::Case &c) {
  gen::ArrOpts o;
  static const size_t sizes[] = {3000, 150000, 2500000};
  o.max_bytes = sizes[c.s.weighted({90, 10, 1})];
  o.shape.max_elems = o.max_bytes;
  o.shape.max_ndim = 64;
  if (c.s.chance(1, 8)) o.max_width = 400;
  Arr a = gen::array(c.s, o);
  bool big = c.s.coin();
  int version = int(c.s.weighted({3, 1, 2}));
  int way = int(c.s.draw(lib::LOAD_STREAM_WAYS - 1));
  c.describe(std::string(big ? "big" : "little") + " version=" + std::to_string(version) + " " + a.text());
  gen::classify(c, a);
  std::string bytes;
  std::string err = npd::write(a, big, version, bytes);
  if (!err.empty()) { // outside NumPy's domain (e.g. a header beyond version 1.0)
    c.label("NumPy cannot write it");
    throw pbt::Discard();
  }
  Header h;
  Arr want;
  bool wbig = false;
  err = decode_npy(bytes, h, want, wbig);
  PB_ASSERT(err.empty(), "(harness) cannot decode NumPy's file: " << err);
  c.label(std::string("version ") + char('0' + bytes[6]));
  c.label(DT_UNIT[a.dt] == 1 ? "byte order: n/a" : wbig ? "byte order: big" : "byte order: little");
  if (gen::interesting(a)) c.nontrivial();
  std::string d = lib::diff_header(lib::peek_bytes(bytes), want.dt, wbig, want.shape, want.fortran, h.width);
  PB_ASSERT(d.empty(), "peek: " << d);
  check_arr(want, lib::load_bytes(bytes, want.dt, way), "load of NumPy's file");
  if (c.s.chance(1, 3)) {
    std::string p = pbt::scratch() + "/n.npy";
    lib::spit(p, bytes);
    check_arr(want, lib::load(p, want.dt, int(c.s.draw(lib::LOAD_PATH_WAYS - 1))), "load of NumPy's file from disk");
    d = lib::diff_header(npy::peek(p), want.dt, wbig, want.shape, want.fortran, h.width);
    PB_ASSERT(d.empty(), "peek(path): " << d);
    unlink(p.c_str());
    c.label("through a file");
  }
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"numpy_written", numpy_written, 1}},
                  "an array saved by NumPy itself (numpy.save, or format version 1.0/2.0; C/F order, both byte orders) and read by libnpy, expected value from an independent decoder; non-trivial: elements not all equal");
}
