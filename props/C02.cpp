// C02: every saved NPY file is valid and NumPy reads it identically.
#include "common.h"
#include "npd.h"
using namespace ref;

static void judge(pbt::Case &c, const Arr &a, npy::endian_t e, const std::string &bytes, bool numpy) {
  bool big = is_big(e);
  Header h;
  Arr got;
  bool gbig = false;
  std::string err = decode_npy(bytes, h, got, gbig);
  PB_ASSERT(err.empty(), "the file does not conform to the NPY format: " << err);
  check_arr(a, got, "independent decoding of the file");
  std::string want = descr(a.dt, big, a.max_len());
  PB_ASSERT(h.descr == want, "type code is " << h.descr << ", expected " << want);
  if (!numpy) return;
  Arr n;
  std::string dt;
  err = npd::load(bytes, n, dt);
  PB_ASSERT(err.empty(), "NumPy rejects the file: " << err);
  check_arr(a, n, "NumPy's array");
  if (a.dt != US || a.max_len() > 0) PB_ASSERT(dt == want, "NumPy's dtype is " << dt << ", expected " << want);
  c.label("judged by NumPy");
}
static void saved(pbt::Case &c) {
  gen::ArrOpts o;
  o.max_bytes = c.s.weighted({3, 6, 1}) == 2 ? 100000 : 3000;
  o.shape.max_elems = o.max_bytes;
  o.shape.max_ndim = 64; // NumPy's limit
  if (c.s.chance(1, 8)) o.max_width = 400;
  npy::endian_t e = draw_endian(c.s);
  Arr a = gen::array(c.s, o);
  int way = int(c.s.draw(lib::SAVE_STREAM_WAYS - 1));
  bool path = c.s.chance(1, 3);
  int pway = int(c.s.draw(lib::SAVE_PATH_WAYS - 1));
  c.describe(std::string(endian_name(e)) + " " + a.text());
  gen::classify(c, a);
  if (gen::interesting(a)) c.nontrivial();
  std::string bytes;
  if (path) {
    std::string p = pbt::scratch() + "/t.npy";
    lib::save(p, a, e, pway);
    bytes = lib::slurp(p);
    unlink(p.c_str());
  } else bytes = lib::save(a, e, way);
  judge(c, a, e, bytes, true);
}
static void long_header(pbt::Case &c) { // more dimensions than NumPy supports
  Arr a;
  a.dt = gen::dtype(c.s);
  a.fortran = c.s.coin();
  size_t nd = c.s.chance(1, 30) ? c.s.range(21800, 22600) : c.s.range(0, 700);
  a.shape.assign(nd, 1);
  if (nd && c.s.coin()) a.shape[c.s.draw(nd - 1)] = c.s.draw(4);
  gen::contents(c.s, a, 6);
  npy::endian_t e = draw_endian(c.s);
  c.describe("ndim=" + std::to_string(nd) + " " + DT_NAME[a.dt]);
  if (nd > 60) c.nontrivial();
  c.label(nd > 21000 ? "header beyond 64 KiB" : nd > 60 ? "header beyond 255 bytes" : "short header");
  judge(c, a, e, lib::save(a, e), false);
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"saved", saved, 12}, {"long_header", long_header, 1}},
                  "a generated tensor saved through a stream or a path, decoded by an independent strict NPY parser and by NumPy itself; non-trivial: elements not all equal, or a header beyond 255 bytes");
}
