// Archives of entries between 1 and 64 MiB at boundary sizes.
#ifndef VERIF_BIGS_H
#define VERIF_BIGS_H
#include "validzip.h"
#include "npd.h"

struct Big {
  Model m;
  npy::endian_t e;
  npy::compression_method_t method;
};
inline Big big_model(pbt::Case &c, unsigned max_log) {
  Big b;
  b.e = draw_endian(c.s);
  b.method = draw_method(c.s);
  size_t n = 1 + c.s.draw(1);
  std::string text = method_name(b.method);
  for (size_t i = 0; i < n; ++i) {
    Arr a = i == 0 ? gen::sized_array(c.s, 20, max_log) : gen::sized_array(c.s, 8, 22);
    // one-dimensional C order: NumPy reports nothing else
    if (a.fortran) { a.fortran = false; }
    b.m.e.push_back({std::string(1, char('a' + i)) + ".npy", a, is_big(b.e)});
    text += " " + std::string(DT_NAME[a.dt]) + shape_text(a.shape);
    size_t bytes = a.raw.size();
    if (i == 0) c.label(bytes < (4u << 20) ? "size: 1 to 4 MiB" : bytes < (16u << 20) ? "size: 4 to 16 MiB" : "size: 16 MiB and more");
  }
  c.describe(text);
  c.nontrivial();
  return b;
}
#endif
