// Generators shared by the properties.  Every decision is a draw from c.s.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include "pbt.h"
#include "ref.h"

namespace gen {
using ref::Arr;
typedef std::vector<size_t> Shape;

struct ShapeOpts {
  size_t max_elems = 4096;
  size_t max_ndim = 70; // of "many dimensions" shapes
  bool empty = true;    // allow dimensions of 0
  bool wide = true;     // allow huge dimensions beside a 0
};
Shape shape(pbt::Source &s, const ShapeOpts &o);
int dtype(pbt::Source &s);          // any of the 14
ref::Str str(pbt::Source &s, size_t max_len, bool interior_nul = true);
// contents for a.dt and a.shape
void contents(pbt::Source &s, Arr &a, size_t max_width = 24);
struct ArrOpts {
  ShapeOpts shape;
  size_t max_bytes = 1 << 16; // limit on the payload
  size_t max_width = 24;
  int dt = -1;
};
Arr array(pbt::Source &s, const ArrOpts &o);
Arr small_array(pbt::Source &s, int dt = -1); // up to ~64 elements
// an array whose NPY file is within a few bytes of a multiple of a power of two,
// from 2^min_log up to about 2^max_log
Arr sized_array(pbt::Source &s, unsigned min_log, unsigned max_log);
// labels about a, and whether it is a non-trivial array (>1 distinct bytes)
void classify(pbt::Case &c, const Arr &a);
bool interesting(const Arr &a);
// entry names for archives: unique or not, with or without .npy
std::string name(pbt::Source &s, bool ascii);
bool has_suffix(const std::string &n);
std::string stored_name(const std::string &n); // name with the suffix added
} // namespace gen
#endif
