// C10, buffers beyond 2^31 and 2^32 elements: offsets must not be cut.
#include "tensors.h"

static void large(pbt::Case &c, bool wide, bool f) {
  gen::Shape sh;
  size_t total = (size_t(1) << 31) + c.s.draw(size_t(1) << 31);
  switch (wide ? 4 : c.s.draw(3)) {
  case 4: { // one step along the slowest dimension is beyond 2^32
    size_t k = c.s.draw(2), step = (size_t(1) << 32) + c.s.draw(size_t(1) << 26);
    if (k == 0) sh = {step};
    else if (k == 1) sh = {step / 65537 + 1, 65537};
    else sh = {1627, 1627, step / (1627 * 1627) + 1};
    sh.insert(f ? sh.end() : sh.begin(), 2);
    break;
  }
  case 0: sh = {total}; break;
  case 1: sh = {2 + c.s.draw(70000), 0}; sh[1] = total / sh[0]; break;
  case 2: sh = {0, 2 + c.s.draw(70000)}; sh[0] = total / sh[1]; break;
  default: sh = {1290 + c.s.draw(100), 1290 + c.s.draw(100), 1300 + c.s.draw(900)};
  }
  c.describe("i1 " + shape_text(sh) + (f ? " F" : " C"));
  c.nontrivial();
  npy::tensor<std::int8_t> t(sh, f);
  size_t n = 1;
  for (auto d : sh) n *= d;
  PB_ASSERT(t.size() == n, "size() is " << t.size() << " instead of " << n);
  for (int q = 0; q < 400; ++q) {
    std::vector<size_t> idx;
    for (auto d : sh) { size_t k = c.s.size(d - 1); idx.push_back(q % 2 ? d - 1 - k : k); }
    size_t off = model_offset(sh, f, idx);
    auto at = [&](size_t got, const char *what) { PB_ASSERT(got == off, what << " of " << shape_text(sh) << " index " << shape_text(idx) << " gives offset " << got << " instead of " << off); };
    at(t.ravel(idx), "ravel(size_t)");
    at(size_t(&t(idx) - t.data()), "operator()(vector)");
    std::vector<std::int32_t> mix;
    bool fits = true;
    for (size_t d = 0; d < sh.size(); ++d) {
      int64_t v = int64_t(idx[d]), w = v - int64_t(sh[d]);
      if (c.s.coin() && w >= INT32_MIN) v = w;
      if (v > INT32_MAX && w >= INT32_MIN) v = w;
      fits &= v <= INT32_MAX && v >= INT32_MIN;
      mix.push_back(std::int32_t(v));
    }
    if (fits) {
      at(t.ravel(mix), "ravel(int32)");
      at(size_t(&t.get(mix) - t.data()), "get");
      std::int8_t v = std::int8_t(q);
      t.set(mix, v);
      PB_ASSERT(t.data()[off] == v, "set wrote another element");
    }
  }
}
static void beyond31_c(pbt::Case &c) { large(c, false, false); }
static void beyond31_f(pbt::Case &c) { large(c, false, true); }
static void beyond32_c(pbt::Case &c) { large(c, true, false); }
static void beyond32_f(pbt::Case &c) { large(c, true, true); }
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"beyond31_c", beyond31_c, 1}, {"beyond31_f", beyond31_f, 1}, {"beyond32_c", beyond32_c, 1}, {"beyond32_f", beyond32_f, 1}},
                  "tensors of 2 to 9 GiB in both orders: boundary-biased indices through every accessor against the layout model; non-trivial: all");
}
