// C10: tensor indices address memory in the declared order.
#include "tensors.h"

template <class T> static void run(pbt::Case &c, const Arr &a, size_t how) {
  npy::tensor<T> t = obtain<T>(a, how);
  const npy::tensor<T> &ct = t;
  size_t n = a.count(), nd = a.shape.size();
  PB_ASSERT(t.size() == n && t.values().size() == n, "size() is " << t.size() << ", values() has " << t.values().size() << ", the dimensions' product is " << n);
  PB_ASSERT(size_t(t.end() - t.begin()) == n && size_t(ct.end() - ct.begin()) == n, "the iterators span " << (t.end() - t.begin()) << " elements instead of " << n);
  PB_ASSERT(t.ndim() == nd && t.shape() == a.shape && t.fortran_order() == a.fortran, "shape or order");
  for (size_t d = 0; d < nd; ++d) PB_ASSERT(t.shape(int(d)) == a.shape[d], "shape(" << d << ") is " << t.shape(int(d)));
  if (n) PB_ASSERT(&*t.begin() == t.data() && &*ct.begin() == ct.data() && t.data() == ct.data() && t.values().data() == t.data(), "data(), values() and begin() differ");
  std::vector<T> model = lib::to_values<T>(a);
  size_t k = std::min<size_t>(n, n <= 400 ? n : 150);
  uint64_t step = n <= 400 ? 1 : 0;
  pbt::Rng g(c.s.draw(0xFFFFFFFF));
  std::vector<uint8_t> seen(n <= 400 ? n : 0);
  for (size_t q = 0; q < k; ++q) {
    std::vector<size_t> idx = unravel(a.shape, step ? q : g.next() % n);
    if (!step && q < 2) idx = unravel(a.shape, q ? n - 1 : 0);
    size_t off = model_offset(a.shape, a.fortran, idx);
    if (!seen.empty()) seen[off]++;
    std::vector<int> pos(idx.begin(), idx.end()), mix = pos, neg = pos;
    for (size_t d = 0; d < nd; ++d) {
      neg[d] -= int(a.shape[d]);
      mix[d] = g.next() & 1 ? neg[d] : pos[d];
    }
    std::vector<std::int32_t> p32(pos.begin(), pos.end()), m32(mix.begin(), mix.end()), n32(neg.begin(), neg.end());
    auto text = [&] { return shape_text(a.shape) + (a.fortran ? " F" : " C") + " index " + shape_text(idx); };
    auto at = [&](size_t got, const char *what) { PB_ASSERT(got == off, what << " of " << text() << " gives offset " << got << " instead of " << off); };
    at(t.ravel(idx), "ravel(size_t)");
    at(t.ravel(p32), "ravel(int32)");
    at(t.ravel(m32), "ravel(mixed signs)");
    at(t.ravel(n32), "ravel(negative)");
    at(size_t(&t(idx) - t.data()), "operator()(vector)");
    at(size_t(&ct(idx) - t.data()), "const operator()(vector)");
    at(size_t(&ct.get(p32) - t.data()), "get");
    at(size_t(&ct.get(m32) - t.data()), "get(mixed signs)");
    at(size_t(&ct.get(n32) - t.data()), "get(negative)");
    if (nd <= MAX_ARITY) {
      at(size_t(call_addr(t, pos) - t.data()), "call operator");
      at(size_t(call_addr(ct, pos) - t.data()), "const call operator");
      at(size_t(call_addr(t, mix) - t.data()), "call operator (mixed signs)");
      at(size_t(call_addr(ct, neg) - t.data()), "const call operator (negative)");
    }
    PB_ASSERT(ct.get(p32) == model[off] || model[off] != model[off], "get at " << text() << " is another element");
    // write through one accessor
    if (g.next() % 4 == 0 || q < 12) {
      T v = distinct<T>(q + 1000 + g.next() % 1000);
      switch (g.next() % 7) {
      case 0: t.set(m32, v); break;
      case 1: t(idx) = v; break;
      case 2: if (nd <= MAX_ARITY) *call_addr(t, mix) = v; else t.set(n32, v); break;
      case 3: t.data()[off] = v; break;
      case 4: *(t.begin() + off) = v; break;
      case 5: t.set(p32, v); break;
      default: t.set(n32, v);
      }
      model[off] = v;
      if (n <= 64 || q < 4) {
        Arr want = a, got = lib::from_tensor(t);
        lib::put_values<T>(want, model.data(), n);
        std::string d = diff(want, got);
        PB_ASSERT(d.empty(), "after writing element " << text() << ": " << d);
      }
    }
  }
  Arr want = a;
  lib::put_values<T>(want, model.data(), n);
  check_arr(want, lib::from_tensor(t), "after all writes");
  for (uint8_t x : seen) PB_ASSERT(x == 1, "(harness) model offsets are not a permutation");
}
static void layout(pbt::Case &c) {
  Arr a;
  a.dt = gen::dtype(c.s);
  gen::ShapeOpts o;
  o.max_elems = c.s.chance(1, 12) ? 60000 : 400;
  if (a.dt == US) o.max_elems = std::min<size_t>(o.max_elems, 3000);
  o.max_ndim = 12;
  if (c.s.chance(3, 4)) { // proper multi-dimensional shapes
    size_t nd = 2 + c.s.weighted({4, 4, 3, 2, 1});
    size_t left = o.max_elems;
    for (size_t i = 0; i < nd; ++i) {
      size_t d = 1 + c.s.draw(std::min<size_t>(left, 9) - 1);
      a.shape.push_back(d);
      left = std::max<size_t>(1, left / d);
    }
    if (c.s.coin()) std::reverse(a.shape.begin(), a.shape.end());
  } else a.shape = gen::shape(c.s, o);
  a.fortran = c.s.coin();
  gen::contents(c.s, a, 4);
  size_t how = c.s.draw(OBTAIN_WAYS - 1);
  c.describe(a.text(3) + " " + obtain_name(how));
  gen::classify(c, a);
  c.label(std::string("tensor: ") + obtain_name(how));
  size_t big_dims = 0;
  for (auto d : a.shape) big_dims += d > 1;
  if (big_dims >= 2) c.nontrivial();
  lib::with_type(a.dt, [&](auto tag) { run<typename decltype(tag)::type>(c, a, how); });
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"layout", layout, 1}},
                  "a tensor of random type, shape and order obtained in one of six ways; all (up to 400) or 150 random multi-indices resolved through every accessor with positive, negative and mixed components against a model of the layout, with interleaved writes; non-trivial: at least two dimensions larger than 1");
}
