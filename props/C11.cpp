// C11: out-of-range or wrong-rank indices are refused.
#include "tensors.h"

template <class F> static void refused(F f, const std::string &what) {
  lib::Result r = lib::attempt([&](lib::Result &) { f(); });
  PB_ASSERT(r.k == lib::Result::INVALID, what << " gave " << lib::kind_name(r.k) << " instead of std::invalid_argument");
}
template <class T> static void run(pbt::Case &c, const Arr &a, size_t how) {
  npy::tensor<T> t = obtain<T>(a, how);
  const npy::tensor<T> &ct = t;
  size_t nd = a.shape.size(), n = a.count();
  std::string st = shape_text(a.shape) + (a.fortran ? " F" : " C") + " index ";
  for (int q = 0; q < 40; ++q) {
    // signed
    std::vector<std::int32_t> idx;
    bool wrong_rank = c.s.chance(1, 4);
    size_t rank = nd;
    if (wrong_rank) {
      rank = c.s.draw(nd + 2);
      if (rank == nd) rank = nd + 1;
    }
    for (size_t d = 0; d < rank; ++d) {
      size_t m = d < nd ? a.shape[d] : 3;
      if (m > 1000000) m = 1000000;
      idx.push_back(m ? std::int32_t(c.s.draw(2 * m - 1)) - std::int32_t(m) : 0);
    }
    std::string kind = "rank";
    bool inside = false; // the bad index would fall into the buffer
    if (!wrong_rank) {
      if (nd == 0) continue;
      size_t bad = c.s.draw(nd - 1), times = 1 + c.s.chance(1, 4);
      for (size_t k = 0; k < times; ++k, bad = c.s.draw(nd - 1)) {
        int64_t m = int64_t(std::min<size_t>(a.shape[bad], 1000000000)), v;
        switch (c.s.weighted({4, 4, 2, 2, 1, 1, 1})) {
        case 0: v = m; break;
        case 1: v = -m - 1; break;
        case 2: v = m + int64_t(c.s.draw(40)); break;
        case 3: v = -m - 1 - int64_t(c.s.draw(40)); break;
        case 4: v = INT32_MAX; break;
        case 5: v = INT32_MIN; break;
        default: v = (c.s.coin() ? 1 : -1) * int64_t(c.s.range(m, INT32_MAX)); if (v < 0) v -= 1; if (v < INT32_MIN) v = INT32_MIN;
        }
        idx[bad] = std::int32_t(v);
      }
      {
        __int128 off = 0;
        std::vector<size_t> sh = a.shape;
        for (size_t d = 0; d < nd; ++d) {
          size_t e = a.fortran ? nd - 1 - d : d;
          off = off * __int128(sh[e]) + (idx[e] < 0 ? idx[e] + int64_t(sh[e]) : idx[e]);
        }
        inside = off >= 0 && off < __int128(n);
      }
      kind = "range";
    }
    std::ostringstream o;
    o << st << "(";
    for (auto v : idx) o << v << ",";
    o << ")";
    c.label(kind == "rank" ? "bad: rank" : inside ? "bad: range, flat offset inside the buffer" : "bad: range, flat offset outside");
    if (inside || kind == "rank") c.nontrivial();
    T v = distinct<T>(77 + q);
    refused([&] { ct.get(idx); }, "get " + o.str());
    refused([&] { t.set(idx, v); }, "set " + o.str());
    refused([&] { t.ravel(idx); }, "ravel " + o.str());
    if (rank <= MAX_ARITY) {
      std::vector<int> i(idx.begin(), idx.end());
      refused([&] { *call_addr(t, i) = v; }, "call operator " + o.str());
      refused([&] { (void)*call_addr(ct, i); }, "const call operator " + o.str());
    }
    // unsigned
    std::vector<size_t> u;
    bool out = false;
    for (size_t d = 0; d < idx.size(); ++d) {
      if (kind == "range") {
        size_t m = a.shape[d];
        int64_t x = idx[d];
        if (x < 0 && x >= -int64_t(m)) x += int64_t(m); // a valid component
        if (x < 0) { // out of range: stay so in unsigned form
          switch (c.s.draw(3)) {
          case 0: x = int64_t(m); break;
          case 1: x = -1; break;                      // SIZE_MAX
          case 2: x = int64_t((size_t(1) << 32)); break; // cut to 32 bits: 0
          default: x = int64_t(size_t(1) << 63);
          }
        }
        u.push_back(size_t(x));
        out |= u.back() >= m;
      } else u.push_back(idx[d] < 0 ? 0 : size_t(idx[d]));
    }
    if (kind == "range" && !out) continue;
    std::string us = st + shape_text(u);
    refused([&] { ct(u); }, "operator()(vector) const " + us);
    refused([&] { t(u) = v; }, "operator()(vector) " + us);
    refused([&] { t.ravel(u); }, "ravel(size_t) " + us);
  }
  check_arr(a, lib::from_tensor(t), "the tensor after refused indices");
}
static void indices(pbt::Case &c) {
  Arr a;
  a.dt = gen::dtype(c.s);
  gen::ShapeOpts o;
  o.max_elems = 300;
  o.max_ndim = 9;
  if (c.s.chance(2, 3)) {
    size_t nd = 1 + c.s.weighted({2, 4, 4, 2, 1, 1}), left = 300;
    for (size_t i = 0; i < nd; ++i) {
      size_t d = 1 + c.s.draw(std::min<size_t>(left, 8) - 1);
      a.shape.push_back(d);
      left = std::max<size_t>(1, left / d);
    }
  } else a.shape = gen::shape(c.s, o);
  a.fortran = c.s.coin();
  gen::contents(c.s, a, 3);
  size_t how = c.s.draw(OBTAIN_WAYS - 1);
  c.describe(a.text(3) + " " + obtain_name(how));
  gen::classify(c, a);
  lib::with_type(a.dt, [&](auto tag) { run<typename decltype(tag)::type>(c, a, how); });
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"indices", indices, 1}},
                  "40 bad indices (wrong rank, or one or two components just outside or far outside [-n, n), at the integer limits, or beyond 32 bits) through every accessor of a random tensor under ASan, contents compared afterwards; non-trivial: some bad index has the wrong rank or a flat offset inside the buffer");
}
