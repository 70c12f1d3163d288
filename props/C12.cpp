// C12: tensors have value semantics.  A state machine over a few tensors.
#include "tensors.h"
#include <optional>

template <class T> struct Machine {
  static const size_t N = 4;
  pbt::Case &c;
  int dt;
  std::optional<npy::tensor<T>> t[N];
  Arr m[N];
  bool live[N] = {}; // holds a value
  explicit Machine(pbt::Case &cc, int d) : c(cc), dt(d) {}

  Arr arr() {
    Arr a;
    a.dt = dt;
    gen::ShapeOpts o;
    o.max_elems = c.s.chance(1, 15) ? 3000 : 24;
    o.max_ndim = 9;
    a.shape = gen::shape(c.s, o);
    a.fortran = c.s.coin();
    gen::contents(c.s, a, 5);
    return a;
  }
  std::vector<T> vals(size_t n) {
    Arr a;
    a.dt = dt;
    a.shape = {n};
    gen::contents(c.s, a, 5);
    return lib::to_values<T>(a);
  }
  size_t slot() { return c.s.draw(N - 1); }
  int live_slot() {
    size_t k = slot();
    for (size_t i = 0; i < N; ++i, k = (k + 1) % N) if (live[k]) return int(k);
    return -1;
  }
  template <class F> void must_refuse(F f, const std::string &what) {
    lib::Result r = lib::attempt([&](lib::Result &) { f(); });
    PB_ASSERT(r.k == lib::Result::INVALID, what << " gave " << lib::kind_name(r.k) << " instead of std::invalid_argument");
  }
  // The value of a tensor that was moved from is not specified, but it is one:
  // shape, order and elements agree.
  void adopt(size_t k) {
    const npy::tensor<T> &x = *t[k];
    size_t n = 1;
    for (auto d : x.shape()) n *= d;
    PB_ASSERT(x.ndim() == x.shape().size() && x.size() == n && x.values().size() == n && size_t(x.end() - x.begin()) == n, "a tensor that was moved from has the shape " << shape_text(x.shape()) << " but " << x.size() << " elements");
    m[k] = lib::from_tensor(x);
    live[k] = true;
    c.label("a tensor that was moved from is used on");
  }
  void create(size_t k) {
    m[k] = arr();
    std::vector<T> v = lib::to_values<T>(m[k]);
    size_t how = c.s.draw(3);
    t[k].reset();
    if (!m[k].fortran && c.s.coin()) t[k].emplace(m[k].shape);
    else t[k].emplace(m[k].shape, m[k].fortran);
    switch (how) {
    case 0: t[k]->copy_from(v); break;
    case 1: t[k]->copy_from(v.data(), v.size()); break;
    case 2: t[k]->move_from(std::move(v)); break;
    default: std::copy(v.begin(), v.end(), t[k]->begin());
    }
    live[k] = true;
  }
  std::string step() {
    size_t op = c.s.weighted({4, 4, 3, 4, 4, 2, 6, 3, 3, 2, 2, 2, 2});
    int a = live_slot();
    size_t b = slot();
    if (a < 0 || op == 0) { create(b); return "construct " + std::to_string(b); }
    std::string n = std::to_string(a) + "," + std::to_string(b);
    switch (op) {
    case 1: // copy construction
      if (size_t(a) == b) return "";
      t[b].reset();
      if (c.s.coin()) t[b].emplace(*t[a]);
      else { const npy::tensor<T> &r = *t[a]; t[b].emplace(r); }
      m[b] = m[a];
      live[b] = true;
      return "copy construct " + n;
    case 2: // move construction
      if (size_t(a) == b) return "";
      t[b].reset();
      t[b].emplace(std::move(*t[a]));
      m[b] = m[a];
      live[b] = true;
      adopt(size_t(a));
      return "move construct " + n;
    case 3: // copy assignment, to itself as well
      if (!t[b]) return "";
      { npy::tensor<T> &r = (*t[b] = *t[a]); PB_ASSERT(&r == &*t[b], "assignment does not return its target"); }
      m[b] = m[a];
      live[b] = true;
      c.label(size_t(a) == b ? "op: self-assignment" : "op: copy assignment");
      return "copy assign " + n;
    case 4: // move assignment
      if (size_t(a) == b && c.s.coin()) {
        npy::tensor<T> &r = *t[a]; // not seen as a self-move by the compiler
        *t[a] = std::move(r);
        adopt(size_t(a));
        return "self move " + n;
      }
      if (!t[b] || size_t(a) == b) return "";
      { npy::tensor<T> &r = (*t[b] = std::move(*t[a])); PB_ASSERT(&r == &*t[b], "assignment does not return its target"); }
      m[b] = m[a];
      live[b] = true;
      adopt(size_t(a));
      return "move assign " + n;
    case 5: // swap
      if (!live[b] || size_t(a) == b) return "";
      std::swap(*t[a], *t[b]);
      std::swap(m[a], m[b]);
      return "swap " + n;
    case 6: { // write elements
      size_t cnt = m[a].count();
      if (!cnt) return "";
      std::vector<T> model = lib::to_values<T>(m[a]);
      for (int q = 0; q < 3; ++q) {
        std::vector<size_t> idx = unravel(m[a].shape, c.s.draw(cnt - 1));
        size_t off = model_offset(m[a].shape, m[a].fortran, idx);
        T v = vals(1)[0];
        std::vector<std::int32_t> i32(idx.begin(), idx.end());
        switch (c.s.draw(3)) {
        case 0: t[a]->set(i32, v); break;
        case 1: (*t[a])(idx) = v; break;
        case 2: t[a]->data()[off] = v; break;
        default: *(t[a]->begin() + off) = v;
        }
        model[off] = v;
      }
      lib::put_values<T>(m[a], model.data(), cnt);
      return "write " + n;
    }
    case 7: { // bulk copy
      if (live[b] && size_t(a) != b && m[b].count() == m[a].count() && c.s.coin()) { // from another tensor
        if (c.s.coin()) t[a]->copy_from(t[b]->values());
        else t[a]->copy_from(t[b]->data(), t[b]->size());
        m[a].raw = m[b].raw;
        m[a].strs = m[b].strs;
        return "bulk copy between " + n;
      }
      std::vector<T> v = vals(m[a].count()), keep = v;
      size_t how = c.s.draw(2);
      if (how == 0) t[a]->copy_from(v);
      else if (how == 1) t[a]->copy_from(v.data(), v.size());
      else t[a]->move_from(std::move(v));
      lib::put_values<T>(m[a], keep.data(), keep.size());
      if (how < 2 && !v.empty()) { // the source is the caller's: changing it changes nothing
        v[0] = distinct<T>(4711);
        std::fill(v.begin(), v.end(), distinct<T>(4711));
      }
      return "bulk copy " + n;
    }
    case 8: { // bulk copy of the wrong length
      size_t cnt = m[a].count(), k = c.s.coin() ? cnt + 1 + c.s.draw(5) : c.s.draw(cnt + 3);
      if (k == cnt) k = cnt + 1;
      std::vector<T> v = vals(k);
      size_t how = c.s.draw(2);
      std::string w = "a bulk copy of " + std::to_string(k) + " elements into " + std::to_string(cnt);
      // of its own elements too
      if (cnt && c.s.chance(1, 6)) must_refuse([&] { t[a]->copy_from(t[a]->data(), c.s.draw(cnt - 1)); }, w + " (own buffer)");
      if (how == 0) must_refuse([&] { t[a]->copy_from(v); }, w + " (vector)");
      else if (how == 1) must_refuse([&] { t[a]->copy_from(v.data(), v.size()); }, w + " (pointer)");
      else must_refuse([&] { t[a]->move_from(std::move(v)); }, w + " (move_from)");
      c.label("op: bulk copy of the wrong length");
      return "bad bulk copy " + n;
    }
    case 9: { // through a file
      std::stringstream s;
      npy::save(s, *t[a]);
      if (c.s.coin() && t[b]) *t[b] = npy::load<npy::tensor<T>>(s);
      else { if (size_t(a) == b) return ""; t[b].reset(); t[b].emplace(npy::load<npy::tensor<T>>(s)); }
      m[b] = m[a];
      if (dt == US) for (auto &x : m[b].strs) while (!x.empty() && x.back() == 0) x.pop_back();
      live[b] = true;
      return "save and load " + n;
    }
    case 10: // destruction
      t[a].reset();
      live[a] = false;
      return "destroy " + n;
    case 11: { // by value through functions
      auto pass = [](npy::tensor<T> x) { return x; };
      npy::tensor<T> r = pass(*t[a]);
      check_arr(m[a], lib::from_tensor(r), "returned by value");
      if (!t[b] || size_t(a) == b) return "";
      *t[b] = pass(std::move(*t[a]));
      m[b] = m[a];
      live[b] = true;
      adopt(size_t(a));
      return "pass by value " + n;
    }
    default: { // in a container
      std::vector<npy::tensor<T>> v;
      v.push_back(*t[a]);
      v.push_back(npy::tensor<T>(gen::Shape{2, 2}));
      v.push_back(*t[a]);
      v.insert(v.begin(), v[0]);
      v.erase(v.begin() + 2);
      for (size_t q : {0, 1, 2}) check_arr(m[a], lib::from_tensor(v[q]), "in a vector");
      if (t[b]) { *t[b] = std::move(v[1]); m[b] = m[a]; live[b] = true; }
      return "container " + n;
    }
    }
  }
  void verify(const std::string &op) {
    for (size_t k = 0; k < N; ++k) {
      if (!live[k]) continue;
      const npy::tensor<T> &x = *t[k];
      std::string d = diff(m[k], lib::from_tensor(x));
      PB_ASSERT(d.empty(), "after " << op << ": tensor " << k << ": " << d);
      size_t n = m[k].count();
      PB_ASSERT(x.size() == n && size_t(x.end() - x.begin()) == n && x.ndim() == m[k].shape.size(), "after " << op << ": size of tensor " << k);
      std::string want = ref::descr(dt, false, m[k].max_len()), got = x.dtype(npy::endian_t::LITTLE);
      PB_ASSERT(want == got, "after " << op << ": type code of tensor " << k << " is " << got << " instead of " << want);
      if (n) {
        std::vector<size_t> idx = unravel(m[k].shape, c.s.draw(n - 1));
        size_t off = model_offset(m[k].shape, m[k].fortran, idx);
        std::vector<std::int32_t> i32(idx.begin(), idx.end());
        for (size_t q = 0; q < idx.size(); ++q) if (c.s.coin()) i32[q] -= int(m[k].shape[q]);
        PB_ASSERT(&x.get(i32) == x.data() + off && &x(idx) == x.data() + off, "after " << op << ": index " << shape_text(idx) << " of tensor " << k << " " << shape_text(m[k].shape) << " does not address offset " << off);
      }
      // the shape's limits are the tensor's own
      if (!m[k].shape.empty() && n) {
        std::vector<size_t> idx = unravel(m[k].shape, 0);
        size_t q = c.s.draw(idx.size() - 1);
        idx[q] = m[k].shape[q];
        must_refuse([&] { (void)x(idx); }, "after " + op + ": an index beyond tensor " + std::to_string(k));
      }
    }
  }
};
static void machine(pbt::Case &c) {
  int dt = gen::dtype(c.s);
  c.label(std::string("type:") + DT_NAME[dt]);
  lib::with_type(dt, [&](auto tag) {
    Machine<typename decltype(tag)::type> m(c, dt);
    size_t steps = 3 + c.s.draw(22), done = 0;
    std::string log = DT_NAME[dt];
    log += ":";
    m.create(0);
    for (size_t i = 0; i < steps; ++i) {
      std::string op = m.step();
      if (op.empty()) continue;
      ++done;
      c.label("op: " + op.substr(0, op.find_last_of(' ')));
      log += " " + op + ";";
      m.verify(op);
    }
    c.describe(log);
    if (done >= 5) c.nontrivial();
  });
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"machine", machine, 1}},
                  "a history of 3 to 25 constructions, copies, moves, assignments, swaps, writes, bulk copies, file round trips and destructions over four tensors of one type, every live tensor compared with a plain value after each step; non-trivial: at least 5 operations took effect");
}
