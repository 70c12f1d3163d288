// C25: custom tensor types are stored and restored like the built-in one.
#include "tensors.h"
#include "archives.h"
#include <deque>
#include <list>

// The header each load received.
static npy::header_info g_seen(npy::data_type_t::INT8, npy::endian_t::NATIVE, false, {});
template <class T> struct Code;
#define CODE(dt) template <> struct Code<typename lib::TypeOf<dt>::type> { static const int value = dt; };
CODE(I1) CODE(U1) CODE(I2) CODE(U2) CODE(I4) CODE(U4) CODE(I8) CODE(U8) CODE(F4) CODE(F8) CODE(C8) CODE(C16) CODE(B1) CODE(US)
#undef CODE
template <class T> std::string code_text(npy::endian_t e, size_t width) { return ref::descr(Code<T>::value, is_big(e), width); }
template <class T, class It> size_t width_of(It, It) { return 0; }
template <class T, class C> size_t max_width(const C &) { return 0; }
template <> size_t max_width<std::wstring>(const std::vector<std::wstring> &v) {
  size_t w = 0;
  for (auto &x : v) w = std::max(w, x.size());
  return w;
}

// 1: a vector in its own declared order.
template <class T> struct Plain {
  std::vector<size_t> dims;
  bool fortran = false;
  std::vector<T> v;
  static Plain make(const Arr &a) { Plain p; p.dims = a.shape; p.fortran = a.fortran; p.v = lib::to_values<T>(a); return p; }
  size_t ndim() const { return dims.size(); }
  size_t shape(size_t i) const { return dims.at(i); }
  bool fortran_order() const { return fortran; }
  std::string dtype(npy::endian_t e) const { return code_text<T>(e, max_width<T>(v)); }
  void save(std::basic_ostream<char> &o, npy::endian_t e) const { npy::write_values(o, v.data(), v.size(), e); }
  static Plain load(std::basic_istream<char> &in, const npy::header_info &h) {
    g_seen = h;
    Plain p;
    p.dims = h.shape;
    p.fortran = h.fortran_order;
    size_t n = 1;
    for (auto d : h.shape) n *= d;
    p.v.resize(n);
    npy::read_values(in, p.v.data(), n, h);
    return p;
  }
  Arr arr() const { Arr a; a.dt = Code<T>::value; a.shape = dims; a.fortran = fortran; lib::put_values<T>(a, v.data(), v.size()); return a; }
};
// 2: always row-major in memory and in the files it writes, whatever it reads;
// keeps its dimensions reversed in a list.
template <class T> struct RowMajor {
  std::list<unsigned long> rdims;
  std::vector<T> v;
  static RowMajor make(const Arr &a) {
    RowMajor p;
    for (auto d : a.shape) p.rdims.push_front(d);
    p.v = lib::to_values<T>(a);
    return p;
  }
  size_t ndim() const { return rdims.size(); }
  unsigned long shape(unsigned i) const { auto it = rdims.rbegin(); while (i--) ++it; return *it; }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t e) const { return code_text<T>(e, max_width<T>(v)); }
  template <class S> void save(S &o, npy::endian_t e) const { npy::write_values(o, v.data(), v.size(), e); }
  template <class S> static RowMajor load(S &in, const npy::header_info &h) {
    g_seen = h;
    RowMajor p;
    size_t n = 1;
    for (auto d : h.shape) { p.rdims.push_front(d); n *= d; }
    std::vector<T> raw(n);
    npy::read_values(in, raw.data(), n, h);
    if (!h.fortran_order) p.v = raw;
    else
      for (size_t k = 0; k < n; ++k) p.v.push_back(raw[model_offset(h.shape, true, unravel(h.shape, k))]);
    return p;
  }
  Arr arr() const { Arr a; a.dt = Code<T>::value; a.shape.assign(rdims.rbegin(), rdims.rend()); lib::put_values<T>(a, v.data(), v.size()); return a; }
};
// 3: no default constructor, elements in a deque, written and read in
// pieces with several calls; shape() returns an int.
template <class T> struct Pinned {
  std::vector<int> dims;
  bool fortran;
  std::deque<T> q;
  static size_t piece;
  Pinned(const Arr &a) : dims(a.shape.begin(), a.shape.end()), fortran(a.fortran) {
    std::vector<T> v = lib::to_values<T>(a);
    q.assign(v.begin(), v.end());
  }
  static Pinned make(const Arr &a) { return Pinned(a); }
  Pinned(std::basic_istream<char> &in, const npy::header_info &h) : dims(h.shape.begin(), h.shape.end()), fortran(h.fortran_order) {
    g_seen = h;
    size_t n = 1;
    for (auto d : h.shape) n *= d;
    std::vector<T> v(std::min(n, piece)); // one buffer for all pieces
    while (n) {
      size_t k = std::min(n, piece);
      npy::read_values(in, v.data(), k, h);
      q.insert(q.end(), v.begin(), v.begin() + long(k));
      n -= k;
    }
  }
  int ndim() const { return int(dims.size()); }
  int shape(int i) const { return dims.at(size_t(i)); }
  bool fortran_order() const { return fortran; }
  std::string dtype(npy::endian_t e) const { return code_text<T>(e, max_width<T>(std::vector<T>(q.begin(), q.end()))); }
  void save(std::ostream &o, npy::endian_t e) const {
    std::vector<T> v(q.begin(), q.end());
    size_t step = Code<T>::value == US ? std::max<size_t>(1, v.size()) : piece;
    for (size_t i = 0; i < v.size(); i += step) npy::write_values(o, v.data() + i, std::min(step, v.size() - i), e);
  }
  static Pinned load(std::basic_istream<char> &in, const npy::header_info &h) { return Pinned(in, h); }
  Arr arr() const {
    Arr a;
    a.dt = Code<T>::value;
    a.shape.assign(dims.begin(), dims.end());
    a.fortran = fortran;
    std::vector<T> v(q.begin(), q.end());
    lib::put_values<T>(a, v.data(), v.size());
    return a;
  }
};
template <class T> size_t Pinned<T>::piece = 1;

template <class T, template <class> class TT> void run(pbt::Case &c, Arr a, bool row_major) {
  npy::endian_t e = draw_endian(c.s);
  npy::compression_method_t m = draw_method(c.s);
  Arr file = a;           // what the type writes
  if (row_major) file.fortran = false;
  std::string want = encode_npy(file, is_big(e)), builtin = lib::save(file, e);
  const auto &t = TT<T>::make(file);
  // saved bytes
  std::string p = pbt::scratch() + "/c.npy", z = pbt::scratch() + "/c.npz", got;
  switch (c.s.draw(3)) {
  case 0: { std::ostringstream o; npy::save(o, t, e); got = o.str(); break; }
  case 1: { std::ostringstream o; npy::save<T, TT>(o, t, e); got = o.str(); break; }
  case 2: npy::save(p, t, e); got = lib::slurp(p); break;
  default: npy::save<const TT<T>>(p, t, e); got = lib::slurp(p);
  }
  check_bytes(builtin, got, "the file of the custom type differs from the built-in tensor's");
  check_bytes(want, got, "the file of the custom type");
  // loaded: a file in either memory order and byte order
  bool big = c.s.coin();
  Arr src = a;
  std::string bytes = encode_npy(src, big);
  Arr expect = src;
  if (row_major && src.fortran) { // the elements in C order
    expect.fortran = false;
    size_t n = src.count();
    for (size_t k = 0; k < n; ++k) {
      size_t o = model_offset(src.shape, true, unravel(src.shape, k));
      if (src.dt == US) expect.strs[k] = src.strs[o];
      else memcpy(&expect.raw[k * DT_SIZE[src.dt]], &src.raw[o * DT_SIZE[src.dt]], DT_SIZE[src.dt]);
    }
  }
  auto seen = [&](bool b, const Arr &x, const char *how) {
    std::string d = lib::diff_header(g_seen, x.dt, b, x.shape, x.fortran, x.max_len());
    PB_ASSERT(d.empty(), how << ": the type received another header: " << d);
  };
  strip(expect);
  g_seen.shape = {99};
  switch (c.s.draw(3)) {
  case 0: { std::istringstream i(bytes); check_arr(expect, npy::load<TT<T>>(i).arr(), "loaded from a stream"); break; }
  case 1: lib::spit(p, bytes); check_arr(expect, npy::load<TT<T>>(p).arr(), "loaded from a path"); break;
  case 2: lib::spit(p, bytes); check_arr(expect, (npy::load<T, TT>(p)).arr(), "loaded from a path as <T, TENSOR>"); break;
  default: { PieceBuf b(bytes, 7); std::istream i(&b); check_arr(expect, npy::load<TT<T>>(i).arr(), "loaded from a stream in pieces"); }
  }
  seen(big, src, "load");
  unlink(p.c_str());
  // archives, beside built-in tensors
  std::string out[2];
  for (int k = 0; k < 2; ++k) {
    npy::npzstringwriter w(m, e);
    npy::npzfilewriter f(z, m, e);
    if (k == 0) { w.write("x", t); f.write("x", t); }
    else { auto b = lib::to_tensor<T>(file); w.write("x", b); f.write("x", b); }
    w.close();
    f.close();
    out[k] = w.str();
    check_bytes(out[k], lib::slurp(z), "disk and memory archives");
  }
  check_bytes(out[1], out[0], "the archive of the custom type differs from the built-in tensor's");
  Arr back = file;
  strip(back);
  npy::npzstringreader r(out[0]);
  npy::npzfilereader fr(z);
  switch (c.s.draw(3)) {
  case 0: check_arr(back, r.read<TT<T>>("x").arr(), "read from memory"); break;
  case 1: check_arr(back, (r.read<T, TT>("x")).arr(), "read from memory as <T, TENSOR>"); break;
  case 2: check_arr(back, fr.read<TT<T>>("x").arr(), "read from disk"); break;
  default: check_arr(back, (fr.read<T, TT>("x")).arr(), "read from disk as <T, TENSOR>");
  }
  seen(is_big(e), file, "read");
  unlink(z.c_str());
}
static void custom(pbt::Case &c) {
  Arr a;
  if (c.s.chance(1, 10)) {
    gen::ArrOpts o;
    static const size_t sizes[] = {20000, 400000, 2500000};
    size_t large = c.s.weighted({70, 25, 5});
    o.max_bytes = sizes[large];
    o.shape.max_elems = large ? o.max_bytes : 4000;
    o.shape.wide = false;
    a = gen::array(c.s, o);
  } else a = gen::small_array(c.s);
  for (auto &d : a.shape) if (d > 1000000) throw pbt::Discard();
  if (a.dt == US) for (auto &x : a.strs) while (!x.empty() && x.back() == 0) x.pop_back();
  size_t kind = c.s.draw(2);
  static const char *K[] = {"vector in its own order", "row-major with reversed dimensions", "pinned, in pieces"};
  c.describe(std::string(K[kind]) + ": " + a.text(2));
  c.label(K[kind]);
  gen::classify(c, a);
  if (a.count() > 1) c.nontrivial();
  size_t piece = c.s.chance(1, 4) || a.count() > 4000 ? c.s.range(10, 6000) : 1 + c.s.draw(9);
  lib::with_type(a.dt, [&](auto t) {
    typedef typename decltype(t)::type T;
    Pinned<T>::piece = piece;
    if (kind == 0) run<T, Plain>(c, a, false);
    else if (kind == 1) run<T, RowMajor>(c, a, true);
    else run<T, Pinned>(c, a, false);
  });
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"custom", custom, 1}},
                  "three tensor types of the harness (own order; always row-major with reversed dimensions; without a default constructor, read and written in pieces) over the 14 element types: files and archives byte-identical to the built-in tensor's, and headers and elements received through every load and read form; non-trivial: more than one element");
}
