// C21: a writer's life cycle always ends in a complete archive.
#include "validzip.h"
#include "pipes.h"

// A tensor type that fails while it is being saved: where 0 in ndim, 1 in
// shape, 2 in dtype, 3 in fortran_order, 4 in save before, 5 during, 6 after
// its bytes; what 0 runtime_error, 1 an int, 2 bad_alloc, 3 leaves the stream
// failed and throws.
struct Thrower {
  const Arr *a;
  int where, what;
  void raise(int at) const {
    if (at != where) return;
    if (what == 1) throw 42;
    if (what == 2) throw std::bad_alloc();
    throw std::runtime_error("tensor failure");
  }
  size_t ndim() const { raise(0); return a->shape.size(); }
  size_t shape(size_t i) const { raise(1); return a->shape[i]; }
  std::string dtype(npy::endian_t e) const { raise(2); return ref::descr(a->dt, is_big(e), a->max_len()); }
  bool fortran_order() const { raise(3); return a->fortran; }
  void save(std::basic_ostream<char> &o, npy::endian_t e) const {
    raise(4);
    std::string b = encode_payload(*a, is_big(e), a->max_len());
    o.write(b.data(), std::streamsize(where == 5 ? b.size() / 2 : b.size()));
    if (where == 5 && what == 3) o.setstate(std::ios::badbit);
    raise(5);
    raise(6);
  }
};
// the same operations on a disk writer and a memory writer
struct Pair {
  std::unique_ptr<npy::npzfilewriter> f;
  std::unique_ptr<npy::npzstringwriter> s;
  template <class T> lib::Result write(const std::string &n, const T &t, int way) {
    lib::Result a = lib::attempt([&](lib::Result &) { f->write(n, t); });
    lib::Result b = lib::attempt([&](lib::Result &) { s->write(n, t); });
    PB_ASSERT(a.k == b.k, "write(" << short_name(n) << ") to disk: " << lib::kind_name(a.k) << " (" << a.what << "), to memory: " << lib::kind_name(b.k) << " (" << b.what << ")");
    return a;
  }
};
static void life(pbt::Case &c) {
  npy::endian_t e = draw_endian(c.s);
  npy::compression_method_t m = draw_method(c.s);
  bool bad_method = c.s.chance(1, 12);
  if (bad_method) {
    static const uint16_t B[] = {1, 2, 3, 5, 7, 9, 12, 14, 255, 65535};
    m = npy::compression_method_t(B[c.s.draw(9)]);
  }
  std::string path = pbt::scratch() + "/life.npz";
  // at times the file is a pipe
  std::unique_ptr<PipeIn> pipe;
  if (c.s.chance(1, 6)) pipe = std::make_unique<PipeIn>(path);
  Pair w;
  w.f = std::make_unique<npy::npzfilewriter>(path, m, e);
  w.s = std::make_unique<npy::npzstringwriter>(m, e);
  Model model;
  bool closed = false;
  size_t k = c.s.draw(10);
  std::string text = pipe ? "into a pipe; " : "";
  text += bad_method ? "method " + std::to_string(int(m)) : std::string(method_name(m));
  size_t failures = 0, closes = 0;
  std::string after;
  for (size_t i = 0; i < k; ++i) {
    size_t op = c.s.weighted({8, 4, 2, 1, 1});
    if (op <= 2) {
      std::string name = gen::name(c.s, true) + std::to_string(i);
      Arr a = entry_array(c.s, 40);
      lib::Result r;
      const char *what = "write";
      bool must_fail = bad_method;
      if (op == 1) {
        Thrower t{&a, int(c.s.draw(6)), int(c.s.draw(3))};
        bool reached = t.where != 1 || !a.shape.empty();
        what = "failing write";
        r = w.write(name, t, 0);
        must_fail |= reached;
      } else if (op == 2) {
        name = std::string(c.s.range(65500, 66000), 'n') + ".npy";
        what = "long name";
        must_fail |= name.size() > 65535;
        r = lib::with_type(a.dt, [&](auto t) { return w.write(name, lib::to_tensor<typename decltype(t)::type>(a), 0); });
      } else
        r = lib::with_type(a.dt, [&](auto t) { return w.write(name, lib::to_tensor<typename decltype(t)::type>(a), 0); });
      text += std::string("; ") + what + " " + short_name(name) + "=" + a.text(1);
      if (closed) PB_ASSERT(r.k == lib::Result::RUNTIME || (op == 1 && r.k != lib::Result::OK), "write after close: " << lib::kind_name(r.k) << " instead of std::runtime_error");
      else if (must_fail) PB_ASSERT(r.k != lib::Result::OK, what << " returned normally" << text);
      else PB_ASSERT(r.k == lib::Result::OK, "write(" << short_name(name) << ") threw " << r.what);
      if (r.k == lib::Result::OK) model.e.push_back({gen::stored_name(name), a, is_big(e)});
      else if (!closed) ++failures;
    } else if (op == 3) {
      text += "; close";
      w.f->close();
      w.s->close();
      closed = true;
      ++closes;
    } else {
      text += "; str";
      std::string now = w.s->str();
      if (closed) { if (after.empty()) after = now; PB_ASSERT(now == after, "the archive changed after close"); }
    }
    if (closed) {
      std::string g = w.s->str();
      if (!pipe) check_bytes(g, lib::slurp(path), "after close the file differs from the string");
      if (!after.empty()) check_bytes(after, g, "the archive changed after close");
      after = g;
    }
  }
  size_t end = c.s.draw(2);
  std::string mem;
  if (end == 0) { // close, then destroy
    w.f->close();
    w.s->close();
    mem = w.s->str();
    text += "; close; destroy";
    w.f.reset();
    w.s.reset();
  } else if (end == 1) {
    w.f.reset();
    w.s->close();
    mem = w.s->str();
    w.s.reset();
    text += "; destroy";
  } else { // the writer goes while an exception passes
    try {
      std::unique_ptr<npy::npzfilewriter> f = std::move(w.f);
      throw 1;
    } catch (int) {
    }
    w.s->close();
    w.s->close();
    mem = w.s->str();
    text += "; destroy by an exception";
  }
  c.describe(text);
  c.label(failures ? "with failing writes" : "no failing writes");
  c.label(closes > 1 ? "closed repeatedly" : closes ? "closed once early" : "closed at the end");
  if (failures || closes) c.nontrivial();
  if (pipe) lib::spit(path, std::string(pipe->finish())), c.label("into a pipe");
  std::string bytes = lib::slurp(path);
  check_bytes(mem, bytes, "the file differs from the string");
  if (!after.empty()) check_bytes(after, bytes, "the archive changed after close");
  check_zip(bytes, 0, model, m, e);
  check_reader(*lib::make_reader_file(path, 0), model, c.s, "reader", 20);
  unlink(path.c_str());
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"life", life, 1}},
                  "up to 10 operations on a disk writer (at times into a pipe) and a memory writer side by side: writes, writes of tensors that throw in any member (std and non-std exceptions, streams left failed), names too long, invalid methods, close, str; then close and/or destruction (also by an exception); the file must equal the string, parse strictly and hold exactly the entries whose write returned; non-trivial: a write failed or close came early");
}
