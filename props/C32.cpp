// C32: calls keep nothing of their arguments, and results stand alone.
#include "archives.h"
#include <filesystem>
#include <type_traits>

// An argument on the heap: overwritten and freed after the call, so that a
// reference kept to it shows as other bytes or as an AddressSanitizer report.
template <class T> struct Arg {
  std::unique_ptr<T> p;
  template <class... A> explicit Arg(A &&...a) : p(new T(std::forward<A>(a)...)) {}
  T &operator*() { return *p; }
};
static void spoil(std::string &s) { for (auto &ch : s) ch = '#'; }
static void spoil(std::wstring &s) { for (auto &ch : s) ch = L'#'; }
template <class T> static void spoil_values(T *p, size_t n) { memset(static_cast<void *>(p), 0xA5, n * sizeof(T)); }
template <> void spoil_values<std::wstring>(std::wstring *p, size_t n) { for (size_t i = 0; i < n; ++i) p[i].assign(p[i].size() + 40, L'#'); }
template <> void spoil_values<npy::boolean>(npy::boolean *p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = !p[i]; }

// A result the program holds on to, and what it was when it was returned.
struct Held {
  virtual ~Held() {}
  virtual std::string check() = 0; // "" or how it has changed
  virtual void step(pbt::Source &) {} // a use that changes it as the model says
  std::string from;
};
template <class T> struct HeldTensor : Held {
  npy::tensor<T> t;
  Arr want;
  HeldTensor(npy::tensor<T> &&x, const Arr &a) : t(std::move(x)), want(a) {}
  std::string check() override { return diff(want, lib::from_tensor(t)); }
  void step(pbt::Source &s) override {
    size_t n = t.size();
    if (!n) return;
    switch (s.draw(4)) {
    case 0: { // an element assigned from a reference to another one
      size_t i = size_t(s.draw(n - 1)), j = size_t(s.draw(n - 1));
      std::vector<std::int32_t> a(t.ndim()), b(t.ndim());
      for (size_t d = 0; d < t.ndim(); ++d) {
        a[d] = std::int32_t(s.draw(t.shape(int(d)) - 1));
        b[d] = std::int32_t(s.draw(t.shape(int(d)) - 1));
      }
      i = t.ravel(a), j = t.ravel(b);
      t.set(a, t.get(b));
      put(i, j);
      break;
    }
    case 1: t.copy_from(t.data(), n); break;
    case 2: t.copy_from(t.values()); break;
    case 3: { // its buffer comes from a vector that is destroyed
      Arg<std::vector<T>> v(t.values());
      t.move_from(std::move(*v));
      break;
    }
    default: { // moved to and fro
      Arg<npy::tensor<T>> u(std::move(t));
      npy::tensor<T> w(std::vector<size_t>{});
      w = std::move(*u);
      t = w;
      break;
    }
    }
  }
  void put(size_t i, size_t j) {
    if (want.dt == US) want.strs[i] = Str(want.strs[j]);
    else { size_t z = DT_SIZE[want.dt]; memmove(&want.raw[i * z], &want.raw[j * z], z); }
  }
};
struct HeldHeader : Held {
  npy::header_info h;
  std::string want;
  explicit HeldHeader(npy::header_info &&x) : h(std::move(x)), want(lib::header_text(h)) {}
  std::string check() override { std::string now = lib::header_text(h); return now == want ? "" : now + " instead of " + want; }
};
struct HeldString : Held {
  std::string s, want;
  HeldString(std::string &&x, const std::string &w) : s(std::move(x)), want(w) {}
  std::string check() override { return diff_bytes(want, s); }
};
struct HeldCode : Held { // references the type code functions returned
  const std::string &code;
  const std::pair<npy::data_type_t, npy::endian_t> &back;
  std::string want;
  std::pair<npy::data_type_t, npy::endian_t> want_back;
  explicit HeldCode(const std::string &c) : code(c), back(npy::from_dtype(c)), want(c), want_back(back) {}
  std::string check() override { return code != want ? "'" + code + "' instead of '" + want + "'" : back != want_back ? "another type behind the same reference" : ""; }
};
// Readers of both kinds; moved from time to time.
struct AnyReader {
  std::unique_ptr<npy::npzstringreader> m;
  std::unique_ptr<npy::npzfilereader> f;
  Model model;
  std::string text;
  const std::vector<std::string> &keys() { return m ? m->keys() : f->keys(); }
  bool contains(const std::string &n) { return m ? m->contains(n) : f->contains(n); }
  npy::header_info peek(const std::string &n) { return m ? m->peek(n) : f->peek(n); }
  template <class T> npy::tensor<T> read(const std::string &n) { return m ? m->read<npy::tensor<T>>(n) : f->read<npy::tensor<T>>(n); }
};
template <class R> static std::unique_ptr<R> moved(std::unique_ptr<R> r, R *over) {
  if constexpr (std::is_move_constructible_v<R>) {
    std::unique_ptr<R> n(new R(std::move(*r)));
    r.reset();
    if constexpr (std::is_move_assignable_v<R>)
      if (over) { *over = std::move(*n); n.reset(over); }
    return n;
  }
  return r;
}
struct AnyWriter {
  std::unique_ptr<npy::npzstringwriter> m;
  std::unique_ptr<npy::npzfilewriter> f;
  std::string path;
  bool big = false, closed = false;
  Model model;
};

static void life(pbt::Case &c) {
  std::vector<std::unique_ptr<Held>> held;
  std::vector<AnyReader> readers;
  std::vector<AnyWriter> writers;
  std::vector<std::string> files;
  struct Rm { std::vector<std::string> &f; ~Rm() { for (auto &p : f) unlink(p.c_str()); } } rm{files};
  std::string ops;
  size_t checks = 0;
  auto hold = [&](Held *h, const std::string &from) { h->from = from; held.emplace_back(h); };
  auto check_all = [&] {
    for (auto &h : held) {
      std::string d = h->check();
      ++checks;
      PB_ASSERT(d.empty(), "after" << ops << ": the result of " << h->from << " has changed: " << d);
    }
  };
  auto make = [&](const Arr &a) { ops += " " + a.text(1); };
  auto check_archive = [&](const Model &m, const std::string &bytes) {
    std::vector<ZParsed> z;
    std::string e = parse_zip(bytes, z);
    PB_ASSERT(e.empty(), "after" << ops << ": invalid archive: " << e);
    PB_ASSERT(z.size() == m.e.size(), "after" << ops << ": " << z.size() << " entries instead of " << m.e.size());
    for (size_t i = 0; i < z.size(); ++i) {
      PB_ASSERT(z[i].name == m.e[i].name, "after" << ops << ": entry " << i << " is named " << short_name(z[i].name) << " instead of " << short_name(m.e[i].name));
      PB_ASSERT(z[i].data == encode_npy(m.e[i].a, m.e[i].big), "after" << ops << ": entry " << short_name(z[i].name) << " holds other bytes than the tensor written");
    }
  };
  size_t steps = 2 + c.s.draw(14);
  for (size_t k = 0; k < steps; ++k) {
    switch (c.s.weighted({5, 4, 5, 5, 3, 3, 3, 2, 2, 2})) {
    case 0: { // a reader of an archive whose bytes, path and name go away
      if (readers.size() >= 3) break;
      AnyReader r;
      std::vector<ZEntry> es;
      for (size_t i = 0, n = 1 + c.s.draw(3); i < n; ++i) {
        Model::E x{gen::stored_name(gen::name(c.s, false)), entry_array(c.s, 30), c.s.coin()};
        strip(x.a);
        if (r.model.exact(x.name)) continue;
        ZEntry z;
        z.name = x.name;
        z.data = encode_npy(x.a, x.big);
        z.method = c.s.coin() ? 8 : 0;
        es.push_back(z);
        r.model.e.push_back(x);
      }
      Arg<std::string> bytes(build_zip(es));
      std::string copy(*bytes);
      size_t way = c.s.draw(4);
      if (way < 2) {
        if (way) r.m.reset(new npy::npzstringreader(std::move(*bytes)));
        else r.m.reset(new npy::npzstringreader(*bytes));
        r.text = way ? "moved bytes" : "bytes";
      } else {
        std::string path = pbt::scratch() + "/r" + std::to_string(k) + ".npz";
        lib::spit(path, copy);
        files.push_back(path);
        Arg<std::string> p(path);
        if (way == 2) r.f.reset(new npy::npzfilereader(*p));
        else if (way == 3) r.f.reset(new npy::npzfilereader((*p).c_str()));
        else { Arg<std::filesystem::path> fp(path); r.f.reset(new npy::npzfilereader(*fp)); }
        spoil(*p);
        r.text = "a file";
      }
      if (way != 1) spoil(*bytes);
      ops += " reader(" + r.text + ")";
      readers.push_back(std::move(r));
      break;
    }
    case 1: { // a tensor, from arguments that go away
      Arr a = entry_array(c.s, 30);
      lib::with_type(a.dt, [&](auto ty) {
        typedef typename decltype(ty)::type T;
        Arg<std::vector<size_t>> shape(a.shape);
        npy::tensor<T> t(*shape, a.fortran);
        for (auto &d : *shape) d = 77;
        Arg<std::vector<T>> v(lib::to_values<T>(a));
        if (c.s.coin()) t.copy_from(*v);
        else t.copy_from((*v).data(), (*v).size());
        spoil_values<T>((*v).data(), (*v).size());
        ops += " tensor";
        make(a);
        hold(new HeldTensor<T>(std::move(t), a), "a constructor");
      });
      break;
    }
    case 2: { // reading, by a name that goes away or is one of the reader's own
      if (readers.empty()) break;
      AnyReader &r = readers[c.s.draw(readers.size() - 1)];
      if (r.model.e.empty()) break;
      const Model::E &x = r.model.e[c.s.draw(r.model.e.size() - 1)];
      size_t own = r.keys().size();
      if (c.s.coin()) for (own = 0; own < r.keys().size() && r.keys()[own] != x.name; ++own) {}
      Arg<std::string> n(x.name);
      const std::string &name = own < r.keys().size() ? r.keys()[own] : *n;
      ops += " read(" + short_name(x.name) + ")";
      lib::with_type(x.a.dt, [&](auto ty) {
        typedef typename decltype(ty)::type T;
        hold(new HeldTensor<T>(r.read<T>(name), x.a), "read(" + short_name(x.name) + ") from " + r.text);
        return 0;
      });
      if (c.s.coin()) hold(new HeldHeader(r.peek(name)), "peek");
      spoil(*n);
      break;
    }
    case 3: { // writing a tensor and a name that go away
      if (writers.empty() || c.s.chance(1, 4)) {
        if (writers.size() < 3) {
          AnyWriter w;
          npy::endian_t e = draw_endian(c.s);
          w.big = is_big(e);
          npy::compression_method_t m = draw_method(c.s);
          if (c.s.coin()) w.m.reset(new npy::npzstringwriter(m, e));
          else {
            w.path = pbt::scratch() + "/w" + std::to_string(k) + ".npz";
            files.push_back(w.path);
            Arg<std::string> p(w.path);
            size_t way = c.s.draw(2);
            if (way == 0) w.f.reset(new npy::npzfilewriter(*p, m, e));
            else if (way == 1) w.f.reset(new npy::npzfilewriter((*p).c_str(), m, e));
            else { Arg<std::filesystem::path> fp(w.path); w.f.reset(new npy::npzfilewriter(*fp, m, e)); }
            spoil(*p);
          }
          ops += std::string(" writer(") + (w.m ? "memory" : "disk") + ", " + method_name(m) + ")";
          writers.push_back(std::move(w));
        }
      }
      AnyWriter &w = writers[c.s.draw(writers.size() - 1)];
      if (w.closed) break;
      Arr a = entry_array(c.s, 30);
      std::string name = gen::name(c.s, false);
      ops += " write(" + short_name(name) + ",";
      make(a);
      ops += ")";
      lib::with_type(a.dt, [&](auto ty) {
        typedef typename decltype(ty)::type T;
        Arg<npy::tensor<T>> t(lib::to_tensor<T>(a));
        Arg<std::string> n(name);
        if (w.m) w.m->write(*n, *t);
        else w.f->write(*n, *t);
        spoil_values<T>((*t).data(), (*t).size());
        spoil(*n);
        return 0;
      });
      w.model.e.push_back({gen::stored_name(name), a, w.big});
      break;
    }
    case 4: { // saving and loading through a stream that goes away
      Arr a = entry_array(c.s, 30);
      strip(a);
      npy::endian_t e = draw_endian(c.s);
      ops += " save and load";
      make(a);
      lib::with_type(a.dt, [&](auto ty) {
        typedef typename decltype(ty)::type T;
        std::string bytes;
        {
          Arg<std::ostringstream> o;
          Arg<npy::tensor<T>> t(lib::to_tensor<T>(a));
          npy::save(*o, *t, e);
          spoil_values<T>((*t).data(), (*t).size());
          bytes = (*o).str();
        }
        hold(new HeldString(std::string(bytes), encode_npy(a, is_big(e))), "save");
        Arg<std::istringstream> i(bytes);
        hold(new HeldTensor<T>(npy::load<npy::tensor<T>>(*i), a), "load");
        (*i).str(std::string(bytes.size(), '#'));
        Arg<std::istringstream> j(bytes);
        hold(new HeldHeader(npy::peek(*j)), "peek");
        return 0;
      });
      break;
    }
    case 5: { // the archive so far or the finished one
      if (writers.empty()) break;
      AnyWriter &w = writers[c.s.draw(writers.size() - 1)];
      if (w.m && c.s.coin()) { std::string s = w.m->str(); hold(new HeldString(std::string(s), s), "str"); ops += " str"; }
      else if (!w.closed) {
        if (w.m) w.m->close(); else w.f->close();
        w.closed = true;
        ops += " close";
        check_archive(w.model, w.m ? w.m->str() : lib::slurp(w.path));
      }
      break;
    }
    case 6: { // a reader moves
      if (readers.empty()) break;
      size_t i = c.s.draw(readers.size() - 1);
      AnyReader &r = readers[i];
      bool assign = c.s.coin();
      if (r.m) r.m = moved(std::move(r.m), assign ? new npy::npzstringreader(build_zip(*std::make_unique<std::vector<ZEntry>>())) : nullptr);
      else {
        npy::npzfilereader *over = nullptr;
        if (assign) {
          std::string p = pbt::scratch() + "/e.npz";
          std::vector<ZEntry> none;
          lib::spit(p, build_zip(none));
          over = new npy::npzfilereader(p);
        }
        r.f = moved(std::move(r.f), over);
      }
      ops += assign ? " move a reader over another" : " move a reader";
      break;
    }
    case 7: { // something goes away
      size_t what = c.s.draw(2);
      if (what == 0 && !readers.empty()) { readers.erase(readers.begin() + long(c.s.draw(readers.size() - 1))); ops += " drop a reader"; }
      else if (what == 1 && !held.empty()) { held.erase(held.begin() + long(c.s.draw(held.size() - 1))); ops += " drop a result"; }
      else if (!writers.empty()) {
        size_t i = c.s.draw(writers.size() - 1);
        AnyWriter w = std::move(writers[i]);
        writers.erase(writers.begin() + long(i));
        w.m.reset();
        w.f.reset();
        ops += " drop a writer";
        if (!w.path.empty()) check_archive(w.model, lib::slurp(w.path));
      }
      break;
    }
    case 8: { // type codes
      int dt = int(c.s.draw(US - 1));
      hold(new HeldCode(npy::to_dtype(lib::code_of(dt), draw_endian(c.s))), "to_dtype");
      ops += " code";
      break;
    }
    default:
      if (!held.empty()) { held[c.s.draw(held.size() - 1)]->step(c.s); ops += " use a result"; }
    }
    check_all();
    for (auto &r : readers) {
      std::set<std::string> got(r.keys().begin(), r.keys().end());
      PB_ASSERT(got == r.model.names(), "after" << ops << ": a reader of " << r.text << " lists other names");
    }
  }
  for (auto &r : readers)
    for (auto &x : r.model.e) {
      PB_ASSERT(r.contains(x.name), "after" << ops << ": the reader of " << r.text << " lacks " << short_name(x.name));
      lib::with_type(x.a.dt, [&](auto ty) {
        typedef typename decltype(ty)::type T;
        std::string d = diff(x.a, lib::from_tensor(r.template read<T>(x.name)));
        PB_ASSERT(d.empty(), "after" << ops << ": the reader of " << r.text << " gives other data: " << d);
        return 0;
      });
    }
  readers.clear();
  for (auto &w : writers) {
    std::string bytes;
    if (!w.closed) { if (w.m) w.m->close(); else w.f->close(); }
    if (w.m) bytes = w.m->str();
    w.m.reset();
    w.f.reset();
    check_archive(w.model, w.path.empty() ? bytes : lib::slurp(w.path));
  }
  check_all();
  c.describe(ops.substr(ops.empty() ? 0 : 1));
  c.label(checks > 20 ? "more than 20 checks of held results" : "up to 20 checks of held results");
  if (checks > 4) c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"life", life, 1}},
                  "histories of 2 to 15 operations on readers, writers, tensors, streams and type codes whose arguments are overwritten and freed after each call, with moved readers, aliased arguments and objects destroyed early; every result held is compared with its model after every operation; non-trivial: more than 4 comparisons");
}
