// C29: running out of memory is reported, never silently wrong.
#include "failmem.h"
#include "validzip.h"
#include <optional>

// One run of a scenario: every library call goes through call(), where the
// chosen allocation fails (counted over all calls of the run).
struct Run {
  size_t fail_at, fail_n, failures = 0;
  bool lifted = false;
  template <class F> lib::Result call(F f) {
    struct On {
      On() { g_on = true; }
      ~On() { g_on = false; }
    };
    lib::Result r = lib::attempt([&](lib::Result &) {
      On on;
      f();
    });
    PB_ASSERT(r.k != lib::Result::NONSTD, "a call threw something that is not a std::exception");
    if (r.k != lib::Result::OK) {
      ++failures;
      PB_ASSERT(fail_at && !lifted, "a call threw " << r.what << " although there was memory");
    }
    return r;
  }
  // from now on there is memory again
  void lift() { g_fail_at = 0; lifted = true; }
};
struct Scenario {
  std::string text;
  std::function<void(Run &)> fn;
};
template <class T> static Arr arr_of(const npy::tensor<T> &t) { return lib::from_tensor<T>(t); }

static Scenario saving(pbt::Source &s, const Arr &a) {
  npy::endian_t e = draw_endian(s);
  size_t way = s.draw(3);
  std::string path = pbt::scratch() + "/m.npy", want = lib::save(a, e);
  return {std::string("save ") + (way < 2 ? "to a path " : "to a stream ") + a.text(1), [=](Run &r) {
            lib::with_type(a.dt, [&](auto tag) {
              typedef typename decltype(tag)::type T;
              npy::tensor<T> t = lib::to_tensor<T>(a);
              if (way < 2) {
                lib::Result x = r.call([&] { if (way) t.save(path, e); else npy::save(path, t, e); });
                if (x.k == lib::Result::OK) check_bytes(want, lib::slurp(path), "save returned normally, but the file is wrong");
                unlink(path.c_str());
              } else {
                std::ostringstream o;
                lib::Result x = r.call([&] { if (way == 2) npy::save(o, t, e); else npy::save<T, npy::tensor>(o, t, e); });
                if (x.k == lib::Result::OK && o.good()) check_bytes(want, o.str(), "save returned normally with the stream good, but the bytes are wrong");
              }
              check_arr(a, arr_of<T>(t), "the saved tensor changed");
            });
          }};
}
static Scenario loading(pbt::Source &s, const Arr &a) {
  bool big = s.coin();
  size_t way = s.draw(4);
  std::string path = pbt::scratch() + "/m.npy", bytes = encode_npy(a, big);
  static const char *W[] = {"load a path ", "from_file ", "load a stream ", "peek a path ", "peek and load a stream "};
  Arr want = truthy(a);
  return {W[way] + a.text(1), [=](Run &r) {
            lib::spit(path, bytes);
            lib::with_type(a.dt, [&](auto tag) {
              typedef typename decltype(tag)::type T;
              typedef npy::tensor<T> TT;
              std::optional<TT> t;
              std::optional<npy::header_info> h;
              std::istringstream i(bytes);
              lib::Result x = r.call([&] {
                switch (way) {
                case 0: t.emplace(npy::load<TT>(path)); break;
                case 1: t.emplace(TT::from_file(path)); break;
                case 2: t.emplace(npy::load<TT>(i)); break;
                case 3: h.emplace(npy::peek(path)); break;
                default: h.emplace(npy::peek(i)); t.emplace(TT::load(i, *h));
                }
              });
              if (x.k != lib::Result::OK) return;
              if (t) check_arr(want, arr_of<T>(*t), "load returned normally");
              if (h) {
                std::string d = lib::diff_header(*h, a.dt, big, a.shape, a.fortran, a.max_len());
                PB_ASSERT(d.empty(), "peek returned normally: " << d);
              }
            });
            unlink(path.c_str());
          }};
}
static Scenario writing(pbt::Source &s, const Model &m) {
  npy::endian_t e = draw_endian(s);
  npy::compression_method_t meth = draw_method(s);
  bool disk = s.coin(), destroy_only = disk && s.chance(1, 4);
  std::string path = pbt::scratch() + "/m.npz", text;
  for (auto &x : m.e) text += " " + short_name(x.name) + "=" + x.a.text(1);
  auto ref = lib::make_writer("", meth, e);
  for (auto &x : m.e) ref->write(x.name, x.a);
  ref->close();
  std::string want = ref->bytes();
  Model mm = m;
  for (auto &x : mm.e) x.big = is_big(e);
  return {std::string("write ") + method_name(meth) + (disk ? " to disk" : " to memory") + text, [=](Run &r) {
            Model kept;
            bool wrote_all = true, closed = false;
            std::string bytes;
            auto go = [&](auto &w) {
              for (auto &x : mm.e)
                lib::with_type(x.a.dt, [&](auto tag) {
                  auto t = lib::to_tensor<typename decltype(tag)::type>(x.a);
                  if (r.call([&] { w->write(x.name, t); }).k == lib::Result::OK) kept.e.push_back(x);
                  else wrote_all = false;
                });
              if (!destroy_only) closed = r.call([&] { w->close(); }).k == lib::Result::OK;
            };
            bool opened = false;
            if (disk) {
              std::optional<npy::npzfilewriter> w;
              opened = r.call([&] { w.emplace(path, meth, e); }).k == lib::Result::OK;
              if (opened) go(w);
              r.call([&] { w.reset(); });
              bytes = lib::slurp(path);
            } else {
              std::optional<npy::npzstringwriter> w;
              opened = r.call([&] { w.emplace(meth, e); }).k == lib::Result::OK;
              if (opened) {
                go(w);
                lib::Result x = r.call([&] { bytes = w->str(); });
                if (x.k != lib::Result::OK) bytes = w->str();
              }
              r.call([&] { w.reset(); });
            }
            if (closed && wrote_all) check_bytes(want, bytes, "writing and closing returned normally, but the archive is wrong");
            else if (closed) {
              check_zip(bytes, 0, kept, meth, e, true);
              auto rd = lib::make_reader_mem(bytes);
              for (auto &x : mm.e) if (!kept.exact(x.name)) PB_ASSERT(!rd->contains(x.name), "the archive lists " << short_name(x.name) << " whose write threw");
            }
            if (disk) unlink(path.c_str());
          }};
}
static Scenario reading(pbt::Source &s, const Model &m) {
  std::vector<ZEntry> es;
  for (auto &x : m.e) {
    ZEntry z;
    z.name = x.name;
    z.data = encode_npy(x.a, x.big);
    z.method = s.coin() ? 8 : 0;
    z.z64_local = s.chance(1, 4);
    es.push_back(z);
  }
  ZOpts o;
  o.z64_end = s.chance(1, 4);
  std::string bytes = build_zip(es, o), path = pbt::scratch() + "/m.npz";
  size_t ctor = s.draw(4);
  return {"read an archive of " + std::to_string(m.e.size()), [=](Run &r) {
            lib::spit(path, bytes);
            auto go = [&](auto &rd) {
              for (int round = 0; round < 2; ++round) {
                std::set<std::string> got;
                if (r.call([&] { auto &k = rd->keys(); g_on = false; got.insert(k.begin(), k.end()); }).k == lib::Result::OK)
                  PB_ASSERT(got == m.names(), "keys() lists other names than were written");
                for (auto &x : m.e) {
                  bool c = false;
                  if (r.call([&] { c = rd->contains(x.name); }).k == lib::Result::OK) PB_ASSERT(c, "contains(" << short_name(x.name) << ") is false");
                  std::optional<npy::header_info> h;
                  if (r.call([&] { h.emplace(rd->peek(x.name)); }).k == lib::Result::OK) {
                    std::string d = lib::diff_header(*h, x.a.dt, x.big, x.a.shape, x.a.fortran, x.a.max_len());
                    PB_ASSERT(d.empty(), "peek(" << short_name(x.name) << ") returned normally: " << d);
                  }
                  lib::with_type(x.a.dt, [&](auto tag) {
                    typedef npy::tensor<typename decltype(tag)::type> TT;
                    std::optional<TT> t;
                    std::string name = x.name.substr(0, x.name.size() - 4);
                    if (round == 0 || m.exact(name)) name = x.name;
                    if (r.call([&] { t.emplace(rd->template read<TT>(name)); }).k == lib::Result::OK)
                      check_arr(truthy(x.a), lib::from_tensor(*t), "read returned normally");
                  });
                }
                r.lift(); // the second round has memory and must be right
              }
            };
            if (ctor < 2) {
              std::string copy = bytes;
              std::optional<npy::npzstringreader> rd;
              if (r.call([&] { if (ctor) rd.emplace(std::move(copy)); else rd.emplace(copy); }).k == lib::Result::OK) go(rd);
            } else {
              std::optional<npy::npzfilereader> rd;
              std::filesystem::path fp(path);
              if (r.call([&] { if (ctor == 2) rd.emplace(path); else if (ctor == 3) rd.emplace(path.c_str()); else rd.emplace(fp); }).k == lib::Result::OK) go(rd);
            }
            unlink(path.c_str());
          }};
}
template <class TT> static void check_consistent(const TT &t, const char *how) {
  size_t n = 1;
  for (size_t d : t.shape()) n *= d;
  PB_ASSERT(t.ndim() == t.shape().size(), how << ": ndim() and shape() disagree");
  PB_ASSERT(t.size() == n && t.values().size() == n, how << ": a tensor of shape " << shape_text(t.shape()) << " holds " << t.size() << " elements");
  if (!n) return;
  // the last element is addressed inside the buffer
  std::vector<size_t> last;
  for (size_t d : t.shape()) last.push_back(d - 1);
  PB_ASSERT(&t(last) == t.data() + (n - 1), how << ": the last index of shape " << shape_text(t.shape()) << " is at another place");
}
static Scenario tensors(pbt::Source &s, const Arr &a) {
  Arr b = gen::small_array(s, a.dt);
  size_t op = s.draw(4);
  static const char *W[] = {"construct ", "copy ", "assign ", "bulk copy ", "index "};
  return {W[op] + a.text(1) + " and " + b.text(1), [=](Run &r) {
            lib::with_type(a.dt, [&](auto tag) {
              typedef typename decltype(tag)::type T;
              typedef npy::tensor<T> TT;
              TT x = lib::to_tensor<T>(a), y = lib::to_tensor<T>(b);
              std::vector<T> v = lib::to_values<T>(a);
              Arr now;
              lib::Result q;
              switch (op) {
              case 0: {
                std::optional<TT> t;
                q = r.call([&] { t.emplace(a.shape, a.fortran); });
                if (t) { check_consistent(*t, "constructor"); PB_ASSERT(t->shape() == a.shape && t->fortran_order() == a.fortran, "constructor: other shape"); }
                break;
              }
              case 1: {
                std::optional<TT> t;
                q = r.call([&] { t.emplace(x); });
                if (t) check_arr(a, lib::from_tensor(*t), "copy");
                break;
              }
              case 2:
                q = r.call([&] { y = x; });
                check_consistent(y, "assignment");
                now = lib::from_tensor(y);
                if (q.k == lib::Result::OK) check_arr(a, now, "assignment");
                else PB_ASSERT(now == b || now == a, "an assignment that threw left neither the old nor the new value: " << now.text());
                q = r.call([&] { y = std::move(x); });
                check_consistent(y, "move assignment");
                if (q.k == lib::Result::OK) check_arr(a, lib::from_tensor(y), "move assignment");
                r.lift();
                r.call([&] { y = lib::to_tensor<T>(b); });
                check_arr(b, lib::from_tensor(y), "assignment after a failure");
                return;
              case 3:
                q = r.call([&] { x.copy_from(v); });
                check_consistent(x, "copy_from");
                q = r.call([&] { x.copy_from(v.data(), v.size()); });
                check_consistent(x, "copy_from");
                if (q.k == lib::Result::OK) check_arr(a, lib::from_tensor(x), "copy_from");
                return;
              default: {
                if (!x.size()) return;
                std::vector<std::int32_t> i(a.shape.size(), -1);
                std::vector<size_t> u;
                for (size_t d : a.shape) u.push_back(d - 1);
                const T *p = nullptr;
                q = r.call([&] { p = &x.get(i); });
                if (p) PB_ASSERT(p == x.data() + (x.size() - 1), "get: another element");
                p = nullptr;
                q = r.call([&] { p = &x(u); });
                if (p) PB_ASSERT(p == x.data() + (x.size() - 1), "call operator: another element");
                std::string d;
                if (r.call([&] { d = x.dtype(npy::endian_t::BIG); }).k == lib::Result::OK) PB_ASSERT(d == descr(a.dt, true, a.max_len()), "dtype: " << d);
                q = r.call([&] { x.set(i, T()); });
                check_consistent(x, "set");
                return;
              }
              }
              check_arr(a, lib::from_tensor(x), "the source changed");
            });
          }};
}
static Scenario headers(pbt::Source &s, const Arr &a) {
  bool big = s.coin();
  std::string d = descr(a.dt, big, a.max_len());
  std::string dict = encode_npy_header(d, a.fortran, a.shape).substr(10);
  return {"header " + d + " " + shape_text(a.shape), [=](Run &r) {
            std::optional<npy::header_info> h;
            if (r.call([&] { h.emplace(dict); }).k == lib::Result::OK) {
              std::string e = lib::diff_header(*h, a.dt, big, a.shape, a.fortran, a.max_len());
              PB_ASSERT(e.empty(), "header_info: " << e);
            }
            if (a.dt != US) {
              npy::data_type_t t{};
              if (r.call([&] { t = npy::from_dtype(d).first; }).k == lib::Result::OK) PB_ASSERT(t == lib::code_of(a.dt), "from_dtype(" << d << ")");
            }
            std::ostringstream o;
            if (r.call([&] { npy::write_npy_header(o, d, a.fortran, a.shape); }).k == lib::Result::OK && o.good())
              check_bytes(encode_npy_header(d, a.fortran, a.shape), o.str(), "write_npy_header returned normally with the stream good");
          }};
}
static size_t once(const Scenario &sc, size_t at, size_t n, size_t *failures = nullptr) {
  start(at, n);
  g_on = false;
  Run r{at, n};
  try {
    sc.fn(r);
  } catch (const pbt::Fail &f) {
    stop();
    PB_FAIL(sc.text << (at ? ", allocation " + std::to_string(at) + (n > 1 ? " and all later ones" : "") + " failing: " : ": ") << f.msg);
  }
  size_t c = g_count;
  stop();
  if (failures) *failures += r.failures;
  return c;
}
static void memory(pbt::Case &c) {
  Model m;
  size_t n = 1 + c.s.draw(2);
  for (size_t i = 0; i < n; ++i) m.e.push_back({gen::stored_name(gen::name(c.s, false) + std::to_string(i)), entry_array(c.s, 20), c.s.coin()});
  Arr a = gen::small_array(c.s);
  if (c.s.chance(1, 8)) { gen::ArrOpts o; o.max_bytes = 20000; o.shape.max_elems = 8000; o.shape.wide = false; a = gen::array(c.s, o); }
  strip(a);
  for (auto &x : m.e) strip(x.a);
  size_t kind = c.s.weighted({3, 3, 4, 4, 3, 2});
  static const char *K[] = {"save", "load", "archive writer", "archive reader", "tensor", "header"};
  Scenario sc = kind == 0 ? saving(c.s, a) : kind == 1 ? loading(c.s, a) : kind == 2 ? writing(c.s, m) : kind == 3 ? reading(c.s, m) : kind == 4 ? tensors(c.s, a) : headers(c.s, a);
  c.describe(sc.text);
  size_t total = once(sc, 0, 0);
  std::set<size_t> at;
  if (total <= 80) for (size_t k = 1; k <= total; ++k) at.insert(k);
  else for (size_t k = 0; k < 80; ++k) at.insert(1 + c.s.draw(total - 1));
  bool all = c.s.chance(1, 4);
  size_t failures = 0;
  for (size_t k : at) once(sc, k, all ? SIZE_MAX / 2 : 1, &failures);
  c.label(std::string(K[kind]) + (failures ? ", calls failed" : ", no call failed"));
  if (failures) c.nontrivial();
}
int main(int argc, char **argv) {
  static char buffer[BUFSIZ];
  setvbuf(stdout, buffer, _IOLBF, sizeof buffer);
  return pbt::run(argc, argv, {{"memory", memory, 1}},
                  "a scenario (save, load, peek, archive written, archive read, tensor operations, headers) run once, then again with each (up to 80, else 80 sampled) of its memory allocations failing, alone or with all later ones; every call must throw a std::exception or have its full effect, and objects must stay consistent; non-trivial: some call failed");
}
