// C28: no operation leaks memory or file handles, even when it fails.
#include "failmem.h"
#include "archives.h"
#include "hostile.h"
#include <dirent.h>

static std::set<std::string> handles() {
  std::set<std::string> r;
  DIR *d = opendir("/proc/self/fd");
  int own = dirfd(d);
  while (dirent *e = readdir(d)) if (e->d_name[0] != '.' && atoi(e->d_name) != own) r.insert(e->d_name);
  closedir(d);
  return r;
}
// An operation on data prepared beforehand; fn uses only the library, apart
// from what it frees again.
struct Op {
  std::string text;
  std::function<void()> fn;
};
// What the operation must have achieved when it returned normally; runs after
// tracking.
static lib::Result attempt_op(const Op &o) {
  return lib::attempt([&](lib::Result &) { o.fn(); });
}
static void prepare_entries(pbt::Source &s, Model &m, size_t n) {
  for (size_t i = 0; i < n; ++i) m.e.push_back({gen::stored_name(gen::name(s, false) + std::to_string(i)), gen::small_array(s), s.coin()});
}
template <class F> auto on(int dt, F f) { return lib::with_type(dt, f); }
static Op make_op(pbt::Source &s, std::shared_ptr<Model> m) {
  std::string dir = pbt::scratch();
  npy::endian_t e = draw_endian(s);
  npy::compression_method_t meth = draw_method(s);
  size_t kind = s.weighted({3, 3, 3, 4, 4, 2, 2, 2, 2, 2});
  auto a = std::make_shared<Arr>(gen::small_array(s));
  switch (kind) {
  case 0: { // save to a path, sometimes one that cannot be
    static const char *P[] = {"/s.npy", "/missing/s.npy", "", "/dev/full"};
    size_t w = s.weighted({4, 1, 1, 1});
    std::string p = w == 3 ? P[3] : dir + P[w];
    return {"save to " + std::string(w == 0 ? "a file" : w == 1 ? "a missing directory" : w == 2 ? "a directory" : "a full device"), [=] {
              on(a->dt, [&](auto t) { auto x = lib::to_tensor<typename decltype(t)::type>(*a); npy::save(p, x, e); });
            }};
  }
  case 1: { // load from a stream or file, cut or damaged at times, any type
    std::string b = encode_npy(*a, s.coin()), how;
    if (s.chance(1, 3)) b.resize(s.draw(b.size()));
    else if (s.chance(1, 3)) b = hostile::mutate(s, b, 128, how);
    int dt = s.chance(1, 4) ? gen::dtype(s) : a->dt;
    std::string p = dir + "/l.npy";
    bool file = s.coin(), missing = s.chance(1, 8);
    lib::spit(p, b);
    if (missing) p += ".none";
    return {"load " + std::to_string(b.size()) + " bytes as " + DT_NAME[dt] + how + (missing ? ", missing" : ""), [=] {
              on(dt, [&](auto t) {
                typedef npy::tensor<typename decltype(t)::type> TT;
                if (file || missing) { TT x = npy::load<TT>(p); npy::peek(p); }
                else { std::istringstream i(b); TT x = npy::load<TT>(i); }
              });
            }};
  }
  case 2: { // peek
    std::string b = encode_npy(*a, s.coin()), how;
    if (s.coin()) b = hostile::mutate(s, b, 128, how);
    return {"peek" + how, [=] { std::istringstream i(b); npy::peek(i); }};
  }
  case 3: { // an archive, in memory or on disk
    size_t where = s.weighted({3, 3, 1, 1});
    static const char *W[] = {"memory", "disk", "missing directory", "full device"};
    std::string p = where == 2 ? dir + "/missing/a.npz" : where == 3 ? "/dev/full" : dir + "/w.npz";
    bool close = s.coin();
    if (s.chance(1, 10)) meth = npy::compression_method_t(77);
    bool longname = s.chance(1, 10);
    return {std::string("write an archive: ") + W[where] + " " + (int(meth) == 8 ? "deflated" : "stored") + (longname ? ", long name" : ""), [=] {
              auto go = [&](auto &w) {
                for (auto &x : m->e)
                  on(x.a.dt, [&](auto t) { w.write(longname ? std::string(70000, 'n') : x.name, lib::to_tensor<typename decltype(t)::type>(x.a)); });
                if (close) w.close();
              };
              if (where == 0) { npy::npzstringwriter w(meth, e); go(w); }
              else { npy::npzfilewriter w(p, meth, e); go(w); }
            }};
  }
  case 4: { // read an archive, intact or damaged
    std::vector<ZEntry> es;
    for (auto &x : m->e) { ZEntry z; z.name = x.name; z.data = encode_npy(x.a, x.big); z.method = s.coin() ? 8 : 0; z.z64_local = s.chance(1, 4); es.push_back(z); }
    std::string how;
    if (!es.empty() && s.coin()) { // one entry is wrong in itself, its headers agree
      ZEntry &z = es[s.draw(es.size() - 1)];
      size_t fault = s.draw(6);
      static const char *F[] = {" wrong CRC", " unknown method", " broken stream", " stream cut short", " payload damaged", " payload cut short", " no payload"};
      how += F[fault];
      switch (fault) {
      case 0: z.force_crc = int64_t(s.draw(0xFFFFFFFFu)); break;
      case 1: z.method = uint16_t(1 + s.draw(20)); break;
      case 2: case 3:
        z.method = 8;
        z.have_comp = true;
        z.comp = deflate_raw(z.data, int(s.draw(9)), 0, 8, 0);
        if (fault == 3) z.comp.resize(s.draw(z.comp.size()));
        else z.comp = hostile::mutate(s, z.comp, 40, how);
        break;
      case 4: z.data = hostile::mutate(s, z.data, 128, how); break;
      case 5: z.data.resize(s.draw(z.data.size())); break;
      default: z.data.clear();
      }
    }
    std::string b = build_zip(es);
    if (!es.empty() && s.chance(1, 4)) { // sizes in both headers run past the end
      uint32_t by = uint32_t(1 + (s.coin() ? s.draw(40) : s.draw(1 << 20)));
      size_t k = s.draw(es.size() - 1), at = size_t(es[k].offset), cd;
      uint32_t off, v;
      auto bump = [&](size_t p) { memcpy(&v, &b[p], 4); if (v != 0xFFFFFFFFu) v += by, memcpy(&b[p], &v, 4); };
      memcpy(&off, &b[b.size() - 6], 4);
      cd = off;
      for (size_t i = 0; i < k; ++i) {
        uint16_t l[3];
        memcpy(l, &b[cd + 28], 6);
        cd += 46 + l[0] + l[1] + l[2];
      }
      PB_ASSERT(b.compare(cd, 4, "PK\1\2") == 0 && b.compare(at, 4, "PK\3\4") == 0, "(harness) headers");
      for (size_t q : {at + 18, at + 22, cd + 20, cd + 24}) bump(q);
      how += " sizes + " + std::to_string(by);
    }
    if (s.chance(how.empty() ? 2 : 1, how.empty() ? 3 : 6)) b = hostile::mutate(s, b, b.size(), how);
    std::string p = dir + "/r.npz";
    lib::spit(p, b);
    bool file = s.coin();
    int other = s.chance(1, 4) ? gen::dtype(s) : -1;
    return {"read an archive" + how, [=] {
              auto go = [&](auto &r) {
                r.keys();
                for (auto &x : m->e) {
                  r.contains(x.name);
                  try { r.peek(x.name); } catch (const std::exception &) {}
                  int dt = other >= 0 ? other : x.a.dt;
                  on(dt, [&](auto t) {
                    try { r.template read<npy::tensor<typename decltype(t)::type>>(x.name); } catch (const std::exception &) {}
                  });
                }
                try { r.peek("absent"); } catch (const std::exception &) {}
              };
              if (file) { npy::npzfilereader r(p); go(r); if (other >= 0) r.close(); }
              else { npy::npzstringreader r(b); go(r); }
            }};
  }
  case 5: { // a missing archive, or something that is none
    size_t k = s.draw(2);
    return {"open what is no archive", [=] {
              switch (k) {
              case 0: { npy::npzfilereader r(dir + "/none.npz"); break; }
              case 1: { npy::npzfilereader r(dir); break; }
              default: { npy::npzstringreader r(std::string("PK")); }
              }
            }};
  }
  case 6: // tensors
    return {"tensor operations", [=] {
              on(a->dt, [&](auto t) {
                typedef npy::tensor<typename decltype(t)::type> TT;
                TT x = lib::to_tensor<typename decltype(t)::type>(*a);
                TT y(x);
                x = y;
                TT z(std::move(y));
                x = std::move(z);
                try { x.get(std::vector<int>(99, 0)); } catch (const std::exception &) {}
                try { x.copy_from(nullptr, x.size() + 1); } catch (const std::exception &) {}
                x.dtype(npy::endian_t::BIG);
              });
            }};
  case 7: { // impossible shapes
    bool over = s.coin();
    return {"impossible shape", [=] { npy::tensor<double> x(over ? std::vector<size_t>{size_t(1) << 40, size_t(1) << 40} : std::vector<size_t>{size_t(1) << 40}); }};
  }
  case 8: { // type codes
    std::string n = s.coin() ? "<f4" : "nonsense";
    return {"type codes", [=] { npy::from_dtype(n); npy::to_dtype(npy::data_type_t::UNICODE_STRING); }};
  }
  default: { // a large compressible entry through the deflate loops
    size_t n = size_t(1) << (10 + s.draw(11));
    return {"deflate and inflate " + std::to_string(n) + " bytes", [=] {
              npy::npzstringwriter w(npy::compression_method_t::DEFLATED);
              npy::tensor<uint8_t> t(std::vector<size_t>{n});
              w.write("x", t);
              w.close();
              npy::npzstringreader r(w.str());
              npy::tensor<uint8_t> u = r.read<npy::tensor<uint8_t>>("x");
              if (u.values() != t.values()) throw pbt::Fail("read back other data");
            }};
  }
  }
}
static size_t once(const Op &o, size_t fail_at, size_t fail_n, const std::set<std::string> &fds) {
  lib::Result r;
  std::string what = fail_at ? " with allocation " + std::to_string(fail_at) + (fail_n > 1 ? " and all later ones" : "") + " failing" : "";
  {
    start(fail_at, fail_n);
    lib::Result::K k = lib::Result::OK;
    try {
      o.fn();
    } catch (const pbt::Fail &) { stop(); throw;
    } catch (const std::exception &) { k = lib::Result::OTHER_STD;
    } catch (...) { k = lib::Result::NONSTD; }
    stop();
    r.k = k;
  }
  PB_ASSERT(r.k != lib::Result::NONSTD, o.text << what << ": threw something that is not a std::exception");
  PB_ASSERT(g_live == 0 || g_overflow, o.text << what << " (" << (r.k == lib::Result::OK ? "returned" : "threw") << "): " << leaks() << " were never freed");
  std::set<std::string> now = handles();
  PB_ASSERT(now == fds, o.text << what << ": " << now.size() << " file handles are open, " << fds.size() << " before");
  return g_count;
}
static void leaks(pbt::Case &c) {
  size_t n = 1 + c.s.draw(2);
  std::vector<Op> ops;
  std::string text;
  for (size_t i = 0; i < n; ++i) {
    auto m = std::make_shared<Model>();
    prepare_entries(c.s, *m, c.s.draw(3));
    ops.push_back(make_op(c.s, m));
    text += (i ? "; " : "") + ops.back().text;
    // what the first use sets up for good (stream buffers, locales) is no leak
    attempt_op(ops.back());
  }
  c.describe(text);
  std::set<std::string> fds = handles();
  for (auto &o : ops) {
    size_t total = once(o, 0, 0, fds);
    c.label(total ? "operations with allocations" : "operations without allocations");
    // every allocation in turn for short operations, else a sample
    std::set<size_t> at;
    if (total <= 60) for (size_t k = 1; k <= total; ++k) at.insert(k);
    else for (size_t k = 0; k < 60; ++k) at.insert(1 + c.s.draw(total - 1));
    bool all = c.s.chance(1, 4);
    for (size_t k : at) { once(o, k, all ? SIZE_MAX / 2 : 1, fds); c.label("injected allocation failures"); }
    if (total) c.nontrivial();
    once(o, 0, 0, fds);
  }
}
int main(int argc, char **argv) {
  // a buffer the C library would allocate when the library first prints
  static char buffer[BUFSIZ];
  setvbuf(stdout, buffer, _IOLBF, sizeof buffer);
  return pbt::run(argc, argv, {{"leaks", leaks, 1}},
                  "1 to 3 operations (saves, loads, peeks, archives written and read, tensors, type codes; intact, damaged, entries wrong in themselves, sizes past the end, missing, full device, impossible shapes) after a warm-up run; each run normally and with single (or all later) allocations failing at each or 60 sampled allocations; afterwards no block and no file handle may be left; non-trivial: the operation allocates");
}
