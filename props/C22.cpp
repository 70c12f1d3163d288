// C22: a save that returns normally has stored everything (fault enumeration:
// storage that stops accepting data after every byte count).
#include "validzip.h"
#include "pipes.h"
#include <signal.h>
#include <sys/resource.h>

// While it lives, files cannot grow beyond n bytes (EFBIG instead of a signal).
struct Limit {
  explicit Limit(uint64_t n) {
    struct rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    l.rlim_cur = n;
    if (setrlimit(RLIMIT_FSIZE, &l)) _exit(78);
  }
  ~Limit() {
    struct rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    l.rlim_cur = l.rlim_max;
    setrlimit(RLIMIT_FSIZE, &l);
  }
};
static void init() { signal(SIGXFSZ, SIG_IGN); }

// every count for small files; for larger ones all around the buffer
// boundaries and the ends, and random ones
static std::vector<uint64_t> cuts(pbt::Source &s, uint64_t n) {
  std::set<uint64_t> r;
  if (n <= 700) for (uint64_t i = 0; i <= n; ++i) r.insert(i);
  else {
    for (uint64_t b : {uint64_t(0), uint64_t(64), uint64_t(128), uint64_t(4096), uint64_t(8191), uint64_t(8192), uint64_t(16384), uint64_t(65536), n})
      for (uint64_t d = 0; d < 12; ++d) {
        if (b + d < n + 2) r.insert(b + d);
        if (b >= d && b - d <= n) r.insert(b - d);
      }
    for (int i = 0; i < 60; ++i) r.insert(s.draw(n));
  }
  r.insert(n + 1000);
  return std::vector<uint64_t>(r.begin(), r.end());
}
static Arr any(pbt::Source &s) {
  if (s.chance(1, 4)) {
    gen::ArrOpts o;
    o.max_bytes = 70000;
    o.shape.max_elems = 70000;
    o.shape.wide = false;
    return gen::array(s, o);
  }
  return gen::small_array(s);
}
static void npy_file(pbt::Case &c) {
  Arr a = any(c.s);
  npy::endian_t e = draw_endian(c.s);
  int way = int(c.s.draw(lib::SAVE_PATH_WAYS - 1));
  std::string want = lib::save(a, e), path = pbt::scratch() + "/f.npy";
  c.describe("NPY " + a.text(1) + ", " + std::to_string(want.size()) + " bytes, way " + std::to_string(way));
  c.nontrivial();
  c.label(want.size() <= 700 ? "NPY, all byte counts" : "NPY, selected byte counts");
  std::vector<uint64_t> cs = cuts(c.s, want.size());
  for (uint64_t n : cs) {
    if (c.s.chance(1, 20)) lib::spit(path, std::string(want.size() + 100, 'o')); // an older file
    lib::Result r;
    {
      Limit l(n);
      r = lib::attempt([&](lib::Result &) { lib::save(path, a, e, way); });
    }
    PB_ASSERT(r.k != lib::Result::NONSTD, "saving with room for " << n << " bytes threw " << r.what);
    if (n < want.size()) PB_ASSERT(r.k != lib::Result::OK, "saving " << want.size() << " bytes returned normally although only " << n << " could be stored");
    if (r.k == lib::Result::OK) check_bytes(want, lib::slurp(path), "the saved file is not complete");
    else PB_ASSERT(n < want.size(), "saving threw " << r.what << " although there is room for " << n << " bytes");
    unlink(path.c_str());
  }
  lib::Result r = lib::attempt([&](lib::Result &) { lib::save(std::string("/dev/full"), a, e, way); });
  PB_ASSERT(r.k != lib::Result::OK && r.k != lib::Result::NONSTD, "saving to a full device: " << lib::kind_name(r.k));
}
static void archive(pbt::Case &c) {
  npy::endian_t e = draw_endian(c.s);
  npy::compression_method_t m = draw_method(c.s);
  size_t n = c.s.weighted({1, 3, 3, 1});
  Model model;
  std::string text;
  for (size_t i = 0; i < n; ++i) {
    Model::E x{gen::stored_name(gen::name(c.s, true) + std::to_string(i)), any(c.s), is_big(e)};
    model.e.push_back(x);
    text += " " + short_name(x.name) + "=" + x.a.text(1);
  }
  auto ref = lib::make_writer("", m, e);
  for (auto &x : model.e) ref->write(x.name, x.a);
  ref->close();
  std::string want = ref->bytes(), path = pbt::scratch() + "/f.npz";
  c.describe(std::string("NPZ ") + method_name(m) + text + ", " + std::to_string(want.size()) + " bytes");
  c.nontrivial();
  c.label(want.size() <= 700 ? "NPZ, all byte counts" : "NPZ, selected byte counts");
  bool go_on = c.s.coin(); // go on writing after a failure, or stop there
  bool full_device = false;
  std::vector<uint64_t> cs = cuts(c.s, want.size());
  cs.push_back(UINT64_MAX); // stands for a full device
  for (uint64_t room : cs) {
    full_device = room == UINT64_MAX;
    std::string p = full_device ? "/dev/full" : path;
    bool failed = false, destroyed_only = c.s.chance(1, 4);
    // at times there is room again after some of the writes
    size_t recovery = !full_device && c.s.chance(1, 3) ? c.s.draw(model.e.size()) : SIZE_MAX, writes = 0;
    std::string what;
    {
      auto l = std::make_unique<Limit>(full_device ? RLIM_INFINITY : room);
      auto w = lib::make_writer(p, m, e, int(c.s.draw(2)));
      for (auto &x : model.e) {
        lib::Result r = lib::attempt([&](lib::Result &) { w->write(x.name, x.a); });
        PB_ASSERT(r.k != lib::Result::NONSTD, "write threw " << r.what);
        if (writes++ == recovery) l.reset();
        if (r.k != lib::Result::OK) { failed = true; what = r.what; if (!go_on) break; }
      }
      if (writes == recovery) l.reset();
      if (!destroyed_only) {
        lib::Result r = lib::attempt([&](lib::Result &) { w->close(); });
        PB_ASSERT(r.k != lib::Result::NONSTD, "close threw " << r.what);
        if (r.k != lib::Result::OK) { failed = true; what = r.what; }
      }
      w.reset(); // never crashes
    }
    if (!destroyed_only) {
      bool fits = !full_device && room >= want.size();
      if (!fits && recovery != SIZE_MAX) c.label("room again later");
      else if (!fits) PB_ASSERT(failed, "writing and closing an archive of " << want.size() << " bytes returned normally " << (full_device ? "on a full device" : "although only " + std::to_string(room) + " bytes could be stored"));
      else PB_ASSERT(!failed, "writing failed (" << what << ") although there was room for " << room << " bytes");
      if (!failed) check_bytes(want, lib::slurp(path), "the archive is not complete");
    } else if (!full_device && room >= want.size()) check_bytes(want, lib::slurp(path), "the archive left to the destructor is not complete");
    if (!full_device) unlink(path.c_str());
  }
}
// the reader of a pipe leaves: what it did not take cannot have been stored
static void pipe_left(pbt::Case &c) {
  npy::endian_t e = draw_endian(c.s);
  npy::compression_method_t m = npy::compression_method_t::STORED;
  std::string path = pbt::scratch() + "/left";
  bool npz = c.s.coin();
  size_t taken = c.s.coin() ? 0 : c.s.draw(3000), capacity = 4096;
  Arr a;
  a.dt = gen::dtype(c.s);
  if (a.dt == US) a.dt = F8;
  a.shape = {(capacity + taken + 9000 + c.s.draw(70000)) / DT_SIZE[a.dt]};
  gen::contents(c.s, a, 12);
  std::string want = lib::save(a, e);
  if (want.size() < capacity + taken + 200) throw pbt::Discard();
  int way = int(c.s.draw(lib::SAVE_PATH_WAYS - 1)), ctor = int(c.s.draw(2));
  c.describe(std::string(npz ? "NPZ" : "NPY") + " of " + std::to_string(want.size()) + " bytes into a pipe whose reader leaves after " + std::to_string(taken));
  c.nontrivial();
  c.label(npz ? "NPZ, pipe left" : "NPY, pipe left");
  PipeIn in(path, taken, int(capacity));
  lib::Result r = lib::attempt([&](lib::Result &) {
    if (!npz) { lib::save(path, a, e, way); return; }
    auto w = lib::make_writer(path, m, e, ctor);
    w->write("a", a);
    w->close();
  });
  PB_ASSERT(r.k != lib::Result::NONSTD, "threw " << r.what);
  PB_ASSERT(r.k != lib::Result::OK, "saving " << want.size() << " bytes to a pipe whose reader left after " << taken << " returned normally");
}
int main(int argc, char **argv) {
  pbt::worker_init = init;
  return pbt::run(argc, argv, {{"npy", npy_file, 1}, {"npz", archive, 1}, {"pipe", pipe_left, 1}},
                  "an array saved to a path, or an archive of 0 to 3 entries written, closed and destroyed on disk, with a file size limit after every byte count (files up to 700 bytes) or every count around buffer boundaries and 60 random ones, and on a full device; and large arrays and archives into pipes whose reader leaves; non-trivial: all of it");
}
