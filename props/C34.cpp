// C34: the library works at any time of a program's life: called while static
// objects are made or destroyed, before main, at exit, in a forked process, it
// does what it does in main.
#include "archives.h"
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>

// ---- the times of a program's life
enum { EARLY, CTOR, CTOR_THREAD, MAIN, FORK, AT_EXIT, TLS, DTOR, LATE, FINI, PHASES };
static const char *const PHASE[PHASES] = {"first static object", "static object", "thread of a static object", "main", "forked process", "exit handler of main",
                                          "thread-local object of main", "destructor of a static object", "exit handler of the first static object", "end of the process"};

// ---- objects that live across those times; nothing here needs initialisation
struct Keep {
  lib::Writer *w = nullptr;
  Model wm;
  std::string wpath;
  bool wbig = false;
  lib::Reader *r = nullptr;
  Model rm;
  Arr a;                       // what t holds
  std::shared_ptr<void> t;
  const std::string *code = nullptr;
  int code_dt = 0;
  bool code_big = false;
  npy::npzstringreader *scratch = nullptr;
};
static Keep *g_keep;           // made on first use, never destroyed by itself
static const char *g_dir;      // for files

static std::string digest(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  char b[40];
  snprintf(b, sizeof b, "%zu:%016llx", s.size(), static_cast<unsigned long long>(h));
  return b;
}
static void check_saved(const std::string &bytes, const Arr &a, bool big) {
  Header h;
  Arr got;
  bool b = false;
  std::string d = decode_npy(bytes, h, got, b);
  PB_ASSERT(d.empty(), "the saved " << a.text(2) << " is not an NPY file: " << d);
  d = diff(a, got);
  PB_ASSERT(d.empty(), "the saved " << a.text(2) << " holds something else: " << d);
  if (a.dt != US && DT_UNIT[a.dt] > 1 && a.count()) PB_ASSERT(b == big, "the saved " << a.text(2) << " is in the other byte order");
}
static std::string check_written(const Model &m, const std::string &bytes) {
  std::vector<ZParsed> z;
  std::string d = parse_zip(bytes, z);
  PB_ASSERT(d.empty(), "the archive is not valid: " << d);
  PB_ASSERT(z.size() == m.e.size(), "the archive has " << z.size() << " entries, " << m.e.size() << " were written");
  for (size_t i = 0; i < z.size(); ++i) {
    PB_ASSERT(z[i].name == m.e[i].name, "entry " << i << " has another name");
    check_saved(z[i].data, m.e[i].a, m.e[i].big);
  }
  return digest(bytes);
}
static std::string file_name(const char *n) { return std::string(g_dir) + "/" + n; }

// One operation; returns what came of it.  Nothing depends on the time of life.
static std::string step(pbt::Source &s, bool keep, std::string &ops) {
  if (!g_keep) g_keep = new Keep;
  Keep &k = *g_keep;
  std::string r;
  size_t op = s.weighted({4, 4, 3, 3, 2, 3, 2, 3, 1, keep ? 4u : 0u, keep ? 4u : 0u, keep ? 3u : 0u, keep ? 2u : 0u});
  npy::endian_t e = draw_endian(s);
  bool big = is_big(e);
  switch (op) {
  case 0: { // save
    Arr a = gen::small_array(s);
    bool disk = s.chance(1, 3);
    int way = int(s.draw(disk ? lib::SAVE_PATH_WAYS - 1 : lib::SAVE_STREAM_WAYS - 1));
    std::string bytes;
    if (disk) {
      std::string p = file_name("s.npy");
      lib::save(p, a, e, way);
      bytes = lib::slurp(p);
      unlink(p.c_str());
    } else bytes = lib::save(a, e, way);
    check_saved(bytes, a, big);
    r = "save " + digest(bytes);
    break;
  }
  case 1: { // load
    Arr a = gen::small_array(s);
    std::string bytes = encode_npy(a, big);
    Arr got;
    if (s.chance(1, 3)) {
      std::string p = file_name("l.npy");
      lib::spit(p, bytes);
      got = lib::load(p, a.dt, int(s.draw(lib::LOAD_PATH_WAYS - 1)));
      unlink(p.c_str());
    } else got = lib::load_bytes(bytes, a.dt, int(s.draw(lib::LOAD_STREAM_WAYS - 1)));
    check_arr(truthy(a), got, "load");
    r = "load";
    break;
  }
  case 2: { // peek
    Arr a = gen::small_array(s);
    npy::header_info h = lib::peek_bytes(encode_npy(a, big));
    std::string d = lib::diff_header(h, a.dt, big, a.shape, a.fortran, a.max_len());
    PB_ASSERT(d.empty(), "peek: " << d);
    r = "peek " + lib::header_text(h);
    break;
  }
  case 3: { // damaged
    Arr a = gen::small_array(s);
    std::string bytes = encode_npy(a, big);
    size_t at = s.draw(bytes.size() - 1);
    lib::Result x;
    int dt = s.coin() ? a.dt : gen::dtype(s);
    if (s.coin()) bytes.resize(at);
    else bytes[std::min<size_t>(at, 127)] ^= char(1 + s.draw(254));
    bool peek = s.coin();
    x = lib::attempt([&](lib::Result &y) {
      if (peek) y.what = lib::header_text(lib::peek_bytes(bytes));
      else y.arr = lib::load_bytes(bytes, dt, 0);
    });
    r = std::string("damaged: ") + lib::kind_name(x.k) + (x.k == lib::Result::OK ? " " + x.arr.text(50) : "") + x.what;
    break;
  }
  case 4: { // a missing file, a bad index, a wrong size
    size_t what = s.draw(3);
    lib::Result x = lib::attempt([&](lib::Result &) {
      npy::tensor<double> t({2, 3}, s.coin());
      if (what == 0) npy::load<npy::tensor<int>>(file_name("absent.npy"));
      else if (what == 1) t(2, 1) = 1;
      else if (what == 2) t.copy_from(std::vector<double>(5));
      else npy::npzfilereader(file_name("absent.npz"));
    });
    PB_ASSERT(x.k != lib::Result::OK, "misuse " << what << " went through");
    r = std::string("misuse: ") + lib::kind_name(x.k);
    break;
  }
  case 5: { // an archive written and read
    Model m;
    bool disk = s.coin();
    npy::compression_method_t method = draw_method(s);
    std::string p = disk ? file_name("a.npz") : "";
    auto w = lib::make_writer(p, method, e, disk ? int(s.draw(2)) : 0);
    size_t n = s.draw(3);
    for (size_t i = 0; i < n; ++i) {
      Arr a = gen::small_array(s);
      std::string name = std::to_string(i) + gen::name(s, true);
      w->write(name, a);
      m.e.push_back({gen::stored_name(name), a, big});
    }
    if (s.coin()) w->close();
    else if (disk) w.reset();
    else w->close();
    std::string bytes = disk ? lib::slurp(p) : w->bytes();
    r = "archive " + check_written(m, bytes);
    auto rd = disk ? lib::make_reader_file(p, int(s.draw(2))) : lib::make_reader_mem(bytes, int(s.draw(1)));
    check_keys(*rd, m, "archive");
    for (auto &x : m.e) check_arr(x.a, rd->read(x.name, x.a.dt, int(s.draw(1))), "entry");
    rd.reset();
    if (disk) unlink(p.c_str());
    break;
  }
  case 6: { // a damaged archive
    auto w = lib::make_writer("", draw_method(s), e);
    Arr a = gen::small_array(s);
    w->write("x", a);
    w->close();
    std::string bytes = w->bytes();
    bytes[s.draw(bytes.size() - 1)] ^= char(1 + s.draw(254));
    lib::Result x = lib::attempt([&](lib::Result &y) {
      auto rd = lib::make_reader_mem(bytes);
      for (auto &n : rd->keys()) y.what += n;
      y.arr = rd->read("x", a.dt);
    });
    r = std::string("damaged archive: ") + lib::kind_name(x.k) + x.what + (x.k == lib::Result::OK ? x.arr.text(50) : "");
    break;
  }
  case 7: { // type codes
    int dt = int(s.draw(US - 1));
    const std::string &code = npy::to_dtype(lib::code_of(dt), e);
    PB_ASSERT(code == descr(dt, big, 0), "to_dtype gives '" << code << "' for " << DT_NAME[dt]);
    const auto &back = npy::from_dtype(code);
    PB_ASSERT(back.first == lib::code_of(dt), "from_dtype does not know '" << code << "'");
    lib::Result x = lib::attempt([&](lib::Result &) { npy::from_dtype(s.coin() ? "<q9" : ""); });
    PB_ASSERT(x.k != lib::Result::OK, "from_dtype takes nonsense");
    r = "code " + code + " " + std::to_string(int(back.second)) + " " + lib::kind_name(x.k);
    break;
  }
  case 8: { // a tensor of its own
    npy::tensor<std::wstring> t({2, size_t(s.draw(3))});
    for (size_t i = 0; i < t.size(); ++i) t.data()[i] = L"kept \u00e9 for a long while";
    npy::tensor<std::wstring> u(std::move(t));
    std::ostringstream o;
    npy::save(o, u, e);
    r = "strings " + digest(o.str());
    break;
  }
  case 9: { // a writer that lives on
    if (!k.w) {
      bool disk = s.coin();
      k.wpath = disk ? file_name("kept.npz") : "";
      k.wbig = big;
      k.wm = Model();
      k.w = lib::make_writer(k.wpath, draw_method(s), e, disk ? int(s.draw(2)) : 0).release();
      r = "open";
    } else if (s.weighted({2, 1}) == 0) {
      Arr a = gen::small_array(s);
      std::string name = std::to_string(k.wm.e.size()) + gen::name(s, true);
      k.w->write(name, a);
      k.wm.e.push_back({gen::stored_name(name), a, k.wbig});
      r = "write";
    } else {
      if (k.wpath.empty() || s.coin()) k.w->close();
      std::string mem = k.wpath.empty() ? k.w->bytes() : "";
      delete k.w;
      k.w = nullptr;
      r = "close " + check_written(k.wm, k.wpath.empty() ? mem : lib::slurp(k.wpath));
      if (!k.wpath.empty()) unlink(k.wpath.c_str());
    }
    break;
  }
  case 10: { // a reader that lives on
    if (!k.r) {
      bool disk = s.coin();
      k.rm = Model();
      auto w = lib::make_writer("", draw_method(s), e);
      size_t n = 1 + s.draw(2);
      for (size_t i = 0; i < n; ++i) {
        Arr a = gen::small_array(s);
        std::string name = std::to_string(i) + gen::name(s, true);
        w->write(name, a);
        k.rm.e.push_back({gen::stored_name(name), a, big});
      }
      w->close();
      if (disk) lib::spit(file_name("reader.npz"), w->bytes());
      k.r = (disk ? lib::make_reader_file(file_name("reader.npz"), int(s.draw(2))) : lib::make_reader_mem(w->bytes(), int(s.draw(1)))).release();
      r = "reader";
    } else if (s.weighted({4, 1}) == 0) {
      check_keys(*k.r, k.rm, "kept reader");
      check_lookup(*k.r, k.rm, s.chance(1, 5) ? "absent" : k.rm.e[s.draw(k.rm.e.size() - 1)].name, s, "kept reader");
      r = "read";
    } else {
      delete k.r;
      k.r = nullptr;
      r = "drop reader";
    }
    break;
  }
  case 11: { // a tensor that lives on
    if (!k.t) {
      k.a = gen::small_array(s);
      lib::with_type(k.a.dt, [&](auto ty) {
        typedef typename decltype(ty)::type T;
        k.t = std::make_shared<npy::tensor<T>>(lib::to_tensor<T>(k.a));
      });
      r = "tensor";
    } else if (s.weighted({3, 1}) == 0) {
      std::ostringstream o;
      lib::with_type(k.a.dt, [&](auto ty) {
        typedef typename decltype(ty)::type T;
        npy::tensor<T> &t = *static_cast<npy::tensor<T> *>(k.t.get());
        check_arr(k.a, lib::from_tensor(t), "kept tensor");
        npy::save(o, t, e);
      });
      check_saved(o.str(), k.a, big);
      r = "tensor saved " + digest(o.str());
    } else {
      k.t.reset();
      r = "drop tensor";
    }
    break;
  }
  default: { // a reference to a type code
    if (!k.code) {
      k.code_dt = int(s.draw(US - 1));
      k.code_big = big;
      k.code = &npy::to_dtype(lib::code_of(k.code_dt), e);
    }
    PB_ASSERT(*k.code == descr(k.code_dt, k.code_big, 0), "the reference to a type code kept gives '" << *k.code << "'");
    r = "code kept";
  }
  }
  ops += " " + r.substr(0, r.find(' '));
  return r;
}
// All operations of one time of life; the transcript never depends on it.
static std::string phase(pbt::Source &s, int which, std::string &ops) {
  size_t n = 1 + s.draw(3);
  std::string t;
  ops += std::string(" [") + PHASE[which] + "]";
  for (size_t i = 0; i < n; ++i) {
    try {
      t += step(s, which != FORK, ops) + "\n";
    } catch (const pbt::Fail &f) {
      return t + "FAIL " + f.msg;
    } catch (const std::exception &x) {
      return t + "FAIL unexpected exception " + x.what();
    }
  }
  return t + "END";
}

// ---- the process whose life is looked at: everything below uses the C library
static char g_plan[4096];
static bool g_child;
static void put_file(const char *path, const std::string &text) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) return;
  size_t at = 0;
  while (at < text.size()) {
    ssize_t k = write(fd, text.data() + at, text.size() - at);
    if (k <= 0) break;
    at += size_t(k);
  }
  close(fd);
}
static void live(int which) {
  if (!g_child) return;
  char path[4200];
  snprintf(path, sizeof path, "%s/plan.%d", g_plan, which);
  FILE *f = fopen(path, "rb");
  if (!f) return;
  std::vector<uint64_t> v;
  unsigned long long x;
  while (fscanf(f, "%llu", &x) == 1) v.push_back(x);
  fclose(f);
  pbt::Source s(v);
  std::string ops, t = phase(s, which, ops);
  snprintf(path, sizeof path, "%s/out.%d", g_plan, which);
  put_file(path, t);
}
static void late() { live(LATE); }
static void at_exit() { live(AT_EXIT); }
struct First {
  First() {
    const char *p = getenv("VERIF_C34");
    if (!p || strlen(p) >= sizeof g_plan) return;
    g_child = true;
    strcpy(g_plan, p);
    g_dir = g_plan;
    atexit(late);
    live(EARLY);
  }
};
__attribute__((init_priority(101))) static First g_first;
struct Static {
  Static() {
    live(CTOR);
    if (g_child) std::thread([] { live(CTOR_THREAD); }).join();
  }
  ~Static() { live(DTOR); }
};
static Static g_static;
struct Local {
  int used = 0;
  ~Local() { live(TLS); }
};
static thread_local Local g_local;
__attribute__((destructor(101))) static void fini() { live(FINI); }

static int child_main() {
  atexit(at_exit);
  g_local.used = 1;
  live(MAIN);
  char path[4200];
  snprintf(path, sizeof path, "%s/plan.%d", g_plan, int(FORK));
  if (access(path, R_OK) == 0) {
    pid_t k = fork();
    if (k == 0) {
      live(FORK);
      _exit(0);
    }
    int st = 0;
    waitpid(k, &st, 0);
  }
  return 0;
}

// ---- the property
static void times(pbt::Case &c) {
  std::string dir = pbt::scratch() + "/life";
  mkdir(dir.c_str(), 0700);
  for (int i = 0; i < PHASES; ++i) // an earlier case may have failed half-way
    for (const char *n : {"/plan.", "/out."}) unlink((dir + n + std::to_string(i)).c_str());
  std::string self = dir;
  g_dir = self.c_str();
  delete g_keep;
  g_keep = nullptr;
  std::string want[PHASES], ops;
  bool used[PHASES] = {};
  static const int ORDER[] = {EARLY, CTOR, CTOR_THREAD, MAIN, FORK, TLS, AT_EXIT, DTOR, LATE, FINI};
  size_t outside = 0, kept = 0;
  int first = -1;
  for (int which : ORDER) {
    used[which] = c.s.draw(2) == 2;
    if (!used[which]) continue;
    if (first < 0) first = which;
    outside += which != MAIN;
    size_t before = c.s.recorded().size();
    want[which] = phase(c.s, which, ops);
    PB_ASSERT(want[which].size() > 3 && want[which].compare(want[which].size() - 3, 3, "END") == 0, "in main:" << ops << ": " << want[which]);
    std::ostringstream o;
    for (size_t i = before; i < c.s.recorded().size(); ++i) o << c.s.recorded()[i] << " ";
    lib::spit(dir + "/plan." + std::to_string(which), o.str());
  }
  if (g_keep) {
    if (g_keep->w) kept++;
    if (g_keep->r) kept++;
    delete g_keep->w;
    delete g_keep->r;
    delete g_keep;
    g_keep = nullptr;
  }
  c.describe(ops.empty() ? "nothing" : ops.substr(1));
  if (first >= 0) {
    pid_t k = fork();
    if (k == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setenv("VERIF_C34", dir.c_str(), 1);
      alarm(120);
      execl("/proc/self/exe", "C34", static_cast<char *>(nullptr));
      _exit(78);
    }
    int st = 0;
    while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) throw pbt::Discard();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) throw pbt::Discard();
    for (int which : ORDER) {
      if (!used[which]) continue;
      std::string out = dir + "/out." + std::to_string(which);
      std::string got = access(out.c_str(), R_OK) == 0 ? lib::slurp(out) : "nothing: it did not end";
      PB_ASSERT(got == want[which], ops << ": in the " << PHASE[which] << ": " << got.substr(0, 600) << " instead of " << want[which].substr(0, 600));
    }
    PB_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, ops << ": the process ended with " << (WIFSIGNALED(st) ? "signal " : "status ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)));
  }
  for (int which : ORDER)
    if (used[which]) {
      unlink((dir + "/plan." + std::to_string(which)).c_str());
      unlink((dir + "/out." + std::to_string(which)).c_str());
      c.label(std::string("in: ") + PHASE[which]);
    }
  for (const char *n : {"kept.npz", "reader.npz"}) unlink((dir + "/" + n).c_str());
  if (first >= 0) c.label(std::string("first use: ") + PHASE[first]);
  if (kept) c.label("objects alive at the end");
  if (outside) c.nontrivial();
}
int main(int argc, char **argv) {
  if (g_child) return child_main();
  return pbt::run(argc, argv, {{"times", times, 1}},
                  "programs of 1 to 4 operations at each of a random subset of ten times in a process's life (before the library's own static objects are made, in a static object's constructor and a thread it starts, main, a forked process, thread-local and static destructors, exit handlers, the end of the process), with readers, writers, tensors and type codes that live across them, run in a new process and compared with the same operations within main; non-trivial: something is done outside main");
}
