// C31: what is written depends only on what is saved: not on the time, the
// process, earlier or interleaved work, the contents of fresh memory, or the
// object the elements are in.
#include "archives.h"
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <thread>

// ---- the clock and fresh memory, as the library sees them
static long g_shift = 0;
static int g_fill = -1;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
  long r = syscall(SYS_clock_gettime, id, t);
  if (!r && id == CLOCK_REALTIME) t->tv_sec += g_shift;
  return int(r);
}
extern "C" int gettimeofday(struct timeval *t, void *) noexcept {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) t->tv_sec = s.tv_sec, t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t *p) noexcept {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (p) *p = s.tv_sec;
  return s.tv_sec;
}
// the environment: with g_env, every variable is set to it
static const char *g_env = nullptr;
extern char **environ;
extern "C" char *getenv(const char *name) noexcept {
  if (g_env) return const_cast<char *>(g_env);
  size_t n = strlen(name);
  for (char **e = environ; e && *e; ++e)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
extern "C" char *secure_getenv(const char *name) noexcept { return getenv(name); }
static void *fresh(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (g_fill >= 0) memset(p, g_fill, n);
  return p;
}
void *operator new(size_t n) { return fresh(n); }
void *operator new[](size_t n) { return fresh(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
// stack below the caller left with a pattern
__attribute__((noinline)) static void dirty_stack(int v) {
  volatile char b[200000];
  for (size_t i = 0; i < sizeof b; ++i) b[i] = char(v);
}

struct Plan {
  std::vector<std::pair<std::string, Arr>> items;
  npy::endian_t e;
  npy::compression_method_t m;
};
// the tensor of an array, made in one of several ways
template <class T> npy::tensor<T> made(const Arr &a, int how) {
  switch (how) {
  case 0: return lib::to_tensor<T>(a);
  case 1: { // assigned over another
    npy::tensor<T> t({7, 3}, !a.fortran);
    t = lib::to_tensor<T>(a);
    return t;
  }
  case 2: { // element by element
    npy::tensor<T> t(a.shape, a.fortran);
    std::vector<T> v = lib::to_values<T>(a);
    for (size_t i = v.size(); i-- > 0;) t.data()[i] = v[i];
    return t;
  }
  case 3: { // loaded from a file of the other byte order
    std::istringstream in(encode_npy(a, true));
    return npy::load<npy::tensor<T>>(in);
  }
  case 4: { // moved in
    npy::tensor<T> t(a.shape, a.fortran);
    std::vector<T> v = lib::to_values<T>(a);
    v.reserve(v.size() * 2 + 10);
    t.move_from(std::move(v));
    npy::tensor<T> u(std::move(t));
    return u;
  }
  default: { // strings with other capacities, elements overwritten
    npy::tensor<T> t(a.shape, a.fortran);
    std::vector<T> v = lib::to_values<T>(a);
    for (size_t i = 0; i < v.size(); ++i) { t.data()[i] = v[v.size() - 1 - i]; t.data()[i] = v[i]; }
    npy::tensor<T> u(t);
    return u;
  }
  }
}
// all NPY files and the archive of a plan, in one string
static std::string produce(const Plan &p, int how, const std::string &disk, int ctor, int dest = 0, uint64_t state = 0) {
  std::string r;
  for (auto &x : p.items)
    lib::with_type(x.second.dt, [&](auto t) {
      typedef typename decltype(t)::type T;
      npy::tensor<T> v = made<T>(x.second, how);
      std::string path = pbt::scratch() + "/" + std::string(1 + state % 90, 'n');
      auto put = [&](std::ostream &o) {
        if (state & 256) o.fill(char(state));
        if (state & 512) o.width(std::streamsize(state & 31));
        if (state & 1024) o.flags(std::ios::hex | std::ios::showbase | std::ios::left | std::ios::uppercase | std::ios::unitbuf);
        if (state & 2048) o.precision(std::streamsize(state & 7)), o.setf(std::ios::showpos);
        npy::save(o, v, p.e);
      };
      if (dest <= 1) {
        std::ostringstream o;
        std::string before(dest ? state % 100 : 0, 'b');
        o << before;
        put(o);
        std::string all = o.str();
        PB_ASSERT(all.compare(0, before.size(), before) == 0, "earlier bytes of the stream have changed");
        r += all.substr(before.size());
        return;
      }
      if (dest == 2) { std::ofstream o(path, std::ios::binary); put(o); }
      else if (dest == 3) npy::save(path, v, p.e);
      else v.save(path, p.e);
      r += lib::slurp(path);
      unlink(path.c_str());
    });
  auto put = [&](auto &w) {
    for (auto &x : p.items)
      lib::with_type(x.second.dt, [&](auto t) { w.write(x.first, made<typename decltype(t)::type>(x.second, how)); });
    w.close();
  };
  if (disk.empty()) {
    npy::npzstringwriter w(p.m, p.e);
    put(w);
    r += w.str();
  } else {
    { std::unique_ptr<npy::npzfilewriter> w = ctor ? std::make_unique<npy::npzfilewriter>(disk.c_str(), p.m, p.e) : std::make_unique<npy::npzfilewriter>(disk, p.m, p.e);
      put(*w); }
    r += lib::slurp(disk);
    unlink(disk.c_str());
  }
  return r;
}
// other work with the library, some of it failing
static void work(pbt::Source &s, std::string &text) {
  size_t k = s.draw(3);
  for (size_t i = 0; i < k; ++i) {
    Arr a = entry_array(s, 20);
    size_t op = s.draw(5);
    static const char *W[] = {"save", "archive", "damaged archive", "wrong type", "cut file", "unfinished archive"};
    text += std::string(" ") + W[op];
    lib::attempt([&](lib::Result &) {
      npy::endian_t e = draw_endian(s);
      if (op == 0) lib::save(a, e);
      else if (op == 3) lib::load_bytes(lib::save(a, e), gen::dtype(s));
      else if (op == 4) { std::string b = lib::save(a, e); lib::load_bytes(b.substr(0, s.draw(b.size())), a.dt); }
      else {
        auto w = lib::make_writer("", draw_method(s), e);
        w->write(gen::name(s, true), a);
        w->write("second", a);
        if (op == 5) return;
        w->close();
        std::string b = w->bytes();
        if (op == 2) b[s.draw(b.size() - 1)] ^= char(1 + s.draw(254));
        auto rd = lib::make_reader_mem(b, 0);
        for (auto &n : rd->keys()) rd->read(n, a.dt, 0);
      }
    });
  }
}
static void reproduce(pbt::Case &c) {
  Plan p;
  p.e = draw_endian(c.s);
  p.m = draw_method(c.s);
  size_t n = 1 + c.s.draw(3);
  std::string text = std::string(method_name(p.m)) + " " + endian_name(p.e);
  for (size_t i = 0; i < n; ++i) {
    std::string name = gen::name(c.s, true);
    Arr a = entry_array(c.s, 15);
    strip(a);
    p.items.push_back({name, a});
    text += " " + short_name(name) + "=" + a.text(1);
  }
  static const int FILL[] = {0, 0xFF, 0xA5, 0x20, 1};
  g_fill = FILL[c.s.draw(4)];
  g_shift = 0;
  std::string first = produce(p, 0, "", 0);
  size_t runs = 1 + c.s.draw(2);
  text += " |";
  for (size_t i = 0; i < runs; ++i) {
    work(c.s, text);
    g_fill = FILL[c.s.draw(4)];
    g_shift = long(c.s.draw(4000000000ull)) - 1700000000;
    int how = int(c.s.draw(5));
    std::string disk = c.s.coin() ? pbt::scratch() + "/" + std::string(1 + c.s.draw(60), 'p') : "";
    int ctor = int(c.s.draw(1));
    size_t where = c.s.weighted({4, 1, 1});
    int dest = int(c.s.draw(4));
    uint64_t state = c.s.draw(4095);
    dirty_stack(FILL[c.s.draw(4)]);
    static const char *const ENV[] = {nullptr, "1", "0", "", "100000", "-1", "9", "yes", "big", "1700000000", "/tmp"};
    const char *env = ENV[c.s.draw(10)];
    mode_t mask = mode_t(c.s.draw(0777)), old_mask = umask(geteuid() ? mask & 0177 : mask);
    g_env = env;
    std::string again, err;
    if (where == 0) again = produce(p, how, disk, ctor, dest, state);
    else if (where == 1) { // another thread
      std::thread t([&] { try { again = produce(p, how, disk, ctor, dest, state); } catch (const std::exception &e) { err = e.what(); } });
      t.join();
      PB_ASSERT(err.empty(), "saving in another thread threw " << err);
    } else { // another process, environment and directory
      std::string out = pbt::scratch() + "/child";
      pid_t k = fork();
      if (k == 0) {
        setenv("TZ", "Asia/Kathmandu", 1);
        setenv("SOURCE_DATE_EPOCH", "1", 1);
        setenv("LANG", "de_DE.UTF-8", 1);
        if (chdir("/")) _exit(3);
        umask(077);
        try { lib::spit(out, produce(p, how, disk, ctor, dest, state)); } catch (...) { _exit(2); }
        _exit(0);
      }
      int st = 0;
      waitpid(k, &st, 0);
      PB_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "saving in another process failed with status " << st);
      again = lib::slurp(out);
      unlink(out.c_str());
    }
    g_env = nullptr;
    umask(old_mask);
    if (env) text += std::string(" every variable '") + env + "'";
    static const char *WH[] = {"same thread", "another thread", "another process"};
    text += std::string(" again(") + WH[where] + ", way " + std::to_string(how) + ", destination " + std::to_string(dest) + "/" + std::to_string(state) + (disk.empty() ? "" : ", disk") + ")";
    c.label(WH[where]);
    g_shift = 0;
    g_fill = -1;
    check_bytes(first, again, "the same data saved again (" + std::string(WH[where]) + ", tensor made in way " + std::to_string(how) + ", to destination " + std::to_string(dest) + ") gives other bytes");
  }
  c.describe(text);
  c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"reproduce", reproduce, 1}},
                  "1 to 4 arrays saved as files and in an archive, again after other work (some failing), with the tensors made in six ways, to memory and disk, to streams in odd formatting states and with bytes before, with the clock shifted, fresh memory and stack filled with other patterns, with every environment variable set to one of ten values and other umasks, in another thread or another process with another environment and directory; all bytes must be equal; non-trivial: all of it");
}
