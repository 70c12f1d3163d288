// C33: memory and input stay in proportion to the data a call is about.
#include "meter.h"
#include "archives.h"
#include <fcntl.h>

static long long bytes_read() { // by this process so far, from anywhere
  static int fd = open("/proc/self/io", O_RDONLY);
  char b[256];
  ssize_t n = pread(fd, b, sizeof b - 1, 0);
  if (n <= 0) return -1;
  b[n] = 0;
  const char *p = strstr(b, "rchar: ");
  return p ? atoll(p + 7) : -1;
}
// what one call used: the highest amount of memory above that before it, the
// amount still held after it, and the bytes it read from files
struct Use { long long peak, kept, read; };
template <class F> static Use use(F f) {
  Use u;
  long long r = bytes_read();
  long long own = bytes_read() - r; // of the measurement itself
  r = bytes_read();
  meter::start();
  f();
  u.peak = meter::peak();
  u.kept = meter::live();
  meter::stop();
  u.read = bytes_read() - r - own;
  return u;
}
const long long MiB = 1 << 20;
// Generous limits: a fixed amount for buffers and compression, and a multiple
// of what the call is about.
static void limit(const char *what, long long used, long long fixed, long long factor, long long about) {
  PB_ASSERT(used <= fixed + factor * about, what << " uses " << used << " bytes for " << about << " bytes of data (limit " << fixed << " + " << factor << " per byte)");
}
// bytes a tensor occupies
static long long weight(const Arr &a) {
  if (a.dt != US) return (long long)a.raw.size();
  long long n = 0;
  for (auto &s : a.strs) n += 4 * (long long)s.size() + 64;
  return n + (long long)(a.max_len() * 4 * a.count());
}
static Arr big_array(pbt::Source &s, size_t bytes) {
  Arr a;
  do a.dt = gen::dtype(s); while (a.dt == US);
  size_t n = bytes / DT_SIZE[a.dt];
  switch (s.draw(3)) {
  case 0: a.shape = {n}; break;
  case 1: a.shape = {n / 64, 64}; break;
  case 2: a.shape = {2, n / 2}; break;
  default: a.shape = {n / 100, 10, 10}; break;
  }
  a.fortran = s.coin();
  a.raw.resize(a.count() * DT_SIZE[a.dt]);
  pbt::Rng r(s.draw(1u << 30));
  unsigned kind = unsigned(s.draw(2));
  for (size_t i = 0; i + 8 <= a.raw.size(); i += 8) {
    uint64_t x = kind == 0 ? 0 : kind == 1 ? r.next() : r.next() & 0x0101010101010101ull;
    memcpy(&a.raw[i], &x, 8);
  }
  if (a.dt == B1) for (auto &b : a.raw) b &= 1;
  return a;
}
static size_t big_size(pbt::Source &s) { return size_t(1) << s.range(16, 23); }
struct File {
  std::string path;
  explicit File(const char *n) : path(pbt::scratch() + "/" + n) {}
  ~File() { unlink(path.c_str()); }
};

// NPY files behind paths and streams
static void npy_file(pbt::Case &c) {
  Arr a = c.s.chance(1, 3) ? entry_array(c.s, 8) : big_array(c.s, big_size(c.s));
  strip(a);
  npy::endian_t e = draw_endian(c.s);
  c.describe(a.text(1));
  File f("m.npy");
  const long long w = weight(a);
  lib::with_type(a.dt, [&](auto ty) {
    typedef typename decltype(ty)::type T;
    npy::tensor<T> t = lib::to_tensor<T>(a);
    Use u = use([&] { npy::save(f.path, t, e); });
    limit("saving to a path", u.peak, MiB, 16, w);
    limit("saving to a path, afterwards,", u.kept, 64 << 10, 0, w);
    std::string bytes = lib::slurp(f.path);
    const long long header = (long long)(bytes.size() - (a.dt == US ? a.max_len() * 4 * a.count() : a.raw.size()));
    u = use([&] { npy::peek(f.path); });
    limit("peeking a path", u.peak, MiB, 64, header);
    limit("peeking a path, read,", u.read, 128 << 10, 8, header);
    limit("peeking a path, afterwards,", u.kept, 64 << 10, 0, header);
    std::unique_ptr<npy::tensor<T>> p;
    u = use([&] { p.reset(new npy::tensor<T>(npy::load<npy::tensor<T>>(f.path))); });
    limit("loading a path", u.peak, MiB, 16, w + header);
    limit("loading a path, afterwards,", u.kept, 64 << 10, 6, w);
    limit("loading a path, read,", u.read, 128 << 10, 8, w + header);
    p.reset();
    std::istringstream i(bytes);
    u = use([&] { npy::peek(i); });
    limit("peeking a stream", u.peak, MiB, 64, header);
    u = use([&] { npy::tensor<T> x(t); npy::tensor<T> y(std::move(x)); x = y; });
    limit("copying", u.peak, MiB, 8, w);
    size_t n = 1 + size_t(c.s.draw(40));
    u = use([&] { for (size_t k = 0; k < n; ++k) { npy::peek(f.path); if (t.size()) t.ravel(std::vector<size_t>(t.ndim())); } });
    limit("repeated peeking, afterwards,", u.kept, 64 << 10, 0, header);
    return 0;
  });
  if (w > 60000) c.nontrivial();
  c.label(w > MiB ? "more than a megabyte" : "up to a megabyte");
}
// Archives with small and large entries: reading one is not about the others.
static void archive(pbt::Case &c) {
  std::vector<ZEntry> es;
  Model m;
  size_t n = 1 + size_t(c.s.draw(3)), bigs = 0;
  std::string text;
  for (size_t i = 0; i < n; ++i) {
    bool large = c.s.coin();
    bigs += large;
    Model::E x{gen::stored_name(gen::name(c.s, false)), large ? big_array(c.s, big_size(c.s) * 2) : entry_array(c.s, 30), c.s.coin()};
    strip(x.a);
    if (m.exact(x.name)) continue;
    ZEntry z;
    z.name = x.name;
    z.data = encode_npy(x.a, x.big);
    z.method = c.s.coin() ? 8 : 0;
    text += " " + x.a.text(1) + (z.method ? " deflated" : "");
    m.e.push_back(x);
    es.push_back(z);
  }
  if (c.s.chance(1, 4)) // many names
    for (size_t i = 0, k = 1 + c.s.draw(2000); i < k; ++i) {
      ZEntry z;
      z.name = "n" + std::to_string(i) + ".npy";
      z.data = "x";
      es.push_back(z);
    }
  std::string b = build_zip(es);
  long long dir = 22;
  for (auto &z : es) dir += 46 + (long long)z.name.size() + 200;
  c.describe(std::to_string(es.size()) + " entries:" + text);
  File f("m.npz");
  lib::spit(f.path, b);
  bool disk = c.s.coin();
  std::unique_ptr<npy::npzfilereader> fr;
  std::unique_ptr<npy::npzstringreader> mr;
  Use u = use([&] { if (disk) fr.reset(new npy::npzfilereader(f.path)); else mr.reset(new npy::npzstringreader(std::move(b))); });
  long long in_memory = disk ? 0 : (long long)lib::slurp(f.path).size();
  limit("opening an archive", u.peak, MiB, 16, dir + in_memory);
  limit("opening an archive, read,", u.read, 256 << 10, 64, dir);
  size_t k = 1 + size_t(c.s.draw(7));
  long long held = 0;
  for (size_t j = 0; j < k; ++j) {
    size_t i = c.s.draw(m.e.size() - 1);
    const Model::E &x = m.e[i];
    const long long w = weight(x.a) + (long long)es[i].data.size() + (long long)es[i].name.size();
    size_t op = c.s.draw(3);
    if (op == 0) u = use([&] { if (disk) fr->peek(x.name); else mr->peek(x.name); });
    else if (op == 1) u = use([&] { if (disk) fr->contains(x.name); else mr->contains(x.name); });
    else u = use([&] {
      lib::with_type(x.a.dt, [&](auto ty) {
        typedef typename decltype(ty)::type T;
        if (disk) fr->read<npy::tensor<T>>(x.name); else mr->read<npy::tensor<T>>(x.name);
        return 0;
      });
    });
    const char *what = op == 0 ? "peeking an entry" : op == 1 ? "contains" : "reading an entry";
    limit(what, u.peak, 8 * MiB, 24, op == 1 ? 0 : w);
    limit(what, u.read, 256 << 10, 8, op == 1 ? 0 : w);
    held += u.kept;
  }
  limit("a reader, between the calls,", held, 512 << 10, 0, 0);
  if (bigs && m.e.size() > 1) c.nontrivial();
  c.label(bigs == 0 ? "small entries" : bigs == n ? "large entries" : "small and large entries");
}
// Writers: a disk writer keeps the directory, a memory writer the archive.
static void writer(pbt::Case &c) {
  File f("w.npz");
  npy::compression_method_t m = draw_method(c.s);
  npy::endian_t e = draw_endian(c.s);
  bool disk = c.s.coin();
  std::unique_ptr<npy::npzfilewriter> fw;
  std::unique_ptr<npy::npzstringwriter> mw;
  long long kept = 0, total = 0, names = 0;
  Use u = use([&] { if (disk) fw.reset(new npy::npzfilewriter(f.path, m, e)); else mw.reset(new npy::npzstringwriter(m, e)); });
  kept += u.kept;
  size_t n = 1 + size_t(c.s.draw(7)), bigs = 0;
  for (size_t i = 0; i < n; ++i) {
    bool large = c.s.chance(1, 3);
    bigs += large;
    Arr a = large ? big_array(c.s, big_size(c.s)) : entry_array(c.s, 30);
    std::string name = gen::name(c.s, false);
    c.describe(a.text(1));
    const long long w = weight(a) + (long long)encode_npy(a, true).size() + (long long)name.size();
    lib::with_type(a.dt, [&](auto ty) {
      typedef typename decltype(ty)::type T;
      npy::tensor<T> t = lib::to_tensor<T>(a);
      u = use([&] { if (disk) fw->write(name, t); else mw->write(name, t); });
      return 0;
    });
    total += w;
    names += (long long)name.size() + 400;
    limit("writing an entry", u.peak, 8 * MiB, 24, w + (disk ? names : total));
    kept += u.kept;
    if (disk) limit("a disk writer, between the calls,", kept, 512 << 10, 8, names);
    else limit("a memory writer, between the calls,", kept, 512 << 10, 8, total + names);
  }
  u = use([&] { if (disk) fw->close(); else mw->close(); });
  limit("closing a writer", u.peak, MiB, 16, names + (disk ? 0 : total));
  if (bigs) c.nontrivial();
  c.label(disk ? "disk writer" : "memory writer");
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"npy", npy_file, 4}, {"archive", archive, 4}, {"writer", writer, 4}},
                  "arrays to 8 MB, archives of small and large (to 16 MB) entries and up to 2000 names, writers with up to 8 entries; the highest memory use above that before the call, the memory still held after it, and the bytes read from files are compared with generous multiples of what the call is about; non-trivial: arrays above 60000 bytes, archives with a large entry beside another, writers with a large entry");
}
