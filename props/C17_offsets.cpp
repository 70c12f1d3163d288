// C17, second part: real 64-bit offsets in sparse files, and ZIP64 archives
// written by others.
#include "validzip.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>

// A file whose path is g_shift_path is opened for writing with its position
// moved to g_shift, as if that much had been written before.
static std::string g_shift_path;
static uint64_t g_shift;
static FILE *open_shifted(const char *path, const char *mode) {
  typedef FILE *(*Fn)(const char *, const char *);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "fopen64"));
  FILE *f = real(path, mode);
  if (f && g_shift && g_shift_path == path && mode[0] == 'w') {
    if (ftruncate64(fileno(f), off64_t(g_shift)) != 0 || lseek64(fileno(f), off64_t(g_shift), SEEK_SET) < 0) abort();
  }
  return f;
}
extern "C" FILE *fopen(const char *path, const char *mode) { return open_shifted(path, mode); }
extern "C" FILE *fopen64(const char *path, const char *mode) { return open_shifted(path, mode); }

static std::string tail(const std::string &path, uint64_t from) {
  int fd = open(path.c_str(), O_RDONLY);
  off64_t end = lseek64(fd, 0, SEEK_END);
  std::string r;
  if (end > 0 && uint64_t(end) > from) {
    PB_ASSERT(uint64_t(end) - from < (64u << 20), "the archive has " << end << " bytes");
    r.resize(uint64_t(end) - from);
    size_t p = 0;
    while (p < r.size()) {
      ssize_t k = pread64(fd, &r[p], r.size() - p, off64_t(from + p));
      if (k <= 0) break;
      p += size_t(k);
    }
  }
  close(fd);
  return r;
}
// around the limits of signed and unsigned 32-bit fields and of the library's
// own limit; never a multiple of 2^32, so that a truncated offset is not valid
static uint64_t draw_offset(pbt::Source &s) {
  static const uint64_t B[] = {1000, 0x7FFFFFFF, 0x8FFFFFFF, 0xFFFFFFFF, 0x140001000, 0x180000000, 0x27FFFFFFF, 0x480000000, 0x10001234567};
  uint64_t b = B[s.draw(8)];
  switch (s.draw(3)) {
  case 0: return b + 4096 + s.draw(5000);
  case 1: return b - 600 + s.draw(300);     // entries straddle the limit
  case 2: return b - 300 + s.draw(290);
  default: return b + 1 + s.draw(8);
  }
}
static void written(pbt::Case &c) {
  g_shift = draw_offset(c.s);
  if (g_shift % 0x100000000ull < 64) g_shift += 64;
  g_shift_path = pbt::scratch() + "/shift.npz";
  Model m;
  npy::endian_t e = draw_endian(c.s);
  npy::compression_method_t method = draw_method(c.s);
  auto w = lib::make_writer(g_shift_path, method, e, int(c.s.draw(2)));
  size_t n = c.s.weighted({1, 3, 4, 4, 3, 2, 1});
  std::string text = "starting at " + std::to_string(g_shift) + " " + method_name(method) + " " + endian_name(e);
  for (size_t i = 0; i < n; ++i) {
    Model::E x{gen::stored_name(gen::name(c.s, true) + std::to_string(i)), entry_array(c.s, 15), is_big(e)};
    w->write(x.name, x.a);
    m.e.push_back(x);
    text += " " + short_name(x.name) + "=" + x.a.text(1);
  }
  if (c.s.coin()) w->close();
  w.reset();
  c.describe(text);
  uint64_t base = g_shift;
  g_shift = 0;
  std::string bytes = tail(g_shift_path, base);
  std::vector<ZParsed> z;
  if (bytes.empty()) { unlink(g_shift_path.c_str()); throw pbt::Discard(); } // the shift did not take effect
  if (!parse_zip(bytes, z, base).empty() && parse_zip(bytes, z).empty()) { unlink(g_shift_path.c_str()); throw pbt::Discard(); } // counts its own offsets
  z = check_zip(bytes, base, m, method, e);
  size_t far = 0;
  for (auto &x : z) far += x.offset > 0xFFFFFFFE;
  c.label(far == 0 ? "offsets beyond 4 GiB: none" : far == n ? "offsets beyond 4 GiB: all" : "offsets beyond 4 GiB: some");
  if (base + bytes.size() > 0x7FFFFFFF) c.nontrivial();
  check_numpy(g_shift_path, true, m);
  {
    auto rd = lib::make_reader_file(g_shift_path, int(c.s.draw(2)));
    check_reader(*rd, m, c.s, "file reader");
  }
  unlink(g_shift_path.c_str());
}

static void foreign(pbt::Case &c) {
  Model m;
  std::vector<ZEntry> es;
  ZOpts o;
  bool sparse = c.s.coin();
  size_t n = c.s.weighted({1, 3, 4, 4, 3, 2, 1});
  if (sparse && c.s.coin()) o.base = draw_offset(c.s);
  std::string text = sparse ? "sparse file" : "plain";
  bool z64 = false;
  for (size_t i = 0; i < n; ++i) {
    Model::E x{gen::stored_name(gen::name(c.s, false) + std::to_string(i)), entry_array(c.s, 25), c.s.coin()};
    strip(x.a);
    ZEntry z;
    z.name = x.name;
    z.data = encode_npy(x.a, x.big);
    z.method = c.s.coin() ? 8 : 0;
    z.z64_local = c.s.coin();
    z.descriptor = c.s.chance(1, 5);
    z.z64_central = int(c.s.draw(7));
    z64 |= z.z64_local || z.z64_central;
    if (sparse && c.s.chance(1, 3)) z.gap = draw_offset(c.s);
    text += " " + short_name(x.name) + "(local " + (z.z64_local ? "z64" : "-") + ", central " + std::to_string(z.z64_central) + (z.gap ? ", gap " + std::to_string(z.gap) : "") + ")=" + x.a.text(1);
    m.e.push_back(x);
    es.push_back(z);
  }
  for (size_t i = 0; i < n; ++i) o.order.push_back(i);
  if (c.s.coin()) for (size_t i = n; i > 1; --i) std::swap(o.order[i - 1], o.order[c.s.draw(i - 1)]);
  o.z64_end = c.s.coin();
  if (o.z64_end) {
    o.z64_ph = int(c.s.draw(7));
    if (c.s.chance(1, 4)) o.z64_sector = std::string(c.s.draw(40), 'S');
    z64 = true;
  }
  text += o.z64_end ? ", ZIP64 end record, placeholders " + std::to_string(o.z64_ph) + ", sector " + std::to_string(o.z64_sector.size()) : ", classic end record";
  c.describe(text);
  std::vector<Chunk> ch = build_chunks(es, o);
  uint64_t end = ch.back().at + ch.back().bytes.size();
  c.label(end > 0xFFFFFFFF ? "beyond 4 GiB" : end > 0x7FFFFFFF ? "beyond 2 GiB" : "small");
  c.label(o.z64_end ? "ZIP64 end record" : "classic end record");
  if (z64 || end > 0x7FFFFFFF) c.nontrivial();
  std::string path = pbt::scratch() + "/foreign.npz";
  bool file = end > (32u << 20) || c.s.coin();
  if (file) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    for (auto &k : ch)
      if (pwrite64(fd, k.bytes.data(), k.bytes.size(), off64_t(k.at)) != ssize_t(k.bytes.size())) abort();
    close(fd);
    if (!o.base && c.s.chance(1, 8)) { // the harness's own encoder is judged, too
      std::vector<npd::Named> got;
      std::string err = npd::zload_path(path, got);
      if (!err.empty()) { fprintf(stderr, "harness error: zipfile rejects the reference archive: %s\n", err.c_str()); _exit(78); }
    }
    auto rd = lib::make_reader_file(path, int(c.s.draw(2)));
    check_reader(*rd, m, c.s, "file reader");
    unlink(path.c_str());
  } else {
    std::string b;
    for (auto &k : ch) { b.resize(k.at); b += k.bytes; }
    auto rd = lib::make_reader_mem(b, int(c.s.draw(1)));
    check_reader(*rd, m, c.s, "memory reader");
  }
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"written", written, 1}, {"foreign", foreign, 1}},
                  "written: archives a disk writer produces when its file position starts at an offset around 2^31, the library's own limit, 2^32 and beyond (sparse files); foreign: archives of the harness's own encoder with any subset of ZIP64 fields in local, central and end records, entries and directory up to and beyond 4 GiB into the file; non-trivial: reaches beyond 2 GiB or has ZIP64 fields");
}
