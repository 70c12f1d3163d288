// C17, third part: entries of more than 2 and 4 GiB, for real.
#include "archives.h"
#include "npd.h"
#include <fcntl.h>
#include <unistd.h>
#include <zlib.h>

static const size_t BLOCK = 1 << 20;
static void block(uint64_t seed, uint64_t i, std::vector<uint8_t> &b) {
  // two thirds of the blocks are runs, so that deflating is quick
  b.assign(BLOCK, uint8_t(seed + i * 7));
  uint64_t x = seed ^ (i * 0x9E3779B97F4A7C15ull);
  for (size_t k = 0; k < BLOCK; k += 64) { x = x * 6364136223846793005ull + 1442695040888963407ull; b[k] = uint8_t(x >> 56); }
  b[0] = uint8_t(i), b[1] = uint8_t(i >> 8);
}
// A tensor of n bytes that are a function of (seed, index) and never stored.
struct Big {
  typedef std::uint8_t value_type;
  uint64_t n, seed;
  size_t ndim() const { return 1; }
  size_t shape(size_t) const { return n; }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t e) const { return npy::to_dtype(npy::data_type_t::UINT8, e); }
  void save(std::basic_ostream<char> &o, npy::endian_t) const {
    std::vector<uint8_t> b;
    for (uint64_t p = 0; p < n; p += BLOCK) {
      block(seed, p / BLOCK, b);
      o.write(reinterpret_cast<char *>(b.data()), std::streamsize(std::min<uint64_t>(BLOCK, n - p)));
    }
  }
  static uint64_t want_n, want_seed;
  static Big load(std::basic_istream<char> &in, const npy::header_info &h) {
    PB_ASSERT(h.dtype == npy::data_type_t::UINT8 && !h.fortran_order && h.shape.size() == 1 && h.shape[0] == want_n, "wrong header: " << lib::header_text(h));
    std::vector<uint8_t> b, g(BLOCK);
    for (uint64_t p = 0; p < want_n; p += BLOCK) {
      size_t k = std::min<uint64_t>(BLOCK, want_n - p);
      block(want_seed, p / BLOCK, b);
      in.read(reinterpret_cast<char *>(g.data()), std::streamsize(k));
      PB_ASSERT(size_t(in.gcount()) == k, "only " << p + size_t(in.gcount()) << " of " << want_n << " bytes");
      PB_ASSERT(!memcmp(b.data(), g.data(), k), "wrong contents in the block at byte " << p);
    }
    return Big{want_n, want_seed};
  }
};
uint64_t Big::want_n, Big::want_seed;

static bool enough_memory() {
  FILE *f = fopen("/proc/meminfo", "r");
  char l[200];
  unsigned long long kb = 0;
  while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break;
  if (f) fclose(f);
  return kb > 26ull * 1024 * 1024;
}
static void huge(pbt::Case &c) {
  static const uint64_t SIZES[] = {0x100000000ull + 4567, 0x8FFFFFFFull - 127, 0x8FFFFFFFull - 128, 0xFFFFFFFFull - 128, 0xFFFFFFFFull - 129, 0x80000000ull, 0x120000001ull};
  Big b{SIZES[c.s.weighted({12, 1, 1, 1, 1, 1, 1})], c.s.draw(255)};
  npy::compression_method_t m = draw_method(c.s);
  c.describe(std::string(method_name(m)) + ", a small entry, one of " + std::to_string(b.n) + " elements, a small entry");
  if (!enough_memory()) { c.label("skipped: not enough memory"); throw pbt::Discard(); }
  c.label(method_name(m));
  std::string path = pbt::scratch() + "/huge.npz";
  struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{path};
  Arr first = gen::small_array(c.s), last = gen::small_array(c.s);
  Model model;
  {
    npy::npzfilewriter w(path, m, npy::endian_t::NATIVE);
    lib::with_type(first.dt, [&](auto t) { w.write("first", lib::to_tensor<typename decltype(t)::type>(first)); });
    w.write("big", b);
    lib::with_type(last.dt, [&](auto t) { w.write("last.npy", lib::to_tensor<typename decltype(t)::type>(last)); });
    w.close();
  }
  // an independent reader
  std::string head;
  { std::ostringstream o; Big z{0, 0}; npy::write_npy_header(o, z.dtype(npy::endian_t::NATIVE), false, {size_t(b.n)}); head = o.str(); }
  uLong crc = ::crc32(0, reinterpret_cast<const Bytef *>(head.data()), uInt(head.size()));
  std::vector<uint8_t> blk;
  for (uint64_t p = 0; p < b.n; p += BLOCK) { block(b.seed, p / BLOCK, blk); crc = ::crc32(crc, blk.data(), uInt(std::min<uint64_t>(BLOCK, b.n - p))); }
  std::vector<npd::Listed> z;
  std::string err = npd::zlist(path, z);
  PB_ASSERT(err.empty(), "Python's zipfile rejects the archive: " << err);
  PB_ASSERT(z.size() == 3 && z[0].name == "first.npy" && z[1].name == "big.npy" && z[2].name == "last.npy", "Python's zipfile lists other entries");
  PB_ASSERT(z[1].size == b.n + head.size(), "Python's zipfile finds " << z[1].size << " bytes instead of " << b.n + head.size());
  PB_ASSERT(z[1].crc == crc, "Python's zipfile finds different contents");
  // the library
  npy::npzfilereader rd(path);
  PB_ASSERT(rd.keys().size() == 3, "keys() lists " << rd.keys().size() << " names");
  auto r = lib::make_reader_file(path, 0);
  check_arr(first, r->read("first", first.dt), "the entry before");
  check_arr(last, r->read("last", last.dt), "the entry after");
  Big::want_n = b.n;
  Big::want_seed = b.seed;
  rd.read<Big>("big");
  c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"huge", huge, 1}},
                  "archives with one entry of 2 to 4.5 GiB between two small ones, written to disk, read by Python's zipfile and by the library; non-trivial: all of it");
}
