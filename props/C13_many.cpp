// C13, C14 and C17: archives with a very large number of entries.
#include "validzip.h"

static void archive(pbt::Case &c, size_t n) {
  bool disk = c.s.coin();
  npy::endian_t e = draw_endian(c.s);
  std::string path = pbt::scratch() + "/many.npz";
  c.describe(std::to_string(n) + " entries " + (disk ? "on disk" : "in memory"));
  c.label("entries: " + std::to_string(n));
  c.nontrivial();
  // deflating allocates large buffers per entry: stored only
  auto w = lib::make_writer(disk ? path : "", npy::compression_method_t::STORED, e);
  Arr a;
  a.dt = U4;
  a.raw.resize(4);
  for (size_t i = 0; i < n; ++i) {
    uint32_t v = uint32_t(i * 2654435761u);
    memcpy(a.raw.data(), &v, 4);
    w->write("e" + std::to_string(i), a);
  }
  w->close();
  std::string bytes = w->bytes();
  w.reset();
  auto rd = disk ? lib::make_reader_file(path) : lib::make_reader_mem(bytes);
  PB_ASSERT(rd->keys().size() == n, "keys() lists " << rd->keys().size() << " of " << n << " names");
  std::set<std::string> names(rd->keys().begin(), rd->keys().end());
  for (size_t i = 0; i < n; ++i) PB_ASSERT(names.count("e" + std::to_string(i) + ".npy"), "keys() lacks e" << i << ".npy");
  for (size_t q = 0; q < 3000; ++q) {
    size_t i = q < 50 ? q : q < 100 ? n - 1 - (q - 50) : c.s.draw(n - 1);
    uint32_t v = uint32_t(i * 2654435761u);
    memcpy(a.raw.data(), &v, 4);
    check_arr(a, rd->read("e" + std::to_string(i), U4), "entry " + std::to_string(i));
  }
  PB_ASSERT(!rd->contains("e" + std::to_string(n) + ".npy"), "an absent name is contained");
  // an independent reader
  std::vector<ZParsed> z;
  std::string err = parse_zip(bytes, z);
  PB_ASSERT(err.empty(), "not a valid ZIP archive: " << err);
  PB_ASSERT(z.size() == n, "an independent reader finds " << z.size() << " entries");
  if (n <= 2000) { // NumPy is asked about the smaller ones
    Model m;
    for (size_t i = 0; i < n; ++i) {
      uint32_t v = uint32_t(i * 2654435761u);
      memcpy(a.raw.data(), &v, 4);
      m.e.push_back({"e" + std::to_string(i) + ".npy", a, is_big(e)});
    }
    check_numpy(bytes, false, m);
  }
  unlink(path.c_str());
}
static void many(pbt::Case &c) {
  static const size_t around[] = {65534, 65535, 65536, 65537, 70000, 32768, 131072};
  archive(c, around[c.s.draw(6)]);
}
static void hundreds(pbt::Case &c) {
  size_t n = c.s.coin() ? c.s.range(250, 260) : c.s.range(100, 1200);
  if (c.s.chance(1, 4)) n = (size_t(1) << c.s.range(9, 13)) + c.s.draw(2) - 1;
  archive(c, n);
}
// archives of others with as many entries; 65535 may be a count or a placeholder
static void foreign(pbt::Case &c) {
  static const size_t around[] = {65535, 65536, 65534, 65537, 70000, 32768, 131072, 200};
  size_t n = around[c.s.draw(7)];
  std::vector<ZEntry> es(n);
  Arr a;
  a.dt = U4;
  a.raw.resize(4);
  bool big = c.s.coin(), local = c.s.coin();
  int central = c.s.coin() ? int(c.s.draw(7)) : 0;
  for (size_t i = 0; i < n; ++i) {
    uint32_t v = uint32_t(i * 2654435761u);
    memcpy(a.raw.data(), &v, 4);
    es[i].name = "e" + std::to_string(i) + ".npy";
    es[i].data = encode_npy(a, big);
    es[i].z64_local = local;
    es[i].z64_central = central;
  }
  ZOpts o;
  o.z64_end = n > 65535 || c.s.coin();
  if (o.z64_end) o.z64_ph = n > 65535 ? 1 | int(c.s.draw(3)) << 1 : int(c.s.draw(7));
  c.describe("another's archive of " + std::to_string(n) + " entries" + (o.z64_end ? ", ZIP64 end record, placeholders " + std::to_string(o.z64_ph) : ", classic end record"));
  c.label("foreign entries: " + std::to_string(n));
  c.nontrivial();
  std::string bytes = build_zip(es, o);
  bool disk = c.s.coin();
  std::string path = pbt::scratch() + "/many.npz";
  if (disk) lib::spit(path, bytes);
  auto rd = disk ? lib::make_reader_file(path) : lib::make_reader_mem(bytes);
  PB_ASSERT(rd->keys().size() == n, "keys() lists " << rd->keys().size() << " of " << n << " names");
  for (size_t q = 0; q < 300; ++q) {
    size_t i = q < 50 ? q : q < 100 ? n - 1 - (q - 50) : c.s.draw(n - 1);
    uint32_t v = uint32_t(i * 2654435761u);
    memcpy(a.raw.data(), &v, 4);
    check_arr(a, rd->read("e" + std::to_string(i), U4), "entry " + std::to_string(i));
  }
  unlink(path.c_str());
}
int main(int argc, char **argv) {
  bool all = false;
  for (int i = 1; i < argc; ++i) all |= !strcmp(argv[i], "C17");
  std::vector<pbt::Prop> p = {{"many", many, 1}, {"hundreds", hundreds, 2}};
  if (all) p = {{"many", many, 1}, {"foreign", foreign, 2}};
  return pbt::run(argc, argv, p, "an archive of 100 to 8193 or of about 2^15, 2^16 or 2^17 entries listed completely, 3000 of them read, and parsed by an independent reader and up to 2000 entries by NumPy; C17: also archives of others with 65534 and more entries and any placeholders in the end records; non-trivial: all");
}
