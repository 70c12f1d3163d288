// C17, first part: archives beyond a (lowered) limit use ZIP64 records and are
// valid; the library's sources are compiled with the ZIP64 limit as a variable.
#include "validzip.h"

std::uint64_t verif_zip64_limit = 0x8FFFFFFF;

static void hooked(pbt::Case &c) {
  static const uint64_t LIM[] = {0x8FFFFFFF, 100, 0, 10, 128, 150, 192, 300, 500, 1000, 3000, 30000, 200000};
  uint64_t lim = c.s.pick(std::vector<uint64_t>(LIM, LIM + 13));
  if (lim && lim < 1000000 && c.s.chance(1, 3)) lim += c.s.draw(64);
  verif_zip64_limit = lim;
  Model m;
  npy::endian_t e = draw_endian(c.s);
  npy::compression_method_t method = draw_method(c.s);
  bool disk = c.s.coin();
  std::string path = pbt::scratch() + "/v.npz";
  auto w = lib::make_writer(disk ? path : "", method, e, int(c.s.draw(2)));
  size_t n = c.s.chance(1, 25) ? c.s.draw(100) : c.s.weighted({1, 3, 4, 4, 3, 2, 1});
  std::string text = "limit " + std::to_string(lim) + " " + method_name(method) + " " + endian_name(e) + (disk ? " disk" : " memory");
  for (size_t i = 0; i < n; ++i) {
    std::string name = gen::name(c.s, true);
    if (m.exact(gen::stored_name(name)) && !c.s.chance(1, 10)) name += std::to_string(i);
    Model::E x{gen::stored_name(name), entry_array(c.s, 15), is_big(e)};
    w->write(name, x.a);
    m.e.push_back(x);
    text += " " + short_name(name) + "=" + x.a.text(1);
  }
  if (c.s.coin() || !disk) w->close();
  std::string bytes = w->bytes();
  w.reset();
  c.describe(text);
  std::vector<ZParsed> z = check_zip(bytes, 0, m, method, e);
  size_t loc = 0, cen = 0;
  for (auto &x : z) {
    loc += x.z64_local;
    cen += x.z64_central;
    // what the classic fields cannot hold must be in ZIP64 fields
    PB_ASSERT(x.z64_central || (x.offset <= lim && x.data.size() <= lim && x.comp.size() <= lim), "entry " << short_name(x.name) << " is beyond the limit of the classic fields but has no ZIP64 extra field in the directory");
    PB_ASSERT(x.z64_local || (x.data.size() <= lim && x.comp.size() <= lim), "entry " << short_name(x.name) << " is beyond the limit of the classic fields but has no ZIP64 extra field in its local header");
  }
  if (loc || cen) c.nontrivial();
  c.label(loc == 0 ? "local ZIP64 fields: none" : loc == n ? "local ZIP64 fields: all entries" : "local ZIP64 fields: some entries");
  c.label(cen == 0 ? "central ZIP64 fields: none" : cen == n ? "central ZIP64 fields: all entries" : "central ZIP64 fields: some entries");
  bool end64 = bytes.size() >= 42 && bytes.substr(bytes.size() - 42, 4) == "PK\6\7";
  c.label(end64 ? "ZIP64 end record" : "classic end record");
  check_numpy(bytes, false, m);
  if (disk && c.s.coin()) check_reader(*lib::make_reader_file(path, int(c.s.draw(2))), m, c.s, "file reader");
  else check_reader(*lib::make_reader_mem(bytes, int(c.s.draw(1))), m, c.s, "memory reader");
  if (disk) unlink(path.c_str());
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"hooked", hooked, 1}},
                  "archives as in C14 written with the ZIP64 limit lowered to 0 to 200000 bytes; parsed strictly, by Python's zipfile, NumPy and the library; non-trivial: ZIP64 fields were used");
}
