// C18: damage within large entries.
#include "bigs.h"

static void big(pbt::Case &c) {
  Big b = big_model(c, 24);
  auto w = lib::make_writer("", b.method, b.e);
  for (auto &x : b.m.e) w->write(x.name, x.a);
  w->close();
  std::string bytes = w->bytes();
  w.reset();
  for (int q = 0; q < 6; ++q) {
    std::string bad = bytes;
    size_t at = c.s.coin() ? size_t(c.s.draw(bytes.size() - 1)) : std::min(bytes.size() - 1, size_t(c.s.size(bytes.size() - 1)));
    if (c.s.chance(1, 4)) at = std::min(bytes.size() - 1, 35 + b.m.e[0].a.raw.size() + 128 - 1 - c.s.draw(9)); // the last bytes of a stored entry
    bad[at] = char(bad[at] ^ (1 << c.s.draw(7)));
    std::unique_ptr<lib::Reader> rd;
    lib::Result r = lib::attempt([&](lib::Result &) { rd = lib::make_reader_mem(bad); });
    PB_ASSERT(r.k != lib::Result::NONSTD, "opening threw " << r.what);
    if (r.k != lib::Result::OK) continue;
    for (auto &x : b.m.e) {
      r = lib::attempt([&](lib::Result &r) { r.arr = rd->read(x.name, x.a.dt); });
      PB_ASSERT(r.k != lib::Result::NONSTD, "read threw " << r.what);
      if (r.k == lib::Result::OK) check_arr(x.a, r.arr, "with the byte at " + std::to_string(at) + " of " + std::to_string(bad.size()) + " damaged, entry " + x.name);
    }
  }
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"big", big, 1}}, "an archive with an entry of 1 to 30 MiB, six times with one damaged byte; non-trivial: all");
}
