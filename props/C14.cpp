// C14: written NPZ archives are valid ZIP files that NumPy reads identically.
#include "validzip.h"

// Text at the edges of UTF-8's ranges, nearly UTF-8, and other encodings.
static std::string foreign_name(pbt::Source &s) {
  std::string r;
  size_t n = 1 + s.draw(4);
  int bad = s.chance(1, 2) ? int(s.draw(n - 1)) : -1;
  for (size_t i = 0; i < n; ++i) {
    if (int(i) == bad) { // not UTF-8: lone bytes, overlong, surrogates, beyond Unicode, cut short
      static const char *const BAD[] = {"\x80", "\xbf", "\xe9", "\xff", "\xc0\xaf", "\xc1\xbf", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xe2\x82", "\xf0\x9f\x98", "\xc3", "\xfc\x80\x80\x80\x80\x80"};
      r += BAD[s.draw(15)];
      continue;
    }
    static const uint32_t EDGE[] = {'a', 0x7E, 0x80, 0xE9, 0x7FF, 0x800, 0xFFF, 0x1000, 0x20AC, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF};
    uint32_t u = s.coin() ? EDGE[s.draw(18)] : uint32_t(s.range(0x80, 0xD7FF));
    if (u < 0x80) r += char(u);
    else if (u < 0x800) r += {char(0xC0 | u >> 6), char(0x80 | (u & 63))};
    else if (u < 0x10000) r += {char(0xE0 | u >> 12), char(0x80 | (u >> 6 & 63)), char(0x80 | (u & 63))};
    else r += {char(0xF0 | u >> 18), char(0x80 | (u >> 12 & 63)), char(0x80 | (u >> 6 & 63)), char(0x80 | (u & 63))};
  }
  return s.coin() ? r + ".npy" : r;
}
static void valid(pbt::Case &c) {
  Model m;
  npy::endian_t e = draw_endian(c.s);
  npy::compression_method_t method = draw_method(c.s);
  bool disk = c.s.coin();
  std::string path = pbt::scratch() + "/v.npz";
  auto w = lib::make_writer(disk ? path : "", method, e, int(c.s.draw(2)));
  size_t n = c.s.chance(1, 25) ? c.s.draw(100) : c.s.weighted({1, 3, 4, 4, 3, 2, 1});
  std::string text = std::string(method_name(method)) + " " + endian_name(e) + (disk ? " disk" : " memory");
  for (size_t i = 0; i < n; ++i) {
    std::string name = gen::name(c.s, !c.s.chance(1, 4));
    if (c.s.chance(1, 6)) name = foreign_name(c.s), c.label("a name beyond ASCII");
    if (c.s.chance(1, 20)) { // up to the longest the format can hold
      static const size_t L[] = {251, 252, 255, 256, 4095, 32763, 32764, 32767, 32768, 40000, 65530, 65531};
      name = std::string(L[c.s.draw(11)], char(c.s.range('a', 'z')));
    }
    if (m.exact(gen::stored_name(name)) && name.size() < 60000 && !c.s.chance(1, 10)) name += std::to_string(i);
    Model::E x{gen::stored_name(name), entry_array(c.s, 15), is_big(e)};
    w->write(name, x.a);
    m.e.push_back(x);
    text += " " + short_name(name) + "=" + x.a.text(1);
    gen::classify(c, x.a);
  }
  if (c.s.coin() || !disk) w->close();
  std::string bytes = w->bytes();
  w.reset();
  if (disk) unlink(path.c_str());
  c.describe(text);
  c.label(std::string(disk ? "disk, " : "memory, ") + method_name(method));
  if (n) c.nontrivial();
  check_zip(bytes, 0, m, method, e);
  check_numpy(bytes, false, m);
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"valid", valid, 1}},
                  "an archive of 0 to 100 arrays written to disk or memory, stored or deflated, parsed by an independent strict PKZIP/NPY reader, by Python's zipfile (testzip) and by NumPy; non-trivial: it has entries");
}
