// C04: all conforming spellings of an NPY header mean the same thing.
#include "common.h"
using namespace ref;

static std::string sp(pbt::Source &s) {
  switch (s.weighted({60, 30, 9, 2})) {
  case 0: return "";
  case 1: return " ";
  case 3: { // any white space a Python literal may have between its tokens
    std::string r;
    for (size_t k = s.draw(3); k > 0; --k) r += " \t\n\r"[s.draw(3)];
    return r;
  }
  default: return std::string(s.draw(9), ' ');
  }
}
static std::string spell_shape(pbt::Source &s, const gen::Shape &sh) {
  std::string r = "(" + sp(s);
  for (size_t i = 0; i < sh.size(); ++i) {
    if (i) r += sp(s) + "," + sp(s);
    r += std::to_string(sh[i]);
  }
  if (sh.size() == 1 || (!sh.empty() && s.chance(1, 3))) r += sp(s) + ",";
  return r + sp(s) + ")";
}
static void spelling(pbt::Case &c) {
  gen::ArrOpts o;
  o.max_bytes = 600;
  o.shape.max_elems = 200;
  o.shape.max_ndim = 66;
  Arr a = gen::array(c.s, o);
  bool big = c.s.coin();
  size_t width = a.max_len() + (a.dt == US ? c.s.draw(3) : 0);
  std::vector<std::string> items = {
      "'descr'" + sp(c.s) + ":" + sp(c.s) + "'" + descr(a.dt, big, width) + "'",
      "'fortran_order'" + sp(c.s) + ":" + sp(c.s) + (a.fortran ? "True" : "False"),
      "'shape'" + sp(c.s) + ":" + sp(c.s) + spell_shape(c.s, a.shape)};
  static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const int *perm = perms[c.s.draw(5)];
  std::string dict = "{" + sp(c.s);
  for (int i = 0; i < 3; ++i) {
    if (i) dict += sp(c.s) + "," + sp(c.s);
    dict += items[perm[i]];
  }
  bool comma = c.s.coin();
  if (comma) dict += sp(c.s) + ",";
  dict += sp(c.s) + "}";
  int version = c.s.coin() ? 2 : 1;
  size_t align = c.s.weighted({3, 1, 2}), extra = 0;
  align = align == 0 ? 64 : align == 1 ? 16 : 0;
  if (c.s.chance(1, 3)) extra = c.s.size(version == 1 ? 60000 : 150000);
  std::string bytes = wrap_header(dict, version, align, extra) + encode_payload(a, big, width);
  c.describe("v" + std::to_string(version) + " header=" + dict.substr(0, 200) + " padding=" + std::to_string(extra) + " " + a.text());
  c.label("version " + std::to_string(version));
  c.label(std::string("order of keys ") + char('0' + perm[0]) + char('0' + perm[1]) + char('0' + perm[2]));
  c.label(comma ? "final comma" : "no final comma");
  c.label("rank " + std::string(a.shape.size() == 0 ? "0" : a.shape.size() == 1 ? "1" : "2+"));
  if (dict != "{'descr': '" + descr(a.dt, big, width) + "', 'fortran_order': " + (a.fortran ? "True" : "False") + ", 'shape': " + shape_text(a.shape) + ", }" || version == 2 || extra) c.nontrivial();
  Header self;
  PB_ASSERT(parse_header(bytes, self, false).empty(), "(harness) generated header is not conforming");
  std::string d = lib::diff_header(lib::peek_bytes(bytes), a.dt, big, a.shape, a.fortran, width);
  PB_ASSERT(d.empty(), "peek: " << d);
  check_arr(a, lib::load_bytes(bytes, a.dt, int(c.s.draw(lib::LOAD_STREAM_WAYS - 1))), "load");
  npy::header_info direct(dict + std::string(c.s.draw(3), ' ') + "\n");
  d = lib::diff_header(direct, a.dt, big, a.shape, a.fortran, width);
  PB_ASSERT(d.empty(), "header_info(dictionary): " << d);
  if (c.s.chance(1, 4)) { // inside an archive
    std::vector<ZEntry> es(1);
    es[0].name = "x.npy";
    es[0].data = bytes;
    auto r = lib::make_reader_mem(build_zip(es));
    check_arr(a, r->read("x", a.dt), "read from an archive");
    d = lib::diff_header(r->peek("x"), a.dt, big, a.shape, a.fortran, width);
    PB_ASSERT(d.empty(), "peek in an archive: " << d);
    c.label("inside an archive");
  }
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"spelling", spelling, 1}},
                  "one header spelled in a random conforming way (6 key orders, spaces around every token, optional final commas in dictionary and tuple, version 1.0/2.0, padding from none to tens of kB) over a random array; non-trivial: the spelling differs from libnpy's own");
}
