// C09: data of another or unsupported element type is refused.
#include "common.h"
using namespace ref;

// every other type is tried on a file or archive that holds type a.dt
static void pairs(pbt::Case &c) {
  gen::ArrOpts o;
  o.max_bytes = 1200;
  o.shape.max_elems = 300;
  o.shape.max_ndim = 12;
  Arr a = gen::array(c.s, o);
  bool big = c.s.coin();
  npy::endian_t e = big ? npy::endian_t::BIG : npy::endian_t::LITTLE;
  std::string bytes = c.s.coin() ? lib::save(a, e) : encode_npy(a, big);
  if (c.s.chance(1, 3)) bytes += std::string(c.s.size(4000), char(c.s.draw(255))); // enough for a wider type
  c.describe(std::string(big ? "big " : "little ") + a.text());
  gen::classify(c, a);
  if (a.count()) c.nontrivial();
  auto refused = [&](const lib::Result &r, int dt, const char *how) {
    PB_ASSERT(r.k != lib::Result::OK, how << ": stored " << DT_NAME[a.dt] << " was returned as " << DT_NAME[dt] << ": " << r.arr.text());
    PB_ASSERT(r.k == lib::Result::RUNTIME, how << ": stored " << DT_NAME[a.dt] << " requested as " << DT_NAME[dt] << " gave " << lib::kind_name(r.k) << " (" << r.what << ")");
  };
  std::string p = pbt::scratch() + "/t.npy", zp = pbt::scratch() + "/t.npz";
  lib::spit(p, bytes);
  std::string z;
  if (c.s.coin()) {
    auto w = lib::make_writer("", draw_method(c.s), e);
    w->write("first", gen::small_array(c.s));
    w->write("x", a);
    w->close();
    z = w->bytes();
  } else {
    std::vector<ZEntry> es(1);
    es[0].name = "x.npy";
    es[0].data = encode_npy(a, big);
    es[0].method = c.s.coin() ? 8 : 0;
    z = build_zip(es);
  }
  lib::spit(zp, z);
  auto mem = lib::make_reader_mem(z), disk = lib::make_reader_file(zp);
  for (int dt = 0; dt < NDT; ++dt) {
    if (dt == a.dt) continue;
    int way = int(c.s.draw(lib::LOAD_STREAM_WAYS - 1)), pway = int(c.s.draw(lib::LOAD_PATH_WAYS - 1));
    refused(lib::attempt([&](lib::Result &r) { r.arr = lib::load_bytes(bytes, dt, way); }), dt, "load from a stream");
    refused(lib::attempt([&](lib::Result &r) { r.arr = lib::load(p, dt, pway); }), dt, "load from a path");
    refused(lib::attempt([&](lib::Result &r) { r.arr = mem->read("x", dt, dt % 2); }), dt, "read from an archive in memory");
    refused(lib::attempt([&](lib::Result &r) { r.arr = disk->read("x.npy", dt, dt % 2); }), dt, "read from an archive on disk");
  }
  c.label("types refused: 13 x 4");
  check_arr(a, mem->read("x", a.dt), "the right type afterwards");
  check_arr(a, disk->read("x", a.dt), "the right type afterwards");
  check_arr(a, lib::load(p, a.dt), "the right type afterwards");
  unlink(p.c_str());
  unlink(zp.c_str());
}
static std::string unknown_code(pbt::Source &s, std::string &kind) {
  static const std::vector<std::string> orders = {"<", ">", "|", "=", "", "!"};
  switch (s.weighted({4, 4, 3, 3, 2})) {
  case 0: { // a type NumPy knows and the library does not
    static const std::vector<std::string> v = {"<f2", ">f2", "<f16", ">c32", "|O", "|S5", "|V8", "<M8[ns]", "<m8[s]", "<M8", "|S0", "|a3", "<c32", "|T16"};
    kind = "NumPy type without counterpart";
    return s.pick(v);
  }
  case 1: { // a known kind with an impossible size
    static const std::vector<std::string> k = {"i", "u", "f", "c", "b"};
    static const std::vector<std::string> n = {"0", "3", "5", "6", "7", "9", "12", "32", "64", "128", "99999999999999999999", "44", "88", "-4", "4x", "8 ", " 4"};
    kind = "impossible size";
    std::string r = s.pick(orders);
    r += s.pick(k);
    return r + s.pick(n);
  }
  case 2: { // another letter
    static const std::string k = "OSVMmaTwgGhHpPqQdDFlLeEnNyzjJkKrRtvWxXYZAICX";
    kind = "unknown kind";
    std::string r = s.pick(orders);
    r += k[s.draw(k.size() - 1)];
    return r + std::to_string(s.draw(20));
  }
  case 3: { // a valid code with something added
    std::string r = descr(gen::dtype(s), s.coin(), s.draw(20));
    static const std::vector<std::string> junk = {"x", ",", "<", "f", "U", "#", "\xC3\xA9", "[]", ":", "<f4"};
    if (s.coin()) r += s.pick(junk);
    else r = s.pick(junk) + r;
    kind = "valid code with junk";
    return r;
  }
  default: {
    std::string r;
    size_t n = s.draw(6);
    for (size_t i = 0; i < n; ++i) r += char(s.range('a', 'z'));
    kind = "letters";
    if (r.size() == 1) r += r + r;
    return r;
  }
  }
}
static void unknown(pbt::Case &c) {
  std::string kind, d = unknown_code(c.s, kind);
  int dt;
  int order;
  size_t width;
  static const std::vector<std::string> names = {"int", "bool", "float", "complex", "str", "object", "single", "double", "long", "half", "short", "byte", "uint"};
  if (classify_descr(d, dt, order, width)) throw pbt::Discard();
  for (auto &n : names) if (d == n) throw pbt::Discard();
  std::string lit = "'" + d + "'";
  if (c.s.chance(1, 8)) { // not a string at all
    static const std::vector<std::string> v = {"[('a', '<f4')]", "[('a', '<f4'), ('b', '<i2')]", "('<f4', (2,))", "None", "4", "[]"};
    lit = c.s.pick(v);
    kind = "structured";
  }
  c.describe(lit);
  c.label("kind: " + kind);
  c.nontrivial();
  gen::Shape sh = {c.s.draw(4), 2};
  std::string bytes = wrap_header("{'descr': " + lit + ", 'fortran_order': False, 'shape': " + shape_text(sh) + ", }", 1 + int(c.s.draw(1)), 64) + std::string(500, char(c.s.draw(255)));
  lib::Result r = lib::attempt([&](lib::Result &r) { r.what = lib::header_text(lib::peek_bytes(bytes)); });
  PB_ASSERT(r.k != lib::Result::OK, "peek accepted the type code " << lit << " as " << r.what);
  PB_ASSERT(r.k != lib::Result::NONSTD, "peek threw " << r.what);
  std::string p = pbt::scratch() + "/u.npy";
  lib::spit(p, bytes);
  r = lib::attempt([&](lib::Result &) { npy::peek(p); });
  PB_ASSERT(r.k != lib::Result::OK, "peek(path) accepted the type code " << lit);
  std::vector<ZEntry> es(1);
  es[0].name = "u.npy";
  es[0].data = bytes;
  auto z = lib::make_reader_mem(build_zip(es));
  r = lib::attempt([&](lib::Result &) { z->peek("u"); });
  PB_ASSERT(r.k != lib::Result::OK, "peek in an archive accepted the type code " << lit);
  for (int t = 0; t < NDT; ++t) {
    r = lib::attempt([&](lib::Result &r) { r.arr = lib::load_bytes(bytes, t, int(c.s.draw(lib::LOAD_STREAM_WAYS - 1))); });
    PB_ASSERT(r.k != lib::Result::OK, "type code " << lit << " was loaded as " << DT_NAME[t]);
    PB_ASSERT(r.k != lib::Result::NONSTD, "load threw " << r.what);
    r = lib::attempt([&](lib::Result &r) { r.arr = t % 2 ? z->read("u", t) : lib::load(p, t, 0); });
    PB_ASSERT(r.k != lib::Result::OK, "type code " << lit << " was read as " << DT_NAME[t]);
  }
  unlink(p.c_str());
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"pairs", pairs, 3}, {"unknown", unknown, 2}},
                  "pairs: a random array stored as one type and requested as each of the 13 others from stream, path, archive in memory and on disk; unknown: a header with a type code the library does not support, peeked and loaded as all 14 types; non-trivial: the array has elements, or the code is unknown");
}
