// C08: arbitrary bytes offered as NPY are rejected cleanly or read as declared.
#include "capnew.h"
#include "hostile.h"
using namespace ref;

static std::vector<int> some_types(pbt::Source &s) {
  std::vector<int> r = {int(s.draw(NDT - 1)), int(s.draw(NDT - 1))};
  return r;
}
static void decide(pbt::Case &c, const std::string &bytes) {
  std::vector<int> dts = some_types(c.s);
  int way = int(c.s.draw(lib::LOAD_STREAM_WAYS - 1));
  size_t piece = c.s.chance(1, 2) ? 1 + c.s.size(90) : 0;
  std::string res = hostile::npy(bytes, dts, way, piece);
  c.label("outcome: " + res);
  if (c.s.chance(1, 8)) { // by path
    std::string p = pbt::scratch() + "/h.npy";
    lib::spit(p, bytes);
    Header h;
    bool good = parse_header(bytes, h, false).empty();
    lib::Result r = lib::attempt([&](lib::Result &) { npy::peek(p); });
    PB_ASSERT(r.k != lib::Result::NONSTD, "peek(path) threw " << r.what);
    PB_ASSERT(r.k != lib::Result::OK || good, "peek(path) accepted bytes without a well-formed header");
    int dt = dts[0];
    r = lib::attempt([&](lib::Result &r) { r.arr = lib::load(p, dt, int(c.s.draw(lib::LOAD_PATH_WAYS - 1))); });
    unlink(p.c_str());
    PB_ASSERT(r.k != lib::Result::NONSTD, "load(path) threw " << r.what);
    if (r.k == lib::Result::OK) {
      PB_ASSERT(good && h.dt == dt, "load(path) accepted bytes that do not declare its type");
      Arr w;
      std::string d = decode_lenient(bytes, h, w);
      if (d.empty()) d = diff(truthy(w), truthy(r.arr));
      PB_ASSERT(d.empty(), "load(path): " << d);
    }
  }
}
static Arr base_array(pbt::Source &s) {
  gen::ArrOpts o;
  o.max_bytes = s.chance(1, 6) ? 9000 : 200;
  o.shape.max_elems = o.max_bytes;
  o.shape.max_ndim = 34;
  return gen::array(s, o);
}
static void mutated(pbt::Case &c) {
  Arr a = base_array(c.s);
  bool big = c.s.coin();
  std::string bytes;
  if (c.s.coin()) bytes = lib::save(a, big ? npy::endian_t::BIG : npy::endian_t::LITTLE);
  else {
    std::string dict = "{'descr': '" + descr(a.dt, big, a.max_len()) + "', 'fortran_order': " + (a.fortran ? "True" : "False") + ", 'shape': " + shape_text(a.shape) + ", }";
    bytes = wrap_header(dict, c.s.coin() ? 2 : 1, c.s.coin() ? 64 : 0) + encode_payload(a, big, a.max_len());
  }
  std::string what;
  std::string m = hostile::mutate(c.s, bytes, 140, what);
  c.describe(a.text() + " edited:" + what);
  c.label("kind: mutated");
  if (m != bytes) c.nontrivial();
  decide(c, m);
}
// tokens put together nearly as a header
static std::string number(pbt::Source &s) {
  static const std::vector<std::string> odd = {"-1", "+3", "", " ", "1.0", "1e3", "0x10", "1_0", "3L", "007", "18446744073709551615", "18446744073709551616", "9223372036854775808", "4294967296", "99999999999999999999999", "True", "None", "'3'", "(3)", "2 3"};
  switch (s.weighted({16, 3, 2})) {
  case 0: return std::to_string(s.draw(9));
  case 1: return std::to_string(uint64_t(1) << s.draw(63));
  default: return s.pick(odd);
  }
}
static std::string tuple(pbt::Source &s) {
  static const std::vector<std::string> odd = {"", "()", "(", ")", "[3]", "3", "(3", "3)", "(,)", "(3,,)", "((3,),)", "None", "'(3,)'", "(3,)(4,)"};
  if (s.chance(1, 6)) return s.pick(odd);
  size_t n = s.weighted({2, 4, 4, 2, 1});
  if (s.chance(1, 30)) n = 300;
  std::string r = "(";
  for (size_t i = 0; i < n; ++i) r += (i ? s.chance(1, 12) ? " " : ", " : "") + number(s);
  if (n == 1 || s.chance(1, 5)) r += ",";
  return r + ")";
}
static std::string code(pbt::Source &s) {
  static const std::vector<std::string> odd = {"<i1", "=f4", "f4", "<f2", ">f16", "|O", "|S5", "<M8[ns]", "<m8", "|V8", "<i16", "<u3", ">b1", "|f4", "", "<", "<f", "f", "<f4 ", " <f4", "<F4", "<f44", "?", "<U", "<U-1", ">U1x", "<U99999999999999999999", "<U4294967296", "<U1152921504606846976", "|U3", "U3", "<u4<u4", "\xE9", "<c32"};
  if (s.chance(1, 4)) return s.pick(odd);
  int dt = int(s.draw(NDT - 1));
  return descr(dt, s.coin(), s.size(40));
}
static std::string quote(pbt::Source &s, const std::string &x) {
  switch (s.weighted({45, 1, 1, 1})) {
  case 0: return "'" + x + "'";
  case 1: return "\"" + x + "\"";
  case 2: return "'" + x;
  default: return x;
  }
}
static void grammar(pbt::Case &c) {
  pbt::Source &s = c.s;
  std::string dict = s.chance(1, 20) ? "" : "{";
  size_t n = s.weighted({6, 1, 1, 1});
  std::vector<int> order = {0, 1, 2};
  if (n == 1) order.pop_back();
  if (n == 2) order.push_back(int(s.draw(3)));
  if (n == 3) { order.clear(); for (size_t k = s.draw(5); k > 0; --k) order.push_back(int(s.draw(4))); }
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.draw(i - 1)]);
  Header guess;
  for (size_t i = 0; i < order.size(); ++i) {
    static const char *const keys[] = {"descr", "fortran_order", "shape", "extra", "Descr"};
    static const std::vector<std::string> bools = {"False", "True", "false", "0", "1", "T", "Fals", "'True'", "None", "TrueFalse", ""};
    dict += quote(s, keys[order[i]]) + (s.chance(1, 15) ? "" : ":") + (s.coin() ? " " : "");
    switch (order[i]) {
    case 0: dict += quote(s, code(s)); break;
    case 1: dict += s.chance(1, 12) ? s.pick(bools) : bools[s.draw(1)]; break;
    case 2: dict += tuple(s); break;
    default: dict += s.coin() ? "1" : s.coin() ? "'x'" : "";
    }
    if (i + 1 < order.size() || s.coin()) dict += s.chance(1, 12) ? " " : ", ";
  }
  if (!s.chance(1, 12)) dict += "}";
  static const std::vector<std::string> tails = {"", "x", "}", "{", "\xFF", ", 'shape': (9,)}"};
  if (s.chance(1, 8)) dict += s.pick(tails);
  int version = int(s.weighted({6, 5, 1, 1}));
  version = version == 0 ? 1 : version == 1 ? 2 : version == 2 ? 3 : int(s.draw(255));
  std::string bytes = wrap_header(dict, version == 1 ? 1 : 2, s.coin() ? 64 : 0);
  bytes[6] = char(version);
  if (s.chance(1, 20)) bytes[7] = char(s.draw(255));
  if (s.chance(1, 6)) { // the length field is off
    int64_t len = (unsigned char)bytes[8] | ((unsigned char)bytes[9] << 8);
    len += int64_t(s.draw(12)) - 6;
    if (s.chance(1, 4)) len = int64_t(s.draw(65535));
    bytes[8] = char(len);
    bytes[9] = char(len >> 8);
    if (version == 2 && s.chance(1, 3)) { bytes[10] = char(s.draw(255)); bytes[11] = char(s.draw(255)); }
  }
  Header h;
  std::string e = parse_header(bytes, h, false);
  size_t want = 0;
  if (e.empty()) { // payload about as long as declared
    unsigned __int128 w = h.dt == US ? h.width * 4 : DT_SIZE[h.dt];
    for (auto d : h.shape) { w *= d; if (w > 100000) w = 100000; }
    want = size_t(w > 100000 ? 100000 : w);
    int64_t off = s.chance(1, 3) ? int64_t(s.draw(20)) - 10 : 0;
    want = size_t(std::max<int64_t>(0, int64_t(want) + off));
    if (s.chance(1, 12)) want = s.size(3000);
  } else want = s.size(100);
  std::vector<uint8_t> pay(want);
  s.fill(pay.data(), pay.size());
  bytes.append(pay.begin(), pay.end());
  c.describe("v" + std::to_string(version) + " " + dict.substr(0, 300) + " payload " + std::to_string(want));
  c.label("kind: grammar");
  c.label(e.empty() ? "header: well-formed" : "header: malformed");
  c.nontrivial();
  decide(c, bytes);
}
static void raw(pbt::Case &c) {
  size_t n = c.s.size(300);
  std::vector<uint8_t> v(n);
  if (n <= 40) for (auto &x : v) x = uint8_t(c.s.draw(255));
  else c.s.fill(v.data(), n);
  std::string b(v.begin(), v.end());
  size_t k = c.s.weighted({1, 2, 2, 2});
  std::string pre("\x93NUMPY", 6);
  if (k == 1) b = pre + b;
  if (k == 2) b = pre + std::string("\x01\x00", 2) + b;
  if (k == 3) b = pre + std::string("\x02\x00", 2) + b;
  c.describe(pbt::hexdump(b));
  c.label("kind: raw bytes");
  if (b.size() > 8) c.nontrivial();
  decide(c, b);
}
// headers that declare far more than is there: must end quickly
static void greedy(pbt::Case &c) {
  int dt = gen::dtype(c.s);
  size_t width = dt == US ? c.s.chance(1, 3) ? 0 : size_t(1) << c.s.draw(50) : 0;
  size_t nd = 1 + c.s.draw(3);
  gen::Shape sh;
  for (size_t i = 0; i < nd; ++i) sh.push_back((size_t(1) << c.s.draw(63)) - c.s.draw(1));
  if (c.s.chance(1, 6)) sh[c.s.draw(nd - 1)] = 0;
  std::string b = encode_npy_header(descr(dt, c.s.coin(), width), c.s.coin(), sh) + std::string(c.s.size(4000), 'x');
  c.describe(std::string(DT_NAME[dt]) + " width " + std::to_string(width) + " " + shape_text(sh));
  c.label("kind: declares more than there is");
  c.nontrivial();
  decide(c, b);
}
// something in front of, or in place of part of, the magic string
static void displaced(pbt::Case &c) {
  Arr a = base_array(c.s);
  std::string bytes = lib::save(a, npy::endian_t::LITTLE), pre;
  static const std::vector<std::string> junk = {"\n", "\r\n", " ", std::string(1, '\0'), "\xEF\xBB\xBF", "\xFF\xFE", "\t", "\x93", std::string("\x93NUMPY", 6), "PK\x03\x04", "#", "\xC2"};
  static const std::vector<std::string> magics = {std::string("\x93numpy", 6), "\xC2\x93NUMPY", "?NUMPY", "NUMPY", std::string("\x93NUMPZ", 6), std::string("\x13NUMPY", 6), std::string("\x92NUMPY", 6), std::string("\x93NUMP\0", 6), std::string("\x93 NUMPY", 7)};
  if (c.s.coin()) {
    for (size_t k = 1 + c.s.draw(2); k > 0; --k) pre += c.s.coin() ? c.s.pick(junk) : std::string(1 + c.s.size(70), c.s.pick(junk)[0]);
    bytes = pre + bytes;
  } else {
    pre = c.s.pick(magics);
    if (c.s.coin()) { pre = bytes.substr(0, 6); pre[c.s.draw(5)] = char(c.s.draw(255)); }
    bytes = pre + bytes.substr(6);
  }
  c.describe(a.text() + " displaced by " + pbt::hexdump(pre));
  c.label("kind: displaced magic");
  c.nontrivial();
  decide(c, bytes);
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"mutated", mutated, 8}, {"grammar", grammar, 8}, {"raw", raw, 2}, {"greedy", greedy, 2}, {"displaced", displaced, 1}},
                  "bytes made by editing a valid file, by a header grammar with injected faults, at random, declaring absurd sizes, or with the magic string displaced; peeked and loaded as the declared and two random types from seekable and unseekable streams and paths under ASan+UBSan with allocations above 64 MiB refused; non-trivial: the bytes are not a valid file as written");
}
