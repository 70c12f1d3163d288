// C18: a damaged archive never yields wrong data.
#include "archives.h"
#include "capnew.h"
#include "npd.h"
#include "validzip.h"

// names that differ little, so that damage may turn one into another; no name
// is another one plus the suffix
static std::vector<std::string> names(pbt::Source &s, size_t n) {
  std::vector<std::string> r;
  std::set<std::string> seen;
  bool close = s.coin();
  while (r.size() < n) {
    std::string x;
    if (close && !r.empty() && !s.chance(1, 5)) {
      x = r[s.draw(r.size() - 1)];
      x.resize(x.size() - 4);
      size_t at = s.draw(x.size() - 1);
      x[at] = char('a' + ((x[at] - 'a') ^ (1 << s.draw(3))));
    } else {
      size_t len = 1 + s.draw(4);
      for (size_t i = 0; i < len; ++i) x += char('a' + s.draw(15));
    }
    if (!seen.insert(x).second) x += std::to_string(r.size());
    seen.insert(x);
    r.push_back(x + ".npy");
  }
  return r;
}
struct Made {
  Model m;
  std::vector<size_t> width; // declared string widths
  std::string bytes, text;
};
static Made make(pbt::Source &s) {
  Made r;
  size_t from = s.weighted({5, 2, 2});
  size_t n = 1 + s.weighted({2, 3, 3, 1, 1});
  std::vector<std::string> ns = names(s, n);
  npy::endian_t e = draw_endian(s);
  npy::compression_method_t m = draw_method(s);
  for (size_t i = 0; i < n; ++i) {
    Model::E x{ns[i], s.chance(1, 3) && i ? r.m.e[s.draw(i - 1)].a : entry_array(s, 40), is_big(e)};
    if (x.a.dt == US) strip(x.a);
    // alike arrays are the easiest to confuse
    if (!x.a.raw.empty() && s.coin()) { x.a.raw[s.draw(x.a.raw.size() - 1)] ^= x.a.dt == B1 ? 1 : uint8_t(1 << s.draw(7)); }
    r.m.e.push_back(x);
    r.text += " " + short_name(x.name) + "=" + x.a.text(1);
    r.width.push_back(x.a.max_len());
  }
  if (from == 0) {
    auto w = lib::make_writer("", m, e);
    for (auto &x : r.m.e) w->write(x.name, x.a);
    w->close();
    r.bytes = w->bytes();
    r.text = std::string("libnpy ") + method_name(m) + r.text;
  } else if (from == 1) {
    std::vector<npd::Named> v;
    std::vector<bool> big(n, is_big(e));
    for (auto &x : r.m.e) v.push_back({x.name.substr(0, x.name.size() - 4), x.a, ""});
    std::string err = npd::zwrite(m == npy::compression_method_t::DEFLATED, v, big, r.bytes, s.chance(1, 3));
    if (!err.empty()) throw pbt::Discard();
    // NumPy declares what is both C and Fortran order as C order
    std::vector<ZParsed> z;
    if (!parse_zip(r.bytes, z).empty()) throw pbt::Discard();
    for (size_t i = 0; i < n; ++i)
      for (auto &q : z) {
        if (q.name != r.m.e[i].name) continue;
        Header h;
        bool b;
        if (!decode_npy(q.data, h, r.m.e[i].a, b).empty()) throw pbt::Discard();
        r.width[i] = h.width;
        if (DT_UNIT[h.dt] > 1) r.m.e[i].big = h.order == '>';
      }
    r.text = std::string("NumPy ") + method_name(m) + r.text;
  } else {
    std::vector<ZEntry> es;
    ZOpts o;
    for (auto &x : r.m.e) {
      ZEntry z;
      z.name = x.name;
      z.data = encode_npy(x.a, x.big);
      z.method = s.coin() ? 8 : 0;
      z.z64_local = s.coin();
      z.descriptor = s.chance(1, 5);
      z.z64_central = int(s.draw(7));
      es.push_back(z);
    }
    o.z64_end = s.coin();
    r.bytes = build_zip(es, o);
    r.text = "ZIP64" + r.text;
  }
  return r;
}
// Where the records are: damage is aimed at them, at the data between them and
// anywhere.
static std::vector<size_t> records(const std::string &b) {
  std::vector<size_t> r;
  for (size_t i = 0; i + 4 <= b.size(); ++i)
    if (b[i] == 'P' && b[i + 1] == 'K' && b[i + 2] > 0 && b[i + 2] < 8 && b[i + 3] == b[i + 2] + 1) r.push_back(i);
  return r;
}
static std::string damage(pbt::Source &s, const std::string &b, const std::vector<size_t> &rec, std::string &what) {
  size_t at;
  if (s.chance(2, 5) || rec.empty()) at = s.draw(b.size() - 1);
  else at = std::min(b.size() - 1, rec[s.draw(rec.size() - 1)] + size_t(s.draw(60)));
  size_t n = s.chance(1, 3) ? 1 + s.draw(b.size() - at - 1) : 1 + s.draw(std::min<size_t>(12, b.size() - at - 1));
  std::string r = b;
  switch (s.weighted({8, 6, 3, 3, 3, 3, 3, 3, 2})) {
  case 0: { int k = int(s.draw(7)); r[at] = char(r[at] ^ (1 << k)); what = "flip bit " + std::to_string(k) + " of byte " + std::to_string(at); break; }
  case 1: { int v = int(s.draw(255)); r[at] = char(v); what = "set byte " + std::to_string(at) + " to " + std::to_string(v); break; }
  case 2: memset(&r[at], 0, n); what = "zero " + std::to_string(n) + " bytes at " + std::to_string(at); break;
  case 3: for (size_t i = 0; i < n; ++i) r[at + i] = char(s.draw(255)); what = "overwrite " + std::to_string(n) + " bytes at " + std::to_string(at); if (n > 64) n = 64; break;
  case 4: r.erase(at, n); what = "lose " + std::to_string(n) + " bytes at " + std::to_string(at); break;
  case 5: { int v = int(s.draw(255)); r.insert(at, std::string(n, char(v))); what = "insert " + std::to_string(n) + " bytes at " + std::to_string(at); break; }
  case 6: r.resize(at); what = "cut at " + std::to_string(at); break;
  case 7: { // a misdirected write: bytes of another place
    size_t from = rec.empty() || s.coin() ? s.draw(b.size() - 1) : rec[s.draw(rec.size() - 1)];
    n = std::min(n, b.size() - from);
    for (size_t i = 0; i < n; ++i) r[at + i] = b[from + i];
    what = "copy " + std::to_string(n) + " bytes from " + std::to_string(from) + " to " + std::to_string(at);
    break;
  }
  default: { // swap two neighbouring pieces
    size_t h = n / 2;
    std::string x = r.substr(at, h), y = r.substr(at + h, h);
    r.replace(at, 2 * h, y + x);
    what = "swap two pieces of " + std::to_string(h) + " bytes at " + std::to_string(at);
  }
  }
  return r;
}
static void damaged(pbt::Case &c) {
  Made a = make(c.s);
  c.describe(a.text);
  std::vector<size_t> rec = records(a.bytes);
  size_t rounds = 1 + c.s.draw(39);
  for (size_t k = 0; k < rounds; ++k) {
    std::string what;
    std::string b = damage(c.s, a.bytes, rec, what);
    if (b == a.bytes) { c.label("damage: no change"); continue; }
    c.nontrivial();
    bool disk = c.s.chance(1, 5);
    bool late = disk && c.s.coin(); // the file is damaged while a reader has it open
    std::string path = pbt::scratch() + "/d.npz";
    if (disk) lib::spit(path, late ? a.bytes : b);
    std::unique_ptr<lib::Reader> rd;
    lib::Result r = lib::attempt([&](lib::Result &) { rd = disk ? lib::make_reader_file(path, 0) : lib::make_reader_mem(b, int(c.s.draw(1))); });
    if (late) {
      PB_ASSERT(r.k == lib::Result::OK, "the undamaged archive was refused: " << r.what);
      size_t n = c.s.draw(2);
      for (size_t i = 0; i < n; ++i) {
        const Model::E &x = a.m.e[c.s.draw(a.m.e.size() - 1)];
        check_arr(x.a, rd->read(x.name, x.a.dt, 0), "before the damage");
      }
      lib::spit(path, b); // the same file
      what += " after it was opened";
      c.label("damage: after opening");
    }
    if (disk) unlink(path.c_str());
    PB_ASSERT(r.k != lib::Result::NONSTD, what << ": opening threw " << r.what);
    if (r.k != lib::Result::OK) { c.label("damage: refused on opening"); continue; }
    bool same = true, any = false;
    for (size_t i = 0; i < a.m.e.size(); ++i) {
      const Model::E &x = a.m.e[i];
      std::string n = c.s.chance(1, 3) ? x.name.substr(0, x.name.size() - 4) : x.name;
      r = lib::attempt([&](lib::Result &) {
        std::string d = lib::diff_header(rd->peek(n), x.a.dt, x.big, x.a.shape, x.a.fortran, a.width[i]);
        PB_ASSERT(d.empty(), what << ": peek(" << short_name(n) << ") reports something else: " << d);
      });
      PB_ASSERT(r.k != lib::Result::NONSTD, what << ": peek threw " << r.what);
      r = lib::attempt([&](lib::Result &y) {
        y.arr = rd->read(n, x.a.dt, int(c.s.draw(1)));
        std::string d = diff(x.a, y.arr);
        PB_ASSERT(d.empty(), what << ": read(" << short_name(n) << ") returned other data: " << d);
      });
      PB_ASSERT(r.k != lib::Result::NONSTD, what << ": read threw " << r.what);
      same &= r.k == lib::Result::OK;
      any |= r.k == lib::Result::OK;
      int other = int(c.s.draw(NDT - 1));
      if (other != x.a.dt) {
        r = lib::attempt([&](lib::Result &y) { y.arr = rd->read(n, other, 0); });
        PB_ASSERT(r.k != lib::Result::OK, what << ": read(" << short_name(n) << ") returned " << DT_NAME[other] << " data instead of " << DT_NAME[x.a.dt] << ": " << r.arr.text());
      }
    }
    c.label(same ? "damage: everything still read" : any ? "damage: some entries lost" : "damage: all entries lost");
  }
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"damaged", damaged, 1}},
                  "archives of 1 to 5 similar arrays under similar names, written by libnpy, NumPy or the harness (ZIP64 fields), each damaged in up to 40 ways in one region (bit flip, byte, zeroed, overwritten, lost, inserted, cut, copied, swapped), aimed at records and data; some on disk while a reader has them open; every entry peeked and read; non-trivial: the damage changed bytes");
}
