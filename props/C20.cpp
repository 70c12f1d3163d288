// C20: each archive read stands alone, whatever was read before.
#include "archives.h"
#include "capnew.h"
#include "hostile.h"
#include <thread>

struct Op { int kind; std::string name; int dt; int way; };
static std::string op_text(const Op &o) {
  static const char *K[] = {"read", "peek", "contains", "keys"};
  return std::string(K[o.kind]) + "(" + short_name(o.name) + (o.kind == 0 ? std::string(", ") + DT_NAME[o.dt] : "") + ")";
}
struct Out {
  lib::Result r;
  std::string header;
  bool flag = false;
  std::vector<std::string> keys;
};
static Out apply(lib::Reader &rd, const Op &o) {
  Out x;
  x.r = lib::attempt([&](lib::Result &r) {
    switch (o.kind) {
    case 0: r.arr = rd.read(o.name, o.dt, o.way); break;
    case 1: x.header = lib::header_text(rd.peek(o.name)); break;
    case 2: x.flag = rd.contains(o.name); break;
    default: x.keys = rd.keys();
    }
  });
  return x;
}
static void history(pbt::Case &c) {
  Model m;
  std::vector<ZEntry> es;
  ZOpts zo;
  size_t n = 1 + c.s.weighted({1, 3, 3, 2, 1});
  std::string text;
  bool damaged = false;
  for (size_t i = 0; i < n; ++i) {
    Model::E x{gen::stored_name(gen::name(c.s, false)), entry_array(c.s, 30), c.s.coin()};
    strip(x.a);
    ZEntry z;
    z.name = x.name;
    z.data = encode_npy(x.a, x.big);
    z.method = c.s.coin() ? 8 : 0;
    z.z64_local = c.s.chance(1, 4);
    z.descriptor = c.s.chance(1, 6);
    z.z64_central = c.s.chance(1, 4) ? int(c.s.draw(7)) : 0;
    const char *how = "";
    switch (c.s.weighted({8, 2, 2, 2, 1})) {
    case 1: z.force_crc = 12345; how = " bad crc"; break;
    case 2: { std::string w; z.data = hostile::mutate(c.s, z.data, 100, w); how = " bad NPY"; break; }
    case 3:
      z.have_comp = true;
      z.comp = z.method == 8 ? deflate_raw(z.data, 6, 0, 8, 0) : z.data;
      z.comp.resize(z.comp.size() / 2);
      how = " cut";
      break;
    case 4: z.method = 8; z.have_comp = true; z.comp = std::string(40, '\x07'); how = " bad stream"; break;
    default: break;
    }
    damaged |= *how != 0;
    text += " " + short_name(x.name) + "=" + x.a.text(1) + how;
    m.e.push_back(x);
    es.push_back(z);
  }
  zo.z64_end = c.s.chance(1, 4);
  std::string b = build_zip(es, zo);
  // local headers and sizes damaged in place
  if (c.s.coin()) {
    size_t k = c.s.draw(n - 1);
    size_t at = size_t(es[k].offset) + c.s.draw(30);
    if (at < b.size()) { b[at] = char(b[at] ^ (1 << c.s.draw(7))); text += " byte " + std::to_string(at) + " altered"; damaged = true; }
  }
  if (c.s.chance(1, 5)) { // a central header that leads beyond the end
    size_t at = b.rfind(std::string("PK\1\2", 4));
    if (at != std::string::npos) {
      b[at + 45] = char(c.s.draw(255)), b[at + 44] = 1;
      text += " offset beyond the end";
      damaged = true;
    }
  }
  // another archive with other contents under the same names, used in between
  std::vector<ZEntry> des;
  for (size_t i = 0; i < n; ++i) {
    ZEntry z;
    z.name = es[n - 1 - i].name;
    Arr a = c.s.coin() ? entry_array(c.s, 60) : m.e[n - 1 - i].a;
    if (!a.raw.empty() && c.s.coin()) a.raw[c.s.draw(a.raw.size() - 1)] ^= a.dt == B1 ? 1 : 0x55;
    z.data = encode_npy(a, c.s.coin());
    z.method = c.s.coin() ? 8 : 0;
    des.push_back(z);
  }
  std::string db = build_zip(des, ZOpts());
  bool disk = c.s.coin();
  std::string path = pbt::scratch() + "/h.npz";
  if (disk) lib::spit(path, b);
  struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{path};
  std::unique_ptr<lib::Reader> decoy = lib::make_reader_mem(db, 0);
  auto open = [&] { return disk ? lib::make_reader_file(path, 0) : lib::make_reader_mem(b, 0); };
  std::unique_ptr<lib::Reader> rd;
  lib::Result r = lib::attempt([&](lib::Result &) { rd = open(); });
  if (r.k != lib::Result::OK) throw pbt::Discard();
  size_t k = 1 + c.s.draw(14);
  std::vector<std::string> keys = rd->keys();
  bool failed = false, after = false;
  std::string ops;
  for (size_t i = 0; i < k; ++i) {
    Op o;
    o.kind = int(c.s.weighted({6, 3, 1, 1}));
    const Model::E &x = m.e[c.s.draw(n - 1)];
    o.name = x.name;
    size_t v = c.s.weighted({5, 3, 1});
    if (v == 1) o.name = o.name.substr(0, o.name.size() - 4);
    if (v == 2) o.name = c.s.coin() ? "absent" : o.name + ".npy";
    o.dt = c.s.chance(1, 4) ? gen::dtype(c.s) : x.a.dt;
    o.way = int(c.s.draw(1));
    ops += " " + op_text(o);
    if (c.s.coin()) {
      Op d = o;
      if (c.s.coin()) d.dt = gen::dtype(c.s);
      apply(*decoy, d);
      ops += " (same elsewhere)";
    }
    Out got;
    if (c.s.chance(1, 8)) { std::thread t([&] { got = apply(*rd, o); }); t.join(); }
    else got = apply(*rd, o);
    if (c.s.chance(1, 4)) apply(*decoy, o);
    auto fresh = open();
    Out want = apply(*fresh, o);
    if (!damaged && o.kind == 0) { // what the archive holds is known
      const Model::E *e = m.find(o.name);
      if (!e) PB_ASSERT(got.r.k == lib::Result::INVALID, "after" << ops << ": " << lib::kind_name(got.r.k) << " (" << got.r.what << ") for an absent name");
      else if (o.dt != e->a.dt) PB_ASSERT(got.r.k == lib::Result::RUNTIME, "after" << ops << ": " << lib::kind_name(got.r.k) << " (" << got.r.what << ") for another type");
      else {
        PB_ASSERT(got.r.k == lib::Result::OK, "after" << ops << ": " << got.r.what);
        std::string d = diff(e->a, got.r.arr);
        PB_ASSERT(d.empty(), "after" << ops << ": other data than the archive holds: " << d);
      }
    }
    PB_ASSERT(got.r.k == want.r.k, "after" << ops << ": " << lib::kind_name(got.r.k) << " (" << got.r.what << "), but a fresh reader gives " << lib::kind_name(want.r.k) << " (" << want.r.what << ")");
    if (got.r.k == lib::Result::OK) {
      if (o.kind == 0) { std::string d = diff(want.r.arr, got.r.arr); PB_ASSERT(d.empty(), "after" << ops << ": other data than from a fresh reader: " << d); }
      PB_ASSERT(got.header == want.header, "after" << ops << ": " << got.header << " instead of " << want.header);
      PB_ASSERT(got.flag == want.flag, "after" << ops << ": contains gives " << got.flag);
      PB_ASSERT(got.keys == want.keys, "after" << ops << ": other keys");
      after |= failed;
    } else failed = true;
    PB_ASSERT(rd->keys() == keys, "after" << ops << ": the listed names have changed");
  }
  c.describe((disk ? "disk" : "memory") + text + " |" + ops);
  c.label(damaged ? "with damaged entries" : "intact archive");
  c.label(after ? "a success after a failure" : failed ? "failures only at the end" : "no failures");
  if (k > 1) c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"history", history, 1}},
                  "archives of 1 to 5 entries, some damaged (checksum, NPY header, cut or broken stream, local header, offset), and up to 15 operations (read with right or wrong type, peek, contains, keys; existing and absent names); after every operation the result is compared with that of a fresh reader; non-trivial: more than one operation");
}
