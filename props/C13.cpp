// C13: NPZ archives return exactly what was written to them.
#include "archives.h"

static std::string any_name(pbt::Source &s) {
  if (s.chance(1, 10)) { // arbitrary bytes
    std::string r;
    size_t n = s.draw(12);
    for (size_t i = 0; i < n; ++i) r += char(s.draw(255));
    return r;
  }
  return gen::name(s, false);
}
struct Job { // one archive being written
  Model m;
  std::unique_ptr<lib::Writer> w;
  std::string path, bytes;
  npy::endian_t e;
  npy::compression_method_t method;
};
static void roundtrip(pbt::Case &c) {
  size_t jobs = 1 + c.s.chance(1, 4); // at times two archives written in turns
  std::vector<Job> js(jobs);
  std::string text;
  for (size_t j = 0; j < jobs; ++j) {
    Job &b = js[j];
    b.e = draw_endian(c.s);
    b.method = draw_method(c.s);
    if (c.s.coin()) b.path = pbt::scratch() + "/a" + char('0' + j) + ".npz";
    b.w = lib::make_writer(b.path, b.method, b.e, int(c.s.draw(2)));
    text += std::string(b.path.empty() ? " memory " : " disk ") + method_name(b.method) + " " + endian_name(b.e);
    c.label(std::string(b.path.empty() ? "memory, " : "disk, ") + method_name(b.method));
  }
  size_t n = c.s.chance(1, 20) ? c.s.draw(120) : c.s.weighted({1, 3, 4, 4, 3, 2, 2, 1, 1});
  bool dups = false, refused = false;
  for (size_t i = 0; i < n; ++i) {
    Job &b = js[c.s.draw(jobs - 1)];
    std::string name;
    bool reuse = !b.m.e.empty() && c.s.chance(1, 6);
    if (reuse) {
      name = b.m.e[c.s.draw(b.m.e.size() - 1)].name;
      size_t how = c.s.draw(2);
      if (how == 1) name = name.substr(0, name.size() - 4);
      if (how == 2) name += ".npy";
    } else name = any_name(c.s);
    bool oversized = c.s.chance(1, 60);
    if (oversized) name = std::string(c.s.range(65520, 65550), 'n') + (c.s.coin() ? ".npy" : "");
    Model::E x{gen::stored_name(name), Arr(), is_big(b.e)};
    if (!b.m.e.empty() && c.s.chance(1, 6)) x.a = b.m.e[c.s.draw(b.m.e.size() - 1)].a; // something written before, again
    else x.a = entry_array(c.s, 25);
    text += " " + short_name(name) + "=" + x.a.text(1);
    lib::Result r = lib::attempt([&](lib::Result &) { b.w->write(name, x.a); });
    if (r.k != lib::Result::OK) {
      PB_ASSERT(x.name.size() > 65535, "writing " << short_name(name) << " threw " << r.what);
      refused = true;
      continue;
    }
    dups |= b.m.exact(x.name) != nullptr;
    b.m.e.push_back(x);
  }
  c.describe(text);
  c.label(n == 0 ? "entries: 0" : n == 1 ? "entries: 1" : n <= 8 ? "entries: 2-8" : "entries: 9+");
  if (dups) c.label("a name written twice");
  if (refused) c.label("a name too long for the format");
  for (Job &b : js) {
    bool close = c.s.coin();
    if (close) b.w->close();
    else if (b.path.empty()) b.w->close(); // the string is taken before the writer ends
    b.bytes = b.w->bytes();
    b.w.reset();
    if (b.m.e.size() >= 2) c.nontrivial();
  }
  for (Job &b : js) {
    std::unique_ptr<lib::Reader> rd;
    size_t from = c.s.draw(2);
    if (!b.path.empty() && from != 0) rd = lib::make_reader_file(b.path, int(c.s.draw(2)));
    else if (from == 0 || from == 1) rd = lib::make_reader_mem(b.bytes, int(c.s.draw(1)));
    else { // bytes of a memory writer through a file
      std::string p = pbt::scratch() + "/b.npz";
      lib::spit(p, b.bytes);
      rd = lib::make_reader_file(p, int(c.s.draw(2)));
      unlink(p.c_str());
    }
    check_keys(*rd, b.m, "reader");
    std::vector<std::string> ns = lookups(b.m, c.s);
    size_t cap = 0;
    for (auto &q : ns) { if (++cap > 60) break; check_lookup(*rd, b.m, q, c.s, "reader"); }
    check_keys(*rd, b.m, "reader after reading");
    if (!b.path.empty()) unlink(b.path.c_str());
  }
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"roundtrip", roundtrip, 1}},
                  "one archive, or two written in turns, of 0 to 120 arrays under random names (repeated names, suffix variants, arbitrary bytes, up to 65550 bytes long) written to disk or memory; every name, suffix variant and several absent names looked up in random order; non-trivial: an archive with at least two entries");
}
