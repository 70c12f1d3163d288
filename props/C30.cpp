// C30: paths mean exactly the files they name.  Histories of saves, loads,
// peeks and archives in a small directory tree, compared after every step with
// a model of the tree.
#include "archives.h"
#include "pipes.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/fsuid.h>

// path -> "f<bytes>", "d", "l<target>"; relative to the root of the tree
typedef std::map<std::string, std::string> Tree;
static void scan(const std::string &root, const std::string &rel, Tree &t) {
  DIR *d = opendir((root + "/" + rel).c_str());
  PB_ASSERT(d, "(harness) opendir");
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string r = rel.empty() ? n : rel + "/" + n, p = root + "/" + r;
    struct stat s;
    if (lstat(p.c_str(), &s)) continue;
    if (S_ISLNK(s.st_mode)) {
      char b[4096];
      ssize_t k = readlink(p.c_str(), b, sizeof b);
      t[r] = "l" + std::string(b, size_t(k > 0 ? k : 0));
    } else if (S_ISDIR(s.st_mode)) {
      t[r] = "d";
      scan(root, r, t);
    } else t[r] = "f" + lib::slurp(p);
  }
  closedir(d);
}
static void compare(const Tree &want, const Tree &got, const std::string &how) {
  for (auto &x : want) {
    auto it = got.find(x.first);
    PB_ASSERT(it != got.end(), how << ": " << short_name(x.first) << " is gone");
    if (it->second != x.second) {
      PB_ASSERT(it->second[0] == 'f' && x.second[0] == 'f', how << ": " << short_name(x.first) << " is another kind of file now");
      check_bytes(x.second.substr(1), it->second.substr(1), how + ": contents of " + short_name(x.first));
    }
  }
  for (auto &x : got) PB_ASSERT(want.count(x.first), how << ": " << short_name(x.first) << " has appeared");
}
struct Place {
  std::string path;   // as given to the library
  std::string target; // the file meant, relative to the root; "" if it cannot be opened
  bool create = true; // can a file be created there
};
// names a file system accepts
static std::string file_name(pbt::Source &s) {
  static const std::vector<std::string> F = {"a.npy", "b.npz", "a", "with space.npy", "-x", "%s%n", "n\nl", "\xC3\xA9\xE6\x97\xA5.npy", "\xFF\xFE", ".hidden", "a.npy.tmp", "a.npy~", "*", "'q'", "$HOME", "\\", "a:b", "tab\t", "..."};
  if (s.chance(1, 12)) return std::string(255, 'n');
  return s.pick(F);
}
struct AsUser { // file access with nobody's rights
  bool on;
  explicit AsUser(bool o) : on(o) { if (on) { setfsuid(65534); if (setfsuid(-1) != 65534) on = false; } }
  ~AsUser() { if (on) setfsuid(0); }
};
static Arr some(pbt::Source &s) { Arr a = s.chance(1, 12) ? entry_array(s, 4) : gen::small_array(s); strip(a); return a; }
static bool g_user_works = true;
static void files(pbt::Case &c) {
  std::string root = pbt::scratch() + "/tree";
  std::filesystem::remove_all(root);
  struct Rm { std::string p; ~Rm() { chdir(pbt::scratch().c_str()); std::error_code e; std::filesystem::remove_all(p, e); } } rm{root};
  mkdir(root.c_str(), 0755);
  mkdir((root + "/sub").c_str(), 0755);
  mkdir((root + "/sub/deep").c_str(), 0755);
  PB_ASSERT(chdir(root.c_str()) == 0, "(harness) chdir");
  std::string text;
  // some files that exist already
  std::vector<std::string> files;
  auto add = [&](const std::string &rel) { if (std::find(files.begin(), files.end(), rel) == files.end()) files.push_back(rel); };
  size_t n = c.s.draw(3);
  for (size_t i = 0; i < n; ++i) {
    std::string r = (c.s.coin() ? "" : "sub/") + file_name(c.s);
    add(r);
    std::string b;
    switch (c.s.draw(3)) {
    case 0: b = std::string(c.s.draw(20000), 'o'); break;
    case 1: b = encode_npy(some(c.s), c.s.coin()); break;
    case 2: b = ""; break;
    default: b = encode_npy(some(c.s), false) + std::string(c.s.draw(300), 'x');
    }
    lib::spit(root + "/" + r, b);
    text += " has " + short_name(r) + "(" + std::to_string(b.size()) + ")";
  }
  symlink("sub", (root + "/dirlink").c_str());
  symlink("dirlink/linked.npy", (root + "/link").c_str()); // may dangle
  symlink("nowhere/x", (root + "/dead").c_str());
  symlink("loop", (root + "/loop").c_str());
  lib::spit(root + "/plain", "plain");
  Tree model;
  scan(root, "", model);
  // what each existing file holds when the library wrote it
  std::map<std::string, Arr> npys;
  std::map<std::string, Model> npzs;
  std::map<std::string, bool> bigs;
  auto place = [&](bool existing) {
    Place p;
    switch (c.s.weighted({40, 6, 1, 1, 1, 1, 1, 1, 1, 1})) {
    case 0: {
      if (existing && !files.empty() && !c.s.chance(1, 6)) p.target = files[c.s.draw(files.size() - 1)];
      else p.target = std::string(c.s.coin() ? "" : c.s.coin() ? "sub/" : "sub/deep/") + file_name(c.s);
      static const std::vector<std::string> pre = {"", "./", "sub/../", "sub/deep/../../", "//"};
      size_t k = c.s.draw(4);
      p.path = k == 4 ? root + "//" + p.target : pre[k] + p.target;
      if (c.s.chance(1, 3)) p.path = root + "/" + p.target;
      if (k != 4 && p.target.compare(0, 4, "sub/") == 0 && c.s.chance(1, 4)) p.path = "dirlink/" + p.target.substr(4);
      break;
    }
    case 1: p.path = "link"; p.target = "sub/linked.npy"; break;
    case 2: p.path = "nodir/x.npy"; break;
    case 3: p.path = "plain/x.npy"; break;
    case 4: p.path = std::string(256, 'l'); break;
    case 5: p.path = ""; break;
    case 6: p.path = "sub"; break;
    case 7: p.path = "dead"; break;
    case 8: p.path = "loop"; break;
    default: p.path = "plain/"; break;
    }
    return p;
  };
  size_t steps = 2 + c.s.draw(8);
  size_t refused = 0, replaced = 0;
  for (size_t i = 0; i < steps; ++i) {
    size_t op = c.s.weighted({5, 3, 3, 3, 3});
    Place p = place(op >= 2 || c.s.coin());
    bool exists = !p.target.empty() && model.count(p.target);
    // with another user's rights: files readable but not writable, or neither
    bool user = g_user_works && c.s.chance(1, 6), secret = user && c.s.coin() && exists;
    std::string how = "step " + std::to_string(i) + ", ";
    lib::Result r;
    if (op < 2) {
      npy::endian_t e = draw_endian(c.s);
      how += (op == 0 ? "save to " : "archive to ") + short_name(p.path) + (user ? " as another user" : "");
      bool can = !p.target.empty() && !user;
      bool open = can;
      if (op == 0) {
        Arr a = some(c.s);
        int way = int(c.s.draw(lib::SAVE_PATH_WAYS - 1));
        { AsUser u(user); r = lib::attempt([&](lib::Result &) { lib::save(p.path, a, e, way); }); }
        if (can) { npys[p.target] = a; npzs.erase(p.target); bigs[p.target] = is_big(e); if (exists) ++replaced; model[p.target] = "f" + lib::save(a, e); add(p.target); }
        if (!can) PB_ASSERT(r.k == lib::Result::INVALID, how << ": " << lib::kind_name(r.k) << " (" << r.what << ") instead of std::invalid_argument");
      } else {
        npy::compression_method_t m = draw_method(c.s);
        Model mm;
        size_t k = c.s.draw(2);
        for (size_t j = 0; j < k; ++j) mm.e.push_back({"e" + std::to_string(j) + ".npy", some(c.s), is_big(e)});
        npy::npzstringwriter ref(m, e);
        int ctor = int(c.s.draw(2));
        r = lib::attempt([&](lib::Result &) {
          std::unique_ptr<npy::npzfilewriter> w;
          { AsUser u(user);
            w = ctor == 0 ? std::make_unique<npy::npzfilewriter>(p.path, m, e) : ctor == 1 ? std::make_unique<npy::npzfilewriter>(p.path.c_str(), m, e) : std::make_unique<npy::npzfilewriter>(std::filesystem::path(p.path), m, e); }
          open = w->is_open();
          for (auto &x : mm.e) lib::with_type(x.a.dt, [&](auto t) { auto v = lib::to_tensor<typename decltype(t)::type>(x.a); ref.write(x.name, v); w->write(x.name, v); });
          w->close();
          PB_ASSERT(!w->is_open(), how << ": is_open() after close");
        });
        ref.close();
        PB_ASSERT(open == can, how << ": is_open() is " << open);
        if (can) { npzs[p.target] = mm; npys.erase(p.target); if (exists) ++replaced; model[p.target] = "f" + ref.str(); add(p.target); }
        else PB_ASSERT(r.k != lib::Result::OK && r.k != lib::Result::NONSTD, how << ": the archive cannot be stored, but writing and closing gave " << lib::kind_name(r.k));
      }
      if (can) PB_ASSERT(r.k == lib::Result::OK, how << " threw " << r.what);
      else ++refused;
    } else {
      bool can = exists && !secret;
      how += (op == 2 ? "load " : op == 3 ? "peek " : "archive reader on ") + short_name(p.path) + (secret ? " without the right to" : user ? " as another user" : "");
      std::string real = root + "/" + p.target;
      if (exists) chmod(real.c_str(), secret ? 0600 : 0444);
      const Arr *a = exists && npys.count(p.target) ? &npys[p.target] : nullptr;
      const Model *m = exists && npzs.count(p.target) ? &npzs[p.target] : nullptr;
      bool dir = p.path == "sub";
      int way = int(c.s.draw(2)), ctor = int(c.s.draw(2));
      int dt = a ? a->dt : gen::dtype(c.s);
      if (op == 2) {
        { AsUser u(user); r = lib::attempt([&](lib::Result &x) { x.arr = lib::load(p.path, dt, way); }); }
        if (can && a) { PB_ASSERT(r.k == lib::Result::OK, how << " threw " << r.what); check_arr(*a, r.arr, how); }
        if (can && m) PB_ASSERT(r.k == lib::Result::RUNTIME, how << ": an archive was loaded as an array");
      } else if (op == 3) {
        npy::header_info h(npy::data_type_t::INT8, npy::endian_t::BIG, false, {});
        { AsUser u(user); r = lib::attempt([&](lib::Result &) { h = npy::peek(p.path); }); }
        if (can && a) { PB_ASSERT(r.k == lib::Result::OK, how << " threw " << r.what); std::string d = lib::diff_header(h, a->dt, bigs[p.target], a->shape, a->fortran, a->max_len()); PB_ASSERT(d.empty(), how << ": " << d); }
        if (can && m) PB_ASSERT(r.k == lib::Result::RUNTIME, how << ": an archive was peeked as an array");
      } else {
        r = lib::attempt([&](lib::Result &) {
          std::unique_ptr<npy::npzfilereader> rd;
          { AsUser u(user);
            rd = ctor == 0 ? std::make_unique<npy::npzfilereader>(p.path) : ctor == 1 ? std::make_unique<npy::npzfilereader>(p.path.c_str()) : std::make_unique<npy::npzfilereader>(std::filesystem::path(p.path)); }
          PB_ASSERT(rd->is_open(), how << ": is_open() is false");
          if (m) {
            PB_ASSERT(rd->keys().size() == m->e.size(), how << ": " << rd->keys().size() << " names");
            for (auto &x : m->e) lib::with_type(x.a.dt, [&](auto t) { typedef typename decltype(t)::type T; check_arr(x.a, lib::from_tensor<T>(rd->read<npy::tensor<T>>(x.name)), how); });
          }
          if (c.s.coin()) {
            rd->close();
            PB_ASSERT(!rd->is_open(), how << ": is_open() after close");
            if (m && !m->e.empty()) { lib::Result q = lib::attempt([&](lib::Result &) { rd->peek(m->e[0].name); }); PB_ASSERT(q.k != lib::Result::OK && q.k != lib::Result::NONSTD, how << ": reading a closed reader gave " << lib::kind_name(q.k)); }
          }
        });
        if (can && m) PB_ASSERT(r.k == lib::Result::OK, how << " threw " << r.what);
        if (can && a) PB_ASSERT(r.k == lib::Result::RUNTIME, how << ": an array was opened as an archive: " << lib::kind_name(r.k));
      }
      PB_ASSERT(r.k != lib::Result::NONSTD, how << ": " << r.what);
      if (!can) {
        ++refused;
        if (dir) PB_ASSERT(r.k != lib::Result::OK && r.k != lib::Result::NONSTD, how << ": a directory was read: " << lib::kind_name(r.k));
        else PB_ASSERT(r.k == lib::Result::INVALID, how << ": " << lib::kind_name(r.k) << " (" << r.what << ") instead of std::invalid_argument");
      }

      if (exists) chmod(real.c_str(), 0644);
    }
    text += "; " + how.substr(how.find(',') + 2);
    Tree now;
    scan(root, "", now);
    compare(model, now, how);
  }
  c.describe(text);
  if (refused) c.label("some paths cannot be opened");
  if (replaced) c.label("files replaced");
  if (refused || replaced) c.nontrivial();
}
// pipes named by a path: a file that cannot seek and has no size
static void pipes(pbt::Case &c) {
  std::string p = pbt::scratch() + "/pipe", path = p, link = pbt::scratch() + "/pipelink";
  if (c.s.chance(1, 4)) { unlink(link.c_str()); symlink("pipe", link.c_str()); path = link; }
  struct Rm { std::string a, b; ~Rm() { unlink(a.c_str()); unlink(b.c_str()); } } rm{p, link};
  npy::endian_t e = draw_endian(c.s);
  size_t op = c.s.draw(4);
  static const char *const OPS[] = {"load", "peek", "save", "archive", "archive reader"};
  std::string text = std::string("pipe, ") + OPS[op] + " ";
  c.label(std::string("pipe: ") + OPS[op]);
  c.nontrivial();
  if (op < 3) {
    Arr a = gen::array(c.s, [&] { gen::ArrOpts o; o.max_bytes = c.s.chance(1, 5) ? 300000 : 3000; o.shape.max_elems = o.max_bytes; return o; }());
    strip(a);
    c.describe(text + a.text(1));
    std::string want = lib::save(a, e);
    if (op == 2) {
      PipeIn in(p);
      int way = int(c.s.draw(lib::SAVE_PATH_WAYS - 1));
      lib::Result r = lib::attempt([&](lib::Result &) { lib::save(path, a, e, way); });
      PB_ASSERT(r.k == lib::Result::OK, "saving to a pipe threw " << r.what);
      check_bytes(want, in.finish(), "what went through the pipe");
    } else {
      PipeOut out(p, want + std::string(c.s.chance(1, 4) ? c.s.draw(9000) : 0, 'z'));
      if (op == 0) {
        Arr got;
        int way = int(c.s.draw(lib::LOAD_PATH_WAYS - 1));
        lib::Result r = lib::attempt([&](lib::Result &) { got = lib::load(path, a.dt, way); });
        PB_ASSERT(r.k == lib::Result::OK, "loading from a pipe threw " << r.what);
        check_arr(a, got, "the array that came through the pipe");
      } else {
        npy::header_info h(npy::data_type_t::INT8, npy::endian_t::BIG, false, {});
        lib::Result r = lib::attempt([&](lib::Result &) { h = npy::peek(path); });
        PB_ASSERT(r.k == lib::Result::OK, "peeking a pipe threw " << r.what);
        std::string d = lib::diff_header(h, a.dt, is_big(e), a.shape, a.fortran, a.max_len());
        PB_ASSERT(d.empty(), "peek of a pipe: " << d);
      }
    }
    return;
  }
  npy::compression_method_t m = draw_method(c.s);
  Model mm;
  size_t k = c.s.weighted({1, 3, 3, 1});
  for (size_t j = 0; j < k; ++j) {
    mm.e.push_back({gen::stored_name(gen::name(c.s, true) + std::to_string(j)), entry_array(c.s, 10), is_big(e)});
    text += " " + short_name(mm.e.back().name) + "=" + mm.e.back().a.text(1);
  }
  c.describe(text + " " + method_name(m));
  auto ref = lib::make_writer("", m, e);
  for (auto &x : mm.e) ref->write(x.name, x.a);
  ref->close();
  std::string want = ref->bytes();
  if (op == 3) {
    PipeIn in(p);
    lib::Result r = lib::attempt([&](lib::Result &) {
      auto w = lib::make_writer(path, m, e, int(c.s.draw(2)));
      for (auto &x : mm.e) w->write(x.name, x.a);
      w->close();
    });
    PB_ASSERT(r.k == lib::Result::OK, "an archive written to a pipe threw " << r.what);
    check_bytes(want, in.finish(), "the archive that went through the pipe");
  } else { // reads it right or refuses
    PipeOut out(p, want);
    lib::Result r = lib::attempt([&](lib::Result &) {
      auto rd = lib::make_reader_file(path, int(c.s.draw(2)));
      PB_ASSERT(rd->keys().size() == mm.e.size(), "the archive read from a pipe lists " << rd->keys().size() << " names");
      for (auto &x : mm.e) check_arr(x.a, rd->read(x.name, x.a.dt), "an entry of an archive read from a pipe");
    });
    PB_ASSERT(r.k != lib::Result::NONSTD, "reading an archive from a pipe: " << r.what);
  }
}
static void init() {
  // another user's rights show only below directories open to all
  std::string p = pbt::scratch();
  chmod(p.c_str(), 0755);
  chmod(p.substr(0, p.rfind('/')).c_str(), 0755);
  setfsuid(65534);
  g_user_works = setfsuid(-1) == 65534;
  setfsuid(0);
}
int main(int argc, char **argv) {
  pbt::worker_init = init;
  return pbt::run(argc, argv, {{"files", files, 12}, {"pipes", pipes, 1}},
                  "up to 10 saves, archives, loads, peeks and readers in a directory tree with older files, links, directories, strange names, relative and absolute spellings and paths that cannot be opened (missing, too long, through a file, loops, another user's rights); after every step the whole tree must be as modelled; and arrays and archives saved to and read from named pipes; non-trivial: a file was replaced, a path refused or a pipe used");
}
