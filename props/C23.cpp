// C23: independent uses from different threads do not interfere (built with
// ThreadSanitizer).
#include "archives.h"
#include <atomic>
#include <thread>

// One operation on objects of its own, and its outcome as text.
struct Job {
  int kind;
  Arr a;
  npy::endian_t e;
  npy::compression_method_t m;
  std::string bytes, path, text;
  std::vector<Model::E> entries;
};
static std::string outcome(const Job &j) {
  std::string out;
  lib::Result r = lib::attempt([&](lib::Result &) {
    switch (j.kind) {
    case 0: out = lib::save(j.a, j.e); break;
    case 1: out = "loaded " + lib::load_bytes(j.bytes, j.a.dt).text(64); break;
    case 2: out = lib::header_text(lib::peek_bytes(j.bytes)); break;
    case 3: { // an archive in memory and back
      auto w = lib::make_writer("", j.m, j.e);
      for (auto &x : j.entries) w->write(x.name, x.a);
      w->close();
      out = w->bytes();
      auto rd = lib::make_reader_mem(out);
      for (auto &x : j.entries) {
        out += lib::header_text(rd->peek(x.name));
        std::string d = diff(x.a, rd->read(x.name, x.a.dt));
        if (!d.empty()) out += "DIFFERS " + d;
      }
      break;
    }
    case 4: { // through files
      lib::save(j.path + ".npy", j.a, j.e);
      out = lib::slurp(j.path + ".npy");
      std::string d = diff(j.a, lib::load(j.path + ".npy", j.a.dt));
      if (!d.empty()) out += "DIFFERS " + d;
      auto w = lib::make_writer(j.path + ".npz", j.m, j.e);
      for (auto &x : j.entries) w->write(x.name, x.a);
      w.reset();
      auto rd = lib::make_reader_file(j.path + ".npz");
      for (auto &k : rd->keys()) out += k;
      for (auto &x : j.entries) {
        d = diff(x.a, rd->read(x.name, x.a.dt, 1));
        if (!d.empty()) out += "DIFFERS " + d;
      }
      out += lib::slurp(j.path + ".npz");
      break;
    }
    case 5: { // a damaged archive
      auto rd = lib::make_reader_mem(j.bytes);
      for (auto &x : j.entries) {
        lib::Result q = lib::attempt([&](lib::Result &) { out += lib::header_text(rd->peek(x.name)); });
        out += lib::kind_name(q.k);
        q = lib::attempt([&](lib::Result &) { out += rd->read(x.name, x.a.dt).text(64); });
        out += lib::kind_name(q.k);
      }
      break;
    }
    case 6: // type codes
      for (int d = 0; d < NDT; ++d) {
        lib::Result q = lib::attempt([&](lib::Result &) { out += npy::to_dtype(lib::code_of(d), j.e); });
        out += lib::kind_name(q.k);
      }
      for (auto &x : j.entries) {
        lib::Result q = lib::attempt([&](lib::Result &) { auto p = npy::from_dtype(x.name); out += std::to_string(int(p.first)) + "/" + std::to_string(int(p.second)); });
        out += lib::kind_name(q.k);
      }
      break;
    default: { // indexing, slices
      lib::with_type(j.a.dt, [&](auto t) {
        auto x = lib::to_tensor<typename decltype(t)::type>(j.a);
        auto y = x;
        std::vector<int> idx(j.a.shape.size(), -1);
        size_t k = j.a.count() ? x.ravel(idx) : 0;
        out += std::to_string(k) + x.dtype(j.e);
        y.set(idx, x.get(idx));
        out += lib::from_tensor(y).text(64);
      });
    }
    }
  });
  return out + lib::kind_name(r.k);
}
static Job job(pbt::Source &s, const std::string &path) {
  Job j;
  j.kind = int(s.weighted({3, 4, 2, 3, 3, 2, 2, 1}));
  j.path = path;
  j.a = gen::small_array(s);
  j.e = draw_endian(s);
  j.m = draw_method(s);
  static const char *K[] = {"save", "load", "peek", "archive in memory", "files", "damaged archive", "type codes", "tensor"};
  j.text = K[j.kind];
  size_t n = s.weighted({1, 3, 2});
  for (size_t i = 0; i < n; ++i) j.entries.push_back({gen::stored_name(gen::name(s, false) + std::to_string(i)), gen::small_array(s), is_big(j.e)});
  if (j.kind == 1 || j.kind == 2) {
    j.bytes = encode_npy(j.a, s.coin());
    if (s.chance(1, 4)) j.bytes.resize(s.draw(j.bytes.size()));
    if (s.chance(1, 4)) j.a.dt = gen::dtype(s);
  }
  if (j.kind == 5) {
    std::vector<ZEntry> es;
    for (auto &x : j.entries) { ZEntry z; z.name = x.name; z.data = encode_npy(x.a, x.big); z.method = 8; es.push_back(z); }
    j.bytes = build_zip(es);
    size_t at = s.draw(j.bytes.size() - 1);
    j.bytes[at] = char(j.bytes[at] ^ (1 << s.draw(7)));
  }
  if (j.kind == 6)
    for (auto &x : j.entries) x.name = s.coin() ? ref::descr(gen::dtype(s), s.coin(), 3) : x.name;
  return j;
}
static void threads(pbt::Case &c) {
  size_t nt = 2 + c.s.weighted({3, 3, 2, 1, 1, 1, 1});
  std::vector<std::vector<Job>> js(nt);
  std::string text = std::to_string(nt) + " threads:";
  bool same = c.s.chance(1, 3); // all threads do the same kind of thing
  for (size_t t = 0; t < nt; ++t) {
    size_t k = 1 + c.s.draw(3);
    for (size_t i = 0; i < k; ++i) {
      Job j = job(c.s, pbt::scratch() + "/t" + std::to_string(t) + "_" + std::to_string(i));
      if (same && t) { std::string p = j.path; j = js[0][std::min(i, js[0].size() - 1)]; j.path = p; }
      js[t].push_back(j);
      text += (i ? ", " : " | ") + j.text;
    }
  }
  c.describe(text);
  c.nontrivial();
  c.label(std::to_string(nt) + " threads");
  // together first, so that nothing is initialised yet in the first case
  const int ROUNDS = 6;
  std::vector<std::vector<std::vector<std::string>>> got(nt, std::vector<std::vector<std::string>>(ROUNDS));
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (int r = 0; r < ROUNDS; ++r) {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < int(nt) * (r + 1)) std::this_thread::yield();
        for (auto &j : js[t]) got[t][size_t(r)].push_back(outcome(j));
      }
    });
  for (auto &t : th) t.join();
  for (size_t t = 0; t < nt; ++t)
    for (size_t i = 0; i < js[t].size(); ++i) {
      std::string alone = outcome(js[t][i]);
      for (int r = 0; r < ROUNDS; ++r)
        PB_ASSERT(got[t][size_t(r)][i] == alone, "thread " << t << " (" << js[t][i].text << "): beside other threads it gave " << pbt::hexdump(got[t][size_t(r)][i], 200) << ", alone " << pbt::hexdump(alone, 200));
      unlink((js[t][i].path + ".npy").c_str());
      unlink((js[t][i].path + ".npz").c_str());
    }
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"threads", threads, 1}},
                  "2 to 8 threads, each with 1 to 4 operations (save, load, peek, archives in memory and on disk, damaged inputs, type codes, tensors) on objects of its own, run together 6 times and then alone, under ThreadSanitizer; non-trivial: all of it");
}
