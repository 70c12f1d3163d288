#include "npd.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <stdexcept>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>

namespace npd {
using ref::Arr;
namespace {
int g_in = -1, g_out = -1;
pid_t g_owner = 0;

void start() {
  if (g_owner == getpid()) return;
  int a[2], b[2];
  if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) abort();
  const char *py = getenv("VERIF_PYTHON"), *script = getenv("VERIF_NPD");
  if (!py || !script) { fprintf(stderr, "VERIF_PYTHON/VERIF_NPD not set\n"); _exit(77); }
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(a[0], 0);
    dup2(b[1], 1);
    unsetenv("LD_PRELOAD");
    execlp(py, py, "-E", "-s", script, (char *)nullptr);
    _exit(77);
  }
  close(a[0]);
  close(b[1]);
  g_out = a[1];
  g_in = b[0];
  g_owner = getpid();
}
struct Msg {
  std::string b;
  size_t p = 0;
  void pu(uint64_t v) { b.append(reinterpret_cast<char *>(&v), 8); }
  void ps(const std::string &s) { pu(s.size()); b += s; }
  uint64_t u() {
    if (p + 8 > b.size()) throw std::logic_error("short answer from the NumPy co-process");
    uint64_t v;
    memcpy(&v, b.data() + p, 8);
    p += 8;
    return v;
  }
  std::string s() {
    uint64_t n = u();
    if (p + n > b.size()) throw std::logic_error("short answer from the NumPy co-process");
    std::string r = b.substr(p, n);
    p += n;
    return r;
  }
};
void put(Msg &m, const Arr &a, bool big) {
  size_t w = a.max_len();
  m.ps(ref::descr(a.dt, big, w));
  m.pu(a.fortran);
  m.pu(a.shape.size());
  for (auto d : a.shape) m.pu(d);
  m.ps(ref::encode_payload(a, false, w));
}
bool get(Msg &m, Arr &a, std::string &dtype) {
  dtype = m.s();
  int order;
  size_t width;
  a = Arr();
  bool ok = ref::classify_descr(dtype, a.dt, order, width);
  a.fortran = m.u();
  a.shape.resize(m.u());
  for (auto &d : a.shape) d = m.u();
  std::string raw = m.s();
  if (!ok) return false;
  if (a.dt == ref::US) {
    size_t n = a.count(), p = 0;
    a.strs.resize(n);
    for (auto &x : a.strs) {
      for (size_t k = 0; k < width; ++k, p += 4) {
        uint32_t v = 0;
        for (int q = 0; q < 4; ++q) v |= uint32_t((unsigned char)raw.at(p + q)) << (8 * q);
        x.push_back(v);
      }
      while (!x.empty() && x.back() == 0) x.pop_back();
    }
  } else a.raw.assign(raw.begin(), raw.end());
  return true;
}
void io(bool wr, char *p, size_t n) {
  while (n) {
    ssize_t k = wr ? ::write(g_out, p, n) : ::read(g_in, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) { fprintf(stderr, "the NumPy co-process died\n"); _exit(78); }
    p += k;
    n -= size_t(k);
  }
}
std::string call(Msg &q, Msg &r) {
  start();
  uint64_t n = q.b.size();
  io(true, reinterpret_cast<char *>(&n), 8);
  io(true, q.b.data(), q.b.size());
  io(false, reinterpret_cast<char *>(&n), 8);
  r.b.resize(n);
  io(false, r.b.data(), n);
  if (r.u() != 0) { std::string e = r.s(); return e.empty() ? "error" : e; }
  return "";
}
} // namespace
std::string load(const std::string &npy, Arr &a, std::string &dtype) {
  Msg q, r;
  q.pu(1);
  q.ps(npy);
  std::string e = call(q, r);
  if (!e.empty()) return e;
  if (!get(r, a, dtype)) return "unsupported dtype " + dtype;
  return "";
}
std::string write(const Arr &a, bool big, int version, std::string &out) {
  Msg q, r;
  q.pu(2);
  q.pu(version);
  put(q, a, big);
  std::string e = call(q, r);
  if (e.empty()) out = r.s();
  return e;
}
static std::string zcall(int op, const std::string &npz, std::vector<Named> &out) {
  Msg q, r;
  q.pu(op);
  q.ps(npz);
  std::string e = call(q, r);
  if (!e.empty()) return e;
  out.resize(r.u());
  for (auto &x : out) {
    x.name = r.s();
    x.seen = r.s();
    if (!get(r, x.arr, x.dtype)) return "unsupported dtype " + x.dtype;
  }
  return "";
}
std::string zload(const std::string &npz, std::vector<Named> &out) { return zcall(3, npz, out); }
std::string zload_path(const std::string &path, std::vector<Named> &out) { return zcall(5, path, out); }
std::string zlist(const std::string &path, std::vector<Listed> &out) {
  Msg q, r;
  q.pu(6);
  q.ps(path);
  std::string e = call(q, r);
  if (!e.empty()) return e;
  out.resize(r.u());
  for (auto &x : out) {
    x.name = r.s();
    x.size = r.u();
    x.crc = r.u();
  }
  return "";
}
std::string zwrite(bool compressed, const std::vector<Named> &in, const std::vector<bool> &big, std::string &out, bool pipe) {
  Msg q, r;
  q.pu(4);
  q.pu((compressed ? 1 : 0) | (pipe ? 2 : 0));
  q.pu(in.size());
  for (size_t i = 0; i < in.size(); ++i) {
    q.ps(in[i].name);
    put(q, in[i].arr, big[i]);
  }
  std::string e = call(q, r);
  if (e.empty()) out = r.s();
  return e;
}
} // namespace npd
