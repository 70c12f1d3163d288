#include "pbt.h"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
Options opt;
void (*worker_init)() = nullptr;

namespace {
const size_t MAXC = 1 << 18; // recorded draws kept for crash recovery
struct Shared {
  volatile uint64_t index;
  volatile uint64_t evaluated;
  volatile uint64_t nchoices;
  volatile int state; // 0 running, 1 failed (message valid), 2 done
  char msg[8192];
  char desc[4096];
  uint64_t choices[MAXC];
};
Shared *g_sh = nullptr; // this process's area
std::vector<Prop> g_props;
std::string g_scratch;
FILE *g_out = nullptr; // the real stdout

double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t *b = static_cast<const uint8_t *>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<Shared *>(p);
}
void set_cpu_timer(int seconds) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &it, nullptr);
  // a case that waits for ever (a deadlock) is an outcome, too
  alarm(seconds ? unsigned(std::max(150, 2 * seconds)) : 0);
}
void quiet() {
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 1);
  if (!getenv("PBT_VERBOSE")) dup2(fd, 2);
  close(fd);
}
size_t choose_prop(uint64_t seed, uint64_t index) {
  unsigned total = 0;
  for (auto &p : g_props) total += p.weight;
  // every block of `total` cases has each property exactly as often as it weighs
  Rng r(seed * 0x1000003ull + index / total * 0x9E3779B97F4A7C15ull + 17);
  std::vector<unsigned> order(total);
  for (unsigned i = 0; i < total; ++i) order[i] = i;
  for (unsigned i = total; i > 1; --i) std::swap(order[i - 1], order[r.next() % i]);
  uint64_t v = order[index % total];
  for (size_t i = 0; i < g_props.size(); ++i) {
    if (v < g_props[i].weight) return i;
    v -= g_props[i].weight;
  }
  return 0;
}
uint64_t case_seed(uint64_t seed, uint64_t index) {
  Rng r(seed ^ 0xD1B54A32D192ED03ull);
  uint64_t a = r.next();
  Rng q(a + index * 0x2545F4914F6CDD1Dull);
  return q.next();
}

// 0 pass, 1 fail (message in msg), 2 discard
int exec_case(PropFn fn, Case &c, std::string &msg) {
  try {
    fn(c);
    return 0;
  } catch (const Fail &f) {
    msg = f.msg;
    return 1;
  } catch (const Discard &) {
    return 2;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception escaped: ") + e.what();
    return 1;
  } catch (...) {
    msg = "unexpected non-standard exception escaped";
    return 1;
  }
}

void enter_child(const std::string &tag) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_scratch = opt.scratch + "/" + tag;
  mkdir(g_scratch.c_str(), 0700);
  quiet();
}

struct Totals {
  uint64_t evaluated = 0, discarded = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
};

[[noreturn]] void worker(int w, Shared *sh, double deadline) {
  g_sh = sh;
  enter_child("w" + std::to_string(w));
  if (worker_init) worker_init();
  Totals t;
  std::string base = opt.scratch + "/stats" + std::to_string(w);
  int rc = 0;
  for (uint64_t i = w; i < opt.cases; i += opt.jobs) {
    if (now() > deadline) break;
    sh->index = i;
    sh->nchoices = 0;
    sh->desc[0] = 0;
    set_cpu_timer(opt.cpu_limit);
    size_t pi = choose_prop(opt.seed, i);
    Source src(case_seed(opt.seed, i));
    Case c(src);
    std::string msg;
    int r = exec_case(g_props[pi].fn, c, msg);
    if (r == 1) {
      strncpy(sh->msg, msg.c_str(), sizeof sh->msg - 1);
      sh->state = 1;
      rc = 3;
      break;
    }
    sh->evaluated = sh->evaluated + 1;
    t.evaluated++;
    if (r == 2) { t.discarded++; continue; }
    for (auto &l : c.labels) t.labels[l.first] += l.second;
    t.labels[std::string("prop:") + g_props[pi].name]++;
    if (c.is_nontrivial) {
      t.nontrivial++;
      auto &rec = src.recorded();
      uint64_t h = fnv(rec.data(), rec.size() * 8) * 31 + pi;
      if (t.distinct.insert(h).second && t.samples.size() < 3 &&
          (t.distinct.size() % 7 == 1))
        t.samples.push_back("case " + std::to_string(i) + " [" +
                            g_props[pi].name + "]: " + c.desc.substr(0, 400));
    }
  }
  set_cpu_timer(0);
  {
    std::ofstream o(base);
    o << t.evaluated << " " << t.discarded << " " << t.nontrivial << " "
      << t.labels.size() << "\n";
    for (auto &l : t.labels) o << l.second << " " << l.first << "\n";
    o << t.samples.size() << "\n";
    for (auto s : t.samples) {
      for (auto &ch : s) if (ch == '\n') ch = ' ';
      o << s << "\n";
    }
    o << t.distinct.size() << "\n";
    for (auto h : t.distinct) o << h << "\n";
  }
  if (rc == 0) sh->state = 2;
  _exit(rc);
}

std::string status_text(int st) {
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGALRM) return "did not terminate within the wall-clock limit";
    if (s == SIGPROF) return "did not terminate within the CPU limit";
    return std::string("killed by signal ") + strsignal(s);
  }
  int rc = WEXITSTATUS(st);
  if (rc == 99) return "sanitizer report (memory or undefined-behaviour error)";
  return "exit status " + std::to_string(rc);
}

// Not the doing of the code under test: the NumPy co-process failed (77, 78) or
// the sandbox's memory guard ended the process.
bool harness_error(int st) {
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM;
  return WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78;
}

struct Outcome {
  bool fail = false;
  std::string msg, desc;
  std::vector<uint64_t> choices; // draws actually made
};

// Runs body in a child; it reports through the shared area.
Outcome run_child(int cpu, const std::function<int(std::string &)> &body) {
  static Shared *sh = new_shared();
  sh->state = 0;
  sh->nchoices = 0;
  sh->msg[0] = sh->desc[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    g_sh = sh;
    enter_child("shrink");
    if (worker_init) worker_init();
    set_cpu_timer(cpu);
    std::string msg;
    int r = body(msg);
    set_cpu_timer(0);
    if (r == 1) {
      strncpy(sh->msg, msg.c_str(), sizeof sh->msg - 1);
      sh->state = 1;
      _exit(3);
    }
    sh->state = 2;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.desc = sh->desc;
  uint64_t n = std::min<uint64_t>(uint64_t(sh->nchoices), MAXC);
  o.choices.assign(&sh->choices[0], &sh->choices[0] + n);
  if (sh->state == 1) {
    o.fail = true;
    o.msg = sh->msg;
  } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !harness_error(st)) {
    o.fail = true;
    o.msg = status_text(st);
  }
  return o;
}
Outcome run_choices(size_t pi, const std::vector<uint64_t> &ch, int cpu) {
  return run_child(cpu, [&](std::string &msg) {
    Source src(ch);
    Case c(src);
    return exec_case(g_props[pi].fn, c, msg);
  });
}
Outcome run_sequence(uint64_t first, uint64_t last, uint64_t step) {
  return run_child(opt.cpu_limit * 4, [&](std::string &msg) {
    for (uint64_t i = first; i <= last; i += step) {
      Source src(case_seed(opt.seed, i));
      Case c(src);
      g_sh->nchoices = 0;
      int r = exec_case(g_props[choose_prop(opt.seed, i)].fn, c, msg);
      if (r == 1) return 1;
    }
    return 0;
  });
}

std::vector<uint64_t> shrink(size_t pi, std::vector<uint64_t> cur, Outcome &best) {
  double deadline = now() + 60;
  int runs = 0;
  int cpu = std::min(opt.cpu_limit, 20);
  // first confirm
  auto fails = [&](const std::vector<uint64_t> &v) {
    if (now() > deadline || runs > 3000) return false;
    ++runs;
    Outcome o = run_choices(pi, v, cpu);
    if (o.fail) { best = o; return true; }
    return false;
  };
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    // delete blocks
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= cur.size() && now() < deadline;) {
        std::vector<uint64_t> v(cur);
        v.erase(v.begin() + i, v.begin() + i + len);
        if (fails(v)) { cur = v; progress = true; }
        else i += len;
      }
      if (len == 1) break;
    }
    // zero blocks
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= cur.size() && now() < deadline; i += len) {
        bool any = false;
        for (size_t k = i; k < i + len; ++k) any |= cur[k] != 0;
        if (!any) continue;
        std::vector<uint64_t> v(cur);
        std::fill(v.begin() + i, v.begin() + i + len, 0);
        if (fails(v)) { cur = v; progress = true; }
      }
      if (len == 1) break;
    }
    // minimise single values by bisection
    for (size_t i = 0; i < cur.size() && now() < deadline; ++i) {
      uint64_t lo = 0, hi = cur[i];
      if (hi == 0) continue;
      while (lo < hi && now() < deadline) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> v(cur);
        v[i] = mid;
        if (fails(v)) { cur = v; hi = mid; progress = true; }
        else lo = mid + 1;
      }
    }
  }
  while (!cur.empty() && cur.back() == 0) cur.pop_back();
  return cur;
}

bool write_replay(const std::string &path, const std::string &kind, size_t pi,
                  const std::vector<uint64_t> &ch, uint64_t first, uint64_t last,
                  const Outcome &o) {
  std::ofstream f(path);
  f << "property " << opt.property << "\n";
  f << "stage " << opt.stage << "\n";
  f << "prop " << g_props[pi].name << "\n";
  f << "kind " << kind << "\n";
  f << "seed " << opt.seed << " first " << first << " last " << last << " step "
    << opt.jobs << "\n";
  f << "choices " << ch.size();
  for (auto v : ch) f << " " << v;
  f << "\n# failure: " << o.msg << "\n# case: " << o.desc << "\n";
  return f.good();
}

int do_replay() {
  std::ifstream f(opt.replay);
  std::string w, prop, kind;
  uint64_t first = 0, last = 0, step = 8, n = 0;
  std::vector<uint64_t> ch;
  while (f >> w) {
    if (w == "property") f >> w;
    else if (w == "stage") f >> w;
    else if (w == "prop") f >> prop;
    else if (w == "kind") f >> kind;
    else if (w == "seed") f >> opt.seed >> w >> first >> w >> last >> w >> step;
    else if (w == "choices") {
      f >> n;
      for (uint64_t i = 0, v; i < n && (f >> v); ++i) ch.push_back(v);
    } else std::getline(f, w);
  }
  Outcome o;
  if (kind == "sequence") o = run_sequence(first, last, step);
  else {
    size_t pi = 0;
    for (size_t i = 0; i < g_props.size(); ++i)
      if (prop == g_props[i].name) pi = i;
    o = run_choices(pi, ch, opt.cpu_limit);
  }
  fprintf(g_out, "REPLAY %s: %s\n  case: %s\n", o.fail ? "FAILS" : "passes",
          o.msg.c_str(), o.desc.c_str());
  fflush(g_out);
  return o.fail ? 1 : 0;
}
} // namespace

uint64_t Source::draw(uint64_t max) {
  uint64_t v;
  if (m_replay) {
    v = m_pos < m_in.size() ? m_in[m_pos++] : 0;
    if (v > max) v = max;
  } else if (max == 0) {
    v = 0;
  } else if (max == UINT64_MAX) {
    v = m_rng.next();
  } else {
    v = static_cast<uint64_t>((static_cast<unsigned __int128>(m_rng.next()) *
                               (max + 1)) >> 64);
  }
  m_out.push_back(v);
  if (g_sh && m_out.size() <= MAXC) {
    g_sh->choices[m_out.size() - 1] = v;
    g_sh->nchoices = m_out.size();
  }
  return v;
}

size_t Source::weighted(std::initializer_list<unsigned> w) {
  uint64_t total = 0;
  for (auto x : w) total += x;
  uint64_t v = draw(total - 1);
  size_t i = 0;
  for (auto x : w) {
    if (v < x) return i;
    v -= x;
    ++i;
  }
  return 0;
}

uint64_t Source::size(uint64_t max) {
  uint64_t r;
  switch (weighted({5, 3, 2, 1})) {
  case 0: r = draw(std::min<uint64_t>(max, 8)); break;
  case 1: r = draw(std::min<uint64_t>(max, 100)); break;
  case 2: { // around a power of two
    unsigned bits = 0;
    while (bits < 62 && (1ull << (bits + 1)) <= max) ++bits;
    uint64_t p = 1ull << draw(bits);
    uint64_t d = draw(2);
    r = d == 0 ? p : d == 1 ? p - 1 : p + 1;
    break;
  }
  default: r = draw(max);
  }
  return std::min(r, max);
}

void Source::fill(uint8_t *p, size_t n) {
  size_t mode = weighted({2, 3, 2, 6, 2, 2, 1});
  uint64_t seed = draw(0xFFFF);
  Rng r(seed * 7919 + 1);
  switch (mode) {
  case 0: memset(p, 0, n); break;
  case 1: for (size_t i = 0; i < n; ++i) p[i] = uint8_t(i + seed); break;
  case 2: memset(p, int(seed & 0xFF), n); break;
  case 3: {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); }
    for (; i < n; ++i) p[i] = uint8_t(r.next());
    break;
  }
  case 4: { // special bytes
    static const uint8_t sp[] = {0x00, 0xFF, 0x0A, 0x0D, 0x1A, 0x7F, 0x80, 0x20};
    for (size_t i = 0; i < n; ++i) p[i] = sp[r.next() & 7];
    break;
  }
  case 5: { // runs of varying length: compressible with matches
    size_t i = 0;
    while (i < n) {
      uint64_t v = r.next();
      size_t len = 1 + (v & 0x3F) * ((v >> 8) & 7);
      uint8_t b = uint8_t(v >> 16) & 0x1F;
      if ((v >> 24) & 1 && i > 300) {
        size_t back = 1 + (v >> 32) % std::min<size_t>(i, 40000);
        for (size_t k = 0; k < len && i < n; ++k, ++i) p[i] = p[i - back];
      } else
        for (size_t k = 0; k < len && i < n; ++k, ++i) p[i] = b;
    }
    break;
  }
  default: { // short period
    size_t per = 2 + seed % 37;
    for (size_t i = 0; i < n; ++i) p[i] = uint8_t((i % per) * 37 + (seed >> 3));
  }
  }
}

void Case::publish() {
  if (g_sh) strncpy(g_sh->desc, desc.c_str(), sizeof g_sh->desc - 1);
}

const std::string &scratch() { return g_scratch; }

std::string hexdump(const std::string &s, size_t max) {
  std::string o;
  char b[4];
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    snprintf(b, 4, "%02x", (unsigned char)s[i]);
    o += b;
  }
  if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}

int run(int argc, char **argv, const std::vector<Prop> &props, const char *rule) {
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--property") opt.property = v;
    else if (k == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") opt.cases = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--jobs") opt.jobs = atoi(v.c_str());
    else if (k == "--budget") opt.budget = atof(v.c_str());
    else if (k == "--cpu") opt.cpu_limit = atoi(v.c_str());
    else if (k == "--stats") opt.stats = v;
    else if (k == "--replay") opt.replay = v;
    else if (k == "--outdir") opt.outdir = v;
    else if (k == "--tier") opt.tier = v;
    else if (k == "--scratch") opt.scratch = v;
    else if (k == "--stage") opt.stage = v;
    else if (k == "--sticky") opt.sticky = v == "1";
    else if (k == "--only") {
      for (auto &p : props) if (v == p.name) g_props.push_back(p);
    } else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
  }
  if (g_props.empty()) g_props = props;
  g_out = fdopen(dup(1), "w");
  signal(SIGPIPE, SIG_IGN);
  if (opt.scratch.empty()) {
    char tmpl[] = "/tmp/pbtXXXXXX";
    opt.scratch = mkdtemp(tmpl);
    fprintf(stderr, "scratch %s\n", opt.scratch.c_str());
  }
  if (!opt.replay.empty()) return do_replay();

  double t0 = now(), deadline = t0 + opt.budget;
  std::vector<Shared *> sh(opt.jobs);
  std::vector<pid_t> pids(opt.jobs);
  fflush(nullptr);
  for (int w = 0; w < opt.jobs; ++w) {
    sh[w] = new_shared();
    pids[w] = fork();
    if (pids[w] == 0) worker(w, sh[w], deadline);
  }
  int failed = -1, failst = 0, left = opt.jobs;
  while (left > 0) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    for (int w = 0; w < opt.jobs; ++w) {
      if (pids[w] != p) continue;
      --left;
      pids[w] = 0;
      if (failed < 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        failed = w;
        failst = st;
        for (auto q : pids) if (q > 0) kill(q, SIGKILL);
      }
    }
  }
  Totals t;
  for (int w = 0; w < opt.jobs; ++w) {
    std::ifstream f(opt.scratch + "/stats" + std::to_string(w));
    uint64_t e, d, nt, nl, ns, nd;
    if (!(f >> e >> d >> nt >> nl)) { t.evaluated += sh[w]->evaluated; continue; }
    t.evaluated += e; t.discarded += d; t.nontrivial += nt;
    for (uint64_t i = 0, c; i < nl; ++i) { std::string l; f >> c; f.get(); std::getline(f, l); t.labels[l] += c; }
    f >> ns; f.get();
    for (uint64_t i = 0; i < ns; ++i) { std::string l; std::getline(f, l); if (t.samples.size() < 12) t.samples.push_back(l); }
    f >> nd;
    for (uint64_t i = 0, h; i < nd && (f >> h); ++i) t.distinct.insert(h);
  }
  int violations = 0;
  std::string note;
  if (failed >= 0 && harness_error(failst)) {
    fprintf(g_out, "HARNESS ERROR: a worker ended with %s\n", status_text(failst).c_str());
    return 2;
  }
  if (failed >= 0) {
    Shared *s = sh[failed];
    uint64_t idx = s->index;
    size_t pi = choose_prop(opt.seed, idx);
    Outcome first;
    first.fail = true;
    first.msg = s->state == 1 ? std::string(s->msg) : status_text(failst);
    first.desc = s->desc;
    std::vector<uint64_t> ch(s->choices, s->choices + std::min<uint64_t>(uint64_t(s->nchoices), MAXC));
    fprintf(g_out, "FAILURE at case %llu [%s]: %s\n  case: %s\n", (unsigned long long)idx,
            g_props[pi].name, first.msg.c_str(), first.desc.c_str());
    fflush(g_out);
    std::string path = opt.outdir + "/" + opt.property + "-" + opt.stage + "-" + g_props[pi].name + "-seed" + std::to_string(opt.seed) + "-case" + std::to_string(idx) + ".replay";
    int rep = 0, tries = 0;
    Outcome o;
    for (; tries < 6 && rep < 1; ++tries) { o = run_choices(pi, ch, opt.cpu_limit); rep += o.fail; }
    if (rep) {
      Outcome best = o;
      std::vector<uint64_t> small = shrink(pi, ch, best);
      int again = 0;
      for (int k = 0; k < 3; ++k) { Outcome q = run_choices(pi, small, opt.cpu_limit); if (q.fail) { ++again; best = q; } }
      if (!again) { small = ch; best = o; }
      write_replay(path, "choices", pi, small, idx, idx, best);
      fprintf(g_out, "SHRUNK (%zu -> %zu draws; replayed %d/3): %s\n  case: %s\n", ch.size(), small.size(), again, best.msg.c_str(), best.desc.c_str());
      violations = 1;
    } else {
      // perhaps state left by earlier cases of the same worker
      for (int k = 0; k < 3 && !violations; ++k) {
        Outcome q = run_sequence(failed, idx, opt.jobs);
        if (q.fail) {
          write_replay(path, "sequence", pi, ch, failed, idx, q);
          fprintf(g_out, "reproduced as a sequence of cases: %s\n", q.msg.c_str());
          violations = 1;
        }
      }
      if (!violations && opt.sticky) { // depends on the schedule
        write_replay(path, "choices", pi, ch, idx, idx, first);
        violations = 1;
      }
      if (!violations) {
        note = "a failure at case " + std::to_string(idx) + " did not reproduce: " + first.msg;
        fprintf(g_out, "NOT REPRODUCED: %s\n", note.c_str());
      }
    }
    if (violations) { fprintf(g_out, "VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str()); }
    fflush(g_out);
  }
  double wall = now() - t0;
  if (!opt.stats.empty()) {
    std::ofstream o(opt.stats);
    o << "{\"requested\": " << opt.cases << ", \"evaluations\": " << t.evaluated
      << ", \"discarded\": " << t.discarded << ", \"nontrivial\": " << t.nontrivial
      << ", \"distinct_nontrivial\": " << t.distinct.size() << ", \"wall_s\": " << wall
      << ", \"violations\": " << violations << ", \"note\": " << jstr(note)
      << ", \"rule\": " << jstr(rule) << ", \"labels\": {";
    bool first = true;
    for (auto &l : t.labels) { o << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
    o << "}, \"samples\": [";
    first = true;
    for (auto &s : t.samples) { o << (first ? "" : ", ") << jstr(s); first = false; }
    o << "]}\n";
  }
  return violations ? 1 : (failed >= 0 ? 4 : 0);
}
} // namespace pbt
