// A small property-based testing engine (choice-sequence style).
//
// A property is a function  void prop(pbt::Case &c)  that draws every random
// decision from c.s (a Source), so that a case is fully described by its
// sequence of draws.  The engine
//   * generates cases as a pure function of (seed, case index), in J forked
//     workers, so a crash of the code under test is an observed outcome;
//   * on a failure (exception, failed PB_ASSERT, signal, sanitizer abort, CPU
//     limit) shrinks the sequence of draws, re-executing candidates in forked
//     children, confirms the result by replay, and writes a replay file;
//   * counts cases, classes and distinct non-trivial cases.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail : std::exception {
  std::string msg;
  explicit Fail(std::string m) : msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};

// Thrown by a generator that cannot build a case (counted, never a failure).
struct Discard {};

struct Rng {
  uint64_t x;
  explicit Rng(uint64_t seed) : x(seed) {}
  uint64_t next() {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

class Source {
public:
  explicit Source(uint64_t seed) : m_rng(seed), m_replay(false) {}
  explicit Source(std::vector<uint64_t> choices)
      : m_rng(0), m_replay(true), m_in(std::move(choices)) {}
  // Uniform in [0, max].  Smaller is simpler.
  uint64_t draw(uint64_t max);
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
  bool coin() { return draw(1) != 0; }
  // true with probability num/den; false is the simple outcome
  bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }
  // index drawn with the given weights; earlier is simpler
  size_t weighted(std::initializer_list<unsigned> w);
  template <class C> const typename C::value_type &pick(const C &c) {
    return c[static_cast<size_t>(draw(c.size() - 1))];
  }
  // size in [0,max], biased to small values and to max and powers of two
  uint64_t size(uint64_t max);
  // bytes: filled from one of several patterns by a constant number of draws
  void fill(uint8_t *p, size_t n);
  const std::vector<uint64_t> &recorded() const { return m_out; }

private:
  Rng m_rng;
  bool m_replay;
  std::vector<uint64_t> m_in;
  size_t m_pos = 0;
  std::vector<uint64_t> m_out;
};

class Case {
public:
  Source &s;
  explicit Case(Source &src) : s(src) {}
  void label(const std::string &l) { labels[l]++; }
  void nontrivial() { is_nontrivial = true; }
  void describe(const std::string &d) {
    if (desc.size() < 4000) {
      if (!desc.empty()) desc += "; ";
      desc += d.substr(0, 1500);
    }
    publish();
  }
  std::map<std::string, uint64_t> labels;
  bool is_nontrivial = false;
  std::string desc;

private:
  void publish();
};

struct Options {
  std::string property; // property id for reports
  uint64_t seed = 1;
  uint64_t cases = 1000;
  int jobs = 8;
  double budget = 600;   // wall seconds after which no new case is started
  int cpu_limit = 120;   // CPU seconds per case
  std::string stats;     // stats output (JSON)
  std::string replay;    // replay file to run
  std::string outdir;    // where replay files go
  std::string tier = "quick";
  std::string stage = "main";
  bool sticky = false;   // a failure counts even if it does not reproduce
  std::string scratch;   // private scratch directory (created by the caller)
};
extern Options opt;

// per-worker scratch directory below opt.scratch
const std::string &scratch();

typedef void (*PropFn)(Case &);
struct Prop {
  const char *name;
  PropFn fn;
  unsigned weight; // share of the cases
};
// Called once in every worker/child process before the first case.
extern void (*worker_init)();

int run(int argc, char **argv, const std::vector<Prop> &props,
        const char *rule);

std::string hexdump(const std::string &s, size_t max = 64);

#define PB_STR2(x) #x
#define PB_STR(x) PB_STR2(x)
#define PB_FAIL(expr)                                                          \
  do {                                                                         \
    std::ostringstream pb_o_;                                                  \
    pb_o_ << expr;                                                             \
    throw pbt::Fail(pb_o_.str());                                              \
  } while (0)
#define PB_ASSERT(cond, expr)                                                  \
  do {                                                                         \
    if (!(cond)) PB_FAIL(expr << "  [" << #cond << "]");                       \
  } while (0)

} // namespace pbt
#endif
