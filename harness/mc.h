// Bounded exhaustive explorer for real code (stateless model checking of
// sequential code).  A "family" is a finite case space: `roots` roots, each of
// which may branch further through Ctx::pick().  Every leaf of that tree is
// executed once, on the real library, in forked workers; a failing leaf is
// re-executed from a pristine process before it is reported.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cmath>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Fail {
  std::string key, msg;
};

void saw(double v);  // defined by C30, which runs the other checks

class Ctx {
 public:
  uint64_t root = 0;
  bool verbose = false;
  // nondeterministic choice in [0,n)
  int pick(int n);
  // record a (canonicalised, hashed) state of the system under test
  void state(uint64_t hash);
  // operations executed on the real implementation
  void step(uint64_t n = 1) { transitions += n; }
  // comparisons of the real implementation against the reference
  void compared(uint64_t n = 1) { compares += n; }
  // human-readable trace, only rendered while replaying
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char *key, const char *fmt, ...)
      __attribute__((format(printf, 3, 4)));
  // a guard that ends this leaf silently (outside of the property's domain)
  [[noreturn]] void skip();

  // ---- checks (NaN never passes)
  void near(const char *key, double got, double want, double tol) {
    ++compares;
#ifdef MC_OBSERVE
    mc::saw(got);
#endif
    if (!(std::fabs(got - want) <= tol))
      fail(key, "got %.9g, expected %.9g (tolerance %.3g)", got, want, tol);
  }
  void yes(const char *key, bool cond, const char *what) {
    ++compares;
#ifdef MC_OBSERVE
    mc::saw(cond);
#endif
    if (!cond) fail(key, "%s", what);
  }

  // internal
  std::vector<int> choices, arity;
  size_t pos = 0;
  uint64_t transitions = 0, compares = 0;
};

struct Skip {};

typedef std::function<void(Ctx &)> Run;

// register a family. `bound` describes the enumerated space in words.
// tiers: 0 = quick and thorough, 1 = thorough only
void family(const std::string &name, uint64_t roots, Run run,
            const std::string &bound);

bool thorough();

// ---- for C30, which runs the executions of the other checks
extern void (*onState)(uint64_t);            // receives what state() is given
extern int (*onPick)(size_t pos, int n);     // chooses instead of the explorer
struct Skip;

// hashing of canonical states
struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash &u(uint64_t v) {
    v *= 0x9E3779B97F4A7C15ull;
    v ^= v >> 29;
    h ^= v;
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 32;
    return *this;
  }
  Hash &q(double v, double quantum = 1e-4) {  // quantised real
    if (!(v == v)) return u(0x7ff8dead);
    if (std::fabs(v) > 1e15) return u(v > 0 ? 0x7ff0 : 0xfff0);
    return u((uint64_t)(int64_t)std::llround(v / quantum));
  }
  Hash &s(const std::string &t) {
    u(t.size());
    for (unsigned char c : t) u(c + 1);
    return *this;
  }
};

// mixed radix decoder of a root index
struct Dec {
  uint64_t i;
  explicit Dec(uint64_t v) : i(v) {}
  size_t operator()(size_t n) {
    size_t r = i % n;
    i /= n;
    return r;
  }
};

// defined by each check: registers its families
void setup();

}  // namespace mc
