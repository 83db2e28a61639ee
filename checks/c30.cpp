// C30: calls share no hidden state.  The executions of all the other checks are
// run again, instrumented, under the monitor of harness/race.h:
// - alone in a fresh process, then in many orders after the other ones: what is
//   observed must be the same bit for bit;
// - any access of an execution to memory that another call can reach must be a
//   read, or be synchronised.  Then no two calls of any two executions in two
//   threads depend on each other: all their interleavings are equivalent (one
//   class of the partial order reduction), and give the result of the calls alone.
#include "mc.h"
#include "race.h"
#include "c30.h"
#include <algorithm>
#include <atomic>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#define CHECK(N) namespace mc { void setup_##N(); }
C30_CHECKS
#undef CHECK
namespace mc {
void saw(double v) {
  uint64_t u;
  memcpy(&u, &v, 8);
  race::observe(u);
}
struct Inner {
  std::string prop, name;
  uint64_t roots;
  Run run;
};
static std::vector<Inner> g_inner;
static std::string g_prop;
void family_in(const std::string &name, uint64_t roots, Run run, const std::string &) {
  g_inner.push_back({g_prop, name, roots, run});
}
}  // namespace mc
namespace {
struct Leaf {
  int fam;
  uint64_t root;
  int variant;
};
std::vector<Leaf> g_leaf;
std::vector<std::string> g_props;
std::vector<std::vector<int>> g_seq;  // leaves of each sequence
struct Alone {
  std::atomic<int> state;  // 0 unknown, 1 claimed, 2 known, 3 fails otherwise
  uint64_t seen;
};
Alone *g_alone;
int *const g_variant_ = new int(0);  // not in a static variable: those are compared
#define g_variant (*g_variant_)
int guide(size_t pos, int n) {
  if (g_variant == 0) return 0;
  if (g_variant == 1) return n - 1;
  uint64_t h = (pos + 1) * 0x9E3779B97F4A7C15ull + g_variant * 0xBF58476D1CE4E5B9ull;
  h ^= h >> 29;
  return (int)((h * 0x94D049BB133111EBull >> 33) % n);
}
// executes a leaf, returns what was observed
__attribute__((noinline)) uint64_t execute(const Leaf &l, bool record) {
  const mc::Inner &f = mc::g_inner[l.fam];
  mc::Ctx c;
  c.root = l.root;
  g_variant = l.variant;
  mc::onPick = guide;
  mc::onState = race::observe;
  race::observed();
  char base;
  if (record) race::begin(&base); else race::warm(true);
  try {
    f.run(c);
  } catch (mc::Fail &e) {
    uint64_t h = 7;
    for (char ch : e.key) h = h * 31 + ch;
    race::observe(h);
  } catch (mc::Skip &) {
    race::observe(8);
  } catch (std::exception &) {
    race::observe(9);
  }
  if (record) race::end(); else race::warm(false);
  race::observe(c.transitions);
  race::observe(c.compares);
  mc::onPick = nullptr;
  mc::onState = nullptr;
  return race::observed();
}
// in a fresh process: this one has executed nothing yet
void alone(const std::vector<int> &seq) {
  for (int i : seq) {
    int u = 0;
    Alone &a = g_alone[i];
    if (!a.state.compare_exchange_strong(u, 1)) continue;
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      a.seen = execute(g_leaf[i], false);
      a.state = 2;
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (a.state != 2) a.state = 3;
  }
  for (int i : seq)
    for (int t = 0; g_alone[i].state == 1 && t < 25000; ++t) usleep(1000);
}
std::string describe(int i) {
  const Leaf &l = g_leaf[i];
  const mc::Inner &f = mc::g_inner[l.fam];
  return f.prop + " " + f.name + " root " + std::to_string(l.root) + " variant " + std::to_string(l.variant);
}
int ORDERS = 16;
void sequence(mc::Ctx &c, const std::vector<int> &all) {
  alone(all);
  std::vector<int> seq;
  for (int i : all) if (g_alone[i].state == 2) seq.push_back(i);
  if (seq.empty()) c.skip();
  // the orders: from 8 (24) starting points forwards and backwards
  int o = (int)c.root;
  std::rotate(seq.begin(), seq.begin() + (size_t)(o / 2) * seq.size() / (ORDERS / 2), seq.end());
  if (o % 2) std::reverse(seq.begin(), seq.end());
  int before = -1;
  for (int i : seq) {
    uint64_t got = execute(g_leaf[i], false);
    c.step();
    c.compared();
    if (got != g_alone[i].seen)
      c.fail("history", "%s does not give after %s what it gives alone", describe(i).c_str(), before < 0 ? "other processes" : describe(before).c_str());
    before = i;
    c.state(mc::Hash().u(got).u(i).h);
  }
  race::forget();
  race::snapshot();
  uint64_t acc = race::accesses(), rd = race::sharedReads();
  for (size_t k = 0; k < seq.size(); ++k) {
    if ((k + o) % 4) continue;
    int i = seq[k];
    uint64_t got = execute(g_leaf[i], true);
    c.step();
    c.compared(2);
    race::unchanged();
    if (const char *p = race::problem()) c.fail("shared state", "%s: %s", describe(i).c_str(), p);
    if (race::once()) race::snapshot();
    if (got != g_alone[i].seen) c.fail("history", "%s does not give after other executions what it gives alone", describe(i).c_str());
  }
  c.log("%zu executions in order %d, then monitored: %llu accesses, %llu to shared memory, all of them reads or synchronised", seq.size(), o, (unsigned long long)(race::accesses() - acc), (unsigned long long)(race::sharedReads() - rd));
}
// the monitor reports each deliberate fault, and nothing else
__attribute__((noinline)) void monitored(int k, int arg) {
  char base;
  race::begin(&base);
  volatile double r = canary::call(k, arg);
  (void)r;
  race::end();
}
void canaries(mc::Ctx &c) {
  int k = (int)c.root;
  race::forget();
  race::warm(true);
  canary::call(k, 1);
  race::warm(false);
  race::snapshot();
  for (int a = 2; a < 4; ++a) {
    monitored(k, a);
    if (!race::problem()) race::unchanged();
    if (race::problem()) break;
    race::snapshot();
  }
  const char *p = race::problem();
  c.log("%s: %s", canary::NAME[k], p ? p : "no problem");
  c.step(2);
  if (canary::sound(k) && p) c.fail("monitor", "%s: reported %s", canary::NAME[k], p);
  if (!canary::sound(k) && !p) c.fail("monitor", "%s: not reported", canary::NAME[k]);
  c.compared();
  c.state(k);
}
// a reader writes nothing that another reader of the same objects can reach, and
// gives what it gives alone after any other reader
readers::Objects *g_objects;
// k < 0: builds the objects, which are shared from then on
__attribute__((noinline)) uint64_t read(int k, int variant, bool again) {
  char base;
  race::observed();
  race::begin(&base, again);
  if (k < 0) g_objects = readers::make(variant);
  else readers::call(k, *g_objects);
  race::end();
  return race::observed();
}
void reading(mc::Ctx &c) {
  mc::Dec d(c.root);
  const int k = d(readers::N), variant = d(4);
  // what is initialised once is, before
  read(-1, variant, false);
  read(k, 0, false);
  uint64_t seen = 0, shared = race::sharedReads(), writes = ~0ull;
  for (int b = -1; b < readers::N + 3; ++b) {
    // before: nothing, each reader of other objects, or this one of any other objects
    const int other = b < 0 ? -1 : b < readers::N ? (variant + 1) % 4 : (variant + 1 + b - readers::N) % 4;
    const int before = b < readers::N ? b : k;
    if (b >= 0) {
      read(-1, other, false);
      read(before, 0, false);
    }
    // and of these
    read(-1, variant, false);
    if (b >= 0 && b < readers::N) read(before, 0, false);
    if (race::sharedWrites() != writes) race::forget();
    race::snapshot();
    uint64_t got = read(k, 0, b >= 0 && b < readers::N);
    writes = race::sharedWrites();
    c.step(b < 0 ? 1 : 2);
    c.compared(2);
    if (b < 0) seen = got;
    race::unchanged();
    if (const char *p = race::problem()) c.fail("reader", "%s: %s", readers::name(k), p);
    if (got != seen) c.fail("reader", "%s does not give after %s (objects %d, %d) what it gives alone", readers::name(k), readers::name(before), other, variant);
  }
  // in another floating-point environment, which it leaves as it is
  read(-1, variant, false);
  race::upward(true);
  read(k, 0, false);
  race::upward(false);
  c.step();
  c.compared();
  if (const char *p = race::problem()) c.fail("reader", "%s, rounding upward: %s", readers::name(k), p);
  c.log("%s: %llu reads of shared memory", readers::name(k), (unsigned long long)(race::sharedReads() - shared));
  c.state(mc::Hash().u(seen).u(k).u(variant).h);
}
}  // namespace
void mc::setup() {
  race::started();
#define CHECK(N) g_prop = #N; g_props.push_back(g_prop); setup_##N();
  C30_CHECKS
  bool th = mc::thorough();
  if (th) ORDERS = 48;
  const int KQ = th ? 40 : 20, VQ = th ? 6 : 4;
  std::vector<int> mixed;
  for (auto &p : g_props) {
    g_seq.push_back({});
    for (size_t f = 0; f < g_inner.size(); ++f) {
      if (g_inner[f].prop != p) continue;
      // fewer executions of the long ones, which make the same calls as others
      int K = KQ, V = VQ;
      for (const char *h : {"C16 finest", "C16 fine-31", "C17 large"}) if (p + " " + g_inner[f].name == h) K = 0;
      for (const char *h : {"C16 fine-16", "C17 many", "C23 many", "C24 long", "C14 rounding"}) if (p + " " + g_inner[f].name == h) K = V = 1;
      if (g_inner[f].name == "many-links" || p == "C26" || p == "C19" || p == "C21" || p == "C16") K = std::min(K, th ? 12 : 4);
      uint64_t n = g_inner[f].roots;
      std::vector<uint64_t> rs;
      for (int k = 0; k < K; ++k) {
        double x = k * 0.6180339887498949;
        uint64_t r = n <= (uint64_t)K ? (uint64_t)k : (uint64_t)((x - (uint64_t)x) * n);
        if (r < n && std::find(rs.begin(), rs.end(), r) == rs.end()) rs.push_back(r);
      }
      for (size_t k = 0; k < rs.size(); ++k)
        for (int v = 0; v < V; ++v) {
          if (k == 1 && v == 2) mixed.push_back((int)g_leaf.size());
          g_seq.back().push_back((int)g_leaf.size());
          g_leaf.push_back({(int)f, rs[k], v});
        }
    }
  }
  g_props.push_back("all");
  g_seq.push_back(mixed);
  g_alone = (Alone *)mmap(nullptr, g_leaf.size() * sizeof(Alone), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mc::family("monitor", canary::N, canaries, "10 ways to share state without synchronisation are reported, 11 sound ways are not");
  mc::family("readers", (uint64_t)readers::N * (mc::thorough() ? 4 : 2), reading,
             std::to_string(readers::N) + " groups of calls which promise not to change their arguments, on objects which others read: alone and after each other group");
  for (size_t p = 0; p < g_props.size(); ++p) {
    const std::vector<int> &s = g_seq[p];
    mc::family("executions-" + g_props[p], ORDERS, [&s](mc::Ctx &c) { sequence(c, s); },
               std::to_string(s.size()) + " executions alone, then in " + std::to_string(ORDERS) + " orders, with all their accesses to memory");
  }
}
