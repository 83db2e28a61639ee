#include "mc.h"
#include <malloc.h>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:"
         "hard_rss_limit_mb=3000:handle_abort=0:symbolize=0:print_legend=0";
}
extern "C" const char *__ubsan_default_options() {
  return "abort_on_error=1:halt_on_error=1:print_stacktrace=0";
}
#endif

namespace mc {
namespace {

struct Family {
  std::string name;
  uint64_t roots;
  Run run;
  std::string bound;
};
std::vector<Family> g_fam;
bool g_thorough = false;

const int MAXFAM = 256, MAXCH = 1000, MAXW = 64, MAXCAND = 64, MAXKNOWN = 64;

struct Case {
  int fam;
  uint64_t chunk, root;
  int nch;
  int ch[MAXCH];
};
struct Slot {
  Case c;
  volatile uint64_t beat;
};
struct Cand {
  Case c;
  int kind;  // 0 mismatch, 1 crash, 2 hang
  char key[200];
  char msg[1800];
};
struct FamStat {
  std::atomic<uint64_t> cases, transitions, compares, skipped, states;
  std::atomic<int> stop;
};
struct Shared {
  FamStat fam[MAXFAM];
  Slot slot[MAXW];
  std::atomic<int> ncand;
  Cand cand[MAXCAND];
  std::atomic<uint64_t> known[MAXKNOWN];
  std::atomic<uint64_t> saturated;
};
Shared *S;
std::atomic<uint64_t> *T;
uint64_t TMASK;
int g_fam_cur = 0;
Slot *g_slot = nullptr;
std::vector<std::string> g_known, g_knownText;  // known findings of this property
FILE *g_log = nullptr;

uint64_t nowMs() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000ull + ts.tv_nsec / 1000000;
}

// one leaf. returns 0 pass, 1 skip, 2 fail
int runLeaf(const Family &f, Ctx &c, Fail &out) {
  c.pos = 0;
  try {
    f.run(c);
    return 0;
  } catch (Fail &e) {
    out = e;
    return 2;
  } catch (Skip &) {
    return 1;
  } catch (std::exception &e) {
    out.key = "unexpected-exception";
    out.msg = std::string("an exception escaped: ") + e.what();
    return 2;
  } catch (...) {
    out.key = "unexpected-exception";
    out.msg = "an exception of unknown type escaped";
    return 2;
  }
}

bool advance(Ctx &c) {
  c.choices.resize(c.pos);
  c.arity.resize(c.pos);
  while (!c.choices.empty()) {
    if (c.choices.back() + 1 < c.arity.back()) {
      ++c.choices.back();
      return true;
    }
    c.choices.pop_back();
    c.arity.pop_back();
  }
  return false;
}

void setSlot(uint64_t root, const Ctx &c) {
  if (!g_slot) return;
  g_slot->c.root = root;
  g_slot->c.nch = (int)c.choices.size();
  for (size_t i = 0; i < c.choices.size() && i < (size_t)MAXCH; ++i)
    g_slot->c.ch[i] = c.choices[i];
  g_slot->beat++;
}

int knownIndex(const std::string &key) {
  for (size_t i = 0; i < g_known.size(); ++i)
    if (g_known[i] == key) return (int)i;
  return -1;
}

void addCand(int kind, const Case &k, const std::string &key,
             const std::string &msg) {
  int i = S->ncand.fetch_add(1);
  if (i >= MAXCAND) return;
  Cand &c = S->cand[i];
  c.c = k;
  c.kind = kind;
  snprintf(c.key, sizeof c.key, "%s", key.c_str());
  snprintf(c.msg, sizeof c.msg, "%s", msg.c_str());
}

// explore roots [b,e) of family fi, in this (forked) process
void runChunk(int fi, uint64_t b, uint64_t e) {
  const Family &f = g_fam[fi];
  g_fam_cur = fi;
  FamStat &st = S->fam[fi];
  for (uint64_t r = b; r < e; ++r) {
    if (st.stop.load(std::memory_order_relaxed)) return;
    Ctx c;
    c.root = r;
    uint64_t cases = 0, skipped = 0;
    do {
      setSlot(r, c);
      // the rest of the choice vector is grown by pick(): mirror it so that a
      // crash can be replayed
      Fail fl;
      int rc = runLeaf(f, c, fl);
      if (rc == 1)
        ++skipped;
      else
        ++cases;
      if (rc == 2) {
        int k = knownIndex(fl.key);
        if (k >= 0) {
          S->known[k]++;
        } else {
          Case cs = g_slot->c;
          cs.root = r;
          cs.nch = (int)std::min(c.pos, (size_t)MAXCH);
          for (int i = 0; i < cs.nch; ++i) cs.ch[i] = c.choices[i];
          addCand(0, cs, fl.key, fl.msg);
          st.stop = 1;
          st.cases += cases;
          st.transitions += c.transitions;
          st.compares += c.compares;
          return;
        }
      }
    } while (advance(c));
    st.cases += cases;
    st.skipped += skipped;
    st.transitions += c.transitions;
    st.compares += c.compares;
  }
}

void childLimits() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
#if !defined(__SANITIZE_ADDRESS__)
  rlimit rl = {3ull << 30, 3ull << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
  rlimit nc = {0, 0};
  setrlimit(RLIMIT_CORE, &nc);
}

std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += (char)ch;
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += (char)ch;
  }
  return o;
}

struct ReplayResult {
  int rc;  // 0 pass, 2 fail, 3 crash, 4 hang
  std::string key, msg, log;
};

// re-execute in a pristine child; if chunk, execute the whole chunk prefix first
ReplayResult replay(const Case &k, bool chunk, int limitS) {
  ReplayResult rr;
  char tmpl[] = "/tmp/mcreplayXXXXXX";
  int fd = mkstemp(tmpl);
  pid_t p = fork();
  if (p == 0) {
    childLimits();
    dup2(fd, 2);
    FILE *lf = fdopen(fd, "w");
    setvbuf(lf, nullptr, _IOLBF, 0);
    g_slot = nullptr;
    const Family &f = g_fam[k.fam];
    g_fam_cur = k.fam;
    if (chunk) {
      for (uint64_t r = k.chunk; r <= k.root; ++r) {
        Ctx c;
        c.root = r;
        do {
          bool last = r == k.root && (int)c.choices.size() <= k.nch;
          if (last)
            for (size_t i = 0; i < c.choices.size(); ++i)
              if (c.choices[i] != k.ch[i]) last = false;
          Fail fl;
          if (last && runLeaf(f, c, fl) == 2) {
            bool same = (int)c.pos == k.nch;
            for (int i = 0; same && i < k.nch; ++i)
              same = c.choices[i] == k.ch[i];
            if (same) {
              fprintf(lf, "\nFAIL[%s] %s\n", fl.key.c_str(), fl.msg.c_str());
              fflush(lf);
              _exit(2);
            }
          } else if (!last)
            runLeaf(f, c, fl);
        } while (advance(c));
      }
      _exit(0);
    }
    Ctx c;
    c.root = k.root;
    c.verbose = true;
    g_log = lf;
    c.choices.assign(k.ch, k.ch + k.nch);
    c.arity.assign(k.nch, 0);
    Fail fl;
    int rc = runLeaf(f, c, fl);
    if (rc == 2) fprintf(lf, "FAIL[%s] %s\n", fl.key.c_str(), fl.msg.c_str());
    fflush(lf);
    _exit(rc == 2 ? 2 : 0);
  }
  close(fd);
  uint64_t t0 = nowMs();
  int st = 0;
  bool done = false, hang = false;
  while (!done) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p)
      done = true;
    else if (nowMs() - t0 > (uint64_t)limitS * 1000) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      hang = true;
      done = true;
    } else
      usleep(1000);
  }
  std::ifstream in(tmpl);
  std::stringstream ss;
  ss << in.rdbuf();
  rr.log = ss.str();
  unlink(tmpl);
  if (hang)
    rr.rc = 4;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    rr.rc = 0;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 2)
    rr.rc = 2;
  else
    rr.rc = 3;
  return rr;
}

}  // namespace

bool thorough() { return g_thorough; }

void family(const std::string &name, uint64_t roots, Run run,
            const std::string &bound) {
  g_fam.push_back(Family{name, roots, run, bound});
  if (g_fam.size() > (size_t)MAXFAM) abort();
}

void (*onState)(uint64_t) = nullptr;
int (*onPick)(size_t, int) = nullptr;

int Ctx::pick(int n) {
  if (n <= 0) abort();
  if (onPick) return onPick(pos++, n);
  int v;
  if (pos < choices.size()) {
    v = choices[pos];
    arity[pos] = n;
    if (v >= n) {
      fprintf(stderr, "mc: divergence while replaying a prefix\n");
      _exit(5);
    }
  } else {
    v = 0;
    choices.push_back(0);
    arity.push_back(n);
    if (g_slot && pos < (size_t)MAXCH) {
      g_slot->c.ch[pos] = 0;
      g_slot->c.nch = (int)pos + 1;
    }
  }
  ++pos;
  return v;
}

void Ctx::state(uint64_t h) {
  if (onState) return onState(h);
  if (!T) return;
  Hash hh;
  h = hh.u(h).u(g_fam_cur + 17).h;
  if (h == 0) h = 1;
  uint64_t i = h & TMASK;
  for (int probe = 0; probe < 64; ++probe) {
    uint64_t cur = T[i].load(std::memory_order_relaxed);
    if (cur == h) return;
    if (cur == 0) {
      if (T[i].compare_exchange_strong(cur, h)) {
        S->fam[g_fam_cur].states.fetch_add(1, std::memory_order_relaxed);
        return;
      }
      if (cur == h) return;
    }
    i = (i + 1) & TMASK;
  }
  S->saturated.fetch_add(1, std::memory_order_relaxed);
}

void Ctx::log(const char *fmt, ...) {
  if (!verbose || !g_log) return;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(g_log, fmt, ap);
  va_end(ap);
  fputc('\n', g_log);
}

void Ctx::fail(const char *key, const char *fmt, ...) {
  char b[1700];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw Fail{key, b};
}
void Ctx::skip() { throw Skip(); }

}  // namespace mc

using namespace mc;

// usage: check <property> <stats.json> <replay_dir> <known_file>
//        check --replay <replay file>
int main(int argc, char **argv) {
  mallopt(M_PERTURB, 0xA5);  // fresh and freed heap memory never looks initialised
  const char *tier = getenv("VERIF_TIER");
  g_thorough = tier && std::string(tier) == "thorough";
  setvbuf(stdout, nullptr, _IOLBF, 0);
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc == 3 && std::string(argv[1]) == "--replay") {
    std::ifstream in(argv[2]);
    std::string line, fam, mode = "alone";
    Case k;
    memset(&k, 0, sizeof k);
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string w;
      is >> w;
      if (w == "family:") is >> fam;
      if (w == "chunk:") is >> k.chunk;
      if (w == "root:") is >> k.root;
      if (w == "mode:") is >> mode;
      if (w == "tier:") {
        std::string t;
        is >> t;
        g_thorough = t == "thorough";
      }
      if (w == "choices:") {
        int v;
        while (is >> v) k.ch[k.nch++] = v;
      }
      if (w == "---") break;
    }
    setup();
    k.fam = -1;
    for (size_t i = 0; i < g_fam.size(); ++i)
      if (g_fam[i].name == fam) k.fam = (int)i;
    if (k.fam < 0) {
      fprintf(stderr, "unknown family %s\n", fam.c_str());
      return 2;
    }
    ReplayResult r = replay(k, mode == "chunk", 300);
    printf("%s\n%s\n", r.log.c_str(),
           r.rc == 0 ? "PASS" : r.rc == 2 ? "FAIL" : r.rc == 3 ? "CRASH" : "HANG");
    return r.rc ? 1 : 0;
  }
  if (argc < 5) {
    fprintf(stderr, "usage\n");
    return 2;
  }
  std::string prop = argv[1], statsPath = argv[2], replayDir = argv[3],
              knownPath = argv[4];
  std::string onlyFam = argc > 5 ? argv[5] : "";
  {  // lines:  known: property=<id> key=<key> <text>
    std::ifstream in(knownPath);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string a, p, k;
      is >> a >> p >> k;
      if (a == "known:" && p == "property=" + prop && k.rfind("key=", 0) == 0)
{
        g_known.push_back(k.substr(4));
        std::string rest;
        std::getline(is, rest);
        g_knownText.push_back(rest);
      }
    }
    if (g_known.size() > (size_t)MAXKNOWN) return 2;
  }
  uint64_t tbits = g_thorough ? 26 : 24;
  TMASK = (1ull << tbits) - 1;
  T = (std::atomic<uint64_t> *)mmap(nullptr, (TMASK + 1) * 8,
                                    PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                                    -1, 0);
  uint64_t t0 = nowMs();
  setup();
  if (!onlyFam.empty()) {
    std::vector<Family> keep;
    for (auto &f : g_fam)
      if (f.name.find(onlyFam) != std::string::npos) keep.push_back(f);
    g_fam = keep;
  }
  int J = (int)sysconf(_SC_NPROCESSORS_ONLN);
  if (J < 1) J = 1;
  if (J > 16) J = 16;
  struct Job {
    int fam;
    uint64_t b, e;
  };
  std::vector<Job> jobs;
  for (size_t f = 0; f < g_fam.size(); ++f) {
    uint64_t n = g_fam[f].roots;
    uint64_t cs = n / 96 + 1;
    for (uint64_t b = 0; b < n; b += cs)
      jobs.push_back(Job{(int)f, b, std::min(n, b + cs)});
  }
  struct W {
    pid_t pid = 0;
    Job job;
    uint64_t beat = 0, t = 0;
  };
  std::vector<W> ws(J);
  size_t next = 0;
  int active = 0;
  bool error = false;
  int hangS = g_thorough ? 120 : 30;
  fflush(stdout);
  while (next < jobs.size() || active) {
    bool progress = false;
    for (int i = 0; i < J; ++i) {
      W &w = ws[i];
      if (!w.pid && next < jobs.size()) {
        w.job = jobs[next++];
        if (S->fam[w.job.fam].stop) continue;
        S->slot[i].beat = 0;
        S->slot[i].c.fam = w.job.fam;
        S->slot[i].c.chunk = w.job.b;
        pid_t p = fork();
        if (p == 0) {
          childLimits();
          int dn = open("/dev/null", O_WRONLY);
          dup2(dn, 2);
          dup2(dn, 1);
          g_slot = &S->slot[i];
          runChunk(w.job.fam, w.job.b, w.job.e);
          _exit(0);
        }
        w.pid = p;
        w.beat = 0;
        w.t = nowMs();
        ++active;
        progress = true;
      } else if (w.pid) {
        int st;
        pid_t r = waitpid(w.pid, &st, WNOHANG);
        if (r == w.pid) {
          w.pid = 0;
          --active;
          progress = true;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            fprintf(stderr, "mc: worker was killed\n");
            error = true;
            continue;
          }
          if (WIFEXITED(st) && WEXITSTATUS(st) == 5) {
            fprintf(stderr, "mc: divergence\n");
            error = true;
            continue;
          }
          if (!S->fam[w.job.fam].stop.exchange(1) || S->ncand == 0)
            addCand(1, S->slot[i].c, "crash",
                    WIFSIGNALED(st) ? std::string("killed by signal ") +
                                          strsignal(WTERMSIG(st))
                                    : "exited unexpectedly (sanitizer report, "
                                      "or exit called)");
        } else {
          uint64_t b = S->slot[i].beat;
          if (b != w.beat) {
            w.beat = b;
            w.t = nowMs();
          } else if (nowMs() - w.t > (uint64_t)hangS * 1000) {
            kill(w.pid, SIGKILL);
            waitpid(w.pid, &st, 0);
            w.pid = 0;
            --active;
            S->fam[w.job.fam].stop = 1;
            addCand(2, S->slot[i].c, "hang", "no progress");
          }
        }
      }
    }
    if (!progress) usleep(1000);
  }
  // ---- confirm candidates
  int ncand = std::min((int)S->ncand, MAXCAND);
  int violations = 0;
  std::set<int> famDone;
  mkdir(replayDir.c_str(), 0777);
  for (int i = 0; i < ncand; ++i) {
    Cand &cd = S->cand[i];
    if (!famDone.insert(cd.c.fam).second) continue;
    int limit = 150;
    ReplayResult a = replay(cd.c, false, limit);
    std::string mode = "alone";
    bool ok = false;
    if (a.rc) {
      ReplayResult b = replay(cd.c, false, limit);
      ok = b.rc == a.rc;
    }
    if (!ok && cd.kind != 2) {
      ReplayResult b = replay(cd.c, true, 300);
      mode = "chunk";
      if (b.rc) {
        ok = true;
        a = b;
      }
    }
    if (!ok) {
      if (cd.kind == 0) {
        mode = "unstable";  // a concrete mismatch of the real code that depends
                            // on more than its inputs
        a.log += "\nthe same inputs did not fail again in a fresh process: the "
                 "result depends on something else than the inputs";
      } else {
        fprintf(stderr, "mc: candidate %s in %s root %llu did not reproduce\n",
                cd.key, g_fam[cd.c.fam].name.c_str(),
                (unsigned long long)cd.c.root);
        // a hang that terminates with the longer limit is not one
        if (cd.kind != 2) error = true;
        continue;
      }
    }
    char path[600];
    snprintf(path, sizeof path, "%s/%s-%s-%d.txt", replayDir.c_str(),
             prop.c_str(), g_fam[cd.c.fam].name.c_str(), violations);
    std::ofstream o(path);
    o << "property: " << prop << "\nfamily: " << g_fam[cd.c.fam].name
      << "\ntier: " << (g_thorough ? "thorough" : "quick")
      << "\nmode: " << mode << "\nchunk: " << cd.c.chunk
      << "\nroot: " << cd.c.root << "\nchoices:";
    for (int j = 0; j < cd.c.nch; ++j) o << ' ' << cd.c.ch[j];
    o << "\n--- " << cd.key << ": " << cd.msg << "\n--- trace\n"
      << a.log << "\n";
    o.close();
    ++violations;
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path);
    printf("  family %s: [%s] %s\n", g_fam[cd.c.fam].name.c_str(), cd.key,
           cd.msg);
  }
  for (size_t i = 0; i < g_known.size(); ++i)
    if (S->known[i] > 0)
      printf("KNOWN-FINDING: property=%s %s:%s (%llu cases)\n", prop.c_str(),
             g_known[i].c_str(), g_knownText[i].c_str(),
             (unsigned long long)S->known[i].load());
  // ---- samples: render one middle case of each family
  std::ostringstream js;
  uint64_t cases = 0, tr = 0, cmp = 0, states = 0, skipped = 0;
  std::string fams, samples;
  for (size_t f = 0; f < g_fam.size(); ++f) {
    FamStat &st = S->fam[f];
    cases += st.cases;
    tr += st.transitions;
    cmp += st.compares;
    states += st.states;
    skipped += st.skipped;
    char b[400];
    snprintf(b, sizeof b,
             "\"roots\":%llu,\"executions\":%llu,\"outside_domain\":%llu,"
             "\"states\":%llu,\"transitions\":%llu,\"comparisons\":%llu",
             (unsigned long long)g_fam[f].roots,
             (unsigned long long)st.cases.load(),
             (unsigned long long)st.skipped.load(),
             (unsigned long long)st.states.load(),
             (unsigned long long)st.transitions.load(),
             (unsigned long long)st.compares.load());
    fams += std::string(f ? "," : "") + "{\"family\":\"" +
            jesc(g_fam[f].name) + "\",\"bound\":\"" + jesc(g_fam[f].bound) +
            "\"," + b + "}";
    Case k;
    memset(&k, 0, sizeof k);
    k.fam = (int)f;
    k.root = g_fam[f].roots > 2 ? g_fam[f].roots * 2 / 3 : 0;
    if (g_fam[f].roots) {
      ReplayResult r = replay(k, false, 60);
      std::string l = r.log.substr(0, 1200);
      samples += std::string(samples.empty() ? "" : ",") + "\"" +
                 jesc(g_fam[f].name + " #" + std::to_string(k.root) + ": " + l) +
                 "\"";
    }
  }
  std::ofstream o(statsPath);
  o << "{\"executions\":" << cases << ",\"states\":" << states
    << ",\"transitions\":" << tr << ",\"comparisons\":" << cmp
    << ",\"outside_domain\":" << skipped
    << ",\"state_table_saturated\":" << S->saturated.load()
    << ",\"violations\":" << violations
    << ",\"wall_s\":" << (nowMs() - t0) / 1000.0 << ",\"families\":[" << fams
    << "],\"samples\":[" << samples << "]}\n";
  o.close();
  printf("%s: %llu executions, %llu states, %llu transitions, %llu comparisons, "
         "%.1f s\n",
         prop.c_str(), (unsigned long long)cases, (unsigned long long)states,
         (unsigned long long)tr, (unsigned long long)cmp,
         (nowMs() - t0) / 1000.0);
  if (violations) return 1;
  if (error) return 2;
  for (size_t f = 0; f < g_fam.size(); ++f)
    if (!S->fam[f].cases) {
      fprintf(stderr, "mc: family %s explored nothing\n", g_fam[f].name.c_str());
      return 2;
    }
  return 0;
}
