// deliberate faults, and sound counterparts, for the monitor of C30
#include "c30.h"
#include <atomic>
#include <clocale>
#include <cfenv>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <mutex>
#include <string>
#include <vector>
namespace canary {
namespace {
int counter;
float scratch[8];
std::vector<float> buffer(64);
std::string last;
std::map<int, double> cache;
std::mutex mtx, mtx2;
std::atomic<int> calls;
std::once_flag flag;
std::vector<double> table2;
const std::shared_ptr<const int> constant = std::make_shared<const int>(5);
double square(int i) { return double(i) * i; }
__attribute__((noinline)) void fill(float *p, int n, float v) { for (int i = 0; i < n; ++i) p[i] = v + i; }
}
const int N = 21;
const char *NAME[N] = {"static counter", "static array", "static vector", "static string", "cache without lock", "two locks for one cache", "vector kept by the first call", "setlocale", "rounding mode", "rand",
                       "pure", "cache under a lock", "atomic counter", "thread local", "guarded table", "call once", "own heap", "shared pointer", "locale of a stream", "cache per thread", "function local once flag"};
bool sound(int k) { return k >= 10; }
double call(int k, int arg) {
  switch (k) {
    case 0: return ++counter > 0 ? arg : 0;
    case 1: fill(scratch, 8, (float)arg); return scratch[3];
    case 2: fill(buffer.data(), 64, (float)arg); return buffer[7];
    case 3: last = std::to_string(arg); return (double)last.size();
    case 4: { auto i = cache.find(arg); return i != cache.end() ? i->second : (cache[arg] = square(arg)); }
    case 5: { std::lock_guard<std::mutex> l(arg & 1 ? mtx : mtx2); counter += 1; return arg; }
    case 6: { static std::vector<float> v(16, 1.f); fill(v.data(), 16, (float)arg); return v[2]; }
    case 7: std::setlocale(LC_NUMERIC, "C"); return arg;
    case 8: std::fesetround(FE_UPWARD); return arg;
    case 9: return std::rand() & 0;
    case 11: { std::lock_guard<std::mutex> l(mtx); auto i = cache.find(arg); return i != cache.end() ? i->second : (cache[arg] = square(arg)); }
    case 12: ++calls; return arg;
    case 13: { static thread_local double t[4]; t[arg & 3] = arg; return t[arg & 3]; }
    case 14: { static const std::vector<double> t = [] { std::vector<double> v; for (int i = 0; i < 50; ++i) v.push_back(i); return v; }(); return t[arg & 31]; }
    case 15: std::call_once(flag, [] { for (int i = 0; i < 50; ++i) table2.push_back(i); }); return table2[arg & 31];
    case 16: { std::map<int, std::string> m; for (int i = 0; i < 9; ++i) m[i * arg] = std::string(40, 'a'); m.erase(arg); return (double)m.size(); }
    case 17: { std::shared_ptr<const int> p = constant; return *p; }
    case 18: { std::ostringstream o; o.imbue(std::locale::classic()); o << arg; return (double)o.str().size(); }
    case 19: { static thread_local std::map<int, double> m; auto i = m.find(arg); return i != m.end() ? i->second : (m[arg] = square(arg)); }
    case 20: { static std::once_flag f; static std::string s; std::call_once(f, [] { s = "abcdefghijklmnopqrstuvwxyz"; }); return (double)s.size(); }
    default: return square(arg);
  }
}
}  // namespace canary
