// Equality and nearness of two values that differ in one or two components,
// component by component: which values are near is decided on the components.
#pragma once
#include <cmath>
#include <functional>
#include "mc.h"
namespace compareNs {
const int NB = 3, NVAR = 12, NE = 5;
inline float base(int b, int i) {
  if (b == 0) return 0.f;
  if (b == 1) return (i % 2 ? -1.f : 1.f) * (1.f + 0.25f * i);
  return 0.5f;
}
inline float variant(float x, int v) {
  switch (v) {
    case 0: return x;
    case 1: return -x;
    case 2: return x + 0.25f;
    case 3: return x - 0.25f;
    case 4: return x + 0.0009765625f;
    case 5: return std::nextafter(x, 10.f);
    case 6: return 2 * x;
    case 7: return x + 1;
    case 8: return x - 8;
    case 9: return NAN;
    case 10: return INFINITY;
  }
  return 0.f;
}
}
inline uint64_t compareRoots(int n) { using namespace compareNs; return (uint64_t)NB * n * n * NVAR * NVAR * NE; }
// components from `quat` on are those of a quaternion: also near the opposite
// one, and a difference exactly at the bound may be counted either way
template <class T>
void compareCase(mc::Ctx &c, int n, std::function<T(const std::vector<float> &)> make, int quat = 99) {
  using namespace compareNs;
  mc::Dec d(c.root);
  int b = d(NB), i = d(n), j = d(n), vi = d(NVAR), vj = d(NVAR), e = d(NE);
  const float eps[] = {1e-4f, 0.f, 0.25f, 0.001f, 1.f};
  if (i == j && vi != vj) c.skip();
  std::vector<float> x, y;
  for (int k = 0; k < n; ++k) x.push_back(base(b, k));
  y = x;
  y[i] = variant(x[i], vi);
  y[j] = variant(x[j], vj);
  T t = make(x), u = make(y);
  double dv = 0, dm = 0, dp = 0;
  auto worst = [](double a, double b) { return a >= b ? a : std::isnan(b) ? INFINITY : b; };  // not a number is near nothing
  for (int k = 0; k < n; ++k) {
    if (k < quat)
      dv = worst(dv, std::fabs((double)x[k] - y[k]));
    else {
      dm = worst(dm, std::fabs((double)x[k] - y[k]));
      dp = worst(dp, std::fabs((double)x[k] + y[k]));
    }
  }
  dm = std::min(dm, dp);
  c.log("base %d, component %d -> %g, component %d -> %g, epsilon %g", b, i, y[i], j, y[j], eps[e]);
  bool want = dv <= (double)eps[e] && dm <= (double)eps[e];
  bool g1 = e == 0 ? t.isNear(u) : t.isNear(u, eps[e]);
  bool g2 = e == 0 ? u.isNear(t) : u.isNear(t, eps[e]);
  c.step(2);
  c.state(mc::Hash().u(c.root).h);
  if (quat < n && dm == (double)eps[e]) c.skip();
  c.yes("isNear", g1 == want, "near exactly when every component differs by at most epsilon");
  c.yes("isNear", g2 == want, "symmetric");
}
template <class T>
void equalCase(mc::Ctx &c, int n, std::function<T(const std::vector<float> &)> make) {
  using namespace compareNs;
  mc::Dec d(c.root);
  int b = d(NB), i = d(n), j = d(n), vi = d(NVAR), vj = d(NVAR);
  if (i == j && vi != vj) c.skip();
  std::vector<float> x, y;
  for (int k = 0; k < n; ++k) x.push_back(base(b, k));
  y = x;
  y[i] = variant(x[i], vi);
  y[j] = variant(x[j], vj);
  T t = make(x), u = make(y);
  c.log("base %d, component %d -> %g, component %d -> %g", b, i, y[i], j, y[j]);
  c.step(4);
  c.state(mc::Hash().u(c.root).h);
  bool want = x == y;
  c.yes("==", (t == u) == want && (u == t) == want, "equal exactly when every component is");
  c.yes("!=", (t != u) == !want && (u != t) == !want, "the opposite of ==");
}
