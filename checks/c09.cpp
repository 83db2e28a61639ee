// C09: angle wrapping, angular means, clipping
#include "conv.h"
#include <cstring>
#include <stdexcept>
namespace {
using ref::PI;
const float FPI = AL::Math::PI;
// every float of a block of bit patterns
void modulo(mc::Ctx &c) {
  uint32_t block = (uint32_t)c.root, step = mc::thorough() ? 1 : 64;
  mc::Hash h;
  for (uint32_t lo = 0; lo < 65536; lo += step) {
    uint32_t bits = block << 16 | lo;
    float a;
    memcpy(&a, &bits, 4);
    if (!std::isfinite(a)) c.skip();
    float r = A::modulo2PI(a), p = a;
    A::modulo2PIInPlace(p);
    c.step(2);
    if (!(r > -FPI && r <= FPI)) c.fail("range", "modulo2PI(%.9g) = %.9g is not in ]-PI, PI]", a, r);
    if (A::modulo2PI(r) != r) c.fail("idempotence", "modulo2PI(%.9g) = %.9g is not its own modulo", a, r);
    if (p != r) c.fail("in place", "modulo2PIInPlace(%.9g) = %.9g, modulo2PI gives %.9g", a, p, r);
    double k = ((double)a - r) / (2 * PI);
    double kr = std::nearbyint(k);
    // beyond, the rounding of the period matters more than the angle
    if (std::fabs(a) <= 1048576.f && !(std::fabs((double)a - r - 2 * PI * kr) <= 1e-6 + 2.2e-7 * std::fabs(kr)))
      c.fail("congruence", "modulo2PI(%.9g) = %.9g is not the same angle", a, r);
    if (std::fabs(a) < 3.14159f && r != a) c.fail("identity", "modulo2PI(%.9g) = %.9g", a, r);
    c.compared(4);
    if (lo % 16384 == 0) c.state(mc::Hash().u(bits).h);
  }
}
// turns: multiples of pi/2 and neighbours, in floats
void turns(mc::Ctx &c) {
  mc::Dec d(c.root);
  int k = (int)d(4001) - 2000;
  float base = d(2) ? (float)(k * PI / 2) : k * (FPI / 2);
  int ulps = (int)d(5) - 2;
  float a = base;
  for (int i = 0; i < std::abs(ulps); ++i) a = std::nextafter(a, ulps > 0 ? 1e9f : -1e9f);
  float r = A::modulo2PI(a);
  c.step();
  c.yes("range", r > -FPI && r <= FPI, "in ]-PI, PI]");
  c.near("congruence", ref::wrap(r - (double)a) > PI ? 0 : ref::wrap(r - (double)a), 0, 2e-6 + 2.2e-7 * std::abs(k));
  c.state(mc::Hash().u(c.root).h);
}
const double AV[] = {0, PI / 2, PI, -PI, -PI / 2, 0.3, -0.3, 3.0, -3.0, 2.2, 7.0, -40.0};
const float WV[] = {1.f, 0.5f, 2.f, 10.f};
void mean(mc::Ctx &c) {
  mc::Dec d(c.root);
  int n = 1 + d(mc::thorough() ? 4 : 3);
  std::vector<float> a, w;
  double sx = 0, sy = 0, ux = 0, uy = 0, sw = 0;
  for (int i = 0; i < n; ++i) {
    a.push_back((float)AV[d(12)]);
    w.push_back(WV[d(4)]);
    ux += std::cos((double)a[i]);
    uy += std::sin((double)a[i]);
    sx += w[i] * std::cos((double)a[i]);
    sy += w[i] * std::sin((double)a[i]);
    sw += w[i];
  }
  for (int i = 0; i < n; ++i) c.log("angle %.8g weight %g", a[i], w[i]);
  auto check = [&](const char *key, const std::vector<float> *ww, double x, double y, double s) {
    double nrm = std::hypot(x, y) / s;
    bool th = false;
    float m = 0;
    try {
      m = ww ? A::weightedMeanAngle(a, *ww) : A::meanAngle(a);
    } catch (const std::runtime_error &) { th = true; }
    c.step();
    if (nrm < 1e-5) {
      c.yes(key, th, "the mean is not defined");
      return;
    }
    if (nrm < 2e-3) return;  // nearly null
    if (th) c.fail(key, "no mean although the mean vector has norm %g", nrm);
    c.near(key, ref::wrap(m - std::atan2(y, x)), 0, 2e-6 / nrm + 1e-6);
    c.yes(key, m > -FPI && m <= FPI, "in ]-PI, PI]");
    c.state(mc::Hash().q(m).h);
  };
  check("meanAngle", nullptr, ux, uy, n);
  check("weightedMeanAngle", &w, sx, sy, sw);
  for (float k : {1e-4f, 7.f, 1e5f}) {  // only relative weights matter
    std::vector<float> w2 = w;
    for (float &x : w2) x *= k;
    check("weights scaled together", &w2, k * sx, k * sy, k * sw);
  }
}
// many angles
void means(mc::Ctx &c) {
  mc::Dec d(c.root);
  int n = 4 + d(61), k = d(12), kind = d(4), wk = d(3), at = c.pick(n);
  std::vector<float> a, w;
  double sx = 0, sy = 0, ux = 0, uy = 0, sw = 0;
  for (int i = 0; i < n; ++i) {
    double v = AV[k] + (kind == 0 ? 0 : kind == 1 ? 0.1 * std::sin(1.7 * i) : kind == 2 ? std::sin(2.3 * i) : 2 * PI * (i % 3 - 1));
    if (i == at) v += 1.2;
    a.push_back((float)v);
    w.push_back(wk == 0 ? 1.f : wk == 1 ? WV[i % 4] : i == at ? 100.f : 0.01f * (1 + i));
    ux += std::cos((double)a[i]); uy += std::sin((double)a[i]);
    sx += w[i] * std::cos((double)a[i]); sy += w[i] * std::sin((double)a[i]);
    sw += w[i];
  }
  c.log("%d angles around %g, spread %d, weights %d, outlier at %d", n, AV[k], kind, wk, at);
  double nu = std::hypot(ux, uy) / n, nw = std::hypot(sx, sy) / sw;
  if (nu > 0.05) c.near("mean of many", ref::wrap(A::meanAngle(a) - std::atan2(uy, ux)), 0, 2e-5 / nu);
  if (nw > 0.05) c.near("weighted mean of many", ref::wrap(A::weightedMeanAngle(a, w) - std::atan2(sy, sx)), 0, 2e-5 / nw);
  w[at] = -0.001f;
  bool th = false;
  try { A::weightedMeanAngle(a, w); } catch (const std::runtime_error &) { th = true; }
  c.yes("errors", th, "a negative weight anywhere is refused");
  c.step(3);
  c.state(mc::Hash().q(std::atan2(sy, sx)).q(std::atan2(uy, ux)).h);
}
// means of small angles, relatively to them
void smallMeans(mc::Ctx &c) {
  mc::Dec d(c.root);
  const double S[] = {1e-30, 1e-12, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3};
  double s = S[d(7)], sw = 0, sa = 0, su = 0, big = 0;
  int n = 1 + d(4);
  std::vector<float> a, w;
  for (int i = 0; i < n; ++i) {
    a.push_back((float)((int)d(7) - 3) * (float)s);
    w.push_back(WV[d(4)]);
    sw += w[i], sa += (double)w[i] * a[i], su += a[i];
    big = std::max(big, (double)std::fabs(a[i]));
  }
  c.log("%d angles, scale %g", n, s);
  c.near("meanAngle", A::meanAngle(a), su / n, 4e-6 * big + 0.1 * big * big);
  c.near("weightedMeanAngle", A::weightedMeanAngle(a, w), sa / sw, 4e-6 * big + 0.1 * big * big);
  c.step(2);
  c.state(c.root);
}
void meanErrors(mc::Ctx &c) {
  mc::Dec d(c.root);
  int na = d(5), nw = d(5);
  const float bad[] = {1.f, 0.f, -1.f, -1e-6f};
  int at = d(4);
  float b = bad[d(4)];
  std::vector<float> a(na, 0.4f), w(nw, 1.f);
  if (at < nw) w[at] = b;
  bool th = false;
  float m = 9;
  try { m = A::weightedMeanAngle(a, w); } catch (const std::runtime_error &) { th = true; }
  bool must = na != nw || na == 0 || (at < nw && b <= 0);
  c.yes("errors", th == must, "sizes must match, weights must be strictly positive, no mean of nothing");
  if (!th) c.near("mean of equal angles", m, 0.4, 1e-6);
  bool th2 = false;
  try { m = A::meanAngle(a); } catch (const std::runtime_error &) { th2 = true; }
  c.yes("errors", th2 == (na == 0), "only the mean of nothing is refused");
  c.step(2);
  c.state(mc::Hash().u(c.root).h);
}
void clip(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float vs[] = {-INFINITY, -3.f, -1.f, -0.5f, -1e-6f, 0.f, 1e-6f, 0.5f, 1.f, 1.0000001f, 4.f, INFINITY};
  int il = d(12), ih = d(12), iv = d(12), n = d(4);
  if (ih < il) c.skip();
  float lo = vs[il], hi = vs[ih], v = vs[iv], x = v;
  auto ex = [&](float q) { return q < lo ? lo : q > hi ? hi : q; };
  bool r = A::clipData(lo, hi, x);
  c.yes("clipData", x == ex(v) && r == (ex(v) != v), "inside of the limits, reported iff changed");
  std::vector<float> data;
  std::vector<std::vector<float>> grid;
  bool any = false;
  for (int i = 0; i < n; ++i) {
    data.push_back(vs[(iv + 5 * i) % 12]);
    any |= ex(data.back()) != data.back();
  }
  std::vector<float> o = data;
  bool r1 = A::clipData(lo, hi, o);
  c.yes("clipData vector", r1 == any && o.size() == data.size(), "reported iff one is changed");
  for (int i = 0; i < n; ++i) c.yes("clipData vector", o[i] == ex(data[i]), "all are clipped");
  grid.push_back(data);
  grid.push_back({});
  grid.push_back({0.7f});
  any |= ex(0.7f) != 0.7f;
  bool r2 = A::clipData(lo, hi, grid);
  c.yes("clipData grid", r2 == any && grid.size() == 3 && grid[0] == o && grid[1].empty() && grid[2].size() == 1 && grid[2][0] == ex(0.7f), "all are clipped");
  c.step(3);
  c.state(mc::Hash().u(c.root).h);
}
}  // namespace
void mc::setup() {
  mc::family("modulo-floats", 65536, modulo,
             "every finite float (quick: those whose low 6 mantissa bits are null)");
  mc::family("modulo-turns", 4001 * 2 * 5, turns, "multiples of a quarter turn from -2000 to 2000, +-2 ulps");
  uint64_t n = mc::thorough() ? 4 : 3;
  for (int i = 0; i < (mc::thorough() ? 4 : 3); ++i) n *= 48;
  mc::family("means", n, mean, "up to 3 (4 thorough) angles over 12 values, weights over 4 values, 4 common scales");
  mc::family("means-many", 61 * 12 * 4 * 3, means, "4 to 64 angles around 12 values, 4 spreads, 3 sets of weights, an outlier or a bad weight at every place");
  mc::family("means-small", 7 * 4 * (mc::thorough() ? 28 * 28 * 28 * 28 : 28 * 28 * 28), smallMeans, "up to 3 (4 thorough) angles over 7 multiples of 7 scales from 1e-30 to 1e-3, relatively to them");
  mc::family("mean-errors", 5 * 5 * 4 * 4, meanErrors, "sizes up to 4, one bad weight at each position");
  mc::family("clip", 12 * 12 * 12 * 4, clip, "limits and values over 12 floats, vectors up to 3");
}
