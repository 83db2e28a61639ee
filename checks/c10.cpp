// C10: the digital filter follows its difference equation over any history
#include "mc.h"
#include <almath/dsp/digitalfilter.h>
#include <deque>
using AL::Math::DSP::DigitalFilter;
namespace {
const float W[] = {1.f, -0.5f, 0.25f, 2.f, -1.f};
std::vector<std::vector<float>> wins = {{1}, {0.5f}, {1, -1}, {0.25f, 0.5f}, {1, -1, -0.5f}, {0.1f, 0.2f, 0.3f, 0.4f}};
std::vector<std::vector<float>> wouts = {{}, {0.5f}, {-0.25f}, {1, 0.5f}, {0, 0}, {0.1f, -0.3f, 0.2f}};
const float gains[] = {1.f, 2.f, -4.f};
const float xs[] = {0.f, 1.f, -1.f, 0.5f};
struct Ref {
  std::vector<float> wi{1}, wo;
  double g = 1;
  std::deque<double> x, y;  // oldest first
  double process(double v) {
    x.push_back(v / g);
    if (x.size() > wi.size()) x.pop_front();
    double out = v;
    if (x.size() == wi.size() && y.size() == wo.size()) {
      out = 0;
      for (size_t i = 0; i < wi.size(); ++i) out += wi[i] * x[i];
      for (size_t i = 0; i < wo.size(); ++i) out += wo[i] * y[i];
    }
    if (!wo.empty()) {
      y.push_back(out);
      if (y.size() > wo.size()) y.pop_front();
    }
    return out;
  }
  uint64_t h() const {
    mc::Hash s;
    s.u(wi.size()).u(wo.size()).q(g);
    for (float w : wi) s.q(w);
    for (float w : wo) s.q(w);
    for (double v : x) s.q(v);
    for (double v : y) s.q(v, 1e-3);
    s.u(x.size()).u(y.size());
    return s.h;
  }
};
void hist(mc::Ctx &c, int depth, int nx, int most) {
  mc::Dec d(c.root);
  int a = d(wins.size()), b = d(wouts.size()), gi = d(3);
  int first = d(2);  // configured or default constructed
  DigitalFilter f;
  Ref r;
  auto set = [&](DigitalFilter &f, Ref &r, int a, int b, int gi) {
    f.configureFilter(wins[a], wouts[b], gains[gi]);
    f.resetFilter();
    r = Ref();
    r.wi = wins[a];
    r.wo = wouts[b];
    r.g = gains[gi];
  };
  if (first)
    set(f, r, a, b, gi);
  else if (a || b || gi)
    c.skip();
  int specials = 0;
  double mag = 1;
  for (int i = 0; i < depth; ++i) {
    // inputs; up to `most` times per history: reset, reconfigure, copy, assign over another filter
    int op = c.pick(specials < most ? nx + 7 : nx);
    if (op < nx) {
      float v = f.processFilter(xs[op]);
      double w = r.process(xs[op]);
      c.step();
      mag = std::max(mag, std::fabs(w));
      c.log("process(%g) = %.8g (expected %.8g)", xs[op], v, w);
      c.near("output", v, w, 1e-5 * mag);
    } else {
      ++specials;
      switch (op - nx) {
        case 0:
          c.log("reset");
          f.resetFilter();
          r.x.clear();
          r.y.clear();
          break;
        case 1: case 2: case 3: {  // shorter, longer, and as long as it was
          int k = op - nx;
          c.log("configure another filter (%d), reset", k);
          if (k == 1) set(f, r, 1, 1, 1);
          if (k == 2) set(f, r, 5, 5, 0);
          if (k == 3) set(f, r, (a + 1) % wins.size() == 0 ? 0 : a, b, (gi + 1) % 3);
          break;
        }
        case 4: {
          c.log("continue on a copy, while the original is used");
          DigitalFilter g(f);
          f.processFilter(3.f);
          f.resetFilter();
          f = g;
          break;
        }
        case 5: {
          c.log("assign to a filter that is in use, use the original and continue on the assigned one");
          DigitalFilter g;
          Ref q;
          set(g, q, 5, 4, 2);
          for (int k = 0; k < 6; ++k) g.processFilter(2.f);
          g = f;
          f.processFilter(-5.f);
          f = g;
          break;
        }
        case 6: {
          c.log("swap with a new filter and back");
          DigitalFilter g;
          std::swap(f, g);
          f.processFilter(4.f);
          std::swap(g, f);
          break;
        }
      }
      c.step();
    }
    c.state(r.h());
  }
}
// long histories of one repeated pattern: the window slides, nothing accumulates
void longRun(mc::Ctx &c) {
  mc::Dec d(c.root);
  int a = d(wins.size()), b = d(wouts.size());
  int pat = d(64);
  DigitalFilter f;
  Ref r;
  r.wi = wins[a];
  r.wo = wouts[b];
  f.configureFilter(r.wi, r.wo, 1.f);
  if (b == 3) c.skip();  // unstable recurrence
  for (int i = 0; i < 200; ++i) {
    float x = xs[(pat >> (2 * (i % 3))) & 3];
    c.near("output", f.processFilter(x), r.process(x), 1e-4);
    c.step();
  }
  c.state(r.h());
}
// filters of every order; one reset or copy at every time
void orders(mc::Ctx &c, int ni, int no) {
  mc::Dec d(c.root);
  int a = 1 + d(ni), b = d(no + 1), pat = d(4), gi = d(3);
  Ref r;
  r.wi.clear();
  for (int i = 0; i < a; ++i) r.wi.push_back(((i * 7 + 3) % 5 - 2) * 0.25f + 0.1f);
  for (int i = 0; i < b; ++i) r.wo.push_back((i % 3 ? -0.9f : 0.9f) / (b + i % 2));
  r.g = gains[gi];
  DigitalFilter f;
  f.configureFilter(r.wi, r.wo, gains[gi]);
  int T = 2 * (a + b) + 3, when = c.pick(T), what = c.pick(2);
  c.log("%d inputs, %d outputs, input %d, %s at step %d", a, b, pat, what ? "reset" : "copy", when);
  double mag = 1;
  for (int i = 0; i < T; ++i) {
    if (i == when) {
      if (what) { f.resetFilter(); r.x.clear(); r.y.clear(); }
      else { DigitalFilter g(f); f.processFilter(-7.f); f = g; }
    }
    float x = pat == 0 ? i == 0 : pat == 1 ? 1.f : pat == 2 ? (i % 2 ? -1.f : 1.f) : xs[i * i % 7 % 4] * (1 + i % 3);
    double w = r.process(x);
    mag = std::max(mag, std::fabs(w));
    c.near("output", f.processFilter(x), w, 2e-5 * mag);
    c.step();
  }
  c.state(r.h());
}
// filters of high orders, around the powers of two; a reset or a copy where
// windows fill and slide
const int HI[] = {1, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600};
const int NHI = sizeof HI / sizeof *HI;
void highOrders(mc::Ctx &c) {
  mc::Dec d(c.root);
  int a = HI[d(NHI)], ib = d(NHI + 1), b = ib ? HI[ib - 1] : 0, pat = d(3), gi = d(3);
  Ref r;
  r.wi.clear();
  for (int i = 0; i < a; ++i) r.wi.push_back(((i * 7 + 3) % 5 - 2) * 0.25f + 0.1f);
  for (int i = 0; i < b; ++i) r.wo.push_back((i % 3 ? -0.9f : 0.9f) / (b + i % 2));
  r.g = gains[gi];
  DigitalFilter f;
  f.configureFilter(r.wi, r.wo, gains[gi]);
  int T = 2 * (a + b) + 3, k = c.pick(5);
  int when = k == 0 ? T : k == 1 ? a - 1 : k == 2 ? b : k == 3 ? a + b : a + b / 2, what = k ? c.pick(2) : 0;
  c.log("%d inputs, %d outputs, input %d, %s at step %d", a, b, pat, what ? "reset" : "copy", when);
  double mag = 1;
  for (int i = 0; i < T; ++i) {
    if (i == when) {
      if (what) { f.resetFilter(); r.x.clear(); r.y.clear(); }
      else { DigitalFilter g(f); f.processFilter(-7.f); f = g; }
    }
    float x = pat == 0 ? i == 0 : pat == 1 ? (i % 2 ? -1.f : 1.f) : xs[i * i % 7 % 4] * (1 + i % 3);
    double w = r.process(x);
    mag = std::max(mag, std::fabs(w));
    c.near("output", f.processFilter(x), w, 1e-4 * mag);
    c.step();
  }
  c.state(r.h());
}
}  // namespace
void mc::setup() {
  bool t = mc::thorough();
  size_t roots = wins.size() * wouts.size() * 3 * 2;
  mc::family("histories", roots, [=](mc::Ctx &c) { hist(c, t ? 8 : 6, 4, 1); },
             "all histories of 6 (8 thorough) operations: 4 inputs at each step, one reset/reconfiguration/copy/assignment anywhere; 108 filters and the default one");
  mc::family("histories-mixed", roots, [=](mc::Ctx &c) { hist(c, t ? 6 : 4, 2, 9); },
             "all histories of 4 (6 thorough) operations out of 2 inputs and 7 resets/reconfigurations/copies/assignments; 108 filters and the default one");
  int ni = mc::thorough() ? 40 : 18, no = mc::thorough() ? 30 : 12;
  mc::family("orders", ni * (no + 1) * 12, [=](mc::Ctx &c) { orders(c, ni, no); }, "every order up to 18 x 12 (40 x 30), 4 inputs, 3 gains, a reset or a copy at every step");
  mc::family("high-orders", NHI * (NHI + 1) * 9, highOrders, "orders 1 to 600 around the powers of two, for inputs and outputs, 3 inputs, 3 gains, a reset or a copy at 4 steps");
  mc::family("long", wins.size() * wouts.size() * 64, longRun, "200 steps of every periodic pattern of period 3");
}
