// C11: PID controller: every history of calls against the PID equations
#include "mc.h"
#include <almath/dsp/pidcontroller.h>
#include <stdexcept>
using AL::Math::DSP::PIDController;
namespace {
struct Par {
  float p, v, i, th, off, T;
};
const Par good[] = {{0, 0, 0, 0, 0, 0.01f}, {2, 0, 0, 0, 0, 0.5f},        {0, 1, 0, 0, 0.25f, 0.1f},
                    {0, 0, 3, 0.1f, 0, 0.2f}, {1, 0.5f, 0.25f, 0.2f, 1, 0.5f}, {10, 0.1f, 2, 0.01f, 0.5f, 1}};
const int NG = 6;
const Par bad[] = {{-1, 0, 0, 0, 0, 1}, {0, -1e-6f, 0, 0, 0, 1}, {0, 0, -2, 0, 0, 1},
                   {0, 0, 0, -1, 0, 1}, {0, 0, 0, 0, -1, 1},     {0, 0, 0, 0, 0, 0}, {1, 1, 1, 0, 0, -0.1f}};
struct Ref {
  double kp = 0, kv = 0, ki = 0, T = 1, th = 0, off = 0, e = 0, in = 0;
  bool first = true;
  void set(const Par &q) {
    kp = q.p;
    kv = q.v;
    ki = q.i;
    th = q.th;
    off = q.off;
    T = q.T;
    reset();
  }
  void reset() {
    e = in = 0;
    first = true;
  }
  double step(double x, bool absolute, double period) {
    double prev = e;
    e = x > th ? x - th : (!absolute && x < -th) ? x + th : 0;
    double de = first ? 0 : (e - prev) / period;
    if (absolute) de = std::fabs(de);
    first = false;
    in += e * period;
    return off + kp * e + kv * de + ki * in;
  }
  uint64_t h() const { return mc::Hash().q(kp).q(kv).q(ki).q(T).q(th).q(off).q(e).q(in).u(first).h; }
};
const float errs[] = {0.f, 1.f, -1.f, 0.15f, -0.3f};
// one call; false when there is no output
const int NCOMP = 14, NSPEC = 7;
struct Sys {
  PIDController pid;
  Ref r;
  int i = 0;
  double mag = 10, g = 0, w = 0;
  void start(mc::Ctx &c, int ip, bool ctor) {
    if (!ip) return;
    const Par &q = good[ip - 1];
    if (ctor) pid = PIDController(q.p, q.v, q.i, q.th, q.off, q.T);
    else pid.initialize(q.p, q.v, q.i, q.th, q.off, q.T);
    r.set(q);
  }
  void call(mc::Ctx &c, int op) {
    bool out = true;
    // the error is what matters, not how it is split
    float cmd = 0.5f * (i % 8);
    ++i;
    switch (op) {
      case 0: case 1: case 2: case 3: case 4: {
        float e = errs[op];
        g = pid.computeFeedback(cmd + e, cmd);
        w = r.step((double)(cmd + e) - cmd, false, r.T);
        c.log("computeFeedback(err %g)", e);
        break;
      }
      case 5: case 6: case 7: case 8: {
        const float E[] = {0.7f, -0.45f, 0.7f, -0.05f}, T[] = {0.3f, 2.f, 0.f, -3.f};
        float e = E[op - 5], t = T[op - 5];
        g = pid.computeFeedback(e, 0.f, t);
        w = r.step(e, false, t > 0 ? t : r.T);
        c.log("computeFeedback(err %g, period %g)", e, t);
        break;
      }
      case 9: case 10: case 11: case 12: case 13: {
        const float E[] = {0.6f, 0.f, 0.05f, -0.6f, 3.f};
        float e = E[op - 9];
        g = pid.computeFeedbackAbsolute(e);
        w = r.step(e, true, r.T);
        c.log("computeFeedbackAbsolute(%g)", e);
        break;
      }
      case 14:
        pid.initialize();
        r.reset();
        out = false;
        c.log("initialize()");
        break;
      case 15:
        pid.setGains(3.f, 0.2f, 1.f);
        r.kp = 3;
        r.kv = 0.2f;
        r.ki = 1;
        out = false;
        c.log("setGains(3, 0.2, 1)");
        break;
      case 16: {
        int th = 0;
        for (int k = 0; k < 3; ++k)
          try {
            pid.setGains(k == 0 ? -1.f : 5.f, k == 1 ? -1.f : 5.f, k == 2 ? -1.f : 5.f);
          } catch (const std::runtime_error &) { ++th; }
        c.log("setGains with a negative gain");
        c.yes("setGains", th == 3, "negative gains are refused");
        out = false;
        break;
      }
      case 17: {
        pid.initialize(1.f, 0.5f, 2.f, 0.05f, 0.1f, 0.25f);
        r.set({1.f, 0.5f, 2.f, 0.05f, 0.1f, 0.25f});
        out = false;
        c.log("initialize(other parameters)");
        break;
      }
      case 18: {
        PIDController q = pid;
        pid.computeFeedback(5.f, 1.f);
        pid = q;
        out = false;
        c.log("copy, use, restore");
        break;
      }
      case 19: {
        PIDController q = pid;
        q.setGains(7.f, 7.f, 7.f);
        q.computeFeedbackAbsolute(4.f);
        q.initialize();
        out = false;
        c.log("copy, use the copy");
        break;
      }
      case 20:
        pid.setGains(0.f, 0.f, 0.f);
        r.kp = r.kv = r.ki = 0;
        out = false;
        c.log("setGains(0, 0, 0)");
        break;
    }
    c.step();
    if (out) {
      mag = std::max(mag, std::fabs(w));
      c.near("feedback", g, w, 2e-5 * mag);
    }
    c.state(r.h());
  }
};
// the small alphabet: few computations, deep; the wide one: all of them
const int SMALL[] = {0, 1, 2, 3, 4, 5, 9, 11, 14, 15, 16, 17, 18};
void hist(mc::Ctx &c, bool wide, int depth) {
  mc::Dec d(c.root);
  int ip = d(NG + 1);
  Sys s;
  s.start(c, ip, d(2));
  int specials = 0;
  for (int i = 0; i < depth; ++i) {
    bool sp = specials < (wide ? 2 : 1);
    int op = wide ? c.pick(sp ? NCOMP + NSPEC : NCOMP) : SMALL[c.pick(sp ? 13 : 8)];
    if (op >= NCOMP) ++specials;
    s.call(c, op);
  }
}
// long runs of a repeated pattern of three computations, with two
// configuration calls
void longRun(mc::Ctx &c, int len) {
  mc::Dec d(c.root);
  int ip = d(NG + 1), a = d(NCOMP), b = d(NCOMP), k = d(NCOMP), spec = d(NSPEC), at = d(4);
  Sys s;
  s.start(c, ip, true);
  const int place[] = {7, len / 2, len - 20, len - 3};
  for (int i = 0; i < len; ++i) {
    if (i == place[at] || i == place[at] + 2) s.call(c, NCOMP + (i == place[at] ? spec : (spec + at) % NSPEC));
    s.call(c, i % 3 == 0 ? a : i % 3 == 1 ? b : k);
  }
}
void domain(mc::Ctx &c) {
  mc::Dec d(c.root);
  int i = d(NG + 7), other = d(NG);
  const Par &q = i < NG ? good[i] : bad[i - NG];
  bool th = false, th2 = false;
  PIDController p(good[other].p, good[other].v, good[other].i, good[other].th, good[other].off, good[other].T);
  try { PIDController x(q.p, q.v, q.i, q.th, q.off, q.T); } catch (const std::runtime_error &) { th = true; }
  try { p.initialize(q.p, q.v, q.i, q.th, q.off, q.T); } catch (const std::runtime_error &) { th2 = true; }
  c.step(2);
  c.state(c.root);
  c.yes("domain", th == (i >= NG) && th2 == (i >= NG), "negative parameters and a period that is not strictly positive are refused");
  // still usable after being initialised again
  const Par &g = good[other];
  p.initialize(g.p, g.v, g.i, g.th, g.off, g.T);
  Ref r;
  r.set(g);
  for (float e : errs) c.near("after a refusal", p.computeFeedback(e, 0.f), r.step(e, false, r.T), 1e-3);
}
// periods: each call may carry its own
void periods(mc::Ctx &c) {
  mc::Dec d(c.root);
  const Par &q = good[d(NG)];
  PIDController pid(q.p, q.v, q.i, q.th, q.off, q.T);
  Ref r;
  r.set(q);
  const float ts[] = {-1.f, 0.f, 0.05f, 0.5f, 3.f};
  for (int i = 0; i < 4; ++i) {
    float T = ts[d(5)], e = errs[d(5)];
    double g = pid.computeFeedback(e, 0.f, T), w = r.step(e, false, T > 0 ? T : r.T);
    c.log("computeFeedback(err %g, period %g) = %.8g (expected %.8g)", e, T, g, w);
    c.near("feedback", g, w, 1e-5 * (1 + std::fabs(w)) + 2e-5 * 20);
    c.step();
    c.state(r.h());
  }
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  mc::family("histories", (NG + 1) * 2, [th](mc::Ctx &c) { hist(c, false, th ? 7 : 6); },
             "all histories of 6 (7 thorough) calls over 8 computations, one configuration call or copy anywhere; 7 parameter sets");
  mc::family("histories-wide", (NG + 1) * 2, [th](mc::Ctx &c) { hist(c, true, th ? 5 : 4); },
             "all histories of 4 (5) calls over 14 computations (explicit periods, errors under the threshold, absolute ones of any sign), two configuration calls or copies anywhere; 7 parameter sets");
  mc::family("long", (NG + 1) * (uint64_t)NCOMP * NCOMP * NCOMP * NSPEC * 4, [th](mc::Ctx &c) { longRun(c, th ? 400 : 60); },
             "60 (400) steps of every pattern of 3 computations, with two configuration calls at 4 places; 7 parameter sets");
  mc::family("domain", (NG + 7) * NG, domain, "valid and invalid parameter sets, constructor and initialize, over every previous configuration");
  mc::family("periods", NG * 25 * 25 * 25 * 25ull, periods, "all 4-step histories of 5 errors x 5 periods");
}
