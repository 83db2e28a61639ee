// C05: screw exponential / logarithm of rigid transforms, and their mean
#include "conv.h"
using namespace ref;
namespace {
std::vector<float> ang;
std::vector<V3> dirs;
const V3 lin[] = {{0, 0, 0}, {1, 0, 0}, {0, -2, 0}, {0.3, 0.5, -0.7}, {10, -20, 5}, {1e-3, 2e-3, 0}, {1e-7, -3e-7, 2e-7}, {2e4, -3e4, 1e4}};
const int NL = 8;

struct Tw {
  V3 v, w;
};
M3 skew2(V3 w, double a, double b) {  // I + a [w] + b [w]^2
  double K[3][3] = {{0, -w.z, w.y}, {w.z, 0, -w.x}, {-w.y, w.x, 0}};
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double k2 = 0;
      for (int k = 0; k < 3; ++k) k2 += K[i][k] * K[k][j];
      r.m[i][j] = (i == j) + a * K[i][j] + b * k2;
    }
  return r;
}
T3 rexp(Tw t) {
  double a = norm(t.w);
  double B, C;
  if (a < 1e-3) {
    B = 0.5 - a * a / 24;
    C = 1.0 / 6 - a * a / 120;
  } else {
    B = (1 - std::cos(a)) / (a * a);
    C = (a - std::sin(a)) / (a * a * a);
  }
  return {axisAngle(a, t.w), skew2(t.w, B, C) * t.v};
}
// logarithm for angles below pi
Tw rlog(const T3 &T) {
  V3 u{T.R.m[2][1] - T.R.m[1][2], T.R.m[0][2] - T.R.m[2][0], T.R.m[1][0] - T.R.m[0][1]};
  double a = angleOf(T.R), n = norm(u);
  Tw r;
  if (n == 0) {
    r.v = T.p;
    return r;
  }
  r.w = (a / n) * u;
  double D = a < 1e-3 ? 1.0 / 12 + a * a / 720
                      : (1 - a * std::sin(a) / (2 * (1 - std::cos(a)))) / (a * a);
  r.v = skew2(r.w, -0.5, D) * T.p;
  return r;
}
Tw toRefV(const A::Velocity6D &v) { return {{v.xd, v.yd, v.zd}, {v.wxd, v.wyd, v.wzd}}; }
uint64_t hv(const Tw &t) {
  mc::Hash h;
  for (int i = 0; i < 3; ++i) h.q(t.v[i], 1e-3).q(t.w[i], 1e-3);
  return h.h;
}

void expF(mc::Ctx &c) {
  mc::Dec d(c.root);
  float a = ang[d(ang.size())];
  V3 u = dirs[d(dirs.size())];
  V3 l = lin[d(NL)];
  double n = norm(u);
  A::Velocity6D v((float)l.x, (float)l.y, (float)l.z, (float)(a * u.x / n), (float)(a * u.y / n),
                  (float)(a * u.z / n));
  Tw r = toRefV(v);
  c.log("exp of v=%s w=%s", str(r.v).c_str(), str(r.w).c_str());
  T3 want = rexp(r);
  A::Transform t = A::velocityExponential(v);
  A::Transform o(9.f, 9.f, 9.f);
  o.r1_c1 = o.r2_c3 = 7.f;
  A::velocityExponentialInPlace(v, o);
  c.step(2);
  double tp = 5e-5 * norm(l);
  // small rotations: relative to their angle
  V3 sk{(t.r3_c2 - t.r2_c3) / 2.0, (t.r1_c3 - t.r3_c1) / 2.0, (t.r2_c1 - t.r1_c2) / 2.0};
  if (std::fabs(a) < 1) eqV(c, "velocityExponential small rotation", sk, (std::sin(norm(r.w)) / std::max(norm(r.w), 1e-300)) * r.w, 1e-5 * std::fabs(a) + 1e-30);
  eqT(c, "velocityExponential", t, want, 5e-6, tp);
  eqT(c, "velocityExponentialInPlace", o, want, 5e-6, tp);
  c.yes("isTransform", t.isTransform(), "an exponential is a rigid transform");
  // exp(-v) is the inverse
  A::Velocity6D m((float)-v.xd, -v.yd, -v.zd, -v.wxd, -v.wyd, -v.wzd);
  eqT(c, "exp(-v)", A::velocityExponential(m) * t, T3(), 1e-5, 2 * tp);
  c.state(hashOf(want));
  // log(exp(v)) == v inside of the injectivity domain
  if (std::fabs(a) <= PI - 0.00105) {
    Tw g = toRefV(A::transformLogarithm(t));
    c.step();
    double amp = std::fabs(a) > 1 ? 1 / (PI - std::fabs(a)) : 1;  // conditioning near pi
    eqV(c, "log(exp) rotation", g.w, r.w, (2e-5 + 2e-6 * amp) * std::min(1.0, (double)std::fabs(a)) + 1e-30);
    eqV(c, "log(exp) translation", g.v, r.v, (5e-5 + 2e-6 * amp) * norm(l));
  }
}

void logF(mc::Ctx &c) {
  mc::Dec d(c.root);
  float a = ang[d(ang.size())];
  V3 u = dirs[d(dirs.size())];
  V3 l = lin[d(NL)];
  int drift = d(3);  // rotation matrices as float products leave them
  if (std::fabs(a) > PI - 0.00105) c.skip();
  A::Transform t = toT({axisAngle(a, u), l});
  if (drift == 1) t = t * A::transformFromRotX(0.4f) * A::transformFromRotX(-0.4f);
  if (drift == 2) t = A::transformFromRotZ(2.f) * (A::transformFromRotZ(-2.f) * t);
  T3 rt = toRef(t);
  c.log("log of %s", str(t).c_str());
  Tw r = rlog({axisAngle(a, u), l});
  Tw g = toRefV(A::transformLogarithm(t));
  A::Velocity6D o(9.f, 8.f, 7.f, 6.f, 5.f, 4.f);
  A::transformLogarithmInPlace(t, o);
  Tw g2 = toRefV(o);
  c.step(2);
  double amp = std::fabs(a) > 1 ? 1 / (PI - std::fabs(a)) : 1;
  double tr_ = 2e-5 + 4e-6 * amp, tp = (1e-4 + 4e-6 * amp) * norm(l);
  eqV(c, "log rotation", g.w, r.w, drift ? tr_ : tr_ * std::min(1.0, (double)std::fabs(a)) + 1e-30);
  eqV(c, "log translation", g.v, r.v, tp);
  eqV(c, "logInPlace rotation", g2.w, g.w, 0);
  eqV(c, "logInPlace translation", g2.v, g.v, 0);
  c.state(hv(g));
  A::Transform back = A::velocityExponential(A::transformLogarithm(t));
  c.step(2);
  eqT(c, "exp(log)", back, rt, tr_, tp);
}

// exact half turns about the coordinate axes: the screw turns by half a turn
// about that axis, either way
void halfTurns(mc::Ctx &c) {
  mc::Dec d(c.root);
  int axis = d(3), sign = d(2), how = d(3);
  V3 l{(double)(int)d(5) - 2, ((int)d(5) - 2) * 0.5, ((int)d(5) - 2) * 10.0};
  V3 u{axis == 0 ? 1. : 0., axis == 1 ? 1. : 0., axis == 2 ? 1. : 0.};
  const float PIf = 3.14159265f;
  A::Transform t = toT({axisAngle(sign ? PI : -PI, u), l});
  float a = sign ? PIf : -PIf;
  A::Transform e = axis == 0 ? A::transformFromRotX(a) : axis == 1 ? A::transformFromRotY(a) : A::transformFromRotZ(a);
  if (how == 1) t = A::Transform((float)l.x, (float)l.y, (float)l.z) * e;
  if (how == 2) {
    A::Transform h = axis == 0 ? A::transformFromRotX(a / 2) : axis == 1 ? A::transformFromRotY(a / 2) : A::transformFromRotZ(a / 2);
    t = A::Transform((float)l.x, (float)l.y, (float)l.z) * h * h;
  }
  T3 want = toRef(t);
  c.log("half turn %s", str(t).c_str());
  A::Velocity6D o(9.f, 8.f, 7.f, 6.f, 5.f, 4.f);
  A::transformLogarithmInPlace(t, o);
  Tw g = toRefV(A::transformLogarithm(t)), g2 = toRefV(o);
  c.step(2);
  double off = 0, along = 0;
  for (int i = 0; i < 3; ++i) {
    double w = i == 0 ? g.w.x : i == 1 ? g.w.y : g.w.z;
    (i == axis ? along : off) += std::fabs(w);
  }
  c.near("angle of a half turn", along, PI, 1e-3);
  c.near("axis of a half turn", off, 0, 1e-3);
  eqV(c, "logInPlace rotation", g2.w, g.w, 0);
  eqV(c, "logInPlace translation", g2.v, g.v, 0);
  eqT(c, "exp(log) of a half turn", A::velocityExponential(A::transformLogarithm(t)), want, 1e-3, 1e-3 * (1 + norm(l)));
  c.state(mc::Hash().u(c.root).h);
}
// pairs of transforms at angle a, interpolated at val
void meanF(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float as[] = {0.f, 1e-4f, 5e-4f, 1e-3f, 2e-3f, 0.1f, 1.f, -2.f, 3.f, 3.1f, -3.13f};
  const float vals[] = {0.f, 0.25f, 0.5f, 0.75f, 1.f, 1e-3f, 0.999f};
  const T3 firsts[] = {{M3(), {0, 0, 0}},
                       {axisAngle(2.2, {1, -1, 0.5}), {1, 2, -3}},
                       {axisAngle(PI, {0, 0, 1}), {-0.5, 0, 0.1}},
                       {axisAngle(-1.1, {0, 1, 1}), {30, 0, 0}}};
  T3 F = firsts[d(4)];
  float a = as[d(11)];
  V3 u = dirs[d(dirs.size())];
  V3 l = lin[d(NL)];
  float val = vals[d(7)];
  T3 D{axisAngle(a, u), l};
  A::Transform t1 = toT(F), t2 = toT(F * D);
  Tw r = rlog(D);
  T3 want = F * rexp({val * r.v, val * r.w});
  c.log("mean at %g from %s to %s", val, str(t1).c_str(), str(t2).c_str());
  double amp = std::fabs(a) > 1 ? 1 / (PI - std::fabs(a)) : 1;
  double tr_ = 5e-5 * std::min(1.0, (double)std::fabs(a)) + 3e-6 * amp, tp = (2e-4 + 4e-6 * amp) * norm(l) + 2e-6 * norm(F.p);
  A::Transform m = A::transformMean(t1, t2, val), o(9.f, 9.f, 9.f);
  A::transformMeanInPlace(t1, t2, val, o);
  c.step(2);
  eqT(c, "transformMean", m, want, tr_, tp);
  eqT(c, "transformMeanInPlace", o, want, tr_, tp);
  c.state(hashOf(want));
  eqT(c, "reversed mean", A::transformMean(t2, t1, 1.f - val), want, 2 * tr_, 2 * tp);
  if (val == 0) eqT(c, "mean at 0", m, F, 1e-5, 1e-5 * (1 + norm(F.p)));
  if (val == 1) eqT(c, "mean at 1", m, F * D, tr_, tp);
}
void domainF(mc::Ctx &c) {
  const float vals[] = {-1e-6f, 1.000001f, -1.f, 2.f, -INFINITY, INFINITY, 0.f, 1.f, 0.5f};
  float v = vals[c.root];
  bool thrown = false, thrown2 = false;
  A::Transform a(1.f, 2.f, 3.f), b = A::transformFromRotY(0.3f), o(5.f, 5.f, 5.f);
  try { A::transformMean(a, b, v); } catch (const std::runtime_error &) { thrown = true; }
  try { A::transformMeanInPlace(a, b, v, o); } catch (const std::runtime_error &) { thrown2 = true; }
  c.step(2);
  c.state(c.root);
  c.yes("domain", thrown == !(v >= 0 && v <= 1) && thrown2 == thrown, "weights outside of [0, 1] and only these are refused");
  if (thrown2) c.yes("domain", o == A::Transform(5.f, 5.f, 5.f), "a refused call leaves its output alone");
}
// filter history: repeatedly move by a fraction towards a (moving) target;
// the remaining screw must shrink by (1-f) at every step
void filterF(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float fs[] = {0.5f, 0.25f, 0.8f};
  float f = fs[d(3)];
  const float as[] = {1e-4f, 2e-3f, 0.3f, 2.5f};
  float a = as[d(4)];
  V3 u = dirs[d(dirs.size())];
  T3 target{axisAngle(a, u), {0.2, -1, 0.4}};
  A::Transform cur, tgt = toT(target);
  T3 want;
  bool jumped = false;
  for (int i = 0; i < 8; ++i) {
    int jump = (i == 3 || i == 5) ? c.pick(3) : 0;
    if (jump) {
      jumped = true;
      target = target * T3{axisAngle(jump == 1 ? 0.2 : -8e-4, u), {0.1 * jump, 0, 0}};
      tgt = toT(target);
    }
    Tw r = rlog(inv(want) * target);
    want = want * rexp({f * r.v, f * r.w});
    cur = A::transformMean(cur, tgt, f);
    c.step();
    eqT(c, "filter", cur, want, (jumped ? 2e-5 : 1e-4 * std::min(1.f, a)) + 4e-6, 2e-4);
    c.state(hashOf(toRef(cur), 1e-4));
  }
}
}  // namespace
void mc::setup() {
  mc::family("half-turns", 18 * 125, halfTurns, "half turns about the coordinate axes, both ways, made in 3 ways x 125 translations");
  bool th = mc::thorough();
  ang = angleGrid(th ? 720 : 90);
  for (float x : {2e-4f, 5e-4f, 9.9e-4f, 9.99e-4f, 1e-3f, 1.001e-3f, 2e-3f, 3.1404f, 3.1405f, 3.14f}) {
    ang.push_back(x);
    ang.push_back(-x);
  }
  for (float x : {4.f, -5.f, 6.28f, 12.f}) ang.push_back(x);
  dirs = dirGrid();
  std::string g = std::to_string(ang.size()) + " angles (regular grid, around every threshold) x 35 axes x 8 translations";
  mc::family("exp", ang.size() * dirs.size() * NL, expF, g);
  mc::family("log", ang.size() * dirs.size() * NL * 3, logF, g + " x 3 float histories; angles up to pi-0.001");
  mc::family("mean", 4ull * 11 * dirs.size() * NL * 7, meanF, "4 first poses x 11 angles x 35 axes x 8 translations x 7 weights");
  mc::family("mean-domain", 9, domainF, "weights inside and outside of [0,1]");
  mc::family("mean-histories", 3ull * 4 * dirs.size(), filterF, "8 filter steps, targets jumping at 2 of them (9 histories), 3 gains x 4 angles x 35 axes");
}
