// C07: planar poses: a group acting on the plane, consistent with transforms
#include "sizes.h"
#include "conv.h"
#include "small.h"
#include "compare.h"
#include <stdexcept>
using namespace ref;
namespace {
std::vector<A::Pose2D> G;
std::vector<float> ang;
void eqP(mc::Ctx &c, const char *key, const A::Pose2D &g, const P2 &w, double tp, double ta) {
  c.compared(3);
  if (!(std::fabs(g.x - w.x) <= tp) || !(std::fabs(g.y - w.y) <= tp) || !(std::fabs(g.theta - w.t) <= ta))
    c.fail(key, "got (%.7g %.7g %.7g), expected (%.7g %.7g %.7g) within %.2g/%.2g", g.x, g.y, g.theta, w.x, w.y, w.t, tp, ta);
}
void gens() {
  G = {A::Pose2D(), A::Pose2D(1.f, 0.f, 0.f), A::Pose2D(0.f, -2.f, (float)(PI / 2)),
       A::Pose2D(0.3f, 0.4f, (float)PI), A::Pose2D(-1.f, 2.f, -0.7f), A::Pose2D(5.f, -3.f, 2.9f),
       A::Pose2D(1e-3f, 0.f, 1e-3f), A::Pose2D(0.f, 0.f, -3.f)};
}
void words(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  A::Pose2D t = G[4];
  P2 r = toRef(t);
  const char *nm[] = {"p*g", "p*=g", "g*p", "inverse", "p*=p", "diff", "p+g", "p-=g"};
  for (int i = 0; i < depth; ++i) {
    size_t l = d(8 * G.size());
    int op = l % 8;
    const A::Pose2D &g = G[l / 8];
    P2 rg = toRef(g);
    c.log("%s g=(%g %g %g)", nm[op], g.x, g.y, g.theta);
    switch (op) {
      case 0: t = t * g; r = r * rg; break;
      case 1: { A::Pose2D *p = &(t *= g); c.yes("*=", p == &t, "returns self"); r = r * rg; break; }
      case 2: t = g * t; r = rg * r; break;
      case 3: t = t.inverse(); r = inv(r); break;
      case 4: t *= t; r = r * r; break;
      case 5: t = t.diff(g); r = inv(r) * rg; break;
      case 6: t = t + g; r = {r.x + rg.x, r.y + rg.y, r.t + rg.t}; break;
      case 7: { A::Pose2D *p = &(t -= g); c.yes("-=", p == &t, "returns self"); r = {r.x - rg.x, r.y - rg.y, r.t - rg.t}; break; }
    }
    c.step();
    double m = 1 + std::fabs(r.x) + std::fabs(r.y);
    eqP(c, nm[op], t, r, 2e-5 * m, 2e-5);
  }
  double m = 1 + std::fabs(r.x) + std::fabs(r.y), tp = 5e-5 * m, ta = 3e-5;
  c.state(mc::Hash().q(r.x, 1e-3).q(r.y, 1e-3).q(r.t, 1e-3).h);
  A::Pose2D o(9.f, 9.f, 9.f), ip = t;
  A::pose2DInverse(t, o);
  A::pose2dInvertInPlace(ip);
  eqP(c, "pose2DInverse-out", o, inv(r), tp, ta);
  eqP(c, "pose2dInvertInPlace", ip, inv(r), tp, ta);
  eqP(c, "pose2DInverse", A::pose2DInverse(t), inv(r), tp, ta);
  eqP(c, "pinv", A::pinv(t), inv(r), tp, ta);
  eqP(c, "inverse", t.inverse(), inv(r), tp, ta);
  eqP(c, "p*inverse", t * t.inverse(), P2(), tp, ta);
  eqP(c, "inverse*p", t.inverse() * t, P2(), tp, ta);
  A::Pose2D n = -t, q = +t, s2 = t, s0 = t;
  s2 += s2;
  s0 -= s0;
  c.yes("p+=p and p-=p", s2 == t * 2.f && s0 == A::Pose2D(), "twice the pose and nothing");
  eqP(c, "unary", n, {-r.x, -r.y, -r.t}, tp, ta);
  c.yes("unary", q == t, "+p is p");
  c.step(8);
  for (const A::Pose2D &g : G) {
    P2 rg = toRef(g);
    double tg = tp + 2e-5 * (1 + std::fabs(rg.x) + std::fabs(rg.y));
    eqP(c, "diff", A::pose2dDiff(t, g), inv(r) * rg, tg, ta);
    eqP(c, "t*diff", t * A::pose2dDiff(t, g), rg, 2 * tg, ta);
    A::Pose2D s = t, u = t;
    A::Pose2D *ps = &(s += g), *pu = &(u -= g);
    c.yes("+= and -=", ps == &s && pu == &u, "return self");
    eqP(c, "p+=g", s, {r.x + rg.x, r.y + rg.y, r.t + rg.t}, tg, ta);
    eqP(c, "p-=g", u, {r.x - rg.x, r.y - rg.y, r.t - rg.t}, tg, ta);
    c.yes("p+g and p-g", s == t + g && u == t - g, "both forms agree");
    double dx = r.x - rg.x, dy = r.y - rg.y;
    c.near("distance", A::distance(t, g), std::hypot(dx, dy), tg);
    c.near("distance", t.distance(g), std::hypot(dx, dy), tg);
    c.near("distanceSquared", A::distanceSquared(t, g), dx * dx + dy * dy, tg * (1 + std::hypot(dx, dy)));
    c.near("distanceSquared", t.distanceSquared(g), dx * dx + dy * dy, tg * (1 + std::hypot(dx, dy)));
    // action on points is compatible with the product
    A::Position2D p(g.x, -g.y);
    P2 w = r * P2{g.x, -g.y, 0};
    A::Position2D tp2 = t * p;
    c.near("p*position", tp2.x, w.x, tg);
    c.near("p*position", tp2.y, w.y, tg);
    P2 w2 = (r * rg) * P2{g.x, -g.y, 0};
    A::Position2D a1 = (t * g) * p, a2 = t * (g * p);
    c.near("(p*g)*x", a1.x, w2.x, 2 * tg);
    c.near("p*(g*x)", a2.x, w2.x, 2 * tg);
    c.near("(p*g)*x", a1.y, w2.y, 2 * tg);
    c.near("p*(g*x)", a2.y, w2.y, 2 * tg);
    // transforms of the plane are the same group
    T3 W{rotZ(r.t) * rotZ(rg.t), {(r * rg).x, (r * rg).y, 0}};
    eqT(c, "transform of product", A::transformFromPose2D(t * g), W, 1e-4, 2 * tg);
    eqT(c, "product of transforms", A::transformFromPose2D(t) * A::transformFromPose2D(g), W, 1e-4, 2 * tg);
    c.step(12);
  }
  A::Pose2D back = A::pose2DFromTransform(A::transformFromPose2D(t));
  c.near("pose2D from transform", back.x, r.x, tp);
  c.near("pose2D from transform", back.y, r.y, tp);
  c.near("pose2D from transform", wrap(back.theta - r.t), 0, 1e-4);
  A::Pose2D b6 = A::pose2DFromPosition6D(A::position6DFromPose2D(t));
  c.yes("6D round trip", b6 == t, "pose to 6D position and back is exact");
  std::vector<float> v = t.toVector(), v2(7), v3(4, 5.f);
  t.toVector(v2);
  std::vector<float>::iterator it = v3.begin();
  t.writeToVector(it);
  c.yes("vectors", v.size() == 3 && v == v2 && v[0] == t.x && v[1] == t.y && v[2] == t.theta && A::Pose2D(v) == t && it == v3.begin() + 3 && v3[0] == t.x && v3[1] == t.y && v3[2] == t.theta && v3[3] == 5.f, "vector forms are x y theta");
}
// changes of planar reference, polar forms
void angles(mc::Ctx &c) {
  mc::Dec d(c.root);
  float a = ang[d(ang.size())];
  const A::Pose2D &g = G[d(G.size())];
  P2 r = toRef(g), turn{0, 0, a}, w = turn * r;
  double tp = 3e-6 * (1 + std::fabs(g.x) + std::fabs(g.y));
  A::Pose2D o(9.f, 9.f, 9.f), ip = g;
  A::changeReferencePose2D(a, g, o);
  A::changeReferencePose2DInPlace(a, ip);
  c.step(6);
  c.log("angle %.8g pose (%g %g %g)", a, g.x, g.y, g.theta);
  eqP(c, "changeReferencePose2D", o, {w.x, w.y, r.t}, tp, 0);
  eqP(c, "changeReferencePose2DInPlace", ip, {w.x, w.y, r.t}, tp, 0);
  const float radii[] = {0.f, 1.f, 2.5f, 1e-3f, 100.f};
  for (float rad : radii) {
    A::Pose2D p = A::Pose2D::fromPolarCoordinates(rad, a);
    A::Position2D q = A::Position2D::fromPolarCoordinates(rad, a);
    double t = 1e-6 * rad + 1e-7;
    eqP(c, "fromPolarCoordinates", p, {rad * std::cos((double)a), rad * std::sin((double)a), a}, t, 0);
    c.yes("fromPolarCoordinates", q.x == p.x && q.y == p.y, "position and pose agree");
    c.near("norm", p.norm(), rad, 2 * t);
    c.near("norm", q.norm(), rad, 2 * t);
    if (rad > 0) {
      c.near("getAngle", wrap(p.getAngle() - a), 0, 1e-6);
      c.near("getAngle", wrap(q.getAngle() - a), 0, 1e-6);
      A::Pose2D n = p.normalize();
      eqP(c, "normalize", n, {std::cos((double)a), std::sin((double)a), a}, 1e-6, 0);
    }
    c.step(6);
  }
  A::Pose2D k(g.x, g.y, a);
  A::Transform T = A::transformFromPose2D(k), T2(7.f, 7.f, 7.f);
  A::transformFromPose2DInPlace(k, T2);
  T3 WT{rotZ(a), {g.x, g.y, 0}};
  eqT(c, "transformFromPose2D", T, WT, 1e-6, 1e-6);
  eqT(c, "transformFromPose2DInPlace", T2, WT, 1e-6, 1e-6);
  c.state(mc::Hash().q(w.x).q(w.y).q(a).h);
}
void scalars(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float s[] = {0.f, 1.f, -2.f, 0.25f, 1e-3f, 5e-5f, 100.f};
  float x = s[d(7)], y = s[d(7)], t = s[d(7)], k = s[d(7)];
  A::Pose2D p(x, y, t), a, b = p, m = p;
  double tl = 1e-5 * (1 + (std::fabs(x) + std::fabs(y) + std::fabs(t)) * std::max(1.0, k ? 1 / std::fabs((double)k) : 0.0));
  eqP(c, "p*k", p * k, {x * k, y * k, t * k}, tl, tl);
  m *= k;
  eqP(c, "p*=k", m, {x * k, y * k, t * k}, tl, tl);
  int n = 0;
  try { a = p / k; } catch (const std::runtime_error &) { ++n; }
  try { b /= k; } catch (const std::runtime_error &) { ++n; }
  c.yes("p/k", n == (k == 0 ? 2 : 0), "only a division by zero is refused");
  if (k) {
    eqP(c, "p/k", a, {(double)x / k, (double)y / k, (double)t / k}, tl, tl);
    eqP(c, "p/=k", b, {(double)x / k, (double)y / k, (double)t / k}, tl, tl);
  } else
    c.yes("p/=0", b == p, "a refused division leaves the pose alone");
  bool th = false;
  A::Pose2D nn;
  try { nn = p.normalize(); } catch (const std::runtime_error &) { th = true; }
  double nr = std::hypot(x, y);
  c.yes("normalize", th == (nr < 1e-4), "only a null position cannot be normalised");
  if (!th) eqP(c, "normalize", nn, {x / nr, y / nr, t}, 1e-6, 0);
  c.step(6);
  c.state(mc::Hash().u(c.root).h);
  // nearness and equality per component
  const float ds[] = {0.f, 5e-5f, -5e-5f, 2e-4f, -2e-4f, 0.05f, -0.5f};
  for (int comp = 0; comp < 3; ++comp)
    for (float dd : ds) {
      A::Pose2D q = p;
      (comp == 0 ? q.x : comp == 1 ? q.y : q.theta) += dd;
      double real = comp == 0 ? (double)q.x - p.x : comp == 1 ? (double)q.y - p.y : (double)q.theta - p.theta;
      c.yes("isNear", p.isNear(q) == (std::fabs(real) < 1e-4) && q.isNear(p) == p.isNear(q), "every component within 1e-4");
      c.yes("isNear", p.isNear(q, 0.1f) == (std::fabs(real) < 0.1), "every component within epsilon");
      c.yes("==", (p == q) == (real == 0) && (p != q) == (real != 0), "== compares every component");
    }
}
// pairs of poses of every scale, relatively to it
void scalesF(mc::Ctx &c) {
  mc::Dec d(c.root);
  float a = small::ANG[d(small::NA)], b = small::ANG[d(small::NA)];
  int da = d(3), db = d(3);
  double an = std::max(std::fabs(a), std::fabs(b)) * 2e-6;
  const float D[3][2] = {{1, 0}, {0, -1}, {0.75f, 0.5f}};
  for (double l : small::LEN)
    for (double k : small::LEN) {
      A::Pose2D p(D[da][0] * (float)l, D[da][1] * (float)l, a), q(D[db][0] * (float)k, D[db][1] * (float)k, b);
      P2 rp = toRef(p), rq = toRef(q);
      double lp = std::hypot(rp.x, rp.y), lq = std::hypot(rq.x, rq.y), t = 2e-6 * (lp + lq);
      eqP(c, "p*q", p * q, rp * rq, t, an);
      A::Pose2D m = p, o(9.f, 9.f, 9.f), ip = p;
      m *= q;
      eqP(c, "p*=q", m, rp * rq, t, an);
      A::pose2DInverse(p, o);
      A::pose2dInvertInPlace(ip);
      for (const A::Pose2D &x : {p.inverse(), A::pose2DInverse(p), A::pinv(p), o, ip}) eqP(c, "inverse", x, inv(rp), 2e-6 * lp, 0);
      eqP(c, "diff", p.diff(q), inv(rp) * rq, t, an);
      eqP(c, "pose2dDiff", A::pose2dDiff(p, q), inv(rp) * rq, t, an);
      eqP(c, "p+q", p + q, {rp.x + rq.x, rp.y + rq.y, rp.t + rq.t}, t, an);
      eqP(c, "p-q", p - q, {rp.x - rq.x, rp.y - rq.y, rp.t - rq.t}, t, an);
      double dd = std::hypot(rp.x - rq.x, rp.y - rq.y);
      c.near("distance", A::distance(p, q), dd, t);
      c.near("distance", p.distance(q), dd, t);
      c.near("distanceSquared", A::distanceSquared(p, q), dd * dd, t * (lp + lq));
      c.near("distanceSquared", p.distanceSquared(q), dd * dd, t * (lp + lq));
      c.near("norm", p.norm(), lp, 2e-6 * lp);
      A::Position2D x = p * A::Position2D(q.x, q.y);
      P2 w = rp * P2{rq.x, rq.y, 0};
      c.near("p*position", x.x, w.x, t);
      c.near("p*position", x.y, w.y, t);
      A::changeReferencePose2D(a, q, o);
      P2 cr = P2{0, 0, (double)a} * rq;
      eqP(c, "changeReferencePose2D", o, {cr.x, cr.y, rq.t}, 2e-6 * lq, 0);
      ip = q;
      A::changeReferencePose2DInPlace(a, ip);
      eqP(c, "changeReferencePose2DInPlace", ip, {cr.x, cr.y, rq.t}, 2e-6 * lq, 0);
      float r = std::fabs((float)l);
      eqP(c, "fromPolarCoordinates", A::Pose2D::fromPolarCoordinates(r, a), {r * std::cos((double)a), r * std::sin((double)a), a}, 1e-6 * r, 0);
      c.near("fromPolarCoordinates", A::Pose2D::fromPolarCoordinates(r, a).y, r * std::sin((double)a), 1e-6 * r * std::fabs(a));
      if (r) c.near("getAngle", A::Pose2D::fromPolarCoordinates(r, a).getAngle(), a, 2e-6 * std::fabs(a));
      c.step(20);
    }
  c.state(c.root);
}
}  // namespace
void mc::setup() {
  std::cerr.rdbuf(nullptr);  // warnings
  std::cout.rdbuf(nullptr);
  mc::family("compare-all", compareRoots(3), [](mc::Ctx &c) { compareCase<A::Pose2D>(c, 3, [](const std::vector<float> &v) { return A::Pose2D(v); }); },
             "3 values x 2 components among 3 x 10 x 10 differences x 5 tolerances");
  mc::family("compare-all-equal", compareRoots(3) / compareNs::NE, [](mc::Ctx &c) { equalCase<A::Pose2D>(c, 3, [](const std::vector<float> &v) { return A::Pose2D(v); }); },
             "3 values x 2 components among 3 x 10 x 10 differences");
  mc::family("sizes", 84, [](mc::Ctx &c) {
    sizesCase<A::Pose2D>(c, [](int n) { return n == 3 ? iota(3) : std::vector<int>(); }, {{0, 0, 0}});
  }, "vectors of 0 to 20 floats, 4 contents");

  gens();
  bool th = mc::thorough();
  ang = angleGrid(th ? 720 : 180);
  for (float x : {4.f, -5.f, 6.28318f, 10.f}) ang.push_back(x);
  int depth = th ? 4 : 3;
  uint64_t n = 1;
  for (int i = 0; i < depth; ++i) n *= 8 * G.size();
  mc::family("words", n, [depth](mc::Ctx &c) { words(c, depth); },
             "all words of length 3 (4 thorough) over 8 operations x 8 poses, then every observer against every pose");
  mc::family("scales", small::NA * small::NA * 9, scalesF, "pairs of poses of 8 angles from 1e-12 to 1, 3 directions, 8 lengths from 1e-14 to 1e11, relatively to them");
  mc::family("angles", ang.size() * G.size(), angles, "angle grid x 8 poses x 5 radii");
  mc::family("scalars", 7 * 7 * 7 * 7, scalars, "poses over 7 values per component x 7 scalars x component differences");
}
