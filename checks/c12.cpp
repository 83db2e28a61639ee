// C12: foot collision, box collision, segment intersection, ellipse clipping
#include "conv.h"
#include <almath/tools/avoidfootcollision.h>
namespace {
using ref::PI;
typedef std::vector<A::Position2D> Box;
struct P { double x, y; };
typedef std::vector<P> Poly;

Poly poly(const Box &b) {
  Poly p;
  for (auto &v : b) p.push_back({v.x, v.y});
  return p;
}
Poly moved(const Box &b, double x, double y, double t) {
  Poly p;
  double c = std::cos(t), s = std::sin(t);
  for (auto &v : b) p.push_back({x + c * v.x - s * v.y, y + s * v.x + c * v.y});
  return p;
}
// signed separation of two convex polygons (separating axis theorem):
// > 0 apart by at least that along an axis, < 0 overlapping by that depth
double separation(const Poly &a, const Poly &b) {
  double best = -1e30;
  for (int k = 0; k < 2; ++k) {
    const Poly &q = k ? b : a;
    for (size_t i = 0; i < q.size(); ++i) {
      P e = {q[(i + 1) % q.size()].x - q[i].x, q[(i + 1) % q.size()].y - q[i].y};
      double n = std::hypot(e.x, e.y);
      if (n < 1e-12) continue;
      P u = {-e.y / n, e.x / n};
      double la = 1e30, ha = -1e30, lb = 1e30, hb = -1e30;
      for (auto &v : a) { double d = v.x * u.x + v.y * u.y; la = std::min(la, d); ha = std::max(ha, d); }
      for (auto &v : b) { double d = v.x * u.x + v.y * u.y; lb = std::min(lb, d); hb = std::max(hb, d); }
      best = std::max(best, std::max(lb - ha, la - hb));
    }
  }
  return best;
}
Box rect(float x0, float x1, float y0, float y1, bool cw, int start) {
  Box b, r;
  b.push_back(A::Position2D(x1, y1));
  b.push_back(A::Position2D(x1, y0));
  b.push_back(A::Position2D(x0, y0));
  b.push_back(A::Position2D(x0, y1));
  if (!cw) std::swap(b[1], b[3]);
  for (int i = 0; i < 4; ++i) r.push_back(b[(i + start) % 4]);
  return r;
}
Box reg(int n, float rad, bool cw, int start) {
  Box b;
  for (int i = 0; i < n; ++i) {
    double t = 2 * PI * ((i + start) % n) / n * (cw ? -1 : 1) + 0.2;
    b.push_back(A::Position2D((float)(rad * std::cos(t)), (float)(rad * std::sin(t))));
  }
  return b;
}
const double XS[] = {-2.1, -1.3, -1.0, -0.62, -0.3, -0.11, 0, 0.07, 0.25, 0.5, 0.9, 1.2, 1.7};
const double TS[] = {0, 0.05, 0.3, PI / 4, 1.2, PI / 2, 2.0, 3.0, -0.02, -0.5, -1.0, -2.4};
Box shape(int i, bool cw, int start) {
  switch (i) {
    case 0: return rect(-1, 1, -1, 1, cw, start);
    case 1: return rect(-0.5f, 0.8f, -0.38f, 0.5f, cw, start);
    case 2: return rect(-0.1f, 0.1f, -0.1f, 0.1f, cw, start);
    case 3: return rect(-1.5f, 1.4f, -0.06f, 0.07f, cw, start);
    case 4: return reg(3, 0.7f, cw, start);
    case 5: return reg(5, 0.9f, cw, start);
    case 6: return rect(0.3f, 0.6f, 0.2f, 0.9f, cw, start);
    default: return reg(8, 0.4f, cw, start);
  }
}
const double MARGIN = 2e-4;
void boxes(mc::Ctx &c) {
  mc::Dec d(c.root);
  int ia = d(8), ib = d(8);
  bool ca = d(2), cb = d(2);
  double x = XS[d(13)], y = XS[d(13)], t = TS[d(12)];
  Box a = shape(ia, ca, (ia + ib) % 3);
  Box b0 = shape(ib, cb, ib % 3), b;
  A::Pose2D mv((float)x, (float)y, (float)t);
  b.push_back(A::Position2D(9, 9));  // the former content must go
  A::computeBox(b0, mv, b);
  Poly pb = moved(b0, mv.x, mv.y, mv.theta);
  c.yes("computeBox", b.size() == pb.size(), "one vertex per vertex");
  for (size_t i = 0; i < pb.size(); ++i) {
    c.near("computeBox", b[i].x, pb[i].x, 3e-6);
    c.near("computeBox", b[i].y, pb[i].y, 3e-6);
  }
  double s = separation(poly(a), pb);
  c.log("shapes %d %d clockwise %d %d move %g %g %g separation %g", ia, ib, ca, cb, x, y, t, s);
  if (std::fabs(s) < MARGIN) c.skip();
  c.step(3);
  c.yes("collision", A::areTwoBoxesInCollision(a, b) == (s < 0), s < 0 ? "overlapping boxes not reported" : "disjoint boxes reported");
  c.yes("collision is symmetric", A::areTwoBoxesInCollision(b, a) == (s < 0), s < 0 ? "overlapping boxes not reported" : "disjoint boxes reported");
  c.state(mc::Hash().u(ia * 8 + ib).q(s, 1e-3).u(ca * 2 + cb).h);
}
// other scales and places, polygons of many vertices
void scaled(mc::Ctx &c) {
  mc::Dec d(c.root);
  const double K[] = {0.002, 0.1, 30, 1000};
  const double O[][2] = {{0, 0}, {7, -3}, {-40, 25}};
  const int NV[] = {4, 6, 16, 33};
  double k = K[d(4)];
  int oi = d(3);
  double ox = O[oi][0] * k, oy = O[oi][1] * k;
  int ia = d(6), ib = d(6);
  double x = XS[d(13)] * 1.3, y = XS[d(13)] * 1.3, t = TS[d(12)];
  auto make = [&](int i) {
    Box b = i < 4 ? reg(NV[i], 0.8f, i % 2, i) : rect(-0.9f, 0.4f, -0.1f, 0.2f, i % 2, 1);
    if (i == 5) { b.insert(b.begin() + 1, A::Position2D((b[0].x + b[1].x) / 2, (b[0].y + b[1].y) / 2)); }  // aligned vertices
    for (auto &p : b) p = A::Position2D((float)(p.x * k), (float)(p.y * k));
    return b;
  };
  Box a0 = make(ia), b0 = make(ib), a, b;
  A::Pose2D ma((float)ox, (float)oy, 0.4f), mb((float)(ox + x * k), (float)(oy + y * k), (float)t);
  A::computeBox(a0, ma, a);
  A::computeBox(b0, mb, b);
  Poly pa = moved(a0, ma.x, ma.y, ma.theta), pb = moved(b0, mb.x, mb.y, mb.theta);
  for (size_t i = 0; i < pb.size(); ++i) {
    c.near("computeBox", b[i].x, pb[i].x, 3e-6 * k * (1 + std::fabs(ox / k)));
    c.near("computeBox", b[i].y, pb[i].y, 3e-6 * k * (1 + std::fabs(oy / k)));
  }
  double s = separation(pa, pb) / k;
  c.log("scale %g place %g %g shapes %d %d move %g %g %g relative separation %g", k, ox, oy, ia, ib, x, y, t, s);
  if (std::fabs(s) < 1e-3) c.skip();
  c.step(4);
  c.yes("collision", A::areTwoBoxesInCollision(a, b) == (s < 0) && A::areTwoBoxesInCollision(b, a) == (s < 0), s < 0 ? "overlapping boxes not reported" : "disjoint boxes reported");
  c.state(mc::Hash().u(ia * 8 + ib).q(s, 1e-3).q(k).h);
}
// fewer than three vertices
void degenerate(mc::Ctx &c) {
  mc::Dec d(c.root);
  int n = d(3);
  bool cw = d(2);
  int sh = d(8), start = d(8);
  Box b = shape(sh, cw, start), e;
  if (n == 0) {
    c.yes("empty box", !A::areTwoBoxesInCollision(e, b) && !A::areTwoBoxesInCollision(b, e) && !A::areTwoBoxesInCollision(e, e), "an empty box collides with nothing");
    A::Pose2D mv(0.1f, 0.2f, 0.3f);
    c.yes("empty box", !A::avoidFootCollision(e, b, cw, mv) && mv.x == 0.1f && mv.y == 0.2f && mv.theta == 0.3f, "an empty box collides with nothing");
  } else {
    double x = XS[d(13)], y = XS[d(13)];
    e.push_back(A::Position2D((float)x, (float)y));
    Poly q;
    q.push_back({(double)(float)x, (double)(float)y});
    if (n == 2) {
      e.push_back(A::Position2D((float)x + 0.6f, (float)y - 0.3f));
      q.push_back({e[1].x, e[1].y});
    }
    double s = separation(poly(b), q);
    if (std::fabs(s) < MARGIN) c.skip();
    c.yes("point or segment", A::areTwoBoxesInCollision(b, e) == (s < 0) && A::areTwoBoxesInCollision(e, b) == (s < 0), "collides iff it is in the box");
  }
  c.step(2);
  c.state(mc::Hash().u(c.root).h);
}
// boxes made from each other: copies up to rounding, sides along diagonals,
// flat boxes aligned with vertices or sides, parts, moves along a side
void shared(mc::Ctx &c) {
  mc::Dec d(c.root);
  const double K[] = {1e-3, 1, 1e3};
  int mode = d(5), n = 3 + d(6), ih = d(60), ir = d(25), sub = d(24), si = d(3);
  double k = K[si], r = (1 + 0.013 * (ir + 25 * si)) * k, h = 0.0157 * (ih + 60 * si + 7 * (sub % 3));
  A::Pose2D m((float)(0.37 * (sub % 5) * k), (float)(-0.21 * (sub % 7) * k), (float)h);
  Box a, b, in;
  for (int i = 0; i < n; ++i) in.push_back(A::Position2D((float)(r * std::cos(2 * PI * i / n)), (float)(r * std::sin(2 * PI * i / n))));
  A::computeBox(in, m, a);
  int i = sub % n, j = (i + 1 + sub / n % (n - 1)) % n;  // a side or a diagonal
  A::Position2D p = a[i], q = a[j], u = q - p, w(-u.y, u.x);
  float l = 0.3f + 0.17f * (sub % 8);
  switch (mode) {
    case 0: m.theta += (float)(2 * PI * (1 + sub / 12)); A::computeBox(in, m, b); break;
    case 1: b = {p - u * l, q + u * l, p + u * 0.4f + w * (sub % 2 ? 3.f : -3.f)}; break;
    case 2:  // 2 to 4 points from a vertex outwards, or inwards and outwards
      b = {p - u * (sub % 3 == 2 ? -0.4f : 0.1f), p - u * l};
      if (sub % 3) b.push_back(p - u * (2 * l));
      if (sub % 4 == 3) b.insert(b.begin() + 1, b[0] + (b[1] - b[0]) * 0.5f);
      break;
    case 3: for (int g = 0; g < 2 + sub % (n - 1); ++g) b.push_back(a[(i + g) % n]); break;
    default:
      u = a[(i + 1) % n] - p;
      b = a;
      for (auto &v : b) v = v + u * (l * (sub % 3 == 2 ? 2.5f : 0.5f));
  }
  std::rotate(b.begin(), b.begin() + sub % b.size(), b.end());
  if (sub / 5 % 2) std::reverse(b.begin(), b.end());
  double s = separation(poly(a), poly(b)) / k;
  if (mode >= 2) {  // flat or not, boxes may be apart along their common line
    Poly pa = poly(a), pb = poly(b);
    for (int x = 0; x < 2; ++x) {
      double la = 1e30, ha = -1e30, lb = 1e30, hb = -1e30;
      for (auto &v : pa) { double e = x ? v.x : v.y; la = std::min(la, e); ha = std::max(ha, e); }
      for (auto &v : pb) { double e = x ? v.x : v.y; lb = std::min(lb, e); hb = std::max(hb, e); }
      s = std::max(s, std::max(lb - ha, la - hb) / k);
    }
  }
  c.log("mode %d corners %d scale %g radius %g heading %g variant %d relative separation %g", mode, n, k, r, h, sub, s);
  if (std::fabs(s) < MARGIN) c.skip();
  c.step(2);
  c.yes("shared vertices", A::areTwoBoxesInCollision(a, b) == (s < 0) && A::areTwoBoxesInCollision(b, a) == (s < 0), s < 0 ? "overlapping boxes not reported" : "disjoint boxes reported");
  c.state(mc::Hash().u(mode * 8 + n).q(s, 1e-3).u(sub).h);
}
// all pairs of segments of an integer grid, decided in exact arithmetic
void segments(mc::Ctx &c, int n, float scale) {
  mc::Dec d(c.root);
  int v[8];
  for (int &k : v) k = (int)d(n);
  A::Position2D p[4];
  for (int i = 0; i < 4; ++i) p[i] = A::Position2D(v[2 * i] * scale, v[2 * i + 1] * scale);
  long gxA = v[2] - v[0], gyA = v[3] - v[1], gxB = v[6] - v[4], gyB = v[7] - v[5];
  long den = gxB * gyA - gxA * gyB;
  A::Position2D pc(77, 78);
  bool r = A::intersectionSegment2D(p[0], p[1], p[2], p[3], pc);
  c.step();
  if (den == 0) {
    c.yes("parallel", !r, "parallel segments have no single intersection");
  } else {
    long nb = gyA * (v[0] - v[4]) + gxA * (v[5] - v[1]);
    long na = gyB * (v[0] - v[4]) + gxB * (v[5] - v[1]);
    double rb = (double)nb / den, ra = (double)na / den;
    bool edge = ra == 0 || ra == 1 || rb == 0 || rb == 1;
    bool in = ra >= 0 && ra <= 1 && rb >= 0 && rb <= 1;
    // coordinates which are not integers do not always touch exactly
    if (edge && in && scale != std::floor(scale)) {
      if (!r) c.skip();
    } else
      c.yes("segments", r == in, in ? "intersecting segments not reported" : "disjoint segments reported");
    if (r) {
      c.near("intersection point", pc.x, scale * (v[0] + ra * gxA), 2e-6 * scale * n);
      c.near("intersection point", pc.y, scale * (v[1] + ra * gyA), 2e-6 * scale * n);
    }
  }
  c.state(mc::Hash().u(den + 1000).u(r).h);
}
// a segment with an end on another one, in integers
void touching(mc::Ctx &c) {
  mc::Dec d(c.root);
  int n = 1 + d(12), a = d(7) - 3, b = d(7) - 3, k = d(2) ? 8 : 1, x0 = d(2) ? 5 : -7;
  for (int i = 0; i <= n; ++i) for (int x = -6; x <= 6; ++x) for (int y = -6; y <= 6; ++y) {
    if (a * y - b * x == 0) continue;
    A::Position2D b1(x0, 7), b2(x0 + n * a * k, 7 + n * b * k), a1(x0 + i * a * k, 7 + i * b * k), a2(a1.x + x * k, a1.y + y * k), p;
    A::Position2D o(a1.x + (a1.x - a2.x), a1.y + (a1.y - a2.y));  // from one side to the other
    for (int s = 0; s < 12; ++s) {
      const A::Position2D &e = s < 4 ? a1 : s < 8 ? a2 : o, &f = s < 4 ? a2 : s < 8 ? a1 : a2;
      const A::Position2D &g = s & 1 ? b2 : b1, &h = s & 1 ? b1 : b2;
      bool r = s & 2 ? A::intersectionSegment2D(e, f, g, h, p) : A::intersectionSegment2D(g, h, e, f, p);
      c.yes("touching", r, "segments which share a point do not cross");
      double tol = 2e-6 * (10 + 48 * k);
      if (r) { c.near("touching point", p.x, a1.x, tol); c.near("touching point", p.y, a1.y, tol); }
      c.step();
    }
  }
  c.state(mc::Hash().u(c.root).h);
}
const double FX[] = {-0.16, -0.1, -0.04, 0, 0.03, 0.08, 0.13};
const double FY[] = {-0.2, -0.13, -0.1, -0.086, -0.07, -0.02, 0, 0.05, 0.08, 0.09, 0.101, 0.14};
const double FT[] = {-1.5, -0.9, -0.5, -0.2, -0.05, 0, 0.03, 0.1, 0.35, 0.7, 1.2, 2.0};
void feet(mc::Ctx &c, double unit) {
  mc::Dec d(c.root);
  bool left = d(2), cw = d(2), swap = d(2);
  int shp = d(3);
  double x = unit * FX[d(7)], y = unit * FY[d(12)], t = FT[d(12)];
  float k = shp == 1 ? 2.f : 1.f;
  Box l = rect(-0.047f * k, 0.08f * k, -0.038f, 0.05f, cw, 0), r = rect(-0.047f * k, 0.08f * k, -0.05f, 0.038f, cw != swap, shp);
  if (shp == 2) { l = reg(6, 0.06f, cw, 0); r = rect(-0.02f, 0.09f, -0.05f, 0.03f, cw, 1); }
  for (auto *b : {&l, &r}) for (auto &p : *b) p = A::Position2D((float)(p.x * unit), (float)(p.y * unit));
  const double MARGIN = 2e-4 * unit;
  A::Pose2D mv((float)x, (float)y, (float)t);
  const A::Pose2D m0 = mv;
  const Box &fix = left ? l : r, &mob = left ? r : l;
  double s = separation(poly(fix), moved(mob, m0.x, m0.y, m0.theta));
  c.log("support %s move %g %g %g separation %g", left ? "left" : "right", x, y, t, s);
  if (std::fabs(s) < MARGIN) c.skip();
  bool res = A::avoidFootCollision(l, r, left, mv);
  c.step();
  c.yes("clamped", res == (s < 0), s < 0 ? "a colliding move was not clamped" : "a free move was clamped");
  c.yes("position", mv.x == m0.x && mv.y == m0.y, "only the heading may change");
  if (!res) c.yes("unchanged", mv.theta == m0.theta, "a free move is left alone");
  else {
    c.yes("heading range", mv.theta * m0.theta >= 0 && std::fabs(mv.theta) <= std::fabs(m0.theta), "the heading stays between none and the requested one");
    double sr = separation(poly(fix), moved(mob, m0.x, m0.y, mv.theta));
    if (mv.theta != 0) c.yes("collision free", sr > -MARGIN, "the returned move still collides");
    // precision: 5 bisections; a collision exists within 1/32 of the request
    double wst = 1e30, w0 = 1e30;
    for (int i = 0; i <= 40; ++i) {
      double th = mv.theta + m0.theta / 32 * i / 40 * 1.0001;
      wst = std::min(wst, separation(poly(fix), moved(mob, m0.x, m0.y, th)));
    }
    c.yes("best heading", wst < MARGIN, "the heading could have been kept closer to the requested one");
  }
  // the bisection alone
  A::Pose2D m2 = m0;
  A::dichotomie(fix, mob, m2);
  c.yes("dichotomie", m2.x == m0.x && m2.y == m0.y, "only the heading may change");
  if (res) c.yes("dichotomie", m2.theta == mv.theta, "same result as the complete function");
  else c.yes("dichotomie", std::fabs(m2.theta) <= std::fabs(m0.theta) && m2.theta * m0.theta >= 0, "the heading stays between none and the requested one");
  c.state(mc::Hash().q(mv.theta).u(res).q(x).q(y).h);
}
const double EL[] = {0.02, 0.04, 0.06, 0.08, 0.16, 1, 3.5};
const double EP[] = {0, 1e-4, 0.01, 0.0399, 0.0401, 0.06, 0.081, 0.16, 0.5, 1.2, 7};
void ellipse(mc::Ctx &c, double unit) {
  mc::Dec d(c.root);
  int ia = d(7), ib = d(7);
  float a = (float)(unit * EL[ia]) * (d(2) ? -1 : 1), b = (float)(unit * EL[ib]) * (d(2) ? -1 : 1);
  float x = (float)(unit * EP[d(11)]) * (d(2) ? -1 : 1), y = (float)(unit * EP[d(11)]) * (d(2) ? -1 : 1);
  float t = d(2) ? 0.5f : -3.f;
  A::Pose2D mv(x, y, t);
  double n = std::sqrt((double)x * x / ((double)a * a) + (double)y * y / ((double)b * b));
  c.log("ellipse %g %g point %g %g norm %g", a, b, x, y, n);
  bool r = A::clipFootWithEllipse(a, b, mv);
  c.step();
  c.yes("heading", mv.theta == t, "the heading is left alone");
  if (std::fabs(n - 1) > 1e-5) c.yes("clamped", r == (n > 1), n > 1 ? "a point outside was not clamped" : "a point inside was clamped");
  if (!r) c.yes("unchanged", mv.x == x && mv.y == y, "a point inside is left alone");
  else {
    double k = std::hypot(x, y) / n;
    c.near("on the ellipse, same direction", mv.x, x / n, (2e-6 + 3e-7 * std::max(std::fabs(a / b), std::fabs(b / a))) * k + 1e-8);
    c.near("on the ellipse, same direction", mv.y, y / n, (2e-6 + 3e-7 * std::max(std::fabs(a / b), std::fabs(b / a))) * k + 1e-8);
    A::Pose2D again = mv;
    A::clipFootWithEllipse(a, b, again);
    c.near("idempotent", again.x, mv.x, (1e-6 + 3e-7 * std::max(std::fabs(a / b), std::fabs(b / a))) * k);
    c.near("idempotent", again.y, mv.y, (1e-6 + 3e-7 * std::max(std::fabs(a / b), std::fabs(b / a))) * k);
  }
  c.state(mc::Hash().q(mv.x).q(mv.y).u(r).h);
}
}  // namespace
void mc::setup() {
  mc::family("boxes", 8 * 8 * 4 * 13 * 13 * 12, boxes, "all pairs of 8 convex boxes (3 to 8 vertices, both windings) x 13 x 13 positions x 12 headings, against the separating axis theorem");
  mc::family("boxes-scaled", 4 * 3 * 36 * 169 * 12, scaled, "4 scales x 3 places x all pairs of 6 polygons (4 to 33 vertices, aligned ones too) x 13 x 13 positions x 12 headings");
  mc::family("shared", 5 * 6 * 60 * 25 * 24 * 3, shared, "copies, parts, shifts along a side, sides along diagonals and aligned flat boxes of regular polygons of 3 to 8 vertices, 180 headings, 75 radii of 3 scales");
  mc::family("degenerate", 3 * 2 * 8 * 8 * 169, degenerate, "boxes of 0 to 2 points against 8 boxes x 169 positions");
  int n = mc::thorough() ? 5 : 4;
  uint64_t k = 1;
  for (int i = 0; i < 8; ++i) k *= n;
  mc::family("segments", k, [n](mc::Ctx &c) { segments(c, n, 1.f); }, "all pairs of segments between points of a 4x4 (thorough 5x5) integer grid, decided in exact arithmetic");
  mc::family("segments-kilometres", 65536, [](mc::Ctx &c) { segments(c, 4, 1000.f); }, "same, 4x4 grid of step 1000");
  mc::family("segments-tenth", 65536, [](mc::Ctx &c) { segments(c, 4, 0.005f); }, "same, 4x4 grid of step 0.005");
  mc::family("segments-scaled", 65536, [](mc::Ctx &c) { segments(c, 4, 0.07f); }, "same, 4x4 grid of step 0.07");
  mc::family("touching", 12 * 7 * 7 * 2 * 2, touching, "segments of 1 to 12 steps of 48 directions, each of its grid points the end or the middle of another one of 168 directions, both orders and directions, 2 scales x 2 places");
  mc::family("feet", 8 * 3 * 7 * 12 * 12, [](mc::Ctx &c) { feet(c, 1); }, "3 pairs of feet x 2 windings x 2 supports x 7 x 12 positions x 12 headings");
  mc::family("ellipse", 49 * 4 * 121 * 4 * 2, [](mc::Ctx &c) { ellipse(c, 1); }, "7x7 ellipses (both signs) x 21x21 positions");
  for (double u : {0.02, 25.0, 1000.0}) {
    std::string n = u < 1 ? "small" : u < 100 ? "large" : "huge";
    mc::family("feet-" + n, 8 * 3 * 7 * 12 * 12, [u](mc::Ctx &c) { feet(c, u); }, "same feet, " + std::to_string(u) + " times as large");
    mc::family("ellipse-" + n, 49 * 4 * 121 * 4 * 2, [u](mc::Ctx &c) { ellipse(c, u); }, "same ellipses, " + std::to_string(u) + " times as large");
  }
}
