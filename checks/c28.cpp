// C28: shapes, pills, printing, inertia of a point, component vectors
#include "conv.h"
#include <almath/geometrics/shapes3d.h>
#include <almath/geometrics/shapes3d_utils.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/altransformandvelocity6d.h>
#include <cstring>
#include <sstream>
#include <stdexcept>
using namespace ref;
namespace {
std::vector<double> comps;
// ---- pills
void pills(mc::Ctx &c) {
  mc::Dec d(c.root);
  V3 dir{comps[d(comps.size())], comps[d(comps.size())], comps[d(comps.size())]};
  if (norm(dir) == 0) c.skip();
  const double L[] = {1e-3, 0.07, 1, 30, 1e-8, 1e-5, 4e5};
  const V3 C[] = {{0, 0, 0}, {0.5, -0.2, 1}, {-3, 10, 0.1}};
  double len = L[c.pick(7)];
  V3 ce = C[c.pick(3)];
  V3 h = (0.5 * len / norm(dir)) * dir;
  A::Position3D a = toP(ce - h), b = toP(ce + h);
  if (norm(toRef(b) - toRef(a)) == 0) c.skip();
  float he = -1.f;
  A::Transform t(9.f, 8.f, 7.f);
  A::computePillParameters(a, b, he, t);
  c.step();
  V3 ra = toRef(a), rb = toRef(b);
  double l = norm(rb - ra), scale = norm(ra) + norm(rb);
  c.log("A %s B %s", str(ra).c_str(), str(rb).c_str());
  c.near("half extent", he, l / 2, 1e-6 * l);
  T3 r = toRef(t);
  V3 mid = 0.5 * (ra + rb);
  c.near("center", norm(r.p - mid), 0, 1e-6 * scale);
  V3 z{r.R.m[0][2], r.R.m[1][2], r.R.m[2][2]};
  c.near("axis", norm(z - (1 / l) * (rb - ra)), 0, 2e-6);
  c.near("orthonormal", dist(r.R * tr(r.R), M3()), 0, 3e-6);
  c.near("direct", det(r.R), 1, 3e-6);
  // back to the centers of the spheres
  A::Position3D u, v;
  A::getSphereCentersFromPill(he, t, u, v);
  c.step();
  c.near("ends", norm(toRef(u) - rb), 0, 3e-6 * scale);
  c.near("ends", norm(toRef(v) - ra), 0, 3e-6 * scale);
  c.state(mc::Hash().q(ra.x).q(ra.y).q(ra.z).q(rb.x).q(rb.y).q(rb.z).h);
}
std::vector<float> ang;
std::vector<V3> dirs;
void centers(mc::Ctx &c) {
  mc::Dec d(c.root);
  T3 t{axisAngle(ang[d(ang.size())], dirs[d(dirs.size())]), {1, -2, 0.5}};
  const float H[] = {0.f, 0.25f, -0.5f, 3.f};
  float h = H[d(4)];
  A::Transform at = toT(t);
  t = toRef(at);
  A::Position3D u, v;
  A::getSphereCentersFromPill(h, at, u, v);
  c.step();
  c.near("up", norm(toRef(u) - t * V3{0, 0, h}), 0, 2e-6);
  c.near("down", norm(toRef(v) - t * V3{0, 0, -h}), 0, 2e-6);
  c.state(mc::Hash().q(toRef(u).x).q(toRef(u).y).q(toRef(u).z).q(h).h);
}
void samePoint(mc::Ctx &c) {
  float x = (float)comps[c.root];
  A::Position3D p(x, 2.f, -x);
  float h = 5.f;
  A::Transform t;
  bool th = false;
  try { A::computePillParameters(p, p, h, t); } catch (const std::runtime_error &) { th = true; }
  c.step();
  c.yes("same centers", th, "a pill without direction is refused");
  c.state(c.root);
}
// ---- visitors
struct Seen : A::Shape3DVisitor {
  mutable int kind = -1, calls = 0;
  mutable const void *who = nullptr;
  void set(int k, const void *p) const { kind = k; who = p; ++calls; }
  void visit(const A::Pill &s) const { set(0, &s); }
  void visit(const A::Sphere &s) const { set(1, &s); }
  void visit(const A::RoundedRectangle &s) const { set(2, &s); }
  void visit(const A::Plane &s) const { set(3, &s); }
  void visit(const A::HalfSpace &s) const { set(4, &s); }
  void visit(const A::Rectangle &s) const { set(5, &s); }
  void visit(const A::HalfLine &s) const { set(6, &s); }
};
const float NUM[] = {0.f, 1.f, -1.f, 0.1f, 1e-30f, 3e38f, 1e-45f, 12.5f};
void shapes(mc::Ctx &c) {
  mc::Dec d(c.root);
  float x = NUM[d(8)], y = NUM[d(8)], z = NUM[d(8)];
  A::Pill pill(x, y);
  A::Sphere sphere(x);
  A::RoundedRectangle rr(x, y, z);
  A::Plane plane;
  A::HalfSpace hs;
  A::Rectangle rect(x, y);
  A::HalfLine hl;
  c.yes("getters", pill.getHalfExtent() == x && pill.getRadius() == y, "Pill");
  c.yes("getters", sphere.getRadius() == x, "Sphere");
  c.yes("getters", rr.getHalfExtentX() == x && rr.getHalfExtentY() == y && rr.getRadius() == z, "RoundedRectangle");
  c.yes("getters", rect.getHalfExtentX() == x && rect.getHalfExtentY() == y, "Rectangle");
  const A::Shape3D *all[] = {&pill, &sphere, &rr, &plane, &hs, &rect, &hl};
  const void *addr[] = {&pill, &sphere, &rr, &plane, &hs, &rect, &hl};
  for (int i = 0; i < 7; ++i) {
    Seen s;
    all[i]->accept(s);
    c.step();
    c.yes("visit", s.calls == 1 && s.kind == i && s.who == addr[i], "accept visits the shape once, as itself");
    for (const char *m : {"not implemented", "other"}) {
      std::string got = "-";
      try {
        if (!strcmp(m, "other")) all[i]->accept(A::NotImplementedShape3DVisitor(m));
        else all[i]->accept(A::NotImplementedShape3DVisitor());
      } catch (const std::runtime_error &e) { got = e.what(); }
      c.yes("not implemented", got == m, "the visitor refuses each shape with its message");
    }
  }
  c.state(c.root);
}
// ---- inertia
void inertia(mc::Ctx &c) {
  mc::Dec d(c.root);
  const double V[] = {0, 1, -1, 0.1, -0.35, 20, 1e-3};
  V3 p{V[d(7)], V[d(7)], V[d(7)]};
  const float M[] = {0.f, 1.f, 0.25f, 80.f};
  float m = M[d(4)];
  int pre = c.pick(4);
  std::vector<float> out(pre == 0 ? 0 : pre == 1 ? 9 : pre == 2 ? 3 : 20, 7.f);
  A::pointMassRotationalInertia(m, toP(p), out);
  c.step();
  c.yes("size", out.size() == 9, "9 entries");
  V3 r = toRef(toP(p));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double w = m * ((i == j ? dot(r, r) : 0) - r[i] * r[j]);
    if (i == j) { int a = (i + 1) % 3, b = (i + 2) % 3; w = m * (r[a] * r[a] + r[b] * r[b]); }
    c.near("inertia", out[3 * i + j], w, 3e-7 * std::fabs(w));
  }
  c.state(mc::Hash().q(p.x).q(p.y).q(p.z).q(m).u(pre).h);
}
// ---- printing
struct Printed { std::vector<std::string> names; std::vector<double> v; };
Printed scan(const std::string &s) {
  Printed p;
  std::string word;
  for (size_t i = 0; i < s.size();) {
    char ch = s[i];
    if (isalpha((unsigned char)ch)) {
      word.clear();
      while (i < s.size() && isalpha((unsigned char)s[i])) word += s[i++];
      if (word == "inf" || word == "nan") { p.v.push_back(word == "inf" ? INFINITY : NAN); }
      else p.names.push_back(word);
    } else if (isdigit((unsigned char)ch) || ((ch == '+' || ch == '-') && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]))) {
      char *e;
      p.v.push_back(strtod(s.c_str() + i, &e));
      i = e - s.c_str();
    } else ++i;
  }
  return p;
}
template <typename T> std::string print(const T &x, int prec) {
  std::ostringstream o;
  o.precision(prec);
  o << x;
  return o.str();
}
void expect(mc::Ctx &c, const char *what, const std::string &s, std::vector<std::string> names, std::vector<float> v, int prec) {
  Printed p = scan(s);
  c.step();
  if (p.names != names) c.fail("names", "%s is printed as %s", what, s.c_str());
  if (p.v.size() != v.size()) c.fail("values", "%s is printed as %s", what, s.c_str());
  for (size_t i = 0; i < v.size(); ++i)
    if (prec >= 9 ? (float)p.v[i] != v[i] : std::fabs(p.v[i] - v[i]) > 5e-6 * std::fabs(v[i])) c.fail("values", "component %zu of %s is %.9g and printed in %s", i, what, v[i], s.c_str());
  c.compared();
}
// a quoted list of 12 numbers, each one different
void printing(mc::Ctx &c) {
  mc::Dec d(c.root);
  int sign = d(2), ex = d(254), slot = d(12);
  uint32_t mant = c.pick(3) * 0x2aaaabu;
  uint32_t b = ((uint32_t)sign << 31) | ((uint32_t)(ex + 1) << 23) | (mant & 0x7fffff);
  float f;
  memcpy(&f, &b, 4);
  float v[12];
  for (int i = 0; i < 12; ++i) v[i] = i == slot ? f : (float)(i + 1) * (i % 2 ? -0.37f : 1.25f);
  int prec = c.pick(2) ? 9 : 6;
  expect(c, "Pose2D", print(A::Pose2D(v[0], v[1], v[2]), prec), {"x", "y", "theta"}, {v[0], v[1], v[2]}, prec);
  expect(c, "Position2D", print(A::Position2D(v[0], v[1]), prec), {"x", "y"}, {v[0], v[1]}, prec);
  A::Position3D p3(v[0], v[1], v[2]);
  expect(c, "Position3D", print(p3, prec), {"x", "y", "z"}, {v[0], v[1], v[2]}, prec);
  A::Position6D p6(v[0], v[1], v[2], v[3], v[4], v[5]);
  expect(c, "Position6D", print(p6, prec), {"x", "y", "z", "wx", "wy", "wz"}, {v[0], v[1], v[2], v[3], v[4], v[5]}, prec);
  expect(c, "PositionAndVelocity", print(A::PositionAndVelocity(v[0], v[1]), prec), {"q", "dq"}, {v[0], v[1]}, prec);
  A::Rotation r;
  r.r1_c1 = v[0]; r.r1_c2 = v[1]; r.r1_c3 = v[2]; r.r2_c1 = v[3]; r.r2_c2 = v[4]; r.r2_c3 = v[5]; r.r3_c1 = v[6]; r.r3_c2 = v[7]; r.r3_c3 = v[8];
  expect(c, "Rotation", print(r, prec), {}, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]}, prec);
  A::Rotation3D r3(v[0], v[1], v[2]);
  expect(c, "Rotation3D", print(r3, prec), {"wx", "wy", "wz"}, {v[0], v[1], v[2]}, prec);
  A::Transform t;
  t.r1_c1 = v[0]; t.r1_c2 = v[1]; t.r1_c3 = v[2]; t.r1_c4 = v[3]; t.r2_c1 = v[4]; t.r2_c2 = v[5]; t.r2_c3 = v[6]; t.r2_c4 = v[7]; t.r3_c1 = v[8]; t.r3_c2 = v[9]; t.r3_c3 = v[10]; t.r3_c4 = v[11];
  std::vector<float> tv(v, v + 12), full(tv);
  full.insert(full.end(), {0, 0, 0, 1});
  expect(c, "Transform", print(t, prec), {}, full, prec);
  A::Velocity6D v6(v[5], v[4], v[3], v[2], v[1], v[0]);
  std::vector<std::string> vn = {"xd", "yd", "zd", "wxd", "wyd", "wzd"};
  std::vector<float> vv = {v[5], v[4], v[3], v[2], v[1], v[0]}, tvv(full);
  tvv.insert(tvv.end(), vv.begin(), vv.end());
  A::TransformAndVelocity6D tav;
  tav.T = t;
  tav.V = v6;
  expect(c, "TransformAndVelocity6D", print(tav, prec), vn, tvv, prec);
  A::Quaternion q(v[0], v[1], v[2], v[3]);
  expect(c, "Quaternion", print(q, prec), {"w", "x", "y", "z"}, {v[0], v[1], v[2], v[3]}, prec);
  expect(c, "Velocity3D", print(A::Velocity3D(v[0], v[1], v[2]), prec), {"xd", "yd", "zd"}, {v[0], v[1], v[2]}, prec);
  expect(c, "Velocity6D", print(v6, prec), vn, vv, prec);
  if (prec == 6) {
    c.yes("toSpaceSeparated", A::toSpaceSeparated(v6) == print(v6, 6), "Velocity6D");
    c.yes("toSpaceSeparated", A::toSpaceSeparated(t) == print(t, 6), "Transform");
    c.yes("toSpaceSeparated", A::toSpaceSeparated(p3) == print(p3, 6), "Position3D");
    c.yes("toSpaceSeparated", A::toSpaceSeparated(r3) == print(r3, 6), "Rotation3D");
    c.yes("toSpaceSeparated", A::toSpaceSeparated(p6) == print(p6, 6), "Position6D");
    c.yes("toSpaceSeparated", A::toSpaceSeparated(q) == print(q, 6), "Quaternion");
  }
  // a list of objects can be told apart and keeps its order
  std::ostringstream o;
  o.precision(9);
  o << p3 << " " << q << " " << 1.5f;
  Printed l = scan(o.str());
  c.yes("list", l.v.size() == 8 && (float)l.v[0] == v[0] && (float)l.v[3] == v[0] && (float)l.v[6] == v[3] && l.v[7] == 1.5, "several objects on one stream");
  c.state(mc::Hash().u(b).u(slot).u(prec).h);
}
}
void mc::setup() {
  bool th = mc::thorough();
  for (double m : {0.0, 1.0, 0.5, 1e-2, 1.1e-4, 0.9e-4, 1e-5, 1e-7}) {
    comps.push_back(m);
    if (m) comps.push_back(-m);
  }
  if (th) for (double m : {0.3, 2e-4, 1e-4, 1e-3}) { comps.push_back(m); comps.push_back(-m); }
  ang = angleGrid(th ? 180 : 24);
  dirs = dirGrid();
  mc::family("pills", comps.size() * comps.size() * comps.size(), pills, "all directions with components 0, +-1, +-.5, +-1e-2, around 1e-4 and below, 7 lengths from 1e-8 to 4e5, 3 centers");
  mc::family("sphere-centers", ang.size() * dirs.size() * 4, centers, "angle grid x 35 axes x 4 half extents");
  mc::family("same-centers", comps.size(), samePoint, "equal centers");
  mc::family("shapes", 512, shapes, "7 shapes x 8^3 parameters");
  mc::family("inertia", 7 * 7 * 7 * 4, inertia, "7^3 positions x 4 masses x 4 output vectors");
  mc::family("printing", 2 * 254 * 12, printing, "every sign and exponent of a float x 3 mantissas in each component of 12 types, 2 precisions");
}
