// C04: quaternions and displacements
#include "sizes.h"
#include "conv.h"
#include "small.h"
#include "compare.h"
using namespace ref;
namespace {
std::vector<float> ang;
std::vector<V3> dirs;
std::vector<A::Quaternion> G;

void gens() {
  auto add = [](double a, V3 u) {
    Q q = quatAA(a, u);
    G.push_back(A::Quaternion(q.w, q.x, q.y, q.z));
  };
  G.push_back(A::Quaternion());
  add(0.7, {1, 0, 0});
  add(-PI / 2, {0, 1, 0});
  add(PI, {0, 0, 1});
  add(2.5, {0.6, 0, -0.8});
  add(1e-3, {1, -1, 1});
  add(5.9, {-0.2, 0.5, 0.3});
  add(PI, {1, 2, -1});
}

void words(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  A::Quaternion t = G[4];
  Q r = toRef(t);
  const int NOPS = 6;
  const char *nm[] = {"q*g", "q*=g", "g*q", "inverse", "q*=q", "normalize"};
  for (int i = 0; i < depth; ++i) {
    size_t l = d(NOPS * G.size());
    int op = l % NOPS;
    const A::Quaternion &g = G[l / NOPS];
    Q rg = toRef(g);
    c.log("%s g=%s", nm[op], str(rg).c_str());
    switch (op) {
      case 0: t = t * g; r = r * rg; break;
      case 1: { A::Quaternion &x = (t *= g); c.yes("*=", &x == &t, "returns self"); r = r * rg; break; }
      case 2: t = g * t; r = rg * r; break;
      case 3: t = t.inverse(); r = conj(r); break;
      case 4: t *= t; r = r * r; break;
      case 5: t = t.normalize(); break;
    }
    c.step();
    eqQ(c, nm[op], toRef(t), r, 1e-5);
  }
  c.state(mc::Hash().q(r.w, 1e-3).q(r.x, 1e-3).q(r.y, 1e-3).q(r.z, 1e-3).h);
  eqQ(c, "q*inverse", toRef(t * t.inverse()), Q(), 2e-5);
  eqQ(c, "inverse*q", toRef(t.inverse() * t), Q(), 2e-5);
  eqQ(c, "quaternionInverse", toRef(A::quaternionInverse(t)), conj(r), 1e-5);
  A::Quaternion o(9.f, 9.f, 9.f, 9.f);
  A::quaternionInverse(t, o);
  eqQ(c, "quaternionInverse-out", toRef(o), conj(r), 1e-5);
  c.near("norm", t.norm(), 1, 1e-5);
  c.near("norm-free", A::norm(t), 1, 1e-5);
  eqQ(c, "normalize", toRef(t.normalize()), r, 1e-5);
  eqQ(c, "normalize-free", toRef(A::normalize(t)), r, 1e-5);
  A::Quaternion nq(-t.w, -t.x, -t.y, -t.z);
  c.yes("isNear(-q)", t.isNear(nq) && t.isNear(t) && nq.isNear(t), "q and -q are the same rotation");
  c.yes("==", t == t && !(t != t) && (t == nq) == false && t != nq, "== compares components");
  std::vector<float> v = t.toVector(), v2(1, 2.f);
  t.toVector(v2);
  c.yes("toVector", v.size() == 4 && v == v2 && v[0] == t.w && v[1] == t.x && v[2] == t.y && v[3] == t.z, "w x y z");
  c.yes("from vector", A::Quaternion(v) == t, "vector round trip is exact");
  M3 R = mat(r);
  const V3 pts[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-0.5, 2, 0.25}, {0, 0, 0}};
  for (const V3 &p : pts) {
    eqV(c, "q*p", toRef(t * toP(p)), R * p, 5e-5);
    eqV(c, "(-q)*p", toRef(nq * toP(p)), R * p, 5e-5);
    c.step(2);
  }
  // the vector part always rotates consistently with the matrix forms
  eqM(c, "rotationFromQuaternion", toRef(A::rotationFromQuaternion(t)), R, 3e-5);
  for (const A::Quaternion &g : G) {
    Q rg = toRef(g);
    eqQ(c, "q*g", toRef(t * g), r * rg, 2e-5);
    A::Quaternion m = t;
    m *= g;
    eqQ(c, "q*=g", toRef(m), r * rg, 2e-5);
    // displacements
    A::Displacement D1(A::Position3D(1.f, -2.f, 0.5f), t), D2(A::Position3D(-0.3f, 0.f, 2.f), g);
    A::Displacement D = D1 * D2, E = D1;
    A::Displacement &back = (E *= D2);
    V3 p = V3{1, -2, 0.5} + R * V3{-0.3, 0, 2};
    eqV(c, "D1*D2", toRef(D.P), p, 1e-4);
    eqQ(c, "D1*D2", toRef(D.Q), r * rg, 2e-5);
    eqV(c, "D1*=D2", toRef(E.P), p, 1e-4);
    eqQ(c, "D1*=D2", toRef(E.Q), r * rg, 2e-5);
    c.yes("D*=", &back == &E, "returns self");
    c.yes("D isNear", D.isNear(E) && E.isNear(D, 1e-3f), "equal displacements are near");
    A::Displacement F = D;
    F.P.y += 0.01f;
    c.yes("D isNear", !D.isNear(F) && D.isNear(F, 0.1f), "a moved displacement is not near");
    F = D;
    F.Q = F.Q * G[1];
    c.yes("D isNear", !D.isNear(F), "a turned displacement is not near");
    c.step(4);
  }
  A::Displacement S(A::Position3D(1.f, -2.f, 0.5f), t);
  S *= S;
  eqV(c, "D*=D", toRef(S.P), V3{1, -2, 0.5} + R * V3{1, -2, 0.5}, 1e-4);
  eqQ(c, "D*=D", toRef(S.Q), r * r, 2e-5);
}

void axisAngleF(mc::Ctx &c) {
  mc::Dec d(c.root);
  float a = ang[d(ang.size())];
  V3 u = dirs[d(dirs.size())];
  u = (1 / norm(u)) * u;
  A::Position3D up = toP(u);
  int how = d(4);
  c.log("angle %.9g axis %s how %d", a, str(u).c_str(), how);
  A::Quaternion q = A::Quaternion::fromAngleAndAxisRotation(a, up.x, up.y, up.z);
  A::Quaternion q2 = A::quaternionFromAngleAndAxisRotation(a, up.x, up.y, up.z);
  Q r = quatAA(a, u);
  eqQ(c, "fromAngleAndAxisRotation", toRef(q), r, 1e-6);
  eqQ(c, "quaternionFromAngleAndAxisRotation", toRef(q2), r, 1e-6);
  c.near("unit", A::norm(q), 1, 1e-6);
  // equivalent unit quaternions as they come out of float arithmetic
  if (how == 1) q = A::Quaternion(-q.w, -q.x, -q.y, -q.z);
  if (how == 2) q = A::Quaternion(q.w * 1.000001f, q.x * 1.000001f, q.y * 1.000001f, q.z * 1.000001f);
  if (how == 3) q = A::Quaternion(q.w * 0.999999f, q.x * 0.999999f, q.y * 0.999999f, q.z * 0.999999f);
  float g = 9, x = 9, y = 9, z = 9;
  A::angleAndAxisRotationFromQuaternion(q, g, x, y, z);
  std::vector<float> v = A::angleAndAxisRotationFromQuaternion(q);
  c.step(4);
  c.yes("vector form", v.size() == 4 && v[0] == g && v[1] == x && v[2] == y && v[3] == z, "both forms agree");
  V3 ax{x, y, z};
  M3 R = axisAngle(a, u);
  c.log("-> angle %.9g axis %s", g, str(ax).c_str());
  eqM(c, "angle-axis round trip", axisAngle(g, ax), R, 1e-5);
  c.near("axis is a unit vector", norm(ax), 1, 1e-5);
  c.yes("angle range", g >= 0 && g <= 2 * PI + 1e-5, "angle is in [0, 2pi]");
  c.state(mc::Hash().q(g).q(x).q(y).q(z).h);
}

void scalarOps(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float s[] = {0.f, 1.f, -1.f, 2.f, -0.25f, 1e-3f, 100.f};
  float e[4];
  for (float &x : e) x = s[d(7)];
  float k = s[d(7)];
  A::Quaternion q(e[0], e[1], e[2], e[3]);
  Q r{e[0], e[1], e[2], e[3]};
  double n = norm(r);
  c.log("q %s k %g", str(r).c_str(), k);
  Q w{r.w * k, r.x * k, r.y * k, r.z * k};
  double t = 1e-6 * (1 + n * std::fabs(k));
  eqQ(c, "q*k", toRef(q * k), w, t);
  A::Quaternion m = q;
  A::Quaternion *p = &(m *= k);
  eqQ(c, "q*=k", toRef(m), w, t);
  c.yes("q*=k", p == &m, "returns self");
  c.near("norm", q.norm(), n, 1e-6 * (1 + n));
  c.step(5);
  c.state(mc::Hash().u(c.root).h);
  bool t1 = false, t2 = false, t3 = false, t4 = false;
  A::Quaternion a, b, nn, nn2;
  try { a = q / k; } catch (const std::runtime_error &) { t1 = true; }
  b = q;
  try { b /= k; } catch (const std::runtime_error &) { t2 = true; }
  try { nn = q.normalize(); } catch (const std::runtime_error &) { t3 = true; }
  try { nn2 = A::normalize(q); } catch (const std::runtime_error &) { t4 = true; }
  c.yes("q/0", t1 == (k == 0) && t2 == (k == 0), "division by zero must throw, other divisions must not");
  c.yes("normalize(0)", t3 == (n == 0) && t4 == (n == 0), "normalising a null quaternion must throw, others must not");
  if (k != 0) {
    Q w2{r.w / k, r.x / k, r.y / k, r.z / k};
    double t = 2e-6 * (1 + n / std::fabs(k));
    eqQ(c, "q/k", toRef(a), w2, t);
    eqQ(c, "q/=k", toRef(b), w2, t);
  } else
    eqQ(c, "q/=0 leaves q", toRef(b), r, 0);
  if (n > 0) {
    Q w3{r.w / n, r.x / n, r.y / n, r.z / n};
    eqQ(c, "normalize", toRef(nn), w3, 2e-6);
    eqQ(c, "normalize", toRef(nn2), w3, 2e-6);
  }
}
// products, inverses and squares of quaternions of any norm, exact
void products(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float s[] = {0.f, 1.f, -2.f, 0.5f};
  float e[8];
  for (float &x : e) x = s[d(4)];
  A::Quaternion a(e[0], e[1], e[2], e[3]), b(e[4], e[5], e[6], e[7]), m = a, sq = a;
  Q x{e[0], e[1], e[2], e[3]}, y{e[4], e[5], e[6], e[7]};
  c.log("%s times %s", str(x).c_str(), str(y).c_str());
  c.step(3);
  eqQ(c, "a*b", toRef(a * b), x * y, 0);
  A::Quaternion *p = &(m *= b);
  c.yes("a*=b", p == &m, "returns self");
  c.yes("Displacement", A::Displacement().P == A::Position3D() && A::Displacement().Q == A::Quaternion(), "the identity by default");
  eqQ(c, "a*=b", toRef(m), x * y, 0);
  p = &(sq *= sq);
  c.yes("a*=a", p == &sq, "returns self");
  eqQ(c, "a*=a", toRef(sq), x * x, 0);
  c.state(mc::Hash().u(c.root).h);
}
void nearF(mc::Ctx &c) {
  mc::Dec d(c.root);
  int comp = d(4);
  const double deltas[] = {0, 5e-5, -5e-5, 3e-4, -3e-4, 9e-4, -2e-3, 0.5};
  double delta = deltas[d(8)];
  int neg = d(2), e = d(4);
  const float eps[] = {1e-4f, 1e-4f, 1e-3f, 0.1f};
  A::Quaternion a = G[d(G.size())], b = a;
  float *m[] = {&b.w, &b.x, &b.y, &b.z};
  *m[comp] += (float)delta;
  c.yes("==", (a == b) == (delta == 0) && (a != b) == (delta != 0), "== compares every component");
  if (neg) b = A::Quaternion(-b.w, -b.x, -b.y, -b.z);
  c.step(2);
  c.log("component %d by %g", comp, delta);
  bool near = e == 0 ? a.isNear(b) : a.isNear(b, eps[e]);
  c.yes("isNear", near == (std::fabs(delta) < eps[e]), "near up to sign, every component within epsilon");
  c.state(mc::Hash().u(c.root).h);
}
// quaternions of small rotations, relatively to them
void smallF(mc::Ctx &c) {
  mc::Dec d(c.root);
  float a = small::ANG[d(small::NA)];
  int ax = d(4);
  float b = small::ANG[d(small::NA)];
  int bx = d(4), k = d(3);
  const V3 U[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1. / 3, -2. / 3, 2. / 3}};
  const V3 &u = U[ax];
  double an = std::max(std::fabs(a), std::fabs(b)), A1 = std::fabs(a);
  A::Quaternion q = A::Quaternion::fromAngleAndAxisRotation(a, u.x, u.y, u.z), p = A::quaternionFromAngleAndAxisRotation(b, U[bx].x, U[bx].y, U[bx].z);
  Q ra = quatAA(a, u), rb = quatAA(b, U[bx]);
  small::eqQ(c, "fromAngleAndAxisRotation", toRef(q), ra, A1);
  small::eqQ(c, "quaternionFromAngleAndAxisRotation", toRef(p), rb, std::fabs(b));
  small::eqQ(c, "a*b", toRef(q * p), ra * rb, an);
  A::Quaternion m = q, o;
  m *= p;
  small::eqQ(c, "a*=b", toRef(m), ra * rb, an);
  A::quaternionInverse(q, o);
  for (const A::Quaternion &x : {q.inverse(), A::quaternionInverse(q), o}) small::eqQ(c, "inverse", toRef(x), conj(ra), A1);
  // of another norm
  float s = (float[]){1.f, 3.f, 1e-3f}[k];
  small::eqQ(c, "normalize", toRef((q * s).normalize()), ra, A1);
  small::eqQ(c, "normalize", toRef(A::normalize(q * s)), ra, A1);
  float g = 9, x = 9, y = 9, z = 9;
  A::angleAndAxisRotationFromQuaternion(q * s, g, x, y, z);
  V3 w = (double)g * V3{x, y, z};
  eqV(c, "angleAndAxisRotationFromQuaternion", w, a * u, 4e-6 * A1);
  c.step(9);
  c.state(c.root);
}
}  // namespace
void mc::setup() {
  std::cerr.rdbuf(nullptr);  // warnings
  std::cout.rdbuf(nullptr);
  mc::family("compare-all", compareRoots(4), [](mc::Ctx &c) { compareCase<A::Quaternion>(c, 4, [](const std::vector<float> &v) { return A::Quaternion(v); }, 0); },
             "3 values x 2 components among 4 x 10 x 10 differences x 5 tolerances");
  mc::family("compare-all-equal", compareRoots(4) / compareNs::NE, [](mc::Ctx &c) { equalCase<A::Quaternion>(c, 4, [](const std::vector<float> &v) { return A::Quaternion(v); }); },
             "3 values x 2 components among 4 x 10 x 10 differences");
  mc::family("displacement-compare", compareRoots(7), [](mc::Ctx &c) { compareCase<A::Displacement>(c, 7, [](const std::vector<float> &v) { return A::Displacement(A::Position3D(v[0], v[1], v[2]), A::Quaternion(v[3], v[4], v[5], v[6])); }, 3); },
             "3 values x 2 components among 7 x 10 x 10 differences x 5 tolerances");
  mc::family("products", 65536, products, "all pairs of quaternions over 4 values, of any norm, exactly");
  mc::family("sizes", 84, [](mc::Ctx &c) {
    // the documentation has both the null quaternion and the identity as default
    sizesCase<A::Quaternion>(c, [](int n) { return n == 4 ? iota(4) : std::vector<int>(); }, {{0, 0, 0, 0}, {1, 0, 0, 0}});
  }, "vectors of 0 to 20 floats, 4 contents");

  gens();
  ang = angleGrid(mc::thorough() ? 1440 : 360);
  for (float s : {6.f, 5.f, 4.f, -4.f, 6.2831f}) ang.push_back(s);
  dirs = dirGrid();
  int depth = mc::thorough() ? 4 : 3;
  uint64_t n = 1;
  for (int i = 0; i < depth; ++i) n *= 6 * G.size();
  mc::family("words", n, [depth](mc::Ctx &c) { words(c, depth); },
             "all words of length 3 (4 thorough) over 6 operations x 8 unit quaternions, then every observer");
  mc::family("axis-angle", ang.size() * dirs.size() * 4, axisAngleF,
             "angle grid with thresholds x 35 axes x {q,-q, norm 1+1e-6, norm 1-1e-6}");
  mc::family("small", small::NA * 4 * small::NA * 4 * 3, smallF, "all pairs of 8 angles from 1e-12 to 1 about 4 axes, 3 norms, relatively to them");
  mc::family("scalars", 7 * 7 * 7 * 7 * 7, scalarOps, "all quaternions over 7 values x 7 scalars");
  mc::family("near", 4 * 8 * 2 * 4 * G.size(), nearF, "component x difference x sign x tolerance");
}
