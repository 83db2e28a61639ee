// C02: rotation matrices: group laws, constructors, validity predicates and
// re-normalisation
#include "sizes.h"
#include "conv.h"
#include "small.h"
#include "compare.h"
using namespace ref;
namespace {
std::vector<A::Rotation> gens() {
  std::vector<A::Rotation> g;
  g.push_back(A::Rotation());
  g.push_back(A::Rotation::fromRotX(0.7f));
  g.push_back(A::Rotation::fromRotY((float)-PI / 2));
  g.push_back(A::Rotation::fromRotZ((float)PI));
  g.push_back(A::Rotation::from3DRotation(0.3f, -0.8f, 2.1f));
  g.push_back(A::Rotation::from3DRotation(1e-3f, -2e-3f, 5e-4f));
  g.push_back(A::Rotation::from3DRotation(-3.f, 1.5f, 0.05f));
  g.push_back(A::Rotation::fromAngleDirection(2.5f, 0.6f, 0.f, -0.8f));
  return g;
}
std::vector<A::Rotation> G;
std::vector<float> ang, angC;
std::vector<V3> dirs;

void words(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  A::Rotation t = A::Rotation::from3DRotation(0.2f, 0.4f, -1.3f);
  M3 r = toRef(t);
  const int NOPS = 5;
  const char *nm[] = {"R*g", "R*=g", "transpose", "R*=R", "g*R"};
  for (int i = 0; i < depth; ++i) {
    size_t l = d(NOPS * G.size());
    int op = l % NOPS;
    const A::Rotation &g = G[l / NOPS];
    M3 rg = toRef(g);
    c.log("%s g=%s", nm[op], str(rg).c_str());
    switch (op) {
      case 0: t = t * g; r = r * rg; break;
      case 1: { A::Rotation &x = (t *= g); c.yes("*=", &x == &t, "returns self"); r = r * rg; break; }
      case 2: t = t.transpose(); r = tr(r); break;
      case 3: t *= t; r = r * r; break;
      case 4: t = g * t; r = rg * r; break;
    }
    c.step();
    eqM(c, nm[op], toRef(t), r, 2e-5);
  }
  c.state(hashOf(r));
  eqM(c, "transpose", toRef(A::transpose(t)), tr(r), 2e-5);
  eqM(c, "R*R'", toRef(t * t.transpose()), M3(), 4e-5);
  c.near("determinant", t.determinant(), 1, 5e-5);
  c.near("determinant-free", A::determinant(t), 1, 5e-5);
  c.yes("isRotation", t.isRotation(), "a product of rotations is a rotation");
  const V3 pts[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-0.5, 2, 0.25}};
  for (const V3 &p : pts) {
    V3 w = r * p;
    eqV(c, "R*Position3D", toRef(t * toP(p)), w, 1e-4);
    A::Velocity3D v = t * A::Velocity3D((float)p.x, (float)p.y, (float)p.z);
    eqV(c, "R*Velocity3D", toRef(v), w, 1e-4);
    float x = p.x, y = p.y, z = p.z;
    A::applyRotation(t, x, y, z);
    eqV(c, "applyRotation", {x, y, z}, w, 1e-4);
    c.step(3);
  }
  std::vector<float> v = t.toVector(), v2(3, 1.f);
  t.toVector(v2);
  c.yes("toVector", v.size() == 9 && v == v2, "9 values, both spellings");
  for (int i = 0; i < 9; ++i) c.near("toVector", v[i], r.m[i / 3][i % 3], 2e-5);
  c.yes("from vector9", A::Rotation(v) == t, "vector round trip is exact");
  for (const A::Rotation &g : G) {
    M3 rg = toRef(g);
    eqM(c, "R*g", toRef(t * g), r * rg, 4e-5);
    A::Rotation m = t;
    m *= g;
    eqM(c, "R*=g", toRef(m), r * rg, 4e-5);
    c.step(2);
  }
}

// every constructor on an angle grid
void elementary(mc::Ctx &c) {
  mc::Dec d(c.root);
  float a = ang[d(ang.size())];
  V3 u = dirs[d(dirs.size())];
  u = (1 / norm(u)) * u;
  A::Position3D up((float)u.x, (float)u.y, (float)u.z);
  c.log("angle %.9g axis %s", a, str(u).c_str());
  eqM(c, "fromRotX", toRef(A::Rotation::fromRotX(a)), rotX(a), 5e-7);
  eqM(c, "fromRotY", toRef(A::Rotation::fromRotY(a)), rotY(a), 5e-7);
  eqM(c, "fromRotZ", toRef(A::Rotation::fromRotZ(a)), rotZ(a), 5e-7);
  eqM(c, "rotationFromRotX", toRef(A::rotationFromRotX(a)), rotX(a), 5e-7);
  eqM(c, "rotationFromRotY", toRef(A::rotationFromRotY(a)), rotY(a), 5e-7);
  eqM(c, "rotationFromRotZ", toRef(A::rotationFromRotZ(a)), rotZ(a), 5e-7);
  M3 w = axisAngle(a, u);
  eqM(c, "fromAngleDirection", toRef(A::Rotation::fromAngleDirection(a, up.x, up.y, up.z)), w, 2e-6);
  eqM(c, "rotationFromAngleDirection", toRef(A::rotationFromAngleDirection(a, up.x, up.y, up.z)), w, 2e-6);
  eqM(c, "rotationFromAngleDirection(p)", toRef(A::rotationFromAngleDirection(a, up)), w, 2e-6);
  Q q = quatAA(a, u);
  eqM(c, "fromQuaternion", toRef(A::Rotation::fromQuaternion(q.w, q.x, q.y, q.z)), w, 2e-6);
  eqM(c, "fromQuaternion(-q)", toRef(A::Rotation::fromQuaternion(-q.w, -q.x, -q.y, -q.z)), w, 2e-6);
  eqM(c, "rotationFromQuaternion", toRef(A::rotationFromQuaternion(q.w, q.x, q.y, q.z)), w, 2e-6);
  eqM(c, "from3DRotation", toRef(A::Rotation::from3DRotation(a, 0.3f, -0.9f)), rpy(a, 0.3f, -0.9f), 1e-6);
  eqM(c, "from3DRotation", toRef(A::Rotation::from3DRotation(0.4f, a, 1.2f)), rpy(0.4f, a, 1.2f), 1e-6);
  eqM(c, "from3DRotation", toRef(A::rotationFrom3DRotation(-2.f, 0.7f, a)), rpy(-2.f, 0.7f, a), 1e-6);
  c.step(15);
  c.state(hashOf(w, 1e-6));
}
// unit quaternion/axis are required to be of norm 1: an axis of another norm
// is refused
void badAxis(mc::Ctx &c) {
  mc::Dec d(c.root);
  V3 u = dirs[d(dirs.size())];
  const double s[] = {0, 0.5, 0.99, 1.01, 2, 100};
  double k = s[d(6)];
  u = (k / norm(u)) * u;
  bool thrown = false;
  c.step();
  c.log("axis %s", str(u).c_str());
  try {
    A::rotationFromAngleDirection(0.5f, u.x, u.y, u.z);
  } catch (const std::runtime_error &) {
    thrown = true;
  }
  c.state(mc::Hash().q(u.x).q(u.y).q(u.z).h);
  c.yes("axis norm", thrown, "an axis whose norm is not 1 must be refused");
}

// determinant of every matrix with entries in a small set
void determinants(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float e[] = {0.f, 1.f, -0.5f};
  M3 m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) m.m[i][j] = e[d(3)];
  A::Rotation r = toR(m);
  T3 t;
  t.R = m;
  t.p = {3, -4, 5};
  double w = det(m);
  c.step(6);
  c.log("matrix %s", str(m).c_str());
  c.near("determinant(Rotation)", r.determinant(), w, 1e-6);
  c.near("determinant(Rotation)", A::determinant(r), w, 1e-6);
  c.near("determinant(Transform)", toT(t).determinant(), w, 1e-6);
  std::vector<float> v = toT(t).toVector();
  c.near("determinant(vector)", A::determinant(v), w, 1e-6);
  v.resize(12);
  c.near("determinant(vector12)", A::determinant(v), w, 1e-6);
  // predicate on arbitrary matrices: a rotation iff M'M=I and det=1
  double off = std::max(dist(tr(m) * m, M3()), std::fabs(w - 1));
  bool valid = off < 1e-9;
  c.yes("isRotation", r.isRotation() == valid, valid ? "a rotation was refused" : "a non rotation was accepted");
  c.yes("isTransform", toT(t).isTransform() == valid, valid ? "a rigid transform was refused" : "a non rigid transform was accepted");
  c.state(mc::Hash().u(c.root).h);
}

// perturbed rotations
void perturbed(mc::Ctx &c) {
  mc::Dec d(c.root);
  M3 b = toRef(G[d(G.size())]);
  int kind = d(13);
  const double mags[] = {0, 1e-6, 1e-5, 3e-3, -3e-3, 2e-2, 0.1, -0.1, 0.3, -0.4};
  double mag = mags[d(10)];
  const float epss[] = {1e-4f, 1e-3f, 1e-2f};
  int ei = d(4);
  float eps = ei == 3 ? 1e-4f : epss[ei];
  M3 m = b;
  if (kind < 9) m.m[kind / 3][kind % 3] += mag;
  else if (kind == 9)
    for (auto &row : m.m)
      for (double &x : row) x *= 1 + mag;
  else if (kind == 10)
    for (auto &row : m.m) row[0] *= 1 + mag;
  else if (kind == 11)
    for (auto &row : m.m) row[2] *= -1;  // reflection
  else
    for (auto &row : m.m)
      for (double &x : row) x *= -1;
  A::Rotation r = toR(m);
  T3 t;
  t.R = m;
  t.p = {7, -1, 0.25};
  A::Transform T = toT(t);
  m = toRef(r);
  double off = dist(tr(m) * m, M3()), off2 = dist(m * tr(m), M3());
  double big = std::max(std::max(off, off2), std::fabs(det(m) - 1));
  c.log("%s kind %d mag %g eps %g deviation %g", str(m).c_str(), kind, mag, eps, big);
  bool gr = ei == 3 ? r.isRotation() : r.isRotation(eps);
  bool gt = ei == 3 ? T.isTransform() : T.isTransform(eps);
  c.step(2);
  if (big < eps / 4) {
    c.yes("isRotation", gr, "a matrix within tolerance of orthonormality was refused");
    c.yes("isTransform", gt, "a matrix within tolerance of orthonormality was refused");
  } else if (big > eps * 8) {
    c.yes("isRotation", !gr, "a matrix far from orthonormality was accepted");
    c.yes("isTransform", !gt, "a matrix far from orthonormality was accepted");
  }
  c.state(mc::Hash().u(c.root).h);
  if (ei) return;
  // re-normalisation: the result is a rotation, keeps the direction of the
  // third axis and the plane of the last two
  A::Rotation n1 = r, n2 = r;
  n1.normalizeRotation();
  A::normalizeRotation(n2);
  A::Transform n3 = T, n4 = T;
  n3.normalizeTransform();
  A::normalizeTransform(n4);
  A::Transform n5(T.toVector());
  A::Rotation n6 = n1;
  n6.normalizeRotation();
  c.step(6);
  // reference Gram-Schmidt
  V3 z = {m.m[0][2], m.m[1][2], m.m[2][2]}, y = {m.m[0][1], m.m[1][1], m.m[2][1]};
  z = (1 / norm(z)) * z;
  V3 x = cross(y, z);
  x = (1 / norm(x)) * x;
  y = cross(z, x);
  M3 w;
  for (int i = 0; i < 3; ++i) {
    w.m[i][0] = x[i];
    w.m[i][1] = y[i];
    w.m[i][2] = z[i];
  }
  eqM(c, "normalizeRotation method", toRef(n1), w, 1e-5);
  eqM(c, "normalizeRotation", toRef(n2), w, 1e-5);
  T3 tw;
  tw.R = w;
  tw.p = t.p;
  eqT(c, "normalizeTransform method", n3, tw, 1e-5, 0);
  eqT(c, "normalizeTransform", n4, tw, 1e-5, 0);
  eqM(c, "normalize idempotent", toRef(n6), w, 1e-5);
  c.yes("normalized is rotation", n1.isRotation() && n3.isTransform(), "result of normalisation must be a rotation");
  if (big > 1e-3 && kind != 11) eqT(c, "Transform(vector) normalises", n5, tw, 1e-5, 0);
  c.yes("Transform(vector) is rigid", n5.isTransform(2e-4f), "a transform built from a vector must be rigid");
}
void degenerate(mc::Ctx &c) {
  mc::Dec d(c.root);
  M3 b = toRef(G[d(G.size())]);
  int k = d(4);
  T3 t;
  t.R = b;
  t.p = {1, 2, 3};
  for (int i = 0; i < 3; ++i) {
    if (k == 0) t.R.m[i][2] = 0;
    if (k == 1) t.R.m[i][1] = 0;
    if (k == 2) t.R.m[i][1] = 2 * t.R.m[i][2];
    if (k == 3) t.R.m[i][0] = t.R.m[i][1] = t.R.m[i][2] = 0;
  }
  A::Rotation r = toR(t.R);
  A::Transform T = toT(t);
  r.normalizeRotation();
  T.normalizeTransform();
  c.step(2);
  c.log("null column kind %d", k);
  c.state(mc::Hash().u(c.root).h);
  // a degenerate matrix becomes the identity rotation
  eqM(c, "degenerate rotation", toRef(r), M3(), 1e-6);
  T3 w;
  w.p = t.p;
  eqT(c, "degenerate transform", T, w, 1e-6, 0);
}
void nonFinite(mc::Ctx &c) {
  mc::Dec d(c.root);
  M3 b = toRef(G[d(G.size())]);
  int k = d(10);
  double bad = d(2) ? INFINITY : NAN;
  for (int i = 0; i < 9; ++i)
    if (k == 9 || k == i) b.m[i / 3][i % 3] = bad;
  T3 t;
  t.R = b;
  c.step(2);
  c.log("entry %d not finite", k);
  c.state(mc::Hash().u(c.root).h);
  c.yes("isRotation(nan)", !toR(b).isRotation(), "a matrix with a non-finite entry is no rotation");
  c.yes("isTransform(nan)", !toT(t).isTransform(), "a matrix with a non-finite entry is no rigid transform");
}
void compareFamily(mc::Ctx &c) {
  mc::Dec d(c.root);
  int comp = d(9);
  const double deltas[] = {0, 5e-5, -5e-5, 2e-4, -2e-4, 9e-4, -2e-3, 0.5};
  double delta = deltas[d(8)];
  const float epss[] = {0.f, 1e-4f, 1e-3f, 0.1f};
  size_t e = d(5);
  A::Rotation a = G[d(G.size())], b = a;
  float *m[9] = {&b.r1_c1, &b.r1_c2, &b.r1_c3, &b.r2_c1, &b.r2_c2, &b.r2_c3,
                 &b.r3_c1, &b.r3_c2, &b.r3_c3};
  *m[comp] += (float)delta;
  c.log("component %d differs by %g", comp, delta);
  c.step(3);
  bool eq = delta == 0;
  c.yes("==", (a == b) == eq && (b == a) == eq, "operator== must compare every component");
  c.yes("!=", (a != b) == !eq, "operator!= must negate ==");
  bool near = e == 4 ? a.isNear(b) : a.isNear(b, epss[e]);
  double eps = e == 4 ? 1e-4 : epss[e];
  c.yes("isNear", near == (std::fabs(delta) <= eps), "isNear: every component within epsilon");
  c.state(mc::Hash().u(c.root).h);
}
void vecCtor(mc::Ctx &c) {
  size_t n = c.root;
  std::vector<float> v;
  A::Transform T = A::Transform::fromPosition(1.f, 2.f, 3.f, 0.3f, 0.2f, -1.f);
  std::vector<float> t16 = T.toVector();
  M3 w;
  if (n == 9) {
    v = A::rotationFromTransform(T).toVector();
    w = toRef(T).R;
  } else {
    for (size_t i = 0; i < n; ++i) v.push_back(i < 16 ? t16[i] : 0.f);
    if (n == 12 || n == 16) w = toRef(T).R;
  }
  c.step(2);
  c.log("vector of %zu values", n);
  c.state(n);
  eqM(c, "Rotation(vector)", toRef(A::Rotation(v)), w, 0);
  if (n == 9) return;
  T3 wt;
  if (n == 12 || n == 16) wt = toRef(T);
  eqT(c, "Transform(vector)", A::Transform(v), wt, 0, 0);
}
// products and images under any matrix, rotation or not, exactly
std::vector<M3> pool;
void makePool() {
  auto add = [](std::initializer_list<int> v) {
    M3 t;
    int k = 0;
    for (int e : v) { t.m[k / 3][k % 3] = e / 8.0; ++k; }
    pool.push_back(t);
  };
  add({8, 0, 0, 0, 8, 0, 0, 0, 8});
  add({0, 0, 0, 0, 0, 0, 0, 0, 0});
  for (int i = 0; i < 9; ++i) {
    M3 t = pool[0], u = pool[1];
    t.m[i / 3][i % 3] += 0.125;
    u.m[i / 3][i % 3] = i % 2 ? -1 : 2;
    pool.push_back(t);
    pool.push_back(u);
  }
  add({1, 2, 3, 4, 5, 6, 7, 8, 9});
  add({-3, 8, 5, 2, -7, 1, 9, 4, -6});
  add({8, 0, 0, 0, -8, 0, 0, 0, 8});
  add({0, -8, 0, 8, 0, 0, 0, 0, 8});
  add({0, 0, 8, 8, 0, 0, 0, 8, 0});
  add({16, 0, 0, 0, 16, 0, 0, 0, 16});
  add({8, 8, 8, 0, 0, 0, 0, 0, 0});
}
A::Rotation entries(const M3 &r) {
  A::Rotation t;
  float *m[9] = {&t.r1_c1, &t.r1_c2, &t.r1_c3, &t.r2_c1, &t.r2_c2, &t.r2_c3, &t.r3_c1, &t.r3_c2, &t.r3_c3};
  for (int i = 0; i < 9; ++i) *m[i] = r.m[i / 3][i % 3];
  return t;
}
void matrices(mc::Ctx &c) {
  mc::Dec d(c.root);
  const M3 &ra = pool[d(pool.size())], &rb = pool[d(pool.size())];
  const A::Rotation a = entries(ra), b = entries(rb);
  A::Rotation m = a;
  eqM(c, "a*b", toRef(a * b), ra * rb, 0);
  A::Rotation *p = &(m *= b);
  c.yes("a*=b", p == &m, "returns self");
  eqM(c, "a*=b", toRef(m), ra * rb, 0);
  m = a;
  m *= m;
  eqM(c, "a*=a", toRef(m), ra * ra, 0);
  eqM(c, "transpose", toRef(a.transpose()), tr(ra), 0);
  eqM(c, "transpose", toRef(A::transpose(a)), tr(ra), 0);
  c.near("determinant", a.determinant(), det(ra), 0);
  c.near("determinant", A::determinant(a), det(ra), 0);
  const V3 pts[] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {-3, 0.25, 2}};
  for (const V3 &q : pts) {
    eqV(c, "R*Position3D", toRef(a * toP(q)), ra * q, 0);
    float x = q.x, y = q.y, z = q.z;
    A::applyRotation(a, x, y, z);
    eqV(c, "applyRotation", {x, y, z}, ra * q, 0);
  }
  c.yes("compare", (a == b) == (&ra == &rb) && (a != b) == (&ra != &rb), "== compares every component");
  c.yes("constant operands", a == entries(ra) && b == entries(rb), "operands are not modified");
  c.step(17);
  c.state(c.root);
}
void constants(mc::Ctx &c) {
  c.step(4);
  c.state(1);
  eqM(c, "fromRotXPi", toRef(A::Rotation::fromRotXPi()), rotX(PI), 1e-7);
  eqM(c, "fromRotYPi", toRef(A::Rotation::fromRotYPi()), rotY(PI), 1e-7);
  eqM(c, "fromRotZPi", toRef(A::Rotation::fromRotZPi()), rotZ(PI), 1e-7);
  eqM(c, "fromRotZHalfPi", toRef(A::Rotation::fromRotZHalfPi()), rotZ(PI / 2), 1e-7);
  eqM(c, "identity", toRef(A::Rotation()), M3(), 0);
  eqT(c, "identity", A::Transform(), T3(), 0, 0);
}
// products, inverses and images under small rotations, relatively to them
void smallRotations(mc::Ctx &c) {
  mc::Dec d(c.root);
  int i = d(small::NA), ax = d(4), j = d(small::NA), bx = d(4);
  double a = small::ANG[i], b = small::ANG[j], an = std::max(std::fabs(a), std::fabs(b));
  A::Rotation Ra = toR(small::rot(a, ax)), Rb = toR(small::rot(b, bx)), m = Ra;
  M3 ra = toRef(Ra), rb = toRef(Rb);
  small::eqM(c, "a*b", toRef(Ra * Rb), ra * rb, an);
  m *= Rb;
  small::eqM(c, "a*=b", toRef(m), ra * rb, an);
  small::eqM(c, "transpose", toRef(A::transpose(Ra)), tr(ra), 0);
  A::Rotation nr = Ra;
  A::normalizeRotation(nr);
  small::eqM(c, "normalizeRotation", toRef(nr), ra, an);
  A::Position3D u = ax < 3 ? A::Position3D(ax == 0, ax == 1, ax == 2) : A::Position3D(1 / 3.f, -2 / 3.f, 2 / 3.f);
  float f = a;
  // the symmetric part holds one minus a cosine, in single precision
  M3 want = small::rot(f, ax);
  for (const A::Rotation &x : {A::Rotation::fromAngleDirection(f, u.x, u.y, u.z), A::rotationFromAngleDirection(f, u)}) {
    M3 r = toRef(x);
    eqM(c, "fromAngleDirection", r, want, 2e-7 + 1e-6 * std::fabs(f));
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < i; ++j) c.near("fromAngleDirection", r.m[i][j] - r.m[j][i], want.m[i][j] - want.m[j][i], 2e-6 * std::fabs(f));
  }
  if (ax < 3) {
    small::eqM(c, "elementary", toRef(ax == 0 ? A::Rotation::fromRotX(f) : ax == 1 ? A::Rotation::fromRotY(f) : A::Rotation::fromRotZ(f)), small::rot(f, ax), an);
    small::eqM(c, "elementary", toRef(ax == 0 ? A::rotationFromRotX(f) : ax == 1 ? A::rotationFromRotY(f) : A::rotationFromRotZ(f)), small::rot(f, ax), an);
  }
  float g = b;
  if (ax < 3 && bx < 3) {
    float w[3] = {0, 0, 0};
    w[ax] = f;
    w[bx] = g;
    small::eqM(c, "from3DRotation", toRef(A::Rotation::from3DRotation(w[0], w[1], w[2])), rpy(w[0], w[1], w[2]), an);
    small::eqM(c, "rotationFrom3DRotation", toRef(A::rotationFrom3DRotation(w[0], w[1], w[2])), rpy(w[0], w[1], w[2]), an);
  }
  Q q = quatAA(a, {u.x, u.y, u.z});
  small::eqM(c, "rotationFromQuaternion", toRef(A::rotationFromQuaternion(q.w, q.x, q.y, q.z)), ra, an);
  for (double l : small::LEN) {
    V3 p{l, -0.5 * l, 0.75 * l};
    small::eqV(c, "R*p", toRef(Ra * toP(p)), ra * p, norm(p));
  }
  c.step(20);
  c.state(c.root);
}
}  // namespace

void mc::setup() {
  std::cerr.rdbuf(nullptr);  // warnings
  std::cout.rdbuf(nullptr);
  mc::family("compare-all", compareRoots(9), [](mc::Ctx &c) { compareCase<A::Rotation>(c, 9, [](const std::vector<float> &v) { return A::Rotation(v); }); },
             "3 values x 2 components among 9 x 10 x 10 differences x 5 tolerances");
  mc::family("compare-all-equal", compareRoots(9) / compareNs::NE, [](mc::Ctx &c) { equalCase<A::Rotation>(c, 9, [](const std::vector<float> &v) { return A::Rotation(v); }); },
             "3 values x 2 components among 9 x 10 x 10 differences");
  makePool();
  mc::family("any-matrix", pool.size() * pool.size(), matrices, "all pairs of " + std::to_string(pool.size()) + " matrices, rotations or not, exactly");
  mc::family("sizes", 84, [](mc::Ctx &c) {
    sizesCase<A::Rotation>(c, [](int n) { return n == 9 ? iota(9) : n == 12 || n == 16 ? std::vector<int>{0, 1, 2, 4, 5, 6, 8, 9, 10} : std::vector<int>(); },
      {{1, 0, 0, 0, 1, 0, 0, 0, 1}});
  }, "vectors of 0 to 20 floats, 4 contents");

  G = gens();
  ang = angleGrid(mc::thorough() ? 720 : 180);
  dirs = dirGrid();
  int depth = mc::thorough() ? 4 : 3;
  uint64_t n = 1;
  for (int i = 0; i < depth; ++i) n *= 5 * G.size();
  mc::family("words", n, [depth](mc::Ctx &c) { words(c, depth); },
             "all words of length 3 (4 thorough) over 5 operations x 8 rotations");
  mc::family("constructors", ang.size() * dirs.size(), elementary,
             "angle grid with thresholds x 35 axes, every constructor");
  mc::family("small", small::NA * 4 * small::NA * 4, smallRotations, "all pairs of 8 angles from 1e-12 to 1 about 4 axes, relatively to them");
  mc::family("axis-norm", dirs.size() * 6, badAxis, "35 axes x 6 wrong norms");
  mc::family("all-small-matrices", 19683, determinants, "every 3x3 matrix over {0,1,-1/2}");
  mc::family("perturbed", G.size() * 13 * 10 * 4, perturbed,
             "8 rotations x 13 perturbations x 10 magnitudes x 4 tolerances");
  mc::family("degenerate", G.size() * 4, degenerate, "8 rotations x 4 rank losses");
  mc::family("non-finite", G.size() * 10 * 2, nonFinite, "8 rotations x 10 entries x {nan, inf}");
  mc::family("comparison", 9 * 8 * 5 * G.size(), compareFamily, "entries x differences x tolerances");
  mc::family("from-vector", 20, vecCtor, "vectors of 0..19 values");
  mc::family("constants", 1, constants, "named constants");
}
