// C06: frames built from axes: axis projection, orthogonal space, axes to
// rotation
#include "conv.h"
#include <stdexcept>
using namespace ref;
namespace {
std::vector<float> ang;
std::vector<V3> dirs;
std::vector<M3> rots;

M3 about(int k, double t) { return k == 0 ? rotX(t) : k == 1 ? rotY(t) : rotZ(t); }
double traceP(const M3 &a, const M3 &b) { M3 m = tr(a) * b; return m.m[0][0] + m.m[1][1] + m.m[2][2]; }

// all public forms; returns the rotation
M3 project(mc::Ctx &c, const A::Position3D &axis, const M3 &R) {
  A::Rotation r = toR(R), r2 = r;
  A::Transform t = toT({R, {1, -2, 0.5}}), t2 = t;
  A::Rotation a = A::axisRotationProjection(axis, r);
  A::axisRotationProjectionInPlace(axis, r2);
  A::Transform b = A::axisRotationProjection(axis, t);
  A::axisRotationProjectionInPlace(axis, t2);
  c.step(4);
  M3 m = toRef(a);
  // two rotations about the axis may be as close: rounding chooses
  auto same = [&](const M3 &x) { return std::fabs(traceP(R, x) - traceP(R, m)) < 1e-6 ? x : m; };
  eqM(c, "projection in place", toRef(r2), same(toRef(r2)), 1e-6);
  eqT(c, "transform projection", b, {same(toRef(b).R), {1, -2, 0.5}}, 1e-6, 0);
  eqT(c, "transform projection in place", t2, {same(toRef(t2).R), {1, -2, 0.5}}, 1e-6, 0);
  eqT(c, "operands are untouched", t, toRef(toT({R, {1, -2, 0.5}})), 0, 0);
  return m;
}
void principal(mc::Ctx &c) {
  mc::Dec d(c.root);
  int k = d(3);
  const float scale[] = {1.f, 0.01f, 300.f, -1.f, 1e-6f, 1e6f, 1e-12f};
  float s = scale[d(7)];
  M3 R = rots[d(rots.size())];
  float t0 = ang[d(ang.size())];
  M3 R1 = about(k, t0) * R;  // equivariance: turn about the axis first
  float ax[3] = {0, 0, 0};
  ax[k] = s;
  A::Position3D axis(ax[0], ax[1], ax[2]);
  c.log("axis %d scale %g R %s", k, s, str(R1).c_str());
  M3 P = project(c, axis, R1);
  // a rotation about the axis
  eqM(c, "orthonormal", P * tr(P), M3(), 1e-5);
  c.near("det", det(P), 1, 1e-5);
  c.near("fixes the axis", P.m[k][k], 1, 1e-6);
  c.state(hashOf(P));
  // first factor of the cyclic decomposition R = Rk * Rk+1 * Rk+2
  int j = (k + 1) % 3, l = (k + 2) % 3;
  double a = R1.m[j][l], b = R1.m[l][l], h = std::hypot(a, b);
  if (h > 1e-3) {
    double th = std::atan2(-a, b);
    M3 W1 = about(k, th), W2 = about(k, th + PI);
    double d1 = traceP(R1, W1), d2 = traceP(R1, W2);
    if (std::fabs(d1 - d2) > 1e-4)
      eqM(c, "projection", P, d1 > d2 ? W1 : W2, 1e-5 + 2e-6 / h);
    else
      c.yes("projection", std::min(dist(P, W1), dist(P, W2)) <= 1e-5 + 2e-6 / h, "one of the two branches");
    // projecting again changes nothing
    eqM(c, "idempotent", project(c, axis, P), P, 1e-5);
  }
}
void pure(mc::Ctx &c) {  // rotations about a coordinate axis are fixed points
  mc::Dec d(c.root);
  int k = d(3);
  float t = ang[d(ang.size())];
  float ax[3] = {0, 0, 0};
  ax[k] = d(2) ? 2.5f : -1.f;
  M3 R = about(k, t);
  c.log("axis %d angle %.9g", k, t);
  M3 P = project(c, A::Position3D(ax[0], ax[1], ax[2]), R);
  eqM(c, "fixed point", P, R, 1e-5);
  c.state(hashOf(P));
}
void oblique(mc::Ctx &c) {  // any axis: the result, if any, turns about the axis
  mc::Dec d(c.root);
  V3 u = dirs[d(dirs.size())];
  M3 R = rots[d(rots.size())];
  const double SC[] = {1, 7, 1e-4, 1e4};
  double s = SC[d(4)];
  A::Position3D axis = toP(s * u);
  bool thrown = false;
  M3 P;
  c.log("axis %s R %s", str(u).c_str(), str(R).c_str());
  try {
    P = toRef(A::axisRotationProjection(axis, toR(R)));
  } catch (const std::runtime_error &) { thrown = true; }
  if (thrown) c.skip();
  project(c, axis, R);
  eqM(c, "orthonormal", P * tr(P), M3(), 1e-5);
  c.near("det", det(P), 1, 1e-5);
  eqV(c, "fixes the axis", P * u, u, 1e-5 * norm(u));
  c.state(hashOf(P));
}
// the operation claims to find the closest rotation: a rotation about the
// axis is its own closest rotation, whatever the axis
void obliqueFixed(mc::Ctx &c) {
  const V3 us[] = {{1, 1, 1}, {1, 1, 0}, {0, 0.6, -0.8}, {1, 2, 3}};
  const double ts[] = {0.3, 1, -2};
  mc::Dec d(c.root);
  int iu = d(4), it = d(3);
  V3 u = us[iu];
  double t = ts[it];
  M3 R = axisAngle(t, u);
  c.log("axis %s angle %g", str(u).c_str(), t);
  char key[80];
  snprintf(key, sizeof key, "oblique-fixed-point-%g,%g,%g-%g", u.x, u.y, u.z, t);
  M3 P;
  try {
    P = toRef(A::axisRotationProjection(toP(u), toR(R)));
  } catch (const std::runtime_error &) {
    c.fail(key, "projecting a rotation about the axis throws");
  }
  c.step();
  c.state(hashOf(P));
  if (!(dist(P, R) < 1e-3)) c.fail(key, "projection %s of rotation %s about the axis itself", str(P).c_str(), str(R).c_str());
}
void zeroAxis(mc::Ctx &c) {
  M3 R = rots[c.root];
  A::Rotation r = toR(R), r0 = r;
  A::Transform t = toT({R, {1, 2, 3}}), t0 = t;
  A::Position3D z;
  int n = 0;
  try { A::axisRotationProjection(z, r); } catch (const std::runtime_error &) { ++n; }
  try { A::axisRotationProjectionInPlace(z, r); } catch (const std::runtime_error &) { ++n; }
  try { A::axisRotationProjection(z, t); } catch (const std::runtime_error &) { ++n; }
  try { A::axisRotationProjectionInPlace(z, t); } catch (const std::runtime_error &) { ++n; }
  try { A::orthogonalSpace(z); } catch (const std::runtime_error &) { ++n; }
  try { A::orthogonalSpace(z, t); } catch (const std::runtime_error &) { ++n; }
  c.step(6);
  c.state(hashOf(R));
  c.yes("zero axis", n == 6, "a null axis is refused");
  c.yes("zero axis", r == r0 && t == t0, "a refused call leaves its operand alone");
}

std::vector<double> comps;
void ortho(mc::Ctx &c) {
  mc::Dec d(c.root);
  V3 u{comps[d(comps.size())], comps[d(comps.size())], comps[d(comps.size())]};
  const double SC[] = {1, 20, 1e-10, 1e-5, 1e6, 1e15};
  u = SC[d(6)] * u;
  if (norm(u) == 0) c.skip();
  A::Transform t(5.f, 6.f, 7.f), t2;
  A::orthogonalSpace(toP(u), t);
  t2 = A::orthogonalSpace(toP(u));
  c.step(2);
  T3 r = toRef(t);
  c.log("axis %s -> %s", str(u).c_str(), str(r.R).c_str());
  c.state(hashOf(r));
  eqV(c, "z axis", {r.R.m[0][2], r.R.m[1][2], r.R.m[2][2]}, (1 / norm(u)) * u, 1e-6);
  eqM(c, "orthonormal", r.R * tr(r.R), M3(), 3e-6);
  c.near("det", det(r.R), 1, 3e-6);
  eqV(c, "position untouched", r.p, {5, 6, 7}, 0);
  eqT(c, "returned form", t2, {r.R, {0, 0, 0}}, 0, 0);
}
void axes(mc::Ctx &c) {
  mc::Dec d(c.root);
  M3 R = axisAngle(ang[d(ang.size())], dirs[d(dirs.size())]);
  auto col = [&](int j) { return toP({R.m[0][j], R.m[1][j], R.m[2][j]}); };
  A::Position3D x = col(0), y = col(1), z = col(2);
  eqM(c, "rotationFromAxesXY", toRef(A::rotationFromAxesXY(x, y)), R, 1e-6);
  eqM(c, "rotationFromAxesXZ", toRef(A::rotationFromAxesXZ(x, z)), R, 1e-6);
  eqM(c, "rotationFromAxesYZ", toRef(A::rotationFromAxesYZ(y, z)), R, 1e-6);
  eqM(c, "rotationFromAxesXYZ", toRef(A::rotationFromAxesXYZ(x, y, z)), R, 1e-7);
  c.step(4);
  c.state(hashOf(R));
  c.yes("isRotation", A::rotationFromAxesXY(x, y).isRotation(), "a rotation");
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  ang = angleGrid(th ? 180 : 24);
  dirs = dirGrid();
  std::vector<float> few = {0.f, 1e-4f, 0.3f, (float)(PI / 2), 2.f, 3.f, (float)PI, -0.7f, -2.4f};
  for (float a : few)
    for (auto &u : dirs) rots.push_back(axisAngle(a, u));
  // exact matrices with exact zeros: all signed permutations
  for (int p = 0; p < 6; ++p)
    for (int s = 0; s < 8; ++s) {
      const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      M3 m;
      for (auto &row : m.m) for (double &e : row) e = 0;
      for (int i = 0; i < 3; ++i) m.m[i][perm[p][i]] = (s >> i & 1) ? -1 : 1;
      if (det(m) > 0) rots.push_back(m);
    }
  std::string R = std::to_string(rots.size()) + " rotations (9 angles x 35 axes and the 24 axis permutations)";
  mc::family("projection-coordinate-axes", 3ull * 7 * rots.size() * ang.size(), principal,
             "3 axes x 4 scales x " + R + " x " + std::to_string(ang.size()) + " extra turns about the axis");
  mc::family("projection-fixed-points", 3ull * 2 * ang.size(), pure, "rotations about each coordinate axis");
  mc::family("projection-any-axis", dirs.size() * rots.size() * 4, oblique, "35 axes x 4 scales x " + R);
  mc::family("projection-oblique-fixed-points", 12, obliqueFixed, "4 oblique axes x 3 angles");
  mc::family("null-axis", rots.size(), zeroAxis, R);
  for (double m : {0.0, 1.0, 0.5, 1e-2, 1.1e-4, 1e-4, 0.9e-4, 1e-5, 1e-7}) {
    comps.push_back(m);
    if (m) comps.push_back(-m);
  }
  mc::family("orthogonal-space", comps.size() * comps.size() * comps.size() * 6, ortho,
             "all axes with components 0,+-1,+-.5,+-1e-2 and around the 1e-4 threshold, 6 scales from 1e-10 to 1e15");
  mc::family("rotation-from-axes", ang.size() * dirs.size(), axes, "angle grid x 35 axes");
}
