// C03: every conversion between orientation/pose representations denotes the
// same motion
#include "conv.h"
#include "small.h"
using namespace ref;
namespace {
std::vector<float> gx, gy, gz;

// is rotation-only, checked for all conversion paths of one orientation
void orientation(mc::Ctx &c) {
  mc::Dec d(c.root);
  float wx = gx[d(gx.size())], wy = gy[d(gy.size())], wz = gz[d(gz.size())];
  c.log("wx %.9g wy %.9g wz %.9g", wx, wy, wz);
  M3 R = rpy(wx, wy, wz);
  const double e = 2e-6, b = 1e-5;
  A::Rotation3D r3(wx, wy, wz);
  // ---- into matrices
  A::Rotation rot = A::rotationFrom3DRotation(wx, wy, wz);
  eqM(c, "rotationFrom3DRotation", toRef(rot), R, e);
  A::Transform t = A::transformFromRotation3D(r3);
  T3 w;
  w.R = R;
  eqT(c, "transformFromRotation3D", t, w, e, 0);
  eqT(c, "transformFrom3DRotation", A::transformFrom3DRotation(wx, wy, wz), w, e, 0);
  eqT(c, "Transform::from3DRotation", A::Transform::from3DRotation(wx, wy, wz), w, e, 0);
  const float px = 1.5f, py = -0.25f, pz = 3.f;
  w.p = {px, py, pz};
  A::Position6D p6(px, py, pz, wx, wy, wz);
  A::Transform t6 = A::transformFromPosition6D(p6);
  eqT(c, "transformFromPosition6D", t6, w, e, 0);
  eqT(c, "transformFromRotationPosition3D", A::transformFromRotationPosition3D(rot, px, py, pz), w, e, 0);
  eqT(c, "transformFromRotationPosition3D(p)",
      A::transformFromRotationPosition3D(rot, A::Position3D(px, py, pz)), w, e, 0);
  A::Transform tp(px, py, pz);
  A::transformFromRotationInPlace(rot, tp);  // keeps the translation
  eqT(c, "transformFromRotationInPlace", tp, w, e, 0);
  A::Transform tq = A::transformFromRotation(rot);
  A::transformFromPosition3DInPlace(A::Position3D(px, py, pz), tq);  // keeps the rotation
  eqT(c, "transformFromPosition3DInPlace", tq, w, e, 0);
  T3 w0;
  w0.R = R;
  eqT(c, "transformFromRotation", A::transformFromRotation(rot), w0, e, 0);
  A::Rotation rt = A::rotationFromTransform(t6), rt2 = A::Rotation::fromRotX(1.f);
  A::rotationFromTransformInPlace(t6, rt2);
  eqM(c, "rotationFromTransform", toRef(rt), R, e);
  eqM(c, "rotationFromTransformInPlace", toRef(rt2), R, e);
  c.step(12);
  // ---- quaternions
  A::Quaternion q = A::quaternionFromRotation3D(r3), q1;
  A::quaternionFromRotation3D(r3, q1);
  Q qr = quatAA(wz, {0, 0, 1}) * quatAA(wy, {0, 1, 0}) * quatAA(wx, {1, 0, 0});
  eqQrot(c, "quaternionFromRotation3D", toRef(q), qr, e);
  eqQrot(c, "quaternionFromRotation3D-out", toRef(q1), qr, e);
  eqM(c, "rotationFromQuaternion", toRef(A::rotationFromQuaternion(q)), R, e);
  A::Rotation rq;
  A::rotationFromQuaternion(q, rq);
  eqM(c, "rotationFromQuaternion-out", toRef(rq), R, e);
  eqM(c, "rotationFromQuaternion4", toRef(A::rotationFromQuaternion(q.w, q.x, q.y, q.z)), R, e);
  eqM(c, "Rotation::fromQuaternion", toRef(A::Rotation::fromQuaternion(q.w, q.x, q.y, q.z)), R, e);
  eqT(c, "transformFromQuaternion", A::transformFromQuaternion(q), w0, e, 0);
  A::Quaternion mq(-q.w, -q.x, -q.y, -q.z);
  eqT(c, "transformFromQuaternion(-q)", A::transformFromQuaternion(mq), w0, e, 0);
  eqM(c, "rotationFromQuaternion(-q)", toRef(A::rotationFromQuaternion(mq)), R, e);
  A::Quaternion qt = A::quaternionFromTransform(t6);
  eqQrot(c, "quaternionFromTransform", toRef(qt), qr, 4 * e);
  c.near("quaternionFromTransform unit", A::norm(qt), 1, 4 * e);
  c.yes("quaternionFromTransform w>=0", qt.w >= 0, "scalar part is non-negative");
  A::Displacement ds = A::displacementFromTransform(t6);
  eqQrot(c, "displacementFromTransform", toRef(ds.Q), qr, 4 * e);
  eqV(c, "displacementFromTransform", toRef(ds.P), w.p, 0);
  eqT(c, "transformFromDisplacement", A::transformFromDisplacement(A::Displacement(A::Position3D(px, py, pz), q)), w, e, 0);
  eqT(c, "displacement round trip", A::transformFromDisplacement(ds), w, 4 * e, 0);
  A::Quaternion q2;
  A::Position3D p2(9.f, 9.f, 9.f);
  A::quaternionPosition3DFromPosition6D(p6, q2, p2);
  eqQrot(c, "quaternionPosition3DFromPosition6D", toRef(q2), qr, e);
  eqV(c, "quaternionPosition3DFromPosition6D", toRef(p2), w.p, 0);
  c.step(14);
  // ---- back to angles: the same orientation, also at the singularity
  auto back = [&](const char *k, double x, double y, double z, double tol) {
    eqM(c, k, rpy(x, y, z), R, tol);
    c.yes(k, std::fabs(x) <= PI + 1e-6 && std::fabs(y) <= PI / 2 + 1e-5 && std::fabs(z) <= PI + 1e-6,
          "angles are in their principal ranges");
    if (std::fabs(std::cos(wy)) > 0.02) {  // unique solution
      bool flip = std::cos(wy) < 0;
      double ex = flip ? wx + PI : wx, ey = flip ? PI - wy : wy, ez = flip ? wz + PI : wz;
      double tl = tol / 0.02;
      c.near(k, std::fabs(wrap(x - ex)), 0, tl);
      c.near(k, std::fabs(wrap(y - ey)), 0, tl);
      c.near(k, std::fabs(wrap(z - ez)), 0, tl);
    }
  };
  A::Rotation3D a = A::rotation3DFromTransform(t6);
  back("rotation3DFromTransform", a.wx, a.wy, a.wz, b);
  a = A::rotation3DFromRotation(rot);
  back("rotation3DFromRotation", a.wx, a.wy, a.wz, b);
  A::Position6D s = A::position6DFromTransform(t6), s2(7.f);
  back("position6DFromTransform", s.wx, s.wy, s.wz, b);
  eqV(c, "position6DFromTransform", {s.x, s.y, s.z}, w.p, 0);
  A::position6DFromTransformInPlace(t6, s2);
  back("position6DFromTransformInPlace", s2.wx, s2.wy, s2.wz, b);
  eqV(c, "position6DFromTransformInPlace", {s2.x, s2.y, s2.z}, w.p, 0);
  a = A::rotation3DFromQuaternion(q);
  back("rotation3DFromQuaternion", a.wx, a.wy, a.wz, b);
  A::Rotation3D a2(5.f);
  A::rotation3DFromQuaternion(mq, a2);
  back("rotation3DFromQuaternion(-q)", a2.wx, a2.wy, a2.wz, b);
  c.step(6);
  // ---- projections
  eqV(c, "position3DFromTransform", toRef(A::position3DFromTransform(t6)), w.p, 0);
  A::Position3D p3;
  A::position3DFromTransformInPlace(t6, p3);
  eqV(c, "position3DFromTransformInPlace", toRef(p3), w.p, 0);
  A::Position2D z2 = A::position2DFromTransform(t6), z3;
  A::position2DFromTransformInPlace(t6, z3);
  eqV(c, "position2DFromTransform", {z2.x, z2.y, 0}, {px, py, 0}, 0);
  eqV(c, "position2DFromTransformInPlace", {z3.x, z3.y, 0}, {px, py, 0}, 0);
  A::Pose2D o = A::pose2DFromTransform(t6), o2(3.f);
  A::pose2DFromTransformInPlace(t6, o2);
  eqV(c, "pose2DFromTransform", {o.x, o.y, 0}, {px, py, 0}, 0);
  eqV(c, "pose2DFromTransformInPlace", {o2.x, o2.y, 0}, {px, py, 0}, 0);
  double hx = R.m[0][0], hy = R.m[1][0], hn = std::hypot(hx, hy);
  if (hn > 1e-2) {
    c.near("pose2DFromTransform heading", std::fabs(wrap(o.theta - std::atan2(hy, hx))), 0, 1e-5 / hn);
    c.near("pose2DFromTransformInPlace heading", std::fabs(wrap(o2.theta - std::atan2(hy, hx))), 0, 1e-5 / hn);
  }
  c.step(6);
  c.state(hashOf(R, 1e-6));
}

// rotations that result from products in single precision, so that they are
// only orthonormal to rounding errors
std::vector<float> tiny;
void drifted(mc::Ctx &c) {
  mc::Dec d(c.root);
  float a = 0.0314159f * d(200), b = -0.6f + 0.041f * d(60);
  A::Transform R = A::Transform::fromRotX(a) * A::Transform::fromRotY(b) * A::Transform::fromRotZ(a + b);
  float t = tiny[c.pick(tiny.size())];
  int k = c.pick(4);
  A::Transform E = k == 0 ? A::Transform::fromRotZ(t) : k == 1 ? A::Transform::fromRotX(t) : k == 2 ? A::Transform::fromRotY(t) : A::Transform::from3DRotation(t, t, -t);
  A::Transform T = c.pick(2) ? R.inverse() * E * R : R * E * R.inverse();
  M3 r = toRef(T).R;
  c.log("rotation %s", str(r).c_str());
  A::Quaternion q = A::quaternionFromTransform(T);
  c.near("quaternionFromTransform of a product", dist(mat(toRef(q)), r), 0, 5e-6);
  A::Displacement ds = A::displacementFromTransform(T);
  c.near("displacementFromTransform of a product", dist(mat(toRef(ds.Q)), r), 0, 5e-6);
  A::Rotation3D x = A::rotation3DFromTransform(T), y = A::rotation3DFromRotation(A::rotationFromTransform(T)), z = A::rotation3DFromQuaternion(q);
  c.near("rotation3DFromTransform of a product", dist(rpy(x.wx, x.wy, x.wz), r), 0, 5e-6);
  c.near("rotation3DFromRotation of a product", dist(rpy(y.wx, y.wy, y.wz), r), 0, 5e-6);
  c.near("rotation3DFromQuaternion of a product", dist(rpy(z.wx, z.wy, z.wz), r), 0, 1e-5);
  A::Position6D p = A::position6DFromTransform(T);
  c.near("position6DFromTransform of a product", dist(rpy(p.wx, p.wy, p.wz), r), 0, 5e-6);
  c.step(6);
  c.state(hashOf(r, 1e-6));
}

// the relative rotation extracted by position6DFromTransformDiff
void transformDiff(mc::Ctx &c) {
  mc::Dec d(c.root);
  size_t n = gy.size();
  float a = gy[d(n)], b = gy[d(n)];
  int k = d(4);
  A::Transform t1 = A::Transform::fromPosition(0.3f, -1.f, 2.f, a, k & 1 ? 0.4f : 0.f, -1.f);
  A::Transform t2 = A::Transform::fromPosition(-1.f, k & 2 ? 0.5f : 0.f, 0.1f, 0.2f, b, 0.7f);
  T3 r1 = toRef(t1), r2 = toRef(t2);
  M3 D = r2.R * tr(r1.R);
  V3 v = 0.5 * V3{D.m[2][1] - D.m[1][2], D.m[0][2] - D.m[2][0], D.m[1][0] - D.m[0][1]};
  A::Position6D p = A::position6DFromTransformDiff(t1, t2), p2(1.f);
  A::position6DFromTransformDiffInPlace(t1, t2, p2);
  c.log("a %g b %g", a, b);
  c.step(2);
  eqV(c, "position6DFromTransformDiff", {p.x, p.y, p.z}, r2.p - r1.p, 1e-6);
  eqV(c, "position6DFromTransformDiff", {p.wx, p.wy, p.wz}, v, 2e-6);
  eqV(c, "position6DFromTransformDiffInPlace", {p2.x, p2.y, p2.z}, r2.p - r1.p, 1e-6);
  eqV(c, "position6DFromTransformDiffInPlace", {p2.wx, p2.wy, p2.wz}, v, 2e-6);
  c.state(mc::Hash().q(v.x, 1e-6).q(v.y, 1e-6).q(v.z, 1e-6).u(k).h);
}

// planar representations and single-axis constructors
void planar(mc::Ctx &c) {
  mc::Dec d(c.root);
  static const std::vector<float> ag = angleGrid(360);
  float th = ag[d(ag.size())];
  float turns = (float[]){0.f, 1.f, -1.f, 3.f}[d(4)];
  th += turns * (float)(2 * PI);
  const float ps[][3] = {{0, 0, 0}, {1, -2, 0.5f}, {-1e-3f, 40, -3}};
  const float *p = ps[d(3)];
  c.log("theta %.9g x %g y %g", th, p[0], p[1]);
  A::Pose2D po(p[0], p[1], th);
  T3 w;
  w.R = rotZ(th);
  w.p = {p[0], p[1], 0};
  A::Transform t = A::transformFromPose2D(po), t2(1.f, 2.f, 3.f);
  A::transformFromPose2DInPlace(po, t2);
  eqT(c, "transformFromPose2D", t, w, 1e-6, 0);
  eqT(c, "transformFromPose2DInPlace", t2, w, 1e-6, 0);
  A::Pose2D b = A::pose2DFromTransform(t);
  eqV(c, "Pose2D round trip", {b.x, b.y, 0}, {p[0], p[1], 0}, 0);
  c.near("Pose2D round trip", std::fabs(wrap(b.theta - th)), 0, 5e-6);
  c.yes("theta range", std::fabs(b.theta) <= PI + 1e-6, "heading in [-pi,pi]");
  A::Position6D s = A::position6DFromPose2D(po), s2(8.f);
  A::position6DFromPose2DInPlace(po, s2);
  for (const A::Position6D *q : {&s, &s2}) {
    eqV(c, "position6DFromPose2D", {q->x, q->y, q->z}, {p[0], p[1], 0}, 0);
    eqV(c, "position6DFromPose2D", {q->wx, q->wy, q->wz}, {0, 0, th}, 0);
  }
  A::Position6D full(p[0], p[1], p[2], 0.1f, 0.2f, th);
  A::Pose2D f = A::pose2DFromPosition6D(full), f2(6.f);
  A::pose2DFromPosition6DInPlace(full, f2);
  eqV(c, "pose2DFromPosition6D", {f.x, f.y, f.theta}, {p[0], p[1], th}, 0);
  eqV(c, "pose2DFromPosition6DInPlace", {f2.x, f2.y, f2.theta}, {p[0], p[1], th}, 0);
  eqV(c, "position3DFromPosition6D", toRef(A::position3DFromPosition6D(full)), {p[0], p[1], p[2]}, 0);
  A::Position6D g = A::position6DFromPosition3D(A::Position3D(p[0], p[1], p[2])), g2(8.f);
  A::position6DFromPosition3DInPlace(A::Position3D(p[0], p[1], p[2]), g2);
  for (const A::Position6D *q : {&g, &g2}) {
    eqV(c, "position6DFromPosition3D", {q->x, q->y, q->z}, {p[0], p[1], p[2]}, 0);
    eqV(c, "position6DFromPosition3D", {q->wx, q->wy, q->wz}, {0, 0, 0}, 0);
  }
  A::Position2D h = A::position2DFromPose2D(po), h2;
  A::position2DFromPose2DInPlace(po, h2);
  eqV(c, "position2DFromPose2D", {h.x, h.y, 0}, {p[0], p[1], 0}, 0);
  eqV(c, "position2DFromPose2DInPlace", {h2.x, h2.y, 0}, {p[0], p[1], 0}, 0);
  A::Pose2D m = A::pose2DFromPosition2D(h, th), m2(4.f), m3 = A::pose2DFromPosition2D(h);
  A::pose2DFromPosition2DInPlace(h, th, m2);
  eqV(c, "pose2DFromPosition2D", {m.x, m.y, m.theta}, {p[0], p[1], th}, 0);
  eqV(c, "pose2DFromPosition2DInPlace", {m2.x, m2.y, m2.theta}, {p[0], p[1], th}, 0);
  eqV(c, "pose2DFromPosition2D default", {m3.x, m3.y, m3.theta}, {p[0], p[1], 0}, 0);
  A::Velocity6D v(p[0], p[1], p[2], 0.1f, 0.2f, th);
  A::Position6D pv = A::position6DFromVelocity6D(v);
  eqV(c, "position6DFromVelocity6D", {pv.x, pv.y, pv.z}, {p[0], p[1], p[2]}, 0);
  eqV(c, "position6DFromVelocity6D", {pv.wx, pv.wy, pv.wz}, {v.wxd, v.wyd, v.wzd}, 0);
  // single axis constructors, selected by mask
  A::Position3D pp(p[0], p[1], p[2]);
  for (int axis = 0; axis < 64; ++axis) {
    T3 x;
    x.R = axis == 1 ? rotX(th) : axis == 2 ? rotY(th) : axis == 4 ? rotZ(th) : M3();
    T3 xp = x;
    xp.p = toRef(pp);
    eqT(c, "transformFromRotVec(axis,angle,p)", A::transformFromRotVec(axis, th, pp), xp, 1e-6, 0);
    A::Transform i(9.f, 9.f, 9.f);
    A::transformFromRotVecInPlace(axis, th, pp, i);
    eqT(c, "transformFromRotVecInPlace", i, xp, 1e-6, 0);
    eqT(c, "transformFromRotVec(axis,angle)", A::transformFromRotVec(axis, th), x, 1e-6, 0);
    c.step(3);
  }
  T3 tr3;
  tr3.p = toRef(pp);
  eqT(c, "transformFromRotVec(p)", A::transformFromRotVec(pp), tr3, 0, 0);
  A::Transform i(9.f, 9.f, 9.f);
  A::transformFromRotVecInPlace(pp, i);
  eqT(c, "transformFromRotVecInPlace(p)", i, tr3, 0, 0);
  eqT(c, "transformFromPosition3D", A::transformFromPosition3D(pp), tr3, 0, 0);
  c.step(20);
  c.state(mc::Hash().u(c.root).h);
}
// conversions of small rotations, relatively to them, and of positions of
// every scale, exactly
void smallF(mc::Ctx &c) {
  mc::Dec d(c.root);
  float w[3];
  for (float &x : w) x = small::ANG[d(small::NA)];
  float l = small::LEN[d(small::NL)];
  double an = std::max({std::fabs(w[0]), std::fabs(w[1]), std::fabs(w[2])});
  V3 W{w[0], w[1], w[2]};
  M3 R = rpy(w[0], w[1], w[2]);
  Q q = quatAA(w[2], {0, 0, 1}) * quatAA(w[1], {0, 1, 0}) * quatAA(w[0], {1, 0, 0});
  A::Rotation3D r3(w[0], w[1], w[2]);
  A::Position6D p6(l, -0.5f * l, 0.75f * l, w[0], w[1], w[2]);
  const V3 p{p6.x, p6.y, p6.z};
  T3 T{R, p}, T0{R, {0, 0, 0}};
  c.log("angles %g %g %g length %g", w[0], w[1], w[2], l);
  A::Rotation rot = A::rotationFrom3DRotation(w[0], w[1], w[2]);
  small::eqM(c, "rotationFrom3DRotation", toRef(rot), R, an);
  small::eqT(c, "transformFromRotation3D", A::transformFromRotation3D(r3), T0, an, 0);
  small::eqT(c, "transformFrom3DRotation", A::transformFrom3DRotation(w[0], w[1], w[2]), T0, an, 0);
  small::eqT(c, "Transform::from3DRotation", A::Transform::from3DRotation(w[0], w[1], w[2]), T0, an, 0);
  A::Transform t = A::transformFromPosition6D(p6);
  small::eqT(c, "transformFromPosition6D", t, T, an, 0);
  small::eqT(c, "Transform::fromPosition", A::Transform::fromPosition(p6.x, p6.y, p6.z, w[0], w[1], w[2]), T, an, 0);
  small::eqT(c, "transformFromRotationPosition3D", A::transformFromRotationPosition3D(rot, p6.x, p6.y, p6.z), T, an, 0);
  small::eqT(c, "transformFromRotation", A::transformFromRotation(rot), T0, an, 0);
  A::Transform ip;
  A::transformFromRotationInPlace(rot, ip);
  A::transformFromPosition3DInPlace(toP(p), ip);
  small::eqT(c, "in place", ip, T, an, 0);
  small::eqM(c, "rotationFromTransform", toRef(A::rotationFromTransform(t)), R, an);
  A::Quaternion k = A::quaternionFromRotation3D(r3), k1;
  A::quaternionFromRotation3D(r3, k1);
  for (const A::Quaternion &x : {k, k1}) small::eqQ(c, "quaternion", toRef(x), q, an);
  // the axis comes from a sum of rounded entries, the angle does not
  auto fromMatrix = [&](const char *key, const A::Quaternion &x) {
    eqQrot(c, key, toRef(x), q, 1e-6 * an + 3e-7);
    c.near(key, norm(V3{x.x, x.y, x.z}), norm(V3{q.x, q.y, q.z}), 4e-6 * an);
  };
  fromMatrix("quaternionFromTransform", A::quaternionFromTransform(t));
  small::eqM(c, "rotationFromQuaternion", toRef(A::rotationFromQuaternion(k)), R, an);
  small::eqT(c, "transformFromQuaternion", A::transformFromQuaternion(k), T0, an, 0);
  A::Displacement ds = A::displacementFromTransform(t);
  fromMatrix("displacementFromTransform", ds.Q);
  small::eqV(c, "displacementFromTransform", toRef(ds.P), p, 0);
  small::eqT(c, "transformFromDisplacement", A::transformFromDisplacement(A::Displacement(toP(p), k)), T, an, 0);
  A::Quaternion q2;
  A::Position3D p2(9.f, 9.f, 9.f);
  A::quaternionPosition3DFromPosition6D(p6, q2, p2);
  small::eqQ(c, "quaternionPosition3DFromPosition6D", toRef(q2), q, an);
  small::eqV(c, "quaternionPosition3DFromPosition6D", toRef(p2), p, 0);
  c.step(18);
  A::Position6D b = A::position6DFromTransform(t), b2(7.f);
  A::position6DFromTransformInPlace(t, b2);
  for (const A::Position6D &x : {b, b2}) {
    ::eqV(c, "position6DFromTransform", {x.wx, x.wy, x.wz}, W, 4e-6 * an);
    small::eqV(c, "position6DFromTransform", {x.x, x.y, x.z}, p, 0);
  }
  A::Rotation3D a2(5.f);
  A::rotation3DFromQuaternion(k, a2);
  for (const A::Rotation3D &x : {A::rotation3DFromTransform(t), A::rotation3DFromRotation(rot), A::rotation3DFromQuaternion(k), a2})
    ::eqV(c, "rotation3D", {x.wx, x.wy, x.wz}, W, 4e-6 * an);
  small::eqV(c, "position3DFromTransform", toRef(A::position3DFromTransform(t)), p, 0);
  A::Pose2D o = A::pose2DFromTransform(t), po(p6.x, p6.y, w[2]), z(3.f);
  c.yes("pose2DFromTransform", o.x == p6.x && o.y == p6.y, "the same position");
  c.near("pose2DFromTransform", o.theta, std::atan2(R.m[1][0], R.m[0][0]), 4e-6 * an);
  T3 P2{rotZ(w[2]), {p.x, p.y, 0}};
  double at = std::fabs(w[2]);
  small::eqT(c, "transformFromPose2D", A::transformFromPose2D(po), P2, at, 0);
  c.near("Pose2D round trip", A::pose2DFromTransform(A::transformFromPose2D(po)).theta, w[2], 2e-6 * at);
  int axis = w[1] == 0 && w[2] == 0 ? 1 : w[0] == 0 && w[2] == 0 ? 2 : w[0] == 0 && w[1] == 0 ? 4 : 0;
  if (axis) small::eqT(c, "transformFromRotVec", A::transformFromRotVec(axis, w[axis / 2], toP(p)), T, an, 0);
  // the small motion between two poses of the same large orientation
  A::Transform B = A::Transform::fromPosition(0.f, 0.f, 0.f, 0.3f, -0.7f, 2.f), E = B * t;
  A::Position6D df = A::position6DFromTransformDiff(A::Transform(), t), df2(1.f);
  A::position6DFromTransformDiffInPlace(A::Transform(), t, df2);
  V3 v = 0.5 * V3{R.m[2][1] - R.m[1][2], R.m[0][2] - R.m[2][0], R.m[1][0] - R.m[0][1]};
  for (const A::Position6D &x : {df, df2}) {
    ::eqV(c, "position6DFromTransformDiff", {x.wx, x.wy, x.wz}, v, 4e-6 * an);
    small::eqV(c, "position6DFromTransformDiff", {x.x, x.y, x.z}, p, 0);
  }
  c.step(12);
  c.state(c.root);
}
}  // namespace
void mc::setup() {
  bool t = mc::thorough();
  gx = angleGrid(t ? 36 : 12);
  gy = angleGrid(t ? 48 : 24);
  gz = angleGrid(t ? 36 : 12);
  for (float t : {0.f, 1e-7f, 1e-6f, 1e-5f, 1e-4f, 3e-4f, 1e-3f, 1e-2f, 0.3f, 2.f, 3.f, 3.14f, 3.141f, 3.1415f, 3.14159f, 3.1415927f}) {
    tiny.push_back(t);
    if (t) tiny.push_back(-t);
  }
  mc::family("small", small::NA * small::NA * small::NA * small::NL, smallF, "triples of 8 angles from 1e-12 to 1, 8 lengths from 1e-14 to 1e11, relatively to them");
  mc::family("drifted", 200 * 60, drifted, "12000 rotations conjugating 31 angles about 4 axes, in single precision");
  mc::family("orientations", (uint64_t)gx.size() * gy.size() * gz.size(), orientation,
             "roll x pitch x yaw: regular grid and neighbourhoods (1e-6..3e-2) of 0, pi/4, pi/2, 2pi/3, pi; every conversion path");
  mc::family("relative", (uint64_t)gy.size() * gy.size() * 4, transformDiff, "pairs of poses");
  mc::family("planar", angleGrid(360).size() * 12, planar, "heading grid x turns x positions");
}
