// rotations and translations of every scale, and comparisons relative to it:
// an error of a millionth of a radian is invisible next to a tolerance chosen
// for ordinary poses, but not next to a rotation of a millionth of a radian
#pragma once
#include "conv.h"
namespace small {
const double ANG[] = {0, 1e-12, -1e-7, 1e-6, -1e-5, 1e-4, -1e-3, 1};
const double LEN[] = {0, 1e-14, -1e-9, 1e-6, -1e-4, 1, -1e5, 1e11};
const int NA = 8, NL = 8;
inline ref::M3 rot(double a, int axis) {
  return axis == 0 ? ref::rotX(a) : axis == 1 ? ref::rotY(a) : axis == 2 ? ref::rotZ(a) : ref::axisAngle(a, {1. / 3, -2. / 3, 2. / 3});
}
struct Pose {
  A::Transform t;
  ref::T3 r;
  double ang, len;
};
// every angle about 4 axes x every length along 2 directions
const int NPOSES = NA * 4 * NL * 2;
inline Pose pose(int i) {
  Pose p;
  double a = ANG[i % NA], l = LEN[i / NA / 4 % NL];
  p.r.R = rot(a, i / NA % 4);
  p.r.p = i / NA / 4 / NL ? ref::V3{0, l, 0} : ref::V3{l, -0.5 * l, 0.75 * l};
  p.t = toT(p.r);
  p.r = toRef(p.t);
  p.ang = std::fabs(a);
  p.len = ref::norm(p.r.p);
  return p;
}
// off the diagonal, entries are compared relatively to the angle
inline void eqM(mc::Ctx &c, const char *key, const ref::M3 &got, const ref::M3 &want, double ang) {
  c.compared(9);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double tol = i == j ? 1e-6 : 2e-6 * std::min(ang, 1.0);
      if (!(std::fabs(got.m[i][j] - want.m[i][j]) <= tol)) {
        c.fail(key, "entry %d,%d is %.9g, expected %.9g within %.2g", i, j, got.m[i][j], want.m[i][j], tol);
        return;
      }
    }
}
inline void eqV(mc::Ctx &c, const char *key, const ref::V3 &got, const ref::V3 &want, double len) { ::eqV(c, key, got, want, 2e-6 * len); }
inline void eqT(mc::Ctx &c, const char *key, const A::Transform &got, const ref::T3 &want, double ang, double len) {
  ref::T3 g = toRef(got);
  eqM(c, key, g.R, want.R, ang);
  eqV(c, key, g.p, want.p, len);
}
// the vector part relatively to the angle, up to the sign of the quaternion
inline void eqQ(mc::Ctx &c, const char *key, ref::Q got, const ref::Q &want, double ang) {
  if (got.w * want.w + got.x * want.x + got.y * want.y + got.z * want.z < 0) got = {-got.w, -got.x, -got.y, -got.z};
  c.near(key, got.w, want.w, 1e-6);
  double t = 2e-6 * std::min(ang, 1.0);
  c.near(key, got.x, want.x, t);
  c.near(key, got.y, want.y, t);
  c.near(key, got.z, want.z, t);
}
}  // namespace small
