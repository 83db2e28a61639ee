// conversions between the library's types and the reference, and the grids
// shared by several checks
#pragma once
#include "mc.h"
#include "ref.h"
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/tools/almathio.h>
#include <almath/tools/altrigonometry.h>
#include <memory>

namespace A = AL::Math;

inline ref::T3 toRef(const A::Transform &t) {
  ref::T3 r;
  double m[3][4] = {{t.r1_c1, t.r1_c2, t.r1_c3, t.r1_c4},
                    {t.r2_c1, t.r2_c2, t.r2_c3, t.r2_c4},
                    {t.r3_c1, t.r3_c2, t.r3_c3, t.r3_c4}};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) r.R.m[i][j] = m[i][j];
    r.p[i] = m[i][3];
  }
  return r;
}
inline ref::M3 toRef(const A::Rotation &t) {
  ref::M3 r;
  double m[3][3] = {{t.r1_c1, t.r1_c2, t.r1_c3},
                    {t.r2_c1, t.r2_c2, t.r2_c3},
                    {t.r3_c1, t.r3_c2, t.r3_c3}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = m[i][j];
  return r;
}
inline ref::V3 toRef(const A::Position3D &p) { return {p.x, p.y, p.z}; }
inline ref::V3 toRef(const A::Velocity3D &p) { return {p.xd, p.yd, p.zd}; }
inline ref::Q toRef(const A::Quaternion &q) { return {q.w, q.x, q.y, q.z}; }
inline ref::P2 toRef(const A::Pose2D &p) { return {p.x, p.y, p.theta}; }

inline A::Transform toT(const ref::T3 &r) {
  A::Transform t;
  t.r1_c1 = r.R.m[0][0];
  t.r1_c2 = r.R.m[0][1];
  t.r1_c3 = r.R.m[0][2];
  t.r2_c1 = r.R.m[1][0];
  t.r2_c2 = r.R.m[1][1];
  t.r2_c3 = r.R.m[1][2];
  t.r3_c1 = r.R.m[2][0];
  t.r3_c2 = r.R.m[2][1];
  t.r3_c3 = r.R.m[2][2];
  t.r1_c4 = r.p.x;
  t.r2_c4 = r.p.y;
  t.r3_c4 = r.p.z;
  return t;
}
inline A::Rotation toR(const ref::M3 &r) {
  A::Rotation t;
  t.r1_c1 = r.m[0][0];
  t.r1_c2 = r.m[0][1];
  t.r1_c3 = r.m[0][2];
  t.r2_c1 = r.m[1][0];
  t.r2_c2 = r.m[1][1];
  t.r2_c3 = r.m[1][2];
  t.r3_c1 = r.m[2][0];
  t.r3_c2 = r.m[2][1];
  t.r3_c3 = r.m[2][2];
  return t;
}
inline std::string str(const A::Transform &t) {
  char b[400];
  snprintf(b, sizeof b, "[%.7g %.7g %.7g %.7g; %.7g %.7g %.7g %.7g; %.7g %.7g %.7g %.7g]",
           t.r1_c1, t.r1_c2, t.r1_c3, t.r1_c4, t.r2_c1, t.r2_c2, t.r2_c3,
           t.r2_c4, t.r3_c1, t.r3_c2, t.r3_c3, t.r3_c4);
  return b;
}
inline std::string str(const ref::M3 &t) {
  char b[400];
  snprintf(b, sizeof b, "[%.7g %.7g %.7g; %.7g %.7g %.7g; %.7g %.7g %.7g]",
           t.m[0][0], t.m[0][1], t.m[0][2], t.m[1][0], t.m[1][1], t.m[1][2],
           t.m[2][0], t.m[2][1], t.m[2][2]);
  return b;
}
inline std::string str(const ref::V3 &t) {
  char b[200];
  snprintf(b, sizeof b, "(%.7g %.7g %.7g)", t.x, t.y, t.z);
  return b;
}
inline std::string str(const ref::Q &t) {
  char b[200];
  snprintf(b, sizeof b, "(w=%.7g %.7g %.7g %.7g)", t.w, t.x, t.y, t.z);
  return b;
}
inline uint64_t hashOf(const ref::T3 &t, double q = 1e-3) {
  mc::Hash h;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) h.q(t.R.m[i][j], q);
    h.q(t.p[i], q);
  }
  return h.h;
}
inline uint64_t hashOf(const ref::M3 &t, double q = 1e-3) {
  mc::Hash h;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) h.q(t.m[i][j], q);
  return h.h;
}
inline void eqT(mc::Ctx &c, const char *key, const A::Transform &got,
                const ref::T3 &want, double tolR, double tolP) {
  ref::T3 g = toRef(got);
  c.compared(12);
  double d = ref::dist(g.R, want.R);
  double e = ref::norm(g.p - want.p);
  if (!(d <= tolR) || !(e <= tolP))
    c.fail(key, "got %s, expected %s (rotation error %.3g > %.3g or position error %.3g > %.3g)",
           str(got).c_str(), (str(want.R) + str(want.p)).c_str(), d, tolR, e, tolP);
}
inline void eqM(mc::Ctx &c, const char *key, const ref::M3 &got,
                const ref::M3 &want, double tol) {
  c.compared(9);
  double d = ref::dist(got, want);
  if (!(d <= tol))
    c.fail(key, "got %s, expected %s (error %.3g > %.3g)", str(got).c_str(),
           str(want).c_str(), d, tol);
}
inline void eqV(mc::Ctx &c, const char *key, const ref::V3 &got,
                const ref::V3 &want, double tol) {
  c.compared(3);
  double d = ref::norm(got - want);
  if (!(d <= tol))
    c.fail(key, "got %s, expected %s (error %.3g > %.3g)", str(got).c_str(),
           str(want).c_str(), d, tol);
}
inline void eqQ(mc::Ctx &c, const char *key, const ref::Q &a, const ref::Q &b,
                double tol) {
  c.compared(4);
  double d = std::sqrt((a.w - b.w) * (a.w - b.w) + (a.x - b.x) * (a.x - b.x) +
                       (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z));
  if (!(d <= tol))
    c.fail(key, "got %s, expected %s (error %.3g > %.3g)", str(a).c_str(),
           str(b).c_str(), d, tol);
}
// 2 cos(theta/2) ... equality of the rotations that two quaternions represent
inline void eqQrot(mc::Ctx &c, const char *key, const ref::Q &a,
                   const ref::Q &b, double tol) {
  ref::Q m{-a.w, -a.x, -a.y, -a.z};
  auto d = [](ref::Q a, ref::Q b) {
    return std::sqrt((a.w - b.w) * (a.w - b.w) + (a.x - b.x) * (a.x - b.x) +
                     (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z));
  };
  c.compared(4);
  double e = std::min(d(a, b), d(m, b));
  if (!(d(a, b) == d(a, b)) || !(e <= tol))
    c.fail(key, "got %s, expected +/-%s (error %.3g > %.3g)", str(a).c_str(),
           str(b).c_str(), e, tol);
}

// angles around every threshold that trigonometric code likes to have, plus a
// regular grid of `n` points over a full turn
inline std::vector<float> angleGrid(int n, bool specials = true) {
  std::vector<float> v;
  for (int i = 0; i < n; ++i)
    v.push_back((float)(-ref::PI + 2 * ref::PI * i / n));
  if (specials) {
    const double base[] = {0, ref::PI / 2, ref::PI, ref::PI / 4, 2 * ref::PI / 3};
    const double eps[] = {0, 1e-6, 1e-5, 1e-4, 9e-4, 1.1e-3, 3e-3, 1e-2, 3e-2};
    for (double b : base)
      for (double e : eps)
        for (int s = 0; s < 4; ++s)
          v.push_back((float)((s & 1 ? -1 : 1) * (b + (s & 2 ? -e : e))));
  }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
// directions: all non-zero vectors of {-1..1}^3, a few oblique and nearly
// axis-aligned ones
inline std::vector<ref::V3> dirGrid() {
  std::vector<ref::V3> v;
  for (int x = -1; x <= 1; ++x)
    for (int y = -1; y <= 1; ++y)
      for (int z = -1; z <= 1; ++z)
        if (x || y || z) v.push_back({(double)x, (double)y, (double)z});
  const double o[][3] = {{0.2, -0.5, 0.84}, {-0.9, 0.1, 0.3},  {0.6, 0.6, -0.2},
                         {1e-3, 1, 0},      {0, 1e-4, -1},     {-1, 2e-3, 1e-3},
                         {1e-5, 0, 1},      {0.33, -0.66, 0.01}, {2e-4, 2e-4, 1}};
  for (auto &a : o) v.push_back({a[0], a[1], a[2]});
  return v;
}
inline A::Position3D toP(const ref::V3 &v) {
  return A::Position3D((float)v.x, (float)v.y, (float)v.z);
}
