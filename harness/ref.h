// Reference geometry in double precision, written from the mathematics only.
#pragma once
#include <cmath>
#include <algorithm>
#include <vector>

namespace ref {
const double PI = 3.14159265358979323846;
struct V3 {
  double x = 0, y = 0, z = 0;
  double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
  double &operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }

struct M3 {
  double m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
};
inline M3 operator*(const M3 &a, const M3 &b) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      r.m[i][j] = 0;
      for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j];
    }
  return r;
}
inline V3 operator*(const M3 &a, V3 v) {
  V3 r;
  for (int i = 0; i < 3; ++i)
    r[i] = a.m[i][0] * v.x + a.m[i][1] * v.y + a.m[i][2] * v.z;
  return r;
}
inline M3 tr(const M3 &a) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i];
  return r;
}
inline double det(const M3 &a) {
  return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) -
         a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) +
         a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]);
}
inline M3 rotX(double t) {
  M3 r;
  r.m[1][1] = r.m[2][2] = std::cos(t);
  r.m[2][1] = std::sin(t);
  r.m[1][2] = -r.m[2][1];
  return r;
}
inline M3 rotY(double t) {
  M3 r;
  r.m[0][0] = r.m[2][2] = std::cos(t);
  r.m[0][2] = std::sin(t);
  r.m[2][0] = -r.m[0][2];
  return r;
}
inline M3 rotZ(double t) {
  M3 r;
  r.m[0][0] = r.m[1][1] = std::cos(t);
  r.m[1][0] = std::sin(t);
  r.m[0][1] = -r.m[1][0];
  return r;
}
// rotation of angle t about the (not necessarily unit) axis u: Rodrigues
inline M3 axisAngle(double t, V3 u) {
  double n = norm(u);
  M3 r;
  if (n == 0) return r;
  u = (1 / n) * u;
  double h = std::sin(t / 2), c = std::cos(t), s = std::sin(t), v = 2 * h * h;
  double a[3] = {u.x, u.y, u.z};
  double K[3][3] = {{0, -u.z, u.y}, {u.z, 0, -u.x}, {-u.y, u.x, 0}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r.m[i][j] = (i == j ? c : 0) + v * a[i] * a[j] + s * K[i][j];
  return r;
}
inline M3 rpy(double wx, double wy, double wz) {
  return rotZ(wz) * rotY(wy) * rotX(wx);
}
inline double dist(const M3 &a, const M3 &b) {
  double d = 0;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double e = std::fabs(a.m[i][j] - b.m[i][j]);
      if (!(e <= d)) d = e;  // NaN propagates
    }
  return d;
}
// rotation angle in [0, pi] of a rotation matrix (accurate everywhere)
inline double angleOf(const M3 &a) {
  double s = 0.5 * std::sqrt(std::pow(a.m[2][1] - a.m[1][2], 2) +
                             std::pow(a.m[0][2] - a.m[2][0], 2) +
                             std::pow(a.m[1][0] - a.m[0][1], 2));
  double c = 0.5 * (a.m[0][0] + a.m[1][1] + a.m[2][2] - 1);
  return std::atan2(s, c);
}
struct T3 {
  M3 R;
  V3 p;
};
inline T3 operator*(const T3 &a, const T3 &b) {
  return {a.R * b.R, a.R * b.p + a.p};
}
inline T3 inv(const T3 &a) {
  M3 t = tr(a.R);
  return {t, -1.0 * (t * a.p)};
}
inline V3 operator*(const T3 &a, V3 v) { return a.R * v + a.p; }
inline double dist(const T3 &a, const T3 &b) {
  double d = dist(a.R, b.R);
  for (int i = 0; i < 3; ++i) {
    double e = std::fabs(a.p[i] - b.p[i]);
    if (!(e <= d)) d = e;
  }
  return d;
}
struct Q {
  double w = 1, x = 0, y = 0, z = 0;
};
inline Q operator*(Q a, Q b) {
  return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z,
          a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
          a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
          a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
inline Q conj(Q a) { return {a.w, -a.x, -a.y, -a.z}; }
inline double norm(Q a) {
  return std::sqrt(a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z);
}
inline M3 mat(Q q) {
  double n = norm(q);
  q = {q.w / n, q.x / n, q.y / n, q.z / n};
  M3 r;
  r.m[0][0] = 1 - 2 * (q.y * q.y + q.z * q.z);
  r.m[0][1] = 2 * (q.x * q.y - q.w * q.z);
  r.m[0][2] = 2 * (q.x * q.z + q.w * q.y);
  r.m[1][0] = 2 * (q.x * q.y + q.w * q.z);
  r.m[1][1] = 1 - 2 * (q.x * q.x + q.z * q.z);
  r.m[1][2] = 2 * (q.y * q.z - q.w * q.x);
  r.m[2][0] = 2 * (q.x * q.z - q.w * q.y);
  r.m[2][1] = 2 * (q.y * q.z + q.w * q.x);
  r.m[2][2] = 1 - 2 * (q.x * q.x + q.y * q.y);
  return r;
}
inline Q quatAA(double t, V3 u) {
  double n = norm(u), s = std::sin(t / 2) / n;
  return {std::cos(t / 2), s * u.x, s * u.y, s * u.z};
}
inline double wrap(double a) {  // ]-pi, pi]
  a = std::fmod(a, 2 * PI);
  if (a > PI) a -= 2 * PI;
  if (a <= -PI) a += 2 * PI;
  return a;
}
struct P2 {
  double x = 0, y = 0, t = 0;
};
inline P2 operator*(P2 a, P2 b) {
  return {a.x + std::cos(a.t) * b.x - std::sin(a.t) * b.y,
          a.y + std::sin(a.t) * b.x + std::cos(a.t) * b.y, a.t + b.t};
}
inline P2 inv(P2 a) {
  return {-(std::cos(a.t) * a.x + std::sin(a.t) * a.y),
          std::sin(a.t) * a.x - std::cos(a.t) * a.y, -a.t};
}
}  // namespace ref
