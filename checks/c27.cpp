// C27: the Eigen bridge keeps every component; averages of transforms
#include "conv.h"
#include "small.h"
#include <almath/scenegraph/almatheigen.h>
#include <boost/range/iterator_range.hpp>
#include <array>
#include <deque>
#include <list>
#include <stdexcept>
using namespace ref;
namespace {
// values of a transform: entry i is VALUES[(i * step + k) % n]
const float VALUES[] = {0.f, -0.f, 1.f, -1.f, 0.1f, -2.5f, 1e-30f, 3.4e38f, 1.17549435e-38f, 1e-45f, 7.f, -1234.5678f, 0.3333333f};
const int NV = sizeof VALUES / sizeof *VALUES;
float *first(A::Transform &t) { return &t.r1_c1; }
std::array<float, 12> entries(const A::Transform &t) {
  return {{t.r1_c1, t.r1_c2, t.r1_c3, t.r1_c4, t.r2_c1, t.r2_c2, t.r2_c3, t.r2_c4, t.r3_c1, t.r3_c2, t.r3_c3, t.r3_c4}};
}
bool bits(float a, float b) { return !memcmp(&a, &b, 4); }
template <typename Mat> bool eqMat(const Mat &m, const std::array<float, 12> &e, int cols) {
  if (m.rows() != 3 || m.cols() != cols) return false;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < cols; ++j) if (!bits(m(i, j), e[i * 4 + j])) return false;
  return true;
}
template <typename T> void roundTrip(mc::Ctx &c, const T &m, const std::array<float, 12> &e, const char *what) {
  A::Transform out(9.f, 9.f, 9.f);
  out.r1_c1 = 42.f;
  A::toALMathTransform(m, out);
  A::Transform ret = A::toALMathTransform(m);
  c.step(2);
  std::array<float, 12> a = entries(out), b = entries(ret);
  for (int i = 0; i < 12; ++i) if (!bits(a[i], e[i]) || !bits(b[i], e[i])) c.fail("transform", "entry %d of a transform from %s: %g, %g instead of %g", i, what, a[i], b[i], e[i]);
  c.compared();
}
void components(mc::Ctx &c) {
  mc::Dec d(c.root);
  int k = d(NV), st = 1 + d(NV - 1), kind = d(13);
  A::Transform t;
  float vals[12];
  for (int i = 0; i < 12; ++i) vals[i] = VALUES[(i * st + k) % NV];
  if (kind < 12) { for (int i = 0; i < 12; ++i) vals[i] = i == kind ? VALUES[(k + st) % NV] : VALUES[k]; }
  t.r1_c1 = vals[0]; t.r1_c2 = vals[1]; t.r1_c3 = vals[2]; t.r1_c4 = vals[3];
  t.r2_c1 = vals[4]; t.r2_c2 = vals[5]; t.r2_c3 = vals[6]; t.r2_c4 = vals[7];
  t.r3_c1 = vals[8]; t.r3_c2 = vals[9]; t.r3_c3 = vals[10]; t.r3_c4 = vals[11];
  std::array<float, 12> e = entries(t);
  A::Matrix34f m = A::toEigenMatrix34(t);
  c.step(3);
  c.yes("matrix 3x4", eqMat(m, e, 4), "toEigenMatrix34");
  Eigen::Matrix3f m3 = A::toEigenMatrix3(t);
  c.yes("matrix 3x3", eqMat(m3, e, 3), "toEigenMatrix3");
  Eigen::AffineCompact3f ac = A::toEigenAffineCompact3(t);
  c.yes("affine", eqMat(ac.matrix(), e, 4), "toEigenAffineCompact3");
  roundTrip(c, m, e, "a 3x4 matrix");
  A::Matrix34frm rm = m;
  roundTrip(c, rm, e, "a row-major matrix");
  Eigen::MatrixXf dyn = m;
  roundTrip(c, dyn, e, "a dynamic matrix");
  Eigen::Matrix<float, 4, 3> tr_ = m.transpose();
  roundTrip(c, tr_.transpose(), e, "a transposed expression");
  Eigen::Matrix4f big = Eigen::Matrix4f::Constant(5.f);
  big.block<3, 4>(1, 0) = m;
  roundTrip(c, big.block<3, 4>(1, 0), e, "a block");
  roundTrip(c, ac, e, "an AffineCompact transform");
  Eigen::Affine3f af;
  af.matrix().setConstant(8.f);
  af.matrix().topRows<3>() = m;
  roundTrip(c, af, e, "an Affine transform");
  Eigen::Isometry3f iso;
  iso.matrix().setConstant(8.f);
  iso.matrix().topRows<3>() = m;
  roundTrip(c, iso, e, "an Isometry transform");
  Eigen::Transform<float, 3, Eigen::AffineCompact, Eigen::DontAlign | Eigen::RowMajor> ar;
  ar.matrix() = m;
  roundTrip(c, ar, e, "a row-major transform");
  // positions and velocities
  Eigen::Vector3f v = A::toEigenVector3(A::Position3D(vals[0], vals[1], vals[2]));
  c.yes("position", bits(v[0], vals[0]) && bits(v[1], vals[1]) && bits(v[2], vals[2]), "toEigenVector3");
  auto pos = [&](const A::Position3D &p) { c.yes("position", bits(p.x, vals[0]) && bits(p.y, vals[1]) && bits(p.z, vals[2]), "toALMathPosition3D"); };
  pos(A::toALMathPosition3D(v));
  Eigen::Matrix<float, 6, 1> w;
  for (int i = 0; i < 6; ++i) w[i] = vals[i];
  pos(A::toALMathPosition3D(w.head<3>()));
  auto vel = [&](const A::Velocity6D &u) {
    c.yes("velocity", bits(u.xd, vals[0]) && bits(u.yd, vals[1]) && bits(u.zd, vals[2]) && bits(u.wxd, vals[3]) && bits(u.wyd, vals[4]) && bits(u.wzd, vals[5]), "toALMathVelocity6D");
  };
  vel(A::toALMathVelocity6D(w));
  A::Velocity6D o(1.f, 2.f, 3.f, 4.f, 5.f, 6.f);
  A::toALMathVelocity6D(w, o);
  vel(o);
  Eigen::Matrix<float, 8, 2> ww;
  ww.setConstant(3.f);
  ww.block<6, 1>(1, 1) = w;
  vel(A::toALMathVelocity6D(ww.block<6, 1>(1, 1)));
  A::toALMathVelocity6D(ww.block<6, 1>(1, 1), o);
  vel(o);
  mc::Hash h;
  for (float f : vals) h.u(std::lround(std::min(1e6f, std::max(-1e6f, f * 1000))));
  c.state(h.h);
}
// the quaternion of a small rotation, relatively to it
void smallF(mc::Ctx &c) {
  mc::Dec d(c.root);
  small::Pose p = small::pose(d(small::NPOSES));
  Eigen::Quaternionf f = A::toEigenQuaternion<float>(p.t);
  double a = small::ANG[c.root % small::NA];
  int ax = c.root / small::NA % 4;
  Q w = quatAA(a, ax == 0 ? V3{1, 0, 0} : ax == 1 ? V3{0, 1, 0} : ax == 2 ? V3{0, 0, 1} : V3{1. / 3, -2. / 3, 2. / 3});
  c.step(2);
  small::eqQ(c, "quaternion", {f.w(), f.x(), f.y(), f.z()}, w, p.ang);
  c.state(c.root);
}
// means of small motions, relatively to them
void averageScales(mc::Ctx &c) {
  mc::Dec d(c.root);
  const small::Pose p[2] = {small::pose(d(small::NPOSES)), small::pose(d(small::NPOSES))};
  double an = std::max(p[0].ang, p[1].ang), l = p[0].len + p[1].len;
  if (an > 0.5) c.skip();
  for (int n = 2; n <= 3; ++n) {  // the second one once or twice
    std::vector<A::Transform> v = {p[0].t, p[1].t};
    if (n == 3) v.push_back(p[1].t);
    T3 g = toRef(A::averageTransforms(v));
    auto vee = [](const M3 &m) { return 0.5 * V3{m.m[2][1] - m.m[1][2], m.m[0][2] - m.m[2][0], m.m[1][0] - m.m[0][1]}; };
    double w = 1.0 / n;
    c.step();
    ::eqV(c, "mean of small rotations", vee(g.R), w * vee(p[0].r.R) + (1 - w) * vee(p[1].r.R), 4e-6 * an + an * an);
    ::eqM(c, "mean of small rotations", g.R, M3(), 1.01 * an + 1e-6);
    ::eqV(c, "mean of positions", g.p, w * p[0].r.p + (1 - w) * p[1].r.p, 1e-6 * l);
  }
  c.state(c.root);
}
std::vector<float> ang;
std::vector<V3> dirs;
void quaternions(mc::Ctx &c) {
  mc::Dec d(c.root);
  M3 R = axisAngle(ang[d(ang.size())], dirs[d(dirs.size())]);
  A::Transform t = toT({R, {3, -2, 7}});
  Eigen::Quaternionf q = A::toEigenQuaternion<float>(t);
  c.step();
  Q r{q.w(), q.x(), q.y(), q.z()};
  c.near("unit quaternion", norm(r), 1, 2e-6);
  c.near("quaternion", dist(mat(r), toRef(t).R), 0, 3e-6);
  c.state(mc::Hash().q(r.w).q(r.x).q(r.y).q(r.z).h);
}
std::vector<T3> pool;
template <typename C> T3 avg(const C &v) { return toRef(A::averageTransforms(v)); }
void average(mc::Ctx &c, int n) {
  mc::Dec d(c.root);
  std::vector<A::Transform> v;
  int container = 0;
  for (int i = 0; i < n; ++i) v.push_back(toT(pool[i < 2 ? d(pool.size()) : c.pick(pool.size())]));
  // reference: mean position, and the normalized sum of the quaternions, each
  // on the side of the first one
  V3 p{0, 0, 0};
  std::vector<Q> qs;
  for (auto &t : v) {
    Eigen::Matrix3d m;
    M3 R = toRef(t).R;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = R.m[i][j];
    Eigen::Quaterniond e(m);
    qs.push_back(Q{e.w(), e.x(), e.y(), e.z()});
    p = p + (1.0 / n) * toRef(t).p;
  }
  std::vector<std::vector<double>> sums{{0, 0, 0, 0}};
  for (auto &q : qs) {
    double dt = q.w * qs[0].w + q.x * qs[0].x + q.y * qs[0].y + q.z * qs[0].z;
    std::vector<std::vector<double>> next;
    for (auto &s : sums)
      for (int sg = -1; sg <= 1; sg += 2)
        if (sg * dt > -1e-5) next.push_back({s[0] + sg * q.w, s[1] + sg * q.x, s[2] + sg * q.y, s[3] + sg * q.z});
    sums = next;
  }
  auto check = [&](const T3 &a, const char *what) {
    c.step();
    c.log("%s: %s", what, str(a.R).c_str());
    double best = 1e9;
    for (auto &s : sums) {
      double nn = std::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2] + s[3] * s[3]);
      best = std::min(best, dist(mat(Q{s[0] / nn, s[1] / nn, s[2] / nn, s[3] / nn}), a.R));
    }
    c.near("rotation", best, 0, 1e-5);
    for (int i = 0; i < 3; ++i) c.near("position", a.p[i], p[i], 1e-6 * (1 + std::fabs(p[i])) * 10);
  };
  check(avg(v), "vector");
  check(avg(std::deque<A::Transform>(v.begin(), v.end())), "deque");
  if (n == 2) {
    check(avg(std::array<A::Transform, 2>{{v[0], v[1]}}), "array");
    A::Transform raw[2] = {v[0], v[1]};
    check(avg(raw), "C array");
    check(avg(boost::make_iterator_range(v.begin(), v.end())), "range");
  }
  if (n == 1) {
    T3 a = avg(v);
    c.near("single", dist(a.R, toRef(v[0]).R), 0, 3e-6);
    c.near("single", norm(a.p - toRef(v[0]).p), 0, 0);
    bool th = false;
    try { avg(std::vector<A::Transform>()); } catch (const std::runtime_error &) { th = true; }
    c.yes("empty", th, "an empty range is refused");
  }
  mc::Hash h;
  for (auto &q : qs) h.q(q.w).q(q.x).q(q.y).q(q.z);
  c.state(h.q(p.x).q(p.y).h);
}
// many transforms: equal ones, spread ones, one outlier at every place
void averageMany(mc::Ctx &c, int nmax) {
  mc::Dec d(c.root);
  int n = 4 + (int)d(nmax - 3), k = d(pool.size()), kind = d(3), at = c.pick(n);
  std::vector<A::Transform> v;
  for (int i = 0; i < n; ++i) {
    T3 t = pool[k];
    t.R = t.R * axisAngle(kind == 0 ? 0 : 0.2 * std::sin(1.7 * i), dirs[(i * 5) % dirs.size()]);
    t.p = t.p + V3{0.01 * i, -0.5 * (i % 3), 2.0 * (i == at)};
    if (i == at) t.R = t.R * axisAngle(kind == 2 ? 2.5 : 1.0, dirs[(k + i) % dirs.size()]);
    v.push_back(toT(t));
  }
  V3 p{0, 0, 0};
  double s[4] = {0, 0, 0, 0}, f[4] = {0, 0, 0, 0};
  for (int i = 0; i < n; ++i) {
    Eigen::Matrix3d m;
    M3 R = toRef(v[i]).R;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) m(a, b) = R.m[a][b];
    Eigen::Quaterniond e(m);
    double q[4] = {e.w(), e.x(), e.y(), e.z()};
    if (i == 0) std::copy(q, q + 4, f);
    double dt = 0;
    for (int a = 0; a < 4; ++a) dt += q[a] * f[a];
    if (std::fabs(dt) < 1e-4) c.skip();
    for (int a = 0; a < 4; ++a) s[a] += dt < 0 ? -q[a] : q[a];
    p = p + (1.0 / n) * toRef(v[i]).p;
  }
  double nn = std::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2] + s[3] * s[3]);
  if (nn < 0.1 * n) c.skip();
  M3 want = mat(Q{s[0] / nn, s[1] / nn, s[2] / nn, s[3] / nn});
  auto check = [&](const T3 &a) {
    c.step();
    c.near("rotation", dist(want, a.R), 0, 2e-5);
    for (int i = 0; i < 3; ++i) c.near("position", a.p[i], p[i], 3e-5 * (1 + std::fabs(p[i])));
  };
  c.log("%d transforms, outlier %d at %d", n, kind, at);
  check(avg(v));
  check(avg(std::list<A::Transform>(v.begin(), v.end())));
  c.state(mc::Hash().q(want.m[0][0]).q(want.m[1][0]).q(want.m[2][1]).q(p.x).h);
}
}
void mc::setup() {
  bool th = mc::thorough();
  ang = angleGrid(th ? 720 : 72);
  dirs = dirGrid();
  mc::family("components", NV * (NV - 1) * 13, components, "13 values in each of 12 entries over 12 backgrounds, 10 kinds of Eigen operands");
  mc::family("small", small::NPOSES, smallF, "8 angles from 1e-12 to 1 about 4 axes, relatively to them");
  mc::family("average-scales", small::NPOSES * small::NPOSES, averageScales, "pairs of transforms of 7 angles from 1e-12 to 1e-3 and 8 lengths from 1e-14 to 1e11, relatively to them");
  mc::family("quaternions", ang.size() * dirs.size(), quaternions, "angle grid x 35 axes");
  const V3 P[] = {{0, 0, 0}, {1, 2, 3}, {-0.5, 100, 1e-3}};
  const float an[] = {0.f, 0.3f, -1.2f, (float)(PI / 2), 2.f, 3.f, 3.1415f, (float)PI};
  int k = 0;
  for (float a : an)
    for (size_t i = 0; i < dirs.size(); i += th ? 2 : 4) pool.push_back({axisAngle(a, dirs[i]), P[k++ % 3]});
  std::string R = std::to_string(pool.size()) + " transforms";
  mc::family("average-1", pool.size(), [](mc::Ctx &c) { average(c, 1); }, "each of " + R);
  mc::family("average-2", pool.size() * pool.size(), [](mc::Ctx &c) { average(c, 2); }, "all pairs of " + R);
  int nm = th ? 64 : 20;
  mc::family("average-many", (nm - 3) * pool.size() * 3, [nm](mc::Ctx &c) { averageMany(c, nm); }, "4 to 20 (64) transforms around each of " + R + ", one outlier at every place");
  mc::family("average-3", pool.size() * pool.size(), [](mc::Ctx &c) { average(c, 3); }, "all triples of " + R);
}
