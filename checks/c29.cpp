// C29: qi and ROS conversions
#include "conv.h"
#include "small.h"
#include <qi/geometry/geometry.hpp>
#include <almath/scenegraph/almathqigeometry.hpp>
#include <almath/scenegraph/qirostime.h>
#include <sstream>
using namespace ref;
namespace G = qi::geometry;
namespace {
// ---- time
typedef __int128 W;
void time_(mc::Ctx &c) {
  mc::Dec d(c.root);
  const int64_t MAX = 4294967295ll * 1000000000ll + 999999999ll;
  const int64_t BASE[] = {0, 1, 999999999, 1000000000, 1000000001, MAX, MAX - 999999999, INT64_MAX, INT64_MIN, -1, -1000000000, INT64_MAX / 2, 4294967296ll, 2147483647ll * 1000000000ll, 2147483648ll * 1000000000ll, 9999999999ll};
  int64_t t;
  int mode = d(2);
  int a = d(64), b = d(64);
  if (mode) t = (int64_t)((1ull << a) ^ (1ull << b));
  else {
    if (a >= 16) c.skip();
    W s = (W)BASE[a] + (b - 32) * (b % 2 ? 1 : 500000000ll);
    if (s > INT64_MAX || s < INT64_MIN) c.skip();
    t = (int64_t)s;
  }
  for (int off = -2; off <= 2; ++off) {
    if ((off > 0 && t > INT64_MAX - off) || (off < 0 && t < INT64_MIN - off)) continue;
    int64_t x = t + off;
    ros::Time r = AL::Math::toValidRosTime(qi::Duration(x));
    c.step();
    W w = x < 1 ? 1 : x > MAX ? MAX : x;
    if ((W)r.sec * 1000000000 + r.nsec != w || r.nsec > 999999999) c.fail("time", "%lld ns gives %u s %u ns", (long long)x, r.sec, r.nsec);
    c.compared();
    qi::Duration back = AL::Math::toQiDuration(r);
    c.step();
    c.yes("duration", back.count() == (int64_t)w, "the duration of a valid time is exact");
  }
  c.state((uint64_t)t);
}
// ---- geometry
std::vector<float> ang;
std::vector<V3> dirs;
std::vector<T3> pool;
Q toQ(const G::Quaternion &q) { return {q.w, q.x, q.y, q.z}; }
T3 toRef(const G::Transform &t) { return {mat(toQ(t.rotation)), {t.translation.x, t.translation.y, t.translation.z}}; }
G::Transform toG(double a, V3 u, V3 p) { return G::makeTransform(G::makeQuaternionFromAngleAxis(a, G::makeVector3(u.x, u.y, u.z)), G::makeVector3(p.x, p.y, p.z)); }
std::vector<G::Transform> gs;
void unit(mc::Ctx &c, const G::Quaternion &q) {
  c.near("unit", norm(toQ(q)), 1, 1e-9);
}
void quaternions(mc::Ctx &c) {
  mc::Dec d(c.root);
  double a = ang[d(ang.size())];
  V3 u = dirs[d(dirs.size())];
  const double S[] = {1, 5, 0.01};
  double s = S[d(3)];
  G::Quaternion q = G::makeQuaternionFromAngleAxis(a, G::makeVector3(s * u.x, s * u.y, s * u.z));
  c.step();
  c.near("angle axis", dist(mat(toQ(q)), axisAngle(a, u)), 0, 1e-12);
  c.near("norm", G::norm(q), 1, 1e-12);
  G::Quaternion k = G::makeQuaternion(q.x * s, q.y * s, q.z * s, q.w * s), n = G::normalized(k);
  c.step(2);
  c.yes("made", k.x == q.x * s && k.w == q.w * s && k.y == q.y * s && k.z == q.z * s, "makeQuaternion keeps its components");
  c.near("norm", G::norm(k), s, 1e-12);
  c.near("normalized", std::fabs(n.x - q.x) + std::fabs(n.y - q.y) + std::fabs(n.z - q.z) + std::fabs(n.w - q.w), 0, 1e-12);
  G::normalize(k);
  c.yes("normalized", k.x == n.x && k.y == n.y && k.z == n.z && k.w == n.w, "normalize and normalized agree");
  for (double e : {1e-9, 1e-3, 0.1, 3.0})
    for (double f : {1.0, 1 + 0.9 * e, 1 + 1.1 * e, 1 - 0.9 * e, 1 - 1.1 * e}) {
      G::Quaternion w{q.x * f, q.y * f, q.z * f, q.w * f};
      c.step();
      c.yes("normalized", G::isNormalized(w, e) == (std::fabs(std::fabs(f) - 1) < e), "isNormalized");
    }
  c.state(mc::Hash().q(q.x).q(q.y).q(q.z).q(q.w).u(c.root % 3).h);
}
void pairs(mc::Ctx &c) {
  mc::Dec d(c.root);
  const G::Transform &a = gs[d(gs.size())], &b = gs[d(gs.size())];
  T3 ra = toRef(a), rb = toRef(b);
  G::Transform m = a * b;
  c.step();
  unit(c, m.rotation);
  c.near("product", dist(toRef(m), ra * rb), 0, 1e-10);
  G::Transform x = a;
  x = x * x;
  c.near("square", dist(toRef(x), ra * ra), 0, 1e-10);
  G::Transform i = G::inverse(a);
  c.step(2);
  unit(c, i.rotation);
  c.near("inverse", dist(toRef(i), inv(ra)), 0, 1e-10);
  c.near("inverse", dist(toRef(i * a), T3()), 0, 1e-9);
  c.yes("near", G::isNear(a, a, 1e-9) && G::isNear(i * (a * b), b, 1e-6), "a transform is near itself");
  c.step(2);
  G::Transform n = a;
  n.rotation = {-a.rotation.x, -a.rotation.y, -a.rotation.z, -a.rotation.w};
  c.yes("near", G::isNear(a, n, 1e-9), "opposite quaternions are the same rotation");
  double dd = dist(ra, rb);
  if (dd > 0.2 && norm(ra.p) < 4) c.yes("near", !G::isNear(a, b, 1e-2) && !G::isNear(b, a, 1e-2), "different transforms are not near");
  Eigen::Affine3d e = G::toEigenAffine3d(a);
  T3 re;
  for (int r = 0; r < 3; ++r) { for (int k = 0; k < 3; ++k) re.R.m[r][k] = e.linear()(r, k); re.p[r] = e.translation()(r); }
  c.near("affine", dist(re, ra), 0, 1e-12);
  c.state(mc::Hash().q(toRef(m).p.x).q(toRef(m).p.y).q(toRef(m).R.m[0][1]).q(toRef(m).R.m[1][2]).q(ra.p.x).h);
}
void bridge(mc::Ctx &c) {
  mc::Dec d(c.root);
  double a = ang[d(ang.size())];
  V3 u = dirs[d(dirs.size())];
  const V3 P[] = {{0, 0, 0}, {1.5, -2.25, 3}, {-0.125, 100, 0.0009765625}};
  V3 p = P[d(3)];
  G::Transform g = toG(a, u, p);
  A::Transform t = AL::Math::transformFromQiTransform(g);
  c.step();
  c.near("from qi", dist(::toRef(t), toRef(g)), 0, 3e-6);
  c.near("from qi", norm(::toRef(t).p - p), 0, 0);
  G::Transform back = AL::Math::qiTransformFromALMath(t);
  c.step();
  c.near("to qi", dist(toRef(back), ::toRef(t)), 0, 3e-6);
  c.near("to qi", std::fabs(back.translation.x - p.x) + std::fabs(back.translation.y - p.y) + std::fabs(back.translation.z - p.z), 0, 0);
  c.near("unit", norm(toQ(back.rotation)), 1, 3e-6);
  A::Pose2D pose(p.x, p.y, a);
  G::Transform h = AL::Math::qiTransformFromPose2D(pose);
  c.step();
  c.near("from pose", dist(toRef(h), T3{rotZ(a), {p.x, p.y, 0}}), 0, 2e-6);
  A::Pose2D q = AL::Math::pose2DFromQiTransform(h);
  c.step();
  c.near("to pose", std::fabs(q.x - pose.x) + std::fabs(q.y - pose.y), 0, 0);
  c.near("to pose", std::fabs(wrap(q.theta - pose.theta)), 0, 3e-6);
  c.state(mc::Hash().q(a).q(u.x).q(u.y).q(u.z).q(p.x).h);
}
// pairs of transforms of every scale, relatively to it
void scalesF(mc::Ctx &c) {
  mc::Dec d(c.root);
  const double u3 = 1. / 3;
  const V3 U[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {u3, -2 * u3, 2 * u3}};
  auto at = [&](int i, double &an, double &l, T3 &r) {
    double a = small::ANG[i % small::NA], k = small::LEN[i / small::NA / 4 % small::NL];
    V3 u = U[i / small::NA % 4], p = i / small::NA / 4 / small::NL ? V3{0, k, 0} : V3{k, -0.5 * k, 0.75 * k};
    an = std::fabs(a), l = norm(p), r = {axisAngle(a, u), p};
    return toG(a, u, p);
  };
  auto eqR = [&](const char *key, const T3 &g, const T3 &w, double an, double l, double tol) {
    c.compared(12);
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j)
        if (!(std::fabs(g.R.m[i][j] - w.R.m[i][j]) <= tol * (i == j ? 1 : std::min(an, 1.0)) + 1e-15)) c.fail(key, "entry %d,%d is %.15g, expected %.15g", i, j, g.R.m[i][j], w.R.m[i][j]);
      if (!(std::fabs(g.p[i] - w.p[i]) <= tol * l)) c.fail(key, "translation %d is %.15g, expected %.15g", i, g.p[i], w.p[i]);
    }
  };
  double an, l;
  T3 r;
  int i = d(small::NPOSES);
  G::Transform a = at(i, an, l, r);
  eqR("made", toRef(a), r, an, l, 1e-12);
  eqR("inverse", toRef(G::inverse(a)), inv(r), an, l, 1e-12);
  Eigen::Affine3d e = G::toEigenAffine3d(a);
  T3 re;
  for (int x = 0; x < 3; ++x) { for (int k = 0; k < 3; ++k) re.R.m[x][k] = e.linear()(x, k); re.p[x] = e.translation()(x); }
  eqR("affine", re, r, an, l, 1e-12);
  A::Transform t = AL::Math::transformFromQiTransform(a);
  eqR("from qi", ::toRef(t), r, an, l, 1e-6);
  eqR("to qi", toRef(AL::Math::qiTransformFromALMath(t)), ::toRef(t), an, l, 2e-6);
  double th = small::ANG[i % small::NA];
  A::Pose2D pose(r.p.x, r.p.y, th);
  G::Transform h = AL::Math::qiTransformFromPose2D(pose);
  eqR("from pose", toRef(h), T3{rotZ(pose.theta), {pose.x, pose.y, 0}}, an, l, 1e-6);
  A::Pose2D back = AL::Math::pose2DFromQiTransform(h);
  c.yes("to pose", back.x == pose.x && back.y == pose.y, "the same position");
  c.near("to pose", back.theta, pose.theta, 2e-6 * an);
  c.step(8);
  for (int k = 0; k < small::NPOSES; ++k) {
    double bn, m;
    T3 s;
    G::Transform b = at(k, bn, m, s);
    eqR("product", toRef(a * b), r * s, std::max(an, bn), l + m, 1e-12);
    c.step();
  }
  c.state(c.root);
}
void printing(mc::Ctx &c) {
  mc::Dec d(c.root);
  const double V[] = {0, 1, -2.5, 1e-9, 12345678.25};
  double v[7];
  int k = d(5), s = d(5);
  for (int i = 0; i < 7; ++i) v[i] = V[(k + i * s) % 5] + (i == (int)(c.root % 7) ? 3 : 0);
  G::Transform t = G::makeTransform(G::makeQuaternion(v[0], v[1], v[2], v[3]), G::makeVector3(v[4], v[5], v[6]));
  std::ostringstream o, q, w;
  o.precision(17), q.precision(17), w.precision(17);
  o << t;
  q << t.rotation;
  w << t.translation;
  c.step(3);
  auto nums = [](std::string x) {
    std::vector<double> r;
    for (size_t i = 0; i < x.size();) {
      char *e;
      if (isdigit((unsigned char)x[i]) && isalpha((unsigned char)x[i ? i - 1 : 0])) { ++i; continue; }
      if (isdigit((unsigned char)x[i]) || x[i] == '-') { r.push_back(strtod(x.c_str() + i, &e)); i = e - x.c_str(); } else ++i;
    }
    return r;
  };
  c.yes("printed", nums(o.str()) == std::vector<double>(v, v + 7), "a transform is printed in order");
  c.yes("printed", nums(q.str()) == std::vector<double>(v, v + 4), "a quaternion is printed in order");
  c.yes("printed", nums(w.str()) == std::vector<double>(v + 4, v + 7), "a vector is printed in order");
  c.state(c.root);
}
}
void mc::setup() {
  bool th = mc::thorough();
  ang = angleGrid(th ? 720 : 72);
  dirs = dirGrid();
  const V3 P[] = {{0, 0, 0}, {1, 2, 3}, {-0.5, 0, 1e-3}, {0, -2, 0.25}};
  const double an[] = {0, 0.3, -1.2, PI / 2, 2, 3, PI, -2.7};
  int k = 0;
  for (double a : an) for (size_t i = 0; i < dirs.size(); i += th ? 1 : 2) gs.push_back(toG(a, dirs[i], P[k++ % 4]));
  mc::family("time", 2 * 64 * 64, time_, "all sums of two powers of two and 64 offsets of 16 bounds, +-2 ns");
  mc::family("quaternions", ang.size() * dirs.size() * 3, quaternions, "angle grid x 35 axes x 3 scales");
  mc::family("products", gs.size() * gs.size(), pairs, "all pairs of " + std::to_string(gs.size()) + " transforms");
  mc::family("bridge", ang.size() * dirs.size() * 3, bridge, "angle grid x 35 axes x 3 translations");
  mc::family("scales", small::NPOSES, scalesF, "all pairs of 512 transforms of 8 angles from 1e-12 to 1 and 8 lengths from 1e-14 to 1e11, relatively to them");
  mc::family("printing", 25 * 7, printing, "combinations of 5 values");
}
