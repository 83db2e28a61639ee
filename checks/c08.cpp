// C08: positions, velocities, angles: vector space laws, norms, comparisons,
// vector forms; axis masks
#include "conv.h"
#include "compare.h"
#include <almath/types/alaxismask.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/altransformandvelocity6d.h>
#include <cstring>
#include <array>
#include <stdexcept>
#include <type_traits>
namespace {
template <class T> struct N;
template <> struct N<A::Position2D> { enum { n = 2 }; static const char *s() { return "Position2D"; } };
template <> struct N<A::Position3D> { enum { n = 3 }; static const char *s() { return "Position3D"; } };
template <> struct N<A::Position6D> { enum { n = 6 }; static const char *s() { return "Position6D"; } };
template <> struct N<A::Velocity3D> { enum { n = 3 }; static const char *s() { return "Velocity3D"; } };
template <> struct N<A::Velocity6D> { enum { n = 6 }; static const char *s() { return "Velocity6D"; } };
template <> struct N<A::Rotation3D> { enum { n = 3 }; static const char *s() { return "Rotation3D"; } };

float get(const A::Position2D &p, int i) { return i == 0 ? p.x : p.y; }
float get(const A::Position3D &p, int i) { return i == 0 ? p.x : i == 1 ? p.y : p.z; }
float get(const A::Velocity3D &p, int i) { return i == 0 ? p.xd : i == 1 ? p.yd : p.zd; }
float get(const A::Rotation3D &p, int i) { return i == 0 ? p.wx : i == 1 ? p.wy : p.wz; }
float get(const A::Position6D &p, int i) { const float v[] = {p.x, p.y, p.z, p.wx, p.wy, p.wz}; return v[i]; }
float get(const A::Velocity6D &p, int i) { const float v[] = {p.xd, p.yd, p.zd, p.wxd, p.wyd, p.wzd}; return v[i]; }
typedef std::array<double, 6> Arr;
template <class T> T mk(const Arr &a);
template <> A::Position2D mk(const Arr &a) { A::Position2D p; p.x = a[0]; p.y = a[1]; return p; }
template <> A::Position3D mk(const Arr &a) { A::Position3D p; p.x = a[0]; p.y = a[1]; p.z = a[2]; return p; }
template <> A::Velocity3D mk(const Arr &a) { A::Velocity3D p; p.xd = a[0]; p.yd = a[1]; p.zd = a[2]; return p; }
template <> A::Rotation3D mk(const Arr &a) { A::Rotation3D p; p.wx = a[0]; p.wy = a[1]; p.wz = a[2]; return p; }
template <> A::Position6D mk(const Arr &a) { A::Position6D p; p.x = a[0]; p.y = a[1]; p.z = a[2]; p.wx = a[3]; p.wy = a[4]; p.wz = a[5]; return p; }
template <> A::Velocity6D mk(const Arr &a) { A::Velocity6D p; p.xd = a[0]; p.yd = a[1]; p.zd = a[2]; p.wxd = a[3]; p.wyd = a[4]; p.wzd = a[5]; return p; }

template <class T> void eq(mc::Ctx &c, const char *key, const T &g, const Arr &w, double tol) {
  for (int i = 0; i < N<T>::n; ++i) {
    c.compared();
    if (!(std::fabs(get(g, i) - w[i]) <= tol))
      c.fail(key, "%s component %d: got %.8g, expected %.8g (tolerance %.2g)", N<T>::s(), i, get(g, i), w[i], tol);
  }
}
#define DETECT(NAME, EXPR)                                                    \
  template <class T, class = void> struct NAME : std::false_type {};          \
  template <class T> struct NAME<T, std::void_t<decltype(EXPR)>> : std::true_type {};
DETECT(HasNeg, -std::declval<const T &>())
DETECT(HasPlusEq, std::declval<T &>() += std::declval<const T &>())
DETECT(HasNormalize, std::declval<const T &>().normalize())
DETECT(HasFreeNormalize, A::normalize(std::declval<const T &>()))
DETECT(HasDistance, std::declval<const T &>().distance(std::declval<const T &>()))
DETECT(HasWrite, std::declval<const T &>().writeToVector(std::declval<std::vector<float>::iterator &>()))

const Arr V[] = {{0, 0, 0, 0, 0, 0},       {1, 2, 3, 4, 5, 6},          {-1, 0.5, -0.25, 2, -3, 0},
                 {1e-3, -2e-3, 0, 0, 5, 0}, {0, 0, 100, 0, 0, -20},      {0.7, -0.7, 0.1, 1e-2, 0, 0.3},
                 {0, 1, 0, 0, 0, 0},        {-3, 0, 0, 0, 0.5, 0}};
const int NV = 8;
const float K[] = {1.f, -1.f, 2.f, 0.5f, -0.3f, 0.f};
const int NK = 6;

template <class T> void words(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  T t = mk<T>(V[1]);
  Arr r = V[1];
  double mag = 10;
  const int n = N<T>::n;
  for (int s = 0; s < depth; ++s) {
    size_t l = d(9 * NV);
    int op = l % 9;
    int a = l / 9;
    const Arr &g = V[a];
    T tg = mk<T>(g);
    float k = K[a % NK];
    c.log("%s op %d operand %d", N<T>::s(), op, a);
    switch (op) {
      case 0: t = t + tg; for (int i = 0; i < n; ++i) r[i] += g[i]; break;
      case 1: t = t - tg; for (int i = 0; i < n; ++i) r[i] -= g[i]; break;
      case 2:
        if constexpr (HasPlusEq<T>::value) {
          T *p = &(t += tg);
          c.yes("+=", p == &t, "returns self");
        } else
          t = t + tg;
        for (int i = 0; i < n; ++i) r[i] += g[i];
        break;
      case 3:
        if constexpr (HasPlusEq<T>::value) {
          T *p = &(t -= tg);
          c.yes("-=", p == &t, "returns self");
        } else
          t = t - tg;
        for (int i = 0; i < n; ++i) r[i] -= g[i];
        break;
      case 4: t = t * k; for (int i = 0; i < n; ++i) r[i] *= k; break;
      case 5: { T *p = &(t *= k); c.yes("*=", p == &t, "returns self"); for (int i = 0; i < n; ++i) r[i] *= k; break; }
      case 6: {
        bool th = false;
        try { t = t / k; } catch (const std::runtime_error &) { th = true; }
        c.yes("/", th == (k == 0), "only a division by zero is refused");
        if (k) for (int i = 0; i < n; ++i) r[i] /= k;
        break;
      }
      case 7: {
        bool th = false;
        try { T *p = &(t /= k); c.yes("/=", p == &t, "returns self"); } catch (const std::runtime_error &) { th = true; }
        c.yes("/=", th == (k == 0), "only a division by zero is refused");
        if (k) for (int i = 0; i < n; ++i) r[i] /= k;
        break;
      }
      case 8:
        if constexpr (HasNeg<T>::value) {
          t = -t;
          T u = +t;
          c.yes("+x", u == t, "+x is x");
          for (int i = 0; i < n; ++i) r[i] = -r[i];
        } else if constexpr (HasPlusEq<T>::value) {
          t += t;
          for (int i = 0; i < n; ++i) r[i] += r[i];
        }
        break;
    }
    c.step();
    mag = 1e-3;
    for (int i = 0; i < n; ++i) mag = std::max(mag, std::fabs(r[i]));
    mag = std::max(mag, 100.0);
    eq(c, "operation", t, r, 3e-6 * mag);
  }
  double tol = 3e-6 * mag, ss = 0;
  mc::Hash h;
  h.u(n);
  for (int i = 0; i < n; ++i) {
    ss += r[i] * r[i];
    h.q(r[i], 1e-3);
  }
  c.state(h.h);
  double nr = std::sqrt(ss);
  c.near("norm", t.norm(), nr, 3 * tol);
  c.near("norm", A::norm(t), nr, 3 * tol);
  if constexpr (HasPlusEq<T>::value) {
    T u = t, z = t;
    u += u;
    z -= z;
    Arr r2 = r, r0{};
    for (int i = 0; i < n; ++i) r2[i] *= 2;
    eq(c, "x+=x", u, r2, 2 * tol);
    eq(c, "x-=x", z, r0, 0);
  }
  Arr w{};
  if constexpr (HasFreeNormalize<T>::value) {
    bool th = false;
    T u;
    try { u = A::normalize(t); } catch (const std::runtime_error &) { th = true; }
    c.yes("normalize", th == (t.norm() == 0), "only a null vector cannot be normalised");
    if (!th && nr > 0.01) {
      for (int i = 0; i < n; ++i) w[i] = r[i] / nr;
      eq(c, "normalize", u, w, 2e-6 + 2 * tol / nr);
      c.near("normalised", u.norm(), 1, 1e-6);
    }
    if constexpr (HasNormalize<T>::value) {
      T v;
      bool th2 = false;
      try { v = t.normalize(); } catch (const std::runtime_error &) { th2 = true; }
      c.yes("normalize", th == th2 && (th || v == u), "both forms agree");
    }
  }
  if constexpr (HasDistance<T>::value) {
    for (const Arr &g : V) {
      double dd = 0;
      // of the translation part only, as documented
      for (int i = 0; i < std::min(n, 3); ++i) dd += (r[i] - g[i]) * (r[i] - g[i]);
      double dr = std::sqrt(dd);
      T tg = mk<T>(g);
      c.near("distance", t.distance(tg), dr, 3 * tol);
      c.near("distance", A::distance(tg, t), dr, 3 * tol);
      c.near("distanceSquared", t.distanceSquared(tg), dd, 3 * tol * (1 + 2 * dr));
      c.near("distanceSquared", A::distanceSquared(tg, t), dd, 3 * tol * (1 + 2 * dr));
      c.step(4);
    }
  }
  std::vector<float> v = t.toVector(), v2(9, 1.f);
  t.toVector(v2);
  c.yes("toVector", (int)v.size() == n && v == v2, "right size");
  for (int i = 0; i < n; ++i) c.yes("toVector", v[i] == get(t, i), "component order");
  c.yes("from vector", T(v) == t, "vector round trip is exact");
  if constexpr (HasWrite<T>::value) {
    std::vector<float> b(n + 3, 42.f);
    std::vector<float>::iterator it = b.begin() + 1;
    t.writeToVector(it);
    c.yes("writeToVector", it == b.begin() + 1 + n && b[0] == 42.f && b[n + 1] == 42.f && b[n + 2] == 42.f &&
                               std::equal(v.begin(), v.end(), b.begin() + 1),
          "writes exactly its components and advances");
  }
}
template <class T> void near(mc::Ctx &c) {
  mc::Dec d(c.root);
  const int n = N<T>::n;
  Arr a = V[d(NV)];
  T t = mk<T>(a);
  int comp = d(n);
  const float ds[] = {0.f, 5e-5f, -5e-5f, 2e-4f, -2e-4f, 0.05f, -0.5f, NAN, INFINITY};
  float delta = ds[d(9)];
  int e = d(4);
  const float eps[] = {1e-4f, 1e-4f, 0.1f, 1e-3f};
  Arr b = a;
  b[comp] = (float)a[comp] + delta;
  T u = mk<T>(b);
  double real = (double)get(u, comp) - get(t, comp);
  bool want = std::fabs(real) <= eps[e];
  bool got = e == 0 ? t.isNear(u) : t.isNear(u, eps[e]);
  c.log("%s component %d by %g eps %g", N<T>::s(), comp, delta, eps[e]);
  c.yes("isNear", got == want, "near iff every component is within epsilon");
  c.yes("isNear", (e == 0 ? u.isNear(t) : u.isNear(t, eps[e])) == want, "symmetric");
  c.yes("==", (t == u) == (real == 0) && (t != u) == !(t == u), "== compares every component");
  c.step(4);
  c.state(mc::Hash().u(n).u(c.root).h);
}
template <class T> void construct(mc::Ctx &c) {
  const int n = N<T>::n;
  int size = c.root;
  Arr z{};
  eq(c, "default", T(), z, 0);
  Arr f{};
  for (int i = 0; i < n; ++i) f[i] = 2.5;
  eq(c, "fill", T(2.5f), f, 0);
  std::vector<float> v;
  for (int i = 0; i < size; ++i) v.push_back(1 + i);
  T t(v);
  Arr w{};
  if (size == n)
    for (int i = 0; i < n; ++i) w[i] = 1 + i;
  eq(c, "from vector", t, w, 0);  // any other size: the documented default
  c.step(3);
  c.state(mc::Hash().u(n).u(size).h);
}
const double C3[] = {0, 1, -1, 0.5, -2, 1e-2, 30};
void products(mc::Ctx &c) {
  mc::Dec d(c.root);
  ref::V3 a{C3[d(7)], C3[d(7)], C3[d(7)]}, b{C3[d(7)], C3[d(7)], C3[d(7)]};
  A::Position3D p = toP(a), q = toP(b), o(9.f, 9.f, 9.f);
  double m = 1e-6 * (1 + ref::norm(a) * ref::norm(b));
  eqV(c, "crossProduct", toRef(p.crossProduct(q)), ref::cross(a, b), m);
  eqV(c, "crossProduct", toRef(A::crossProduct(p, q)), ref::cross(a, b), m);
  A::crossProduct(p, q, o);
  eqV(c, "crossProduct", toRef(o), ref::cross(a, b), m);
  c.near("dotProduct", p.dotProduct(q), ref::dot(a, b), m);
  c.near("dotProduct", A::dotProduct(p, q), ref::dot(a, b), m);
  double dp = std::fabs(ref::dot(a, b));
  if (std::fabs(dp - 1e-4) > 1e-5) {
    c.yes("isOrthogonal", p.isOrthogonal(q) == (dp <= 1e-4) && A::isOrthogonal(p, q) == (dp <= 1e-4), "null scalar product");
    c.yes("isOrthogonal", p.isOrthogonal(q, 3.f) == (dp <= 3 + 1e-6) || std::fabs(dp - 3) < 1e-4, "tolerance is honoured");
  }
  A::Position2D p2(a.x, a.y), q2(b.x, b.y);
  double cr = a.x * b.y - a.y * b.x;
  float o2 = 9;
  A::crossProduct(p2, q2, o2);
  c.near("2D cross", o2, cr, m);
  c.near("2D cross", p2.crossProduct(q2), cr, m);
  c.near("2D cross", A::crossProduct(p2, q2), cr, m);
  c.near("2D dot", p2.dotProduct(q2), a.x * b.x + a.y * b.y, m);
  c.near("2D dot", A::dotProduct(p2, q2), a.x * b.x + a.y * b.y, m);
  // scalar * vector, and the types it produces
  float k = (float)b.x;
  A::Position2D k2 = k * p2;
  c.yes("k*p", std::fabs(k2.x - k * a.x) <= 1e-4 && std::fabs(k2.y - k * a.y) <= 1e-4, "scales every component");
  A::Velocity3D kv = k * p;
  eqV(c, "k*Position3D", toRef(kv), b.x * a, m);
  A::Velocity3D vv(a.x, a.y, a.z), kv2 = k * vv;
  eqV(c, "k*Velocity3D", toRef(kv2), b.x * a, m);
  A::Position6D p6(a.x, a.y, a.z, b.x, b.y, b.z);
  A::Velocity6D v6(a.x, a.y, a.z, b.x, b.y, b.z), k6 = k * p6, k62 = k * v6;
  c.yes("k*6D", k6 == k62, "position and velocity scale alike");
  Arr w{b.x * a.x, b.x * a.y, b.x * a.z, b.x * b.x, b.x * b.y, b.x * b.z};
  eq(c, "k*6D", k6, w, 2e-6 * (1 + 900));
  // 6D <-> parts
  A::Position6D q6 = A::position6DFromVelocity6D(v6);
  c.yes("6D from velocity", q6 == p6, "same components");
  A::Position3D head = A::position3DFromPosition6D(p6);
  c.yes("position part", head == p, "x y z");
  A::Position6D lifted = A::position6DFromPosition3D(p), lifted2(3.f);
  A::position6DFromPosition3DInPlace(p, lifted2);
  c.yes("lift", lifted == A::Position6D(a.x, a.y, a.z, 0, 0, 0) && lifted == lifted2, "null angles");
  c.step(20);
  c.state(mc::Hash().u(c.root).h);
}
void unit(mc::Ctx &c) {
  mc::Dec d(c.root);
  auto dirs = dirGrid();
  ref::V3 u = dirs[d(dirs.size())];
  u = (1 / ref::norm(u)) * u;
  const double s[] = {1, 1 + 5e-5, 1 - 5e-5, 1 + 2e-4, 1 - 2e-4, 0.5, 0, 2, -1};
  double k = s[d(9)];
  A::Position3D p = toP(k * u);
  c.yes("isUnitVector", p.isUnitVector() == (std::fabs(std::fabs(k) - 1) < 1e-4), "unit within 1e-4");
  c.yes("isUnitVector", A::isUnitVector(p, 0.1f) == (std::fabs(std::fabs(k) - 1) < 0.1), "tolerance is honoured");
  c.step(2);
  c.state(mc::Hash().u(c.root).h);
}
void misc(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float vs[] = {0.f, 5e-5f, -5e-5f, 2e-4f, -0.5f};
  float dq = vs[d(5)], dd = vs[d(5)];
  int e = d(3);
  const float eps[] = {1e-4f, 1e-4f, 0.1f};
  A::PositionAndVelocity a(1.f, -2.f), b(1.f + dq, -2.f + dd);
  double r1 = std::fabs((double)b.q - a.q), r2 = std::fabs((double)b.dq - a.dq);
  bool got = e ? a.isNear(b, eps[e]) : a.isNear(b);
  c.yes("PositionAndVelocity", got == (r1 <= eps[e] && r2 <= eps[e]), "near iff both within epsilon");
  std::vector<float> v = b.toVector(), v2;
  b.toVector(v2);
  c.yes("PositionAndVelocity", v.size() == 2 && v == v2 && v[0] == b.q && v[1] == b.dq, "q dq");
  c.yes("PositionAndVelocity", A::PositionAndVelocity().q == 0 && A::PositionAndVelocity().dq == 0 && A::PositionAndVelocity(3.f).q == 3.f, "defaults");
  A::Transform T(1.f, 2.f, 3.f), T2(1.f, 2.f + dq, 3.f);
  A::Velocity6D V(0.f, 1.f, 0.f, 0.f, -1.f, 0.f), V2(0.f, 1.f, 0.f, 0.f, -1.f + dd, 0.f);
  A::TransformAndVelocity6D x(T, V), y(T2, V2), z;
  c.yes("TransformAndVelocity6D", x.T == T && x.V == V && z.T == A::Transform() && z.V == A::Velocity6D(), "holds what it is given");
  double s1 = std::fabs((double)T2.r2_c4 - 2), s2 = std::fabs((double)V2.wyd + 1);
  got = e ? x.isNear(y, eps[e]) : x.isNear(y);
  c.yes("TransformAndVelocity6D", got == (s1 <= eps[e] && s2 <= eps[e]), "near iff both parts are");
  c.step(6);
  c.state(mc::Hash().u(c.root).h);
}
void masks(mc::Ctx &c) {
  int m = (int)c.root - 100;
  c.yes("isAxisMask", A::isAxisMask(m) == (m >= 1 && m <= 63), "any non empty set of the six axes");
  c.step();
  c.state(c.root);
}
template <class T> void reg(int depth) {
  uint64_t n = 1;
  for (int i = 0; i < depth; ++i) n *= 9 * NV;
  std::string s = N<T>::s();
  mc::family(s + "-words", n, [depth](mc::Ctx &c) { words<T>(c, depth); },
             "all words of length 3 (4 thorough) over 9 operations x 8 operands, then every observer");
  mc::family(s + "-near", NV * N<T>::n * 9 * 4, near<T>, "8 values x component x 9 differences x 4 tolerances");
  mc::family(s + "-compare", compareRoots(N<T>::n), [](mc::Ctx &c) { compareCase<T>(c, N<T>::n, [](const std::vector<float> &v) { return T(v); }); },
             "3 values x 2 components x 10 x 10 differences x 5 tolerances");
  mc::family(s + "-equal", compareRoots(N<T>::n) / compareNs::NE, [](mc::Ctx &c) { equalCase<T>(c, N<T>::n, [](const std::vector<float> &v) { return T(v); }); },
             "3 values x 2 components x 10 x 10 differences");
  mc::family(s + "-construct", 18, construct<T>, "vectors of size 0 to 17");
}
}  // namespace
void mc::setup() {
  int depth = mc::thorough() ? 4 : 3;
  reg<A::Position2D>(depth);
  reg<A::Position3D>(depth);
  reg<A::Position6D>(depth);
  reg<A::Velocity3D>(depth);
  reg<A::Velocity6D>(depth);
  reg<A::Rotation3D>(depth);
  mc::family("products", 7 * 7 * 7 * 7 * 7 * 7, products, "all pairs of vectors over 7 values per component");
  mc::family("unit-vectors", 35 * 9, unit, "35 directions x 9 norms");
  mc::family("compound-types", 75, misc, "differences x tolerances");
  mc::family("q-dq-compare", compareRoots(2), [](mc::Ctx &c) { compareCase<A::PositionAndVelocity>(c, 2, [](const std::vector<float> &v) { return A::PositionAndVelocity(v[0], v[1]); }); },
             "3 values x 2 components x 10 x 10 differences x 5 tolerances");
  mc::family("transform-velocity-compare", compareRoots(18), [](mc::Ctx &c) { compareCase<A::TransformAndVelocity6D>(c, 18, [](const std::vector<float> &v) { A::Transform t; float *m[12] = {&t.r1_c1, &t.r1_c2, &t.r1_c3, &t.r1_c4, &t.r2_c1, &t.r2_c2, &t.r2_c3, &t.r2_c4, &t.r3_c1, &t.r3_c2, &t.r3_c3, &t.r3_c4}; for (int i = 0; i < 12; ++i) *m[i] = v[i]; return A::TransformAndVelocity6D(t, A::Velocity6D(std::vector<float>(v.begin() + 12, v.end()))); }); },
             "3 values x 2 components among 18 x 10 x 10 differences x 5 tolerances");
  mc::family("axis-masks", 300, masks, "all integers in [-100, 200)");
}
