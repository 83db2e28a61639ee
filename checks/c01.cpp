// C01: rigid transforms obey SE(3) under any sequence of operations
#include "sizes.h"
#include "conv.h"
#include "small.h"
#include "compare.h"
using namespace ref;

namespace {
std::vector<A::Transform> gens() {
  std::vector<A::Transform> g;
  g.push_back(A::Transform());
  g.push_back(A::Transform::fromRotX(0.7f));
  g.push_back(A::Transform::fromRotY((float)-PI / 2));
  g.push_back(A::Transform::fromRotZ((float)PI));
  g.push_back(A::Transform(1.f, -2.f, 0.5f));
  g.push_back(A::Transform::fromPosition(0.f, 0.25f, -3.f, 0.3f, -0.8f, 2.1f));
  g.push_back(A::Transform::fromPosition(-0.001f, 0.f, 0.002f, 1e-3f, -2e-3f, 5e-4f));
  g.push_back(A::Transform::fromPosition(40.f, -7.f, 0.f, -3.f, 1.5f, 0.05f));
  return g;
}
const int NOPS = 7;
const char *opName[NOPS] = {"T*g", "T*=g", "g.T (preMultiply)", "inverse",
                            "T*=T", "diff(g,T)", "invertInPlace; T*g"};

void observe(mc::Ctx &c, const A::Transform &t, const T3 &r,
             const std::vector<A::Transform> &G, double tr_, double tp) {
  const A::Transform before = t;
  // ---- inverse in its four spellings
  T3 ri = inv(r);
  eqT(c, "inverse", t.inverse(), ri, tr_, tp);
  eqT(c, "transformInverse", A::transformInverse(t), ri, tr_, tp);
  eqT(c, "pinv", A::pinv(t), ri, tr_, tp);
  A::Transform o(9.f, 9.f, 9.f);
  A::transformInverse(t, o);
  eqT(c, "transformInverse-out", o, ri, tr_, tp);
  A::Transform ip = t;
  A::transformInvertInPlace(ip);
  eqT(c, "transformInvertInPlace", ip, ri, tr_, tp);
  c.step(5);
  // ---- inverse cancels
  eqT(c, "T*inverse(T)", t * t.inverse(), T3(), 2 * tr_, 2 * tp);
  eqT(c, "inverse(T)*T", t.inverse() * t, T3(), 2 * tr_, 2 * tp);
  eqT(c, "diff(T,T)", t.diff(t), T3(), 2 * tr_, 2 * tp);
  eqT(c, "inverse(inverse(T))", t.inverse().inverse(), r, 2 * tr_, 2 * tp);
  A::Transform self = t;
  self *= self;
  eqT(c, "T*=T", self, r * r, 3 * tr_, 3 * tp);
  A::Transform fresh;
  A::Transform &chained = ((fresh *= t) *= t);
  eqT(c, "chained *=", fresh, r * r, 3 * tr_, 3 * tp);
  c.yes("*= returns self", &chained == &fresh, "operator*= must return the object");
  c.step(8);
  c.near("norm", t.norm(), norm(r.p), tp);
  c.near("norm-free", A::norm(t), norm(r.p), tp);
  c.near("determinant", t.determinant(), 1, 3 * tr_);
  c.near("determinant-free", A::determinant(t), 1, 3 * tr_);
  c.near("determinant-vec16", A::determinant(t.toVector()), 1, 3 * tr_);
  c.yes("isTransform", t.isTransform(1e-3f), "a product of rigid transforms is a rigid transform");
  std::vector<float> v = t.toVector(), v2, v3(16, 7.f);
  t.toVector(v2);
  std::vector<float>::iterator it = v3.begin();
  t.writeToVector(it);
  c.yes("toVector size", v.size() == 16 && v2 == v && v3 == v && it == v3.end(),
        "toVector/writeToVector must agree and produce 16 values");
  const float bottom[4] = {0, 0, 0, 1};
  for (int i = 0; i < 12; ++i)
    c.near("toVector", v[i], (i % 4 == 3) ? r.p[i / 4] : r.R.m[i / 4][i % 4],
           (i % 4 == 3) ? tp : tr_);
  for (int i = 0; i < 4; ++i) c.near("toVector-row4", v[12 + i], bottom[i], 0);
  A::Transform back(v);
  eqT(c, "Transform(vector16)", back, r, 2 * tr_, tp);
  eqT(c, "Transform(vector12)", A::Transform(std::vector<float>(v.begin(), v.begin() + 12)),
      r, 2 * tr_, tp);
  c.step(12);
  for (size_t k = 0; k < G.size(); ++k) {
    const A::Transform &g = G[k];
    T3 rg = toRef(g);
    double sc = 1 + norm(rg.p) * 1e-1;
    eqT(c, "T*g", t * g, r * rg, 2 * tr_, 2 * tp * sc);
    A::Transform m = t;
    m *= g;
    eqT(c, "T*=g", m, r * rg, 2 * tr_, 2 * tp * sc);
    m = t;
    A::transformPreMultiply(g, m);
    eqT(c, "preMultiply", m, rg * r, 2 * tr_, 2 * tp * sc);
    T3 d = inv(r) * rg;
    eqT(c, "diff", t.diff(g), d, 2 * tr_, 2 * tp * sc);
    eqT(c, "transformDiff", A::transformDiff(t, g), d, 2 * tr_, 2 * tp * sc);
    eqT(c, "T*diff(T,g)=g", t * t.diff(g), rg, 3 * tr_, 3 * tp * sc);
    double dd = norm(r.p - rg.p);
    c.near("distance", t.distance(g), dd, 2 * tp * sc);
    c.near("transformDistance", A::transformDistance(t, g), dd, 2 * tp * sc);
    c.near("distanceSquared", t.distanceSquared(g), dd * dd, 4 * tp * sc * (1 + dd));
    c.near("transformDistanceSquared", A::transformDistanceSquared(t, g), dd * dd,
           4 * tp * sc * (1 + dd));
    // change of reference applies the rotation part only
    A::Transform cr(5.f, 5.f, 5.f);
    A::changeReferenceTransform(t, g, cr);
    T3 w = rg;
    w.R = r.R * rg.R;
    w.p = r.R * rg.p;
    eqT(c, "changeReferenceTransform", cr, w, 2 * tr_, 2 * tp * sc);
    cr = A::Transform(5.f, 5.f, 5.f);
    A::changeReferenceTransposeTransform(t, g, cr);
    w.R = tr(r.R) * rg.R;
    w.p = tr(r.R) * rg.p;
    eqT(c, "changeReferenceTransposeTransform", cr, w, 2 * tr_, 2 * tp * sc);
    c.step(12);
  }
  // ---- acting on points and vectors
  const V3 pts[] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-0.5, 2, 0.25}};
  const V3 ang[] = {{0, 0, 0}, {0, 0.5, 0}, {1, 0, -1}, {0.1, 0.2, 0.3}, {-2, 0.7, 1.1}};
  for (int k = 0; k < 5; ++k) {
    A::Position3D p = toP(pts[k]);
    eqV(c, "T*Position3D", toRef(t * p), r * pts[k], 3 * tp);
    if (pts[k].z == 0)
      eqV(c, "T*Position2D", toRef(t * A::Position2D(p.x, p.y)), r * pts[k], 3 * tp);
    eqV(c, "T^-1*(T*p)=p", toRef(t.inverse() * (t * p)), pts[k], 5 * tp);
    V3 f = r.R * pts[k], b = tr(r.R) * pts[k];
    V3 fa = r.R * ang[k], ba = tr(r.R) * ang[k];
    A::Position3D q = p, s(8.f, 8.f, 8.f);
    A::changeReferencePosition3DInPlace(t, q);
    eqV(c, "changeReferencePosition3DInPlace", toRef(q), f, 3 * tr_ * 3);
    A::changeReferencePosition3D(t, p, s);
    eqV(c, "changeReferencePosition3D", toRef(s), f, 3 * tr_ * 3);
    q = p;
    A::changeReferenceTransposePosition3DInPlace(t, q);
    eqV(c, "changeReferenceTransposePosition3DInPlace", toRef(q), b, 3 * tr_ * 3);
    A::changeReferenceTransposePosition3D(t, p, s);
    eqV(c, "changeReferenceTransposePosition3D", toRef(s), b, 3 * tr_ * 3);
    A::Velocity6D vi(p.x, p.y, p.z, ang[k].x, ang[k].y, ang[k].z), vo(4.f);
    A::changeReferenceVelocity6D(t, vi, vo);
    eqV(c, "changeReferenceVelocity6D", {vo.xd, vo.yd, vo.zd}, f, 9 * tr_);
    eqV(c, "changeReferenceVelocity6D", {vo.wxd, vo.wyd, vo.wzd}, fa, 9 * tr_);
    A::changeReferenceTransposeVelocity6D(t, vi, vo);
    eqV(c, "changeReferenceTransposeVelocity6D", {vo.xd, vo.yd, vo.zd}, b, 9 * tr_);
    eqV(c, "changeReferenceTransposeVelocity6D", {vo.wxd, vo.wyd, vo.wzd}, ba, 9 * tr_);
    A::Position6D pi(p.x, p.y, p.z, ang[k].x, ang[k].y, ang[k].z), po(4.f);
    A::changeReferencePosition6D(t, pi, po);
    eqV(c, "changeReferencePosition6D", {po.x, po.y, po.z}, f, 9 * tr_);
    eqV(c, "changeReferencePosition6D", {po.wx, po.wy, po.wz}, fa, 9 * tr_);
    A::changeReferenceTransposePosition6D(t, pi, po);
    eqV(c, "changeReferenceTransposePosition6D", {po.x, po.y, po.z}, b, 9 * tr_);
    eqV(c, "changeReferenceTransposePosition6D", {po.wx, po.wy, po.wz}, ba, 9 * tr_);
    c.step(12);
  }
  c.yes("operands unchanged", t == before && !(t != before),
        "observers must not modify their operand, and == must be reflexive");
}

// comparison predicates against their definition
void compareFamily(mc::Ctx &c) {
  mc::Dec d(c.root);
  int comp = d(12);
  const double deltas[] = {0, 5e-5, -5e-5, 2e-4, -2e-4, 9e-4, -2e-3, 0.5};
  double delta = deltas[d(8)];
  const float epss[] = {0.f, 1e-4f, 1e-3f, 0.1f};
  size_t e = d(5);
  std::vector<A::Transform> G = gens();
  A::Transform a = G[d(G.size())], b = a;
  if (std::fabs(a.r1_c4) > 1) a.r1_c4 = b.r1_c4 = 1;  // keep rounding below delta
  if (std::fabs(a.r2_c4) > 1) a.r2_c4 = b.r2_c4 = 1;
  if (std::fabs(a.r3_c4) > 1) a.r3_c4 = b.r3_c4 = 1;
  float *m[12] = {&b.r1_c1, &b.r1_c2, &b.r1_c3, &b.r1_c4, &b.r2_c1, &b.r2_c2,
                  &b.r2_c3, &b.r2_c4, &b.r3_c1, &b.r3_c2, &b.r3_c3, &b.r3_c4};
  *m[comp] += (float)delta;
  c.log("component %d differs by %g", comp, delta);
  c.step(3);
  bool eq = delta == 0;
  c.yes("==", (a == b) == eq && (b == a) == eq, "operator== must compare every component");
  c.yes("!=", (a != b) == !eq, "operator!= must negate ==");
  double eps = e == 4 ? 1e-4 : epss[e];
  bool near = e == 4 ? a.isNear(b) : a.isNear(b, epss[e]);
  c.yes("isNear", near == (std::fabs(delta) <= eps),
        "isNear must hold exactly when every component differs by at most epsilon");
  mc::Hash h;
  c.state(h.u(comp).q(delta, 1e-6).u(e).u(near).h);
}
// products and images under any matrix, rigid or not: entries are small
// integers over 64, so that every result is exact in single precision
std::vector<T3> mats() {
  std::vector<T3> r;
  auto add = [&](std::initializer_list<int> v) {
    T3 t;
    int k = 0;
    for (int e : v) { double x = e / 8.0; if (k % 4 == 3) t.p[k / 4] = x; else t.R.m[k / 4][k % 4] = x; ++k; }
    r.push_back(t);
  };
  add({8, 0, 0, 0, 0, 8, 0, 0, 0, 0, 8, 0});
  add({0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0});
  for (int i = 0; i < 12; ++i) {  // identity but for one entry
    T3 t = r[0];
    if (i % 4 == 3) t.p[i / 4] = -3; else t.R.m[i / 4][i % 4] += 0.125;
    r.push_back(t);
  }
  for (int i = 0; i < 9; ++i) {  // a single entry
    T3 t = r[1];
    t.R.m[i / 3][i % 3] = i % 2 ? -1 : 2;
    t.p[i % 3] = 1;
    r.push_back(t);
  }
  add({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12});
  add({-3, 8, 5, 16, 2, -7, 1, -24, 9, 4, -6, 5});
  add({8, 0, 0, 8, 0, -8, 0, 16, 0, 0, 8, -8});     // reflection
  add({0, -8, 0, 1, 8, 0, 0, 2, 0, 0, 8, 3});       // rotation
  add({16, 0, 0, 3, 0, 16, 0, -5, 0, 0, 16, 7});    // scale
  add({8, 0, 0, 0, 8, 0, 0, 0, 8, 0, 0, 0});        // rank one
  return r;
}
std::vector<T3> pool;
void matrices(mc::Ctx &c) {
  mc::Dec d(c.root);
  const T3 &ra = pool[d(pool.size())], &rb = pool[d(pool.size())];
  const A::Transform a = toT(ra), b = toT(rb);
  A::Transform m = a;
  eqT(c, "a*b", a * b, ra * rb, 0, 0);
  A::Transform &ret = m *= b;
  eqT(c, "a*=b", m, ra * rb, 0, 0);
  c.yes("*= returns self", &ret == &m, "operator*= must return the object");
  m = b;
  A::transformPreMultiply(a, m);
  eqT(c, "preMultiply", m, ra * rb, 0, 0);
  m = a;
  m *= m;
  eqT(c, "a*=a", m, ra * ra, 0, 0);
  m = a;
  eqT(c, "a*a", m * m, ra * ra, 0, 0);
  const V3 pts[] = {{0, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0.5, 2, 0}, {0, 0, 1}, {-3, 0.25, 2}};
  for (const V3 &p : pts) {
    eqV(c, "a*Position3D", toRef(a * toP(p)), ra * p, 0);
    if (p.z == 0) eqV(c, "a*Position2D", toRef(a * A::Position2D(p.x, p.y)), ra * p, 0);
    A::Position3D q(8.f, 8.f, 8.f);
    A::changeReferencePosition3D(a, toP(p), q);
    eqV(c, "changeReferencePosition3D", toRef(q), ra.R * p, 0);
    A::changeReferenceTransposePosition3D(a, toP(p), q);
    eqV(c, "changeReferenceTransposePosition3D", toRef(q), tr(ra.R) * p, 0);
  }
  A::Transform cr(5.f, 5.f, 5.f);
  A::changeReferenceTransform(a, b, cr);
  T3 w;
  w.R = ra.R * rb.R;
  w.p = ra.R * rb.p;
  eqT(c, "changeReferenceTransform", cr, w, 0, 0);
  A::changeReferenceTransposeTransform(a, b, cr);
  w.R = tr(ra.R) * rb.R;
  w.p = tr(ra.R) * rb.p;
  eqT(c, "changeReferenceTransposeTransform", cr, w, 0, 0);
  c.near("determinant", a.determinant(), det(ra.R), 0);
  c.near("determinant", A::determinant(a), det(ra.R), 0);
  c.near("determinant", A::determinant(a.toVector()), det(ra.R), 0);
  std::vector<float> v12 = a.toVector(), o(3, 7.f), z(20, 7.f);
  v12.resize(12);
  c.near("determinant", A::determinant(v12), det(ra.R), 0);
  c.near("distance", a.distanceSquared(b), dot(ra.p - rb.p, ra.p - rb.p), 0);
  c.yes("transformToFloatVector", A::transformToFloatVector(a) == v12, "the 12 first components");
  A::transformToFloatVector(a, o);
  A::transformToFloatVector(a, z);
  c.yes("transformToFloatVector", o == v12 && z == v12, "the 12 first components");
  for (size_t n : {0, 5, 16, 20}) {
    std::vector<float> x(n, 7.f);
    a.toVector(x);
    c.yes("toVector", x == a.toVector() && x.size() == 16 && x[12] == 0 && x[13] == 0 && x[14] == 0 && x[15] == 1, "16 components, whatever the vector held");
  }
  c.yes("compare", (a == b) == (&ra == &rb) && (a != b) == (&ra != &rb), "== compares every component");
  c.yes("constant operands", toRef(a).R.m[0][0] == ra.R.m[0][0] && dist(toRef(a), ra) == 0 && dist(toRef(b), rb) == 0, "operands are not modified");
  c.step(45);
  c.state(c.root);
}
// pairs of transforms of every scale, to relative tolerances
void scales(mc::Ctx &c) {
  mc::Dec d(c.root);
  const small::Pose a = small::pose(d(small::NPOSES));
  for (int k = c.pick(8); k < small::NPOSES; k += 8) {
    const small::Pose b = small::pose(k);
    double an = std::max(a.ang, b.ang), l = a.len + b.len;
    A::Transform m = a.t;
    small::eqT(c, "a*b", a.t * b.t, a.r * b.r, an, l);
    m *= b.t;
    small::eqT(c, "a*=b", m, a.r * b.r, an, l);
    m = b.t;
    A::transformPreMultiply(a.t, m);
    small::eqT(c, "preMultiply", m, a.r * b.r, an, l);
    T3 df = inv(a.r) * b.r;
    small::eqT(c, "diff", a.t.diff(b.t), df, an, l);
    small::eqT(c, "transformDiff", A::transformDiff(a.t, b.t), df, an, l);
    double dd = norm(a.r.p - b.r.p);
    c.near("distance", a.t.distance(b.t), dd, 2e-6 * l);
    c.near("transformDistance", A::transformDistance(a.t, b.t), dd, 2e-6 * l);
    c.near("distanceSquared", a.t.distanceSquared(b.t), dd * dd, 4e-6 * l * l);
    c.near("transformDistanceSquared", A::transformDistanceSquared(a.t, b.t), dd * dd, 4e-6 * l * l);
    T3 w{a.r.R * b.r.R, a.r.R * b.r.p};
    A::Transform cr(5.f, 5.f, 5.f);
    A::changeReferenceTransform(a.t, b.t, cr);
    small::eqT(c, "changeReferenceTransform", cr, w, an, b.len);
    A::changeReferenceTransposeTransform(a.t, b.t, cr);
    w = {tr(a.r.R) * b.r.R, tr(a.r.R) * b.r.p};
    small::eqT(c, "changeReferenceTransposeTransform", cr, w, an, b.len);
    const V3 p = b.r.p;
    A::Position3D q = toP(p), s(8.f, 8.f, 8.f);
    small::eqV(c, "T*Position3D", toRef(a.t * q), a.r * p, l);
    if (p.z == 0) small::eqV(c, "T*Position2D", toRef(a.t * A::Position2D(q.x, q.y)), a.r * p, l);
    A::changeReferencePosition3D(a.t, q, s);
    small::eqV(c, "changeReferencePosition3D", toRef(s), a.r.R * p, b.len);
    A::changeReferenceTransposePosition3D(a.t, q, s);
    small::eqV(c, "changeReferenceTransposePosition3D", toRef(s), tr(a.r.R) * p, b.len);
    s = q;
    A::changeReferencePosition3DInPlace(a.t, s);
    small::eqV(c, "changeReferencePosition3DInPlace", toRef(s), a.r.R * p, b.len);
    s = q;
    A::changeReferenceTransposePosition3DInPlace(a.t, s);
    small::eqV(c, "changeReferenceTransposePosition3DInPlace", toRef(s), tr(a.r.R) * p, b.len);
    // a linear and an angular part of two scales
    V3 g = a.r.p;
    A::Velocity6D v(p.x, p.y, p.z, g.x, g.y, g.z), vo(4.f);
    A::changeReferenceVelocity6D(a.t, v, vo);
    small::eqV(c, "changeReferenceVelocity6D", {vo.xd, vo.yd, vo.zd}, a.r.R * p, b.len);
    small::eqV(c, "changeReferenceVelocity6D", {vo.wxd, vo.wyd, vo.wzd}, a.r.R * g, a.len);
    A::changeReferenceTransposeVelocity6D(a.t, v, vo);
    small::eqV(c, "changeReferenceTransposeVelocity6D", {vo.xd, vo.yd, vo.zd}, tr(a.r.R) * p, b.len);
    small::eqV(c, "changeReferenceTransposeVelocity6D", {vo.wxd, vo.wyd, vo.wzd}, tr(a.r.R) * g, a.len);
    A::Position6D x(p.x, p.y, p.z, g.x, g.y, g.z), xo(4.f);
    A::changeReferencePosition6D(a.t, x, xo);
    small::eqV(c, "changeReferencePosition6D", {xo.x, xo.y, xo.z}, a.r.R * p, b.len);
    small::eqV(c, "changeReferencePosition6D", {xo.wx, xo.wy, xo.wz}, a.r.R * g, a.len);
    A::changeReferenceTransposePosition6D(a.t, x, xo);
    small::eqV(c, "changeReferenceTransposePosition6D", {xo.x, xo.y, xo.z}, tr(a.r.R) * p, b.len);
    small::eqV(c, "changeReferenceTransposePosition6D", {xo.wx, xo.wy, xo.wz}, tr(a.r.R) * g, a.len);
    c.step(18);
  }
  T3 ri = inv(a.r);
  A::Transform o(9.f, 9.f, 9.f), ip = a.t;
  A::transformInverse(a.t, o);
  A::transformInvertInPlace(ip);
  for (const A::Transform &t : {a.t.inverse(), A::transformInverse(a.t), A::pinv(a.t), o, ip}) small::eqT(c, "inverse", t, ri, a.ang, a.len);
  c.near("norm", a.t.norm(), a.len, 2e-6 * a.len);
  c.near("norm", A::norm(a.t), a.len, 2e-6 * a.len);
  c.yes("isTransform", a.t.isTransform(1e-5f), "a rigid transform at any distance is one");
  c.step(8);
  c.state(c.root);
}
}  // namespace

// any 12 values, rigid or not
A::Transform entries(const std::vector<float> &v) {
  A::Transform t;
  float *m[12] = {&t.r1_c1, &t.r1_c2, &t.r1_c3, &t.r1_c4, &t.r2_c1, &t.r2_c2, &t.r2_c3, &t.r2_c4, &t.r3_c1, &t.r3_c2, &t.r3_c3, &t.r3_c4};
  for (int i = 0; i < 12; ++i) *m[i] = v[i];
  return t;
}
void mc::setup() {
  std::cerr.rdbuf(nullptr);  // warnings
  std::cout.rdbuf(nullptr);
  mc::family("compare-all", compareRoots(12), [](mc::Ctx &c) { compareCase<A::Transform>(c, 12, entries); },
             "3 values x 2 components among 12 x 10 x 10 differences x 5 tolerances");
  mc::family("compare-all-equal", compareRoots(12) / compareNs::NE, [](mc::Ctx &c) { equalCase<A::Transform>(c, 12, entries); },
             "3 values x 2 components among 12 x 10 x 10 differences");
  mc::family("sizes", 84, [](mc::Ctx &c) {
    // contents: the twelve entries of transforms with exact rotations
    static const float M[4][12] = {{1, 0, 0, 3, 0, 1, 0, -4, 0, 0, 1, 5}, {0, -1, 0, 0.5f, 1, 0, 0, 0.25f, 0, 0, 1, -8},
                                   {0, 0, 1, 1e6f, 1, 0, 0, 7, 0, 1, 0, 9}, {1, 0, 0, -1, 0, -1, 0, -2, 0, 0, -1, -3}};
    int size = c.root / 4;
    std::vector<float> w, got, want = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1};
    for (int i = 0; i < size; ++i) w.push_back(i < 12 ? M[c.root % 4][i] : i == 15 ? 1.f : 0.f);
    if (size == 12 || size == 16) std::copy(w.begin(), w.begin() + 12, want.begin());
    A::Transform(w).toVector(got);
    c.step(1);
    c.state(mc::Hash().u(c.root).h);
    c.yes("from vector", got == want, "the value holds the entries of the vector, or is the identity");
    int n = c.root / 4;
    std::vector<float> v;
    for (int i = 0; i < n; ++i) v.push_back((i * i) % 7);
    ref::M3 m;
    if (n == 12 || n == 16)
      for (int i = 0; i < 9; ++i) m.m[i / 3][i % 3] = v[i / 3 * 4 + i % 3];
    else
      for (int i = 0; i < 9; ++i) m.m[i / 3][i % 3] = 0;
    c.near("determinant", A::determinant(v), det(m), 0);
  }, "vectors of 0 to 20 floats, 4 contents");

  pool = mats();
  mc::family("any-matrix", pool.size() * pool.size(), matrices, "all pairs of " + std::to_string(pool.size()) + " matrices, rigid or not, exactly");
  mc::family("scales", small::NPOSES, scales, "all pairs of 512 transforms of 8 angles from 1e-12 to 1 and 8 lengths from 1e-14 to 1e11, relatively to them");
  static std::vector<A::Transform> G = gens();
  static int depth = mc::thorough() ? 4 : 3;
  uint64_t letters = NOPS * G.size(), n = 1;
  for (int i = 0; i < depth; ++i) n *= letters;
  mc::family("words", n, [letters](mc::Ctx &c) {
    mc::Dec d(c.root);
    A::Transform t = A::Transform::fromPosition(0.5f, 1.f, -0.75f, 0.2f, 0.4f, -1.3f);
    T3 r = toRef(t);
    double scale = 2;
    for (int i = 0; i < depth; ++i) {
      size_t l = d(letters);
      int op = l % NOPS;
      const A::Transform &g = G[l / NOPS];
      T3 rg = toRef(g);
      c.log("%s g=%s", opName[op], str(g).c_str());
      switch (op) {
        case 0: t = t * g; r = r * rg; break;
        case 1: t *= g; r = r * rg; break;
        case 2: A::transformPreMultiply(g, t); r = rg * r; break;
        case 3: t = t.inverse(); r = inv(r); break;
        case 4: t *= t; r = r * r; break;
        case 5: t = A::transformDiff(g, t); r = inv(rg) * r; break;
        case 6: A::transformInvertInPlace(t); t = t * g; r = inv(r) * rg; break;
      }
      c.step();
      scale = std::max(scale, norm(r.p) + norm(rg.p));
      eqT(c, opName[op], t, r, 3e-5, 3e-5 * (1 + scale));
    }
    c.state(hashOf(r));
    observe(c, t, r, G, 3e-5, 3e-5 * (1 + scale));
  }, "all words of length 3 (4 in the thorough tier) over 7 operations x 8 generator "
     "transforms; after each word, every observer against every generator");
  mc::family("comparison", 12 * 8 * 5 * G.size(), compareFamily,
             "every component x 8 differences x 5 tolerances x 8 transforms");
  // small rotations are not swallowed, large translations do not leak
  static std::vector<float> ang = angleGrid(mc::thorough() ? 720 : 144);
  mc::family("elementary", ang.size() * 3 * 5, [](mc::Ctx &c) {
    mc::Dec d(c.root);
    float a = ang[d(ang.size())];
    int axis = d(3);
    float tx = ((float[]){0.f, 1.f, -1e-3f, 1000.f, -0.5f})[d(5)];
    M3 R = axis == 0 ? rotX(a) : axis == 1 ? rotY(a) : rotZ(a);
    A::Transform t = axis == 0 ? A::Transform::fromRotX(a)
                   : axis == 1 ? A::Transform::fromRotY(a) : A::Transform::fromRotZ(a);
    A::Transform t2 = axis == 0 ? A::transformFromRotX(a)
                    : axis == 1 ? A::transformFromRotY(a) : A::transformFromRotZ(a);
    c.log("axis %d angle %.9g translation %g", axis, a, tx);
    T3 r;
    r.R = R;
    eqT(c, "fromRot", t, r, 1e-6, 0);
    eqT(c, "transformFromRot", t2, r, 1e-6, 0);
    A::Transform p = A::Transform::fromPosition(tx, -tx, 2 * tx);
    A::Transform p2 = A::transformFromPosition(tx, -tx, 2 * tx), p3(tx, -tx, 2 * tx);
    T3 rp;
    rp.p = {tx, -tx, 2.0 * tx};
    eqT(c, "fromPosition", p, rp, 0, 0);
    eqT(c, "transformFromPosition", p2, rp, 0, 0);
    eqT(c, "Transform(x,y,z)", p3, rp, 0, 0);
    A::Transform f = A::Transform::fromPosition(tx, -tx, 2 * tx, axis == 0 ? a : 0,
                                                axis == 1 ? a : 0, axis == 2 ? a : 0);
    r.p = rp.p;
    eqT(c, "fromPosition6", f, r, 1e-6, 0);
    A::Transform f2 = A::transformFromPosition(tx, -tx, 2 * tx, axis == 0 ? a : 0,
                                               axis == 1 ? a : 0, axis == 2 ? a : 0);
    eqT(c, "transformFromPosition6", f2, r, 1e-6, 0);
    eqT(c, "p*R", p * t, r, 1e-6, 0);
    double s = std::fabs(tx) * 1e-6 + 1e-9;
    eqT(c, "inverse", f.inverse(), inv(r), 1e-6, 4 * s);
    eqT(c, "invertInPlace", A::pinv(f), inv(r), 1e-6, 4 * s);
    eqT(c, "inverse*", f.inverse() * f, T3(), 2e-6, 8 * s);
    eqT(c, "diff", p.diff(f), inv(rp) * r, 1e-6, 4 * s);
    c.step(11);
    c.state(hashOf(r, 1e-6));
  }, "angles on a grid and around 0, pi/4, pi/2, 2pi/3, pi (offsets 1e-6..3e-2) x 3 axes x 5 translations");
}
