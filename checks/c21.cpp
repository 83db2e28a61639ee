// C21: squashing masses conserves mass, centre of mass and inertia
#include "urdfmass.h"
#include "bigtree.h"
#include <almath/scenegraph/urdfeigen.h>
#include <almath/scenegraph/bodymass.h>
#include <algorithm>
#include <stdexcept>
using namespace U;
namespace {
void single(mc::Ctx &c) {
  mc::Dec d(c.root);
  int a = d(3 * NPOSES + 1), b = d(3 * NPOSES + 1), o = d(NPOSES), ty = d(4);
  const char *T[] = {"fixed", "revolute", "floating", "prismatic"};
  ptree robot;
  auto mk = [&](const char *n, int k) {
    ptree l = makeLink(n, 4, false);
    if (k) l.push_back({"inertial", inertial((k - 1) / NPOSES, (k - 1) % NPOSES)});
    l.push_back({"tail", ptree()});
    return l;
  };
  robot.push_back({"link", mk("p", a)});
  robot.push_back({"joint", makeJoint("j", "p", "k", T[ty], o, 1)});
  robot.push_back({"link", mk("k", b)});
  const ptree before = robot;
  Doc x = parse(c, before);
  AL::urdf::RobotTree t(robot);
  AL::urdf::squashJointMass(t, "j");
  c.step();
  Doc y = parse(c, robot);
  const Mass &mp = x.links[0].mass, &mk_ = x.links[1].mass, &np = y.links[0].mass;
  c.log("parent %d child %d origin %d", a, b, o);
  if (!mk_.present) {
    c.yes("nothing to squash", robot == before, "a massless child leaves the document alone");
  } else {
    c.yes("child", !y.links[1].mass.present, "the child has no mass left");
    c.yes("parent", np.present, "the parent got the mass");
    std::vector<B> v;
    if (mp.present) v.push_back(one(mp, ident()));
    v.push_back(one(mk_, x.joints[0].o));
    same(c, sum(v), one(np, ident()), mp.present ? "squashed" : "moved");
    if (mp.present) c.near("basis", ref::dist(np.at.R, mp.at.R), 0, 1e-9);
    // the rest of the document
    for (int i = 0; i < 2; ++i) {
      ptree u = *x.links[i].pt, w = *y.links[i].pt;
      u.erase("inertial");
      w.erase("inertial");
      c.yes("rest", u == w, "other elements of the links are kept");
    }
    c.yes("rest", *x.joints[0].pt == *y.joints[0].pt, "the joint is kept");
  }
  bool th = false;
  try { AL::urdf::squashJointMass(t, "none"); } catch (const std::out_of_range &) { th = true; }
  c.yes("unknown", th, "an unknown joint is refused");
  c.state(mc::Hash().q(np.m).q(np.at.p.x).q(np.at.p.y).q(np.I.m[0][1]).q(np.I.m[2][2]).h);
}
const char *TY[] = {"fixed", "revolute", "floating", "continuous", "prismatic", "planar"};
void squash(mc::Ctx &c, ptree &robot, int which) {
  const ptree before = robot;
  Doc x = parse(c, before);
  for (auto &l : x.links) c.log("link %s%s", l.name.c_str(), l.mass.present ? " with mass" : "");
  for (auto &j : x.joints) c.log("joint %s %s: %s -> %s", j.name.c_str(), j.type.c_str(), j.parent.c_str(), j.child.c_str());
  std::vector<std::vector<B>> mass(x.links.size());
  std::vector<std::string> types, names, got;
  for (auto &j : x.joints) types.push_back(j.type);
  fold(x, x.root(), ident(), which == 1, mass, types, names);
  AL::urdf::RobotTree t(robot);
  if (which == 0) AL::urdf::squashFixedJointsMass(t);
  else got = AL::urdf::makeMasslessJointsFixed(t);
  c.step();
  Doc y = parse(c, robot);
  c.yes("names", got == names, "names of the joints that became fixed");
  c.yes("elements", x.links.size() == y.links.size() && x.joints.size() == y.joints.size(), "links and joints are kept");
  std::vector<T3> fr(x.links.size());
  frames(x, x.root(), ident(), fr);
  for (size_t i = 0; i < y.links.size(); ++i) {
    const Mass &m = y.links[i].mass;
    c.yes("massive links", m.present == !mass[i].empty(), m.present ? "a link kept its mass" : "a link lost its mass");
    if (m.present) same(c, sum(mass[i]), one(m, fr[i]), "link");
  }
  for (size_t i = 0; i < y.joints.size(); ++i) {
    const Joint &j = y.joints[i];
    c.yes("types", j.type == types[i], "type of the joints");
    if (which == 1 && j.type != "fixed") c.yes("massless joints", y.links[y.link(j.child)].mass.present, "a mobile joint is left with a massless link");
    if (types[i] == x.joints[i].type) c.yes("other joints", *j.pt == *x.joints[i].pt, "other joints are kept");
    else c.yes("axis", !child(*j.pt, "axis"), "a fixed joint has no axis");
    c.near("origins", ref::dist(j.o, x.joints[i].o), 0, 0);
  }
  // doing it again changes nothing
  const ptree once = robot;
  if (which == 0) AL::urdf::squashFixedJointsMass(t);
  else c.yes("again", AL::urdf::makeMasslessJointsFixed(t).empty(), "nothing is left to fix");
  c.yes("again", robot == once, "squashing again changes nothing");
  c.state(hash(y));
}
void trees(mc::Ctx &c, int nj, int ntypes, int nmimic) {
  mc::Dec d(c.root);
  int par[4] = {0, (int)d(2), (int)d(3), nj > 3 ? (int)d(4) : 0};
  int massive = d(1 << (nj + 1)), which = d(2), poses = d(nmimic);
  int rev = d(2);
  ptree robot;
  for (int i = 0; i <= nj; ++i) {
    ptree l = makeLink(std::string(1, 'a' + i), i, false);
    if (massive >> i & 1) l.push_back({"inertial", inertial((i + poses) % 3, (i * 3 + poses) % NPOSES)});
    robot.push_back({"link", l});
  }
  std::vector<ptree> js;
  for (int i = 0; i < nj; ++i) js.push_back(makeJoint("j" + std::to_string(i), std::string(1, 'a' + par[i]), std::string(1, 'b' + i), TY[c.pick(ntypes)], (poses * 7 + i * 4 + 1) % NPOSES, i % 4));
  if (rev) std::reverse(js.begin(), js.end());
  for (auto &j : js) robot.push_back({"joint", j});
  squash(c, robot, which);
}
// trees of many links
void many(mc::Ctx &c, int nmin, int nn) {
  mc::Dec d(c.root);
  int shape = d(big::SHAPES), order = d(big::ORDERS), n = nmin + (int)d(nn), names = (shape + n + order) % big::NAMES;
  int types = c.pick(4), masses = c.pick(4), which = c.pick(2), place = c.pick(3);
  int at = place == 0 ? 0 : place == 1 ? n / 2 : n - 1;
  ptree robot;
  auto N = [&](bool l, int i) { return big::name(names, l, i); };
  for (int i : big::order(order, n + 1)) {
    ptree l = makeLink(N(true, i), i, false);
    // all; all but one; one alone (with the root); every third
    bool m = masses == 0 || (masses == 1 ? i != at + 1 : masses == 2 ? i == at + 1 || i == 0 : (i + at) % 3 == 0);
    if (m) l.push_back({"inertial", inertial((i + n) % 3, (i * 5 + shape) % NPOSES)});
    robot.push_back({"link", l});
  }
  for (int i : big::order((order + n) % big::ORDERS, n)) {
    // fixed; all but one fixed; one fixed alone; mixed
    int ty = types == 0 ? 0 : types == 1 ? i == at : types == 2 ? (i == at ? 0 : 1 + i % 5) : (i * 5 + at) % 6;
    robot.push_back({"joint", makeJoint(N(false, i), N(true, big::parent(shape, i + 1, n)), N(true, i + 1), TY[ty], (n + i * 4 + 1) % NPOSES, i % 4)});
  }
  c.log("%s of %d joints", big::shapeName(shape), n);
  squash(c, robot, which);
}
// masses, inertias and distances of all scales: everything is compared to the
// quantity that is conserved, not to one kilogram and one meter
void scales(mc::Ctx &c) {
  mc::Dec d(c.root);
  const int K[] = {0, 3, 4, 5, 6, 7}, P[] = {0, 1, 2, 12, 13, 14, 15, 16, 17, 18};
  int ka = d(6), kb = d(6), pa = P[d(10)], pb = P[d(10)], o = P[d(10)], third = d(3);
  ptree robot;
  auto mk = [&](const char *n, int k, int p) {
    ptree l = element("name", n);
    l.push_back({"inertial", inertial(k, p)});
    return l;
  };
  robot.push_back({"link", mk("a", K[ka], pa)});
  robot.push_back({"link", mk("b", K[kb], pb)});
  robot.push_back({"joint", makeJoint("j", "a", "b", third == 2 ? "revolute" : "fixed", o, 1)});
  if (third) {  // a light one below
    robot.push_back({"link", mk("e", 4, o)});
    robot.push_back({"joint", makeJoint("k", "b", "e", "fixed", pa, 1)});
  }
  c.log("masses %d %d poses %d %d origin %d", K[ka], K[kb], pa, pb, o);
  const ptree before = robot;
  Doc x = parse(c, before);
  std::vector<T3> fr(x.links.size());
  frames(x, x.root(), ident(), fr);
  std::vector<std::vector<B>> ms(x.links.size());
  std::vector<std::string> types, names;
  for (auto &j : x.joints) types.push_back(j.type);
  fold(x, x.root(), ident(), false, ms, types, names);
  AL::urdf::RobotTree t(robot);
  AL::urdf::squashFixedJointsMass(t);
  c.step();
  Doc y = parse(c, robot);
  for (size_t i = 0; i < y.links.size(); ++i) {
    const Mass &m = y.links[i].mass;
    c.yes("massive links", m.present == !ms[i].empty(), m.present ? "a link kept its mass" : "a link lost its mass");
    if (!m.present) continue;
    B w = sum(ms[i]), g = one(m, fr[i]);
    double len = 0, in = 0;
    for (auto &b : ms[i]) { len = std::max(len, ref::norm(b.com - w.com)); for (auto &r : b.I.m) for (double v : r) in = std::max(in, std::fabs(v)); }
    double far = ref::norm(w.com), r = 1e-12;
    c.near("mass", g.m, w.m, r * w.m);
    if (w.m > 0) for (int k = 0; k < 3; ++k) c.near("centre of mass", g.com[k], w.com[k], r * (len + far) + 1e-15);
    double tol = 100 * r * (in + w.m * (len * len + len * far * 1e-3)) + 1e-14 * w.m * far * far;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) c.near("inertia", g.I.m[a][b], w.I.m[a][b], tol);
  }
  c.state(hash(y));
}
// the underlying templates, in both precisions
template <typename S>
void templates(mc::Ctx &c) {
  typedef Eigen::Transform<S, 3, Eigen::AffineCompact, Eigen::DontAlign> E;
  typedef Eigen::Matrix<S, 3, 3> M;
  typedef Eigen::Matrix<S, 3, 1> V;
  mc::Dec d(c.root);
  int pa = d(NPOSES), pb = d(NPOSES), ka = d(3), kb = d(3);
  double tol = sizeof(S) == 4 ? 2e-6 : 1e-12;
  ptree ia = inertial(ka, pa), ib = inertial(kb, pb);
  ptree la, lb;
  la.push_back({"inertial", ia});
  lb.push_back({"inertial", ib});
  Mass ma = mass(c, la), mb = mass(c, lb);
  AL::urdf::Inertial wa(ia), wb(ib);
  c.near("mass", wa.mass(), ma.m, 0);
  Eigen::Matrix3d ea = AL::Math::toEigenMatrix3(wa), eb = AL::Math::toEigenMatrix3(wb);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.near("inertia", ea(i, j), ma.I.m[i][j], 0);
  auto ta = AL::Math::toEigenTransform(wa.origin());
  for (int i = 0; i < 3; ++i) {
    c.near("transform", ta.translation()[i], ma.at.p[i], 1e-15);
    for (int j = 0; j < 3; ++j) c.near("transform", ta.linear()(i, j), ma.at.R.m[i][j], 1e-12);
  }
  E A_ = E(AL::Math::toEigenTransform(wa.origin()).cast<S>()), B_ = E(AL::Math::toEigenTransform(wb.origin()).cast<S>()), C_;
  S mc_;
  M ic;
  M sa = ea.cast<S>(), sb = eb.cast<S>();
  AL::Math::squashInertial((S)wa.mass(), A_, sa, (S)wb.mass(), B_, sb, mc_, C_, ic);
  c.step();
  T3 at;
  M3 I;
  for (int i = 0; i < 3; ++i) {
    at.p[i] = C_.translation()[i];
    for (int j = 0; j < 3; ++j) { at.R.m[i][j] = C_.linear()(i, j); I.m[i][j] = ic(i, j); }
  }
  same(c, sum({one(ma, ident()), one(mb, ident())}), body(at, mc_, I), "squashInertial", tol);
  c.near("basis", ref::dist(at.R, ma.at.R), 0, 1e-6);
  // body mass
  S m;
  V com;
  M in;
  AL::Math::urdfInertialToEigen(wa, m, com, in);
  M3 K;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) K.m[i][j] = in(i, j);
  B g;
  g.m = m;
  g.com = V3{com[0], com[1], com[2]};
  g.I = K;
  same(c, one(ma, ident()), g, "urdfInertialToEigen", tol);
  // point mass
  M acc = sa;
  AL::Math::addPointMassInertia((S)1.7, V((S)0.3, (S)-0.2, (S)0.9), acc);
  M3 pm = plus(ma.I, point(1.7, V3{0.3, -0.2, 0.9}));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.near("point mass", acc(i, j), pm.m[i][j], 10 * tol);
  AL::Math::BodyMass<double> bm{1.5, {1, 2, 3}, ea};
  auto bf = bm.cast<float>();
  c.yes("cast", bf.mass == 1.5f && bf.center_of_mass == Eigen::Vector3f(1, 2, 3) && bf.rotational_inertia == ea.cast<float>(), "component by component");
  c.state(mc::Hash().q(I.m[0][0]).q(I.m[0][1]).q(I.m[1][2]).h);
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  mc::family("single", (3 * NPOSES + 1) * (3 * NPOSES + 1) * NPOSES * 4, single, "every pair of inertials (absent, or 3 inertias x 12 poses) x 12 joint origins x 4 joint types");
  mc::family("scales", 36 * 1000 * 3, scales, "2 or 3 links: masses of 0, 1e-9 to 2e4 kg, inertias to scale, x 10 poses each from 1e-12 to 90 m, compared to scale");
  mc::family("trees-4", 6 * 16 * 2 * 4 * 2, [](mc::Ctx &c) { trees(c, 3, 6, 4); }, "all trees of 4 links x massive links x 6 types per joint x 4 sets of poses, 2 orders, both functions");
  mc::family("trees-5", 24 * 32 * 2 * (th ? 4 : 1) * 2, [=](mc::Ctx &c) { trees(c, 4, th ? 4 : 3, th ? 4 : 1); }, "all trees of 5 links x massive links x 3 (4) types per joint, 2 orders, both functions");
  int nn = th ? 20 : 8;
  mc::family("many-links", big::SHAPES * big::ORDERS * nn, [=](mc::Ctx &c) { many(c, 5, nn); }, "8 shapes of trees x 4 document orders x 5 to 12 (24) joints x 4 sets of types x 4 sets of massive links at 3 places, both functions");
  mc::family("templates-double", 9 * NPOSES * NPOSES, templates<double>, "every pair of inertials, double");
  mc::family("templates-float", 9 * NPOSES * NPOSES, templates<float>, "every pair of inertials, float");
}
