// C19: re-rooting and frame transport describe the same mechanism
#include "urdfref.h"
#include "bigtree.h"
#include <algorithm>
#include <stdexcept>
using namespace U;
namespace {
thread_local double TOL = 1e-7;
const char *TYPES[] = {"revolute", "prismatic", "fixed", "continuous", "floating", "planar"};
std::string L(int i) { return std::string(1, "rmbxa"[i]); }
std::string J(int i) { return std::string("j") + "dbca"[i]; }
// what a joint says besides its links, frame and axis
ptree rest(const ptree &j) {
  ptree r;
  for (auto &e : j)
    if (e.first != "parent" && e.first != "child" && e.first != "origin" && e.first != "axis") r.push_back(e);
  return r;
}
// same mechanism, seen from another root frame
void same(mc::Ctx &c, const Doc &a, const Doc &b) {
  c.yes("elements", a.links.size() == b.links.size() && a.joints.size() == b.joints.size(), "no link or joint may appear or vanish");
  std::vector<std::string> order;
  for (auto &j : a.joints) order.push_back(j.name);
  for (int cfg = 0; cfg < 3; ++cfg) {
    std::vector<Body> x, y;
    place(a, order, a.root(), ident(), cfg, x);
    place(b, order, b.root(), ident(), cfg, y);
    if (x.size() != y.size()) c.fail("attached elements", "%zu attached elements instead of %zu", y.size(), x.size());
    T3 G;
    for (size_t i = 0; i < x.size(); ++i) {
      size_t k = 0;
      while (k < y.size() && !(y[k].link == x[i].link && y[k].what == x[i].what)) ++k;
      if (k == y.size()) c.fail("attached elements", "element %d of link %s vanished", x[i].what, x[i].link.c_str());
      T3 g = y[k].at * ref::inv(x[i].at);
      if (i == 0) G = g;
      double e = ref::dist(g, G);
      if (!(e < TOL)) c.fail("kinematics", "configuration %d: element %d of link %s is %g away from the original mechanism", cfg, x[i].what, x[i].link.c_str(), e);
      c.compared();
    }
  }
  for (auto &j : a.joints) {
    const Joint &k = b.joints[b.joint(j.name)];
    c.yes("joint", k.type == j.type && k.mimic == j.mimic, "type and mimic of a joint are kept");
    c.yes("joint", rest(*k.pt) == rest(*j.pt), "limits, dynamics and mimic parameters of a joint are kept: its values mean the same motion");
  }
}
bool rigid(const std::string &t) { return t == "floating" || t == "planar"; }
void define(mc::Ctx &c, ptree &robot, AL::urdf::RobotTree &t, const std::string &name) {
  const ptree before = robot;
  Doc a = parse(c, before);
  // path from the new root up to the old one
  std::vector<Joint> path;
  std::string at = name;
  bool blocked = false;
  if (a.link(name) < 0) blocked = true;
  else
    while (at != a.root()) {
      for (auto &j : a.joints)
        if (j.child == at) { path.push_back(j); blocked |= rigid(j.type); at = j.parent; break; }
    }
  int th = 0;
  try { t.define_as_root_link(name); } catch (const std::runtime_error &) { th = 1; } catch (const std::out_of_range &) { th = 2; }
  c.step();
  c.log("define_as_root_link(%s)%s", name.c_str(), th ? " refused" : "");
  if (a.link(name) < 0) c.yes("refused", th == 2, "an unknown link must be refused");
  else c.yes("refused", th == (blocked ? 1 : 0), blocked ? "a path with a multi-dof joint must be refused" : "a valid new root was refused");
  if (th) {
    c.yes("refused", robot == before, "a refused change of root leaves the document alone");
    return;
  }
  Doc b = parse(c, robot);
  c.yes("root", t.root_link() == name && b.root() == name, "the new root");
  same(c, a, b);
  for (auto &l : a.links) {
    const Link &m = b.links[b.link(l.name)];
    // frames: a link on the path moves onto the joint that now carries it
    const Joint *moved = nullptr;
    for (auto &j : path)
      if (j.parent == l.name) moved = &j;
    if (!moved) c.yes("other links", *m.pt == *l.pt, "links which are not on the path, and the new root, are left alone");
    else {
      T3 io = ref::inv(moved->o);
      for (size_t i = 0; i < l.attached.size(); ++i)
        c.near("frames of the path", ref::dist(m.attached[i], io * l.attached[i]), 0, TOL);
      if (l.mass.present) c.near("frames of the path", ref::dist(m.mass.at, io * l.mass.at), 0, TOL);
    }
    c.yes("masses", m.mass.present == l.mass.present && m.mass.m == l.mass.m && ref::dist(m.mass.I, l.mass.I) == 0, "masses are kept");
  }
  for (auto &j : a.joints) {
    const Joint &k = b.joints[b.joint(j.name)];
    bool on = false, carried = false;
    for (auto &p : path) { on = on || p.name == j.name; carried = carried || p.parent == j.parent; }
    if (on) c.yes("flipped joint", k.parent == j.child && k.child == j.parent, "a joint on the path exchanges its links");
    else c.yes("other joints", k.parent == j.parent && k.child == j.child && (k.axis.x == j.axis.x && k.axis.y == j.axis.y && k.axis.z == j.axis.z), "a joint beside the path keeps its links and axis");
    if (!on && !carried) c.yes("other joints", *k.pt == *j.pt, "a joint away from the path is left alone");
  }
}
void transport(mc::Ctx &c, ptree &robot, AL::urdf::RobotTree &t, int k) {
  const ptree before = robot;
  Doc a = parse(c, before);
  t.transport_root_link_frame(apiPose(k));
  c.step();
  c.log("transport_root_link_frame(%s, %s)", POSES[k].xyz ? POSES[k].xyz : "-", POSES[k].rpy ? POSES[k].rpy : "-");
  Doc b = parse(c, robot);
  c.yes("root", t.root_link() == a.root() && b.root() == a.root(), "the root is kept");
  same(c, a, b);
  T3 ip = ref::inv(refPose(k));
  for (auto &l : a.links) {
    const Link &m = b.links[b.link(l.name)];
    if (l.name != a.root()) c.yes("other links", *m.pt == *l.pt, "only the root link changes");
    else {
      for (size_t i = 0; i < l.attached.size(); ++i) c.near("transported", ref::dist(m.attached[i], ip * l.attached[i]), 0, TOL);
      if (l.mass.present) c.near("transported", ref::dist(m.mass.at, ip * l.mass.at), 0, TOL);
    }
  }
  for (auto &j : a.joints) {
    const Joint &k = b.joints[b.joint(j.name)];
    if (j.parent != a.root()) c.yes("other joints", *k.pt == *j.pt, "only the joints of the root link change");
    else c.near("transported", ref::dist(k.o, ip * j.o), 0, TOL);
  }
}
void operate(mc::Ctx &c, ptree &robot, int nl, int depth) {
  const ptree start = robot;
  Doc d0 = parse(c, start);
  AL::urdf::RobotTree t(robot);
  for (int s = 0; s < depth; ++s) {
    // quick: a window of 3 of the 12 poses, which moves with the root
    int op = c.pick(nl + 1 + (mc::thorough() ? NPOSES : 3));
    if (op <= nl) define(c, robot, t, op == nl ? "nowhere" : L(op));
    else transport(c, robot, t, mc::thorough() ? op - nl - 1 : (op * 3 + (int)(c.root % 1009)) % NPOSES);
    Doc d = parse(c, robot);
    c.state(hash(d));
  }
  same(c, d0, parse(c, robot));
}
// 4 links, 3 joints: every tree, type and origin
void small(mc::Ctx &c, int depth, int nt, int np) {
  mc::Dec d(c.root);
  int nj = 3;
  ptree robot;
  int p1 = d(2), p2 = d(3);
  int par[3] = {0, p1, p2};
  int seed = d(mc::thorough() ? 2 : 1);
  std::vector<std::pair<std::string, ptree>> e;
  for (int i = 0; i <= nj; ++i) robot.push_back({"link", makeLink(L(i), seed * 5 + 3 * i, (i + seed) % 3 != 2)});
  for (int i = 0; i < nj; ++i) {
    int ty = d(nt), po = d(np), ax = (ty + 2 * po + i) % 4;
    static const int pick[] = {2, 0, 4, 1, 6, 8};
    robot.push_back({"joint", makeJoint(J(i), L(par[i]), L(i + 1), TYPES[ty], pick[po], ax, i == 2 ? J(0) : "")});
    c.log("joint %s: %s -> %s %s origin %d axis %d", J(i).c_str(), L(par[i]).c_str(), L(i + 1).c_str(), TYPES[ty], pick[po], ax);
  }
  operate(c, robot, nj + 1, depth);
}
// chains and stars of 5 links
void large(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  int nj = 4;
  ptree robot;
  int par[4] = {0, (int)d(2), (int)d(3), (int)d(4)};
  int types = d(4), po = d(mc::thorough() ? NPOSES : 3), po2 = d(3), axis = d(mc::thorough() ? 4 : 1);
  if (!mc::thorough()) { po = po * 3 + 2; axis = po2 + types; }
  for (int i = 0; i <= nj; ++i) robot.push_back({"link", makeLink(L(i), po + i, true)});
  for (int i = 0; i < nj; ++i) {
    int ty = types == 0 ? 0 : types == 1 ? i % 4 : types == 2 ? (3 - i) % 4 : (i == 2 ? 4 : i % 3);
    robot.push_back({"joint", makeJoint(J(i), L(par[i]), L(i + 1), TYPES[ty], (po + i * (1 + po2)) % NPOSES, (axis + i) % 4, i == 3 ? J(1) : "")});
  }
  operate(c, robot, nj + 1, depth);
}
// trees of many links: every new root, there and back, then a transport
void many(mc::Ctx &c, int nmin, int nn) {
  mc::Dec d(c.root);
  int shape = d(big::SHAPES), order = d(big::ORDERS), n = nmin + (int)d(nn), ty = d(3), names = (shape + n + order) % big::NAMES;
  ptree robot;
  auto N = [&](bool l, int i) { return big::name(names, l, i); };
  for (int i : big::order(order, n + 1)) robot.push_back({"link", makeLink(N(true, i), n + 3 * i, (i + n) % 3 != 1)});
  for (int i : big::order((order + n) % big::ORDERS, n)) {
    int far = n - 2;  // ty 2: one joint deep in the tree cannot be flipped
    const char *type = ty == 2 && i == far ? "floating" : ty ? TYPES[i % 4] : "revolute";
    robot.push_back({"joint", makeJoint(N(false, i), N(true, big::parent(shape, i + 1, n)), N(true, i + 1), type, (3 * i + n) % NPOSES, (i + order) % 4, i % 5 == 4 ? N(false, i - 3) : "")});
  }
  c.log("%s of %d joints", big::shapeName(shape), n);
  const ptree start = robot;
  Doc d0 = parse(c, start);
  AL::urdf::RobotTree t(robot);
  define(c, robot, t, N(true, c.pick(n + 1)));
  transport(c, robot, t, (n + shape) % NPOSES);
  define(c, robot, t, N(true, (n * 2) / 3));
  define(c, robot, t, N(true, 0));
  Doc e = parse(c, robot);
  same(c, d0, e);
  c.state(hash(e));
}
// every pair of transports of a root with every pose
void transports(mc::Ctx &c) {
  mc::Dec d(c.root);
  int a = d(NPOSES), b = d(NPOSES), k1 = d(NPOSES), k2 = d(NPOSES);
  ptree robot;
  robot.push_back({"link", makeLink("r", a, true)});
  robot.push_back({"link", makeLink("m", b, true)});
  robot.push_back({"link", makeLink("b", b, false)});
  robot.push_back({"joint", makeJoint("jd", "r", "m", "revolute", b, 1)});
  robot.push_back({"joint", makeJoint("jb", "r", "b", "floating", a, 1)});
  const ptree start = robot;
  Doc d0 = parse(c, start);
  AL::urdf::RobotTree t(robot);
  transport(c, robot, t, k1);
  transport(c, robot, t, k2);
  define(c, robot, t, "m");
  transport(c, robot, t, k1);
  Doc e = parse(c, robot);
  same(c, d0, e);
  c.state(hash(e));
}
// poses of all scales, compared to scale: nothing small is taken for null
void scales(mc::Ctx &c) {
  mc::Dec d(c.root);
  const int P[] = {0, 1, 3, 12, 13, 14, 15, 16, 17, 18};
  int a = P[d(10)], b = P[d(10)], e = P[d(10)], op = d(13);
  TOL = 1e-13 * (a == 18 || b == 18 || e == 18 || op == 9 ? 1000 : 10);
  ptree robot;
  auto mk = [&](const char *n, int p, int q) {
    ptree l = element("name", n), v, g;
    g.put("sphere.<xmlattr>.radius", "0.1");
    putOrigin(v, p);
    v.push_back({"geometry", g});
    l.push_back({"visual", v});
    l.push_back({"collision", v});
    l.push_back({"inertial", inertial(0, q)});
    return l;
  };
  robot.push_back({"link", mk("r", e, b)});
  robot.push_back({"link", mk("m", b, e)});
  robot.push_back({"link", mk("b", a, e)});
  robot.push_back({"joint", makeJoint("jd", "r", "m", "revolute", a, 1)});
  robot.push_back({"joint", makeJoint("jb", "m", "b", "prismatic", b, 0)});
  robot.push_back({"joint", makeJoint("jc", "r", "x", "fixed", e, 1)});
  robot.push_back({"link", mk("x", a, b)});
  c.log("origins %d %d %d", a, b, e);
  const ptree start = robot;
  Doc d0 = parse(c, start);
  AL::urdf::RobotTree t(robot);
  if (op < 10) transport(c, robot, t, P[op]);
  else {
    define(c, robot, t, op == 10 ? "m" : op == 11 ? "b" : "x");
    transport(c, robot, t, P[(a + e) % 9]);
    define(c, robot, t, "r");
  }
  Doc z = parse(c, robot);
  same(c, d0, z);
  c.state(hash(z));
  TOL = 1e-7;
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  int np = th ? 4 : 2;
  uint64_t per = 3ull * np;
  mc::family("small", 6 * (th ? 2 : 1) * per * per * per, [=](mc::Ctx &c) { small(c, 2, 3, np); }, "all trees of 4 links x revolute, prismatic or fixed joints x origins, every pair of changes of root (each link, or an unknown one) and transports (12 poses; quick: 3 of them)");
  mc::family("small-multi-dof", 6 * (th ? 2 : 1) * 12 * 12 * 12, [=](mc::Ctx &c) { small(c, 1, 6, 2); }, "same, all 6 joint types, one operation");
  mc::family("large", 24 * 4 * (th ? NPOSES : 3) * 3 * (th ? 4 : 1), [=](mc::Ctx &c) { large(c, 2); }, "all trees of 5 links x joint types x origins x axes, every sequence of 2 operations over 18 (quick: 9)");
  int nn = th ? 20 : 8;
  mc::family("many-links", big::SHAPES * big::ORDERS * nn * 3, [=](mc::Ctx &c) { many(c, 5, nn); }, "8 shapes of trees x 4 document orders x 5 to 12 (24) joints x 3 sets of types: every link made root, a transport, another root and back");
  mc::family("scales", 13000, scales, "4 links, 10 poses each for the joints and elements, from 1e-12 to 90 m and 1e-12 to 3 rad, every transport and every new root, compared to 1e-12");
  mc::family("transports", NPOSES * NPOSES * NPOSES * NPOSES, transports, "all poses of the elements and of two transports");
}
