// C26: the rigid body system built from a URDF document is its mechanism
#include "urdfmass.h"
#include "bigtree.h"
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
#include <boost/property_tree/xml_parser.hpp>
#include <algorithm>
#include <sstream>
#include <stdexcept>
using namespace U;
namespace RB = AL::RigidBodySystemBuilder;
namespace {
typedef RB::Interface<double> I;
struct Item { bool link; std::string parent, name, joint; T3 at; RB::JointType type; B mass; };
struct Back : I {
  RB::Config cfg;
  std::vector<Item> out;
  const RB::Config &config() const { return cfg; }
  static T3 conv(const I::Pose &p) {
    T3 t;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.R.m[i][j] = p.linear()(i, j);
    t.p = V3{p.translation()(0), p.translation()(1), p.translation()(2)};
    return t;
  }
  void addLink(Link l) {
    Item i{true, l.parent_body, l.new_body, l.new_joint, conv(l.pose_parent_new), l.joint_type, B()};
    i.mass.m = l.body_mass.mass;
    i.mass.com = V3{l.body_mass.center_of_mass(0), l.body_mass.center_of_mass(1), l.body_mass.center_of_mass(2)};
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) i.mass.I.m[a][b] = l.body_mass.rotational_inertia(a, b);
    out.push_back(i);
  }
  void addStaticFrame(StaticFrame f) { out.push_back(Item{false, f.parent_frame, f.new_static_frame, f.new_static_transform, conv(f.pose_parent_new), RB::JointType::FreeFlyer, B()}); }
};
struct Ty { const char *type, *axis; int kind; };  // kind: 0 fixed, 1 x, 2 y, 3 z, 4 free, 5 continuous x, 6 continuous y, -1 refused
const Ty TYPES[] = {{"fixed", nullptr, 0}, {"revolute", "0 1 0", 2}, {"continuous", nullptr, 5}, {"floating", nullptr, 4}, {"prismatic", "0 0 1", -1},
                    {"revolute", nullptr, 1}, {"revolute", "0 0 1", 3}, {"revolute", "-1 0 0", -1}, {"revolute", "0.6 0 -0.8", -1}, {"planar", "0 0 1", -1}, {"continuous", "0.0 1.0 0", 6}, {"revolute", "0 1 1e-9", -1}};
const int NT = sizeof TYPES / sizeof *TYPES;
T3 inverse(const T3 &t) {
  T3 r;
  r.R = ref::tr(t.R);
  r.p = -1.0 * (r.R * t.p);
  return r;
}
void prune(Doc &d) {  // removal of the root joint
  std::string r = d.root();
  d.links.erase(d.links.begin() + d.link(r));
  for (size_t i = 0; i < d.joints.size(); ++i)
    if (d.joints[i].parent == r) { d.joints.erase(d.joints.begin() + i); break; }
}
void traverse(mc::Ctx &c, ptree &robot, const std::map<std::string, int> &kindOf, bool cont, bool rm, int setup, bool checked, bool stream) {
  const ptree before = robot;
  Doc x = parse(c, before);
  for (auto &l : x.links) c.log("link %s%s", l.name.c_str(), l.mass.present ? " with mass" : "");
  for (auto &j : x.joints) { const char *a; ptree e; (void)e; a = child(*j.pt, "axis") ? "axis" : ""; c.log("joint %s %s %s: %s -> %s", j.name.c_str(), j.type.c_str(), a, j.parent.c_str(), j.child.c_str()); }
  c.log("continuous fixed %d, root joint removed %d", cont, rm);
  // model
  bool ok = true;
  int rootJoints = 0;
  for (auto &j : x.joints) rootJoints += j.parent == x.root();
  if (rm && rootJoints != 1) ok = false;
  std::vector<int> kind;
  if (ok) {
    if (rm) prune(x);
    if (cont) for (auto &j : x.joints) if (j.type == "continuous") j.type = "fixed";
  }
  std::vector<std::vector<B>> mass(x.links.size());
  std::vector<std::string> types, names;
  std::vector<T3> fr(x.links.size());
  if (ok) {
    for (auto &j : x.joints) types.push_back(j.type);
    fold(x, x.root(), ident(), true, mass, types, names);
    if (mass[x.link(x.root())].empty()) c.skip();  // massless root: not claimed
    frames(x, x.root(), ident(), fr);
    for (size_t i = 0; i < x.joints.size(); ++i) {
      int k = TYPES[kindOf.at(x.joints[i].name)].kind;
      if (types[i] == "fixed") k = 0;
      if (k < 0) ok = false;
      kind.push_back(k);
    }
  }
  // names checked: a mobile link must not hang on a static frame
  bool checkable = ok;
  if (ok) for (size_t i = 0; i < x.joints.size(); ++i)
    if (kind[i]) for (size_t k = 0; k < x.joints.size(); ++k) if (x.joints[k].child == x.joints[i].parent && !kind[k]) checkable = false;
  Back back;
  if (setup == 1) back.cfg.galilean_frame = "world";
  if (setup == 2) { back.cfg.no_static_frame = true; back.cfg.joint_name_format = "J(%1%)"; }
  RB::NamesChecker<double> checker(back);
  I &b = checked ? static_cast<I &>(checker) : back;
  bool done = true;
  ptree doc;
  doc.add_child("robot", robot);
  try {
    if (stream) {
      std::stringstream ss;
      boost::property_tree::xml_parser::write_xml(ss, doc);
      AL::buildRigidBodySystemFromUrdf(b, ss, rm, cont);
    } else
      AL::buildRigidBodySystemFromUrdf(b, doc, rm, cont);
  } catch (const std::runtime_error &) { done = false; }
  c.step();
  bool want = checked ? checkable : ok;
  if (done != want) c.fail("accepted", "the document is %s", done ? "accepted" : "refused");
  c.compared();
  mc::Hash h;
  h.u(hash(x)).u(done).u(checked).u(setup);
  if (done) {
    std::vector<std::string> known;
    size_t n = 0;
    for (size_t i = 0; i < x.joints.size(); ++i) n += kind[i] || !back.cfg.no_static_frame;
    if (back.out.size() != n + 1) c.fail("elements", "%zu elements built instead of %zu", back.out.size(), n + 1);
    for (size_t k = 0; k < back.out.size(); ++k) {
      const Item &it = back.out[k];
      h.s(it.name).u(it.link);
      if (std::find(known.begin(), known.end(), it.name) != known.end()) c.fail("elements", "%s is built twice", it.name.c_str());
      int li = -1;
      for (size_t i = 0; i < x.links.size(); ++i) if (x.links[i].name == it.name) li = i;
      if (li < 0) c.fail("elements", "%s is not in the document", it.name.c_str());
      if (k == 0) {
        c.yes("root", it.link && it.name == x.root() && it.parent == back.cfg.galilean_frame && it.type == RB::JointType::FreeFlyer, "the root is a free flyer of the galilean frame");
        c.yes("root", it.joint == back.cfg.joint_name(it.name), "name of the root joint");
        c.near("root pose", ref::dist(it.at, ident()), 0, 0);
      } else {
        size_t ji = 0;
        while (x.joints[ji].child != it.name) ++ji;
        const Joint &j = x.joints[ji];
        c.yes("joint", it.parent == j.parent && it.joint == j.name, "names of parent and joint");
        if (!back.cfg.no_static_frame) c.yes("order", std::find(known.begin(), known.end(), it.parent) != known.end(), "a parent is built before its children");
        c.yes("kind", it.link == (kind[ji] != 0), "link or static frame");
        c.near("pose", ref::dist(it.at, j.o), 0, 1e-12);
        static const RB::JointType K[] = {RB::JointType::FreeFlyer, RB::JointType::Rx, RB::JointType::Ry, RB::JointType::Rz, RB::JointType::FreeFlyer, RB::JointType::Rx, RB::JointType::Ry};
        if (it.link && it.type != K[kind[ji]]) c.fail("type", "type %d instead of %d for %s", (int)it.type, (int)K[kind[ji]], j.name.c_str());
      }
      known.push_back(it.name);
      if (it.link) {
        // the mass of the rigid group, in the frame of the link
        B w = sum(mass[li]);
        T3 inv = inverse(fr[li]);
        B e;
        e.m = w.m;
        e.com = inv * w.com;
        e.I = inv.R * (w.I * ref::tr(inv.R));
        same(c, e, it.mass, "link");
      }
    }
  }
  c.state(h.h);
}
void trees(mc::Ctx &c, int nj, int nt, bool small = false) {
  mc::Dec dc(c.root);
  int par[4] = {0, nj > 1 ? (int)dc(2) : 0, nj > 2 ? (int)dc(3) : 0, nj > 3 ? (int)dc(4) : 0};
  int massive, rev;
  if (small) { massive = 1 + 2 * (int)dc(1 << nj); rev = (massive >> 1 ^ par[3] ^ par[2]) & 1; }
  else { massive = dc(1 << (nj + 1)); rev = dc(2); }
  int cont = c.pick(2), rm = c.pick(2), setup = nj < 3 ? c.pick(3) : (massive / 2 + par[1] + par[2]) % 3;
  int kinds[4];
  ptree robot;
  for (int i = 0; i <= nj; ++i) {
    ptree l = makeLink(std::string(1, 'a' + i), i, false);
    if (massive >> i & 1) l.push_back({"inertial", inertial((i + massive) % 3, (i * 3 + massive) % NPOSES)});
    robot.push_back({"link", l});
  }
  std::vector<ptree> js;
  for (int i = 0; i < nj; ++i) {
    const Ty &t = TYPES[kinds[i] = c.pick(nt)];
    ptree j = makeJoint("j" + std::to_string(i), std::string(1, 'a' + par[i]), std::string(1, 'b' + i), t.type, (massive * 7 + i * 4 + 1) % NPOSES, 0);
    if (t.axis) j.add_child("axis", element("xyz", t.axis));
    js.push_back(j);
  }
  if (rev) std::reverse(js.begin(), js.end());
  for (auto &j : js) robot.push_back({"joint", j});
  bool checked = setup != 2 && (nj < 3 ? c.pick(2) : rev), stream = nj < 3 && c.pick(2);
  std::map<std::string, int> kindOf;
  for (int i = 0; i < nj; ++i) kindOf["j" + std::to_string(i)] = kinds[i];
  traverse(c, robot, kindOf, cont, rm, setup, checked, stream);
}
// trees of many links
void many(mc::Ctx &c, int nmin, int nn) {
  mc::Dec d(c.root);
  int shape = d(big::SHAPES), order = d(big::ORDERS), n = nmin + (int)d(nn), names = (shape + n + order) % big::NAMES;
  int types = c.pick(5), masses = c.pick(4), opt = c.pick(4), place = c.pick(3);
  int at = place == 0 ? 0 : place == 1 ? n / 2 : n - 1;
  ptree robot;
  auto N = [&](bool l, int i) { return big::name(names, l, i); };
  for (int i : big::order(order, n + 1)) {
    ptree l = makeLink(N(true, i), i, false);
    bool m = masses == 0 || i < 2 || (masses == 1 ? i != at + 1 : masses == 2 ? i == at + 1 : (i + at) % 3 == 0);
    if (m) l.push_back({"inertial", inertial((i + n) % 3, (i * 5 + shape) % NPOSES)});
    robot.push_back({"link", l});
  }
  std::map<std::string, int> kindOf;
  for (int i : big::order((order + n) % big::ORDERS, n)) {
    // revolute; one fixed; one fixed and all below it; mixed; one unsupported
    static const int mixed[] = {0, 1, 2, 3, 5, 6, 10};
    bool below = false;
    for (int k = i + 1; k > 0; k = big::parent(shape, k, n)) below |= k == at + 1;
    int k = types == 0 ? 1 : types == 1 ? (i == at ? 0 : 1) : types == 2 ? (below ? 0 : 6) : types == 3 ? mixed[(i * 3 + at) % 7] : (i == at ? 4 : 5);
    const Ty &t = TYPES[k];
    kindOf[N(false, i)] = k;
    ptree j = makeJoint(N(false, i), N(true, big::parent(shape, i + 1, n)), N(true, i + 1), t.type, (n + i * 4 + 1) % NPOSES, 0);
    if (t.axis) j.add_child("axis", element("xyz", t.axis));
    robot.push_back({"joint", j});
  }
  c.log("%s of %d joints", big::shapeName(shape), n);
  traverse(c, robot, kindOf, opt & 1, opt >> 1, (n + at) % 3, (n + at) % 3 != 2 && (shape + order) % 2, (n + place) % 2);
}
// masses and distances of all scales, compared to scale
void scales(mc::Ctx &c) {
  mc::Dec d(c.root);
  const int K[] = {-1, 0, 3, 4, 5, 6, 7}, P[] = {0, 1, 2, 12, 13, 14, 15, 16, 17, 18};
  int ka = 1 + (int)d(5), kb = d(7), ke = d(7), pa = P[d(10)], o = P[d(10)], ty = d(4);
  ptree robot;
  auto mk = [&](const char *n, int k, int p) {
    ptree l = element("name", n);
    if (k >= 0) l.push_back({"inertial", inertial(k, p)});
    return l;
  };
  robot.push_back({"link", mk("a", K[ka], pa)});
  robot.push_back({"link", mk("b", K[kb], o)});
  robot.push_back({"link", mk("e", K[ke], pa)});
  robot.push_back({"joint", makeJoint("j", "a", "b", ty & 1 ? "revolute" : "fixed", o, 1)});
  robot.push_back({"joint", makeJoint("k", "b", "e", ty & 2 ? "revolute" : "fixed", pa, 1)});
  const ptree before = robot;
  Doc x = parse(c, before);
  std::vector<T3> fr(x.links.size());
  frames(x, x.root(), ident(), fr);
  std::vector<std::vector<B>> ms(x.links.size());
  std::vector<std::string> types, names;
  for (auto &j : x.joints) types.push_back(j.type);
  fold(x, x.root(), ident(), true, ms, types, names);
  c.log("masses %d %d %d poses %d %d", K[ka], K[kb], K[ke], pa, o);
  Back back;
  ptree doc;
  doc.add_child("robot", robot);
  AL::buildRigidBodySystemFromUrdf(back, doc, false, false);
  c.step();
  c.yes("elements", back.out.size() == 3, "three elements");
  for (size_t i = 0; i < 3; ++i) {
    const Item &it = back.out[i];
    int li = x.link(it.name);
    if (i) {
      c.yes("kind", it.link == (types[li - 1] != "fixed"), "a link exactly when the joint moves some mass, however light");
      c.near("pose", ref::dist(it.at, x.joints[li - 1].o), 0, 1e-15 * (1 + ref::norm(x.joints[li - 1].o.p)));
    }
    if (!it.link) continue;
    B w = sum(ms[li]);
    T3 inv = inverse(fr[li]);
    V3 com = w.m > 0 ? inv * w.com : V3();
    M3 I = inv.R * (w.I * ref::tr(inv.R));
    double len = 0, in = 0;
    for (auto &b : ms[li]) { len = std::max(len, ref::norm(b.com - w.com)); for (auto &r : b.I.m) for (double v : r) in = std::max(in, std::fabs(v)); }
    double far = ref::norm(w.com) + ref::norm(fr[li].p), r = 1e-12;
    c.near("mass", it.mass.m, w.m, r * w.m);
    if (w.m > 0) for (int k = 0; k < 3; ++k) c.near("centre of mass", it.mass.com[k], com[k], r * (len + far) + 1e-15);
    double tol = 100 * r * (in + w.m * (len * len + len * far * 1e-3)) + 1e-14 * w.m * far * far;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) c.near("inertia", it.mass.I.m[a][b], I.m[a][b], tol);
  }
  c.state(mc::Hash().u(c.root).h);
}
// every axis over 9 values: only the three coordinate axes are supported
void axes(mc::Ctx &c) {
  mc::Dec d(c.root);
  const char *V[] = {"0", "1", "-1", "2", "0.5", "1e-9", "0.999999999999", "-0", "1.0"};
  const double W[] = {0, 1, -1, 2, 0.5, 1e-9, 0.999999999999, 0, 1};
  int a = d(9), b = d(9), e = d(9), type = d(2), cont = d(2);
  ptree robot;
  for (int i = 0; i < 2; ++i) {
    ptree l = makeLink(std::string(1, 'a' + i), i, false);
    l.push_back({"inertial", inertial(i, 1)});
    robot.push_back({"link", l});
  }
  ptree j = makeJoint("j0", "a", "b", type ? "continuous" : "revolute", 4, 0);
  j.add_child("axis", element("xyz", (std::string(V[a]) + " " + V[b] + " " + V[e]).c_str()));
  robot.push_back({"joint", j});
  ptree doc;
  doc.add_child("robot", robot);
  Back back;
  bool done = true;
  try { AL::buildRigidBodySystemFromUrdf(back, doc, false, cont); } catch (const std::runtime_error &) { done = false; }
  c.step();
  const double x[] = {W[a], W[b], W[e]};
  int kind = -1;
  for (int i = 0; i < 3; ++i)
    if (x[i] == 1 && x[(i + 1) % 3] == 0 && x[(i + 2) % 3] == 0) kind = i;
  bool fixed = type && cont;
  c.log("%s joint about %s %s %s", type ? "continuous" : "revolute", V[a], V[b], V[e]);
  c.yes("axis", done == (fixed || kind >= 0), done ? "an axis which is not a coordinate axis is accepted" : "a coordinate axis is refused");
  if (done && !fixed) {
    const RB::JointType K[] = {RB::JointType::Rx, RB::JointType::Ry, RB::JointType::Rz};
    c.yes("axis", back.out.size() == 2 && back.out[1].link && back.out[1].type == K[kind], "a joint about that axis");
  }
  if (done && fixed) c.yes("axis", back.out.size() == 2 && !back.out[1].link, "a static frame");
  c.state(mc::Hash().u(c.root).h);
}
}
void mc::setup() {
  mc::family("axes", 9 * 9 * 9 * 4, axes, "one revolute or continuous joint about every axis over 9 values");
  bool th = mc::thorough();
  mc::family("scales", 5 * 49 * 100 * 4, scales, "3 links, masses absent, 1e-9 to 2e4 kg and null ones, 10 poses each from 1e-12 to 90 m, fixed or revolute joints, compared to scale");
  int nn = th ? 20 : 6;
  mc::family("many-links", big::SHAPES * big::ORDERS * nn, [=](mc::Ctx &c) { many(c, 5, nn); }, "8 shapes of trees x 4 document orders x 5 to 10 (24) joints x 5 sets of types x 4 sets of massive links at 3 places, options");
  mc::family("trees-1", 4 * 2, [](mc::Ctx &c) { trees(c, 1, NT); }, "all trees of 2 links, 12 kinds of joints, massive links, options");
  mc::family("trees-2", 2 * 8 * 2, [](mc::Ctx &c) { trees(c, 2, NT); }, "all trees of 3 links, 12 kinds of joints, massive links, options");
  mc::family("trees-3", 6 * 16 * 2, [=](mc::Ctx &c) { trees(c, 3, th ? NT : 5); }, "all trees of 4 links, 5 (12) kinds of joints, massive links, options");
  mc::family("trees-4", 24 * (th ? 64 : 16), [=](mc::Ctx &c) { trees(c, 4, th ? 5 : 3, !th); }, "all trees of 5 links, 3 (5) kinds of joints, massive links, options");
}
