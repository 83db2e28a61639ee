// C20: after any history of edits the index and the document agree with a
// plain model of the tree
#include "urdfref.h"
#include "bigtree.h"
#include <algorithm>
#include <memory>
#include <set>
#include <stdexcept>
using namespace U;
namespace {
const char *TYPES[] = {"revolute", "continuous", "fixed", "prismatic", "floating", "planar"};
thread_local int style = -1;  // -1: short names, otherwise a style of bigtree.h
std::string L(int i) { return style < 0 ? std::string(1, "rmbxa"[i]) : big::name(style, true, i); }
std::string J(int i) { return style < 0 ? std::string("j") + "dbca"[i] : big::name(style, false, i); }
struct MJ { std::string name, type, parent, child, mimic; int axis; };  // axis: 0 none, 1 given, -1 opposite
struct Model {
  std::vector<std::string> links;
  std::vector<MJ> joints;
  std::set<std::string> massive;  // links with a mass
  // masses of the children of fixed joints go to their parents, children
  // first; mobile joints whose child has no mass become fixed
  void massless(const std::string &l, std::vector<std::string> &out) {
    for (auto &j : joints) {
      if (j.parent != l) continue;
      massless(j.child, out);
      if (j.type == "fixed") {
        if (massive.erase(j.child)) massive.insert(j.parent);
      } else if (!massive.count(j.child)) {
        j.type = "fixed";
        j.axis = 0;
        out.push_back(j.name);
      }
    }
  }
  std::string root() const {
    for (auto &l : links) {
      bool r = true;
      for (auto &j : joints) r = r && j.child != l;
      if (r) return l;
    }
    return "";
  }
  int find(const std::string &n) const {
    for (size_t i = 0; i < joints.size(); ++i) if (joints[i].name == n) return (int)i;
    return -1;
  }
  void dropLink(const std::string &n) { massive.erase(n); links.erase(std::find(links.begin(), links.end(), n)); }
  bool rmRoot() {
    std::string r = root();
    int n = 0, at = -1;
    for (size_t i = 0; i < joints.size(); ++i) if (joints[i].parent == r) { ++n; at = (int)i; }
    if (n != 1) return false;
    dropLink(r);
    joints.erase(joints.begin() + at);
    return true;
  }
  bool rmLeaf(const std::string &name) {
    int i = find(name);
    if (i < 0) return false;
    for (auto &j : joints) if (j.parent == joints[i].child) return false;
    dropLink(joints[i].child);
    joints.erase(joints.begin() + i);
    return true;
  }
  bool define(const std::string &l) {
    if (std::find(links.begin(), links.end(), l) == links.end()) return false;
    std::vector<int> path;
    std::string at = l;
    while (at != root()) {
      for (size_t i = 0; i < joints.size(); ++i)
        if (joints[i].child == at) { path.push_back((int)i); at = joints[i].parent; break; }
    }
    for (int i : path) if (joints[i].type == "floating" || joints[i].type == "planar") return false;
    for (int i : path) {
      std::swap(joints[i].parent, joints[i].child);
      if (joints[i].type != "fixed") joints[i].axis = joints[i].axis == 1 ? -1 : joints[i].axis == -1 ? 1 : 2;
    }
    return true;
  }
  void subtree(const std::string &l, std::vector<std::string> &out) const {
    for (auto &j : joints) if (j.parent == l) { out.push_back(j.name); subtree(j.child, out); }
  }
  bool dangling() const {
    for (auto &j : joints) if (!j.mimic.empty() && find(j.mimic) < 0) return true;
    return false;
  }
};
ptree withMass(const Model &m, const std::string &n) {
  ptree l = element("name", n);
  if (m.massive.count(n)) l.push_back({"inertial", inertial(n.size() % 3, n[n.size() - 1] % NPOSES)});
  return l;
}
void agree(mc::Ctx &c, AL::urdf::RobotTree &t, const ptree &robot, const Model &m) {
  Doc d = parse(c, robot);
  c.yes("links", d.links.size() == m.links.size(), "links of the document");
  for (size_t i = 0; i < m.links.size(); ++i) c.yes("links", d.links[i].name == m.links[i], "links of the document, in order");
  for (auto &l : d.links) c.yes("masses", l.mass.present == (m.massive.count(l.name) > 0), "links with a mass");
  c.yes("joints", d.joints.size() == m.joints.size(), "joints of the document");
  for (size_t i = 0; i < m.joints.size(); ++i) {
    const MJ &x = m.joints[i];
    const Joint &j = d.joints[i];
    if (j.name != x.name || j.type != x.type || j.parent != x.parent || j.child != x.child || j.mimic != x.mimic)
      c.fail("joints", "joint %zu is %s %s: %s -> %s, expected %s %s: %s -> %s", i, j.name.c_str(), j.type.c_str(), j.parent.c_str(), j.child.c_str(), x.name.c_str(), x.type.c_str(), x.parent.c_str(), x.child.c_str());
    bool ax = child(*j.pt, "axis");
    if (x.axis == 0) c.yes("axis", !ax, "a fixed or floating joint has no axis left");
    c.yes("limits", child(*j.pt, "limit"), "other elements of a joint are kept");
  }
  index(c, t, robot, d, "index");
  // the edited document, read again
  if (!m.dangling()) {
    ptree copy = robot;
    std::unique_ptr<AL::urdf::RobotTree> u;
    try { u.reset(new AL::urdf::RobotTree(copy)); } catch (const std::runtime_error &e) { c.fail("read again", "the edited document is refused: %s", e.what()); }
    Rec a, b;
    static_cast<const AL::urdf::RobotTree &>(t).traverse_joints(a);
    static_cast<const AL::urdf::RobotTree &>(*u).traverse_joints(b);
    c.yes("read again", a.out == b.out, "the edited tree is traversed as when its document is read again");
    c.yes("read again", u->root_link() == t.root_link(), "root of the document read again");
    c.yes("read again", u->is_mimic_tree_flat() == t.is_mimic_tree_flat(), "mimic tree of the document read again");
  }
  c.state(hash(d));
}
void edit(mc::Ctx &c, AL::urdf::RobotTree &t, ptree &robot, Model &m, int nj, bool fixedPlace = false) {
  const ptree before = robot;
  // 0 rm_root, then rm_leaf (nj + unknown), define (nj+1), fixed, floating,
  // remove subtree (nj, pair, by type, all), continuous, massless
  int nop = 1 + (nj + 1) + (nj + 1) + nj + nj + nj + 3 + 2;
  int op = fixedPlace ? (int)((c.choices.empty() ? 0 : c.choices.back() * 5) + c.root * 11 + 3) % nop : c.pick(nop);
  bool ok = false, did = false;
  std::vector<std::string> names, want;
  bool lists = false;
  auto call = [&](auto f) {
    try { f(); did = true; } catch (const std::runtime_error &) {} catch (const std::out_of_range &) {}
  };
  if (op == 0) {
    c.log("rm_root_joint");
    ok = m.rmRoot();
    call([&] { t.rm_root_joint(); });
  } else if ((op -= 1) <= nj) {
    std::string n = op == nj ? "nowhere" : J(op);
    c.log("rm_leaf_joint %s", n.c_str());
    ok = m.rmLeaf(n);
    call([&] { t.rm_leaf_joint(n); });
  } else if ((op -= nj + 1) <= nj) {
    c.log("define_as_root_link %s", L(op).c_str());
    ok = m.define(L(op));
    call([&] { t.define_as_root_link(L(op)); });
  } else if ((op -= nj + 1) < nj) {
    c.log("makeJointFixed %s", J(op).c_str());
    int i = m.find(J(op));
    ok = i >= 0;
    if (ok) { m.joints[i].type = "fixed"; m.joints[i].axis = 0; }
    call([&] { AL::urdf::makeJointFixed(t, J(op)); });
  } else if ((op -= nj) < nj) {
    c.log("makeJointFloating %s", J(op).c_str());
    int i = m.find(J(op));
    ok = i >= 0;
    if (ok) { m.joints[i].type = "floating"; m.joints[i].axis = 0; }
    call([&] { AL::urdf::makeJointFloating(t, J(op)); });
  } else if ((op -= nj) < nj + 3) {
    std::set<std::string> sel;
    std::string type;
    if (op < nj) sel.insert(J(op));
    else if (op == nj) { sel.insert(J(0)); sel.insert(J(nj - 1)); }
    else if (op == nj + 1) type = "fixed";
    else sel.insert("none");
    c.log("removeSubTreeIfJoint (%s%s)", type.c_str(), sel.empty() ? "" : sel.begin()->c_str());
    auto pred = [&](const ptree &j) { return type.empty() ? sel.count(attr(j, "name")) > 0 : attr(j, "type") == type; };
    std::vector<std::string> all;
    m.subtree(m.root(), all);
    std::set<std::string> gone;
    for (auto &n : all) {  // pre-order: a parent comes before its children
      const MJ &j = m.joints[m.find(n)];
      bool hit = type.empty() ? sel.count(n) > 0 : j.type == type;
      for (auto &p : m.joints) if (p.child == j.parent && gone.count(p.name)) hit = true;
      if (hit) { gone.insert(n); want.push_back(n); }
    }
    for (auto it = want.rbegin(); it != want.rend(); ++it) m.rmLeaf(*it);
    ok = lists = true;
    call([&] { names = AL::urdf::removeSubTreeIfJoint(t, pred); });
  } else if ((op -= nj + 3) == 0) {
    c.log("makeMasslessJointsFixed");
    m.massless(m.root(), want);
    ok = lists = true;
    call([&] { names = AL::urdf::makeMasslessJointsFixed(t); });
  } else {
    c.log("makeContinuousJointsFixed");
    std::vector<std::string> all;
    m.subtree(m.root(), all);
    for (auto &n : all) {
      MJ &j = m.joints[m.find(n)];
      if (j.type == "continuous") { j.type = "fixed"; j.axis = 0; want.push_back(n); }
    }
    ok = lists = true;
    call([&] { names = AL::urdf::makeContinuousJointsFixed(t); });
  }
  c.step();
  c.yes("accepted", did == ok, ok ? "a valid edit was refused" : "an invalid edit was accepted");
  if (!ok) c.yes("refused", robot == before, "a refused edit leaves the document alone");
  if (lists) {
    if (names != want) {
      for (auto &n : names) c.log("  got %s", n.c_str());
      for (auto &n : want) c.log("  expected %s", n.c_str());
      c.fail("names", "the returned names must be those of the changed joints, in order of traversal");
    }
    c.compared();
  }
  agree(c, t, robot, m);
}
void history(mc::Ctx &c, int nj, int nperm, int depth) {
  style = -1;
  mc::Dec d(c.root);
  int par[4] = {0, nj > 1 ? (int)d(2) : 0, nj > 2 ? (int)d(3) : 0, nj > 3 ? (int)d(4) : 0};
  int perm = d(nperm), ty = d(3), mi = d(2);
  std::vector<int> p;
  for (int i = 0; i < nj; ++i) p.push_back(i);
  if (nj == 4) perm = perm * 24 / nperm + perm % 3;  // quick: spread over the permutations
  for (int i = 0; i < perm; ++i) std::next_permutation(p.begin(), p.end());
  Model m;
  ptree robot = element("name", "robot");
  for (int i = 0; i <= nj; ++i) m.links.push_back(L((i + perm) % (nj + 1)));
  for (int i = 0; i < nj; ++i) {
    int k = p[i];
    MJ j;
    j.name = J(k);
    j.type = ty == 0 ? TYPES[k % 4] : ty == 1 ? TYPES[1] : TYPES[k == 1 ? 4 : k == 2 ? 5 : 0];
    j.parent = L(par[k]);
    j.child = L(k + 1);
    j.mimic = mi == 1 && k > 0 ? J(k == 1 ? 0 : k - 1 - k % 2) : "";
    j.axis = 1;
    m.joints.push_back(j);
  }
  for (int i = 0; i <= nj; ++i) if ((i * 2 + perm + ty) % 3) m.massive.insert(L(i));
  // links and joints interleaved
  size_t a = 0, b = 0;
  while (a < m.links.size() || b < m.joints.size()) {
    if (b >= m.joints.size() || (a < m.links.size() && (a + perm) % 2 == 0) || (a < m.links.size() && b > a)) { robot.push_back({"link", withMass(m, m.links[a++])}); }
    else {
      const MJ &j = m.joints[b++];
      robot.push_back({"joint", makeJoint(j.name, j.parent, j.child, j.type.c_str(), (int)(b + perm) % 5, 1 + (int)b % 3, j.mimic)});
    }
    if ((a + b) % 3 == 0) robot.push_back({"gazebo", element("reference", "x")});
  }
  for (auto &j : m.joints) c.log("joint %s %s: %s -> %s %s", j.name.c_str(), j.type.c_str(), j.parent.c_str(), j.child.c_str(), j.mimic.c_str());
  AL::urdf::RobotTree t(robot);
  agree(c, t, robot, m);
  for (int s = 0; s < depth; ++s) edit(c, t, robot, m, nj);
}
// trees of many links: every edit, then another edit at a moving place
void many(mc::Ctx &c, int nmin, int nn) {
  mc::Dec d(c.root);
  int shape = d(big::SHAPES), order = d(big::ORDERS), n = nmin + (int)d(nn), ty = d(3);
  style = (shape + n + order + ty) % big::NAMES;
  Model m;
  ptree robot = element("name", "robot");
  auto lo = big::order(order, n + 1), jo = big::order((order + n) % big::ORDERS, n);
  for (int i : lo) m.links.push_back(L(i));
  for (int i : jo) {
    MJ j;
    j.name = J(i);
    j.type = ty == 0 ? TYPES[(i * 3 + n) % 4] : ty == 1 ? TYPES[1] : TYPES[i == n - 2 ? 4 : i == n / 2 ? 5 : i % 3];
    j.parent = L(big::parent(shape, i + 1, n));
    j.child = L(i + 1);
    // joints mimic one nearer to the root, so that few removals dangle
    int k = (n + shape) % 2 ? big::parent(shape, i + 1, n) - 1 : -1;
    j.mimic = k >= 0 && i % 3 ? J(k) : "";
    j.axis = 1;
    m.joints.push_back(j);
  }
  for (int i = 0; i <= n; ++i) if ((i * 5 + n + shape) % (2 + ty)) m.massive.insert(L(i));
  size_t a = 0, b = 0;
  while (a < m.links.size() || b < m.joints.size()) {
    if (b >= m.joints.size() || (a < m.links.size() && (order == 3 ? a <= b : a < 3 || order < 2))) robot.push_back({"link", withMass(m, m.links[a++])});
    else {
      const MJ &j = m.joints[b++];
      robot.push_back({"joint", makeJoint(j.name, j.parent, j.child, j.type.c_str(), (int)b % 5, 1 + (int)b % 3, j.mimic)});
    }
    if ((a + b) % 5 == 0) robot.push_back({"gazebo", element("reference", "x")});
  }
  c.log("%s of %d joints", big::shapeName(shape), n);
  AL::urdf::RobotTree t(robot);
  agree(c, t, robot, m);
  edit(c, t, robot, m, n);
  edit(c, t, robot, m, n, true);
}
// removing a joint which is mimicked by another one that stays
void dangling(mc::Ctx &c) {
  int how = (int)c.root;
  ptree robot = element("name", "robot");
  for (auto n : {"a", "b", "c"}) robot.push_back({"link", element("name", n)});
  bool chain = how == 1;
  robot.push_back({"joint", makeJoint("x", "a", "b", "revolute", 0, 1)});
  robot.push_back({"joint", makeJoint("y", chain ? "b" : "a", "c", "revolute", 0, 1, "x")});
  AL::urdf::RobotTree t(robot);
  const char *key;
  if (how == 0) { key = "dangling-mimic-rm_leaf_joint"; t.rm_leaf_joint("x"); }
  else if (how == 1) { key = "dangling-mimic-rm_root_joint"; t.rm_root_joint(); }
  else { key = "dangling-mimic-removeSubTreeIfJoint"; AL::urdf::removeSubTreeIfJoint(t, [](const ptree &j) { return attr(j, "name") == "x"; }); }
  c.step();
  t.is_mimic_tree_flat();  // must not crash
  ptree copy = robot;
  bool th = false;
  try { AL::urdf::RobotTree u(copy); } catch (const std::runtime_error &) { th = true; }
  c.yes(key, !th, "removing a joint that another one mimics leaves a document that cannot be read again");
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  mc::family("edits-2", 2 * 2 * 3 * 2, [=](mc::Ctx &c) { history(c, 2, 2, th ? 4 : 3); }, "all trees of 3 links, all orders of the joints, types and mimics, every history of 3 (4 thorough) edits over 18");
  mc::family("edits-3", 6 * 6 * 3 * 2, [=](mc::Ctx &c) { history(c, 3, 6, th ? 3 : 2); }, "all trees of 4 links, all orders of the joints, types and mimics, every history of 2 (3 thorough) edits over 23");
  mc::family("edits-4", 24ull * (th ? 24 : 6) * 3 * 2, [=](mc::Ctx &c) { history(c, 4, th ? 24 : 6, th ? 2 : 1); }, "all trees of 5 links, 6 (24) orders of the joints, types and mimics, every history of 1 (2 thorough) edit over 28");
  int nn = th ? 15 : 6;
  mc::family("many-links", big::SHAPES * big::ORDERS * nn * 3, [=](mc::Ctx &c) { many(c, 5, nn); }, "8 shapes of trees x 4 document orders x 5 to 10 (19) joints x 3 sets of types, 4 styles of names: every edit, followed by another one");
  mc::family("dangling", 3, dangling, "removal of a mimicked joint by each of the three functions");
}
