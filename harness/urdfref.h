// reference model of URDF documents (plain data, own parsing, double math)
#pragma once
#include "mc.h"
#include "ref.h"
#include <almath/scenegraph/urdf.h>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
namespace U {
using AL::urdf::ptree;
using ref::M3;
using ref::T3;
using ref::V3;
// urdf rpy: Rz(y) Ry(p) Rx(r)
inline T3 pose(const double *xyz, const double *rpy) {
  T3 t;
  t.R = ref::rotZ(rpy[2]) * (ref::rotY(rpy[1]) * ref::rotX(rpy[0]));
  t.p = V3{xyz[0], xyz[1], xyz[2]};
  return t;
}
inline T3 ident() {
  const double z[3] = {0, 0, 0};
  return pose(z, z);
}
inline bool three(const std::string &s, double *o) {
  const char *p = s.c_str();
  for (int i = 0; i < 3; ++i) {
    char *e;
    o[i] = std::strtod(p, &e);
    if (e == p) return false;
    p = e;
  }
  while (*p == ' ' || *p == '\n' || *p == '\t') ++p;
  return *p == 0;
}
// own reading of an "origin" child (absent: identity)
inline T3 origin(mc::Ctx &c, const ptree &e) {
  double xyz[3] = {0, 0, 0}, rpy[3] = {0, 0, 0};
  int n = 0;
  for (auto &k : e) {
    if (k.first != "origin") continue;
    ++n;
    for (auto &a : k.second) {
      if (a.first != "<xmlattr>") continue;
      for (auto &v : a.second) {
        if (v.first == "xyz" && !three(v.second.data(), xyz)) c.fail("text", "origin xyz \"%s\" is not three numbers", v.second.data().c_str());
        if (v.first == "rpy" && !three(v.second.data(), rpy)) c.fail("text", "origin rpy \"%s\" is not three numbers", v.second.data().c_str());
      }
    }
  }
  if (n > 1) c.fail("text", "%d origin elements", n);
  return pose(xyz, rpy);
}
inline std::string attr(const ptree &e, const char *name, const std::string &def = std::string()) {
  for (auto &a : e)
    if (a.first == "<xmlattr>")
      for (auto &v : a.second)
        if (v.first == name) return v.second.data();
  return def;
}
inline const ptree *child(const ptree &e, const char *name) {
  for (auto &a : e)
    if (a.first == name) return &a.second;
  return nullptr;
}
struct Mass {
  bool present = false;
  double m = 0;
  T3 at;   // frame of the inertia, at the centre of mass
  M3 I;    // in that frame
};
struct Joint {
  std::string name, type, parent, child, mimic;
  T3 o;
  V3 axis{1, 0, 0};
  const ptree *pt = nullptr;
};
struct Link {
  std::string name;
  Mass mass;
  std::vector<T3> attached;  // visuals, then collisions
  const ptree *pt = nullptr;
};
struct Doc {
  std::vector<Link> links;
  std::vector<Joint> joints;
  int link(const std::string &n) const {
    for (size_t i = 0; i < links.size(); ++i)
      if (links[i].name == n) return (int)i;
    return -1;
  }
  int joint(const std::string &n) const {
    for (size_t i = 0; i < joints.size(); ++i)
      if (joints[i].name == n) return (int)i;
    return -1;
  }
  std::string root() const {
    for (auto &l : links) {
      bool r = true;
      for (auto &j : joints) r = r && j.child != l.name;
      if (r) return l.name;
    }
    return std::string();
  }
};
inline double number(mc::Ctx &c, const ptree *e, const char *a) {
  std::string s = e ? attr(*e, a) : std::string();
  char *end;
  double v = std::strtod(s.c_str(), &end);
  if (s.empty() || *end) c.fail("text", "attribute %s=\"%s\" is not a number", a, s.c_str());
  return v;
}
inline Mass mass(mc::Ctx &c, const ptree &l) {
  Mass m;
  const ptree *i = child(l, "inertial");
  if (!i) return m;
  int n = 0;
  for (auto &k : l) n += k.first == "inertial";
  if (n != 1) c.fail("text", "%d inertial elements", n);
  m.present = true;
  m.at = origin(c, *i);
  m.m = number(c, child(*i, "mass"), "value");
  const char *k[3][3] = {{"ixx", "ixy", "ixz"}, {"ixy", "iyy", "iyz"}, {"ixz", "iyz", "izz"}};
  for (int a = 0; a < 3; ++a)
    for (int b = 0; b < 3; ++b) m.I.m[a][b] = number(c, child(*i, "inertia"), k[a][b]);
  return m;
}
inline Doc parse(mc::Ctx &c, const ptree &robot) {
  Doc d;
  for (auto &e : robot) {
    if (e.first == "link") {
      Link l;
      l.name = attr(e.second, "name");
      l.pt = &e.second;
      l.mass = mass(c, e.second);
      for (auto kind : {"visual", "collision"})
        for (auto &k : e.second)
          if (k.first == kind) l.attached.push_back(origin(c, k.second));
      d.links.push_back(l);
    } else if (e.first == "joint") {
      Joint j;
      j.name = attr(e.second, "name");
      j.type = attr(e.second, "type");
      j.pt = &e.second;
      if (auto p = child(e.second, "parent")) j.parent = attr(*p, "link");
      if (auto p = child(e.second, "child")) j.child = attr(*p, "link");
      if (auto p = child(e.second, "mimic")) j.mimic = attr(*p, "joint");
      j.o = origin(c, e.second);
      if (auto p = child(e.second, "axis")) {
        double a[3];
        if (!three(attr(*p, "xyz"), a)) c.fail("text", "axis \"%s\" is not three numbers", attr(*p, "xyz").c_str());
        j.axis = V3{a[0], a[1], a[2]};
      }
      d.joints.push_back(j);
    }
  }
  return d;
}
// depth-first traversal, siblings in document order
struct Visit {
  std::string name;
  bool enter;
  bool operator==(const Visit &o) const { return name == o.name && enter == o.enter; }
};
inline void walk(const Doc &d, const std::string &link, const std::string &prune, std::vector<Visit> &out) {
  for (auto &j : d.joints)
    if (j.parent == link) {
      out.push_back({j.name, true});
      if (j.name != prune) walk(d, j.child, prune, out);
      out.push_back({j.name, false});
    }
}
struct Rec : AL::urdf::RobotTree::JointConstVisitor {
  std::vector<Visit> out;
  std::vector<const ptree *> el;
  std::string prune;
  bool discover(const ptree &p) override {
    out.push_back({attr(p, "name"), true});
    el.push_back(&p);
    return out.back().name != prune;
  }
  void finish(const ptree &p) override {
    out.push_back({attr(p, "name"), false});
    el.push_back(&p);
  }
};
struct RecMut : AL::urdf::RobotTree::JointVisitor {
  Rec r;
  bool discover(ptree &p) override { return r.discover(p); }
  void finish(ptree &p) override { r.finish(p); }
};
// everything the index must answer, from the document alone
inline void index(mc::Ctx &c, AL::urdf::RobotTree &t, const ptree &robot, const Doc &d, const char *key = "index") {
  const AL::urdf::RobotTree &ct = t;
  if (ct.root_link() != d.root()) c.fail(key, "root link is \"%s\", expected \"%s\"", ct.root_link().c_str(), d.root().c_str());
  for (auto &l : d.links) c.yes(key, &t.link(l.name) == l.pt && &ct.link(l.name) == l.pt, "link() must give the link element of that name");
  for (auto &j : d.joints) c.yes(key, &t.joint(j.name) == j.pt && &ct.joint(j.name) == j.pt, "joint() must give the joint element of that name");
  std::string prune = "-";
  for (size_t k = 0; k <= d.joints.size(); ++k) {
    std::vector<Visit> want;
    walk(d, d.root(), prune, want);
    Rec a;
    RecMut b;
    a.prune = b.r.prune = prune;
    ct.traverse_joints(a);
    t.traverse_joints(b);
    if (!(a.out == want)) {
      for (auto &v : want) c.log("  expected %s %s", v.enter ? "discover" : "finish", v.name.c_str());
      for (auto &v : a.out) c.log("  got %s %s", v.enter ? "discover" : "finish", v.name.c_str());
      c.fail((std::string(key) + " traversal").c_str(), "joints are not visited depth first, siblings in document order (pruned at %s)", prune.c_str());
    }
    c.yes((std::string(key) + " traversal").c_str(), b.r.out == want, "the mutable traversal must visit joints depth first, siblings in document order");
    for (size_t i = 0; i < want.size(); ++i) {
      const ptree *e = d.joints[d.joint(want[i].name)].pt;
      c.yes(key, a.el[i] == e && b.r.el[i] == e, "a visitor gets the joint elements of the document");
    }
    if (k < d.joints.size()) prune = d.joints[k].name;
  }
  bool flat = true;
  for (auto &j : d.joints)
    if (!j.mimic.empty()) {
      int s = d.joint(j.mimic);
      if (s >= 0 && !d.joints[s].mimic.empty()) flat = false;
    }
  c.yes("mimic tree", ct.is_mimic_tree_flat() == flat, flat ? "a flat mimic tree is reported as not flat" : "a chained mimic tree is reported as flat");
  for (auto n : {"nonexistent", ""}) {
    int th = 0;
    try { t.link(n); } catch (const std::out_of_range &) { ++th; }
    try { t.joint(n); } catch (const std::out_of_range &) { ++th; }
    c.yes(key, th == 2, "unknown names must be refused");
  }
  c.step(3 + d.links.size() + d.joints.size());
}
inline uint64_t hash(const Doc &d) {
  mc::Hash h;
  for (auto &l : d.links) {
    h.s(l.name).u(l.mass.present).q(l.mass.m);
    for (auto &a : l.attached) h.q(a.p.x).q(a.p.y).q(a.p.z).q(a.R.m[0][1]);
  }
  for (auto &j : d.joints) h.s(j.name).s(j.type).s(j.parent).s(j.child).s(j.mimic).q(j.o.p.x).q(j.o.p.y).q(j.o.R.m[0][1]).q(j.axis.x).q(j.axis.y);
  return h.h;
}
// ---- generation
struct PoseText { const char *xyz, *rpy; };
const PoseText POSES[] = {{nullptr, nullptr}, {"0.1 -0.2 0.3", nullptr}, {"0 0 0.5", "0.3 -0.7 1.1"}, {nullptr, "0 0 -0.8"},
                          {"-0.3 0.2 0", "0 1.5707963267948966 0"}, {nullptr, "0 0 5.4831853071795864"}, {"1 0 0", "3.141592653589793 0 0"},
                          {"0 0 0", "0 0 0"}, {"0.05 0.6 -0.1", "-0.3 -1.5707 2.5"}, {nullptr, "-1.2 0.4 -2.8"},
                          {"-0.1 0.2 -0.3", nullptr}, {nullptr, "0 0 0.8"},
                          // tiny and large ones, for the families about scales
                          {"1e-7 -2e-7 3e-7", nullptr}, {nullptr, "1e-6 -2e-6 1.5e-6"}, {"0 2e-9 0", "0 0 -3e-9"}, {"1e-4 0 -2e-4", "2e-5 1e-4 0"},
                          {"0 0 1e-12", "0 1e-12 0"}, {"-1e-7 2e-7 -3e-7", "0 0 1e-3"}, {"40 -70 25", "0.2 -0.1 2.9"}};
const int NPOSES = 12, APOSES = 19;
inline void putOrigin(ptree &e, int k, bool front = false) {
  const PoseText &p = POSES[k];
  if (!p.xyz && !p.rpy) return;
  ptree o;
  if (p.xyz) o.put("<xmlattr>.xyz", p.xyz);
  if (p.rpy) o.put("<xmlattr>.rpy", p.rpy);
  if (front) e.push_front({"origin", o});
  else e.push_back({"origin", o});
}
inline AL::urdf::Pose apiPose(int k) {
  AL::urdf::Array3d a{{0, 0, 0}}, b{{0, 0, 0}};
  if (POSES[k].xyz) three(POSES[k].xyz, a.data());
  if (POSES[k].rpy) three(POSES[k].rpy, b.data());
  return AL::urdf::Pose(a, b);
}
inline T3 refPose(int k) {
  double a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
  if (POSES[k].xyz) three(POSES[k].xyz, a);
  if (POSES[k].rpy) three(POSES[k].rpy, b);
  return pose(a, b);
}
inline ptree element(const char *name, const std::string &v) {
  ptree p;
  p.put(std::string("<xmlattr>.") + name, v);
  return p;
}
inline ptree inertial(int k, int p) {
  const char *I[][6] = {{"0.1", "0.01", "-0.02", "0.2", "0.03", "0.25"}, {"1", "0", "0", "2", "0", "2.5"}, {"0.3", "-0.1", "0.05", "0.2", "0.02", "0.4"},
                        // for the families about scales
                        {"1e-12", "0", "0", "2e-12", "1e-13", "2.5e-12"}, {"1e-7", "1e-8", "0", "2e-7", "0", "2.5e-7"}, {"0", "0", "0", "0", "0", "0"}, {"3e5", "1e4", "0", "2e5", "-2e4", "4e5"}, {"0", "0", "0", "0", "0", "0"}};
  const char *M[] = {"1.5", "0.25", "4", "1e-9", "2e-6", "1e-3", "2e4", "0"};
  ptree e;
  if (p % 2) putOrigin(e, p);
  e.add_child("mass", element("value", M[k]));
  ptree i;
  const char *n[6] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  for (int a = 0; a < 6; ++a) i.put(std::string("<xmlattr>.") + n[a], I[k][a]);
  e.push_back({"inertia", i});
  if (p % 2 == 0) putOrigin(e, p);
  return e;
}
inline ptree makeLink(const std::string &name, int seed, bool massive) {
  ptree l = element("name", name);
  auto shape = [&](const char *kind, int p) {
    ptree v, g;
    g.put("sphere.<xmlattr>.radius", "0.1");
    putOrigin(v, p);
    v.push_back({"geometry", g});
    l.push_back({kind, v});
  };
  shape("visual", seed % NPOSES);
  if (massive) l.push_back({"inertial", inertial(seed % 3, (seed / 3) % NPOSES)});
  shape("collision", (seed + 3) % NPOSES);
  shape("visual", (seed + 7) % NPOSES);
  l.push_back({"extension", element("name", "kept")});
  return l;
}
const char *const AXES[] = {nullptr, "0 1 0", "-1 0 0", "0.6 0 -0.8"};
inline ptree makeJoint(const std::string &n, const std::string &a, const std::string &b, const char *type, int pose, int axis, const std::string &mimic = "") {
  ptree j = element("name", n);
  j.put("<xmlattr>.type", type);
  if (pose % 3 == 0) putOrigin(j, pose);
  j.add_child("parent", element("link", a));
  j.add_child("child", element("link", b));
  if (pose % 3) putOrigin(j, pose);
  if (AXES[axis]) j.add_child("axis", element("xyz", AXES[axis]));
  ptree lim;
  lim.put("<xmlattr>.lower", "-1");
  lim.put("<xmlattr>.upper", "2");
  j.push_back({"limit", lim});
  if (!mimic.empty()) {
    ptree m = element("joint", mimic);
    if (axis % 2) m.put("<xmlattr>.multiplier", "-2");
    if (axis < 2) m.put("<xmlattr>.offset", "0.5");
    j.add_child("mimic", m);
  }
  if (pose % 2) j.put("dynamics.<xmlattr>.damping", "0.25");
  return j;
}
// ---- kinematics: poses of every attached element in the root frame
inline T3 motion(const Joint &j, int cfg, int idx) {
  double q = cfg == 0 ? 0 : cfg == 1 ? 0.4 + 0.3 * idx : -1.1 + 0.55 * idx;
  T3 m = ident();
  if (j.type == "revolute" || j.type == "continuous") m.R = ref::axisAngle(q, j.axis);
  else if (j.type == "prismatic") m.p = q * j.axis;
  else if (j.type == "floating" || j.type == "planar") {
    double a[3] = {q, -q / 2, 0.1}, b[3] = {q / 3, q, -q};
    m = pose(a, b);
  }
  return m;
}
struct Body { std::string link; int what; T3 at; };  // -1: inertial, -2 the frame of the link
inline void place(const Doc &d, const std::vector<std::string> &order, const std::string &link, const T3 &at, int cfg, std::vector<Body> &out) {
  const Link &l = d.links[d.link(link)];
  if (l.mass.present) out.push_back({link, -1, at * l.mass.at});
  for (size_t i = 0; i < l.attached.size(); ++i) out.push_back({link, (int)i, at * l.attached[i]});
  for (auto &j : d.joints)
    if (j.parent == link) {
      int idx = 0;
      while (idx < (int)order.size() && order[idx] != j.name) ++idx;
      place(d, order, j.child, at * (j.o * motion(j, cfg, idx)), cfg, out);
    }
}
}  // namespace U
