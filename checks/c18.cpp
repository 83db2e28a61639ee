// C18: which URDF documents are accepted, and what the index then answers
#include "urdfref.h"
#include "bigtree.h"
#include <algorithm>
#include <stdexcept>
#include <sstream>
using namespace U;
namespace {
ptree link(const std::string &n) {
  ptree p;
  p.put("<xmlattr>.name", n);
  return p;
}
ptree joint(const std::string &n, const std::string &a, const std::string &b, const std::string &mimic = "") {
  ptree p;
  p.put("<xmlattr>.name", n);
  p.put("<xmlattr>.type", "revolute");
  p.put("parent.<xmlattr>.link", a);
  p.put("child.<xmlattr>.link", b);
  if (!mimic.empty()) p.put("mimic.<xmlattr>.joint", mimic);
  return p;
}
// 0 when the document describes one kinematic tree, else what is wrong
const char *verdict(const Doc &d) {
  if (d.links.empty()) return "no link";
  for (size_t i = 0; i < d.links.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (d.links[i].name == d.links[j].name) return "duplicate link";
  for (size_t i = 0; i < d.joints.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (d.joints[i].name == d.joints[j].name) return "duplicate joint";
  for (auto &j : d.joints)
    if (d.link(j.parent) < 0 || d.link(j.child) < 0) return "missing link";
  int roots = 0;
  for (auto &l : d.links) {
    int n = 0;
    for (auto &j : d.joints) n += j.child == l.name;
    if (n > 1) return "a link with two parents";
    roots += n == 0;
  }
  if (roots == 0) return "a loop";
  if (roots > 1) return "several roots";
  // connected: every link leads to the root
  for (auto &l : d.links) {
    std::string at = l.name;
    size_t steps = 0;
    bool moved = true;
    while (moved && steps <= d.joints.size()) {
      moved = false;
      for (auto &j : d.joints)
        if (!moved && j.child == at) { at = j.parent; moved = true; ++steps; }
    }
    if (steps > d.joints.size()) return "a detached loop";
  }
  for (auto &j : d.joints) {
    if (j.mimic.empty()) continue;
    std::string at = j.name;
    for (size_t k = 0; k <= d.joints.size(); ++k) {
      int i = d.joint(at);
      if (i < 0) return "mimics a missing joint";
      if (d.joints[i].mimic.empty()) break;
      at = d.joints[i].mimic;
      if (k == d.joints.size()) return "a loop of mimics";
    }
  }
  return nullptr;
}
void decide(mc::Ctx &c, ptree &robot) {
  Doc d = parse(c, robot);
  const char *bad = verdict(d);
  const ptree before = robot;
  for (auto &l : d.links) c.log("link %s", l.name.c_str());
  for (auto &j : d.joints) c.log("joint %s: %s -> %s%s%s", j.name.c_str(), j.parent.c_str(), j.child.c_str(), j.mimic.empty() ? "" : " mimics ", j.mimic.c_str());
  std::unique_ptr<AL::urdf::RobotTree> t;
  std::string why;
  try { t.reset(new AL::urdf::RobotTree(robot)); } catch (const std::runtime_error &e) { why = e.what(); }
  c.step();
  if (bad && t) c.fail("accepted", "a document with %s was accepted", bad);
  if (!bad && !t) c.fail("refused", "a valid document was refused: %s", why.c_str());
  c.compared();
  c.state(mc::Hash().u(hash(d)).s(bad ? bad : "valid").h);
  if (t) index(c, *t, robot, d);
  c.yes("document", robot == before, "indexing does not change the document");
}
// document elements in one of three orders
ptree assemble(const std::vector<ptree> &links, const std::vector<ptree> &joints, int order) {
  ptree r;
  r.put("<xmlattr>.name", "robot");
  size_t i = 0, j = 0;
  while (i < links.size() || j < joints.size()) {
    bool l = order == 0 ? i < links.size() : order == 1 ? j >= joints.size() : (i <= j && i < links.size()) || j >= joints.size();
    if (l) r.push_back({"link", links[i++]});
    else r.push_back({"joint", joints[j++]});
    if (order == 2) r.push_back({"material", ptree()});
  }
  return r;
}
const char *LN[] = {"b", "a", "e", "d", "c", "z"};
void topology(mc::Ctx &c, int nl, int nj, bool missing) {
  mc::Dec d(c.root);
  int order = d(3), n = missing ? nl + 1 : nl;
  std::vector<ptree> ls, js;
  for (int i = 0; i < nl; ++i) ls.push_back(link(LN[i]));
  for (int k = 0; k < nj; ++k) {
    int a = k < 2 ? (int)d(n) : c.pick(n), b = k < 2 ? (int)d(n) : c.pick(n);
    js.push_back(joint(std::string(1, "ktgxm"[k]), a == nl ? "z" : LN[a], b == nl ? "z" : LN[b]));
  }
  ptree r = assemble(ls, js, order);
  decide(c, r);
}
void names(mc::Ctx &c) {
  mc::Dec d(c.root);
  const char *A[] = {"p", "q", "r", "p2"};
  std::vector<ptree> ls, js;
  std::vector<std::string> ln;
  for (int i = 0; i < 4; ++i) { ln.push_back(A[d(4)]); ls.push_back(link(ln.back())); }
  bool chain = d(2);
  int order = d(3);
  for (int k = 0; k < 3; ++k) js.push_back(joint(A[d(4)], ln[chain ? k : 0], ln[k + 1]));
  ptree r = assemble(ls, js, order);
  decide(c, r);
}
void mimics(mc::Ctx &c, int n, int perms) {
  mc::Dec d(c.root);
  int shape = d(3), pi = d(perms), order = d(3);
  std::vector<int> perm;
  for (int i = 0; i < n; ++i) perm.push_back(i);
  for (int i = 0; i < pi; ++i) std::next_permutation(perm.begin(), perm.end());
  std::vector<ptree> ls, js;
  for (int i = 0; i <= n; ++i) ls.push_back(link(std::string(1, 'a' + i)));
  std::vector<std::string> m;
  for (int i = 0; i < n; ++i) {
    int k = c.pick(n + 2);
    m.push_back(k == 0 ? "" : k == n + 1 ? "j9" : "j" + std::to_string(k - 1));
  }
  for (int i = 0; i < n; ++i) {
    int k = perm[i], par = shape == 0 ? 0 : shape == 1 ? k : k / 2;
    js.push_back(joint("j" + std::to_string(k), std::string(1, 'a' + par), std::string(1, 'a' + k + 1), m[k]));
  }
  ptree r = assemble(ls, js, order);
  decide(c, r);
}
// every single missing attribute
void malformed(mc::Ctx &c) {
  mc::Dec d(c.root);
  int what = d(9), at = d(3), order = d(3);
  std::vector<ptree> ls, js;
  for (int i = 0; i < 4; ++i) ls.push_back(link(LN[i]));
  for (int i = 0; i < 3; ++i) js.push_back(joint(std::string(1, 'k' + i), LN[i], LN[i + 1], what == 6 && at != i ? std::string(1, 'k' + at) : ""));
  ptree &j = js[at];
  switch (what) {
    case 0: ls[at].get_child("<xmlattr>").erase("name"); break;
    case 1: j.get_child("<xmlattr>").erase("name"); break;
    case 2: j.erase("parent"); break;
    case 3: j.erase("child"); break;
    case 4: j.get_child("parent.<xmlattr>").erase("link"); break;
    case 5: j.get_child("child.<xmlattr>").erase("link"); break;
    case 6: break;
    case 7: j.put("mimic", ""); break;
    default: j.put("mimic.<xmlattr>.joint", ""); break;
  }
  ptree r = assemble(ls, js, order);
  bool th = false;
  try { AL::urdf::RobotTree t(r); } catch (const std::runtime_error &) { th = true; }
  c.step();
  c.yes("malformed", th == (what != 6), what != 6 ? "a document with a missing attribute was accepted" : "a valid document was refused");
  c.state(mc::Hash().u(c.root).h);
}
// the dot graph: one line per joint, indented by depth
void dot(mc::Ctx &c) {
  mc::Dec d(c.root);
  int n = 4;
  std::vector<ptree> ls, js;
  for (int i = 0; i <= n; ++i) ls.push_back(link(std::string(1, 'a' + i)));
  for (int i = 0; i < n; ++i) js.push_back(joint("j" + std::to_string(i), std::string(1, 'a' + d(i + 1)), std::string(1, 'a' + i + 1)));
  int order = d(3);
  ptree r = assemble(ls, js, order);
  Doc doc = parse(c, r);
  AL::urdf::RobotTree t(r);
  std::ostringstream os;
  AL::urdf::UrdfDotPrinterVisitor v(os);
  t.traverse_joints(v);
  std::vector<Visit> w;
  walk(doc, doc.root(), "-", w);
  std::string want;
  for (auto &x : w)
    if (x.enter) { auto &j = doc.joints[doc.joint(x.name)]; want += j.parent + " -> " + j.child + " [label=" + j.name + "];\n"; }
  c.step();
  if (os.str() != want) c.fail("dot graph", "got\n%sexpected\n%s", os.str().c_str(), want.c_str());
  c.state(mc::Hash().s(want).h);
}
// trees of many links, with at most one defect at every place
void big_(mc::Ctx &c, int nmin, int nn) {
  mc::Dec d(c.root);
  int shape = d(big::SHAPES), order = d(big::ORDERS), names = d(big::NAMES), n = nmin + (int)d(nn);
  auto N = [&](bool l, int i) { return big::name(names, l, i); };
  std::vector<std::string> ln, jn, mi(n);
  std::vector<int> par(n), ch(n);
  for (int i = 0; i <= n; ++i) ln.push_back(N(true, i));
  for (int i = 0; i < n; ++i) { jn.push_back(N(false, i)); par[i] = big::parent(shape, i + 1, n); ch[i] = i + 1; }
  int what = c.pick(11), at = what ? c.pick(n) : 0, drop = -1;
  switch (what) {
    case 0: break;
    case 1: drop = at; break;                                        // two roots
    case 2: par[at] = ch[at]; break;                                 // a joint from a link to itself
    case 3: ln[at + 1] = ln[at]; break;                              // two links of one name
    case 4: jn[at] = jn[(at + 1) % n]; break;                        // two joints of one name
    case 5: par[at] = n; break;                                      // hung on the last link: a tree or a loop
    case 6: ch[at] = ch[(at + n / 2 + 1) % n]; break;                // two parents (one link alone)
    case 7: par[at] = n + 1; break;  // missing parent
    case 8: for (int i = 0; i < n; ++i) mi[i] = i == at ? "" : jn[(i + 1) % n]; break;   // a long chain of mimics
    case 9: for (int i = at; i < n; ++i) mi[i] = i + 1 < n ? jn[i + 1] : jn[at]; break;  // a long loop of mimics
    default: for (int i = 0; i < n; ++i) mi[i] = i == at ? "" : jn[at]; break;           // many followers
  }
  std::vector<ptree> ls, js;
  for (int i : big::order(order, n + 1)) ls.push_back(link(ln[i]));
  for (int i : big::order((order + names) % big::ORDERS, n))
    if (i != drop) js.push_back(joint(jn[i], par[i] > n ? "elsewhere" : ln[par[i]], ln[ch[i]], mi[i]));
  c.log("%s of %d joints, defect %d at %d", big::shapeName(shape), n, what, at);
  ptree r = assemble(ls, js, (order + n) % 3);
  decide(c, r);
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  for (int nl = 0; nl <= 5; ++nl)
    for (int nj = 0; nj <= 4; ++nj) {
      if (nj > nl && !th) continue;
      if (nl == 4 && nj == 4 && !th) continue;
      bool missing = !(nl == 5 && nj == 4) || th;
      uint64_t n = missing ? nl + 1 : nl, roots = 3;
      for (int k = 0; k < std::min(nj, 2); ++k) roots *= n * n;
      if (!roots) continue;
      mc::family("topology-" + std::to_string(nl) + "-" + std::to_string(nj), roots, [=](mc::Ctx &c) { topology(c, nl, nj, missing); },
                 "all graphs of " + std::to_string(nj) + " joints between " + std::to_string(nl) + " links" + (missing ? " and a missing one" : "") + ", in 3 document orders");
    }
  if (th) mc::family("topology-5-5", 3 * 625, [=](mc::Ctx &c) { topology(c, 5, 5, false); }, "all graphs of 5 joints between 5 links, in 3 document orders");
  mc::family("names", 256 * 2 * 3 * 64, names, "all names of 4 links and 3 joints among 4, chains and stars, in 3 document orders");
  mc::family("mimics-3", 3 * 6 * 3, [](mc::Ctx &c) { mimics(c, 3, 6); }, "all mimic graphs over 3 joints in every order of the joints, 3 trees, in 3 document orders");
  mc::family("mimics-4", 3 * 24 * 3, [](mc::Ctx &c) { mimics(c, 4, 24); }, "all mimic graphs over 4 joints in every order of the joints, 3 trees, in 3 document orders");
  if (th) mc::family("mimics-5", 3 * 120 * 3, [](mc::Ctx &c) { mimics(c, 5, 120); }, "all mimic graphs over 5 joints in every order of the joints, 3 trees, in 3 document orders");
  mc::family("malformed", 9 * 3 * 3, malformed, "each attribute missing in each element");
  const int SON = big::SHAPES * big::ORDERS * big::NAMES;
  int lo = 5, nn = th ? 36 : 12;
  mc::family("many-links", SON * nn, [=](mc::Ctx &c) { big_(c, lo, nn); }, "8 shapes of trees x 4 document orders x 4 styles of names x 5 to 16 (40) joints, without defect, or with one of 10 defects at every joint");
  if (th) mc::family("hundreds-of-links", 64, [](mc::Ctx &c) {
    mc::Dec d(c.root);
    int shape = d(big::SHAPES), order = d(big::ORDERS), n = 200 + 100 * (int)d(2);
    std::vector<ptree> ls, js;
    for (int i : big::order(order, n + 1)) ls.push_back(link(big::name(0, true, i)));
    for (int i : big::order((order + 1) % 4, n)) js.push_back(joint(big::name(0, false, i), big::name(0, true, big::parent(shape, i + 1, n)), big::name(0, true, i + 1)));
    ptree r = assemble(ls, js, order % 3);
    decide(c, r);
  }, "8 shapes x 4 orders x 200 and 300 joints");
  mc::family("dot", 24 * 3, dot, "all trees of 5 links");
}
