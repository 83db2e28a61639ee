// C22: URDF poses, numbers and element accessors
#include "urdfref.h"
#include <almath/scenegraph/urdfeigen.h>
#include <cstring>
#include <limits>
#include <stdexcept>
using namespace U;
namespace urdf = AL::urdf;
namespace {
T3 toRef(const urdf::Pose &p) { return pose(p.xyz().data(), p.rpy().data()); }
double bits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
// ---- words of products and inverses
void words(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  int k = d(NPOSES);
  urdf::Pose p = apiPose(k);
  T3 r = refPose(k);
  c.log("pose %d", k);
  for (int s = 0; s < depth; ++s) {
    int op = s < 1 ? (int)d(2 * NPOSES + 1) : c.pick(2 * NPOSES + 1);
    if (op < NPOSES) { p = p * apiPose(op); r = r * refPose(op); c.log("* pose %d", op); }
    else if (op < 2 * NPOSES) { p = apiPose(op - NPOSES) * p; r = refPose(op - NPOSES) * r; c.log("pose %d *", op - NPOSES); }
    else { p = p.inverse(); r = ref::inv(r); c.log("inverse"); }
    c.step();
    c.near("pose algebra", ref::dist(toRef(p), r), 0, 1e-7);
    // through text
    boost::optional<ptree> t = p.to_ptree();
    urdf::Pose q = t ? urdf::Pose::from_ptree(*t) : urdf::Pose();
    c.yes("text", q == p && !(q != p), "a pose written and read again is the same one");
    c.yes("text", bool(t) != is_identity(p), "exactly null poses are not written");
    urdf::Pose i = p.inverse();
    c.near("inverse", ref::dist(toRef(i), ref::inv(r)), 0, 1e-7);
    // conversion
    auto e = AL::Math::toEigenTransform(p);
    for (int a = 0; a < 3; ++a) {
      c.near("eigen", e.translation()[a], r.p[a], 1e-7);
      for (int b = 0; b < 3; ++b) c.near("eigen", e.linear()(a, b), r.R.m[a][b], 1e-7);
    }
    mc::Hash h;
    for (int a = 0; a < 3; ++a) { h.q(r.p[a]); for (int b = 0; b < 3; ++b) h.q(r.R.m[a][b]); }
    c.state(h.h);
  }
}
// ---- rotations: every triple of angles, gimbal lock included
void rpys(mc::Ctx &c) {
  mc::Dec d(c.root);
  const double P = ref::PI;
  int n = mc::thorough() ? 32 : 16;
  auto ang = [&](int i) {
    const double sp[] = {0, P / 2, -P / 2, P, -P, 1e-9, P / 2 - 1e-9, P / 2 + 1e-5, -P / 2 + 1e-9, 2 * P, P - 1e-9, -1e-300};
    return i < 12 ? sp[i] : -6.3 + 12.6 * (i - 12) / (n - 1);
  };
  double a = ang(d(12 + n)), b = ang(d(12 + n)), e = ang(d(12 + n));
  urdf::Array3d rpy{{a, b, e}};
  const double z[3] = {0.2, -0.3, 0.7};
  T3 r = pose(z, rpy.data());
  urdf::Pose p(urdf::Array3d{{z[0], z[1], z[2]}}, rpy);
  auto q = AL::Math::eigenQuaternionFromUrdfRpy(rpy);
  Eigen::Matrix3d m = q.matrix();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.near("quaternion", m(i, j), r.R.m[i][j], 1e-9);
  urdf::Array3d back = AL::Math::urdfRpyFromEigenMatrix3(m);
  c.near("angles of a matrix", ref::dist(pose(z, back.data()).R, r.R), 0, 1e-7);
  c.near("inverse", ref::dist(toRef(p.inverse()), ref::inv(r)), 0, 1e-7);
  c.near("square", ref::dist(toRef(p * p), r * r), 0, 1e-7);
  c.near("cancel", ref::dist(toRef(p.inverse() * p), ident()), 0, 1e-7);
  c.step(5);
  c.state(mc::Hash().q(r.R.m[0][0]).q(r.R.m[1][2]).q(r.R.m[2][1]).h);
}
// ---- numbers written and read again are the same bits
void numbers(mc::Ctx &c) {
  mc::Dec d(c.root);
  uint64_t ex = d(2047), sign = d(2);
  const uint64_t M = (1ull << 52) - 1;
  std::vector<uint64_t> man;
  for (int i = 0; i < 52; i += mc::thorough() ? 1 : 4) { man.push_back(1ull << i); man.push_back(M ^ (1ull << i)); man.push_back(M >> i); man.push_back((0x5555555555555555ull >> i) & M); }
  man.push_back(0);
  for (uint64_t m : man) {
    double v = bits(sign << 63 | ex << 52 | m);
    urdf::Array3dTranslator tr;
    urdf::Array3d a{{v, 1.0 / 3, -v}};
    auto s = tr.put_value(a);
    c.yes("written", bool(s), "finite numbers can be written");
    auto b = tr.get_value(*s);
    if (!b) c.fail("read", "\"%s\" cannot be read again", s->c_str());
    if (!((*b)[0] == v && (*b)[1] == 1.0 / 3 && (*b)[2] == -v)) c.fail("read", "\"%s\" is read as %.17g %.17g %.17g", s->c_str(), (*b)[0], (*b)[1], (*b)[2]);
    ptree p;
    p.put("x", v);
    c.yes("property tree", p.get<double>("x") == v, "numbers keep all of their digits");
    urdf::Pose q(a, urdf::Array3d{{v, 0, 0}});
    auto t = q.to_ptree();
    c.yes("pose", t && urdf::Pose::from_ptree(*t) == q, "poses keep all of their digits");
    c.step(3);
  }
  c.state(mc::Hash().u(c.root).h);
}
// ---- texts of three numbers
void texts(mc::Ctx &c, int ntok) {
  mc::Dec d(c.root);
  const char *T[] = {"1", "-2.5e3", ".5", "+4", "a", "1,2", "2x", "-", "1e", "0"};
  const double val[] = {1, -2500, .5, 4, NAN, NAN, NAN, NAN, NAN, 0};
  const char *SEP[] = {" ", "\t", "  ", "\n", " \r\n "};
  int n = d(6);
  if (n > ntok) c.skip();
  std::string s;
  bool lead = d(2), trail = d(2);
  int sep = d(5);
  std::vector<double> v;
  bool bad = false;
  if (lead) s += SEP[sep];
  for (int i = 0; i < n; ++i) {
    int k = c.pick(10);
    if (i) s += SEP[(sep + i) % 5];
    s += T[k];
    v.push_back(val[k]);
    bad |= std::isnan(val[k]);
  }
  if (trail) s += SEP[(sep + 1) % 5];
  auto r = urdf::Array3dTranslator().get_value(s);
  bool ok = n == 3 && !bad;
  c.step();
  if (bool(r) != ok) c.fail("text", "\"%s\" was %s", s.c_str(), r ? "accepted" : "refused");
  if (ok) c.yes("text", (*r)[0] == v[0] && (*r)[1] == v[1] && (*r)[2] == v[2], "values in order");
  c.compared();
  c.state(mc::Hash().s(s).h);
  // an origin with this text
  ptree e;
  e.put("<xmlattr>.xyz", s);
  int th = 0;
  try { urdf::Pose p = urdf::Pose::from_ptree(e); if (ok) c.yes("origin", p.xyz() == *r && urdf::is_zero(p.rpy()), "xyz of an origin"); } catch (const std::runtime_error &) { th = 1; }
  c.yes("origin", th == !ok, "a malformed origin is refused");
}
// ---- joint accessors
template <typename F> int throwsRt(F f) { try { f(); } catch (const std::runtime_error &) { return 1; } return 0; }
void joints(mc::Ctx &c) {
  mc::Dec d(c.root);
  const char *TY[] = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar", "Revolute", "", nullptr};
  const urdf::Joint::Type TV[] = {urdf::Joint::revolute, urdf::Joint::continuous, urdf::Joint::prismatic, urdf::Joint::fixed, urdf::Joint::floating, urdf::Joint::planar};
  int ty = d(9), lo = d(3), up = d(3), ef = d(2), ve = d(2), ax = d(3), mi = d(5), org = d(4), front = d(2);
  ptree e = element("name", "n.1");
  if (front) putOrigin(e, org);
  if (TY[ty]) e.put("<xmlattr>.type", TY[ty]);
  e.add_child("parent", element("link", "p q"));
  e.add_child("child", element("link", "c"));
  if (!front) putOrigin(e, org);
  const double L[] = {0, -1.25, 3}, UP[] = {0, 2.5, -4};
  if (lo) e.put("limit.<xmlattr>.lower", L[lo]);
  if (up) e.put("limit.<xmlattr>.upper", UP[up]);
  if (ef) e.put("limit.<xmlattr>.effort", 7.5);
  if (ve) e.put("limit.<xmlattr>.velocity", 8.5);
  if (ax) e.put("axis.<xmlattr>.xyz", ax == 1 ? "0 -1 0" : "0.5 0.25 -3");
  if (mi) e.put("mimic.<xmlattr>.joint", "src");
  if (mi & 1 && mi) e.put("mimic.<xmlattr>.multiplier", -2.5);
  if (mi > 2) e.put("mimic.<xmlattr>.offset", 0.125);
  const ptree copy = e;
  urdf::Joint j(e);
  c.step();
  c.yes("names", j.name() == "n.1" && urdf::name(e) == "n.1" && j.parent_link() == "p q" && urdf::parent_link(e) == "p q" && j.child_link() == "c" && urdf::child_link(e) == "c", "names of the joint and of its links");
  if (ty < 6) c.yes("type", j.type() == TV[ty], "type of the joint");
  else c.yes("type", throwsRt([&] { j.type(); }), "an unknown type is refused");
  c.near("origin", ref::dist(toRef(j.origin()), refPose(org)), 0, 1e-12);
  urdf::Array3d a = j.axis(), w = ax == 0 ? urdf::Array3d{{1, 0, 0}} : ax == 1 ? urdf::Array3d{{0, -1, 0}} : urdf::Array3d{{0.5, 0.25, -3}};
  c.yes("axis", a == w, "axis, x by default");
  auto l = j.limit_lower_upper();
  c.yes("limits", bool(l) == (lo || up), "limits are given when one of them is");
  if (l) c.yes("limits", l->first == L[lo] && l->second == UP[up], "lower then upper, null by default");
  auto f = j.limit_effort(), v = j.limit_velocity();
  c.yes("limits", bool(f) == ef && (!f || *f == 7.5), "effort");
  c.yes("limits", bool(v) == ve && (!v || *v == 8.5), "velocity");
  auto m = j.mimic();
  c.yes("mimic", bool(m) == (mi > 0), "mimic");
  if (m) c.yes("mimic", m->joint() == "src" && m->multiplier() == (mi & 1 ? -2.5 : 1) && m->offset() == (mi > 2 ? 0.125 : 0), "source, multiplier (1 by default) and offset (0 by default)");
  c.yes("read only", e == copy, "reading changes nothing");
  urdf::put_name(e, "other");
  c.yes("put_name", urdf::name(e) == "other", "renamed");
  urdf::put_name(e, "n.1");
  c.yes("put_name", e == copy, "renamed in place");
  c.state(mc::Hash().u(c.root).h);
}
// ---- links, visuals and geometries
void links(mc::Ctx &c, bool many) {
  mc::Dec d(c.root);
  ptree l = element("name", "lk");
  int nv = many ? 4 + (int)d(40) : (int)d(4), in = d(3), coll = d(2), shift = many ? d(12) : 0;
  std::vector<int> kind, org;
  for (int i = 0; i < nv; ++i) {
    if (i == 1 && in == 1) l.push_back({"inertial", inertial(1, 2)});
    if (i == 1 && coll) { ptree v; v.put("geometry.box.<xmlattr>.size", "9 9 9"); l.push_back({"collision", v}); }
    int k = many ? (i * (1 + shift / 6 * 4) + shift) % 6 : c.pick(6), o = (k * 5 + i + nv) % NPOSES;
    kind.push_back(k);
    org.push_back(o);
    ptree v;
    if (i % 2) putOrigin(v, o);
    ptree g;
    if (k == 0) g.put("box.<xmlattr>.size", "1 2 3.5");
    if (k == 1) { g.put("cylinder.<xmlattr>.radius", 0.25 + i); g.put("cylinder.<xmlattr>.length", 7); }
    if (k == 2) g.put("sphere.<xmlattr>.radius", 0.5 + i);
    if (k == 3) g.put("mesh.<xmlattr>.filename", "f" + std::to_string(i));
    if (k == 4) { g.put("mesh.<xmlattr>.filename", "g"); g.put("mesh.<xmlattr>.scale", "1 -2 3"); }
    v.push_back({"geometry", g});
    if (i % 2 == 0) putOrigin(v, o);
    l.push_back({"visual", v});
  }
  if (nv < 2 && in == 1) l.push_back({"inertial", inertial(1, 2)});
  urdf::Link w(l);
  c.step();
  c.yes("name", w.name() == "lk" && &w.pt == &l, "name of the link");
  auto mass = w.inertial();
  c.yes("inertial", bool(mass) == (in == 1), "inertial of the link");
  if (mass) {
    c.yes("inertial", mass->mass() == 0.25 && mass->ixx() == 1 && mass->iyy() == 2 && mass->izz() == 2.5 && mass->ixy() == 0, "values of the inertial");
    c.near("inertial", ref::dist(toRef(mass->origin()), refPose(2)), 0, 1e-12);
  }
  int i = 0;
  for (urdf::Visual v : w.visuals()) {
    c.yes("visuals", i < nv, "too many visuals");
    c.near("visual origin", ref::dist(toRef(v.origin()), refPose(org[i])), 0, 1e-12);
    int k = kind[i];
    if (k == 5) c.yes("geometry", throwsRt([&] { v.geometry(); }), "a geometry without shape is refused");
    else {
      urdf::Geometry g = v.geometry();
      c.yes("geometry", g.which() == (k > 3 ? 3 : k), "kind of geometry");
      if (k == 0) c.yes("geometry", boost::get<urdf::Box>(g).size() == urdf::Array3d{{1, 2, 3.5}}, "size of the box");
      if (k == 1) c.yes("geometry", boost::get<urdf::Cylinder>(g).radius() == 0.25 + i && boost::get<urdf::Cylinder>(g).length() == 7, "cylinder");
      if (k == 2) c.yes("geometry", boost::get<urdf::Sphere>(g).radius() == 0.5 + i, "sphere");
      if (k == 3) c.yes("geometry", boost::get<urdf::Mesh>(g).filename() == "f" + std::to_string(i) && urdf::is_ones(boost::get<urdf::Mesh>(g).scale()), "mesh");
      if (k == 4) c.yes("geometry", boost::get<urdf::Mesh>(g).filename() == "g" && boost::get<urdf::Mesh>(g).scale() == urdf::Array3d{{1, -2, 3}}, "scaled mesh");
    }
    ++i;
  }
  c.yes("visuals", i == nv, "every visual of the link, in order");
  c.state(mc::Hash().u(c.root).u(i).h);
}
void inertials(mc::Ctx &c) {
  mc::Dec d(c.root);
  int k = d(3), p = d(NPOSES), miss = d(8);
  ptree e = inertial(k, p);
  const char *n[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
  const double I[3][6] = {{0.1, 0.01, -0.02, 0.2, 0.03, 0.25}, {1, 0, 0, 2, 0, 2.5}, {0.3, -0.1, 0.05, 0.2, 0.02, 0.4}}, M[] = {1.5, 0.25, 4};
  if (miss < 6) e.get_child("inertia.<xmlattr>").erase(n[miss]);
  if (miss == 6) e.erase("mass");
  urdf::Inertial w(e);
  c.step();
  double (urdf::Inertial::*f[])() const = {&urdf::Inertial::ixx, &urdf::Inertial::ixy, &urdf::Inertial::ixz, &urdf::Inertial::iyy, &urdf::Inertial::iyz, &urdf::Inertial::izz};
  for (int i = 0; i < 6; ++i) {
    if (i == miss) c.yes("missing", throwsRt([&] { (w.*f[i])(); }), "a missing inertia is refused");
    else c.yes("inertia", (w.*f[i])() == I[k][i], n[i]);
  }
  if (miss == 6) c.yes("missing", throwsRt([&] { w.mass(); }), "a missing mass is refused");
  else c.yes("mass", w.mass() == M[k], "mass");
  c.near("origin", ref::dist(toRef(w.origin()), refPose(p)), 0, 1e-12);
  c.state(mc::Hash().u(c.root).h);
}
// ---- file names
void files(mc::Ctx &c) {
  mc::Dec d(c.root);
  int n = 0;
  std::vector<std::string> want;
  auto texture = [&](int k, ptree &parent) {  // 0 none, 1 without filename, 2 with
    if (!k) return;
    ptree t;
    if (k == 2) t.put("<xmlattr>.filename", "t" + std::to_string(n++));
    parent.push_back({"texture", t});
  };
  ptree robot = element("name", "r.mesh");
  int gm = d(3), gt = d(3);
  for (int i = 0; i < gm; ++i) { ptree m = element("name", "m"); texture((gt + i) % 3, m); robot.push_back({"material", m}); }
  int nl = d(3), order = d(2);
  for (int i = 0; i < nl; ++i) {
    ptree l = element("name", "t0");
    for (int v = 0; v < 2; ++v) {
      int k = c.pick(6);
      ptree e, g;
      if (k == 1) g.put("box.<xmlattr>.size", "1 1 1");
      if (k >= 2) { ptree m; if (k != 2) m.put("<xmlattr>.filename", "f" + std::to_string(n++)); m.put("<xmlattr>.scale", "1 1 1"); g.push_back({"mesh", m}); }
      if (k == 4) { ptree m; m.put("<xmlattr>.filename", "f" + std::to_string(n++)); g.push_back({"mesh", m}); }
      if (k || (v + order) % 2 == 0) e.push_back({"geometry", g});  // a collision may lack it
      if (k == 5 || k == 3) for (int q = 0; q < k - 3 + 1; ++q) { ptree m = element("name", "x"); texture(2 - q, m); e.push_back({"material", m}); }
      l.push_back({(v + order) % 2 ? "collision" : "visual", e});
      if ((v + order) % 2 == 0 && k == 3) { l.push_back({"visual", e}); }
    }
    robot.push_back({"link", l});
  }
  // expectation: every mesh of a geometry and texture of a material of a
  // visual or of the robot
  ptree exp = robot;
  auto up = [](ptree &e) { if (auto f = e.get_child_optional("<xmlattr>.filename")) f->put_value("op(" + f->data() + ")"); };
  auto mats = [&](ptree &e) { for (auto &m : e) if (m.first == "material") for (auto &t : m.second) if (t.first == "texture") up(t.second); };
  mats(exp);
  for (auto &l : exp) if (l.first == "link") for (auto &v : l.second) {
    if (v.first == "visual") mats(v.second);
    if (v.first == "visual" || v.first == "collision") for (auto &g : v.second) if (g.first == "geometry") for (auto &m : g.second) if (m.first == "mesh") up(m.second);
  }
  int calls = 0;
  urdf::robot::transform_filenames(robot, [&](std::string s) { ++calls; return "op(" + s + ")"; });
  c.step();
  c.yes("file names", robot == exp, "each mesh and texture file name is transformed once, and nothing else");
  c.state(mc::Hash().u(calls).u(c.root).h);
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  int dp = th ? 4 : 3;
  mc::family("words", NPOSES * (2 * NPOSES + 1), [=](mc::Ctx &c) { words(c, dp); }, "all words of 3 (4) products and inversions over 12 poses");
  int n = 12 + (th ? 32 : 16);
  mc::family("angles", (uint64_t)n * n * n, rpys, "28 (44) values per roll, pitch and yaw, with gimbal lock and its neighbourhood");
  mc::family("numbers", 2047 * 2, numbers, "every sign and exponent x 53 (209) mantissas");
  mc::family("texts", 6 * 2 * 2 * 5, [=](mc::Ctx &c) { texts(c, th ? 5 : 4); }, "all texts of 0 to 4 (5) words among 10, with all separators");
  mc::family("joints", 9 * 3 * 3 * 2 * 2 * 3 * 5 * 4 * 2, joints, "all combinations of joint attributes");
  mc::family("links", 4 * 3 * 2, [](mc::Ctx &c) { links(c, false); }, "all links of up to 3 visuals over 6 geometries");
  mc::family("many-visuals", 40 * 3 * 2 * 12, [](mc::Ctx &c) { links(c, true); }, "links of 4 to 43 visuals, 12 sequences of geometries");
  mc::family("inertials", 3 * NPOSES * 8, inertials, "each missing attribute");
  mc::family("files", 3 * 3 * 3 * 2, files, "all arrangements of materials, visuals and collisions");
}
