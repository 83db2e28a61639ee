// C17: a written COLLADA scene contains exactly what was added to it
#include "conv.h"
#include <deque>
#include <almath/scenegraph/colladabuilder.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/geometrics/shapes3d.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <map>
#include <memory>
#include <set>
#include <sstream>
using AL::Mesh;
typedef boost::property_tree::ptree ptree;
namespace {
struct Item { Mesh m; double tf[16]; };
struct Model { AL::SceneBuilder::Config cfg; std::vector<Item> items; };

std::vector<std::string> words(const std::string &s) {
  std::istringstream is(s);
  std::vector<std::string> v;
  std::string w;
  while (is >> w) v.push_back(w);
  return v;
}
void ids(const ptree &t, mc::Ctx &c, std::set<std::string> &def, std::vector<std::string> &refs) {
  for (auto &k : t) {
    if (k.first == "<xmlattr>") {
      for (auto &a : k.second) {
        if (a.first == "id" && !def.insert(a.second.data()).second) c.fail("unique ids", "id %s defined twice", a.second.data().c_str());
        if (a.first == "url" || a.first == "target" || a.first == "source") refs.push_back(a.second.data());
      }
    } else
      ids(k.second, c, def, refs);
  }
}
const ptree *byId(const ptree &t, const std::string &url) {
  for (auto &k : t) {
    auto id = k.second.get_optional<std::string>("<xmlattr>.id");
    if (id && "#" + *id == url) return &k.second;
  }
  return nullptr;
}
void floats(mc::Ctx &c, const char *key, const std::string &text, const std::vector<float> &want) {
  auto w = words(text);
  if (w.size() != want.size()) c.fail(key, "%zu values instead of %zu", w.size(), want.size());
  for (size_t i = 0; i < w.size(); ++i) c.near(key, strtod(w[i].c_str(), nullptr), want[i], 1e-5 * std::fabs(want[i]) + 1e-12);
}
void integers(mc::Ctx &c, const char *key, const std::string &text, const std::vector<size_t> &want) {
  auto w = words(text);
  if (w.size() != want.size()) c.fail(key, "%zu values instead of %zu", w.size(), want.size());
  for (size_t i = 0; i < w.size(); ++i) if (w[i] != std::to_string(want[i])) c.fail(key, "value %zu is written %s", want[i], w[i].c_str());
  c.compared(w.size());
}
const ptree &source(mc::Ctx &c, const ptree &mesh, const std::string &url, const std::vector<float> &want, const char *key) {
  const ptree *s = byId(mesh, url);
  c.yes(key, s && s->count("float_array") == 1, "the referenced source exists");
  floats(c, key, s->get_child("float_array").data(), want);
  c.yes(key, s->get<size_t>("float_array.<xmlattr>.count") == want.size(), "count of values");
  auto &acc = s->get_child("technique_common.accessor");
  c.yes(key, acc.get<size_t>("<xmlattr>.count") == want.size() / 3 && acc.get<int>("<xmlattr>.stride") == 3, "accessor");
  c.yes(key, acc.get<std::string>("<xmlattr>.source") == "#" + s->get<std::string>("float_array.<xmlattr>.id"), "accessor refers to its array");
  std::string names;
  for (auto &k : acc) if (k.first == "param") { names += k.second.get<std::string>("<xmlattr>.name"); c.yes(key, k.second.get<std::string>("<xmlattr>.type") == "float", "type"); }
  c.yes(key, names == "XYZ", "three named components");
  return *s;
}
void checkDoc(mc::Ctx &c, const std::string &text, const Model &m) {
  ptree doc;
  std::istringstream is(text);
  try { read_xml(is, doc); } catch (std::exception &e) { c.fail("well formed", "not well formed: %s", e.what()); }
  try {
    const ptree &co = doc.get_child("COLLADA");
    std::set<std::string> def;
    std::vector<std::string> refs;
    ids(co, c, def, refs);
    for (auto &r : refs) c.yes("references", r.size() > 1 && r[0] == '#' && def.count(r.substr(1)), "a reference must be defined in the document");
    c.yes("schema", co.get<std::string>("<xmlattr>.version") == "1.4.1" && co.get<double>("asset.unit.<xmlattr>.meter") == 1, "COLLADA 1.4.1 in meters");
    std::string sc = co.get<std::string>("scene.instance_visual_scene.<xmlattr>.url");
    const ptree *vs = byId(co.get_child("library_visual_scenes"), sc);
    c.yes("scene", vs != nullptr, "the instantiated scene exists");
    size_t n = 0;
    std::set<std::string> usedGeo;
    for (auto &k : *vs) {
      if (k.first != "node") continue;
      c.yes("nodes", n < m.items.size(), "more nodes than meshes were added");
      const Item &it = m.items[n++];
      auto w = words(k.second.get<std::string>("matrix"));
      c.yes("matrix", w.size() == 16, "16 values");
      for (int i = 0; i < 16; ++i) c.near("matrix", strtod(w[i].c_str(), nullptr), it.tf[i], 1e-5 * std::fabs(it.tf[i]) + 1e-12);
      auto &ig = k.second.get_child("instance_geometry");
      std::string url = ig.get<std::string>("<xmlattr>.url");
      const ptree *g = byId(co.get_child("library_geometries"), url);
      c.yes("geometry", g != nullptr && usedGeo.insert(url).second, "each node has its own geometry");
      auto &im = ig.get_child("bind_material.technique_common.instance_material.<xmlattr>");
      const ptree &mesh = g->get_child("mesh");
      const ptree &pl = mesh.get_child("polylist");
      c.yes("material", pl.get<std::string>("<xmlattr>.material") == im.get<std::string>("symbol"), "the bound symbol is the one of the polygons");
      const ptree *mat = byId(co.get_child("library_materials"), im.get<std::string>("target"));
      c.yes("material", mat != nullptr, "material exists");
      const ptree *fx = byId(co.get_child("library_effects"), mat->get<std::string>("instance_effect.<xmlattr>.url"));
      c.yes("material", fx != nullptr, "effect exists");
      auto col = words(fx->get<std::string>("profile_COMMON.technique.phong.diffuse.color"));
      c.yes("color", col.size() == 4, "4 components");
      const float cc[] = {m.cfg.color.r, m.cfg.color.g, m.cfg.color.b, m.cfg.color.a};
      for (int i = 0; i < 4; ++i) c.near("color", strtod(col[i].c_str(), nullptr), cc[i], 1e-5);
      c.yes("polygons", pl.get<size_t>("<xmlattr>.count") == it.m.polygonsNb(), "count of polygons");
      integers(c, "polygons", pl.get<std::string>("vcount"), it.m.polygonVerticesCounts());
      integers(c, "vertices", pl.get<std::string>("p"), it.m.vertices());
      int inputs = 0;
      for (auto &q : pl) {
        if (q.first != "input") continue;
        ++inputs;
        std::string sem = q.second.get<std::string>("<xmlattr>.semantic"), src = q.second.get<std::string>("<xmlattr>.source");
        int off = q.second.get<int>("<xmlattr>.offset");
        if (sem == "VERTEX") {
          c.yes("inputs", off == 0, "offset of the positions");
          const ptree *vx = byId(mesh, src);
          c.yes("inputs", vx && vx->get<std::string>("input.<xmlattr>.semantic") == "POSITION", "positions");
          source(c, mesh, vx->get<std::string>("input.<xmlattr>.source"), it.m.positions(), "positions");
        } else if (sem == "NORMAL") {
          c.yes("inputs", off == 1, "offset of the normals");
          source(c, mesh, src, it.m.normals(), "normals");
        } else
          c.fail("inputs", "unknown semantic %s", sem.c_str());
      }
      c.yes("inputs", inputs == 2, "positions and normals");
    }
    c.yes("nodes", n == m.items.size(), "fewer nodes than meshes were added");
    c.yes("geometries", co.get_child("library_geometries").count("geometry") == n, "as many geometries as nodes");
  } catch (boost::property_tree::ptree_error &e) { c.fail("structure", "%s", e.what()); }
}
std::string text(const AL::ColladaSceneBuilder &b) {
  std::ostringstream os;
  os << b;
  return os.str();
}
std::vector<A::Transform> tfs() {
  std::vector<A::Transform> v(5);
  v[1] = A::Transform(1.5f, -2.25f, 1e-7f);
  v[2] = A::Transform::fromRotX(0.3f) * A::Transform::fromRotZ(-1.2f);
  v[2].r1_c4 = 123456.7f;
  v[3] = A::Transform::fromRotY(2.f);
  v[3].r2_c4 = -3e-4f;
  v[4] = A::Transform(0.f, 1e6f, -1.f);
  return v;
}
void set(Item &it, const A::Transform &t) {
  const float *f = &t.r1_c1;
  for (int i = 0; i < 12; ++i) it.tf[i] = f[i];
  it.tf[12] = it.tf[13] = it.tf[14] = 0;
  it.tf[15] = 1;
}
std::vector<Mesh> meshes() {
  std::vector<Mesh> v;
  v.push_back(Mesh());
  v.push_back(AL::createBoxMesh(0.3f, 0.41234567f, 5000.125f));
  Mesh m;
  m.normal(0.6f, 0, -0.8f);
  m.begin(Mesh::POLYGON);
  m.vertex(1e-6f, -2e-20f, 3.25f); m.vertex(1, 1e7f, 1.23456789f); m.vertex(-1, 0, 0); m.vertex(0, 0.1f, 0); m.vertex(7, 7, 7);
  m.end();
  m.begin(Mesh::TRIANGLES);
  m.normal(0, 1, 0);
  m.vertex((size_t)0); m.vertex((size_t)4); m.vertex((size_t)2);
  m.end();
  v.push_back(m);
  v.push_back(AL::createRoundedBoxMesh(0.1f, 0.2f, 0.f, 0.05f, 1));
  return v;
}
const std::vector<Mesh> &M() { static std::vector<Mesh> v = meshes(); return v; }
const std::vector<A::Transform> &TF() { static std::vector<A::Transform> v = tfs(); return v; }
AL::SceneBuilder::Config cfg(int i) {
  AL::SceneBuilder::Config k;
  if (i == 1) { k.color.r = 1; k.color.g = 0.125f; k.color.b = 0; k.color.a = 0.75f; k.nbArcVertices = 1; }
  if (i == 2) { k.color.r = 1e-5f; k.color.b = 0.333333f; k.nbArcVertices = 0; }
  return k;
}
// histories over up to three builders
void hist(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  int k0 = d(3), k1 = d(3);
  std::unique_ptr<AL::ColladaSceneBuilder> b[3];
  Model m[3];
  b[0].reset(new AL::ColladaSceneBuilder(cfg(k0)));
  b[1].reset(new AL::ColladaSceneBuilder(cfg(k1)));
  m[0].cfg = cfg(k0);
  m[1].cfg = cfg(k1);
  int adds = 0;
  for (int s = 0; s < depth; ++s) {
    int op = s < 2 ? (int)d(8) : c.pick(8);
    if (op < 4) {
      int w = op & 1;
      Item it;
      int im = (adds + op) % 4, itf = (adds * 2 + op) % 5;
      ++adds;
      it.m = M()[im];
      set(it, TF()[itf]);
      if (op < 2) { c.log("builder %d: add mesh %d, transform %d", w, im, itf); b[w]->add(it.m, TF()[itf]); }
      else {
        c.log("builder %d: add mesh %d, affine %d", w, im, itf);
        Eigen::Affine3f af;
        af.matrix().setIdentity();
        for (int i = 0; i < 12; ++i) af.matrix()(i / 4, i % 4) = (&TF()[itf].r1_c1)[i];
        if (itf == 3) { af.matrix()(0, 1) = 4.5f; it.tf[1] = 4.5; }
        b[w]->add(it.m, af);
      }
      m[w].items.push_back(it);
    } else if (op == 4) { c.log("1 = 0"); *b[1] = *b[0]; m[1] = m[0]; }
    else if (op == 5) { c.log("0 = copy of 1, the former 0 is destroyed"); b[0].reset(new AL::ColladaSceneBuilder(*b[1])); m[0] = m[1]; }
    else if (op == 6) { c.log("0 = 0"); AL::ColladaSceneBuilder &self = *b[0]; *b[0] = self; }
    else { c.log("1 moved into a copy, 1 made anew"); b[2].reset(new AL::ColladaSceneBuilder(*b[1])); m[2] = m[1]; b[1].reset(new AL::ColladaSceneBuilder(cfg(2))); m[1] = Model(); m[1].cfg = cfg(2); }
    c.step();
    mc::Hash h;
    for (int i = 0; i < 3; ++i) { h.u(m[i].items.size()).q(m[i].cfg.color.r); for (auto &it : m[i].items) h.u(it.m.positionsNb()).q(it.tf[3]).q(it.tf[0]); }
    c.state(h.h);
  }
  for (int i = 0; i < 3; ++i)
    if (b[i]) {
      checkDoc(c, text(*b[i]), m[i]);
      auto &g = b[i]->getConfig();
      c.yes("configuration", g.color.r == m[i].cfg.color.r && g.color.g == m[i].cfg.color.g && g.color.b == m[i].cfg.color.b && g.color.a == m[i].cfg.color.a && g.nbArcVertices == m[i].cfg.nbArcVertices, "kept by copies");
    }
}
// shapes are drawn as the mesh of the same dimensions
void shapes(mc::Ctx &c) {
  mc::Dec d(c.root);
  int k = d(3), kind = d(3), it = d(5), virt = d(2);
  const float D[] = {0.05f, 0.3f, 1.7f};
  float x = D[d(3)], y = D[d(3)], r = D[d(3)];
  AL::ColladaSceneBuilder b(cfg(k));
  Model m;
  m.cfg = cfg(k);
  Item i;
  set(i, TF()[it]);
  int n = m.cfg.nbArcVertices;
  const A::Transform &tf = TF()[it];
  if (kind == 0) { i.m = AL::createRoundedBoxMesh(0, 0, 0, r, n); A::Sphere s(r); const A::Shape3D &v = s; if (virt) b.add(v, tf); else b.add(s, tf); }
  if (kind == 1) { i.m = AL::createRoundedBoxMesh(x, y, 0, r, n); A::RoundedRectangle s(x, y, r); const A::Shape3D &v = s; if (virt) b.add(v, tf); else b.add(s, tf); }
  if (kind == 2) { i.m = AL::createRoundedBoxMesh(0, 0, x, r, n); A::Pill s(x, r); const A::Shape3D &v = s; if (virt) b.add(v, tf); else b.add(s, tf); }
  m.items.push_back(i);
  auto refused = [&](const A::Shape3D &s) { try { b.add(s, tf); } catch (const std::runtime_error &) { return true; } return false; };
  c.yes("unsupported shapes", refused(A::Plane()) && refused(A::HalfSpace()) && refused(A::Rectangle(1, 1)) && refused(A::HalfLine()), "must be refused");
  Mesh tx(true);
  bool a1 = false, a2 = false;
  try { b.add(tx, tf); } catch (const std::invalid_argument &) { a1 = true; }
  try { b.add(tx, Eigen::Affine3f::Identity()); } catch (const std::invalid_argument &) { a2 = true; }
  c.yes("texture coordinates", a1 && a2, "must be refused");
  checkDoc(c, text(b), m);
  c.step(8);
  c.state(mc::Hash().u(c.root).h);
}
void large(mc::Ctx &c) {
  size_t n = c.root ? 1000003 : 20000;
  Mesh m;
  m.normal(0, 0, 1);
  for (size_t i = 0; i < n; ++i) m.position(0, 1, 2);
  m.begin(Mesh::POLYGON);
  for (size_t i = n - 5; i < n; ++i) m.vertex(i);
  m.end();
  AL::ColladaSceneBuilder b;
  Model mo;
  Item it;
  it.m = m;
  set(it, TF()[0]);
  mo.items.push_back(it);
  b.add(m, TF()[0]);
  checkDoc(c, text(b), mo);
  c.step(n);
  c.state(n);
}
// scenes of many meshes, written after every addition but one in three; the
// mesh which was added changes afterwards
void many(mc::Ctx &c, int nmax) {
  mc::Dec d(c.root);
  int n = 6 + (int)d(nmax - 5), k = d(3), copyAt = d(4);
  std::unique_ptr<AL::ColladaSceneBuilder> b(new AL::ColladaSceneBuilder(cfg(k)));
  Model m;
  m.cfg = cfg(k);
  Mesh grow;
  grow.normal(0, 0, 1);
  for (int i = 0; i < n; ++i) {
    if (copyAt && i == copyAt * n / 4) b.reset(new AL::ColladaSceneBuilder(*b));
    Item it;
    int im = (i * 5 + n) % 6;
    A::Transform t = TF()[(i + n) % 5];
    t.r1_c4 += i;
    set(it, t);
    if (im > 3) {
      int nv = 3 + i % 7 + (i == n / 2 ? 400 : 0);
      grow.begin(Mesh::POLYGON);
      for (int v = 0; v < nv; ++v) grow.vertex(v, i, -v * 0.5f);
      grow.end();
      it.m = grow;
      b->add(grow, t);
      grow.normal(0, 1, 0);
    } else {
      it.m = M()[im];
      b->add(it.m, t);
    }
    m.items.push_back(it);
  }
  c.step(n);
  std::string s = text(*b);
  checkDoc(c, s, m);
  c.yes("written again", text(*b) == s, "writing a scene does not change it");
  c.state(mc::Hash().s(s).h);
}
// ---- the low-level builder: any history of additions, anywhere in the document
struct El {
  std::string name;
  std::map<std::string, std::string> attrs;  // numbers as they are read back
  std::vector<double> values;
  std::string text;
  std::deque<El> kids;
};
El el(const std::string &name, std::map<std::string, std::string> a = {}, std::deque<El> k = {}) { return {name, a, {}, "", k}; }
void same(mc::Ctx &c, const ptree &t, const El &e) {
  size_t na = 0, nk = 0;
  for (auto &k : t) {
    if (k.first == "<xmlattr>") {
      for (auto &a : k.second) {
        ++na;
        auto it = e.attrs.find(a.first);
        if (it == e.attrs.end() || it->second != a.second.data()) c.fail("attributes", "%s has %s=%s", e.name.c_str(), a.first.c_str(), a.second.data().c_str());
      }
      continue;
    }
    if (nk >= e.kids.size() || e.kids[nk].name != k.first) c.fail("children", "child %zu of %s is %s", nk, e.name.c_str(), k.first.c_str());
    same(c, k.second, e.kids[nk++]);
  }
  c.compared(na + nk + 1);
  if (na != e.attrs.size() || nk != e.kids.size()) c.fail("children", "%s has %zu attributes and %zu children instead of %zu and %zu", e.name.c_str(), na, nk, e.attrs.size(), e.kids.size());
  if (e.text.empty()) {
    auto w = words(t.data());
    if (w.size() != e.values.size()) c.fail("text", "%s has %zu values instead of %zu", e.name.c_str(), w.size(), e.values.size());
    for (size_t i = 0; i < w.size(); ++i) c.near("text", strtod(w[i].c_str(), nullptr), e.values[i], 1e-5 * std::fabs(e.values[i]) + 1e-30);
  } else c.yes("text", t.data() == e.text, "the text of an element");
}
El elSource(const std::vector<float> &v, const std::string &id) {
  El f = el("float_array", {{"count", std::to_string(v.size())}, {"id", id + "_array"}});
  f.values.assign(v.begin(), v.end());
  El a = el("accessor", {{"count", std::to_string(v.size() / 3)}, {"source", "#" + id + "_array"}, {"stride", "3"}});
  for (const char *n : {"X", "Y", "Z"}) a.kids.push_back(el("param", {{"name", n}, {"type", "float"}}));
  return el("source", {{"id", id}}, {f, el("technique_common", {}, {a})});
}
El elInput(const std::string &sem, const std::string &src, int off) { return el("input", {{"semantic", sem}, {"source", "#" + src}, {"offset", std::to_string(off)}}); }
El elEffect(const float *k, const std::string &id) {
  El col = el("color");
  col.values.assign(k, k + 4);
  return el("effect", {{"id", id}}, {el("profile_COMMON", {}, {el("technique", {}, {el("phong", {}, {el("diffuse", {}, {col})})})})});
}
El elMaterial(const std::string &id, const std::string &fx) { return el("material", {{"id", id}}, {el("instance_effect", {{"url", "#" + fx}})}); }
El elNode(const std::string &id, const double *m) {
  El x = el("matrix");
  x.values.assign(m, m + 16);
  El n = el("node", {}, {x});
  if (!id.empty()) n.attrs["id"] = id;
  return n;
}
El elGeometry(const std::string &id, const Mesh &m) {
  El vc = el("vcount"), p = el("p");
  for (size_t i : m.polygonVerticesCounts()) vc.values.push_back(i);
  for (size_t i : m.vertices()) p.values.push_back(i);
  El pl = el("polylist", {{"count", std::to_string(m.polygonVerticesCounts().size())}, {"material", "material"}},
             {elInput("VERTEX", id + "_vertices", 0), elInput("NORMAL", id + "_normals", 1), vc, p});
  return el("geometry", {{"id", id}}, {el("mesh", {}, {elSource(m.positions(), id + "_positions"), elSource(m.normals(), id + "_normals"),
                                                       el("vertices", {{"id", id + "_vertices"}}, {elInput("POSITION", id + "_positions", 0)}), pl})});
}
const int NLOW = 11;
void lowLevel(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  AL::ColladaBuilder b;
  ptree doc = b.createDoc();
  El root = el("COLLADA", {{"xmlns", "http://www.collada.org/2005/11/COLLADASchema"}, {"version", "1.4.1"}});
  El created = el("created"), modified = el("modified");
  created.text = modified.text = "2010-10-09T17:00:00";
  root.kids.push_back(el("asset", {}, {created, modified, el("unit", {{"meter", "1"}, {"name", "meter"}})}));
  for (const char *n : {"library_effects", "library_materials", "library_geometries", "library_nodes", "library_visual_scenes", "scene"}) root.kids.push_back(el(n));
  // the element additions are made under: the last one that was added, one of the libraries, the root
  ptree *at = &doc.get_child("COLLADA");
  El *mat = &root;
  const char *IDS[] = {"a", "", "mesh0", "an id & <more>"};
  const float C[][4] = {{1, 0.5f, 0.25f, 0.125f}, {1e-6f, 0.333333f, 0, 1}, {3e8f, -1, 7, 0.1f}};
  for (int i = 0; i < depth; ++i) {
    int op = d(NLOW), k = (i + op) % 3;
    std::string id = IDS[(i + op / 2) % 4], id2 = IDS[(i * 3 + op) % 4];
    Eigen::Affine3f af;
    double m[16];
    af.matrix().setIdentity();
    for (int j = 0; j < 12; ++j) af.matrix()(j / 4, j % 4) = (&TF()[(i + k) % 5].r1_c1)[j];
    if (k == 1) af.matrix()(3, 1) = 2.5f;
    for (int j = 0; j < 16; ++j) m[j] = af.matrix()(j / 4, j % 4);
    c.log("%d with id '%s'", op, id.c_str());
    ptree *t = nullptr;
    switch (op) {
      case 0: t = &b.addEffectColor(*at, id, C[k][0], C[k][1], C[k][2], C[k][3]); mat->kids.push_back(elEffect(C[k], id)); break;
      case 1: t = &b.addMaterial(*at, id, id2); mat->kids.push_back(elMaterial(id, id2)); break;
      case 2: t = &b.addNode(*at, id, af); mat->kids.push_back(elNode(id, m)); break;
      case 3: {
        ptree n = b.createNode(id, af);
        El w = elNode(id, m);
        same(c, n, w);
        break;
      }
      case 4: t = &b.addVisualScene(*at, id); mat->kids.push_back(el("visual_scene", {{"id", id}})); break;
      case 5: t = &b.addInstanceVisualScene(*at, id); mat->kids.push_back(el("instance_visual_scene", {{"url", "#" + id}})); break;
      case 6: {
        std::vector<float> v;
        for (int j = 0; j < (k == 0 ? 0 : k == 1 ? 3 : 300); ++j) v.push_back((j % 7 - 3) * std::pow(10.f, j % 13 - 6));
        t = &b.addSourceXYZ(*at, v, id);
        mat->kids.push_back(elSource(v, id));
        break;
      }
      case 7: t = &b.addInput(*at, id2, id, 7 * k); mat->kids.push_back(elInput(id2, id, 7 * k)); break;
      case 8: t = &b.addGeometryMesh(*at, id, M()[(i + k) % 4]); mat->kids.push_back(elGeometry(id, M()[(i + k) % 4])); break;
      case 9: {
        t = &b.addInstanceGeometry(*at, id, id2);
        mat->kids.push_back(el("instance_geometry", {{"url", "#" + id}}, {el("bind_material", {}, {el("technique_common", {}, {el("instance_material", {{"symbol", "material"}, {"target", "#" + id2}})})})}));
        break;
      }
      case 10: {  // a material and its effect, in the libraries
        b.addMaterialEffectColor(doc, C[k][0], C[k][1], C[k][2], C[k][3], id);
        root.kids[1].kids.push_back(elEffect(C[k], id + "-fx"));
        root.kids[2].kids.push_back(elMaterial(id, id + "-fx"));
        break;
      }
    }
    c.step();
    int move = d(3);  // stay, go into what was added, go to a library
    if (move == 1 && t) { at = t; mat = &mat->kids.back(); }
    if (move == 2) { int l = 1 + (i + op) % 6; at = &std::next(doc.get_child("COLLADA").begin(), l + 1)->second; mat = &root.kids[l]; }
    c.state(mc::Hash().u(c.root % (i ? 33 * 33 : 33)).u(i).h);
  }
  c.yes("document", doc.size() == 1 && doc.front().first == "COLLADA", "one root");
  same(c, doc.front().second, root);
  // through the text
  std::ostringstream os;
  write_xml(os, doc);
  std::istringstream is(os.str());
  ptree back;
  read_xml(is, back, boost::property_tree::xml_parser::trim_whitespace);
  same(c, back.get_child("COLLADA"), root);
}
}  // namespace
void mc::setup() {
  int dp = mc::thorough() ? 5 : 4;
  mc::family("histories", 9 * 64, [dp](mc::Ctx &c) { hist(c, dp); }, "all histories of 4 (5 thorough) additions, copies and assignments over 8 operations on 3 builders, 9 configurations");
  mc::family("shapes", 3 * 3 * 5 * 2 * 27, shapes, "3 configurations x 3 shapes x 27 sizes x 5 poses");
  int nm = mc::thorough() ? 150 : 40;
  mc::family("many", (nm - 5) * 12, [nm](mc::Ctx &c) { many(c, nm); }, "scenes of 6 to 40 (150) meshes, 3 configurations, copied at 3 places or not");
  static const int ld = mc::thorough() ? 4 : 3;
  uint64_t nl = 1;
  for (int i = 0; i < ld; ++i) nl *= 3 * NLOW;
  mc::family("elements", nl, [](mc::Ctx &c) { lowLevel(c, ld); }, "all histories of 3 (4 thorough) additions out of 11 with the low-level builder, under the root, a library or what was added last");
  mc::family("large", 2, large, "indexes above 2e4 and 1e6");
}
