// C15: the mesh builder: every sequence of calls against a model of the
// OpenGL-like state machine
#include "mc.h"
#include <almath/scenegraph/mesh.h>
#include <stdexcept>
using AL::Mesh;
namespace {
struct Ref {
  bool tex = false;
  std::vector<float> p, n, t;
  std::vector<size_t> v, vc;
  int mode = -1;  // none, or POLYGON 0, TRIANGLES 1, QUADS 2
  size_t open = 0, cn = (size_t)-1, ct = (size_t)-1;
  // 0 done, 1 refused
  int vertex(size_t i) {
    if (mode < 0 || i >= p.size() / 3 || cn == (size_t)-1 || (tex && ct == (size_t)-1)) return 1;
    v.push_back(i);
    v.push_back(cn);
    if (tex) v.push_back(ct);
    ++open;
    return 0;
  }
  int end() {
    if (mode < 0) return 1;
    if (mode == 0) {
      if (open) vc.push_back(open);
    } else {
      size_t k = mode == 1 ? 3 : 4;
      if (open % k) return 1;
      for (size_t i = 0; i < open / k; ++i) vc.push_back(k);
    }
    mode = -1;
    open = 0;
    return 0;
  }
  uint64_t h() const {
    mc::Hash s;
    s.u(tex).u(mode + 2).u(open).u(cn).u(ct).u(p.size()).u(n.size()).u(t.size());
    for (size_t x : v) s.u(x);
    s.u(77);
    for (size_t x : vc) s.u(x);
    return s.h;
  }
};
void same(mc::Ctx &c, const Mesh &m, const Ref &r) {
  c.yes("stride", m.withTexCoords() == r.tex && m.verticesStride() == (r.tex ? 3u : 2u), "indexes per vertex");
  c.yes("positions", m.positions() == r.p && m.positionsNb() == r.p.size() / 3, "buffer of positions");
  c.yes("normals", m.normals() == r.n && m.normalsNb() == r.n.size() / 3, "buffer of normals");
  c.yes("texture coordinates", m.texCoords() == r.t && m.texCoordsNb() == r.t.size() / 2, "buffer of texture coordinates");
  c.yes("vertices", m.vertices() == r.v && m.verticesNb() == r.v.size() / (r.tex ? 3 : 2), "buffer of vertices");
  c.yes("polygons", m.polygonVerticesCounts() == r.vc && m.polygonsNb() == r.vc.size(), "vertices per polygon");
}
const int NOPS = 15;
void build(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  bool tex = d(2);
  int prelude = d(3);
  Mesh m(tex);
  Ref r;
  r.tex = tex;
  float next = 1;
  auto pos = [&]() {
    float a = next++, b = next++, e = next++;
    size_t i = m.position(a, b, e);
    r.p.insert(r.p.end(), {a, b, e});
    c.yes("position", i == r.p.size() / 3 - 1, "index of the new position");
  };
  const float N[3][3] = {{0, 0, 1}, {0.6f, 0, -0.8f}, {0, -1, 0}};
  auto nor = [&]() {
    const float *q = N[r.n.size() / 3 % 3];
    size_t i = m.normal(q[0], q[1], q[2]);
    r.n.insert(r.n.end(), q, q + 3);
    r.cn = r.n.size() / 3 - 1;
    c.yes("normal", i == r.cn, "index of the new normal");
  };
  auto txc = [&]() {
    float a = next++, b = next++;
    size_t i = m.texCoord(a, b);
    r.t.insert(r.t.end(), {a, b});
    r.ct = r.t.size() / 2 - 1;
    c.yes("texCoord", i == r.ct, "index of the new coordinates");
  };
  if (prelude >= 1) { pos(); nor(); txc(); }
  if (prelude >= 2) {
    pos(); pos(); nor(); txc();
    m.begin(Mesh::TRIANGLES);
    r.mode = 1;
    for (int k : {0, 1, 2, 2, 1}) { m.vertex(k); r.vertex(k); }
  }
  for (int s = 0; s < depth; ++s) {
    int op = s < 3 ? (int)d(NOPS) : c.pick(NOPS);
    int want = 0, got = 0, kind = 0;  // kind 1 runtime_error, 2 out_of_range
    c.step();
    try {
      switch (op) {
        case 0: c.log("position"); pos(); break;
        case 1: c.log("normal"); nor(); break;
        case 2: c.log("normal(0)"); if (r.n.empty()) want = 2; else r.cn = 0; m.normal(0); break;
        case 3: c.log("normal(last+1)"); want = 2; m.normal(r.n.size() / 3); break;
        case 4: c.log("texCoord"); txc(); break;
        case 5: c.log("texCoord(0)"); if (r.t.empty()) want = 2; else r.ct = 0; m.texCoord((size_t)0); break;
        case 6: c.log("texCoord(last+1)"); want = 2; m.texCoord(r.t.size() / 2); break;
        case 7: case 8: case 9: {
          c.log("begin(%d)", op - 7);
          if (r.mode >= 0) want = 1; else r.mode = op - 7;
          m.begin((Mesh::Mode)(op - 7));
          break;
        }
        case 10: c.log("vertex(0)"); want = r.vertex(0); m.vertex((size_t)0); break;
        case 11: c.log("vertex(last+1)"); want = r.vertex(r.p.size() / 3); m.vertex(r.p.size() / 3); break;
        case 12: {
          float a = next++, b = next++, e = next++;
          c.log("vertex(x,y,z)");
          if (r.mode < 0) want = 1;
          else { r.p.insert(r.p.end(), {a, b, e}); want = r.vertex(r.p.size() / 3 - 1); }
          m.vertex(a, b, e);
          break;
        }
        case 13: c.log("end"); want = r.end(); m.end(); break;
        default: {
          c.log("continue on a copy while the original is modified");
          Mesh k(m);
          m.position(7, 7, 7);
          m.normal(1, 0, 0);
          m = k;
          break;
        }
      }
    } catch (const std::logic_error &) { got = 2; kind = 2;
    } catch (const std::runtime_error &) { got = 1; kind = 1; }
    if ((want != 0) != (got != 0)) c.fail(want ? "accepted" : "refused", "operation %d was %s", op, want ? "accepted although it is invalid in this state" : "refused although it is valid in this state");
    (void)kind;
    same(c, m, r);
    c.state(r.h());
  }
  for (size_t i = 0; i < r.p.size(); ++i) c.yes("positionPtrAt", m.positionPtrAt(i / 3)[i % 3] == r.p[i], "accessor");
  for (size_t i = 0; i < r.n.size(); ++i) c.yes("normalPtrAt", m.normalPtrAt(i / 3)[i % 3] == r.n[i], "accessor");
  for (size_t i = 0; i < r.t.size(); ++i) c.yes("texCoordPtrAt", m.texCoordPtrAt(i / 2)[i % 2] == r.t[i], "accessor");
  size_t st = tex ? 3 : 2;
  for (size_t i = 0; i < r.v.size(); ++i) c.yes("vertexPtrAt", m.vertexPtrAt(i / st)[i % st] == r.v[i], "accessor");
  for (size_t i = 0; i < r.vc.size(); ++i) c.yes("polygonVerticesCountAt", m.polygonVerticesCountAt(i) == r.vc[i], "accessor");
  bool th = false;
  try { m.positionPtrAt(r.p.size() / 3); } catch (const std::out_of_range &) { th = true; }
  c.yes("positionPtrAt", th, "beyond the end must throw");
  auto refused = [&](auto f) { try { f(); } catch (const std::exception &) { return true; } return false; };
  for (size_t far : {(size_t)-1, (size_t)-2, (size_t)1 << 32, (size_t)1 << 63, r.p.size() + 5, r.p.size(), r.p.size() / 3 + 1})
    c.yes("refused", refused([&] { m.vertex(far); }), "a vertex which does not exist");
  for (size_t far : {(size_t)-1, (size_t)-2, (size_t)1 << 32, (size_t)1 << 63, r.n.size() + 5, r.n.size() / 3 + 1})
    c.yes("refused", refused([&] { m.normal(far); }), "a normal which does not exist");
  for (size_t far : {(size_t)-1, (size_t)-2, (size_t)1 << 32, (size_t)1 << 63, r.t.size() + 5, r.t.size() / 2 + 1})
    c.yes("refused", refused([&] { m.texCoord(far); }), "texture coordinates which do not exist");
  same(c, m, r);
}
// long words over the drawing operations only
void draw(mc::Ctx &c, int depth) {
  mc::Dec d(c.root);
  bool tex = d(2);
  Mesh m(tex);
  Ref r;
  r.tex = tex;
  m.normal(0, 0, 1); r.n = {0, 0, 1}; r.cn = 0;
  m.texCoord(1, 2); r.t = {1, 2}; r.ct = 0;
  m.position(0, 0, 0); r.p = {0, 0, 0};
  for (int s = 0; s < depth; ++s) {
    int op = s < 4 ? (int)d(5) : c.pick(5);
    int want, got = 0;
    try {
      if (op < 3) { c.log("begin(%d)", op); want = r.mode >= 0; if (!want) r.mode = op; m.begin((Mesh::Mode)op); }
      else if (op == 3) { c.log("vertex"); want = r.vertex(0); m.vertex((size_t)0); }
      else { c.log("end"); want = r.end(); m.end(); }
    } catch (const std::runtime_error &) { got = 1; }
    c.step();
    c.yes("accepted iff valid", want == got, "");
    same(c, m, r);
    c.state(r.h());
  }
}
// long polygons and many of them; refused calls in the middle
void large(mc::Ctx &c, int nmax) {
  mc::Dec d(c.root);
  bool tex = d(2);
  int mode = d(3), n = d(nmax), way = d(3), first = d(3);
  Mesh m(tex);
  Ref r;
  r.tex = tex;
  m.normal(0, 0, 1); r.n = {0, 0, 1}; r.cn = 0;
  m.texCoord(1, 2); r.t = {1, 2}; r.ct = 0;
  m.position(0, 0, 0); r.p = {0, 0, 0};
  int got = 0;
  auto call = [&](auto f) { try { f(); return 0; } catch (const std::exception &) { return 1; } };
  // content before
  for (int k = 0; k < first * 40; ++k) {
    m.begin(k % 2 ? Mesh::POLYGON : Mesh::TRIANGLES); r.mode = k % 2 ? 0 : 1;
    for (int v = 0; v < 3; ++v) { m.vertex((size_t)0); r.vertex(0); }
    m.end(); r.end();
  }
  m.begin((Mesh::Mode)mode); r.mode = mode;
  for (int i = 0; i < n; ++i) {
    if (way == 0 || (way == 2 && i % 5 == 1)) { r.p.insert(r.p.end(), {(float)i, 1.f, 2.f}); r.vertex(r.p.size() / 3 - 1); m.vertex(i, 1, 2); }
    else { size_t at = i * 7 % (r.p.size() / 3); r.vertex(at); m.vertex(at); }
    if (i % 16 == 3) { float q = i; m.normal(0.6f, 0.f, q > 0 ? 0.8f : -0.8f); r.n.insert(r.n.end(), {0.6f, 0.f, q > 0 ? 0.8f : -0.8f}); r.cn = r.n.size() / 3 - 1; }
    if (i % 11 == 4) { m.texCoord(i, 0); r.t.insert(r.t.end(), {(float)i, 0.f}); r.ct = r.t.size() / 2 - 1; }
    if (i % 23 == 7) { got = call([&] { m.begin(Mesh::QUADS); }); c.yes("refused", got == 1, "begin inside of a group"); }
    if (i % 19 == 5) { got = call([&] { m.vertex(r.p.size() / 3); }); c.yes("refused", got == 1, "a vertex which does not exist"); }
  }
  c.step(n);
  int want = r.end();
  got = call([&] { m.end(); });
  c.yes("end", got == want, want ? "an incomplete group was accepted" : "a complete group was refused");
  while (want) {  // completed
    m.vertex((size_t)0); r.vertex(0);
    want = r.end();
    got = call([&] { m.end(); });
    c.yes("end", got == want, "a completed group is accepted");
  }
  same(c, m, r);
  c.state(r.h());
}
}  // namespace
void mc::setup() {
  int dp = mc::thorough() ? 6 : 5;
  mc::family("calls", 6 * 3375, [dp](mc::Ctx &c) { build(c, dp); }, "all sequences of 5 (6 thorough) calls over 15, from 3 starting states, with and without texture coordinates");
  int nm = mc::thorough() ? 1200 : 300;
  mc::family("large", 2 * 3 * nm * 9, [nm](mc::Ctx &c) { large(c, nm); }, "groups of 0 to 299 (1199) vertices of each kind, in 3 ways, after 0, 40 or 80 others, refused calls in between");
  int dd = mc::thorough() ? 11 : 9;
  mc::family("drawing", 2 * 625, [dd](mc::Ctx &c) { draw(c, dd); }, "all sequences of 9 (11 thorough) begin/vertex/end calls");
}
