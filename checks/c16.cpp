// C16: generated meshes are closed, outward oriented and on the shape
#include "conv.h"
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <map>
using AL::Mesh;
namespace {
using ref::V3;
struct View {  // polygons of a mesh from a given polygon on
  std::vector<V3> p, n;
  struct Poly { std::vector<size_t> p, n; };
  std::vector<Poly> f;
};
View view(mc::Ctx &c, const Mesh &m, size_t poly0) {
  View v;
  for (size_t i = 0; i < m.positionsNb(); ++i) { const float *q = m.positionPtrAt(i); v.p.push_back({q[0], q[1], q[2]}); }
  for (size_t i = 0; i < m.normalsNb(); ++i) { const float *q = m.normalPtrAt(i); v.n.push_back({q[0], q[1], q[2]}); }
  size_t at = 0, st = m.verticesStride();
  for (size_t i = 0; i < m.polygonsNb(); ++i) {
    View::Poly p;
    for (size_t k = 0; k < m.polygonVerticesCountAt(i); ++k, ++at) {
      c.yes("buffers", at < m.verticesNb(), "polygon counts exceed the vertices");
      const size_t *q = m.vertexPtrAt(at);
      c.yes("buffers", q[0] < v.p.size() && q[1] < v.n.size() && (st == 2 || q[2] < m.texCoordsNb()), "index out of range");
      p.p.push_back(q[0]);
      p.n.push_back(q[1]);
    }
    if (i >= poly0) v.f.push_back(p);
  }
  c.yes("buffers", at == m.verticesNb(), "vertices without polygon");
  return v;
}
// closed oriented surface, outward normals; returns the volume
double solid(mc::Ctx &c, const View &v, double size, bool flat) {
  std::map<std::pair<size_t, size_t>, int> edge;
  double vol = 0;
  std::vector<int> used(v.p.size());
  for (auto &f : v.f) {
    size_t k = f.p.size();
    c.yes("polygon", k >= 3, "a polygon has at least 3 vertices");
    V3 an{0, 0, 0};
    for (size_t i = 0; i < k; ++i) {
      size_t a = f.p[i], b = f.p[(i + 1) % k];
      used[a] = 1;
      if (a != b) ++edge[{a, b}];
      an = an + 0.5 * ref::cross(v.p[a], v.p[b]);
    }
    for (size_t i = 1; i + 1 < k; ++i) vol += ref::dot(v.p[f.p[0]], ref::cross(v.p[f.p[i]], v.p[f.p[i + 1]])) / 6;
    double area = ref::norm(an);
    if (area > 1e-5 * size * size)
      for (size_t i = 0; i < k; ++i) {
        c.near("unit normals", ref::norm(v.n[f.n[i]]), 1, 1e-5);
        if (!flat) c.yes("winding", ref::dot(an, v.n[f.n[i]]) > 1e-3 * area, "counter-clockwise seen from the side of its normals");
        else c.near("face normals", ref::dot(an, v.n[f.n[i]]) / area, 1, 1e-5);
      }
    c.compared(k);
  }
  for (auto &e : edge) {
    if (e.second != 1) c.fail("closed", "edge %zu-%zu used %d times in the same direction", e.first.first, e.first.second, e.second);
    auto o = edge.find({e.first.second, e.first.first});
    if (o == edge.end() || o->second != 1) c.fail("closed", "edge %zu-%zu has no opposite", e.first.first, e.first.second);
    c.compared();
  }
  return vol;
}
const float HE[] = {0.f, 0.3f, 0.7f, 2.f, 0.05f};
const float RA[] = {0.4f, 1.f, 0.02f, 5.f};
const float HL[] = {0.f, 60.f, 140.f, 400.f, 10.f}, RL[] = {80.f, 200.f, 4.f, 1000.f};
const float HS[] = {0.f, 3e-4f, 7e-4f, 2e-3f, 5e-5f}, RS[] = {4e-4f, 1e-3f, 2e-5f, 5e-3f};
void rounded(mc::Ctx &c, const float *he, const float *ra, int n0, int root = -1) {
  mc::Dec d(root < 0 ? c.root : root);
  float hx = he[d(5)], hy = he[d(5)], hz = he[d(5)], r = ra[d(4)];
  int n = n0 < 0 ? d(mc::thorough() ? 12 : 6) : n0, pre = d(3);
  c.log("half extents %g %g %g radius %g vertices per arc %d, %s", hx, hy, hz, r, n, pre == 0 ? "new mesh" : "added to a mesh");
  Mesh m(pre == 2);
  if (pre == 2) m.texCoord(0.5f, 0.5f);
  if (pre == 1) AL::addBoxMesh(1, 2, 3, m);
  if (pre == 2) AL::addRoundedBoxMesh(0.1f, 0, 1, 0.3f, 2, m);
  Mesh before = m;
  if (pre == 0) m = AL::createRoundedBoxMesh(hx, hy, hz, r, n);
  else AL::addRoundedBoxMesh(hx, hy, hz, r, n, m);
  c.step();
  auto prefix = [](const auto &a, const auto &b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); };
  c.yes("appending", prefix(before.positions(), m.positions()) && prefix(before.normals(), m.normals()) && prefix(before.vertices(), m.vertices()) && prefix(before.polygonVerticesCounts(), m.polygonVerticesCounts()), "the former content of the mesh must be kept");
  View v = view(c, m, before.polygonsNb());
  size_t p0 = before.positionsNb();
  double size = r + std::max(hx, std::max(hy, hz));
  for (auto &f : v.f) for (size_t i : f.p) c.yes("own vertices", i >= p0, "a polygon uses vertices of the former content");
  double vol = solid(c, v, r, false);
  // on the surface of the box extended by the radius
  for (auto &f : v.f)
    for (size_t i = 0; i < f.p.size(); ++i) {
      V3 p = v.p[f.p[i]];
      V3 q{p.x - std::max(-(double)hx, std::min((double)hx, p.x)), p.y - std::max(-(double)hy, std::min((double)hy, p.y)), p.z - std::max(-(double)hz, std::min((double)hz, p.z))};
      // the equator is 8e-4 rad off, so that it may be inside of the clamped slab
      c.near("on the surface", ref::norm(q), r, 4e-6 * size + 2e-6 * r + 1e-6 * r);
      V3 nn = v.n[f.n[i]];
      c.near("normal of the surface", ref::dot(nn, q) / r, 1, 1e-5 + 4e-6 * size / r);
    }
  // support function on a grid of directions: the extents are those of the
  // shape, up to the facets of n intermediate vertices per quarter arc
  int K = n + 1;
  double step = ref::PI / 2 / K, sag = r * (1 - std::cos(step * 0.73)) + 2e-3 * r + 1e-5 * size;
  const int by = n > 11 ? 2 * (K / 5) + 1 : 1;
  for (int a = 0; a < 8 * K; a += by)
    for (int b = 0; b <= 4 * K; b += by) {
      double la = a * step / 2, ph = b * step / 2;
      V3 dir{std::sin(ph) * std::cos(la), std::sin(ph) * std::sin(la), std::cos(ph)};
      double h = -1e30, e = hx * std::fabs(dir.x) + hy * std::fabs(dir.y) + hz * std::fabs(dir.z) + r;
      for (size_t i = p0; i < v.p.size(); ++i) h = std::max(h, ref::dot(v.p[i], dir));
      c.yes("not larger than the shape", h <= e + 1e-5 * size, "");
      bool vertex = a % 2 == 0 && b % 2 == 0;
      if (!(h >= e - (vertex ? 2e-3 * r + 1e-5 * size : sag))) c.fail("not smaller than the shape", "direction %g %g: extent %g, expected %g", la, ph, h, e);
      c.compared();
    }
  double X = hx, Y = hy, Z = hz, R = r;
  double ev = 8 * X * Y * Z + 8 * R * (X * Y + Y * Z + X * Z) + 2 * ref::PI * R * R * (X + Y + Z) + 4.0 / 3 * ref::PI * R * R * R;
  c.yes("volume", vol <= ev * 1.0001 && vol > 0, "at most the volume of the shape");
  double q = 1 - std::cos(step / 2);
  if (n >= 2) c.yes("volume", vol >= ev * (1 - 5 * q), "volume far below the one of the shape");
  c.state(mc::Hash().q(vol).u(v.f.size()).h);
}
void box(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float H[] = {0.3f, 0.7f, 2.f, 0.05f, 30.f};
  float hx = H[d(5)], hy = H[d(5)], hz = H[d(5)];
  int how = d(4), pre = d(2);
  Mesh m;
  if (pre) AL::addRoundedBoxMesh(0.2f, 0.3f, 0.4f, 0.1f, 1, m);
  Mesh before = m;
  switch (how) {
    case 0: AL::addBoxMesh(hx, hy, hz, m); break;
    case 1: if (pre) c.skip(); m = AL::createBoxMesh(hx, hy, hz); break;
    case 2: if (pre) c.skip(); m = AL::createRoundedBoxMesh(hx, hy, hz, 0.f, 3); break;
    default: AL::addRoundedBoxMesh(hx, hy, hz, 0.f, 3, m);
  }
  c.step();
  View v = view(c, m, before.polygonsNb());
  double size = std::max(hx, std::max(hy, hz));
  double vol = solid(c, v, size * 1e-3, true);
  c.near("volume", vol / (8.0 * hx * hy * hz), 1, 1e-5);
  for (auto &f : v.f)
    for (size_t i : f.p) {
      c.yes("own vertices", i >= before.positionsNb(), "a polygon uses vertices of the former content");
      c.yes("corners", std::fabs(v.p[i].x) == hx && std::fabs(v.p[i].y) == hy && std::fabs(v.p[i].z) == hz, "the vertices are the corners");
    }
  c.yes("faces", v.f.size() == 6, "six faces");
  c.state(mc::Hash().q(vol).u(how).u(pre).h);
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  int n = th ? 12 : 6;
  mc::family("rounded", 125 * 4 * n * 3, [](mc::Ctx &c) { rounded(c, HE, RA, -1); }, "5x5x5 half extents (including null ones) x 4 radii x 0 to 5 (11 thorough) vertices per arc, alone or appended");
  for (int k : th ? std::vector<int>{12, 15, 16, 23, 31, 32, 47, 64} : std::vector<int>{12, 16, 31})
    mc::family("fine-" + std::to_string(k), 125 * 4 * 3, [k](mc::Ctx &c) { rounded(c, HE, RA, k); }, "same, " + std::to_string(k) + " vertices per arc");
  {
    // some shapes among the roots of the families above: (x, y, z, radius), alone
    static const std::vector<int> N = th ? std::vector<int>{65, 96, 127, 128, 129, 200, 254, 255, 256, 257, 300} : std::vector<int>{65, 129, 257};
    mc::family("finest", N.size() * 6, [](mc::Ctx &c) {
      static const int S[6] = {1 + 2 * 5 + 3 * 25 + 1 * 125, 0, 4 + 1 * 5 + 0 * 25 + 2 * 125, 2 + 2 * 5 + 2 * 25 + 3 * 125 + 500, 3 * 25 + 0 * 125 + 1000, 4 * 5 + 1 * 125};
      rounded(c, HE, RA, N[c.root / 6], S[c.root % 6]);
    }, "6 shapes with 65 to 257 (300) vertices per arc");
  }
  mc::family("huge", 125 * 4 * 3, [](mc::Ctx &c) { rounded(c, HL, RL, 3); }, "same extents and radii, 200 times as large");
  mc::family("tiny", 125 * 4 * 3, [](mc::Ctx &c) { rounded(c, HS, RS, 2); }, "same extents and radii, in units 1000 times as large");
  mc::family("box", 125 * 8, box, "5x5x5 half extents x 4 constructions, alone or appended");
}
