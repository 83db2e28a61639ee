// reference for masses of trees
#pragma once
#include "urdfref.h"
namespace U {
struct B { double m = 0; V3 com; M3 I; };  // inertia at the centre of mass, axes of the frame
inline M3 zero() { M3 z; for (auto &r : z.m) for (double &v : r) v = 0; return z; }
inline M3 plus(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][j] + b.m[i][j]; return r; }
inline M3 point(double m, V3 d) {
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = m * ((i == j ? ref::dot(d, d) : 0) - d[i] * d[j]);
  return r;
}
inline B body(const T3 &at, double m, const M3 &I) {
  B b;
  b.m = m;
  b.com = at.p;
  b.I = at.R * (I * ref::tr(at.R));
  return b;
}
inline B sum(const std::vector<B> &v) {
  B t;
  t.I = zero();
  for (auto &b : v) { t.m += b.m; t.com = t.com + b.m * b.com; }
  if (t.m == 0) {  // the centre of mass is anywhere
    for (auto &b : v) t.I = plus(t.I, b.I);
    return t;
  }
  t.com = (1 / t.m) * t.com;
  for (auto &b : v) t.I = plus(t.I, plus(b.I, point(b.m, b.com - t.com)));
  return t;
}
inline B one(const Mass &m, const T3 &frame) { return body(frame * m.at, m.m, m.I); }
inline void same(mc::Ctx &c, const B &a, const B &b, const char *key, double tol = 1e-9) {
  c.near((std::string(key) + " mass").c_str(), b.m, a.m, tol * (1 + a.m));
  if (a.m != 0) for (int i = 0; i < 3; ++i) c.near((std::string(key) + " centre of mass").c_str(), b.com[i], a.com[i], tol * 10);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.near((std::string(key) + " inertia").c_str(), b.I.m[i][j], a.I.m[i][j], tol * 100);
}
// mass of every link after squashing, at the zero configuration, from the
// document alone: post-order, each fixed joint gives to its parent
inline void fold(const Doc &d, const std::string &link, const T3 &at, bool massless, std::vector<std::vector<B>> &mass, std::vector<std::string> &types, std::vector<std::string> &names) {
  int me = d.link(link);
  if (d.links[me].mass.present) mass[me].push_back(one(d.links[me].mass, at));
  for (size_t i = 0; i < d.joints.size(); ++i) {
    const Joint &j = d.joints[i];
    if (j.parent != link) continue;
    int ch = d.link(j.child);
    fold(d, j.child, at * j.o, massless, mass, types, names);
    if (j.type == "fixed") {
      mass[me].insert(mass[me].end(), mass[ch].begin(), mass[ch].end());
      mass[ch].clear();
    } else if (massless && mass[ch].empty()) {
      types[i] = "fixed";
      names.push_back(j.name);
    }
  }
}
inline void frames(const Doc &d, const std::string &link, const T3 &at, std::vector<T3> &out) {
  out[d.link(link)] = at;
  for (auto &j : d.joints) if (j.parent == link) frames(d, j.child, at * j.o, out);
}
}  // namespace U
