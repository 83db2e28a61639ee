// C24: an animation is accepted exactly when its curves are valid
#include <almath/scenegraph/qianim.h>
#include <cstring>
#include "mc.h"
using namespace AL::qianim;
namespace {
template <typename F> bool throws(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
void put(ptree &e, const char *n, const char *v) { if (v) e.put(std::string("<xmlattr>.") + n, v); }
ptree key(const char *frame, const char *value) {
  ptree k;
  put(k, "frame", frame);
  put(k, "value", value);
  return k;
}
void tangent(ptree &k, const char *side, const char *a, const char *o) {
  ptree t;
  put(t, "side", side);
  put(t, "abscissaParam", a);
  put(t, "ordinateParam", o);
  k.push_back({"Tangent", t});
}
ptree goodCurve(int k = 0) {
  static const char *M[] = {nullptr, "true", "false"}, *U[] = {"degree", "dimensionless", "radian", "meter"};
  ptree c;
  put(c, "actuator", "A"); put(c, "fps", k % 2 ? "1" : "25"); put(c, "mute", M[k % 3]); put(c, "unit", U[k % 4]);
  return c;
}
ptree wrap(const std::vector<ptree> &cs) {
  ptree a;
  put(a, "typeVersion", "2.0");
  for (auto &c : cs) a.push_back({"ActuatorCurve", c});
  return a;
}
// the same curve among others, whatever its other attributes are
void all(mc::Ctx &c, const ptree &keys, bool ok) {
  int k = c.pick(12), at = (c.root + k) % 3;
  ptree cu = goodCurve(k);
  for (auto &e : keys)
    if (e.first != "<xmlattr>") cu.push_back(e);
  std::vector<ptree> cs(2, goodCurve(k + 1));
  cs.insert(cs.begin() + at, cu);
  c.log("curve %d of an animation, attributes %d", at, k);
  c.yes("all", throws([&] { V2::Animation::check_all(wrap(cs)); }) == !ok, "check_all has the same verdict");
}
void attributes(mc::Ctx &c) {
  mc::Dec d(c.root);
  const char *VER[] = {"2.0", "1.0", "2", "", "2.00", nullptr};
  const char *ACT[] = {"HeadYaw", "", nullptr};
  const char *FPS[] = {"25", "1", "0", "-25", "x", "", "25.5", "2147483647", nullptr};
  const char *MUT[] = {"true", "false", "1", "0", nullptr};
  const char *UNI[] = {"dimensionless", "radian", "degree", "meter", "", "Radian", "degrees", "rad", nullptr};
  int v = d(6), a = d(3), f = d(9), m = d(5), u = d(9), where = d(4);
  ptree k;
  put(k, "actuator", ACT[a]); put(k, "fps", FPS[f]); put(k, "mute", MUT[m]); put(k, "unit", UNI[u]);
  std::vector<ptree> cs(where < 3 ? 3 : 1, goodCurve());
  cs[where % 3] = k;
  ptree p = wrap(cs);
  p.get_child("<xmlattr>").clear();
  put(p, "typeVersion", VER[v]);
  bool ok = v == 0 && a < 2 && (f < 2 || f == 7) && u < 4;
  bool th = throws([&] { V2::Animation::check_all(p); });
  c.step();
  if (th == ok) c.fail("attributes", "version %s actuator %s fps %s mute %s unit %s, curve %d: %s", VER[v] ? VER[v] : "-", ACT[a] ? ACT[a] : "-", FPS[f] ? FPS[f] : "-", MUT[m] ? MUT[m] : "-", UNI[u] ? UNI[u] : "-", where, th ? "refused" : "accepted");
  c.compared();
  c.yes("mute", V2::ActuatorCurve::get_mute(k) == (m == 0 || m == 2), "value of mute");
  c.state(mc::Hash().u(c.root).h);
}
// two keys
void interval(mc::Ctx &c) {
  mc::Dec d(c.root);
  const char *F0[] = {"0", "3", "-1", "x", nullptr};
  const char *F1[] = {"0", "3", "4", "7", "-2", "1.5", nullptr};
  // kind of tangent: abscissa relative to the duration
  int f0 = d(5), f1 = d(7), t0 = d(12), t1 = d(12), miss = d(5);
  int a = f0 < 2 ? atoi(F0[f0]) : -99, b = f1 < 4 ? atoi(F1[f1]) : -99;
  int dur = a >= 0 && b >= 0 ? b - a : 4;
  auto text = [&](int k, double sign, bool &in) -> std::string {
    double v = k == 0 ? 0 : k == 1 ? dur : k == 2 ? dur / 2. : k == 3 ? 1e-9 : k == 4 ? dur - 1e-9 : k == 5 ? -1e-9 : k == 6 ? dur + 1e-9 : k == 7 ? dur + 1 : k == 8 ? -1 : -dur;
    in = v >= 0 && v <= dur;
    char o[40];
    snprintf(o, sizeof o, "%.17g", sign * v);
    return o;
  };
  bool in0 = false, in1 = false;
  ptree k0 = key(F0[f0], miss == 1 ? nullptr : "1.5"), k1 = key(F1[f1], miss == 2 ? "one" : "-2");
  // the other tangents of the keys, which do not matter
  if ((c.root & 1) != 0) tangent(k0, "left", "7", nullptr);
  if ((c.root & 2) != 0) k0.push_back({"<xmlcomment>", ptree("Tangent")});
  if (t0 < 10) tangent(k0, "right", text(t0, 1, in0).c_str(), miss == 3 ? nullptr : "0.5");
  else if (t0 == 10) tangent(k0, "right", "far", "1");
  if ((c.root & 1) != 0) tangent(k1, "right", "-7", "x");
  if (t1 < 10) tangent(k1, "left", text(t1, -1, in1).c_str(), miss == 4 ? "" : "0.5");
  else if (t1 == 10) tangent(k1, "left", nullptr, "1");
  ptree cu = goodCurve();
  cu.push_back({"Key", k0});
  if ((c.root & 1) != 0) cu.push_back({"<xmlcomment>", ptree("Key")});
  cu.push_back({"Key", k1});
  bool ok = a >= 0 && b >= 0 && dur > 0 && in0 && in1 && miss == 0;
  c.log("frames %s %s, right tangent %d, left tangent %d, missing %d", F0[f0] ? F0[f0] : "-", F1[f1] ? F1[f1] : "-", t0, t1, miss);
  bool th = throws([&] { V2::ActuatorCurve::check_cubic_bezier<double>(cu); });
  c.step();
  c.yes("interval", th == !ok, ok ? "a valid interval is refused" : "an invalid interval is accepted");
  bool tf = throws([&] { V2::ActuatorCurve::check_cubic_bezier<float>(cu); });
  bool edge = (t0 >= 3 && t0 <= 6) || (t1 >= 3 && t1 <= 6);  // not representable as float
  if (!edge) c.yes("float", tf == !ok, "same verdict with floats");
  // the parameters given to a functor
  int n = 0;
  bool args = true;
  bool ta = throws([&] {
    V2::Key::apply_cubic_bezier<double>(k0, k1, [&](int p0, double v0, double d1, double w1, double d2, double w2, int p3, double v3) {
      ++n;
      bool i;
      args = p0 == a && p3 == b && v0 == 1.5 && v3 == -2 && w1 == 0.5 && w2 == 0.5 && d1 == atof(text(t0, 1, i).c_str()) && d2 == atof(text(t1, -1, i).c_str());
    });
  });
  bool complete = a >= 0 && b >= 0 && t0 < 10 && t1 < 10 && miss == 0;
  c.yes("apply", ta == !complete && n == (complete ? 1 : 0) && args, "the functor gets the parameters of the curve, once");
  c.state(mc::Hash().u(c.root).h);
  all(c, cu, ok);
}
// longer curves: every sequence of frames, and one tangent that differs
void curve(mc::Ctx &c, int n) {
  mc::Dec d(c.root);
  std::vector<int> f;
  for (int i = 0; i < n; ++i) f.push_back(d(n + 1));
  int bad = c.pick(2 * n + 1), kind = bad < 2 * n ? c.pick(4) : 0;
  ptree cu = goodCurve();
  bool ok = true;
  for (int i = 0; i < n; ++i) {
    ptree k = key(std::to_string(f[i]).c_str(), "0");
    for (int s = 0; s < 2; ++s) {
      bool inner = s ? i + 1 < n : i > 0;
      double dur = !inner ? 1 : s ? f[i + 1] - f[i] : f[i] - f[i - 1];
      double a = (i + s) % 3 == 0 ? 0 : (i + s) % 3 == 1 ? dur : dur / 2;
      bool is = bad == 2 * i + s, none = false;
      if (is) {
        if (kind == 0) none = true;
        if (kind == 1) a = dur + 0.25;
        if (kind == 2) a = -0.25;
        if (kind == 3) a = dur;
        if (inner && kind < 3) ok = false;
      }
      char o[40];
      snprintf(o, sizeof o, "%.17g", s ? a : -a);
      if (!none) tangent(k, s ? "right" : "left", o, "1");
    }
    if (i && f[i] <= f[i - 1]) ok = false;
    cu.push_back({"Key", k});
    if (i == 1) cu.push_back({"Note", ptree()});
  }
  bool th = throws([&] { V2::ActuatorCurve::check_cubic_bezier<double>(cu); });
  c.step();
  for (int i = 0; i < n; ++i) c.log("key at frame %d", f[i]);
  c.log("tangent %d of key %d is %d", bad % 2, bad / 2, kind);
  c.yes("curve", th == !ok, ok ? "a valid curve is refused" : "an invalid curve is accepted");
  c.state(mc::Hash().u(c.root).u(bad).u(kind).h);
  all(c, cu, ok);
}
// long curves, and many curves: one defect anywhere
void longCurve(mc::Ctx &c, int nmax) {
  mc::Dec d(c.root);
  int n = 6 + d(nmax - 5), gap = d(4), kind = d(9), at = c.pick(n), noise = (n + at + gap) % 2;
  std::vector<int> f;
  for (int i = 0; i < n; ++i) f.push_back(gap == 0 ? i : gap == 1 ? 5 * i + 2 : gap == 2 ? i * i : 1000000 * i);
  bool ok = kind == 0;
  if (kind == 1 && at > 0) f[at] = f[at - 1];
  else if (kind == 2 && at > 0) std::swap(f[at], f[at - 1]);
  else if (kind == 1 || kind == 2) ok = true;
  ptree cu = goodCurve(n);
  for (int i = 0; i < n; ++i) {
    ptree k = key(kind == 7 && i == at ? "-1" : std::to_string(f[i]).c_str(), kind == 8 && i == at ? nullptr : "1");
    double before = i ? f[i] - f[i - 1] : 1, after = i + 1 < n ? f[i + 1] - f[i] : 1;
    double l = -before / (1 + i % 3), r = after / (1 + (i + 1) % 3);
    if (i == at && kind == 3) { l = -before - 0.5; ok = i == 0; }
    if (i == at && kind == 4) { r = after + 0.5; ok = i + 1 == n; }
    bool nl = i == at && kind == 5, nr = i == at && kind == 6;
    if (nl) ok = i == 0;
    if (nr) ok = i + 1 == n;
    char o[40];
    if (!nl) { snprintf(o, sizeof o, "%.17g", l); tangent(k, "left", o, "1"); }
    if (!nr) { snprintf(o, sizeof o, "%.17g", r); tangent(k, "right", o, "1"); }
    cu.push_back({"Key", k});
    if (noise && i % 4 == 2) cu.push_back({i % 8 == 2 ? "<xmlcomment>" : "Note", ptree("x")});
  }
  c.log("%d keys, defect %d at key %d", n, kind, at);
  c.yes("long curve", throws([&] { V2::ActuatorCurve::check_cubic_bezier<double>(cu); }) == !ok, ok ? "a valid curve is refused" : "an invalid curve is accepted");
  // the same one among n others
  int place = (at * 7 + gap) % n;
  std::vector<ptree> cs;
  ptree small = goodCurve();
  for (int i = 0; i < 2; ++i) {
    ptree k = key(i ? "4" : "1", "1");
    tangent(k, "left", "-1", "1");
    tangent(k, "right", "1", "1");
    small.push_back({"Key", k});
  }
  for (int i = 0; i < n; ++i) cs.push_back(i == place ? cu : small);
  ptree a = wrap(cs);
  if (noise) a.push_front({"Labels", ptree()});
  c.step(2);
  c.yes("many curves", throws([&] { V2::Animation::check_all(a); }) == !ok, "check_all has the same verdict");
  c.state(mc::Hash().u(c.root).u(at).h);
}
void adjacent(mc::Ctx &c) {
  std::vector<int> v, a, b;
  for (int i = 0; i < (int)c.root; ++i) v.push_back(i * i);
  struct F { int n; std::vector<int> *a, *b; void operator()(int x, int y) { ++n; a->push_back(x); b->push_back(y); } };
  F f = V2::adjacent_for_each(v.begin(), v.end(), F{0, &a, &b});
  c.step();
  size_t n = v.empty() ? 0 : v.size() - 1;
  c.yes("adjacent", a.size() == n && f.n == (int)n, "each adjacent pair once");
  for (size_t i = 0; i < n; ++i) c.yes("adjacent", a[i] == v[i] && b[i] == v[i + 1], "pairs in order");
  c.state(c.root);
}
void check(mc::Ctx &c) {  // the checking functor itself
  mc::Dec d(c.root);
  const int F[] = {-1, 0, 1, 2, 5, 2147483647};
  int p0 = F[d(6)], p3 = F[d(6)];
  const double A[] = {0, 0.5, 1, 1.5, 2, 5, 5.000001, -0.000001, -1, NAN};
  double d1 = A[d(10)], d2 = -A[d(10)];
  if (p0 < 0 || p3 < 0) c.skip();
  int dur = p3 - p0;
  bool ok = dur > 0 && !(d1 < 0 || d1 > dur) && !(d2 > 0 || d2 < -dur);
  if (d1 != d1 || d2 != d2) c.skip();
  c.step();
  c.yes("check", throws([&] { V2::Key::check_cubic_bezier<double>(p0, 1, d1, 2, d2, 3, p3, 4); }) == !ok, "verdict on one interval");
  c.state(mc::Hash().u(c.root).h);
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  mc::family("attributes", 6 * 3 * 9 * 5 * 9 * 4, attributes, "all values of version, actuator, fps, mute and unit, of each of 3 curves");
  mc::family("interval", 5 * 7 * 12 * 12 * 5, interval, "all pairs of frames and of tangents, and each missing value");
  mc::family("curve-3", 64, [](mc::Ctx &c) { curve(c, 3); }, "all sequences of 3 frames x one tangent that differs");
  mc::family("curve-4", 625, [](mc::Ctx &c) { curve(c, 4); }, "all sequences of 4 frames x one tangent that differs");
  if (th) mc::family("curve-5", 7776, [](mc::Ctx &c) { curve(c, 5); }, "all sequences of 5 frames x one tangent that differs");
  int nm = th ? 60 : 24;
  mc::family("long", (nm - 5) * 36, [nm](mc::Ctx &c) { longCurve(c, nm); }, "6 to 24 (60) keys x 4 distributions of frames, 8 kinds of defect at every key, alone and among as many curves");
  mc::family("adjacent", 8, adjacent, "ranges of 0 to 7 elements");
  mc::family("check", 3600, check, "all frames and abscissas of one interval");
}
