// C23: animations edited by any history of calls agree with a model
#include <almath/scenegraph/qianim.h>
#include <map>
#include <climits>
#include "mc.h"
#include "bigtree.h"
using namespace AL::qianim;
namespace {
std::string attr(const ptree &e, const char *n, const char *def = "\1") {
  for (auto &a : e)
    if (a.first == "<xmlattr>")
      for (auto &v : a.second)
        if (v.first == n) return v.second.data();
  return def;
}
template <typename F> bool throws(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
uint64_t hash(const ptree &e) {
  mc::Hash h;
  h.s(e.data());
  for (auto &k : e) h.s(k.first).u(hash(k.second));
  return h.h;
}
struct T { double a = 0, o = 0; };
struct K { std::string value = "\1"; std::map<int, T> t; };
struct M { std::map<int, K> keys; std::string actuator = "\1", fps = "\1", mute = "\1", unit = "\1"; int others = 0; };
const int FR[] = {0, 1, 2, 5};
const Side SD[] = {Side::left, Side::right};
void agree(mc::Ctx &c, ptree &p, const M &m) {
  const ptree &q = p;
  std::vector<const ptree *> ks;
  int others = 0;
  for (auto &e : q) {
    if (e.first == "Key") ks.push_back(&e.second);
    else if (e.first != "<xmlattr>") ++others;
  }
  c.yes("others", others == m.others, "other elements are kept");
  c.yes("attributes", attr(q, "actuator") == m.actuator && attr(q, "fps") == m.fps && attr(q, "mute") == m.mute && attr(q, "unit") == m.unit, "attributes of the curve");
  if (ks.size() != m.keys.size()) c.fail("keys", "%zu keys instead of %zu", ks.size(), m.keys.size());
  size_t i = 0;
  for (auto &k : m.keys) {
    const ptree &e = *ks[i++];
    if (attr(e, "frame") != std::to_string(k.first)) c.fail("order", "key %zu has frame %s instead of %d", i - 1, attr(e, "frame").c_str(), k.first);
    c.yes("value", attr(e, "value") == k.second.value, "value of a key");
    for (int s = 0; s < 2; ++s) {
      auto t = V2::Key::get_tangent_optional(e, SD[s]);
      auto w = k.second.t.find(s);
      c.yes("tangent", bool(t) == (w != k.second.t.end()), "presence of a tangent");
      c.yes("tangent", throws([&] { V2::Key::get_tangent(e, SD[s]); }) == !t, "get_tangent refuses a missing tangent");
      c.yes("tangent", throws([&] { V2::Key::get_tangent(const_cast<ptree &>(e), SD[s]); }) == !t, "get_tangent refuses a missing tangent");
      if (!t) continue;
      c.yes("tangent", &*t == &V2::Key::get_tangent(e, SD[s]) && &*t == &V2::Key::get_tangent(const_cast<ptree &>(e), SD[s]), "the same tangent");
      c.yes("tangent", attr(*t, "side") == (s ? "right" : "left") && V2::Tangent::get_side(*t) == SD[s], "side of a tangent");
      c.yes("tangent", V2::Tangent::get_abscissa<double>(*t) == w->second.a && V2::Tangent::get_ordinate<double>(*t) == w->second.o, "parameters of a tangent");
    }
    size_t nt = 0;
    for (auto &x : e) nt += x.first == "Tangent";
    c.yes("tangent", nt == k.second.t.size(), "number of tangents");
  }
  i = 0;
  for (const ptree &e : V2::ActuatorCurve::get_keys(q)) c.yes("range", i < ks.size() && &e == ks[i++], "get_keys lists the keys in order");
  c.yes("range", i == ks.size(), "get_keys lists every key");
  i = 0;
  for (ptree &e : V2::ActuatorCurve::get_keys(p)) c.yes("range", i < ks.size() && &e == ks[i++], "get_keys lists the keys in order");
  c.yes("range", i == ks.size(), "get_keys lists every key");
  for (int f = -1; f < 7; ++f) {
    bool in = m.keys.count(f) > 0;
    auto a = V2::ActuatorCurve::get_key_optional(q, f);
    auto b = V2::ActuatorCurve::get_key_optional(p, f);
    if (bool(a) != in || bool(b) != in) c.fail("lookup", "the key at frame %d %s", f, in ? "is not found" : "does not exist, but is found");
    c.yes("lookup", throws([&] { V2::ActuatorCurve::get_key(q, f); }) == !in && throws([&] { V2::ActuatorCurve::get_key(p, f); }) == !in, "get_key refuses a missing key");
    if (!in) continue;
    const ptree *w = ks[std::distance(m.keys.begin(), m.keys.find(f))];
    c.yes("lookup", &*a == w && &*b == w && &V2::ActuatorCurve::get_key(q, f) == w && &V2::ActuatorCurve::get_key(p, f) == w, "the key with the given frame");
  }
  c.yes("attributes", V2::ActuatorCurve::get_mute(q) == (m.mute == "true"), "mute");
  c.yes("attributes", throws([&] { V2::ActuatorCurve::get_fps(q); }) == (m.fps == "\1"), "fps");
  c.yes("attributes", throws([&] { V2::ActuatorCurve::get_actuator(q); }) == (m.actuator == "\1"), "actuator");
  c.yes("attributes", throws([&] { V2::ActuatorCurve::get_unit(q); }) == (m.unit == "\1"), "unit");
  if (m.fps != "\1") c.yes("attributes", std::to_string(V2::ActuatorCurve::get_fps(q)) == m.fps, "fps");
  if (m.actuator != "\1") c.yes("attributes", V2::ActuatorCurve::get_actuator(q) == m.actuator, "actuator");
  if (m.unit != "\1") {
    Unit u = V2::ActuatorCurve::get_unit(q);
    c.yes("attributes", m.unit == (u == Unit::dimensionless ? "dimensionless" : u == Unit::radian ? "radian" : u == Unit::degree ? "degree" : "meter"), "unit");
  }
  c.state(hash(q));
}
void edit(mc::Ctx &c, ptree &p, M &m, int s, int op) {
  const ptree before = p;
  bool refused = false, want = false;
  auto find = [&](int f) -> K * { auto i = m.keys.find(f); return i == m.keys.end() ? nullptr : &i->second; };
  if (op < 5) {
    int f = op < 4 ? FR[op] : -1;
    c.log("require_key(%d)", f);
    want = f < 0;
    bool had = find(f) != nullptr;
    ptree old;
    if (had) old = V2::ActuatorCurve::get_key(p, f);
    refused = throws([&] {
      ptree &k = V2::ActuatorCurve::require_key(p, f);
      c.yes("required", &k == &V2::ActuatorCurve::get_key(p, f), "the key of the curve is returned");
      c.yes("required", !had || k == old, "an existing key is returned as it is");
    });
    if (!want) m.keys[f];
  } else if ((op -= 5) < 6) {
    int f = FR[1 + op / 2], sd = op % 2;
    double a = (sd ? 1 : -1) * (0.1 + s), o = 1. / 3 + s;
    c.log("put_tangent(%d, %s)", f, sd ? "right" : "left");
    K *k = find(f);
    want = !k;
    refused = throws([&] {
      ptree &e = V2::ActuatorCurve::get_key(p, f);
      ptree &t = s % 2 ? V2::Key::put_tangent(e, SD[sd], a, o) : V2::Key::require_tangent(e, SD[sd]);
      if (s % 2 == 0) { V2::Tangent::put_ordinate(t, o); V2::Tangent::put_abscissa(t, a); }
      c.yes("required", &t == &V2::Key::get_tangent(e, SD[sd]), "the tangent of the key is returned");
    });
    if (k) { k->t[sd].a = a; k->t[sd].o = o; }
  } else if ((op -= 6) < 4) {
    int f = FR[1 + op / 2 * 2], sd = op % 2;
    c.log("erase_tangent(%d, %s)", f, sd ? "right" : "left");
    K *k = find(f);
    want = !k;
    size_t n = 9;
    refused = throws([&] { n = V2::Key::erase_tangent(V2::ActuatorCurve::get_key(p, f), SD[sd]); });
    if (k) c.yes("erased", k->t.erase(sd) == n, "number of erased tangents");
  } else if ((op -= 4) < 2) {
    int f = op ? 5 : 1;
    c.log("put_value(%d)", f);
    K *k = find(f);
    want = !k;
    refused = throws([&] { V2::Key::put_value(V2::ActuatorCurve::get_key(p, f), -0.5 - s); });
    if (k) {
      char b[9];
      snprintf(b, sizeof b, "%g", -0.5 - s);
      k->value = b;
    }
  } else if ((op -= 2) < 4) {
    int f[] = {25, 1, 0, -3};
    c.log("put_fps(%d)", f[op]);
    want = f[op] <= 0;
    refused = throws([&] { V2::ActuatorCurve::put_fps(p, f[op]); });
    if (!want) m.fps = std::to_string(f[op]);
  } else if ((op -= 4) < 4) {
    c.log("put_mute, put_unit, put_actuator %d", op);
    if (op < 2) { V2::ActuatorCurve::put_mute(p, op == 1); m.mute = op ? "true" : "false"; }
    else if (op == 2) {
      const Unit U[] = {Unit::dimensionless, Unit::radian, Unit::degree, Unit::meter};
      const char *N[] = {"dimensionless", "radian", "degree", "meter"};
      V2::ActuatorCurve::put_unit(p, U[(s + c.root) % 4]);
      m.unit = N[(s + c.root) % 4];
    } else { m.actuator = s % 2 ? "" : "HeadYaw"; V2::ActuatorCurve::put_actuator(p, m.actuator); }
  } else {
    c.log("another element, %s", op == 4 ? "first" : "last");
    ptree other;
    other.put("<xmlattr>.frame", 1);
    if (op == 4) p.push_front({"<xmlcomment>", ptree("Key")});
    else p.push_back({"Keys", other});
    ++m.others;
  }
  c.step();
  c.yes("refused", refused == want, want ? "an invalid call was accepted" : "a valid call was refused");
  if (want) c.yes("refused", p == before, "a refused call leaves the document alone");
}
// every history of exactly `depth` calls; shorter ones are other families
void curve(mc::Ctx &c, int depth, int step) {
  mc::Dec d(c.root);
  ptree p;
  M m;
  int layout = d(step > 1 ? 2 : 5) * step, first = d(27);
  auto key = [&](int f) {
    ptree k;
    k.put("<xmlattr>.frame", f);
    p.push_back({"Key", k});
    m.keys[f];
  };
  if (layout == 1 || layout == 3) { p.put("<xmlattr>.fps", 30); m.fps = "30"; }
  if (layout >= 2) key(1);
  if (layout == 3) { p.push_back({"<xmlcomment>", ptree("x")}); ++m.others; }
  if (layout >= 3) key(2);
  if (layout == 4) { p.put("<xmlattr>.fps", 30); m.fps = "30"; key(5); p.push_back({"Extra", ptree()}); ++m.others; }
  c.log("layout %d", layout);
  for (int s = 0; s < depth; ++s) edit(c, p, m, s, s ? c.pick(27) : first);
  agree(c, p, m);
}
// ---- labels
void labels(mc::Ctx &c, int depth) {
  ptree p;
  int layout = (int)c.root % 3, n = 0, others = 0;
  std::vector<std::pair<int, std::string>> m;
  std::string fps = "\1";
  if (layout == 1) { V2::Labels::put_fps(p, 10); fps = "10"; }
  if (layout == 2) { p.push_back({"Key", ptree()}); ++others; }
  for (int s = 0; s < depth; ++s) {
    int op = s ? c.pick(8) : (int)c.root / 3;
    const ptree before = p;
    if (op < 6) {
      const int F[] = {0, 1, 3, 4, 9, -2};
      int f = F[op];
      std::string v = n % 3 ? "l" + std::to_string(n) : n ? "same" : "";
      ++n;
      c.log("add_label(%d, \"%s\")", f, v.c_str());
      bool th = throws([&] {
        ptree &l = V2::Labels::add_label(p, f, v);
        c.yes("added", V2::Label::get_value(l) == v && V2::Label::get_frame(l) == f, "the new label is returned");
        auto i = m.begin();
        while (i != m.end() && i->first <= f) ++i;
        size_t at = i - m.begin(), k = 0;
        m.insert(i, {f, v});
        for (auto &e : p) if (e.first == "Label" && k++ == at) c.yes("added", &e.second == &l, "the new label is after those which are not later");
      });
      c.yes("refused", th == (f < 0), "a label is refused exactly when its frame is negative");
      if (th) c.yes("refused", p == before, "a refused call leaves the document alone");
    } else if (op == 6) {
      int f = 5 + s;
      V2::Labels::put_fps(p, f);
      fps = std::to_string(f);
      c.yes("refused", throws([&] { V2::Labels::put_fps(p, -s); }), "fps must be positive");
    } else {
      p.push_back({"<xmlcomment>", ptree("c")});
      ++others;
    }
    c.step();
    size_t i = 0;
    int o = 0;
    std::vector<const ptree *> ls;
    for (auto &e : p) {
      if (e.first == "<xmlattr>") continue;
      if (e.first != "Label") { ++o; continue; }
      ls.push_back(&e.second);
      if (i >= m.size() || attr(e.second, "frame") != std::to_string(m[i].first) || e.second.data() != m[i].second) c.fail("order", "label %zu is \"%s\" at frame %s", i, e.second.data().c_str(), attr(e.second, "frame").c_str());
      ++i;
    }
    c.yes("labels", i == m.size() && o == others && attr(p, "fps") == fps, "labels, other elements and fps");
    i = 0;
    for (const ptree &l : V2::Labels::get_labels(const_cast<const ptree &>(p))) c.yes("range", i < ls.size() && &l == ls[i++], "get_labels lists the labels in order");
    for (ptree &l : V2::Labels::get_labels(p)) c.yes("range", i > 0 && &l == ls[ls.size() - i--], "get_labels lists the labels in order");
    c.yes("range", i == 0, "get_labels lists every label");
    c.yes("fps", throws([&] { V2::Labels::get_fps(p); }) == (fps == "\1"), "fps of the labels");
    c.state(hash(p));
  }
}
// ---- animation
void animation(mc::Ctx &c, int depth) {
  ptree root;
  const char *NM[] = {"A", "B", ""};
  std::vector<std::string> kids;  // of the animation, in order
  std::string version = "\1";
  bool has = false;
  if (c.root % 2) root.push_back({"Other", ptree()});
  for (int s = 0; s < depth; ++s) {
    int op = s ? c.pick(9) : (int)c.root / 2;
    const ptree before = root;
    bool ok = has && version == "2.0", th = false, want = false;
    if (op == 0) {
      c.log("require_animation");
      want = has && version != "2.0";
      th = throws([&] { ptree &a = V2::require_animation(root); c.yes("required", &a == &root.get_child("Animation"), "the animation is returned"); });
      if (!has) { has = true; version = "2.0"; }
    } else if (op < 4) {
      c.log("require_actuatorcurve(\"%s\")", NM[op - 1]);
      want = !ok;
      th = throws([&] {
        ptree &a = V2::get_animation(root);
        ptree *first = nullptr;
        ptree old;
        for (auto &e : a) if (!first && e.first == "ActuatorCurve" && attr(e.second, "actuator") == NM[op - 1]) { first = &e.second; old = *first; }
        ptree &k = V2::Animation::require_actuatorcurve(a, NM[op - 1]);
        c.yes("required", first ? &k == first && k == old : V2::ActuatorCurve::get_actuator(k) == NM[op - 1], "the curve of the actuator is returned");
        if (!first) { c.yes("required", &k == &a.back().second, "a new curve is added after the other ones"); kids.push_back(std::string("C") + NM[op - 1]); }
        if (c.pick(2)) V2::ActuatorCurve::require_key(k, s);
      });
    } else if (op == 4) {
      c.log("add_labels");
      want = !ok;
      th = throws([&] {
        ptree &a = V2::get_animation(root);
        ptree &l = V2::Animation::add_labels(a);
        c.yes("added", &l == &a.back().second, "the new labels are returned");
        kids.push_back("L");
      });
    } else if (op == 5) {
      if (!has) c.skip();
      c.log("comment");
      root.get_child("Animation").push_back({"<xmlcomment>", ptree("x")});
      kids.push_back("#");
    } else if (op == 6) {
      if (!has) c.skip();
      const char *V[] = {"1.0", "2.0", "2", "2.0 "};
      version = V[c.pick(4)];
      c.log("version %s", version.c_str());
      root.put("Animation.<xmlattr>.typeVersion", version);
    } else if (op == 7) {
      if (has) c.skip();
      has = true;
      version = "\1";
      root.push_back({"Animation", ptree()});
    } else {
      root.push_back({"Other", ptree()});
    }
    c.step();
    c.yes("refused", th == want, want ? "an unsupported or missing animation was accepted" : "a valid call was refused");
    if (want) c.yes("refused", root == before, "a refused call leaves the document alone");
    ok = has && version == "2.0";
    const ptree &cr = root;
    c.yes("version", throws([&] { V2::get_animation(root); }) == !ok && throws([&] { V2::get_animation(cr); }) == !ok, "an animation is read exactly when it is there with version 2.0");
    if (!has) continue;
    const ptree &a = root.get_child("Animation");
    c.yes("version", throws([&] { V2::Animation::check_version(a); }) == !ok, "check_version");
    if (ok) c.yes("version", &V2::get_animation(root) == &a && &V2::get_animation(cr) == &a, "the animation is returned");
    size_t i = 0;
    std::vector<const ptree *> cs, ls;
    for (auto &e : a) {
      if (e.first == "<xmlattr>") continue;
      std::string k = e.first == "ActuatorCurve" ? "C" + attr(e.second, "actuator") : e.first == "Labels" ? "L" : "#";
      c.yes("children", i < kids.size() && kids[i] == k, "children of the animation, in order");
      if (k[0] == 'C') cs.push_back(&e.second);
      if (k == "L") ls.push_back(&e.second);
      ++i;
    }
    c.yes("children", i == kids.size(), "children of the animation");
    std::vector<const ptree *> g, h, l;
    for (const ptree &e : V2::Animation::get_actuatorcurves(a)) g.push_back(&e);
    for (ptree &e : V2::Animation::get_actuatorcurves(const_cast<ptree &>(a))) h.push_back(&e);
    for (const ptree &e : V2::Animation::get_labels(a)) l.push_back(&e);
    c.yes("range", g == cs && h == cs && l == ls, "ranges of curves and labels");
    c.state(hash(root));
  }
}
// ---- several tangents, in any order, with other elements
void tangents(mc::Ctx &c) {
  mc::Dec d(c.root);
  int n = d(6);
  std::vector<int> k;
  ptree key;
  for (int i = 0; i < n; ++i) {
    k.push_back(c.pick(4));
    ptree t;
    if (k[i] < 2) t.put("<xmlattr>.side", k[i] ? "right" : "left");
    t.put("<xmlattr>.ordinateParam", i);
    key.push_back({k[i] < 2 ? "Tangent" : k[i] == 2 ? "<xmlcomment>" : "tangent", t});
  }
  for (int s = 0; s < 2; ++s) {
    const ptree &ck = key;
    auto a = V2::Key::get_tangent_optional(ck, SD[s]);
    auto b = V2::Key::get_tangent_optional(key, SD[s]);
    int first = -1;
    for (int i = n; i--;) if (k[i] == s) first = i;
    c.yes("first", bool(a) == (first >= 0) && bool(b) == (first >= 0), "presence");
    if (a) c.yes("first", &*a == &*b && attr(*a, "ordinateParam") == std::to_string(first), "the first tangent of the side");
    ptree copy = key;
    size_t e = V2::Key::erase_tangent(copy, SD[s]), i = 0;
    c.yes("erased", e == (size_t)std::count(k.begin(), k.end(), s), "number of erased tangents");
    for (auto &x : copy) {
      while (i < k.size() && k[i] == s) ++i;
      c.yes("erased", i < k.size() && attr(x.second, "ordinateParam") == std::to_string(i), "other elements are kept in order");
      ++i;
    }
    c.yes("erased", copy.size() + e == key.size(), "other elements are kept");
    ptree again = key;
    ptree &r = V2::Key::put_tangent(again, SD[s], 2., 3.);
    c.yes("put", again.size() == key.size() + (first < 0), "a tangent is only added when there is none");
    c.yes("put", attr(r, "abscissaParam") == "2" && attr(r, "ordinateParam") == "3" && V2::Tangent::get_side(r) == SD[s], "parameters of the tangent");
  }
  const char *BAD[] = {"", "Left", "left ", "center"};
  for (auto b : BAD) {
    ptree t, e;
    t.put("<xmlattr>.side", b);
    e.push_back({"Tangent", t});
    c.yes("side", throws([&] { V2::Tangent::get_side(t); }) && throws([&] { V2::Key::get_tangent_optional(e, Side::left); }), "an invalid side is refused");
  }
  c.step(4);
  c.state(hash(key));
}
// ---- numbers
template <typename S> void one(mc::Ctx &c, S v) {
  ptree k, t;
  V2::Key::put_value<S>(k, v);
  V2::Tangent::put_abscissa<S>(t, v);
  V2::Tangent::put_ordinate<S>(t, -v);
  V2::Key::put_tangent<S>(k, Side::left, -v, v);
  const ptree &l = V2::Key::get_tangent(k, Side::left);
  c.yes("numbers", V2::Key::get_value<S>(k) == v && V2::Tangent::get_abscissa<S>(t) == v && V2::Tangent::get_ordinate<S>(t) == -v && V2::Tangent::get_abscissa<S>(l) == -v && V2::Tangent::get_ordinate<S>(l) == v, "numbers are read back as they were written");
  c.step(5);
}
void numbers(mc::Ctx &c) {
  mc::Dec d(c.root);
  int e = (int)d(2045) - 1022, sg = d(2);
  for (int k = 0; k < (mc::thorough() ? 60 : 12); ++k) {
    double m = 1 + (k == 0 ? 0. : k == 1 ? 1 - 0x1p-52 : k == 2 ? 0x1p-52 : std::fmod(0.6180339887498949 * k, 1.));
    double v = std::ldexp(sg ? -m : m, e);
    one<double>(c, v);
    if (e > -126 && e < 127) one<float>(c, (float)v);
  }
  c.state(mc::Hash().u(c.root).h);
}
void frames(mc::Ctx &c) {
  const int F[] = {0, 1, 7, 100, 65535, 65536, INT_MAX - 1, INT_MAX, -1, -7, INT_MIN};
  int f = F[c.root % 11];
  ptree k, p;
  c.yes("frames", throws([&] { V2::Key::put_frame(k, f); }) == (f < 0), "a frame must not be negative");
  c.yes("frames", (f < 0) == k.empty(), "a refused frame is not written");
  if (f >= 0) c.yes("frames", V2::Key::get_frame(k) == f && V2::Label::get_frame(k) == f, "frames are read back");
  k.put("<xmlattr>.frame", f);
  c.yes("frames", throws([&] { V2::Key::get_frame(k); }) == (f < 0), "a negative frame is refused");
  k.put("<xmlattr>.frame", "1.5");
  c.yes("frames", throws([&] { V2::Key::get_frame(k); }), "a frame is an integer");
  c.yes("fps", throws([&] { V2::ActuatorCurve::put_fps(p, f); }) == (f <= 0) && (f <= 0) == p.empty(), "fps must be positive");
  if (f > 0) c.yes("fps", V2::ActuatorCurve::get_fps(p) == f, "fps is read back");
  p.put("<xmlattr>.fps", f);
  c.yes("fps", throws([&] { V2::ActuatorCurve::get_fps(p); }) == (f <= 0), "a fps which is not positive is refused");
  c.step(8);
  c.state(mc::Hash().u(c.root).h);
}
// many keys, labels and curves, added in several orders
void many(mc::Ctx &c, int nmax) {
  mc::Dec d(c.root);
  int n = 5 + d(nmax - 4), order = d(4), gap = d(4), noise = d(2);
  auto frame = [&](int i) { return gap == 0 ? i : gap == 1 ? 3 * i + 7 : gap == 2 ? i * i * i : INT_MAX - (n - i) * 10; };
  auto o = big::order(order, n);
  ptree p;
  std::map<int, int> m;  // frame, rank of insertion
  int others = 0;
  for (int k = 0; k < n; ++k) {
    if (noise && k % 4 == 1) { p.push_back({k % 8 == 1 ? "<xmlcomment>" : "Keys", ptree("x")}); ++others; }
    int f = frame(o[k]);
    ptree &e = V2::ActuatorCurve::require_key(p, f);
    V2::Key::put_value<double>(e, k);
    V2::Key::put_tangent(e, SD[k % 2], -0.5 * k, 0.25 * k);
    if (k % 3 == 0) V2::Key::put_tangent(e, SD[(k + 1) % 2], 0.5 * k, 1.25 * k);
    m[f] = k;
    if (k % 5 == 4) {  // again: nothing changes
      const ptree before = p;
      V2::ActuatorCurve::require_key(p, frame(o[k / 2]));
      c.yes("required", p == before, "an existing key is returned as it is");
    }
  }
  c.step(n);
  c.log("%d keys, order %d, frames %d", n, order, gap);
  std::vector<const ptree *> ks;
  for (const ptree &e : V2::ActuatorCurve::get_keys(static_cast<const ptree &>(p))) ks.push_back(&e);
  c.yes("keys", ks.size() == m.size() && p.size() == m.size() + others, "number of keys");
  size_t i = 0;
  for (auto &e : m) {
    const ptree &k = *ks[i++];
    c.yes("order", V2::Key::get_frame(k) == e.first && V2::Key::get_value<double>(k) == e.second, "keys are in the order of their frames");
    c.yes("tangent", V2::Tangent::get_abscissa<double>(V2::Key::get_tangent(k, SD[e.second % 2])) == -0.5 * e.second && bool(V2::Key::get_tangent_optional(k, SD[(e.second + 1) % 2])) == (e.second % 3 == 0), "tangents of a key");
    c.yes("lookup", &V2::ActuatorCurve::get_key(p, e.first) == &k && &V2::ActuatorCurve::get_key(static_cast<const ptree &>(p), e.first) == &k, "the key with the given frame");
    for (int s = -1; s <= 1; s += 2) {
      if (s > 0 && e.first == INT_MAX) continue;
      bool in = m.count(e.first + s) > 0;
      c.yes("lookup", bool(V2::ActuatorCurve::get_key_optional(p, e.first + s)) == in, "the frames beside a key");
    }
  }
  // one tangent is erased
  for (int at = 0; at < n; at += 1 + n / 7) {
    const ptree before = p;
    ptree &k = V2::ActuatorCurve::get_key(p, frame(o[at]));
    size_t e = V2::Key::erase_tangent(k, SD[at % 2]);
    c.yes("erased", e == 1 && !V2::Key::get_tangent_optional(k, SD[at % 2]) && bool(V2::Key::get_tangent_optional(k, SD[(at + 1) % 2])) == (at % 3 == 0), "the tangent of that side only");
    auto b = before.begin();
    for (auto &x : p) { c.yes("erased", &x.second == &k || x.second == b->second, "other keys are kept"); ++b; }
  }
  // labels: several at the same frame keep the order in which they came
  ptree ls;
  std::multimap<int, std::string> lm;
  for (int k = 0; k < n; ++k) {
    if (noise && k % 6 == 2) ls.push_back({"<xmlcomment>", ptree("x")});
    int f = frame(o[k]) / 3;
    V2::Labels::add_label(ls, f, std::to_string(k));
    lm.emplace(f, std::to_string(k));
  }
  auto it = lm.begin();
  for (const ptree &l : V2::Labels::get_labels(static_cast<const ptree &>(ls))) {
    c.yes("labels", it != lm.end() && V2::Label::get_frame(l) == it->first && V2::Label::get_value(l) == it->second, "labels are in the order of their frames, then of their addition");
    ++it;
  }
  c.yes("labels", it == lm.end(), "number of labels");
  // curves
  ptree root;
  ptree &a = V2::require_animation(root);
  for (int k = 0; k < n; ++k) {
    if (noise && k % 5 == 3) V2::Animation::add_labels(a);
    V2::ActuatorCurve::put_fps(V2::Animation::require_actuatorcurve(a, big::name(order, true, o[k])), k + 1);
  }
  i = 0;
  for (const ptree &e : V2::Animation::get_actuatorcurves(static_cast<const ptree &>(a))) {
    c.yes("curves", i < o.size() && V2::ActuatorCurve::get_actuator(e) == big::name(order, true, o[i]) && V2::ActuatorCurve::get_fps(e) == (int)i + 1, "curves are in the order of their addition");
    c.yes("curves", &V2::Animation::require_actuatorcurve(a, big::name(order, true, o[i])) == &e, "the curve of the actuator is returned");
    ++i;
  }
  c.yes("curves", i == o.size(), "one curve per actuator");
  c.state(mc::Hash().u(hash(p)).u(hash(ls)).u(hash(root)).h);
}
}  // namespace
void mc::setup() {
  bool th = mc::thorough();
  for (int n = 0; n <= 4; ++n) {
    int step = n < 4 || th ? 1 : 4;  // the longest ones from 2 of the documents
    mc::family("curve-" + std::to_string(n), (n ? 27 : 1) * (step > 1 ? 2 : 5), [=](mc::Ctx &c) { curve(c, n, step); }, "every history of " + std::to_string(n) + " calls over 27, from " + (step > 1 ? "2" : "5") + " documents");
  }
  mc::family("labels", 24, [=](mc::Ctx &c) { labels(c, th ? 7 : 5); }, "every history of 5 (7) calls over 8, from 3 documents");
  mc::family("animation", 18, [=](mc::Ctx &c) { animation(c, th ? 6 : 5); }, "every history of 5 (6) calls over 9, from 2 documents");
  mc::family("tangents", 6, tangents, "every sequence of up to 5 tangents and other elements");
  mc::family("numbers", 2045 * 2, numbers, "every sign and exponent x 12 (60) mantissas, double and float");
  int nm = th ? 120 : 60;
  mc::family("many", (nm - 4) * 32, [nm](mc::Ctx &c) { many(c, nm); }, "5 to 60 (120) keys, labels and curves in 4 orders x 4 distributions of frames, with and without other elements");
  mc::family("frames", 11, frames, "11 frames");
}
