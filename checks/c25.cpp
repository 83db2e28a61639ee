// C25: a pipeline of rigid body system builders forwards exactly the valid
// additions, under any history of calls
#include <almath/scenegraph/rigidbodysystembuilder.h>
#include <memory>
#include <set>
#include <stdexcept>
#include <vector>
#include "mc.h"
#include "bigtree.h"
namespace RB = AL::RigidBodySystemBuilder;
namespace {
template <typename T> struct Item {
  bool link;
  RB::LinkData<T> l;
  RB::StaticFrameData<T> f;
};
template <typename T> struct Back : RB::Interface<T> {
  RB::Config cfg;
  std::vector<Item<T>> out;
  bool refuse = false;
  const RB::Config &config() const { return cfg; }
  void addLink(RB::LinkData<T> l) {
    if (refuse) throw std::logic_error("refused");
    out.push_back(Item<T>{true, l, {}});
  }
  void addStaticFrame(RB::StaticFrameData<T> f) {
    if (refuse) throw std::logic_error("refused");
    out.push_back(Item<T>{false, {}, f});
  }
};
const char *NAMES[] = {"", "w", "a", "b", "c"};
const double VALUES[] = {0, -0.0, 1, -2.5, 0.1, 1.0 / 3, 1e-30, 7e5, -123456.789, 1e10};
template <typename T> struct Payload {
  typename RB::Interface<T>::Pose pose;
  RB::JointType type;
  typename RB::Interface<T>::BodyMass mass;
  Payload(int k) {
    auto v = [&](int i) { return (T)(VALUES[(k * 3 + i * 7) % 10] + i); };
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) pose.matrix()(i, j) = v(i * 4 + j);
    type = (RB::JointType)(k % 4);
    mass.mass = v(13);
    for (int i = 0; i < 3; ++i) mass.center_of_mass(i) = v(14 + i);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mass.rotational_inertia(i, j) = v(17 + 3 * i + j);
  }
};
struct Want { bool link; int payload; std::string parent, name, joint; };
// stages of the pipeline, from the back: decorators and conversions
enum Stage { Plain, Check, Erase };
template <typename F> struct Pipe {
  std::vector<std::unique_ptr<RB::Interface<F>>> own;
  RB::Interface<F> *front;
  void add(Stage s) {
    if (s == Plain) own.emplace_back(new RB::Decorator<F>(*front));
    if (s == Check) own.emplace_back(new RB::NamesChecker<F>(*front));
    if (s == Erase) own.emplace_back(new RB::InertiaEraser<F>(*front));
    front = own.back().get();
  }
};
template <typename A, typename B> bool same(const A &a, const B &b, bool viaFloat) {
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
    double w = viaFloat ? (double)(float)b(i, j) : (double)b(i, j);
    if (!(a(i, j) == w)) return false;
  }
  return true;
}
void histories(mc::Ctx &c, int depth, int names, int joints) {
  mc::Dec d(c.root);
  // first call as root; then configurations
  int nops = 2 * names * names * joints;
  int first = d(nops), cfg = d(3);
  Back<double> back;
  back.cfg.galilean_frame = cfg == 1 ? "w" : "";
  back.cfg.no_static_frame = cfg == 2;
  if (cfg == 1) back.cfg.joint_name_format = "J %1% of %1%";
  int shape = c.pick(7);  // which pipeline
  Pipe<double> p;
  p.front = &back;
  Pipe<float> q;
  std::unique_ptr<RB::Interface<float>> toDouble;
  std::unique_ptr<RB::Interface<double>> toFloat;
  bool check = true, erase = false, cast = false;
  if (shape == 0) p.add(Check);
  if (shape == 1) { p.add(Erase); p.add(Check); erase = true; }
  if (shape == 2) { p.add(Check); p.add(Plain); p.add(Erase); erase = true; }
  if (shape == 3) { p.add(Plain); check = false; }
  if (shape == 6) { p.add(Check); p.add(Erase); p.add(Check); erase = true; }
  if (shape == 4 || shape == 5) {
    cast = true;
    toDouble.reset(new RB::Adapter<float, double>(*p.front));
    q.front = toDouble.get();
    if (shape == 4) q.add(Check);
    else { q.add(Erase); check = false; erase = true; }
    toFloat.reset(new RB::Adapter<double, float>(*q.front));
    p.front = toFloat.get();
    if (shape == 5) { p.add(Check); check = true; }
  }
  RB::Interface<double> &b = *p.front;
  c.yes("config", &b.config() == &back.cfg, "the configuration is the one of the last builder");
  int refuseAt = c.pick(depth + 1);  // the last builder refuses this call
  std::set<std::string> bodies{back.cfg.galilean_frame}, frames{back.cfg.galilean_frame}, transforms;
  std::vector<Want> want;
  for (int k = 0; k < depth; ++k) {
    int op = k ? c.pick(nops) : first;
    bool link = op % 2;
    op /= 2;
    std::string parent = NAMES[op % names], name = NAMES[op / names % names];
    int jn = op / (names * names);
    bool dflt = jn == 0;
    std::string joint = jn == 1 ? "j" : jn == 2 ? "a_joint" : jn == 3 ? "" : jn == 4 ? "a" : back.cfg.joint_name(name);
    if (dflt && cfg == 1 && joint != "J " + name + " of " + name) c.fail("joint name", "%s for %s", joint.c_str(), name.c_str());
    if (dflt && cfg != 1 && joint != name + "_joint") c.fail("joint name", "%s for %s", joint.c_str(), name.c_str());
    Payload<double> pay(k + first);
    back.refuse = k == refuseAt;
    bool dropped = !link && back.cfg.no_static_frame;
    bool ok = !check || dropped || ((link ? bodies : frames).count(parent) && !frames.count(name) && !transforms.count(joint));
    int got = 0;  // 1 refused by the checker, 2 by the last builder
    try {
      if (link && dflt) b.add(parent, name, pay.pose, pay.type, pay.mass);
      else if (link) b.add(parent, name, pay.pose, pay.type, pay.mass, joint);
      else if (dflt) b.add(parent, name, pay.pose);
      else b.add(parent, name, pay.pose, joint);
    } catch (const std::runtime_error &) { got = 1; } catch (const std::logic_error &) { got = 2; }
    c.step();
    c.log("%s parent \"%s\" new \"%s\" joint \"%s\"%s: %s", link ? "link" : "static frame", parent.c_str(), name.c_str(), joint.c_str(), back.refuse ? " (refused by the last builder)" : "", got ? "refused" : "accepted");
    int exp = !ok ? 1 : back.refuse && !dropped ? 2 : 0;
    if (got != exp) c.fail("accepted", "call %d: %s instead of %s", k, got == 0 ? "accepted" : got == 1 ? "refused" : "refused by the last builder", exp == 0 ? "accepted" : exp == 1 ? "refused" : "refused by the last builder");
    c.compared();
    if (exp == 0 && !dropped) {
      want.push_back(Want{link, k + first, parent, name, joint});
      if (link) bodies.insert(name);
      frames.insert(name);
      transforms.insert(joint);
    }
    if (back.out.size() != want.size()) c.fail("forwarded", "%zu elements forwarded instead of %zu", back.out.size(), want.size());
    if (want.empty()) continue;
    const Want &w = want.back();
    const Item<double> &i = back.out.back();
    Payload<double> e(w.payload);
    c.yes("forwarded", i.link == w.link, "link or static frame");
    if (w.link) {
      c.yes("forwarded", i.l.parent_body == w.parent && i.l.new_body == w.name && i.l.new_joint == w.joint, "names of a link");
      c.yes("forwarded", i.l.joint_type == e.type && same(i.l.pose_parent_new.matrix(), e.pose.matrix(), cast), "joint of a link");
      c.yes("forwarded", i.l.body_mass.mass == (cast ? (double)(float)e.mass.mass : e.mass.mass) && same(i.l.body_mass.center_of_mass, e.mass.center_of_mass, cast), "mass of a link");
      if (erase) c.yes("inertia", (i.l.body_mass.rotational_inertia.array() == 0).all(), "the inertia is erased");
      else c.yes("inertia", same(i.l.body_mass.rotational_inertia, e.mass.rotational_inertia, cast), "inertia of a link");
    } else {
      c.yes("forwarded", i.f.parent_frame == w.parent && i.f.new_static_frame == w.name && i.f.new_static_transform == w.joint, "names of a static frame");
      c.yes("forwarded", same(i.f.pose_parent_new.matrix(), e.pose.matrix(), cast), "pose of a static frame");
    }
  }
  mc::Hash h;
  h.u(cfg).u(shape);
  for (auto &w : want) h.u(w.link).s(w.parent).s(w.name).s(w.joint);
  c.state(h.h);
}
// long histories: a tree of n elements in an order where parents come first,
// and one invalid addition at every place
void many(mc::Ctx &c, int nmin, int nn) {
  mc::Dec d(c.root);
  int shape = d(big::SHAPES), style = d(big::NAMES), n = nmin + (int)d(nn), kinds = d(3);
  Back<double> back;
  back.cfg.galilean_frame = "";
  RB::NamesChecker<double> check(back);
  RB::InertiaEraser<double> eraser(check);
  RB::Interface<double> &b = kinds == 2 ? static_cast<RB::Interface<double> &>(eraser) : check;
  auto N = [&](bool l, int i) { return big::name(style, l, i); };
  std::vector<bool> isLink;
  // leaves may be static frames; a static frame carries static frames only
  for (int i = 0; i <= n; ++i) {
    bool leaf = i > 0;
    for (int k = i + 1; k <= n; ++k) leaf &= big::parent(shape, k, n) != i;
    isLink.push_back(!(kinds && leaf && i % 2));
  }
  int at = c.pick(n + 1), bad = c.pick(7), other = at ? at - 1 - c.pick(std::min(at, 6)) * at / std::min(at, 6) : 0;
  if (other < 0) other = 0;
  size_t want = 0;
  for (int i = 0; i <= n; ++i) {
    Payload<double> pay(i);
    auto add = [&](bool link, const std::string &parent, const std::string &name, const std::string &joint) {
      try {
        if (link) b.add(parent, name, pay.pose, pay.type, pay.mass, joint);
        else b.add(parent, name, pay.pose, joint);
        return true;
      } catch (const std::runtime_error &) { return false; }
    };
    std::string parent = i ? N(true, big::parent(shape, i, n)) : "";
    if (i == at && i) {
      // one addition which must be refused, and must leave no trace
      bool ok = true;
      if (bad == 0) ok = add(true, parent, N(true, other), N(false, i));           // name taken
      if (bad == 1) ok = add(true, parent, N(true, i), N(false, other));           // joint taken
      if (bad == 2) ok = add(true, N(true, n + 1), N(true, i), N(false, i));       // unknown parent
      if (bad == 3) ok = add(false, parent, N(true, other), N(false, i));
      if (bad == 4) ok = add(false, parent, N(true, i), N(false, other));
      if (bad == 5) ok = add(true, N(true, i), N(true, i), N(false, i));           // on itself
      if (bad == 6) {                                                               // a link on a static frame
        int f = -1;
        for (int k = 0; k < i; ++k) if (!isLink[k]) f = k;
        ok = f >= 0 && add(true, N(true, f), N(true, i), N(false, i));
      }
      c.step();
      c.log("%s of %d, invalid addition %d before element %d, about %d", big::shapeName(shape), n, bad, i, other);
      if (ok) c.fail("accepted", "an invalid addition (%d) is accepted before element %d", bad, i);
      c.yes("forwarded", back.out.size() == want, "a refused addition is not forwarded");
    }
    if (!add(isLink[i], parent, N(true, i), N(false, i))) c.fail("refused", "the valid element %d is refused", i);
    ++want;
    c.step();
    c.yes("forwarded", back.out.size() == want && back.out.back().link == isLink[i], "each valid addition is forwarded once");
    const Item<double> &it = back.out.back();
    c.yes("forwarded", it.link ? it.l.new_body == N(true, i) && it.l.parent_body == parent && it.l.new_joint == N(false, i) : it.f.new_static_frame == N(true, i) && it.f.parent_frame == parent && it.f.new_static_transform == N(false, i), "names");
    if (it.link && kinds == 2) c.yes("inertia", (it.l.body_mass.rotational_inertia.array() == 0).all() && it.l.body_mass.mass == pay.mass.mass && same(it.l.body_mass.center_of_mass, pay.mass.center_of_mass, false), "only the inertia is erased");
  }
  c.state(mc::Hash().u(c.root).u(at).u(bad).u(other).h);
}
}
void mc::setup() {
  bool th = mc::thorough();
  mc::family("names", 2 * 25 * 5 * 3, [=](mc::Ctx &c) { histories(c, 2, 5, 5); }, "every history of 2 calls over 250, 7 pipelines, 3 configurations, each call refused by the last builder");
  mc::family("calls-3", 2 * 16 * 2 * 3, [=](mc::Ctx &c) { histories(c, 3, 4, 2); }, "every history of 3 calls over 64, 7 pipelines, 3 configurations, each call refused by the last builder");
  int nn = th ? 40 : 12;
  mc::family("many-elements", big::SHAPES * big::NAMES * nn * 3, [=](mc::Ctx &c) { many(c, 4, nn); }, "8 shapes of trees x 4 styles of names x 5 to 16 (44) elements, one of 7 invalid additions before every element");
  if (th) mc::family("calls-4", 2 * 9 * 3 * 3, [=](mc::Ctx &c) { histories(c, 4, 3, 3); }, "every history of 4 calls over 54, 7 pipelines, 3 configurations, each call refused by the last builder");
}
