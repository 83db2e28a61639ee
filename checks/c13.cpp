// C13: Dubins paths
#include "conv.h"
#include <almath/tools/aldubinscurve.h>
#include <stdexcept>
namespace {
using ref::PI;
struct P { double x, y; };
const double RAD[] = {0.01, 0.1, 0.25, 1.0, 2.5, 0.0};
const double DIST[] = {4.001, 4.05, 4.5, 5, 6.3, 8, 12, 30, 200};
double wrapd(double a) { return std::remainder(a, 2 * PI); }
const double SCALES[] = {0.001, 0.03, 20.0, 700.0, 40000.0};
void judge(mc::Ctx &c, double r, const A::Pose2D &target);
void path(mc::Ctx &c, const double *rad, int nb, double turns) {
  mc::Dec d(c.root);
  double r = (float)rad[d(5)];
  double dist = r * DIST[d(9)];
  double b = 2 * PI * (int)d(nb) / nb + 0.01;
  int it = d(nb + 4);
  double th = it < nb ? -PI + 2 * PI * (it + 0.5) / nb : (it - nb - 2) * 2.9;
  th += 2 * PI * turns;
  A::Pose2D target((float)(dist * std::cos(b)), (float)(dist * std::sin(b)), (float)th);
  judge(c, r, target);
}
// targets exactly ahead, behind or on a side, at exact multiples of the
// radius from four upwards
void aligned(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float R[] = {0.125f, 0.25f, 1.f, 2.5f, 3.f, 1024.f}, K[] = {4.f, 4.5f, 5.f, 6.f, 16.f, 100.f};
  float r = R[d(6)], q = r * K[d(6)];
  const float X[] = {q, 0, -q, -0.f, q}, Y[] = {0, q, -0.f, -q, -0.f};
  int k = d(5);
  const float H = (float)(PI / 2), T[] = {0, H, 2 * H, -H, -2 * H, -0.f};
  float th = T[d(6)];
  A::Pose2D target(X[k], Y[k], th);
  judge(c, r, target);
  if (target.y == 0 && target.x > 0 && th == 0) {
    auto s = A::getDubinsSolutions(target, r);
    c.near("straight", s[0].theta, 0, 1e-3);
    c.near("straight", s[1].theta, 0, 1e-3);
  }
}
// no radius: turning on the spot
void spot(mc::Ctx &c) {
  mc::Dec d(c.root);
  double q = DIST[d(9)], b = 2 * PI * (int)d(64) / 64 + 0.01, th = ((int)d(13) - 6) * 0.5;
  judge(c, 0, A::Pose2D((float)(q * std::cos(b)), (float)(q * std::sin(b)), (float)th));
}
void judge(mc::Ctx &c, double r, const A::Pose2D &target) {
  c.log("radius %g target %.8g %.8g %.8g", r, target.x, target.y, target.theta);
  std::vector<A::Pose2D> s = A::getDubinsSolutions(target, (float)r);
  c.step();
  c.yes("size", s.size() == 3, "two tangent points then the target");
  c.yes("target", s[2].x == target.x && s[2].y == target.y && s[2].theta == target.theta, "the last pose is the target");
  double tx = target.x, ty = target.y, tt = target.theta;
  // side +1: left circle, -1: right circle
  double best = 1e30;
  int matches = 0;
  bool ok = false, sense = false;
  const double tol = 2e-5 * (1 + std::hypot(tx, ty) + r) ;
  for (int k = 0; k < 4; ++k) {
    int s1 = k < 2 ? 1 : -1, s2 = k % 2 ? -1 : 1;
    P c1 = {0, s1 * r}, c2 = {tx - s2 * r * std::sin(tt), ty + s2 * r * std::cos(tt)};
    double dx = c2.x - c1.x, dy = c2.y - c1.y, D2 = dx * dx + dy * dy;
    double len = s1 == s2 ? std::sqrt(D2) : std::sqrt(std::max(0.0, D2 - 4 * r * r));
    best = std::min(best, len);
  }
  for (int k = 0; k < 4; ++k) {
    int s1 = k < 2 ? 1 : -1, s2 = k % 2 ? -1 : 1;
    P c1 = {0, s1 * r}, c2 = {tx - s2 * r * std::sin(tt), ty + s2 * r * std::cos(tt)};
    double dx = c2.x - c1.x, dy = c2.y - c1.y, D2 = dx * dx + dy * dy;
    double len = s1 == s2 ? std::sqrt(D2) : std::sqrt(std::max(0.0, D2 - 4 * r * r));
    if (len > best + tol) continue;
    // heading h of the common tangent: leaving circle 1 with sense s1 and
    // arriving on circle 2 with sense s2: p = c + s*r*(sin h, -cos h)
    // c2 + s2 r n - c1 - s1 r n = len (cos h, sin h), n = (sin h, -cos h)
    double k2 = (s1 - s2) * r;
    double h = std::atan2(dy, dx) - std::atan2(k2, len);
    // check of this closed form by its defining equation
    double nx = std::sin(h), ny = -std::cos(h);
    h = std::fabs(dx + s2 * r * nx - s1 * r * nx - len * std::cos(h)) + std::fabs(dy + s2 * r * ny - s1 * r * ny - len * std::sin(h)) < 1e-6 * (1 + len) ? h : std::atan2(dy, dx) + std::atan2(k2, len);
    nx = std::sin(h); ny = -std::cos(h);
    if (std::fabs(dx + s2 * r * nx - s1 * r * nx - len * std::cos(h)) + std::fabs(dy + s2 * r * ny - s1 * r * ny - len * std::sin(h)) > 1e-6 * (1 + len)) c.fail("reference", "internal: no tangent");
    P p1 = {c1.x + s1 * r * nx, c1.y + s1 * r * ny}, p2 = {c2.x + s2 * r * nx, c2.y + s2 * r * ny};
    c.log("candidate %d%d length %g points %g %g, %g %g heading %g", s1, s2, len, p1.x, p1.y, p2.x, p2.y, h);
    ++matches;
    // near the tangency limit the heading is ill conditioned
    double ht = 2e-3 + tol;
    double pt = tol + 2e-3 * r;
    if (std::fabs(s[0].x - p1.x) < pt && std::fabs(s[0].y - p1.y) < pt && std::fabs(s[1].x - p2.x) < pt && std::fabs(s[1].y - p2.y) < pt &&
        std::fabs(wrapd(s[0].theta - h)) < ht && std::fabs(wrapd(s[1].theta - h)) < ht) {
      ok = true;
      double e = 1e-3;
      double d1 = s[0].theta, d2 = s[2].theta - s[1].theta;
      if (s1 * d1 > -e && s2 * d2 > -e && s1 * d1 < 2 * PI + e && s2 * d2 < 2 * PI + e) sense = true;
    }
  }
  c.log("got %.8g %.8g %.8g, %.8g %.8g %.8g; shortest %g", s[0].x, s[0].y, s[0].theta, s[1].x, s[1].y, s[1].theta, best);
  c.yes("path", ok, "not the arc, shortest tangent, arc path");
  if (std::fabs(tt) <= PI) c.yes("turning direction", sense, "a heading must change in the turning direction of its arc, by less than a whole turn");
  c.compared(matches);
  const double u = r > 0 ? r : 1;
  c.state(mc::Hash().q(s[0].x / u, 1e-2).q(s[0].y / u, 1e-2).q(s[1].x / u, 1e-2).q(s[1].theta, 1e-2).h);
}
void domain(mc::Ctx &c) {
  mc::Dec d(c.root);
  const double k[] = {0, 0.5, 1, 2, 3, 3.9, 3.999, 3.99999, 4.00001, 4.01, 5};
  double r = RAD[d(5)], q = k[d(11)], b = 2 * PI * (int)d(64) / 64 + 0.01, t = (int)d(7) - 3;
  bool th = false;
  try { A::getDubinsSolutions(A::Pose2D((float)(q * r * std::cos(b)), (float)(q * r * std::sin(b)), (float)t), (float)r); }
  catch (const std::invalid_argument &) { th = true; }
  c.step();
  c.yes("domain", th == (q < 4), "targets closer than four radii, and only those, are refused");
  c.state(mc::Hash().u(c.root).h);
}
}  // namespace
void mc::setup() {
  int nb = mc::thorough() ? 128 : 64;
  mc::family("paths", 5 * 9 * nb * (nb + 4), [nb](mc::Ctx &c) { path(c, RAD, nb, 0); }, "5 radii x 9 distances x 64 (128) bearings x 68 (132) headings, all four tangent families");
  mc::family("scales", 5 * 9 * 24 * 28, [](mc::Ctx &c) { path(c, SCALES, 24, 0); }, "radii from 1 mm to 40 km x 9 distances x 24 bearings x 28 headings");
  for (int t : {-3, -1, 1, 2})
    mc::family("turns" + std::to_string(t), 5 * 9 * 16 * 20, [t](mc::Ctx &c) { path(c, RAD, 16, t); }, "headings of " + std::to_string(t) + " more turns, 5 radii x 9 distances x 16 bearings x 20 headings");
  mc::family("aligned", 6 * 6 * 5 * 6, aligned, "6 radii x 6 exact distances from four radii upwards x targets exactly ahead, behind and on the sides x exact headings; straight paths do not turn");
  mc::family("spot", 9 * 64 * 13, spot, "a null radius, 9 distances x 64 bearings x 13 headings");
  mc::family("domain", 5 * 11 * 64 * 7, domain, "distances around four radii");
}
