// C14: occupancy map frame changes
#include "conv.h"
#include <almath/types/occupancymapparams.h>
namespace {
const int SZ[] = {1, 2, 3, 10, 100, 101, 640, 2048};
const float MPP[] = {0.01f, 0.02f, 0.05f, 0.1f, 0.25f, 1.f, 2.f};
const float CT[] = {0.f, 1.f, -1.f, 3.37f, -12.5f};
const int PX[] = {-50, -3, -2, -1, 0, 1, 2, 7, 50, 51, 99, 100, 320, 1999};
const double FR[] = {0, 0.1, -0.1, 0.3, -0.3, 0.45, -0.45};
A::OccupancyMapParams make(mc::Dec &d, int &sz, float &m, float &cx, float &cy, bool recentre) {
  sz = SZ[d(8)];
  m = MPP[d(7)];
  cx = CT[d(5)];
  cy = CT[d(5)];
  if (!recentre) return A::OccupancyMapParams(sz, m, A::Position2D(cx, cy), 0.3f);
  A::OccupancyMapParams p(sz, m, A::Position2D(5, -8), 0.3f);
  p.initOriginOffset(A::Position2D(cx, cy));
  return p;
}
void frames(mc::Ctx &c) {
  mc::Dec d(c.root);
  int sz;
  float m, cx, cy;
  bool re = d(2);
  A::OccupancyMapParams p = make(d, sz, m, cx, cy, re);
  int px = PX[d(14)], py = PX[d(14)];
  double ox = cx - sz / 2.0 * m, oy = cy + sz / 2.0 * m;
  double e = 2e-6 * (1 + std::fabs(ox) + std::fabs(oy) + 2100 * m);
  c.log("size %d resolution %g centre %g %g pixel %d %d", sz, m, cx, cy, px, py);
  c.yes("members", p.size == sz && p.metersPerPixel == m && p.getObstacleProbabilityThreshold() == 0.3f && p.obstacleProbabilityThreshold == 0.3f, "constructor arguments are kept");
  c.near("origin", p.originOffset.x, ox, e);
  c.near("origin", p.originOffset.y, oy, e);
  A::Position2D q = p.getPositionFromPixel(A::Point2Di(px, py));
  c.near("position of a pixel", q.x, ox + px * (double)m, e);
  c.near("position of a pixel", q.y, oy - py * (double)m, e);
  A::Pose2D ps = p.getPoseFromPixel(A::Pose2Di(px, py, 0.7f));
  c.near("pose of a pixel", ps.x, ox + px * (double)m, e);
  c.near("pose of a pixel", ps.y, oy - py * (double)m, e);
  c.yes("pose of a pixel", ps.theta == 0.7f, "heading kept");
  c.step(3);
  for (double fx : FR)
    for (double fy : FR) {
      float x = (float)(ox + (px + fx) * (double)m), y = (float)(oy - (py + fy) * (double)m);
      A::Point2Di g = p.getPixelFromPosition(A::Position2D(x, y));
      c.yes("pixel of a position", g.x == px && g.y == py, "the nearest pixel");
      A::Point2Di g2 = p.getPixelFromPose(A::Pose2D(x, y, 1.9f));
      c.yes("pixel of a pose", g2 == g, "the same pixel as its position");
      A::Point2Di g3 = p.getDeltaPixelFromDeltaPosition(A::Position2D((float)((px + fx) * (double)m), (float)(-(py + fy) * (double)m)));
      c.yes("pixel difference", g3.x == px && g3.y == py, "the nearest pixel difference");
      A::Position2D bk = p.getPositionFromPixel(g);
      c.near("round trip", bk.x, x, m / 2 + e);
      c.near("round trip", bk.y, y, m / 2 + e);
      c.step(4);
    }
  c.state(mc::Hash().q(q.x).q(q.y).u(sz).h);
}
void integers(mc::Ctx &c) {
  mc::Dec d(c.root);
  int x = (int)d(5) - 2, y = (int)d(5) - 2, u = (int)d(5) - 2, v = (int)d(5) - 2;
  const float th[] = {0, 5e-7f, 2e-6f, -1.f};
  float t = th[d(4)], w = th[d(4)];
  c.yes("pixel ==", (A::Point2Di(x, y) == A::Point2Di(u, v)) == (x == u && y == v), "every component");
  bool near = std::fabs(t - w) < 1e-6f;
  c.yes("pixel pose ==", (A::Pose2Di(x, y, t) == A::Pose2Di(u, v, w)) == (x == u && y == v && near), "every component");
  A::Pose2Di p(A::Point2Di(x, y), t);
  c.yes("pixel pose", p.x == x && p.y == y && p.theta == t, "from a pixel");
  c.step(3);
  // rounding: nearest, halves away from zero
  for (int k = -41; k <= 41; ++k) {
    float f = k / 4.f * (x == 0 ? 1 : 3 * x);
    c.yes("rounding", A::roundToInt(f) == (int)std::lround(f), "to nearest, halves away from zero");
  }
  c.state(mc::Hash().u(c.root).h);
}
// the floats around every half and every integer up to 2^24, exactly
void rounding(mc::Ctx &c, int span) {
  mc::Dec d(c.root);
  int e = (int)d(26), s = d(2) ? -1 : 1;
  long base = e == 0 ? 0 : 1l << (e - 1);
  uint64_t h = e;
  for (long k = std::max(0l, base - span); k <= base + span; ++k)
    for (int q = 0; q < 4; ++q)
      for (int u = -2; u <= 2; ++u) {
        float f = (float)(k + q * 0.25);
        for (int t = u; t; t += t < 0 ? 1 : -1) f = std::nextafterf(f, t < 0 ? -1e9f : 1e9f);
        f *= s;
        int g = A::roundToInt(f);
        if (g != (int)std::lround((double)f)) c.fail("rounding", "%.9g rounded to %d", f, g);
        // through the maps: exact differences of pixels
        A::OccupancyMapParams p(0, 1.f, A::Position2D(0.f, 0.f), 0.3f);
        A::Point2Di x = p.getPixelFromPosition(A::Position2D(f, -f));
        if (x.x != g || x.y != g) c.fail("rounding", "position %.9g is in pixel %d %d instead of %d", f, x.x, x.y, g);
        h = h * 31 + g;
        c.step();
      }
  c.compared(2 * span * 20);
  c.state(h);
}
void values(mc::Ctx &c) {
  mc::Dec d(c.root);
  const float th[] = {0.f, 0.25f, 0.5f, 1.f};
  int sz = 1 + (int)d(4), t = d(5);
  const float m = 0.5f;
  A::OccupancyMapParams p = t == 4 ? A::OccupancyMapParams(sz, m, A::Position2D(1.f, -2.f)) : A::OccupancyMapParams(sz, m, A::Position2D(1.f, -2.f), th[t]);
  c.yes("threshold", p.getObstacleProbabilityThreshold() == (t == 4 ? 0.25f : th[t]) && p.obstacleProbabilityThreshold == p.getObstacleProbabilityThreshold(), "the threshold given, or a quarter");
  c.yes("parameters", p.size == sz && p.metersPerPixel == m, "size and resolution");
  A::OccupancyMapParams q(7, 2.f, A::Position2D());
  q = p;
  c.yes("copy", q.size == sz && q.metersPerPixel == m && q.originOffset == p.originOffset && q.obstacleProbabilityThreshold == p.obstacleProbabilityThreshold, "a copy is the same map");
  p.initOriginOffset(A::Position2D(5.f, 6.f));
  c.yes("copy", p.size == sz && p.metersPerPixel == m && p.getObstacleProbabilityThreshold() == q.getObstacleProbabilityThreshold() && !(p.originOffset == q.originOffset), "a new centre changes the origin of that map only");
  c.yes("defaults", A::Point2Di() == A::Point2Di(0, 0) && A::Point2Di(3) == A::Point2Di(3, 0) && A::Pose2Di() == A::Pose2Di(0, 0, 0.f) && A::Pose2Di(2) == A::Pose2Di(2, 0, 0.f) && A::Pose2Di(2, 3) == A::Pose2Di(2, 3, 0.f) && A::Pose2Di(A::Point2Di(4, 5)) == A::Pose2Di(4, 5, 0.f), "missing components are null");
  A::Pose2Di a = A::Pose2Di(A::Point2Di(4, 5)), b = A::Pose2Di();
  c.yes("defaults", a.x == 4 && a.y == 5 && a.theta == 0 && b.x == 0 && b.y == 0 && b.theta == 0 && A::Point2Di().x == 0 && A::Point2Di().y == 0, "missing components are null");
  c.step(4);
  c.state(c.root);
}
}  // namespace
void mc::setup() {
  mc::family("values", 20, values, "sizes x thresholds, defaults and copies");
  mc::family("frames", 2 * 8 * 7 * 25 * 14 * 14, frames, "8 sizes x 7 resolutions x 25 centres (constructed or re-centred) x 196 pixels x 49 sub-pixel offsets");
  int sp = mc::thorough() ? 200000 : 8000;
  mc::family("rounding", 52, [sp](mc::Ctx &c) { rounding(c, sp); }, "the 5 floats around every quarter within 8000 (200000) of 0 and of the powers of two up to 2^24, exactly, alone and through a map");
  mc::family("integers", 625 * 16, integers, "integer pixels and poses, rounding of quarters");
}
