// Everything that promises not to change its arguments: const member functions,
// and functions of arguments taken by value or reference to const.  Called on
// objects which another thread reads at the same time.
#include "c30.h"
#include "race.h"
#include <almath/dsp/digitalfilter.h>
#include <almath/dsp/pidcontroller.h>
#include <almath/geometrics/shapes3d.h>
#include <almath/geometrics/shapes3d_utils.h>
#include <almath/scenegraph/almatheigen.h>
#include <almath/scenegraph/bodymass.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/scenegraph/qianim.h>
#include <qi/geometry/geometry.hpp>
#include <almath/scenegraph/almathqigeometry.hpp>
#include <almath/scenegraph/qigeometry.h>
#include <almath/scenegraph/qirostime.h>
#include <almath/scenegraph/urdf.h>
#include <almath/scenegraph/urdfeigen.h>
#include <almath/tools/aldubinscurve.h>
#include <almath/tools/almath.h>
#include <almath/tools/almathio.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/tools/altrigonometry.h>
#include <almath/tools/avoidfootcollision.h>
#include <almath/types/alaxismask.h>
#include <almath/types/aldisplacement.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/altransformandvelocity6d.h>
#include <almath/types/occupancymapparams.h>
#include <boost/property_tree/xml_parser.hpp>
#include <cstring>
#include <memory>
#include <sstream>
namespace readers {
using namespace AL::Math;
using AL::ColladaSceneBuilder;
using AL::SceneBuilder;
using AL::createBoxMesh;
using AL::createRoundedBoxMesh;
namespace urdf = AL::urdf;
namespace qianim = AL::qianim;
namespace qigeometry = qi::geometry;
typedef boost::property_tree::ptree ptree;
namespace {
// ---- what is observed
void see(float f) { uint32_t u; memcpy(&u, &f, 4); race::observe(u); }
void see(double f) { uint64_t u; memcpy(&u, &f, 8); race::observe(u); }
void see(bool b) { race::observe(b); }
void see(int i) { race::observe(i); }
void see(size_t i) { race::observe(i); }
void see(const std::string &s) { race::observe(s.size()); for (char c : s) race::observe((unsigned char)c); }
template <class T> auto see(const T &v) -> decltype(v.toVector(), void());
template <class T> void see(const std::vector<T> &v) { race::observe(v.size()); for (const T &x : v) see(x); }
template <class T, size_t N> void see(const std::array<T, N> &v) { for (const T &x : v) see(x); }
template <class T> auto see(const T &v) -> decltype(v.toVector(), void()) { see(v.toVector()); }
void see(const Displacement &d) { see(d.P); see(d.Q); }
void see(const ptree &p) { see(p.data()); for (auto &k : p) { see(k.first); see(k.second); } }
void see(const urdf::Pose &p) { see(p.xyz()); see(p.rpy()); }
void see(const qigeometry::Transform &t) { see(t.rotation.x); see(t.rotation.w); see(t.translation.y); }
template <class T> void see(const boost::optional<T> &o) { race::observe(bool(o)); if (o) see(*o); }
template <class D> void see(const Eigen::MatrixBase<D> &m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) see(m(i, j)); }
void see(const AL::Mesh &m) { see(m.positions()); see(m.normals()); see(m.texCoords()); see(m.vertices()); see(m.polygonVerticesCounts()); }
template <class T> void print(const T &v) { std::ostringstream o; o << v; see(o.str()); }
}  // namespace

const char *URDF =
    "<robot name=\"r\"><link name=\"a\"><inertial><origin xyz=\"0.1 0 0.2\" rpy=\"0.3 0 1\"/><mass value=\"2\"/>"
    "<inertia ixx=\"1\" ixy=\"0.1\" ixz=\"0\" iyy=\"2\" iyz=\"0.2\" izz=\"1.5\"/></inertial>"
    "<visual><origin xyz=\"0 0 1\" rpy=\"0 0.5 0\"/><geometry><mesh filename=\"m.dae\" scale=\"1 2 3\"/></geometry></visual>"
    "<visual><geometry><box size=\"1 2 3\"/></geometry></visual></link>"
    "<link name=\"b\"><visual><geometry><cylinder radius=\"1\" length=\"2\"/></geometry></visual></link><link name=\"c\"/><link name=\"d\"/>"
    "<joint name=\"ab\" type=\"revolute\"><parent link=\"a\"/><child link=\"b\"/><origin xyz=\"1 2 3\" rpy=\"0.1 0.2 0.3\"/>"
    "<axis xyz=\"0 1 0\"/><limit lower=\"-1\" upper=\"1\" effort=\"3\" velocity=\"4\"/></joint>"
    "<joint name=\"bc\" type=\"continuous\"><parent link=\"b\"/><child link=\"c\"/><mimic joint=\"ab\" multiplier=\"2\" offset=\"0.5\"/></joint>"
    "<joint name=\"bd\" type=\"fixed\"><parent link=\"b\"/><child link=\"d\"/></joint></robot>";
const char *ANIM =
    "<Animation xmlns:editor=\"x\" typeVersion=\"2.0\"><Labels fps=\"25\"><Label frame=\"1\" value=\"go\"/><Label frame=\"9\" value=\"stop\"/></Labels>"
    "<ActuatorCurve fps=\"25\" actuator=\"HeadYaw\" mute=\"0\" unit=\"degree\">"
    "<Key frame=\"1\" value=\"10\"><Tangent side=\"right\" abscissaParam=\"3\" ordinateParam=\"1\"/></Key>"
    "<Key frame=\"10\" value=\"20\"><Tangent side=\"left\" abscissaParam=\"-3\" ordinateParam=\"0\"/></Key></ActuatorCurve></Animation>";

struct Objects {
  Position2D p2, q2;
  Position3D p3, q3, x3, y3, z3;
  Position6D p6, q6;
  Pose2D o2, t2;
  Velocity3D v3, w3;
  Velocity6D v6, w6;
  Rotation r, s;
  Rotation3D r3, s3;
  Quaternion q, k;
  Transform t, u;
  Displacement d, e;
  PositionAndVelocity pv, pw;
  TransformAndVelocity6D tv, tw;
  OccupancyMapParams map;
  float f, g;
  std::vector<float> angles, weights, row;
  std::vector<Position2D> left, right;
  AL::Math::Sphere sphere;
  RoundedRectangle rrect;
  Pill pill;
  Plane plane;
  HalfSpace half;
  AL::Math::Rectangle rect;
  HalfLine line;
  AL::Mesh mesh;
  SceneBuilder::Config config;
  ptree doc, anim;
  std::unique_ptr<urdf::RobotTree> tree;
  urdf::Pose up, uq;
  qigeometry::Transform g1, g2;
  DSP::DigitalFilter filter;
  DSP::PIDController pid;
  BodyMass<double> bm;
  Eigen::Affine3f affine;
  Objects(int n) : p2(1.5f + n, -2), q2(-0.5f, n), p3(1, 2 - n, 3), q3(-2, n, 1), x3(1, 0, 0), y3(0, 1, 0), z3(0, 0, 1),
        p6(1, 2, 3, 0.1f * n, 0.2f, 0.3f), q6(3, -2, 1, 0.5f, -0.2f * n, 0.1f), o2(1, 2, 0.5f * n), t2(-1.5f, n, 3),
        v3(1, n, 2), w3(0.5f, -1, n), v6(1, 2, n, 0.1f, 0.2f, 0.3f), w6(n, 1, -1, 0.5f, 0, 0.3f),
        r(Rotation::from3DRotation(0.1f * n, 0.4f, 1)), s(Rotation::fromRotX(1.f + n)), r3(0.1f, 0.2f * n, 0.3f), s3(n, 0.5f, -1),
        q(Quaternion::fromAngleAndAxisRotation(0.5f + n, 1, 0, 0)), k(Quaternion::fromAngleAndAxisRotation(1.5f, 0, 0.6f, 0.8f)),
        t(transformFromPosition(1, 2, 3, 0.1f * n, 0.4f, 1)), u(transformFromPosition(n, -2, 1, 0.7f, 0, n)),
        d(p3, q), e(q3, k), pv(1, n), pw(2, 3), tv(), tw(), map(64, 0.05f, Position2D(n, 1)), f(0.5f + n), g(-0.25f), sphere(1 + n), rrect(1, 2, 0.5f),
        pill(1 + n, 0.5f), rect(1, 2 + n), mesh(createBoxMesh(1, 2, 3 + n)), g1{{0, 0.6, 0, 0.8}, {1, 2, 3}}, g2{{0.6, 0, 0, 0.8}, {0, 1. * n, 3}} {
    tv.T = t; tw.T = u; tv.V = v6; tw.V = w6;
    for (int i = 0; i < 5; ++i) { angles.push_back(0.3f * i + 6 * n); weights.push_back(1.f + i); }
    for (float x : t.toVector()) row.push_back(x);
    const float B[4][2] = {{0.1f, 0.05f}, {0.1f, -0.05f}, {-0.06f, -0.05f}, {-0.06f, 0.05f}};
    for (auto &b : B) { left.push_back({b[0], b[1]}); right.push_back({b[0], b[1] * 1.2f}); }
    config.nbArcVertices = 2 + n;
    std::istringstream a(URDF), b(ANIM);
    boost::property_tree::read_xml(a, doc, boost::property_tree::xml_parser::trim_whitespace);
    boost::property_tree::read_xml(b, anim, boost::property_tree::xml_parser::trim_whitespace);
    tree.reset(new urdf::RobotTree(doc.get_child("robot")));
    up = urdf::Pose({{1, 2, 3. + n}}, {{0.1, 0.2, 0.3}});
    uq = urdf::Pose({{-1, 0, n * 1.}}, {{0.5, -0.2 * n, 0}});
    filter.configureFilter({0.2f, 0.3f, 0.5f}, {0.1f, 0.2f}, 1.f + n);
    for (int i = 0; i < n + 2; ++i) filter.processFilter(i + 1.f);
    pid.initialize(1, 2, 3, 10, 0, 0.02f);
    for (int i = 0; i < n + 2; ++i) pid.computeFeedback(i, 1);
    bm = {1. + n, Eigen::Vector3d(1, 2, 3), Eigen::Matrix3d::Identity()};
    affine = Eigen::Translation3f(1, 2, n) * Eigen::AngleAxisf(1.f, Eigen::Vector3f::UnitX());
  }
};
Objects *make(int variant) { return new Objects(variant); }

namespace {
struct Reader { const char *name; void (*run)(const Objects &); };
struct Kind : Shape3DVisitor {
  mutable float seen = 0;
  void visit(const Pill &p) const { seen = p.getHalfExtent() + p.getRadius(); }
  void visit(const AL::Math::Sphere &p) const { seen = p.getRadius(); }
  void visit(const RoundedRectangle &p) const { seen = p.getHalfExtentX() + p.getHalfExtentY() + p.getRadius(); }
  void visit(const Plane &) const { seen = 1; }
  void visit(const HalfSpace &) const { seen = 2; }
  void visit(const AL::Math::Rectangle &p) const { seen = p.getHalfExtentX() + p.getHalfExtentY(); }
  void visit(const HalfLine &) const { seen = 3; }
};
template <class T> void shape(const T &s) {
  Kind k; static_cast<const Shape3D &>(s).accept(k); see(k.seen);
}
struct Names : urdf::JointConstVisitor {
  bool discover(const ptree &p) { see(urdf::name(p)); see(urdf::parent_link(p)); see(urdf::child_link(p)); return true; }
  void finish(const ptree &p) { see(urdf::name(p)); }
};
struct Dot : urdf::UrdfDotPrinterVisitor { using UrdfDotPrinterVisitor::UrdfDotPrinterVisitor; };
const ptree &joint(const Objects &o, const char *n) { const urdf::RobotTree &t = *o.tree; return t.joint(n); }
const ptree &link(const Objects &o, const char *n) { const urdf::RobotTree &t = *o.tree; return t.link(n); }
const ptree &curve(const Objects &o) { return o.anim.get_child("Animation.ActuatorCurve"); }
#define R(...) {#__VA_ARGS__, [](const Objects &o) { (void)o; __VA_ARGS__; }},
#define ARITH(a, b) R(see(o.a + o.b); see(o.a - o.b); see(-o.a); see(o.a * o.f); see(o.a / 3.f); see(o.a == o.b); see(o.a != o.b); see(o.a.isNear(o.b)); see(o.a.norm())) \
  R(see(o.a); std::vector<float> v; o.a.toVector(v); see(v); print(o.a))
#define VECTOR(a) R(std::vector<float> v(32); auto i = v.begin(); o.a.writeToVector(i); see(v))
const Reader LIST[] = {
  ARITH(p2, q2) VECTOR(p2)
  R(see(o.p2.distance(o.q2)); see(o.p2.distanceSquared(o.q2)); see(o.p2.dotProduct(o.q2)); see(o.p2.crossProduct(o.q2)); see(o.p2.normalize()); see(o.p2.getAngle()); see(2.f * o.p2))
  R(see(distance(o.p2, o.q2)); see(distanceSquared(o.p2, o.q2)); see(norm(o.p2)); see(normalize(o.p2)); see(dotProduct(o.p2, o.q2)); see(crossProduct(o.p2, o.q2)))
  ARITH(p3, q3) VECTOR(p3)
  R(see(o.p3.distance(o.q3)); see(o.p3.dotProduct(o.q3)); see(o.p3.crossProduct(o.q3)); see(o.p3.normalize()); see(o.p3.isUnitVector()); see(o.p3.isOrthogonal(o.q3)))
  R(see(distance(o.p3, o.q3)); see(norm(o.p3)); see(normalize(o.p3)); see(dotProduct(o.p3, o.q3)); see(crossProduct(o.p3, o.q3)); see(isUnitVector(o.p3)); see(isOrthogonal(o.p3, o.q3)))
  ARITH(p6, q6) VECTOR(p6)
  R(see(o.p6.distance(o.q6)); see(distance(o.p6, o.q6)); see(norm(o.p6)); see(normalize(o.p6)))
  R(see(o.o2 + o.t2); see(o.o2 - o.t2); see(-o.o2); see(o.o2 * o.t2); see(o.o2 * o.f); see(o.o2 / 3.f); see(o.o2 == o.t2); see(o.o2.isNear(o.t2)); see(o.o2.norm())) VECTOR(o2)
  R(see(o.o2.inverse()); see(o.o2.diff(o.t2)); see(o.o2.distance(o.t2)); see(o.o2.normalize()); see(o.o2.getAngle()); print(o.o2))
  R(see(pinv(o.o2)); see(pose2dDiff(o.o2, o.t2)); see(pose2DInverse(o.o2)); Pose2D x; pose2DInverse(o.o2, x); see(x); see(distance(o.o2, o.t2)))
  ARITH(v3, w3) VECTOR(v3)
  R(see(o.v3.normalize()); see(norm(o.v3)); see(normalize(o.v3)); see(2.f * o.v3))
  ARITH(v6, w6) VECTOR(v6)
  R(see(o.v6.normalize()); see(norm(o.v6)); see(normalize(o.v6)); see(2.f * o.v6))
  R(see(o.r * o.s); see(o.r == o.s); see(o.r.isNear(o.s)); see(o.r.isRotation()); see(o.r.transpose()); see(o.r.determinant()); print(o.r))
  R(see(transpose(o.r)); see(determinant(o.r)); float x = 1; float y = 2; float z = 3; applyRotation(o.r, x, y, z); see(x); see(o.r * o.p3))
  R(see(o.r3 + o.s3); see(o.r3 - o.s3); see(o.r3 * o.f); see(o.r3 == o.s3); see(o.r3.isNear(o.s3)); see(o.r3.norm()); see(norm(o.r3)); print(o.r3))
  R(see(o.q * o.k); see(o.q * o.f); see(o.q / 3.f); see(o.q == o.k); see(o.q.isNear(o.k)); see(o.q.norm()); see(o.q.normalize()); see(o.q.inverse()); print(o.q))
  R(see(norm(o.q)); see(normalize(o.q)); see(quaternionInverse(o.q)); see(angleAndAxisRotationFromQuaternion(o.q)); see(o.q * o.p3))
  R(see(o.t * o.u); see(o.t == o.u); see(o.t != o.u); see(o.t.isNear(o.u)); see(o.t.isTransform()); see(o.t.norm()); see(o.t.determinant()); see(o.t.inverse())) VECTOR(t)
  R(see(o.t.diff(o.u)); see(o.t.distance(o.u)); see(o.t.distanceSquared(o.u)); see(o.t * o.p3); print(o.t); std::vector<float> v; o.t.toVector(v); see(v))
  R(see(norm(o.t)); see(transformToFloatVector(o.t)); see(determinant(o.t)); see(determinant(o.row)); see(transformInverse(o.t)); see(pinv(o.t)); see(transformDiff(o.t, o.u)); see(transformDistance(o.t, o.u)))
  R(Transform x = o.u; transformPreMultiply(o.t, x); see(x); transformInverse(o.t, x); see(x); see(Transform(o.row)))
  R(see(o.d.isNear(o.e)); see(transformFromDisplacement(o.d)); see(displacementFromTransform(o.t)); Displacement x = o.d; x *= o.e; see(x))
  R(see(o.pv.isNear(o.pw)); see(o.pv.toVector())) R(see(o.tv.isNear(o.tw)))
  R(auto a = o.map.getPixelFromPose(o.o2); auto b = o.map.getPixelFromPosition(o.p2); see(a.x); see(b.y); see(o.map.getPoseFromPixel(Pose2Di(3, 4, 1.f))); see(o.map.getPositionFromPixel(Point2Di(3, 4))); auto e = o.map.getDeltaPixelFromDeltaPosition(o.p2); see(e.x); see(o.map.getObstacleProbabilityThreshold()))
  R(see(modulo2PI(o.f)); see(meanAngle(o.angles)); see(weightedMeanAngle(o.angles, o.weights)))
  R(float x = 3; see(clipData(o.g, o.f, x)); see(x); std::vector<float> v = o.angles; see(clipData(o.g, o.f, v)); see(v))
  R(Pose2D x; changeReferencePose2D(o.f, o.o2, x); see(x); see(position6DFromVelocity6D(o.v6)); see(position2DFromPose2D(o.o2)); see(position3DFromPosition6D(o.p6)))
  R(see(o.v6.norm()); see(o.f * o.v6); see(o.p6.norm()))
  R(see(rotationFromAngleDirection(o.f, o.x3)); see(position6DFromPose2D(o.o2)); see(position6DFromPosition3D(o.p3)); see(pose2DFromPosition6D(o.p6)); see(pose2DFromPosition2D(o.p2)))
  R(see(quaternionFromRotation3D(o.r3)); see(rotationFromQuaternion(o.q)); see(rotation3DFromQuaternion(o.q)); Quaternion x; Position3D y; quaternionPosition3DFromPosition6D(o.p6, x, y); see(x); see(y))
  R(std::vector<float> v; pointMassRotationalInertia(2, o.p3, v); see(v)) R(see(isAxisMask(5)))
  R(see(transformLogarithm(o.t)); see(velocityExponential(o.v6)); see(transformMean(o.t, o.u, 0.3f)))
  R(Velocity6D a; Position6D b; changeReferenceVelocity6D(o.t, o.v6, a); changeReferencePosition6D(o.t, o.p6, b); see(a); see(b); changeReferenceTransposeVelocity6D(o.t, o.v6, a); changeReferenceTransposePosition6D(o.t, o.p6, b); see(a); see(b))
  R(Position3D a; changeReferencePosition3D(o.t, o.p3, a); see(a); changeReferenceTransposePosition3D(o.t, o.p3, a); see(a); changeReferencePosition3DInPlace(o.t, a); see(a); Transform x; changeReferenceTransform(o.t, o.u, x); see(x); changeReferenceTransposeTransform(o.t, o.u, x); see(x))
  R(see(transformFromRotationPosition3D(o.r, o.p3)); see(transformFromPosition3D(o.p3)); see(transformFromRotation(o.r)); see(rotationFromTransform(o.t)); see(rotation3DFromRotation(o.r)))
  R(see(rotationFromAxesXY(o.x3, o.y3)); see(rotationFromAxesXZ(o.x3, o.z3)); see(rotationFromAxesYZ(o.y3, o.z3)); see(rotationFromAxesXYZ(o.x3, o.y3, o.z3)))
  R(see(position6DFromTransform(o.t)); see(transformFromPose2D(o.o2)); see(pose2DFromTransform(o.t)); see(position2DFromTransform(o.t)); see(transformFromRotation3D(o.r3)); see(transformFromPosition6D(o.p6)))
  R(see(position6DFromTransformDiff(o.t, o.u)); see(position3DFromTransform(o.t)); see(rotation3DFromTransform(o.t)); see(transformFromRotVec(3, o.f, o.p3)); see(transformFromRotVec(o.p3)))
  R(see(axisRotationProjection(o.z3, o.t)); see(axisRotationProjection(o.z3, o.r)); see(orthogonalSpace(o.p3)); see(transformFromQuaternion(o.q)); see(quaternionFromTransform(o.t)))
  R(Pose2D m(0.05f, 0.1f, 0.1f); see(avoidFootCollision(o.left, o.right, true, m)); see(m); see(clipFootWithEllipse(0.04f, 0.12f, m)); see(m))
  R(see(areTwoBoxesInCollision(o.left, o.right)); std::vector<Position2D> v(4); computeBox(o.left, o.o2, v); see(v); Pose2D m(0.02f, 0.05f, 0); dichotomie(o.left, o.right, m); see(m))
  R(Position2D x; see(intersectionSegment2D(o.left[0], o.left[2], o.right[1], o.right[3], x)); see(x))
  R(see(getDubinsSolutions(o.t2, 0.3f))) 
  R(see(toSpaceSeparated(o.p3)); see(toSpaceSeparated(o.r3)); see(toSpaceSeparated(o.v6)); see(toSpaceSeparated(o.t)); see(toSpaceSeparated(o.p6)); see(toSpaceSeparated(o.q)))
  R(shape(o.sphere); shape(o.rrect); shape(o.pill); shape(o.plane); shape(o.half); shape(o.rect); shape(o.line))
  R(Position3D a; Position3D b; getSphereCentersFromPill(o.f, o.t, a, b); see(a); see(b); float h; Transform x; computePillParameters(o.p3, o.q3, h, x); see(h))
  R(see(o.mesh); see(o.mesh.withTexCoords()); see(o.mesh.verticesStride()); see(o.mesh.positionsNb()); see(o.mesh.normalsNb()); see(o.mesh.verticesNb()); see(o.mesh.polygonsNb()))
  R(for (size_t i = 0; i < o.mesh.positionsNb(); ++i) see(o.mesh.positionPtrAt(i)[1]); for (size_t i = 0; i < o.mesh.normalsNb(); ++i) see(o.mesh.normalPtrAt(i)[2]); for (size_t i = 0; i < o.mesh.polygonsNb(); ++i) see(o.mesh.polygonVerticesCountAt(i)); see(o.mesh.vertexPtrAt(2)[0]))
  R(ColladaSceneBuilder b(o.config); b.add(o.mesh, o.t); b.add(o.sphere, o.t); b.add(o.rrect, o.t); b.add(o.pill, o.t); b.add(o.mesh, o.affine); std::ostringstream s; s << b; see(s.str()))
  R(see(createRoundedBoxMesh(1, 2, 3, 0.5f, 3)))
  R(see(link(o, "b")); see(joint(o, "bc")); const urdf::RobotTree &t = *o.tree; see(t.root_link()); see(t.is_mimic_tree_flat()))
  R(Names v; const urdf::RobotTree &t = *o.tree; t.traverse_joints(v))
  R(std::ostringstream s; Dot v(s); const urdf::RobotTree &t = *o.tree; t.traverse_joints(v); see(s.str()))
  R(const urdf::RobotTree &t = *o.tree; try { t.link("none"); } catch (std::exception &) { see(1); } try { t.joint("none"); } catch (std::exception &) { see(2); })
  R(see(o.up.inverse()); see(o.up * o.uq); see(o.up.to_ptree()); see(o.up == o.uq); see(is_identity(o.up)))
  R(urdf::Joint j(joint(o, "ab")); see(j.name()); see((int)j.type()); see(j.parent_link()); see(j.child_link()); see(j.origin()); see(j.axis()); see(j.limit_lower_upper()->first); see(j.limit_effort()); see(j.limit_velocity()); see(bool(j.mimic())))
  R(urdf::Joint j(joint(o, "bc")); auto m = j.mimic(); see(m->joint()); see(m->multiplier()); see(m->offset()); see(j.origin()); see(j.axis()))
  R(urdf::Link l(link(o, "a")); see(l.name()); auto i = l.inertial(); see(i->origin()); see(i->mass()); see(i->ixx() + i->ixy() + i->ixz() + i->iyy() + i->iyz() + i->izz()))
  R(urdf::Link l(link(o, "a")); for (auto v : l.visuals()) { see(v.origin()); auto g = v.geometry(); see(g.which()); if (auto *m = boost::get<urdf::Mesh>(&g)) { see(m->filename()); see(m->scale()); } if (auto *b = boost::get<urdf::Box>(&g)) see(b->size()); })
  R(urdf::Link l(link(o, "b")); for (auto v : l.visuals()) { auto g = v.geometry(); if (auto *m = boost::get<urdf::Cylinder>(&g)) { see(m->radius()); see(m->length()); } })
  R(ptree copy = o.doc; std::ostringstream s; boost::property_tree::write_xml(s, copy); see(s.str()))
  R(const ptree &a = qianim::V2::get_animation(o.anim); qianim::V2::Animation::check_version(a); qianim::V2::Animation::check_all(a))
  R(for (const ptree &c : qianim::V2::Animation::get_actuatorcurves(o.anim.get_child("Animation"))) { see(qianim::V2::ActuatorCurve::get_actuator(c)); see(qianim::V2::ActuatorCurve::get_fps(c)); see(qianim::V2::ActuatorCurve::get_mute(c)); see((int)qianim::V2::ActuatorCurve::get_unit(c)); for (const ptree &k : qianim::V2::ActuatorCurve::get_keys(c)) see(qianim::V2::Key::get_frame(k)); })
  R(const ptree &k = qianim::V2::ActuatorCurve::get_key(curve(o), 1); see(qianim::V2::Key::get_value<double>(k)); see(qianim::V2::Tangent::get_abscissa<double>(qianim::V2::Key::get_tangent(k, qianim::Side::right))); see(bool(qianim::V2::Key::get_tangent_optional(k, qianim::Side::left))); see(bool(qianim::V2::ActuatorCurve::get_key_optional(curve(o), 5))))
  R(qianim::V2::ActuatorCurve::check_cubic_bezier<double>(curve(o)))
  R(for (const ptree &l : qianim::V2::Animation::get_labels(o.anim.get_child("Animation"))) for (const ptree &m : qianim::V2::Labels::get_labels(l)) { see(qianim::V2::Label::get_frame(m)); see(qianim::V2::Label::get_value(m)); })
  R(see(o.g1 * o.g2); see(inverse(o.g1)); see(isNear(o.g1, o.g2, 1e-3)); see(norm(o.g1.rotation)); see(normalized(o.g1.rotation).x); print(o.g1); see(toEigenAffine3d(o.g1).matrix()))
  R(auto s = o.bm.cast<float>(); see(s.mass); see(s.center_of_mass))
  R(see(toEigenMatrix34(o.t)); see(toEigenMatrix3(o.t)); see(toEigenQuaternion<float>(o.t).coeffs()); see(toEigenVector3(o.p3)); see(toEigenAffineCompact3(o.t).matrix()); see(toALMathTransform(o.affine)))
  R(std::vector<Transform> v{o.t, o.u}; see(averageTransforms(v)))
  R(see(toEigenTransform(o.up).matrix()); urdf::Link l(link(o, "a")); see(toEigenMatrix3(*l.inertial())); double m; Eigen::Vector3d c; Eigen::Matrix3d i; urdfInertialToEigen(*l.inertial(), m, c, i); see(m); see(c); see(i))
  R(DSP::DigitalFilter f; f.configureFilter(o.weights, o.angles, 1.f); see(f.processFilter(o.f)); see(f.processFilter(o.g)); DSP::PIDController p(1, 2, 3, 10, 0, 0.02f); see(p.computeFeedback(o.f, o.g)))
  // what is refused
#define REFUSE(E) try { see(E); } catch (std::exception &e) { see(std::string(e.what())); }
  R(REFUSE(o.p2 / 0.f) REFUSE(o.p3 / 0.f) REFUSE(o.p6 / 0.f) REFUSE(o.v3 / 0.f) REFUSE(o.v6 / 0.f) REFUSE(o.r3 / 0.f) REFUSE(o.o2 / 0.f) REFUSE(o.q / 0.f))
  R(REFUSE(getDubinsSolutions(Pose2D(0.1f, 0, 0), 1.f)) REFUSE(createRoundedBoxMesh(1, 2, 3, 0, 3)) REFUSE(transformMean(o.t, o.u, 2)) REFUSE(meanAngle({})) REFUSE(rotationFromAngleDirection(1, o.p3)))
  R(REFUSE(Transform(std::vector<float>{1, 2, 0, 0, 0, 1, 0, 0, 0, 0, 3, 1})) REFUSE(Transform(o.angles)) REFUSE(Pose2D(o.angles)) REFUSE(Position3D(o.angles)) REFUSE(orthogonalSpace(Position3D())) REFUSE(averageTransforms(std::vector<Transform>())))
  R(ptree x = o.anim; ptree &c = x.get_child("Animation.ActuatorCurve"); qianim::V2::ActuatorCurve::put_unit(c, qianim::Unit::radian); see(x); qianim::V2::ActuatorCurve::put_unit(c, qianim::Unit::dimensionless); see((int)qianim::V2::ActuatorCurve::get_unit(c)); c.put("<xmlattr>.unit", "x"); REFUSE((int)qianim::V2::ActuatorCurve::get_unit(c)))
  // copies are changed, not what they were copied from
  R(DSP::DigitalFilter x = o.filter; see(x.processFilter(3)); x.resetFilter(); see(x.processFilter(o.f)); x.configureFilter({1}, {}, 1); see(x.processFilter(o.f)))
  R(DSP::PIDController x = o.pid; see(x.computeFeedback(o.f, o.g)); x.setGains(3, 2, 1); see(x.computeFeedbackAbsolute(o.f)); x.initialize(); see(x.computeFeedback(o.f, o.g)))
  R(AL::Mesh x = o.mesh; AL::addBoxMesh(1, 1, 1, x); x.begin(AL::Mesh::TRIANGLES); x.vertex(0, 1, 2); x.vertex(0, 1, 3); x.vertex(1, 1, 2); x.end(); see(x))
  R(ptree x = o.doc; { urdf::RobotTree t(x.get_child("robot")); t.define_as_root_link("c"); t.transport_root_link_frame(o.up); t.rm_leaf_joint("bd"); } see(x))
  R(ptree x = o.doc; { urdf::RobotTree t(x.get_child("robot")); urdf::makeJointFixed(t, "ab"); urdf::squashFixedJointsMass(t); see(urdf::makeMasslessJointsFixed(t)); } urdf::robot::transform_filenames(x.get_child("robot"), [](std::string n) { return n + "2"; }); see(x))
  R(ptree x = o.anim; ptree &a = qianim::V2::require_animation(x); ptree &c = qianim::V2::Animation::require_actuatorcurve(a, "Other"); qianim::V2::ActuatorCurve::put_fps(c, 50); qianim::V2::ActuatorCurve::require_key(c, 7); qianim::V2::Labels::add_label(qianim::V2::Animation::add_labels(a), 3, "x"); see(x))
  R(Transform x = o.t; x *= o.u; see(x); x.normalizeTransform(); see(x); Rotation y = o.r; y *= o.s; y.normalizeRotation(); see(y); Quaternion z = o.q; z *= o.k; z *= 2; z /= 3; see(z))
  R(Pose2D x = o.o2; x += o.t2; x -= o.o2; x *= o.t2; x *= 2; x /= 3; see(x); pose2dInvertInPlace(x); see(x); Transform y = o.t; transformInvertInPlace(y); see(y))
  R(Position2D a = o.p2; a += o.q2; a -= o.p2; a *= 2; a /= 3; see(a); Position3D b = o.p3; b += o.q3; b -= o.p3; b *= 2; b /= 3; see(b); Position6D c = o.p6; c += o.q6; c -= o.p6; c *= 2; c /= 3; see(c))
  R(Velocity3D a = o.v3; a += o.w3; a -= o.v3; a *= 2; a /= 3; see(a); Velocity6D b = o.v6; b *= 2; b /= 3; see(b); Rotation3D c = o.r3; c += o.s3; c -= o.r3; c *= 2; c /= 3; see(c))
};
}  // namespace
const int N = sizeof LIST / sizeof *LIST;
const char *name(int k) { return LIST[k].name; }
void call(int k, const Objects &o) {
  try {
    LIST[k].run(o);
  } catch (std::exception &e) {
    see(std::string(e.what()));
  }
}
}  // namespace readers
