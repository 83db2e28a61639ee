P('C12', 'Collision tests decide geometry: boxes, foot steps, segments and ellipses',
  'Two convex boxes are declared in collision exactly when they overlap, whatever their order of vertices, placement and nesting; boxes without area never crash and an empty box collides with nothing. '
  'Two segments that are not parallel cross exactly when they share a point, end points included, and that point is returned; parallel segments have no crossing point. '
  'Correcting a foot step never changes a step that does not collide, reports whether it changed it, and only reduces its heading towards zero, to a collision-free one when there is one, and no further than the precision of the search requires. '
  'Clipping a step with an ellipse leaves inner steps alone and moves outer ones onto the ellipse along the ray from its centre.',
  ['inputs'], 'Every pair of convex boxes, segments, foot steps and ellipses.',
  'The tests try a few placements; containment, reversed winding, touching and collinear configurations are not among them.',
  ['src/tools/avoidfootcollision.cpp', 'almath/tools/avoidfootcollision.h'],
  [('areTwoBoxesInCollision, intersection tests', 'src/tools/avoidfootcollision.cpp'), ('avoidFootCollision, clipFootWithEllipse', 'src/tools/avoidfootcollision.cpp')],
  ['functions of avoidfootcollision.h'], GRID,
  TRUST + '16 million box pairs against the separating axis theorem; every pair of segments of a 4x4 (5x5) grid in exact integer arithmetic.')

P('C13', 'Dubins paths go from start to target with the required turning radius',
  'For any target pose at a distance of at least four times the radius, the returned control points describe a path made of an arc, a straight line and an arc: it starts at the origin heading forward, both arcs have the given radius, the line is tangent to both and its two ends are the first two poses, and the last pose is the target. '
  'Among the four arc-line-arc families it is the one with the shortest straight line. Headings modulo a turn are those of the path, and unwrapped they evolve along each arc in its turning direction. Closer targets are refused.',
  ['inputs'], 'Every target pose and radius.',
  'The tests check a few targets, while each of the four tangent families and each heading unwrapping has its own sign conventions.',
  ['src/tools/aldubinscurve.cpp', 'almath/tools/aldubinscurve.h'],
  [('getDubinsSolutions', 'src/tools/aldubinscurve.cpp')], ['getDubinsSolutions'], GRID,
  TRUST + 'Radii x distances x 64 (128) bearings x 68 (132) headings.')

P('C14', 'Occupancy maps convert between pixels and poses consistently',
  'For any size, resolution and origin (constructed, or re-centred), pixel to pose and pose to pixel are inverse of one another, one pixel step is one resolution along the documented axes (x along columns, y against rows), the central pixel maps to the given centre, headings are kept, positions and poses agree, and pixel differences are those of position differences. '
  'Positions are rounded to the nearest pixel, on both sides of the origin.',
  ['inputs'], 'Every map parameter, pixel and pose.',
  'The tests use one map; sign and axis mistakes vanish on symmetric or centred ones.',
  ['src/types/occupancymapparams.cpp', 'almath/types/occupancymapparams.h'],
  [('getPositionFromPixel, getPixelFromPosition', 'src/types/occupancymapparams.cpp')], ['public functions of OccupancyMapParams'], GRID,
  TRUST + '2744 maps x 196 pixels x 49 sub-pixel offsets.')

P('C15', 'Mesh builder keeps every face consistent under any sequence of calls',
  'Under any sequence of building calls (adding or selecting normals and texture coordinates, adding positions, begin, vertices by index or coordinates, end), each call is accepted or refused exactly according to the current state, a refused call leaves vertices, polygons and the current state as they were, and the mesh holds exactly the values and polygons of the accepted calls. '
  'Every index of a mesh refers to existing data, groups have the declared number of vertices, and drawing a polygon adds its vertices in order, without dropping, merging or reordering them.',
  ['histories'], 'Every sequence of calls.',
  'The tests run a few well-formed sequences; refusal in the middle of a polygon, or the interleaving of drawing with index calls, is not exercised.',
  ['src/scenegraph/mesh.cpp', 'almath/scenegraph/mesh.h'],
  [('Mesh state machine', 'src/scenegraph/mesh.cpp')], ['public functions of Mesh'], SEQ,
  TRUST + 'All sequences of 5 (6) calls over 15 calls from 3 states.')

P('C16', 'Generated meshes are closed, outward, and on the surface of their shape',
  'Boxes and rounded boxes (hence spheres, capsules and rounded rectangles) generated for any half extents, radius and level of detail are closed surfaces: every edge is used exactly once in each direction, faces are oriented outwards, indexes are within bounds, and normals have unit length and point outwards. '
  'Every vertex lies on the requested shape, the mesh reaches the shape in every main direction, and its volume is bounded by and tends to the one of the shape. '
  'Appending a shape to a mesh keeps what it already held.',
  ['inputs', 'configurations'], 'Every size, radius, level of detail and prior mesh content.',
  'The tests compare one or two meshes with recorded data; orientation, closedness and degenerate sizes are not checked.',
  ['src/scenegraph/meshfactory.cpp', 'almath/scenegraph/meshfactory.h'],
  [('createBoxMesh, createRoundedBoxMesh*', 'src/scenegraph/meshfactory.cpp')], ['the generated meshes'], GRID,
  TRUST + '125 half extents x radii x levels of detail; arc positions carry the approximation dphi=3.14f of the code.')

P('C17', 'COLLADA documents hold exactly the shapes and poses that were added',
  'Whatever sequence of shapes and meshes was added to a scene builder, at whatever poses and interleaved with copies of the builder, the document it gives is well formed: identifiers are unique, every reference resolves, counts agree with contents, each node carries the given transform in row-major order and refers to the geometry that was added with it, and the geometry has exactly the positions, normals, texture coordinates and polygons of the mesh, whatever their number. '
  'Content that a builder is not configured to hold is refused without a trace. Copies evolve independently.',
  ['histories', 'configurations'], 'Every history of additions and copies, every mesh.',
  'The tests compare the document of one shape; references between several geometries, copies and large indexes are not covered.',
  ['src/scenegraph/colladabuilder.cpp', 'src/scenegraph/colladascenebuilder.cpp', 'src/scenegraph/scenebuilder.cpp'],
  [('SceneBuilder, ColladaSceneBuilder', 'src/scenegraph/scenebuilder.cpp, src/scenegraph/colladascenebuilder.cpp')], ['the property tree and text of the document'], SEQ,
  TRUST + 'All histories of 4 (5) operations on 3 builders in 9 configurations.')

URDFREF = ('Trusts the compiler, boost::property_tree and the independent reader of URDF trees in /verif/harness/urdfref.h; nothing is claimed outside of the stated bounds. ')

P('C18', 'A URDF document is accepted exactly when it is a consistent tree of links',
  'A document is accepted exactly when links and joints are uniquely named, every joint refers to existing parent and child links, the links form one single tree (no link with two parents, no loop, even detached, no second root), and every mimic refers to an existing joint without forming a loop, whatever the order of the elements. '
  'Refusals are reported as runtime errors, never by a crash. Once accepted, root, lookups by name, parents, children, kinds of joints, traversal order and flatness of mimics are exactly those of the document, and the graph printed for dot has its links and joints.',
  ['inputs', 'configurations'], 'Every graph of joints between links, every naming, mimic graph and order of the elements.',
  'The tests read a few well-formed robots and a few malformed ones; detached loops, chains of mimics and the order of the elements are not covered.',
  ['src/scenegraph/urdf.cpp', 'almath/scenegraph/urdf.h'],
  [('RobotTree constructor, checks of the tree and of mimics', 'src/scenegraph/urdf.cpp'), ('UrdfDotPrinterVisitor', 'src/scenegraph/urdf.cpp')],
  ['RobotTree and its accessors, traverse_joints, dot printer'], GRID,
  URDFREF + 'All graphs of up to 4 joints between up to 5 links (5 joints thorough), all namings, all mimic graphs over 4 (5) joints in every order, in 3 document orders.')

P('C19', 'Re-rooting or moving the frame of a URDF tree keeps the same mechanism',
  'Whatever sequence of changes of root and of transports of the root frame is applied to a tree, the document still describes the same mechanism: for every joint value, the relative pose of any two links (up to the requested change of frame of a root), visuals, collisions, inertias and the joint between each pair of links are the same, and the root is the requested one. '
  'Links and joints that are not concerned are untouched, an unknown root, or one behind a joint of several degrees of freedom, is refused without effect, and the result can be read again and indexes the same tree.',
  ['histories', 'inputs'], 'Every tree, joint type, origin, and sequence of operations.',
  'The tests re-root one chain; sign and composition mistakes vanish with identity or commuting poses, and only show on several operations in a row.',
  ['src/scenegraph/urdf.cpp', 'almath/scenegraph/urdf.h'],
  [('define_as_root_link, transport_root_link_frame', 'src/scenegraph/urdf.cpp')],
  ['property tree of the document before and after', 'RobotTree accessors'],
  'stateless exhaustive enumeration of operation sequences on the real code; after each one forward kinematics of the document is compared with the one of the start document',
  URDFREF + 'All trees of up to 5 links, all sequences of 2 operations; forward kinematics compared at several joint values, tolerance 1e-7.')

P('C20', 'Any history of edits of a URDF tree keeps index and document in agreement',
  'Under any history of changes of root, removals of leaf and root joints, removals of sub trees, and changes of joints to fixed or floating, each edit is accepted exactly when it applies, a refused one leaves the document alone, and index and document agree with a plain model of the tree: same links, joints, parents, types, mimics and order of traversal. '
  'Functions that return names return those of the joints they changed, in order. The edited document can be read again.',
  ['histories'], 'Every tree, order of the elements and history of edits.',
  'The tests apply each edit once to one robot; stale indexes only show when edits are chained.',
  ['src/scenegraph/urdf.cpp', 'almath/scenegraph/urdf.h'],
  [('rm_leaf_joint, rm_root_joint, removeSubTreeIfJoint', 'src/scenegraph/urdf.cpp'), ('makeJointFixed, makeJointFloating, makeContinuousJointsFixed', 'src/scenegraph/urdf.cpp')],
  ['property tree, RobotTree accessors, returned names'],
  'stateless exhaustive enumeration of edit histories on the real code in lock-step with a model of the tree',
  URDFREF + 'All histories of 3 (4) edits on trees of 3 links, 2 (3) edits on 4 links, 1 (2) on 5 links. Removing a joint that another one mimics leaves an unreadable document (3 known findings).')

P('C21', 'Squashing masses of a URDF tree conserves mass, centre of mass and inertia',
  'Merging the mass of a link into its parent through a joint conserves the total mass, the centre of mass and the inertia about any point, in the frame of the parent, whatever the origins of the joint and of the inertial elements. '
  'Squashing the fixed joints of a tree conserves these for each group of links so merged, removes the mass of the merged links, leaves other links, geometry and joints untouched, and does nothing when applied again; a massless child changes nothing. '
  'Making massless joints fixed turns a mobile joint into a fixed one exactly when the links moved through fixed joints with its child have no mass, and returns the names of those joints.',
  ['inputs', 'configurations'], 'Every tree, masses, inertias, origins, joint types.',
  'The tests merge a few masses, mostly with diagonal inertias and identity rotations where a transposed rotation or a missing term has no effect.',
  ['src/scenegraph/urdf.cpp', 'almath/scenegraph/urdf.h', 'almath/scenegraph/rigidbodysystem.h'],
  [('squashJointMass, squashFixedJointsMass, makeMasslessJointsFixed', 'src/scenegraph/urdf.cpp'), ('squashInertial, changeBasis helpers', 'almath/scenegraph/urdfeigen.h')],
  ['property tree of the document after squashing'], GRID,
  URDFREF + 'Every pair of inertials (3 inertias x 12 poses) x 12 joint origins; all trees of 4 and 5 links x massive links x joint types. A zero total mass is not claimed.')

P('C22', 'URDF poses, numbers, elements and file names are read and written faithfully',
  'Poses of URDF compose and invert as rigid motions, their roll-pitch-yaw form denotes the same rotation (at gimbal lock too), and a pose or number written in a document is read back as the same. '
  'A text of three numbers is accepted exactly when it is three numbers, in order. Accessors of joints (type, origin, axis, limits, mimic), visuals, geometries and inertials return the values of the document, or the documented default when it is absent, and refuse a missing mandatory value. '
  'Transforming file names applies the operation exactly once to each mesh and texture of materials, visuals and collisions, and to nothing else.',
  ['inputs', 'configurations'], 'Every pose, number, text and combination of attributes.',
  'The tests read a few elements of a few robots; defaults and refusals are combinatorial, and number formatting loses digits only on some values.',
  ['src/scenegraph/urdf.cpp', 'almath/scenegraph/urdf.h'],
  [('Pose, Array3dTranslator', 'src/scenegraph/urdf.cpp'), ('Joint, Visual, Inertial accessors, transform_filenames', 'src/scenegraph/urdf.cpp')],
  ['public types of urdf.h'], GRID,
  URDFREF + 'Words of 3 (4) operations over 12 poses, 28^3 (44^3) angles, every sign and exponent of doubles x 53 (209) mantissas, all combinations of joint attributes.')

P('C23', 'Any history of edits of an animation agrees with an ordered map of keys',
  'Under any history of calls that put or look for curves, keys, tangents and labels of an animation, in a document that may hold other elements in any place, the document agrees with a plain model: keys and labels are unique and ordered by frame, each curve belongs to its actuator, an element put again is the one already there, values, sides and parameters of tangents are those last written, and other elements stay. '
  'A lookup finds an element exactly when it is there, and reports the documented error otherwise; a refused call leaves the document alone. Numbers written in an animation are read back exactly.',
  ['histories', 'inputs'], 'Every history of calls, frame numbers, and position of other elements.',
  'The tests put a few keys in increasing frame order in documents that hold nothing else.',
  ['almath/scenegraph/qianim.h', 'src/scenegraph/qianim.cpp'],
  [('V2::Animation, ActuatorCurve, Key, Tangent', 'almath/scenegraph/qianim.h, src/scenegraph/qianim.cpp')],
  ['property tree of the animation'], 'stateless exhaustive enumeration of call histories on the real code in lock-step with a model of the animation',
  TRUST + 'All histories of 3 (4) calls among 27 on a curve from 5 documents, 5 (7) among 8 on labels, 5 (6) among 9 on the animation.')

P('C24', 'An animation is accepted exactly when its curves are valid',
  'The validation of an animation succeeds exactly when its version, actuators, frame rates and units are present and valid, frames of keys strictly increase, and every interval between two successive keys has the tangents it needs, with abscissas that stay inside of the interval so that the curve is a function of time; otherwise it throws. '
  'Every pair of successive keys is checked, the last one included, and validation does not modify the animation.',
  ['inputs', 'configurations'], 'Every combination of attributes, frames and tangents, anywhere in the curve.',
  'The tests validate a handful of documents, each with one mistake.',
  ['almath/scenegraph/qianim.h', 'src/scenegraph/qianim.cpp'],
  [('check_all, check_cubic_bezier', 'src/scenegraph/qianim.cpp')],
  ['exceptions of check_all and check_cubic_bezier'], GRID,
  TRUST + 'All attribute values of each of 3 curves, all pairs of frames and tangents of an interval, all sequences of 3 and 4 (5) frames with one tangent that differs. Labels, curves of a single key and the text of mute are not claimed.')

P('C25', 'Builders of rigid body systems forward exactly the valid additions, unaltered',
  'Under any history of additions of links and static frames, through any pipeline of name checkers, inertia erasers, plain decorators and precision adapters, an addition reaches the last builder, with its names, pose, joint type and mass unaltered (but for the erased inertia or the requested precision), exactly when its parent is known, its name and joint name are new, and it is not a static frame while these are disabled. '
  'The galilean frame is known from the start, only bodies can be parents of links, default joint names follow the configured format, and an addition refused anywhere leaves what is known unchanged.',
  ['histories', 'configurations'], 'Every history of additions, pipeline and configuration.',
  'The tests add a few frames through one pipeline; a name registered too early or in the wrong set only shows on a later call.',
  ['almath/scenegraph/rigidbodysystembuilder.h', 'almath/scenegraph/bodymass.h'],
  [('Interface, Decorator, Adapter, NamesChecker, InertiaEraser', 'almath/scenegraph/rigidbodysystembuilder.h')],
  ['calls received by the last builder'],
  'stateless exhaustive enumeration of call histories on the real code in lock-step with a model of the known names',
  TRUST + 'All histories of 2 calls among 150 and 3 calls among 64 (4 among 54), 6 pipelines, 3 configurations, and a refusal by the last builder at every call.')

P('C26', 'The rigid body system built from a URDF document is its mechanism',
  'Building a rigid body system from a URDF document gives a free-flying root in the configured galilean frame, then, parents first, one link per mobile joint and one static frame per fixed one, with the names, poses and types of the document; the mass, centre of mass and inertia of each link are those of all the links rigidly attached to it. '
  'Joints that move no mass are fixed; the options that remove the root joint and fix continuous joints act on the document first. Joints that cannot be represented are refused, and reading from a stream gives the same system.',
  ['inputs', 'configurations'], 'Every tree, joint types, masses, order of the elements and options.',
  'The tests build systems of one to three links, one joint type at a time, with identity poses.',
  ['src/scenegraph/urdfrigidbodysystemtraverser.cpp', 'almath/scenegraph/urdfeigen.h', 'src/scenegraph/urdf.cpp'],
  [('buildRigidBodySystemFromUrdf', 'src/scenegraph/urdfrigidbodysystemtraverser.cpp'), ('urdfInertialToEigen, toEigenTransform', 'almath/scenegraph/urdfeigen.h')],
  ['calls received by the builder'], GRID,
  URDFREF + 'All trees of 2 and 3 links x 12 kinds of joints x massive links x options, of 4 links x 5 (12) kinds, of 5 links x 3 (5) kinds. Systems whose root moves no mass are not claimed.')

P('C27', 'The Eigen bridge keeps every component, and averages of transforms are means',
  'Converting transforms, positions and velocities to Eigen and back, from any matrix, expression or transform of Eigen, keeps every component bit for bit in its place, and the quaternion of a transform denotes its rotation. '
  'The average of a range of transforms has the mean of the positions, and the rotation of the normalised sum of the quaternions, each taken on the side of the first one, whatever the container; the average of one transform is itself and an empty range is refused.',
  ['inputs', 'configurations'], 'Every transform, kind of Eigen operand, and sequence of transforms.',
  'The tests convert a few transforms, where swapped components may coincide, and average a few close rotations.',
  ['almath/scenegraph/almatheigen.h'],
  [('toEigen*, toALMath*, averageTransforms', 'almath/scenegraph/almatheigen.h')],
  ['components of the results'], GRID,
  TRUST + '13 values in each entry over 12 backgrounds and 10 kinds of operands; all triples of 72 (144) transforms. Opposite rotations (null dot product within 1e-5) may be averaged on either side.')

P('C28', 'Shapes, printing and component vectors expose every component in its place',
  'A pill computed from two distinct points has its axis from the first to the second, its centre in the middle and a direct orthonormal frame, for any direction; the centres of its spheres are these points, and equal points are refused. '
  'Each shape reports its parameters and is visited once, as itself; the inertia of a point mass follows its definition. Printing a value writes all of its components under their names, in order, at the precision of the stream.',
  ['inputs'], 'Every direction and length, every finite float in each component.',
  'The tests take pills along the axes and print a few values; components that are swapped or thresholds near an axis do not show.',
  ['src/geometrics/shapes3d.cpp', 'src/geometrics/shapes3d_utils.cpp', 'src/tools/almathio.cpp', 'src/tools/altransformhelpers.cpp', 'src/tools/almath.cpp'],
  [('computePillParameters, getSphereCentersFromPill, orthogonalSpace', 'src/geometrics/shapes3d_utils.cpp, src/tools/altransformhelpers.cpp'), ('operator<<, toSpaceSeparated', 'src/tools/almathio.cpp'), ('pointMassRotationalInertia', 'src/tools/almath.cpp')],
  ['results of the functions, printed text'], GRID,
  TRUST + '15^3 (23^3) directions x 4 lengths x 3 centres; every sign and exponent of a float x 3 mantissas in each component of 12 types.')

P('C29', 'Conversions to and from libqi geometry and ROS time are faithful',
  'Transforms of libqi geometry compose, invert, compare and print as rigid motions with unit quaternions, and conversions between them and transforms or planar poses keep the motion. '
  'A duration is converted to the closest valid ROS time, exactly when it is in the range of ROS times, and a valid ROS time is converted back to the same count of nanoseconds.',
  ['inputs'], 'Every rotation and translation, every 64-bit count of nanoseconds.',
  'These headers need libqi and ROS and are not built by the tests here; wrap-arounds only occur next to the bounds of the integer types.',
  ['almath/scenegraph/qigeometry.h', 'almath/scenegraph/almathqigeometry.hpp', 'almath/scenegraph/qirostime.h'],
  [('operators and conversions of qi::geometry', 'almath/scenegraph/qigeometry.h, almath/scenegraph/almathqigeometry.hpp'), ('toValidRosTime, toQiDuration', 'almath/scenegraph/qirostime.h')],
  ['results of the functions'], GRID,
  TRUST + 'libqi and ROS are not installed: their structures and clock are replaced by the stand-ins of /verif/include. All sums of two powers of two and 64 offsets of 16 bounds of time; all pairs of 144 (280) transforms.')

P('C30', 'Calls share no hidden state: any interleaving gives what each call gives alone',
  'Calls on distinct objects, and calls that promise not to change an object (const members, functions of values or const references), may run in any order and concurrently in any interleaving of threads: they do not race, and each returns bit for bit what it returns alone in a fresh process. '
  'They write no memory that another call can reach, except under a lock, atomically or in a guarded once-only initialisation, and they leave the floating-point environment, the locale and the environment of the process as they found them; changing a copy leaves the original as it was.',
  ['schedules', 'histories', 'inputs'], 'Every interleaving of two or more threads and every order of calls, over every input.',
  'The tests are single threaded and call each function a few times in one order; a static scratch buffer or a cache in a const member gives the right values there.',
  ['src/dsp', 'src/geometrics', 'src/scenegraph', 'src/tools', 'src/types', 'almath'],
  [('no static variables that change, members that are not mutable', 'src, almath')],
  ['accesses to memory, results of the functions, state of the process'],
  'stateless exploration of the real code with partial-order reduction: every access of the enumerated executions to shared memory is monitored, so that all interleavings of their calls are shown equivalent; orders of executions are enumerated and compared',
  TRUST + 'Executions of all other checks (a spread of their roots, 4 (6) variants each), alone and in 16 (48) orders, and 103 groups of const calls, each after each other one, on shared objects. Independence is shown for the executions explored, on any schedule; code of libstdc++.so itself is not instrumented.')
