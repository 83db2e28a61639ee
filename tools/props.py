#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing).  One P() call per property."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = []
NA = []

def P(id, title, statement, over, text, why, files, mech, observe, tech, note, state=(), level='model_checking', na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
        return
    CHECKS.append(dict(property=id, quick_cmd='./run.py %s quick' % id,
        thorough_cmd='./run.py %s thorough' % id, technique=tech, level=level, level_note=note))

SEQ = 'stateless exhaustive enumeration of operation sequences on the real code against a double-precision reference model'
GRID = 'exhaustive enumeration of a finite case space on the real code, compared case by case with a reference model'
TRUST = ('Trusts the compiler and the reference in /verif/harness/ref.h (double precision, written from the definitions); '
         'nothing is claimed outside of the stated bounds. ')

P('C01', 'Rigid transforms behave as the group SE(3) under any sequence of operations',
  'Whatever sequence of products, inversions, differences, powers and in-place updates produced a transform, it denotes exactly the rigid motion obtained by composing the corresponding motions: the rotation part stays orthonormal, operators and their in-place, method and free-function forms agree, a transform times its inverse is the identity, and applying it to points and velocities acts as that motion. '
  'Equality, tolerance comparison, component-vector and elementary constructors (from one axis angle, a translation, roll-pitch-yaw) look at every component and agree with each other.',
  ['histories', 'inputs'], 'Every finite sequence of transform operations, every operand, every angle and translation.',
  'The tests evaluate each operator once on a hand-picked operand; a wrong sign or entry that vanishes there, or an error that only shows after composition, is not seen.',
  ['src/types/altransform.cpp', 'almath/types/altransform.h', 'src/tools/altransformhelpers.cpp'],
  [('Transform operators', 'src/types/altransform.cpp'), ('inverse, pow, diff, norm, distance', 'src/types/altransform.cpp')],
  ['public operators and free functions of the transform type'], SEQ,
  TRUST + 'All words of 3 (thorough: 4) operations over 7 operations and 8 generators, and angle grids dense around all thresholds.')

P('C02', 'Rotation matrices: group laws, constructors, validity tests, re-normalisation',
  'Every rotation built from axis, angle, roll-pitch-yaw or quaternion is the rotation so described, and any sequence of products, transposes and powers keeps denoting the composed rotation with determinant one. '
  'A matrix (rotation or rigid transform) is declared valid exactly when, within the given tolerance, it is orthonormal with determinant +1, never when an entry is not finite. '
  'Re-normalising a perturbed rotation gives a valid rotation close to it, a valid one is left unchanged, and an axis that is not unit is refused.',
  ['histories', 'inputs'], 'Every operation sequence, every 3x3 matrix, every axis and angle.',
  'The tests try a few matrices; acceptance of reflections, shears, scaled or NaN matrices, and small-angle and large-angle constructors are not covered.',
  ['src/types/alrotation.cpp', 'src/types/altransform.cpp', 'src/tools/altransformhelpers.cpp'],
  [('isRotation/isTransform, normalizeRotation', 'src/types/alrotation.cpp, src/types/altransform.cpp')],
  ['public rotation and transform functions'], SEQ,
  TRUST + 'Words of 3 (4) operations, all 3x3 matrices over {0,1,-1/2}, perturbation magnitudes on both sides of each tolerance.')

P('C03', 'Conversions between pose and orientation representations keep the same motion',
  'Converting an orientation or pose between rotation matrix, rigid transform, quaternion, axis-angle, roll-pitch-yaw, six-component position and planar pose, by any path of conversions, always denotes the same motion, up to the information the target representation cannot hold. '
  'This includes orientations at and near gimbal lock, half turns and the identity; results are finite and roll-pitch-yaw angles are in their documented ranges. '
  'Relative motions between two poses, and frame changes of velocities, agree with composing transforms.',
  ['inputs', 'programs'], 'Every orientation, position and path of conversions.',
  'The tests check single conversions on few angles; branches of the quaternion extraction and gimbal-lock neighbourhoods depend on inputs they never sample, and conversion paths are not composed.',
  ['src/tools/altransformhelpers.cpp', 'src/types/alquaternion.cpp', 'src/types/alrotation3d.cpp', 'src/tools/almath.cpp'],
  [('quaternionFromTransform branches', 'src/types/alquaternion.cpp'), ('rotation3DFromTransform', 'src/tools/altransformhelpers.cpp')],
  ['conversion functions of the public API'], GRID,
  TRUST + '4.3 million orientations (roll x pitch x yaw, grids plus neighbourhoods of every threshold), each through every conversion path; tolerance 1e-3.')

P('C04', 'Quaternions form the unit group and axis-angle extraction inverts construction',
  'Any sequence of quaternion products, inversions and normalisations composes rotations exactly as their matrices do, and quaternion arithmetic and comparisons act on every component. '
  'Extracting the axis and angle of a quaternion (of either sign, with small norm errors) and rebuilding gives the same rotation, finite and accurate down to null angles and full turns, with a unit axis. '
  'Displacements compose a quaternion and a position the same way.',
  ['histories', 'inputs'], 'Every operation sequence and every quaternion, angle and axis.',
  'The tests check a handful of fixed quaternions; rounding beyond unit norm, tiny angles and opposite signs are not sampled.',
  ['src/types/alquaternion.cpp', 'src/types/aldisplacement.cpp'],
  [('angleAxisRotationFromQuaternion', 'src/types/alquaternion.cpp'), ('operator*, inverse, normalize', 'src/types/alquaternion.cpp')],
  ['public quaternion functions'], SEQ, TRUST + 'Words of 3 (4) operations over 8 unit quaternions; 255 angles x 35 axes x signs and norm drift.')

P('C05', 'Screw logarithm and exponential are inverse, and transform means interpolate',
  'For any rigid transform whose rotation angle is below a half turn, the exponential of its logarithm is that transform, and the logarithm of the exponential of any screw motion with angle below a half turn is that screw; both equal the mathematical matrix logarithm and exponential, including at arbitrarily small rotations; the logarithm of an exact half turn about a coordinate axis is a half turn about that axis, one way or the other, that its exponential gives back. '
  'The weighted mean of two transforms moves along that screw: weight one gives the first pose, weight zero the second, and weights outside [0,1] are refused. '
  'Filtering by repeated means follows the same screws at every step.',
  ['inputs', 'histories'], 'Every screw motion (axis, angle below pi, translation), weight and history of means.',
  'Tests use few angles, while the code switches formula at small angles; only sweeping across each threshold shows a discontinuity.',
  ['src/tools/altransformhelpers.cpp'],
  [('transformLogarithm, velocityExponential, transformMean', 'src/tools/altransformhelpers.cpp')],
  ['transformLogarithm, velocityExponential, transformMean'], GRID, TRUST + '263 angles (around each threshold) x 35 axes x 6 translations x 3 float rounding histories; all 9 target-jump histories of 8 filter steps.')

P('C06', 'Frames built from axes: axis projection, orthogonal completion, axes to rotation',
  'Building a rotation from two or three orthonormal axes gives the rotation with those columns, and completing one axis into a frame gives a direct orthonormal frame whose first axis is the given direction, while a null axis is refused. '
  'Projecting a rotation or the rotation part of a transform on a coordinate axis yields a rotation about that axis that leaves the translation alone, fixes every rotation already about it, and absorbs an extra turn about it; results are finite. '
  'The rotation and the transform forms agree.',
  ['inputs'], 'Every rotation, every axis, every translation.',
  'The tests check a few projections on principal axes; degenerate configurations where the projected directions vanish are not reached.',
  ['src/tools/altransformhelpers.cpp'],
  [('axisRotationProjection, orthogonalSpace, rotationFromAxes*', 'src/tools/altransformhelpers.cpp')],
  ['axisRotationProjection, orthogonalSpace, rotationFromAxes*'], GRID, TRUST + 'Known finding: for oblique axes rotations about the axis are not fixed (see known_findings.txt).')

P('C07', 'Planar poses form SE(2), act on the plane and agree with rigid transforms',
  'Whatever sequence of products, inversions, differences and in-place updates produced a planar pose, it denotes the composed planar motion; its action on points, its inverse, the relative pose of two poses and its conversions to and from rigid transforms agree with it. '
  'Component-wise sums, scalings, norms, distances and comparisons act on every component, for any values.',
  ['histories', 'inputs'], 'Every sequence of planar operations, every pose and angle.',
  'Tests evaluate each operation on one or two poses.',
  ['src/types/alpose2d.cpp', 'almath/types/alpose2d.h'],
  [('Pose2D operators', 'src/types/alpose2d.cpp')], ['public functions of planar poses'], SEQ, TRUST + 'Words of 3 (4) operations x 8 poses, then every observer.')

P('C08', 'Positions and velocities are vector spaces with exact comparisons',
  'For positions (2, 3 and 6 components), velocities and rotation vectors, any sequence of additions, subtractions, scalings and in-place updates gives the component-wise result, and norms, distances, normalisation, dot and cross products have their Euclidean meaning. '
  'Equality and tolerance comparisons hold exactly when every component satisfies them; vector forms list the components in order, and a vector of wrong size or a null divisor is handled as documented. '
  'Axis masks select and combine the documented axes.',
  ['histories', 'inputs'], 'Every sequence of operations and every operand.',
  'The tests exercise each operator on one vector, so that a component exchanged or ignored where the operand is null or symmetric is not seen.',
  ['src/types/alposition2d.cpp', 'src/types/alposition3d.cpp', 'src/types/alposition6d.cpp', 'src/types/alvelocity3d.cpp', 'src/types/alvelocity6d.cpp', 'src/types/alrotation3d.cpp', 'src/types/alpositionandvelocity.cpp', 'src/types/alaxismask.cpp'],
  [('operators', 'src/types/al*.cpp')], ['public functions of these types'], SEQ, TRUST + 'Words of 3 (4) operations over 9 operations x 8 operands per type.')

P('C09', 'Angle wrapping, angular means and clipping',
  'Wrapping returns, for every finite angle, a value in ]-pi, pi] that differs from it by a whole number of turns. '
  'The (weighted) mean of angles is the direction of the (weighted) sum of their unit vectors, depends on relative weights only, and is refused when that sum vanishes, when sizes differ or when a weight is not strictly positive. '
  'Clipping returns the nearest value within the limits and reports exactly whether it changed something.',
  ['inputs'], 'Every float angle up to 2^20 rad, every list of angles and weights, every limits and value.',
  'The tests sample a dozen angles; boundaries in float arithmetic can only be settled on every float.',
  ['src/tools/almath.cpp', 'almath/tools/almath.h'],
  [('modulo2PI, meanAngle, weightedMeanAngle, clipData', 'src/tools/almath.cpp')], ['those functions'], GRID,
  TRUST + 'The thorough tier runs every float of magnitude up to 2^20, the quick tier one in 64 of them and all neighbours of quarter turns.')

P('C10', 'The digital filter follows its difference equation over any history',
  'For any coefficients, the n-th output of a digital filter equals the difference equation applied to all inputs and outputs since the last reset, bias included, whatever the interleaving of processing steps, resets, reconfigurations with reset and copies; a fresh or reset filter starts from null history, and copies evolve independently. '
  'It never reads outside of its buffers.',
  ['histories', 'configurations'], 'Every history of steps, resets, reconfigurations and copies, every filter order.',
  'The tests run one filter along one input sequence.',
  ['src/dsp/digitalfilter.cpp', 'almath/dsp/digitalfilter.h'],
  [('processFilter, configureFilter, resetFilter', 'src/dsp/digitalfilter.cpp')], ['the output of each step'], SEQ + ', under address and undefined-behaviour sanitizers',
  TRUST + 'All histories of 7 (9) operations for 108 coefficient sets and the default filter.')

P('C11', 'The PID controller follows its control law over any history of calls',
  'At each step the command is the static offset plus the proportional, derivative and integral terms of the dead-banded errors seen since the last reset, each with the period in force at that step, whatever the interleaving of signed and absolute computations, steps with an explicit period, resets, gain changes, re-initialisations and copies. '
  'The first step after a reset has no derivative term; negative gains, thresholds or offsets and non-positive periods are refused.',
  ['histories', 'configurations'], 'Every history of controller calls, every parameter set.',
  'The tests run one or two scripted sequences; the mixing of computations that take an explicit period with those that do not, resets and reconfigurations is not reached.',
  ['src/dsp/pidcontroller.cpp', 'almath/dsp/pidcontroller.h'],
  [('computeFeedback*, reset, initialize', 'src/dsp/pidcontroller.cpp')], ['the command of each step'], SEQ + ', under address and undefined-behaviour sanitizers',
  TRUST + 'All histories of 6 (7) calls over 7 computations for 7 parameter sets.')

exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    json.dump(dict(version=1, setup_cmd='true', checks=CHECKS, not_applicable=NA,
        notes='Each check compiles /repo sources with its explorer (run.py) and enumerates the whole stated space; no hooks in /repo.'),
        open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    cfg = json.load(open(os.path.join(V, 'checks', 'config.json')))
    ids = [c['property'] for c in CHECKS]
    print('checks', len(ids), 'without config', [i for i in ids if i not in cfg], 'unclaimed', [i for i in cfg if i not in ids])
