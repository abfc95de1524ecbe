"""Conversions between rotation and pose representations."""
import math

import numpy as np

from mc import model as M
from mc.core import check

from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.quaternion import Quaternion

ID = 'C02'
BOUND = {
    'quick': '38 axes x 35 angles in [-2pi,4pi] (zero, tiny, half and full turns, one '
             'rounding step around them) x both signs x 10 translations, all conversions '
             'and conversion chains; screw axes of all of them in 7 further frames; all '
             '24 integer rotation matrices',
    'thorough': 'as quick with 98 axes x 63 angles x 15 translations and 12 frames'}
MIN_OUTCOMES = 6

AXES = M.AXES + [tuple(-e for e in a) for a in M.AXES] + M.GENERIC_AXES + [
    tuple(-e for e in a) for a in M.GENERIC_AXES]
UP = np.nextafter
ANGLES = [0.0, 1e-9, 1e-8, 1e-7, 3e-6, 1e-5, 1e-4, 1e-3, 0.02, 0.1, 0.5, 1.0,
          M.PI / 3, M.PI / 2, 2.0, 2 * M.PI / 3, 3.0, M.PI - 1e-3, M.PI - 1e-6,
          M.PI - 1e-9, float(UP(M.PI, 0)), M.PI, float(UP(M.PI, 9)), M.PI + 1e-7,
          M.PI + 1e-3, 4.0, 3 * M.PI / 2, 2 * M.PI - 1e-3, 2 * M.PI - 1e-6,
          2 * M.PI, 7.0, 3 * M.PI, 4 * M.PI, -0.3, -M.PI]
TRANSLATIONS = [(0, 0, 0), (1, 0, 0), (0, -2, 0.5), (0.3, 0.2, -0.1), (1e-6, 0, 0),
                (1e3, -2e3, 500), (0, 0, 1), (-1, -1, -1), (1e-9, 1e-9, -1e-9),
                (40, -60, 5e3)]
FRAMES = [((1, 0, 0), 0.0, (1, 2, 3)), ((0, 0, 1), M.PI / 2, (0, 0, 0)),
          ((1, 1, 1), 2 * M.PI / 3, (-1, 0, 2)), ((1, 2, 3), 1.3, (0.1, -0.5, 0.2)),
          ((0, 1, 0), M.PI, (0, 1, 0)), ((-3, 1, 2), 3.0, (5, -5, 5)),
          ((0, -1, 1), 5.0, (0, 0, 0.3))]


def extra(tier):
  axes, angles, trans, frames = list(AXES), list(ANGLES), list(TRANSLATIONS), list(FRAMES)
  if tier == 'thorough':
    import itertools
    axes += [a for a in itertools.product((-2, -1, 0, 1, 2), repeat=3)
             if any(a) and sorted(map(abs, a)) in ([0, 1, 2], [1, 1, 2], [1, 2, 2])][:60]
    angles += [k * 4 * M.PI / 29 for k in range(1, 29)]
    trans += [(0, 0, -1e4), (1e-12, 0, 0), (0, 1, 1), (7, 0, -7), (0.5, 0.5, 0.5)]
    frames += [((1, -1, 0), 0.1, (0, 9, 0)), ((1, 0, 1), 4.4, (1, 1, 1)),
               ((0, 0, 1), 1e-4, (0, 0, 0)), ((2, -1, 2), 2.2, (-3, 0.5, 9)),
               ((1, 0, 0), -1.0, (100, 0, 0))]
  return axes, angles, trans, frames


def rotation_matrix_ok(r, what):
  check(np.isfinite(r).all(), '{}: not finite', what)
  check(M.close(r.dot(r.T), np.eye(3), 1e-12), '{}: not orthonormal', what)
  check(abs(np.linalg.det(r) - 1) < 1e-12, '{}: not proper', what)


def rotation_cases(axis, angle, sign, rec):
  what = 'axis {} angle {!r} sign {}'.format(axis, angle, sign)
  qv = sign * M.axis_angle_quat(axis, angle)
  rot = M.rodrigues(axis, angle)
  q = Quaternion(*[float(e) for e in qv])
  r = q.to_rotation_matrix()
  rotation_matrix_ok(r, 'rotation matrix of ' + what)
  check(M.close(r, rot, 1e-12), 'rotation matrix of {}', what)
  m4 = q.to_transformation_matrix()
  check(M.close(m4, M.T(rot, (0, 0, 0)), 1e-12), '4x4 matrix of {}', what)
  back = Quaternion.from_rotation_matrix(r)
  check(M.same_rotation(back.q, qv, 1e-8), 'matrix -> quaternion of {}: {}', what,
        back.q.tolist())
  check(abs(back.norm() - 1) < 1e-8, 'matrix -> quaternion of {} not unit', what)
  # Through the matrix again: must be stable, not drift.
  again = Quaternion.from_rotation_matrix(back.to_rotation_matrix())
  check(M.same_rotation(again.q, qv, 1e-8), 'second matrix round trip of {}', what)
  aa = q.angle_axis()
  check(np.isfinite(aa).all() and abs(np.linalg.norm(aa[:3]) - 1) < 1e-9,
        'angle-axis of {}: {}', what, aa.tolist())
  check(M.close(M.rodrigues(aa[:3], aa[3]), rot, 1e-11), 'angle-axis of {}: {}', what,
        aa.tolist())
  q2 = Quaternion.from_angle_axis(aa[3], aa[:3])
  check(M.same_rotation(q2.q, qv, 1e-11), 'angle-axis round trip of {}: {}', what,
        q2.q.tolist())
  for length in (1.0, 3.0, 0.01):
    a = np.array(axis, float) * length
    q3 = Quaternion.from_angle_axis(angle, a)
    check(M.close(M.quat_to_rot(q3.q), rot, 1e-12) and abs(q3.norm() - 1) < 1e-9,
          'from_angle_axis of {} with axis length {}', what, length)
    check(np.array_equal(a, np.array(axis, float) * length), 'axis argument modified')
  dq = DualQuaternion(q, Quaternion(0., 0., 0., 0.))
  p = dq.to_pose()
  check(M.close(M.quat_to_rot(p[3:]), rot, 1e-12) and p[6] >= 0, 'pose of {}', what)
  rec.step(12)
  rec.state((np.round(r, 9) + 0.0).tolist())


def pose_cases(axis, angle, sign, trans, rec):
  what = 'axis {} angle {!r} sign {} t {}'.format(axis, angle, sign, trans)
  qv = sign * M.axis_angle_quat(axis, angle)
  m = M.T(M.rodrigues(axis, angle), trans)
  scale = max(1.0, max(abs(e) for e in trans))
  pose = np.array(tuple(trans) + tuple(qv))
  built = [('from_pose_vector', DualQuaternion.from_pose_vector(pose)),
           ('from_pose_vector list', DualQuaternion.from_pose_vector(list(pose))),
           ('from_pose', DualQuaternion.from_pose(*pose)),
           ('from_pose scaled', DualQuaternion.from_pose(*np.hstack((pose[:3], 2.5 * pose[3:])))),
           ('from_transformation_matrix', DualQuaternion.from_transformation_matrix(m)),
           ('from_vector', DualQuaternion.from_vector(np.hstack(
               (qv, 0.5 * M.qmul(tuple(trans) + (0.0,), qv)))))]
  check(M.close(pose, np.array(tuple(trans) + tuple(qv)), 0), 'pose argument modified')
  for name, dq in built:
    check(bool(abs(dq.norm()[0] - 1) < 1e-8), '{} {} not unit', name, what)
    ps = dq.copy().to_pose()
    check(np.isfinite(ps).all(), '{} {}: pose {}', name, what, ps.tolist())
    check(ps[6] >= 0 and abs(np.linalg.norm(ps[3:]) - 1) < 1e-9,
          '{} {}: exported quaternion {}', name, what, ps[3:].tolist())
    check(M.close(ps[:3], trans, 1e-7 * scale if name == 'from_transformation_matrix'
                  else 1e-11 * scale), '{} {}: position {}', name, what, ps[:3].tolist())
    check(M.same_rotation(ps[3:], qv, 1e-8), '{} {}: orientation {}', name, what,
          ps[3:].tolist())
    mt = dq.copy().to_matrix()
    check(M.close(mt, m, 1e-8 * scale), '{} {}: matrix', name, what)
    rotation_matrix_ok(mt[:3, :3], name + ' ' + what)
    # pose -> dq -> matrix -> dq -> pose chain
    chain = DualQuaternion.from_transformation_matrix(
        DualQuaternion.from_pose_vector(ps).to_matrix()).to_pose()
    check(M.close(M.T_pose(chain), m, 1e-7 * scale), '{} {}: chain', name, what)
    rec.step(5)
  rec.state(('p', built[0][1].dq))


def screw_ok(dq, m, what, tol):
  axis, rotation, pitch = dq.screw_axis()
  axis = np.asarray(axis, float)
  check(np.isfinite(axis).all() and np.isfinite(rotation) and np.isfinite(pitch),
        '{}: screw {} {} {}', what, axis.tolist(), rotation, pitch)
  check(-1e-9 <= rotation <= 360 + 1e-9, '{}: screw rotation {}', what, rotation)
  angle = M.rot_angle(m[:3, :3])
  t = m[:3, 3]
  if angle > 1e-10:
    check(abs(np.linalg.norm(axis) - 1) < tol, '{}: screw axis length {}', what,
          np.linalg.norm(axis))
    check(M.close(M.rodrigues(axis, math.radians(rotation)), m[:3, :3], 1e-9),
          '{}: screw axis {} rotation {}', what, axis.tolist(), rotation)
    check(abs(pitch - axis.dot(t)) < tol * max(1.0, np.abs(t).max()),
          '{}: screw pitch {} instead of {}', what, pitch, axis.dot(t))
    # The translation left after removing the pitch is reachable by moving the
    # axis, i.e. it lies in the image of (I - R).
    rest = t - pitch * axis
    check(abs(rest.dot(axis)) < tol * max(1.0, np.abs(t).max()), '{}: screw rebuild', what)
  else:
    check(min(rotation, 360 - rotation) < 1e-6, '{}: screw rotation {}', what, rotation)
    n = np.linalg.norm(t)
    if n > 1e-7:
      check(abs(pitch - n) < 1e-9 * max(1, n), '{}: screw translation {}', what, pitch)
      check(M.close(axis * pitch, t, 1e-9 * max(1, n)), '{}: screw axis {}', what, axis.tolist())
    elif n == 0 and angle < 1e-13:
      check(abs(pitch) < 1e-9, '{}: screw of no motion', what)
  return axis, rotation, pitch


def screw_cases(axis, angle, sign, trans, frames, rec):
  what = 'axis {} angle {!r} sign {} t {}'.format(axis, angle, sign, trans)
  true = M.rot_angle(M.rodrigues(axis, angle))
  exact_zero = abs(math.sin(angle / 2.0)) < 1e-12
  if exact_zero:
    # Full turns: the rounding noise of sin(k*pi) is no rotation.
    qv = np.array([0, 0, 0, math.copysign(1.0, sign * math.cos(angle / 2.0))])
    m = M.T(np.eye(3), trans)
    true = 0.0
  else:
    if true < 5e-8:
      return
    qv = sign * M.axis_angle_quat(axis, angle)
    m = M.T(M.rodrigues(axis, angle), trans)
  dq = DualQuaternion.from_pose_vector(np.hstack((np.array(trans, float), qv)))
  tol = 1e-9 + (1e-13 / true if true else 0.0)
  a0, r0, p0 = screw_ok(dq, m, 'screw of ' + what, tol)
  for fa, fg, ft in frames:
    x = DualQuaternion.from_pose_vector(np.hstack((np.array(ft, float), M.axis_angle_quat(fa, fg))))
    rx = M.rodrigues(fa, fg)
    mx = M.T(rx, ft)
    far = max(1.0, max(abs(e) for e in ft), max(abs(e) for e in trans))
    if exact_zero and abs(fg) > 0:
      # x * (+-1) * x^-1 leaves rounding noise in place of the zero vector part.
      continue
    other = x * dq * x.inverse()
    mo = mx.dot(m).dot(M.inv(mx))
    t2 = (1e-9 + (1e-13 / true if true else 0.0)) * far
    a1, r1, p1 = screw_ok(other, mo, 'screw in frame {} of {}'.format((fa, fg, ft), what), t2)
    check(abs((r1 - r0 + 180) % 360 - 180) < 1e-8, 'screw rotation of {} is {} in frame {}, {} before',
          what, r1, (fa, fg, ft), r0)
    if true > 0 or np.linalg.norm(trans) > 1e-7:
      check(abs(p1 - p0) < t2, 'screw pitch of {} is {} in frame {}, {} before', what, p1,
            (fa, fg, ft), p0)
      check(M.close(a1, rx.dot(a0), t2), 'screw axis of {} is {} in frame {}', what,
            a1.tolist(), (fa, fg, ft))
    rec.step(2)
  rec.state(('s', a0, r0, p0), 6)


def kind(angle):
  a = abs(math.fmod(angle, 2 * M.PI))
  a = min(a, 2 * M.PI - a)
  if a < 1e-12:
    return 'no rotation'
  if a < 1e-4:
    return 'tiny rotation'
  if M.PI - a < 1e-12:
    return 'half turn'
  if M.PI - a < 1e-2:
    return 'nearly half turn'
  return 'ordinary rotation'


def cases(tier):
  axes, angles, _, _ = extra(tier)
  for i in range(24):
    yield dict(k='integer', i=i)
  for a in range(len(axes)):
    for g in range(len(angles)):
      yield dict(k='grid', a=a, g=g, tier=tier)


def run(case, rec):
  if case['k'] == 'integer':
    r = M.octahedral_rotations()[case['i']]
    for mat in (r.astype(float), r):
      q = Quaternion.from_rotation_matrix(mat)
      check(M.close(q.to_rotation_matrix(), r, 1e-9), 'integer matrix {} -> {}', r.tolist(),
            q.q.tolist())
      check(abs(q.norm() - 1) < 1e-9 and q.w >= -1e-12, 'integer matrix {} -> {}', r.tolist(),
            q.q.tolist())
      rec.step(2)
    rec.outcome('integer rotation matrix')
    return
  axes, angles, trans, frames = extra(case['tier'])
  axis, angle = axes[case['a']], angles[case['g']]
  for sign in (1, -1):
    rotation_cases(axis, angle, sign, rec)
    for t in trans:
      pose_cases(axis, angle, sign, t, rec)
      screw_cases(axis, angle, sign, t, frames, rec)
  rec.outcome(kind(angle))
