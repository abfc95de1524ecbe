"""Rotation differences: pose error and angular velocity."""
import math

import numpy as np

from mc import model as M
from mc.core import check

from hand_eye_calibration.dual_quaternion_hand_eye_calibration import compute_pose_error
from hand_eye_calibration.quaternion import (
    Quaternion, angle_between_quaternions, angular_velocity_between_quaternions)

ID = 'C04'
BOUND = {
    'quick': '14 base orientations x 12 relative axes x 26 relative angles (0, micro- '
             'radians, half turns +- one rounding step, > half turn) x 4 sign patterns x '
             '9 position pairs x 7 time steps x 6 frame changes',
    'thorough': 'as quick with 38 base orientations x 18 axes x 34 angles'}
MIN_OUTCOMES = 4

OCT = M.octahedral_quaternions()
REL_AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (1, -1, 0), (1, 1, 1), (-1, -1, -1),
            (1, 2, 3), (-3, 1, 2), (0.2, -0.9, 0.4), (1e-3, -1, 1e-3), (0, 1, -1)]
ANGLES = [0.0, 1e-9, 1e-7, 1e-6, 4e-6, 1e-5, 1e-4, 1e-3, 0.02, 0.1, 0.5, 1.0, M.PI / 2, 2.0,
          3.0, M.PI - 1e-3, M.PI - 1e-6, float(np.nextafter(M.PI, 0)), M.PI,
          float(np.nextafter(M.PI, 4)), M.PI + 1e-3, 4.0, 5.5, 6.28, 2 * M.PI - 1e-6, -0.4]
POSITIONS = [((0, 0, 0), (0, 0, 0)), ((1, 2, 3), (1, 2, 3)), ((0, 0, 0), (3, 4, 0)),
             ((1, -1, 0.5), (-1, 1, 0.25)), ((1e3, 0, 0), (1e3, 1e-6, 0)),
             ((0, 0, -2), (0, 0, 2)), ((0.1, 0.2, 0.3), (0.1, 0.2, -0.3)),
             ((0, 0, 0), (1e-7, 0, -1e-7)), ((-2e6, 5, 0), (4e6, 5, 8e6))]
TIMES = [0.01, 1.0, 0.125, 7.5, 1e-3, 1e-6, 3600.0]
FRAMES = [((0, 0, 1), M.PI / 2), ((1, 0, 0), M.PI), ((1, 2, 3), 2.0), ((-1, 1, 0), 5.0),
          ((1, 1, 1), 2 * M.PI / 3), ((0, 1, 0), 1e-3)]


def bases(tier):
  out = [OCT[i] for i in (6, 0, 2, 5, 8, 14, 23, 24, 30, 41)]
  out += [tuple(M.axis_angle_quat(a, g)) for a, g in (
      ((1, 2, 3), 1.0), ((-3, 1, 2), 3.1), ((0.2, -0.9, 0.4), 5.0), ((0, 0, 1), 3.14159))]
  if tier == 'thorough':
    out += [q for q in OCT if q not in out][:24]
  return out


def alphabet(tier):
  axes, angles = list(REL_AXES), list(ANGLES)
  if tier == 'thorough':
    axes += [(0, -1, 0), (0, 0, -1), (1, 0, 1), (-1, 1, 1), (3, -1, -2), (1, 1e-7, 0)]
    angles += [1e-8, 0.2, 0.7, 1.4, 2.5, 3.1, 3.3, 4.7]
  return axes, angles


def cases(tier):
  axes, angles = alphabet(tier)
  for b in range(len(bases(tier))):
    for a in range(len(axes)):
      for g in range(len(angles)):
        yield dict(b=b, a=a, g=g, tier=tier)


def run(case, rec):
  axes, angles = alphabet(case['tier'])
  base = np.array(bases(case['tier'])[case['b']])
  axis, angle = axes[case['a']], angles[case['g']]
  second = M.qmul(M.axis_angle_quat(axis, angle), base)
  second = second / np.linalg.norm(second)
  rel = M.rodrigues(axis, angle)
  true = M.rot_angle(rel)
  r1, r2 = M.quat_to_rot(base), M.quat_to_rot(second)
  for s1 in (1, -1):
    for s2 in (1, -1):
      what = 'orientations {} and {} (axis {} angle {!r}) signs {} {}'.format(
          base.tolist(), second.tolist(), axis, angle, s1, s2)
      v1, v2 = s1 * base, s2 * second
      for p1, p2 in POSITIONS:
        a = np.array(tuple(p1) + tuple(v1), float)
        b = np.array(tuple(p2) + tuple(v2), float)
        ka, kb = a.copy(), b.copy()
        pos, ang = compute_pose_error(a, b)
        distance = math.sqrt(sum((x - y)**2 for x, y in zip(p1, p2)))
        check(abs(pos - distance) < 1e-9 * max(1., distance),
              'position error {} of {} {}', pos, p1, p2)
        check(0 <= ang <= 180 + 1e-9 and abs(ang - math.degrees(true)) < 1e-7,
              '{}: orientation error {} instead of {}', what, ang, math.degrees(true))
        pos2, ang2 = compute_pose_error(b, a)
        check(abs(pos2 - pos) < 1e-12 * max(1., pos) and abs(ang2 - ang) < 1e-9, '{}: not symmetric', what)
        check(np.array_equal(a, ka) and np.array_equal(b, kb), '{}: input modified', what)
        rec.step(2)
      q1, q2 = Quaternion(q=v1), Quaternion(q=v2)
      ab = angle_between_quaternions(q1, q2)
      check(ab == ab and min(abs(ab - true), abs(2 * M.PI - ab - true)) < 1e-9,
            '{}: angle {}', what, ab)
      for t in TIMES:
        w = np.asarray(angular_velocity_between_quaternions(q1, q2, t))
        check(w.shape == (3,) and np.isfinite(w).all(), '{}: velocity {}', what, w.tolist())
        n = np.linalg.norm(w)
        check(abs(n * t - true) < 1e-9, '{}: speed {} over {} instead of angle {}', what, n, t, true)
        turned = (M.rodrigues(w, n * t) if n > 0 else np.eye(3)).dot(r1)
        check(M.geodesic(turned, r2) < 1e-8, '{}: turning by {} for {} misses by {}', what,
              w.tolist(), t, M.geodesic(turned, r2))
        check(np.array_equal(q1.q, v1) and np.array_equal(q2.q, v2), '{}: input modified', what)
        rec.step()
        rec.state(w, 6)
      for fa, fg in FRAMES:
        x = M.axis_angle_quat(fa, fg)
        rx = M.rodrigues(fa, fg)
        for left in (True, False):
          o1 = M.qmul(x, v1) if left else M.qmul(v1, x)
          o2 = M.qmul(x, v2) if left else M.qmul(v2, x)
          w = np.asarray(angular_velocity_between_quaternions(
              Quaternion(q=o1), Quaternion(q=o2), 0.5))
          check(abs(np.linalg.norm(w) * 0.5 - true) < 1e-8, '{}: speed changes in frame {}', what,
                (fa, fg, left))
          e = compute_pose_error(np.hstack(([1, 2, 3.], o1)), np.hstack(([1, 2, 3.], o2)))
          check(abs(e[1] - math.degrees(true)) < 1e-6, '{}: orientation error {} in frame {}',
                what, e[1], (fa, fg, left))
          rec.step(2)
  rec.outcome('equal' if true == 0 else 'micro' if true < 1e-4 else
              'half turn' if M.PI - true < 1e-9 else 'beyond half turn' if angle > M.PI else
              'ordinary')
