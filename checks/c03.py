"""Orientation interpolation."""
import math

import numpy as np

from mc import model as M
from mc.core import check

from hand_eye_calibration import quaternion as Q
from hand_eye_calibration.quaternion import Quaternion

ID = 'C03'
BOUND = {
    'quick': '16 base orientations x 10 relative axes x 21 relative angles (0 to a half '
             'turn, 1e-9 apart to 1e-9 from opposite) x all 4 sign patterns x 13 fractions',
    'thorough': 'as quick with 40 base orientations x 19 relative axes x 33 relative '
                'angles x 25 fractions'}
MIN_OUTCOMES = 4

OCT = M.octahedral_quaternions()


def bases(tier):
  out = [OCT[i] for i in (6, 7, 0, 1, 4, 8, 15, 23, 24, 29, 36, 47)]
  out += [tuple(M.axis_angle_quat(a, g)) for a, g in (
      ((1, 2, 3), 1.0), ((-3, 1, 2), 3.1), ((0.2, -0.9, 0.4), 5.0), ((0, 0, 1), 1e-5))]
  if tier == 'thorough':
    out += [q for q in OCT if q not in out][:24]
  return out


REL_AXES = [(1, 0, 0), (0, 1, 0), (0, 0, -1), (1, 1, 0), (1, 1, 1), (-1, 0, 1),
            (1, 2, 3), (-3, 1, 2), (0.2, -0.9, 0.4), (1e-3, -1, 1e-3)]
REL_ANGLES = [0.0, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.5, 1.0,
              M.PI / 2, 2.0, 2.8, 3.1, M.PI - 1e-3, M.PI - 1e-6, M.PI - 1e-9, M.PI]
FRACTIONS = [0.0, 1e-9, 1e-3, 0.1, 0.25, 1 / 3., 0.5, 2 / 3., 0.75, 0.9, 0.999, 1 - 1e-9, 1.0]


def alphabet(tier):
  axes, angles, fr = list(REL_AXES), list(REL_ANGLES), list(FRACTIONS)
  if tier == 'thorough':
    axes += [tuple(-e for e in a) for a in REL_AXES[:9]]
    angles += [0.2, 0.3, 0.7, 1.2, 1.4, 1.8, 2.2, 2.5, 2.95, 3.05, 3.13, M.PI - 1e-4]
    fr += [0.05, 0.15, 0.2, 0.3, 0.35, 0.4, 0.45, 0.55, 0.6, 0.65, 0.7, 0.8]
  return axes, angles, fr


def cases(tier):
  axes, angles, _ = alphabet(tier)
  for b in range(len(bases(tier))):
    for a in range(len(axes)):
      for g in range(len(angles)):
        yield dict(b=b, a=a, g=g, tier=tier)


def tolerance(angle):
  # Rounding of the cosine of the half angle limits how well small angles are
  # resolved by the arc cosine.
  half = angle / 2.0
  if half == 0:
    return 1e-10
  return 1e-10 + min(4 * half, 1e-14 / half)


def run(case, rec):
  tier = case['tier']
  axes, angles, fractions = alphabet(tier)
  base = np.array(bases(tier)[case['b']])
  axis, angle = axes[case['a']], angles[case['g']]
  rel = M.axis_angle_quat(axis, angle)
  second = M.qmul(rel, base)
  second = second / np.linalg.norm(second)
  r1, r2 = M.quat_to_rot(base), M.quat_to_rot(second)
  tol = tolerance(angle)
  ambiguous = angle > M.PI - 1e-7
  for f in fractions:
    results = []
    for s1 in (1, -1):
      for s2 in (1, -1):
        what = 'slerp of {} and {} (axis {} angle {!r}) at {!r} signs {} {}'.format(
            base.tolist(), second.tolist(), axis, angle, f, s1, s2)
        q1, q2 = Quaternion(q=s1 * base), Quaternion(q=s2 * second)
        q = Q.quaternion_slerp(q1, q2, f)
        check(np.isfinite(q.q).all(), '{}: {}', what, q.q.tolist())
        check(abs(q.norm() - 1) < 1e-7, '{}: norm {}', what, q.norm())
        r = M.quat_to_rot(q.q)
        check(abs(M.geodesic(r1, r) - f * angle) < tol, '{}: {} from the first, expected {}',
              what, M.geodesic(r1, r), f * angle)
        check(abs(M.geodesic(r, r2) - (1 - f) * angle) < tol,
              '{}: {} from the second, expected {}', what, M.geodesic(r, r2), (1 - f) * angle)
        if not ambiguous:
          true = M.rodrigues(axis, f * angle).dot(r1)
          check(M.geodesic(true, r) < tol * 2, '{}: off the shortest arc by {}', what,
                M.geodesic(true, r))
          rev = Q.quaternion_slerp(q2, q1, 1.0 - f)
          check(M.geodesic(M.quat_to_rot(rev.q), r) < 3 * tol + 1e-9, '{}: not symmetric', what)
        if f in (0.0, 1.0):
          given = (base, second)[int(f)]
          check(M.same_rotation(q.q, given, 1e-12), '{}: end point {}', what, q.q.tolist())
        check(np.array_equal(q1.q, s1 * base) and np.array_equal(q2.q, s2 * second),
              '{}: input modified', what)
        results.append(r)
        # quaternions_interpolate is the time based form of the same thing.
        for t0, dt in ((0.0, 1.0), (-5.0, 0.25), (100.0, 8.0)):
          qi = Q.quaternions_interpolate(q1, t0, q2, t0 + dt, np.array([t0 + f * dt]))
          check(len(qi) == 1, '{}: {} interpolated results', what, len(qi))
          if not ambiguous:
            check(M.geodesic(M.quat_to_rot(qi[0].q), r) < tol + 1e-9,
                  '{}: time based result differs', what)
        rec.step(6)
        # Normalised linear interpolation.
        lin = (1 - f) * s1 * base + f * s2 * second
        n = np.linalg.norm(lin)
        if n > 1e-6:
          qn = Q.quaternion_nlerp(q1, q2, f)
          check(M.close(qn.q, lin / n, 1e-8 / n), '{}: nlerp {}', what, qn.q.tolist())
          check(abs(qn.norm() - 1) < 1e-9, '{}: nlerp norm', what)
          ql = Q.quaternion_lerp(q1, q2, f)
          check(M.close(ql.q, lin, 1e-12), '{}: lerp {}', what, ql.q.tolist())
          rec.step(2)
    if not ambiguous:
      for r in results[1:]:
        check(M.geodesic(results[0], r) < 2 * tol, 'slerp of {} and {} at {} depends on the signs',
              base.tolist(), second.tolist(), f)
    rec.state(np.round(results[0], 8).tolist(), 7)
  # A whole time grid at once.
  q1, q2 = Quaternion(q=base), Quaternion(q=second)
  times = np.array([10.0 + 2.0 * f for f in fractions])
  keep = times.copy()
  seq = Q.quaternions_interpolate(q1, 10.0, q2, 12.0, times)
  check(len(seq) == len(fractions) and np.array_equal(times, keep), 'interpolated grid')
  for f, q in zip(fractions, seq):
    check(abs(M.geodesic(r1, M.quat_to_rot(q.q)) - f * angle) < tol + 1e-9, 'grid at {}', f)
  rec.step(len(fractions))
  rec.outcome('equal' if angle == 0 else 'nearly equal' if angle < 1e-3 else
              'opposite' if angle == M.PI else 'nearly opposite' if ambiguous or angle > 3.14
              else 'ordinary')
