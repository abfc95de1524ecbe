"""Evaluation of a hand-eye transform on paired and raw trajectories."""
import itertools
import math

import numpy as np

from checks import c06
from mc import model as M
from mc import rig
from mc import search
from mc.core import check

from hand_eye_calibration import calibration_verification as CV
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE

ID = 'C16'
BOUND = {
    'quick': 'all patterns of 24 (position, angle) errors below/near/above 3 threshold pairs on '
             '1-2 poses and of 6 errors on 3-4 poses; single poses with errors equal to a '
             'threshold or one digit beside it; all 2^8 quaternion sign patterns of 4 '
             'paired poses x 5 transforms x 2 frames x 3 transform errors; raw recordings: 5 '
             'rate layouts x 9 offsets x 4 error placements x wrong and right transforms, and 49 offsets '
             'sliding the recordings past each other x 2 error placements',
    'thorough': 'as quick with 24 errors on 3 poses and 6 errors on 5 poses'}
MIN_OUTCOMES = 5

THRESHOLDS = [(0.02, 1.0), (0.5, 0.1), (0.003, 25.0)]
POS = [0.0, 0.4, 0.999, 1.001, 3.0, 40.0]
ANG = [0.0, 0.6, 0.999, 1.001]
ERRORS = list(itertools.product(POS, ANG))
FEW = [(0.0, 0.0), (0.5, 0.5), (2.0, 0.5), (0.5, 2.0), (1.5, 1.5), (0.999, 0.999)]
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (-1, 2, 0.5)]


def cases(tier):
  for th in range(len(THRESHOLDS)):
    for n in (1, 2) + ((3,) if tier == 'thorough' else ()):
      for first in range(len(ERRORS)):
        yield dict(k='pattern', th=th, n=n, first=first, few=False)
    for n in (3, 4) + ((5,) if tier == 'thorough' else ()):
      for first in range(len(FEW)):
        yield dict(k='pattern', th=th, n=n, first=first, few=True)
    yield dict(k='large', th=th)
  for axis in range(3):
    yield dict(k='edge', axis=axis)
  for x in range(5):
    for w in range(2):
      for wrong in range(3):
        for g in range(4):
          yield dict(k='signs', x=x, w=w, wrong=wrong, g=g)
  for layout in range(5):
    for x in range(5):
      for wrong in range(3):
        yield dict(k='recording', layout=layout, x=x, w=x % 2, wrong=wrong)


def config(th):
  c = HE.HandEyeConfig()
  c.ransac_position_error_threshold_m, c.ransac_orientation_error_threshold_deg = th
  return c


def compare(out, pos, rot, th, what):
  rp, ro, flags = out
  check(abs(rp - rig.rmse(pos)) < 1e-7 * max(1, rp), '{}: position RMSE {} instead of {}', what,
        rp, rig.rmse(pos))
  check(abs(ro - rig.rmse(rot)) < 1e-5, '{}: orientation RMSE {} instead of {}', what, ro,
        rig.rmse(rot))
  check(len(flags) == len(pos), '{}: {} flags for {} poses', what, len(flags), len(pos))
  for i, (p, r) in enumerate(zip(pos, rot)):
    if abs(p - th[0]) < 1e-7 or abs(r - th[1]) < 1e-5:
      continue
    check(bool(flags[i]) == (p < th[0] and r < th[1]),
          '{}: pose {} with errors {} m {} deg flagged {}', what, i, p, r, flags[i])


def pattern(errors, th, rec, salt=0):
  """evaluate_alignment of poses with the given (position, angle) errors."""
  a, b = [], []
  for i, (p, r) in enumerate(errors):
    base = (rig.HAND[(i + salt) % 8] if (i + salt) % 5 else rig.IDENTITY)
    axis = AXES[(i + salt) % len(AXES)]
    d = np.asarray(AXES[(i * 2 + salt) % len(AXES)], float)
    d = d / np.linalg.norm(d)
    other = rig.Pose((base * rig.Pose.aa(axis, math.radians(r), (0, 0, 0))).q, base.t + p * d)
    if (i + salt) % 2:
      other = other.neg()
    if (i + salt) % 3 == 1:
      base = base.neg()
    a.append(np.hstack((base.t, base.q)))
    b.append(np.hstack((other.t, other.q)))
  a, b = np.array(a), np.array(b)
  ka, kb = a.copy(), b.copy()
  what = 'errors {} thresholds {}'.format(errors, th)
  pos, rot = [e[0] for e in errors], [e[1] for e in errors]
  compare(HE.evaluate_alignment(a, b, config(th)), pos, rot, th, what)
  check(np.array_equal(a, ka) and np.array_equal(b, kb), '{}: poses modified', what)
  swapped = HE.evaluate_alignment(b, a, config(th))
  compare(swapped, pos, rot, th, what + ' swapped')
  rec.step(2)
  k = sum(1 for p, r in errors if p < th[0] and r < th[1])
  rec.outcome('pattern: ' + ('all inliers' if k == len(errors) else 'no inlier' if k == 0
                             else 'some inliers'))


def run(case, rec):
  if case['k'] == 'pattern':
    th = THRESHOLDS[case['th']]
    alphabet = FEW if case['few'] else ERRORS
    for rest in itertools.product(alphabet, repeat=case['n'] - 1):
      rel = [alphabet[case['first']]] + list(rest)
      errors = [(p * th[0], r * th[1]) for p, r in rel]
      pattern(errors, th, rec, case['first'])
      rec.state((case['th'], rel))
  elif case['k'] == 'large':
    th = THRESHOLDS[case['th']]
    values = [(0.0, 0.0), (1e-6, 1e-4), (5.0, 90.0), (100.0, 179.0), (0.1, 180.0), (2.0, 45.0)]
    for errors in itertools.product(values, repeat=3):
      pattern(list(errors), th, rec)
      rec.state((case['th'], errors))
  elif case['k'] == 'edge':
    edge(case, rec)
  elif case['k'] == 'signs':
    signs(case, rec)
  else:
    recording(case, rec)


def edge(case, rec):
  """Errors that equal a threshold exactly, or miss it by the last digit, are not rounded."""
  unit = np.eye(3)[case['axis']]
  turns = [(0.0, [0, 0, 0, 1.0]), (180.0, list(unit) + [0.0])]
  for base, sign, p, (angle, q), qs in itertools.product(
      (0.0, 1.5, -4.0), (1, -1), (0.0, 0.25, 0.5, 2.0), turns, (1, -1)):
    a = np.array([np.hstack((base * unit, [0, 0, 0, 1.0]))])
    b = np.array([np.hstack((base * unit + sign * p * unit, qs * np.array(q)))])
    for tp in (p, np.nextafter(p, 10.0), np.nextafter(p, -10.0), 4.0):
      for ta in (angle, angle + 1.0):
        what = 'errors {} m {} deg thresholds {} {}'.format(p, angle, tp, ta)
        flags = HE.evaluate_alignment(a, b, config((tp, ta)))[2]
        check([bool(f) for f in flags] == [p < tp and angle < ta], '{}: flagged {}', what, flags)
        rec.step()
        rec.state((case['axis'], base, sign, p, angle, qs, tp, ta))
        rec.outcome('edge: ' + ('inlier' if flags[0] else 'equal to a threshold'
                                if p == tp or angle == ta else 'above'))


def wrong_x(x, wrong):
  return [x, x * rig.Pose.aa((0, 1, 0.5), 0.02, (0.01, 0, -0.01)),
          x * rig.Pose.aa((1, -1, 0.5), 2.9, (0.5, 0.2, -0.3))][wrong]


def signs(case, rec):
  x, w = rig.HAND_EYES[case['x']], rig.BASE_WORLDS[case['w']]
  est = wrong_x(x, case['wrong'])
  th = THRESHOLDS[0]
  # Second half of the sign patterns carries a disturbed eye pose.
  for bits in range(256):
    hand, eyes = search.data(4, x, w, (), 0, case['g'])
    if bits % 3 == 2:
      eyes[2] = eyes[2] * rig.Pose.aa((0, 0, 1), 0.3, (0.05, 0, 0))
    hand = [p.neg() if bits >> i & 1 else p for i, p in enumerate(hand)]
    eyes = [p.neg() if bits >> (4 + i) & 1 else p for i, p in enumerate(eyes)]
    pos, rot = rig.evaluate(hand, eyes, est)
    what = 'transform {} wrong {} frame {} path {} signs {:08b}'.format(
        case['x'], case['wrong'], case['w'], case['g'], bits)
    dh = [p.dq() for p in hand]
    de = [p.dq() for p in eyes]
    dx = (est.neg() if bits % 2 else est).dq()
    sh, se, sx = search.snapshot(dh), search.snapshot(de), search.snapshot([dx])
    # Variant: eye poses relative to their first pose or in the world frame.
    ah = HE.align_paths_at_index(dh, 0, enforce_positive_q_rot_w=bool(bits & 2))
    ae = HE.align_paths_at_index(de, 0) if bits & 4 else de
    pa, pb = HE.get_aligned_poses(ah, ae, dx)
    check(pa.shape == (4, 7) and pb.shape == (4, 7), '{}: shapes {} {}', what, pa.shape, pb.shape)
    compare(HE.evaluate_alignment(pa, pb, config(th)), pos, rot, th, what)
    for i in range(4):
      ref = M.inv(hand[0].mat).dot(hand[i].mat)
      check(M.close(M.T_pose(pa[i]), ref, 1e-9), '{}: hand pose {}', what, i)
    check(search.unchanged(dh, sh) and search.unchanged(de, se) and search.unchanged([dx], sx),
          '{}: input modified', what)
    rec.step(3)
    rec.state((case['x'], case['w'], case['wrong'], case['g'], bits))
    rec.outcome('signs: ' + ('perfect' if max(pos) < 1e-9 else 'disturbed'))
    if case['wrong'] == 0 and bits % 3 != 2:
      check(max(pos) < 1e-9, 'harness: reference errors {}', pos)


# (step of A, number of A poses, step of B, number of B poses)
LAYOUTS = [(0.0625, 8, 0.0625, 8), (0.0625, 8, 0.125, 5), (0.125, 5, 0.0625, 9),
           (0.0625, 8, 0.09, 6), (0.08, 7, 0.03125, 20)]
OFFSETS = [0.0, 0.0625, -0.125, 0.25, 5.0, -7.25, 0.03, 1000.0, -1000.0]


# Offsets that slide the recordings past each other, from no over one to all common poses.
SLIDES = [k * 0.03125 for k in range(-24, 25)]


def recording(case, rec):
  x, w = rig.HAND_EYES[case['x']], rig.BASE_WORLDS[case['w']]
  est = wrong_x(x, case['wrong'])
  da, na, db, nb = LAYOUTS[case['layout']]
  th = (0.02, 1.0)
  runs = [(o, o if abs(o) < 500 else 0.0, bad, clock, far) for o in OFFSETS
          for bad in (None, 0, 2, 4) for clock in (0.0, 10.0) for far in (0.0, 300.0)]
  runs += [(s, 0.0, bad, clock, 0.0) for s in SLIDES for bad in (None, 1) for clock in (0.0, 10.0)]
  for offset, shift, bad, clock, far in runs:
    # B runs on another clock: stamp B = stamp A + offset.
    ta = clock + da * np.arange(na)
    tb = clock + far + shift + db * np.arange(nb)
    pa = [rig.HAND[i % 8] * (rig.HAND[3] if i >= 8 else rig.IDENTITY) for i in range(na)]
    tk = ta + shift
    pb = []
    for j in range(nb):
      if tk[0] <= tb[j] <= tk[-1]:
        p, r = M.interpolate(tk, np.array([np.hstack((q.t, q.q)) for q in pa]), tb[j])
        h = M.T(r, p)
      else:
        h = rig.HAND[j % 8].mat
      m = M.inv(w.mat).dot(h).dot(x.mat)
      if j == bad:
        m = m.dot(M.T(M.rodrigues((0, 0, 1), 0.2), (0.1, 0, 0)))
      pb.append(m)
    A = np.array([np.hstack((t, q.t, q.q)) for t, q in zip(ta, pa)])
    B = np.array([np.hstack((t, m[:3, 3], M.rot_to_quat(m[:3, :3])))
                  for t, m in zip(tb, pb)])
    B[::3, 4:8] *= -1
    ka, kb = A.copy(), B.copy()
    dx = est.dq()
    what = 'recording {} offset {} clock {} far {} disturbed {}'.format(
        case, offset, clock, far, bad)
    (rp, ro), count = CV.evaluate_calibration(A, B, dx, offset, config(th))
    check(np.array_equal(A, ka) and np.array_equal(B, kb) and
          search.unchanged([dx], [est.dq().dq]), '{}: input modified', what)
    sa = ta + offset
    low, high = (sa, tb) if da >= db else (tb, sa)
    required, permitted = c06.classify(low, high)
    extra = [t for t in permitted if t not in required]
    fits = []
    for k in range(len(extra) + 1):
      for more in itertools.combinations(extra, k):
        times = sorted(required + list(more))
        fits.append(expected(times, sa, A, tb, B, est, th))
    check(any(agree((rp, ro), count, e) for e in fits), '{}: {} {} instead of {}', what,
          (rp, ro), count, fits)
    if not permitted:
      check(math.isinf(rp) and math.isinf(ro) and count == 0, '{}: {} {} {}', what, rp, ro,
            count)
    rec.step()
    rec.state((case['layout'], case['x'], case['wrong'], offset, bad, clock, far, rp, ro), 6)
    rec.outcome('recording: ' + ('no common poses' if math.isinf(rp) else
                                 'single common pose' if rp < 1e-12 and count == 1 else
                                 'perfect' if rp < 1e-7 else 'errors'))


def expected(times, sa, A, tb, B, est, th):
  if not times:
    return float('inf'), float('inf'), 0, 0
  hand, eyes = [], []
  for t in times:
    for st, rows, out in ((sa, A, hand), (tb, B, eyes)):
      p, r = M.interpolate(st, rows[:, 1:], t)
      out.append(rig.Pose(M.rot_to_quat(r), p))
  pos, rot = rig.evaluate(hand, eyes, est)
  sure = sum(1 for p, r in zip(pos, rot) if p < th[0] - 1e-7 and r < th[1] - 1e-5)
  maybe = sum(1 for p, r in zip(pos, rot) if p < th[0] + 1e-7 and r < th[1] + 1e-5)
  return rig.rmse(pos), rig.rmse(rot), sure, maybe


def agree(rmse, count, e):
  if math.isinf(e[0]):
    return math.isinf(rmse[0]) and math.isinf(rmse[1]) and count == 0
  return abs(rmse[0] - e[0]) < 1e-6 and abs(rmse[1] - e[1]) < 1e-4 and e[2] <= count <= e[3]
