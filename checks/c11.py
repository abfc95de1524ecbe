"""The hand-eye solver."""
import itertools

import numpy as np

from mc import model as M
from mc import rig
from mc.core import check
from mc.rig import Pose

from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE

ID = 'C11'
BOUND = {
    'quick': 'all sets of 2, 3 and 4 motions over 13 motions (rotations of 0.2 to 3 rad '
             'with and without translation, plus consistent extras: pure translation, '
             'identity, repeat) spanning two axes x 41 hand-eye transforms (identity, pure '
             'rotation, pure translation, half turns, mm to km); all sign patterns and orders '
             'for 3-sets x 8 transforms; all single inconsistent pairs over 12 sizes',
    'thorough': 'as quick with all sign patterns and orders for all 41 transforms'}
MIN_OUTCOMES = 5
ASSUMPTIONS = ['relative rotations stay below 3 rad; half-turn hand-eye rotations are '
               'exercised with motions that span three axes']

MOTIONS = [
    ((1, 0, 0), 0.9, (0.1, 0.2, 0.3)), ((0, 1, 0), 1.2, (-0.3, 0.1, 0)), ((0, 0, 1), 0.7, (0, 0, 0)),
    ((1, 1, 0), 2.5, (0.5, -0.5, 0.2)), ((1, 2, 3), 0.4, (1, 1, 1)), ((-1, 0, 2), 3.0, (0, 0, 0.7)),
    ((0, -1, 0), 0.25, (0.02, 0, 0.01)), ((-3, 1, 2), 1.7, (5, -3, 2)), ((0, 1, 1), M.PI / 2, (0, 0, 0)),
    ((0, 0, -1), 2.0, (0.2, 0.1, -0.4))]
EXTRAS = [((1, 0, 0), 0.0, (0.4, 0, 0)), ((1, 0, 0), 0.0, (0, 0, 0)), ((1, 0, 0), 0.9, (0.1, 0.2, 0.3))]
ALL = MOTIONS + EXTRAS

ROTS = [((0, 0, 1), 0.0), ((1, 0, 0), M.PI / 2), ((0, 0, 1), -M.PI / 2), ((1, 1, 1), 2 * M.PI / 3),
        ((1, 2, 3), 0.7), ((-1, 1, 2), 2.6), ((0.2, -0.9, 0.4), 1e-4), ((1, 2, -1), 3.1)]
HALF = [((1, 0, 0), M.PI), ((0, 1, 1), M.PI), ((1, 2, 3), M.PI)]
TRANS = [(0, 0, 0), (0.1, -0.2, 0.3), (0, 0, 1), (20.0, -5.0, 7.0)]
XS = [Pose.aa(a, g, t) for a, g in ROTS for t in TRANS] + [
    Pose.aa((1, 2, 3), 0.7, (1e-3, 0, 0)), Pose.aa((0, 1, 0), 1.0, (1e-6, -1e-6, 0)),
    Pose.aa((1, 0, 0), M.PI / 2, (500, 0, -300))]
XS += [Pose.aa(a, g, t) for a, g in HALF for t in TRANS[:2]]
N_HALF = len(HALF) * 2


def motions(idx):
  return [Pose.aa(*ALL[i]) for i in idx]


def spans(idx, need):
  axes = [np.array(ALL[i][0], float) / np.linalg.norm(ALL[i][0]) for i in idx
          if abs(np.sin(ALL[i][1] / 2)) > 0.05]
  if need == 2:
    return any(np.linalg.norm(np.cross(a, b)) > 0.4 for a, b in itertools.combinations(axes, 2))
  return any(abs(np.dot(np.cross(a, b), c)) > 0.2 for a, b, c in itertools.combinations(axes, 3))


def cases(tier):
  for n in (2, 3, 4):
    for idx in itertools.combinations(range(len(ALL)), n):
      if spans(idx, 2):
        yield dict(k='set', idx=idx)
  for idx in itertools.combinations(range(len(ALL)), 3):
    if spans(idx, 2):
      yield dict(k='orders', idx=idx, xs=list(range(len(XS))) if tier == 'thorough'
                 else [0, 4, 12, 17, 20, 33, 34, 36])
  for a in range(len(MOTIONS)):
    yield dict(k='refuse', a=a)


def solve(hand, x, signs_h=None, signs_e=None, tol=None, first=True):
  hs = [rig.IDENTITY] + hand
  es = [rig.IDENTITY] + [x.inv() * h * x for h in hand]
  if signs_h:
    hs = [hs[0]] + [h.neg() if s < 0 else h for h, s in zip(hs[1:], signs_h)]
    es = [es[0]] + [e.neg() if s < 0 else e for e, s in zip(es[1:], signs_e)]
  dh, de = [p.dq() for p in hs], [p.dq() for p in es]
  kh, ke = [d.dq.copy() for d in dh], [d.dq.copy() for d in de]
  if tol is None:
    out = HE.compute_hand_eye_calibration(dh, de)
  else:
    out = HE.compute_hand_eye_calibration(dh, de, tol)
  # A sign flip is allowed, anything else is a corrupted input.
  for d, k in zip(dh + de, kh + ke):
    check(np.array_equal(d.dq, k) or np.array_equal(d.dq, -k), 'input motion modified')
  return out


def good(out, x, what, tol=1e-6):
  dq = out[0]
  check(np.isfinite(dq.dq).all(), '{}: {}', what, dq.dq.tolist())
  check(rig.unit_positive(dq), '{}: result {} is not a unit, positive dual quaternion', what, dq.dq.tolist())
  check(rig.same_transform(dq, x, tol), '{}: {} instead of {}', what, dq.copy().to_pose().tolist(),
        (x.t.tolist(), x.q.tolist()))


def run(case, rec):
  if case['k'] == 'set':
    idx = case['idx']
    three = spans(idx, 3)
    for i, x in enumerate(XS):
      half = i >= len(XS) - N_HALF
      if half and not three:
        continue
      signs = [(1,) * len(idx), (-1,) * len(idx), tuple(1 - 2 * (k % 2) for k in range(len(idx)))]
      sh = signs[(sum(idx) + i) % 3]
      se = signs[(sum(idx) + 2 * i) % 3]
      if i % 2:
        sh = se = None
      tol = (None, 4e-2, 1e-2, 1e-3)[i % 4]
      out = solve(motions(idx), x, sh, se, tol)
      good(out, x, 'motions {} hand-eye {}'.format(idx, i))
      rec.step()
      rec.state((idx, out[0].dq), 5)
    rec.outcome('%d motions%s' % (len(idx), ', three axes' if three else ''))
  elif case['k'] == 'orders':
    idx = case['idx']
    three = spans(idx, 3)
    for i in case['xs']:
      x = XS[i]
      if i >= len(XS) - N_HALF and not three:
        continue
      for order in itertools.permutations(idx):
        good(solve(motions(order), x), x, 'order {} hand-eye {}'.format(order, i))
        rec.step()
      for sh in itertools.product((1, -1), repeat=3):
        for se in itertools.product((1, -1), repeat=3):
          good(solve(motions(idx), x, sh, se), x, 'motions {} signs {} {} hand-eye {}'.format(
              idx, sh, se, i))
          rec.step()
      # Repeats and additional consistent motions.
      for extra in ((10,), (11,), (idx[0],), (idx[2], idx[2]), (0, 1), (11, 10, 3, 4, 5)):
        for where in (0, len(idx)):
          more = list(idx[:where]) + list(extra) + list(idx[where:])
          good(solve(motions(more), x), x, 'motions {} hand-eye {}'.format(more, i))
          rec.step()
      rec.state((idx, i))
    rec.outcome('orders and signs')
  else:
    refuse(case, rec)


def refuse(case, rec):
  """One inconsistent pair: angle or pitch of the eye motion is off."""
  x = XS[1]
  others = [i for i in range(len(MOTIONS)) if i != case['a']]
  for tol in (1e-2, 4e-2, 1e-3):
    for n in (2, 3, 4):
      idx = others[:n - 1]
      for pos in range(n):
        seq = idx[:pos] + [case['a']] + idx[pos:]
        hand = motions(seq)
        base = ALL[case['a']]
        for kind in ('angle', 'pitch'):
          for size in (0.3, 1.5, -1.5, 5.0, -5.0):
            bad = inconsistent(base, kind, size * tol)
            if bad is None:
              continue
            es = [x.inv() * (bad if k == pos else h) * x for k, h in enumerate(hand)]
            for flip in (False, True):
              dh = [rig.IDENTITY.dq()] + [h.dq() for h in hand]
              de = [rig.IDENTITY.dq()] + [(e.neg() if flip else e).dq() for e in es]
              what = 'motions {} with {} of pair {} off by {} (tolerance {})'.format(
                  seq, kind, pos, size * tol, tol)
              try:
                HE.compute_hand_eye_calibration(dh, de, tol)
                refused = False
              except Exception:
                refused = True
              if abs(size) > 1:
                check(refused, '{}: accepted', what)
              elif tol <= 1e-3:
                check(not refused, '{}: refused', what)
              rec.step()
            rec.state((seq, pos, kind, size, tol))
  rec.outcome('inconsistent pairs')


def inconsistent(base, kind, delta):
  """The motion `base` with its scalar part changed by delta."""
  axis, angle, t = base
  p = Pose.aa(axis, angle, t)
  if kind == 'angle':
    c = np.cos(angle / 2) + delta
    if not 0.02 < c < 0.999:
      return None
    q = Pose.aa(axis, 2 * np.arccos(c), t)
    # Keep the dual scalar part: adjust the translation along the axis.
    a = np.array(axis, float) / np.linalg.norm(axis)
    want = p.scalars()[1]
    d = -2 * want / np.sin(np.arccos(c))
    return Pose(q.q, np.array(t) + (d - np.dot(t, a)) * a)
  a = np.array(axis, float) / np.linalg.norm(axis)
  return Pose(p.q, np.array(t) + a * (-2 * delta / np.sin(angle / 2)))
