"""The pose prefilter."""
import itertools

import numpy as np

from mc import model as M
from mc import rig
from mc.core import check
from mc.rig import Pose

from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE

ID = 'C12'
BOUND = {
    'quick': 'all sequences of 1 to 4 pose pairs over 14 pairs (axes just inside and outside '
             'the threshold in one or both streams, pure translations, identities, opposite '
             'axes, both signs) x 3 thresholds; all sequences of length 5 and 6 over 5 pairs; '
             'fixed long sequences',
    'thorough': 'as quick with sequences of length 5 over 9 pairs'}
MIN_OUTCOMES = 4

DEG = np.pi / 180


def rot(deg, angle, t=(0.1, 0.2, 0.3), plane=0):
  """Rotation about an axis `deg` degrees away from a common direction."""
  c, s = np.cos(deg * DEG), np.sin(deg * DEG)
  axis = [(c, s, 0), (c, 0, s)][plane]
  return Pose.aa(axis, angle, t)


ID_ = rig.IDENTITY
A = rot(0, 0.8)
NEAR = rot(16.0, 1.1)      # cos = 0.961 > 0.95
FAR = rot(20.5, 0.5)       # cos = 0.937
FAR2 = rot(36.0, 2.9, plane=1)
UP = Pose.aa((0, 0, 1), 1.0, (0, 1, 0))
SIDE = Pose.aa((0, 1, 0), 2.0, (0, 0, 0))
OPP = rot(180, 0.9)
TX = Pose.aa((1, 0, 0), 0.0, (0.5, 0, 0))
TNEAR = Pose.aa((1, 0, 0), 0.0, (np.cos(0.2), np.sin(0.2), 0))
TY = Pose.aa((1, 0, 0), 0.0, (0, -3, 0))
SMALL = Pose.aa((0, 0, 1), 1e-4, (1e-3, 0, 0))
PAIRS = [
    (A, UP), (NEAR, SIDE), (FAR, rot(90, 1.0)), (UP, A), (SIDE, NEAR), (UP, UP), (ID_, ID_),
    (TX, TY), (OPP, OPP), (FAR2, FAR2), (ID_, A), (SIDE.neg(), UP.neg()), (TNEAR, SMALL),
    (SMALL, ID_)]
PAIRS5 = [0, 1, 2, 5, 6]
PAIRS9 = [0, 1, 2, 4, 5, 6, 7, 9, 11]
THRESHOLDS = [0.95, 0.975, 0.5]


def cases(tier):
  for n in range(1, 5):
    for seq in itertools.product(range(len(PAIRS)), repeat=n):
      yield dict(seq=seq)
  for n in (5, 6):
    for seq in itertools.product(PAIRS5, repeat=n):
      yield dict(seq=seq)
  if tier == 'thorough':
    for seq in itertools.product(PAIRS9, repeat=5):
      yield dict(seq=seq)
  for seed in range(1, 14):
    yield dict(seq=[(i * seed + i * i) % 14 for i in range(16)])


def run(case, rec):
  seq = case['seq']
  for threshold in THRESHOLDS:
    first = [PAIRS[i][0] for i in seq]
    second = [PAIRS[i][1] for i in seq]
    d1, d2 = [p.dq() for p in first], [p.dq() for p in second]
    l1, l2 = list(d1), list(d2)
    keep = [d.dq.copy() for d in d1 + d2]
    what = 'pairs {} threshold {}'.format(list(seq), threshold)
    kept = rig.prefilter(first, second, threshold)
    try:
      out = HE.prefilter_using_screw_axis(d1, d2, threshold)
      o1, o2 = out[0], out[1]
    except Exception as e:
      check(len(kept) < 2, '{}: refused ({}) although {} are distinct', what, e, kept)
      rec.outcome('refused')
      rec.step()
      continue
    check(len(d1) == len(l1) and len(d2) == len(l2) and
          all(a is b for a, b in zip(d1 + d2, l1 + l2)) and
          all(np.array_equal(d.dq, k) for d, k in zip(d1 + d2, keep)), '{}: input modified', what)
    check(len(kept) >= 2, '{}: accepted although only {} are distinct', what, kept)
    check(len(o1) == len(o2), '{}: streams of length {} and {}', what, len(o1), len(o2))
    check(len(o1) == len(kept), '{}: kept {} pairs instead of {}', what, len(o1), kept)
    for k, i in enumerate(kept):
      check(np.array_equal(o1[k].dq, first[i].dq().dq) and np.array_equal(o2[k].dq, second[i].dq().dq),
            '{}: kept pair {} is not input pair {}', what, k, i)
    rec.step(len(seq))
    rec.state((list(seq), threshold, kept))
    rec.outcome('kept all' if len(kept) == len(seq) else 'kept some')
    if any(screw is None for screw in (rig.screw_dir(p) for p in first + second)):
      rec.outcome('with motion-free pair')
