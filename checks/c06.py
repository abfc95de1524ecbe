"""Pairing of two recordings."""
import itertools

import numpy as np

from mc import model as M
from mc.core import check

from hand_eye_calibration.time_alignment import compute_aligned_poses

ID = 'C06'
BOUND = {
    'quick': 'all pairs of time-stamp patterns with up to 3 gaps over {0.03,0.1,0.24} s '
             '(39 x 39) x 14 relative starts/offsets x 2 time origins; all pairs of 14 '
             'longer patterns (rates, dropouts, jitter, up to 40 poses) x 14 offsets x 3 '
             'origins; all pairs of patterns with 2 or 3 gaps over {0,0.03,0.1} s with '
             'repeated stamps x 14 x 2',
    'thorough': 'as quick with up to 4 gaps over {0.03,0.1,0.24,0.12}, also with repeated stamps'}
MIN_OUTCOMES = 5

LIMIT = 0.1
SHIFTS = [(0.0, 0.0), (0.02, 0.0), (-0.02, 0.0), (0.0, 0.05), (0.1, 0.0), (0.3, -0.1),
          (-0.3, 0.15), (50.0, 0.0), (-50.0, 0.0), (7.5, 7.5), (-2.0, -2.03), (0.03, 1e-3),
          (5000.02, 5000.0), (1476028547.0, 1476028547.0)]
# Dyadic variants so that stamps coincide exactly also after shifting.
LONG = [
    [0.0625] * 16, [0.03125] * 32, [0.125] * 8, [0.0625] * 5 + [1.0] + [0.0625] * 6,
    [0.03125] * 7 + [0.5] + [0.03125] * 9 + [0.125] * 2, [0.25] * 5,
    [0.05, 0.07] * 6, [0.1] * 10, [0.02] * 39, [0.0333] * 24,
    [0.05] * 4 + [3.0] + [0.05] * 4, [0.2, 0.01] * 5, [0.09] * 9, [0.11] * 9]
LONG_SHIFTS = [(0.0, 0.0), (0.0, 0.03125), (0.015, 0.0), (-0.4, 0.0), (0.4, 0.0), (0.0, -0.4),
               (2.0, 2.0), (-1.0, 0.25), (0.0, 100.0), (0.1, -0.1), (0.5, 0.5), (-0.25, 0.0),
               (0.0625, 0.0625), (-1476028547.0, -1476028547.0)]
ORIGINS = [0.0, 1476028547.0, -100.0]


def cases(tier):
  gaps = (0.03, 0.1, 0.24) + ((0.12,) if tier == 'thorough' else ())
  top = 4 if tier == 'thorough' else 3
  patterns = [list(p) for n in range(1, top + 1)
              for p in itertools.product(gaps, repeat=n)]
  if tier == 'thorough':
    patterns = [p for p in patterns if len(p) <= 3 or 0.12 not in p]
  for a in patterns:
    for b in patterns:
      yield dict(k='short', a=a, b=b)
  repeated = [list(p) for n in range(2, top + 1)
              for p in itertools.product((0.0, 0.03, 0.1), repeat=n) if any(p)]
  for a in repeated:
    for b in repeated:
      if 0.0 in a + b:
        yield dict(k='short', a=a, b=b)
  for a in range(len(LONG)):
    for b in range(len(LONG)):
      yield dict(k='long', a=a, b=b)


def stamps(origin, gaps):
  t = [origin]
  for g in gaps:
    t.append(t[-1] + g)
  return np.array(t)


def classify(low, high):
  """required, permitted stamps of the slower recording."""
  required, permitted = [], []
  eps = 1e-6 if abs(low[0]) > 1e6 else 1e-9
  for t in low:
    if t < high[0] or t > high[-1]:
      continue
    if t == high[0] or t == high[-1]:
      coincide = True
    else:
      coincide = bool(np.any(high == t))
    nearly = bool(np.any(np.abs(high - t) <= eps))
    left = high[high <= t][-1]
    right = high[high >= t][0]
    dl, dr = t - left, right - t
    inside = dl < LIMIT - eps and dr < LIMIT - eps
    maybe = dl < LIMIT + eps and dr < LIMIT + eps
    tail = t > high[-2] - (eps if not coincide else 0)
    if (coincide or inside) and not tail:
      required.append(float(t))
    if coincide or maybe or nearly:
      permitted.append(float(t))
  return required, permitted


def matches(out_times, low, high):
  required, permitted = classify(low, high)
  if any(b < a for a, b in zip(out_times, out_times[1:])):
    return 'stamps do not increase'
  for t in out_times:
    if out_times.count(t) > max(1, list(low).count(t)):
      return 'stamp {!r} is repeated'.format(t)
  for t in out_times:
    if not any(abs(t - p) <= 1e-12 * max(1.0, abs(p)) for p in permitted):
      return 'stamp {!r} may not be used'.format(t)
  for r in required:
    if not any(abs(t - r) <= 1e-12 * max(1.0, abs(r)) for t in out_times):
      return 'stamp {!r} is missing'.format(r)
  return None


def one(a_gaps, b_gaps, b_start, offset, origin, rec):
  ta = stamps(origin, a_gaps)
  tb = stamps(origin + b_start, b_gaps)
  pa = np.array([M.stream_pose(i, 1) for i in range(len(ta))])
  pb = np.array([M.stream_pose(i + 3, 3) for i in range(len(tb))])
  A = np.hstack((ta.reshape(-1, 1), pa))
  B = np.hstack((tb.reshape(-1, 1), pb))
  ka, kb = A.copy(), B.copy()
  what = 'A gaps {} B gaps {} start {} offset {} origin {}'.format(
      a_gaps, b_gaps, b_start, offset, origin)
  out_a, out_b = compute_aligned_poses(A, B, offset)
  check(np.array_equal(A, ka) and np.array_equal(B, kb), '{}: input modified', what)
  check(out_a.shape == out_b.shape and out_a.shape[1] == 8, '{}: shapes {} {}', what,
        out_a.shape, out_b.shape)
  check(np.array_equal(out_a[:, 0], out_b[:, 0]), '{}: stamps differ', what)
  sa = ta + offset
  times = [float(t) for t in out_a[:, 0]]
  ma, mb = np.median(np.diff(sa)), np.median(np.diff(tb))
  options = []
  if ma >= mb - 1e-6:
    options.append((sa, tb))
  if mb >= ma - 1e-6:
    options.append((tb, sa))
  reasons = [matches(times, low, high) for low, high in options]
  check(None in reasons, '{}: {} (result {})', what, reasons, times)
  for i, t in enumerate(times):
    for name, out, st, poses in (('A', out_a, sa, pa), ('B', out_b, tb, pb)):
      allowed = M.interpolations(st, poses, t)
      fits = [M.close(out[i, 1:4], pos, 1e-8) for pos, _ in allowed]
      check(any(fits), '{}: {} position {} at {!r} instead of {}', what, name,
            out[i, 1:4].tolist(), t, [pos.tolist() for pos, _ in allowed])
      check(any(f and M.geodesic(M.quat_to_rot(out[i, 4:8]), rot) < 1e-8
                for f, (_, rot) in zip(fits, allowed)),
            '{}: {} orientation {} at {!r}', what, name, out[i, 4:8].tolist(), t)
  rec.step(1 + 2 * len(times))
  rec.state((a_gaps, b_gaps, b_start, offset, [round(t - origin, 6) for t in times]))
  n = len(times)
  rec.outcome(('no pair' if n == 0 else 'one pair' if n == 1 else 'all of the slower'
               if n == min(len(ta), len(tb)) else 'some pairs') +
              (', A slower' if ma > mb + 1e-6 else ', B slower' if mb > ma + 1e-6 else
               ', equal rates'))


def run(case, rec):
  if case['k'] == 'short':
    for start, offset in SHIFTS:
      for origin in ORIGINS[:2]:
        one(list(case['a']), list(case['b']), start, offset, origin, rec)
  else:
    for start, offset in LONG_SHIFTS:
      for origin in ORIGINS:
        one(LONG[case['a']], LONG[case['b']], start, offset, origin, rec)
