"""Time offset between two recordings."""
import itertools
import math

import numpy as np

from mc import model as M
from mc.core import check

from hand_eye_calibration import time_alignment as TA
from hand_eye_calibration.quaternion import Quaternion

ID = 'C07'
BOUND = {
    'quick': 'all signals over {0,1,3} of length 1-5 and over {-1,0,2} of length 1-4 x 9 '
             'paddings of A x 9 of B (all relative delays and lengths) x 6 time origins '
             'and steps with 4 amplitudes; 9 motion profiles x 10 delays/cuts x 6 mountings in '
             'full, with sign '
             'patterns, rates, directions, origins, jitter, repeated rows and filter settings '
             'cycled; '
             'each also with one recording shifted in time and, but for one filter setting, '
             'with exchanged roles',
    'thorough': 'as quick with signals up to length 7 and every third element of the '
                'product of profiles, delays, mountings, sign patterns and rates'}
MIN_OUTCOMES = 4
ASSUMPTIONS = ['motion profiles have separated bursts that lie inside both recordings']

PADS = [(0, 0), (0, 1), (0, 4), (1, 0), (1, 1), (2, 0), (3, 2), (6, 0), (0, 9)]
GRIDS = [(0.0, 0.0, 1.0), (10.0, 2.5, 0.05), (1476028547.0, 1476028540.0, 0.125),
         (-3.0, 4.0, 0.01), (0.0, 1476028547.0, 64.0), (0.0, 5e-4, 1e-5)]
AMPLITUDES = [1.0, 1e-6, 1.0, 2e5, 0.01, 1.0]


def signal_cases(tier):
  top = 7 if tier == 'thorough' else 5
  for n in range(1, top + 1):
    for s in itertools.product((0, 1, 3), repeat=n):
      if s[0] and s[-1]:
        yield dict(k='signal', s=s)
  for n in range(1, top):
    for s in itertools.product((-1, 0, 2), repeat=n):
      if s[0] and s[-1]:
        yield dict(k='signal', s=s)


def run_signal(case, rec):
  s = [float(e) for e in case['s']]
  for a0, a1 in PADS:
    sa = np.array([0.0] * a0 + s + [0.0] * a1)
    if len(sa) < 2:
      continue
    for b0, b1 in PADS:
      sb = np.array([0.0] * b0 + s + [0.0] * b1)
      for (oa, ob, dt), scale in zip(GRIDS, AMPLITUDES):
        ta = oa + dt * np.arange(len(sa))
        tb = ob + dt * np.arange(len(sb))
        true = (ob + b0 * dt) - (oa + a0 * dt)
        if (a0 + b0) % 3 == 0:
          got = TA.calculate_time_offset_from_signals(ta, list(scale * sa), tb,
                                                      list(scale * sb))
        else:
          got = TA.calculate_time_offset_from_signals(ta, scale * sa, tb, scale * sb)
        check(abs(float(got) - true) < 1e-5 * dt + (4e-6 if max(oa, ob) > 1e6 else 0),
              'signal {} padded {} {} origins {} {} step {}: offset {!r} instead of {!r}',
              case['s'], (a0, a1), (b0, b1), oa, ob, dt, got, true)
        rec.step()
      rec.state((len(sa), len(sb), a0 - b0, tuple(case['s'])))
  rec.outcome('signal')


# ---------------------------------------------------------------------------
# Motion profiles: list of (centre time, width, total angle, axis) bursts.
Z, X, Y, G = (0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 2, 3)
PROFILES = [
    [(3.0, 0.5, 1.2, Z), (6.5, 0.4, 0.9, X), (8.0, 0.6, 1.5, Y)],
    [(2.5, 0.3, 0.6, X), (3.6, 0.3, -0.6, X), (7.4, 0.8, 2.0, G)],
    [(4.0, 0.5, 2.5, Z), (6.0, 0.5, 2.5, Z), (9.0, 0.3, 1.0, Z)],
    [(3.2, 0.7, -1.5, Y), (5.5, 0.4, 1.1, Z), (8.8, 0.5, -0.8, X)],
    [(5.0, 0.6, 1.4, G)],
    [(2.5, 0.4, 0.7, X), (4.1, 0.4, 0.9, Y), (5.2, 0.4, -1.1, Z), (7.9, 0.4, 0.8, G),
     (9.2, 0.4, 0.5, X)],
    [(3.0, 0.5, -2.8, X), (7.0, 0.5, 2.8, X), (8.6, 0.5, -1.0, Y)],
    [(3.3, 0.5, -1.2, Z), (6.1, 0.7, -2.0, Z), (9.1, 0.4, -0.7, Z)],
    [(3.1, 0.5, 8e-4, Y), (6.2, 0.4, -5e-4, G), (7.7, 0.6, 1e-3, X)],
]
DURATION = 11.5


def smooth(u):
  """0 before -1, 1 after 1, smooth monotone in between."""
  if u <= -1:
    return 0.0
  if u >= 1:
    return 1.0
  return 0.5 + 0.5 * u + math.sin(math.pi * u) / (2 * math.pi)


def orientation(profile, t, direction):
  q = np.array([0, 0, 0, 1.0])
  for c, w, a, axis in profile:
    ang = direction * a * smooth((t - c) / (2 * w))
    q = M.qmul(q, M.axis_angle_quat(axis, ang))
  return q


# delay, start of A, end of A, start of B, end of B (motion time)
DELAYS = [(0.0, 0, 11.5, 0, 11.5), (0.35, 0, 11.5, 0, 11.5), (-0.6, 0, 11.5, 0, 11.5),
          (2.7, 0, 11.5, 0, 11.5), (-4.1, 0.5, 11.5, 0, 11.0), (0.123, 0.7, 11.2, 0, 11.5),
          (1.0, 0, 11.5, 0.9, 11.3), (1000.3, 0, 11.5, 0.2, 11.5), (0.05, -4.0, 11.5, 0, 15.0),
          (1476028547.3, 0, 11.5, 0, 11.5)]
MOUNTS = [((0, 0, 1), 0.0), ((0, 0, 1), M.PI / 2), ((1, 0, 0), M.PI), ((1, 2, 3), 2.2),
          ((-1, 1, 0), 3.1), ((1, 1, 1), -2 * M.PI / 3)]
WORLDS = [((0, 0, 1), 0.0), ((1, 0, 0), M.PI), ((-3, 1, 2), 2.9)]
SIGNS = ['pos', 'neg', 'alternate', 'half', 'thirds', 'canonical']
RATES = [(0.05, 0.05), (0.05, 0.04), (0.04, 0.05), (0.02, 0.05), (0.05, 0.02), (0.03, 0.03)]
ORIGINS = [0.0, 1476028547.0, -50.0, 12.34]
FILTERS = [(25, 99.5, 25, 99.0), (25, 99.5, 25, 99.0), (15, 99.0, 15, 99.0), (9, 100.0, 25, 100.0)]
JITTER = [0.0, 0.0, 0.3]
REPEAT = [0, 10, 0]  # Every how many rows one is recorded twice.


def sign_pattern(name, q, i, n):
  if name == 'neg':
    return -q
  if name == 'alternate' and i % 2:
    return -q
  if name == 'half' and i > n // 2:
    return -q
  if name == 'thirds' and (i // 7) % 3 == 1:
    return -q
  if name == 'canonical' and q[3] < 0:
    return -q
  return q


def record(profile, start, end, dt, direction, left, right, sign, delay, origin, jitter, repeat):
  n = int(round((end - start) / dt)) + 1
  times, quats = [], []
  for i in range(n):
    t = start + i * dt + (jitter * dt * (((i * 7919) % 13) / 13.0 - 0.5) if 0 < i < n - 1 else 0)
    q = orientation(profile, t, direction)
    q = M.qmul(left, M.qmul(q, right))
    quats.append(Quaternion(q=sign_pattern(sign, q, i, n)))
    times.append(origin + t + delay)
    if repeat and i % repeat == repeat // 2:
      quats.append(Quaternion(q=quats[-1].q.copy()))
      times.append(times[-1])
  return np.array(times), quats


def motion_cases(tier):
  if tier == 'thorough':
    i = 0
    for p, d, m, s, r in itertools.product(range(len(PROFILES)), range(len(DELAYS)),
                                           range(len(MOUNTS)), range(len(SIGNS)),
                                           range(len(RATES))):
      i += 1
      if (p + d + m + s + r) % 3 == 0:
        yield dict(k='motion', p=p, d=d, m=m, s=s, s2=(s + i) % 6, r=r, w=i % 3,
                   dir=1 - 2 * (i % 2), o=i % 4, f=i % 4, j=(i // 2) % 3)
    return
  # Profile x delay x mounting in full, the other parameters in modular cycles.
  for p, d, m in itertools.product(range(len(PROFILES)), range(len(DELAYS)), range(len(MOUNTS))):
    s = (p + d + m) % 6
    yield dict(k='motion', p=p, d=d, m=m, s=s, s2=(p + 2 * d + 3 * m + 1) % 6,
               r=(p + 2 * d + m) % 6, w=(p + m) % 3, dir=1 - 2 * ((p + d + m) // 2 % 2),
               o=(d + m) % 4, f=(p + d) % 4, j=(d + m + p) % 3)


def run_motion(case, rec):
  profile = PROFILES[case['p']]
  delay, a0, a1, b0, b1 = DELAYS[case['d']]
  dta, dtb = RATES[case['r']]
  mount = M.axis_angle_quat(*MOUNTS[case['m']])
  world = M.axis_angle_quat(*WORLDS[case['w']])
  one = np.array([0, 0, 0, 1.0])
  o = ORIGINS[case['o']]
  j = JITTER[case['j']]
  n = REPEAT[case['j']]
  ta, qa = record(profile, a0, a1, dta, case['dir'], one, one, SIGNS[case['s']], 0.0, o, j,
                  n)
  tb, qb = record(profile, b0, b1, dtb, case['dir'], world, mount, SIGNS[case['s2']], delay, o, j,
                  n)
  cfg = TA.FilteringConfig()
  (cfg.smoothing_kernel_size_A, cfg.clipping_percentile_A, cfg.smoothing_kernel_size_B,
   cfg.clipping_percentile_B) = FILTERS[case['f']]
  kta, ktb = ta.copy(), tb.copy()
  kqa = [q.q.copy() for q in qa]
  got = float(TA.calculate_time_offset(ta, qa, tb, qb, cfg))
  limit = 2 * max(dta, dtb)
  check(abs(got - delay) <= limit, 'motion {}: offset {!r} instead of {!r}', case, got, delay)
  check(np.array_equal(ta, kta) and np.array_equal(tb, ktb) and
        all(np.array_equal(q.q, k) for q, k in zip(qa, kqa)), 'motion {}: input modified', case)
  # Shifting the stamps of one recording shifts the estimate by as much.
  shift = (2.0, -0.5, 64.0, -1024.0)[(case['p'] + case['d']) % 4]
  if case['m'] % 2:
    moved = float(TA.calculate_time_offset(ta + shift, qa, tb, qb, cfg))
    expected = got - shift
  else:
    moved = float(TA.calculate_time_offset(ta, qa, tb + shift, qb, cfg))
    expected = got + shift
  check(abs(moved - expected) < 1e-4, 'motion {}: shift {} moved the offset from {!r} to {!r}',
        case, shift, got, moved)
  back = float(TA.calculate_time_offset(tb, qb, ta, qa, cfg)) if case['f'] != 3 else -delay
  check(abs(back + delay) <= limit, 'motion {}: exchanged offset {!r} instead of {!r}', case, back,
        -delay)
  rec.step(3)
  rec.state((case['p'], round(got, 6), case['r']))
  rec.outcome('motion rates %s' % ('equal' if dta == dtb else 'different'))
  rec.outcome('motion repeated rows' if n else 'motion single rows')
  rec.outcome('motion direction %d' % case['dir'])


def cases(tier):
  for c in motion_cases(tier):
    yield c
  for c in signal_cases(tier):
    yield c


def run(case, rec):
  (run_motion if case['k'] == 'motion' else run_signal)(case, rec)
