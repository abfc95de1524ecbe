"""Resampling of pose streams."""
import itertools

import numpy as np

from mc import model as M
from mc.core import check

from hand_eye_calibration import time_alignment as TA
from hand_eye_calibration.quaternion import Quaternion

ID = 'C05'
BOUND = {
    'quick': 'all streams of 2 to 5 poses over 5 time gaps x 5 time origins (including '
             'epoch seconds) x 4 quaternion sign patterns; every sample position of 11 '
             'per gap, in ascending, descending, repeated, single and empty requests; '
             'requests outside on both sides; 7 resampling intervals; all streams of 3 to 5 '
             'poses with repeated stamps over 3 gaps x 3 origins x 4 sign patterns',
    'thorough': 'as quick with streams of up to 6 poses, also with repeated stamps'}
MIN_OUTCOMES = 5

# Dyadic gaps and origins: shifting the origin is exact in floating point, so
# the resampled poses must not change at all (beyond rounding of the result).
GAPS = [0.0625, 0.5, 2.0, 1.0 / 4096, 7.25]
ORIGINS = [0.0, 1476000000.0, -3.5, 8192.125, 1e-3]
FRACTIONS = [0.0, 1.0 / 1024, 0.0625, 0.25, 0.375, 0.5, 0.625, 0.75, 0.9375, 1023.0 / 1024, 1.0]
SCALES = [1.0, 1000.0]


def cases(tier):
  top = 5 if tier == 'thorough' else 4
  for n in range(1, top + 1):
    gaps = GAPS if n <= 3 else GAPS[:4] if n == 4 else GAPS[:3]
    for g in itertools.product(range(len(gaps)), repeat=n):
      for s in range(4):
        yield dict(k='grid', gaps=g, signs=s)
  for g in itertools.product((0, 1, 2), repeat=3):
    for j in range(6):
      yield dict(k='decimal', gaps=g, j=j)
  for n in range(2, top + 1):
    for g in itertools.product(range(3), repeat=n):
      if 0 in g and any(g):
        yield dict(k='repeat', gaps=g)


def build(gaps, origin, signs, scale):
  times = [origin]
  for g in gaps:
    times.append(times[-1] + g)
  poses = [M.stream_pose(i, signs, scale) for i in range(len(times))]
  return np.array(times), np.array(poses)


def request(times, poses, samples, what, rec, extra_tol=0.0):
  """Both resampling functions on one request, compared with the model."""
  stamped = np.hstack((times.reshape(-1, 1), poses))
  keep = stamped.copy()
  samples = np.array(samples, dtype=float)
  ks = samples.copy()
  out = TA.interpolate_poses_from_samples(stamped, samples)
  check(out.shape == (len(samples), 8), '{}: shape {}', what, out.shape)
  quats = [Quaternion(q=p[3:7]) for p in poses]
  qout = TA.resample_quaternions_from_samples(times, quats, samples)
  check(len(qout) == len(samples), '{}: {} quaternions', what, len(qout))
  check(np.array_equal(stamped, keep) and np.array_equal(samples, ks), '{}: input modified', what)
  check(all(np.array_equal(q.q, p[3:7]) for q, p in zip(quats, poses)), '{}: input modified', what)
  scale = max(1.0, np.abs(poses[:, :3]).max())
  for i, s in enumerate(samples):
    pos, rot = M.interpolate(times, poses, float(s))
    check(out[i, 0] == s, '{}: time {} instead of {}', what, out[i, 0], s)
    exact = any(float(s) == t for t in times)
    check(M.close(out[i, 1:4], pos, (1e-12 if exact else 1e-9 + extra_tol) * scale),
          '{}: position {} at {!r} instead of {}', what, out[i, 1:4].tolist(), s, pos.tolist())
    check(abs(np.linalg.norm(out[i, 4:8]) - 1) < 1e-7, '{}: quaternion norm at {!r}', what, s)
    tol = 1e-9 + extra_tol
    check(M.geodesic(M.quat_to_rot(out[i, 4:8]), rot) < tol,
          '{}: orientation {} at {!r}', what, out[i, 4:8].tolist(), s)
    check(M.geodesic(M.quat_to_rot(qout[i].q), rot) < tol,
          '{}: orientation {} at {!r}', what, qout[i].q.tolist(), s)
    rec.step(2)
  return out


def refused(f, what):
  try:
    f()
  except Exception:
    return
  check(False, '{}: accepted', what)


def run(case, rec):
  if case['k'] == 'decimal':
    return decimal(case, rec)
  if case['k'] == 'repeat':
    return repeat(case, rec)
  gaps = [GAPS[g] for g in case['gaps']]
  for scale in SCALES:
    reference = None
    for origin in ORIGINS:
      times, poses = build(gaps, origin, case['signs'], scale)
      what = 'gaps {} origin {!r} signs {}'.format(gaps, origin, case['signs'])
      samples = []
      for i in range(len(gaps)):
        for f in FRACTIONS:
          s = times[i] + f * (times[i + 1] - times[i])
          if f == 1.0:
            s = times[i + 1]
          samples.append(float(s))
      out = request(times, poses, samples, what, rec)
      if origin != 1e-3:
        if reference is None:
          reference = out[:, 1:]
        check(M.close(out[:, 1:], reference, 1e-7 * scale),
              '{}: resampled poses depend on the time origin', what)
      if scale == 1.0:
        request(times, poses, samples[::-1], what + ' descending', rec)
        request(times, poses, sorted(samples + samples)[1:12], what + ' repeated', rec)
        request(times, poses, [], what + ' empty', rec)
        request(times, poses, [samples[len(samples) // 2]], what + ' single', rec)
        request(times, poses, [times[-1]], what + ' last', rec)
        request(times, poses, [times[0]], what + ' first', rec)
        stamped = np.hstack((times.reshape(-1, 1), poses))
        quats = [Quaternion(q=p[3:7]) for p in poses]
        for bad in (times[0] - 1.0, float(np.nextafter(times[0], -1e300)), times[-1] + 0.5,
                    float(np.nextafter(times[-1], 1e300)), times[-1] + 1e6):
          for req in ([bad], [times[0], bad], [bad, times[-1]]):
            req = np.array(req)
            refused(lambda: TA.interpolate_poses_from_samples(stamped, req),
                    '{} at {!r}'.format(what, bad))
            refused(lambda: TA.resample_quaternions_from_samples(times, quats, req),
                    '{} at {!r}'.format(what, bad))
            rec.step(2)
        uniform(times, quats, poses, what, rec)
      rec.state((gaps, out[:, 1:]), 6)
  rec.outcome('%d poses' % (len(gaps) + 1))


def uniform(times, quats, poses, what, rec):
  """Resampling with a fixed interval."""
  span = times[-1] - times[0]
  for dt in (span, span / 2, span / 3.0, span / 7.3, span / 16, span / 10.0, span / 40.6):
    got, samples = TA.resample_quaternions(times, quats, dt)
    samples = np.asarray(samples)
    n = len(samples)
    ratio = span / dt
    allowed = ({int(round(ratio))} if abs(ratio - round(ratio)) < 1e-6 else
               {int(np.floor(ratio)), int(np.ceil(ratio))})
    check(n - 1 in allowed, '{} interval {!r}: {} samples over {}', what, dt, n, span)
    check(len(got) == n, '{} interval {!r}: {} quaternions for {} samples', what, dt, len(got), n)
    eps = 1e-9 * max(1.0, abs(times[0])) if abs(times[0]) > 1e6 else 1e-9
    check(abs(samples[0] - times[0]) == 0 and abs(samples[-1] - times[-1]) == 0,
          '{} interval {!r}: samples from {!r} to {!r}', what, dt, samples[0], samples[-1])
    check(np.all(np.abs(np.diff(samples) - span / (n - 1)) < 1e-6), '{}: not uniform', what)
    for s, q in zip(samples, got):
      rot = M.interpolate(times, poses, float(s))[1]
      check(M.geodesic(M.quat_to_rot(q.q), rot) < 1e-9, '{} interval {!r}: orientation at {!r}',
            what, dt, s)
    rec.step(n)


def decimal(case, rec):
  """Decimal stamps (not exact in binary), long streams, awkward samples."""
  g = [(0.1, 0.033, 1.7)[i] for i in case['gaps']]
  origin = (0.0, 1.5e9, 1476028547.123456, -0.3, 1e5 + 0.1, 12345.678)[case['j']]
  times = [origin]
  for k in range(9):
    times.append(times[-1] + g[k % 3])
  times = np.array(times)
  poses = np.array([M.stream_pose(i, case['j'] % 4) for i in range(10)])
  samples = list(times)
  for i in range(9):
    for f in (0.1, 1 / 3.0, 0.5, 0.99):
      s = times[i] + f * (times[i + 1] - times[i])
      if times[i] <= s <= times[i + 1]:
        samples.append(s)
    samples.append(float(np.nextafter(times[i], 1e300)))
    samples.append(float(np.nextafter(times[i + 1], -1e300)))
  what = 'decimal gaps {} origin {!r}'.format(g, origin)
  out = request(times, poses, sorted(samples), what, rec)
  rec.state((g, origin, out[:, 1:]), 5)
  rec.outcome('decimal')


def repeat(case, rec):
  """Several poses with one time stamp: one of them, as a whole, is the pose at that time."""
  gaps = [(0.0, 0.5, 2.0)[g] for g in case['gaps']]
  for origin, signs in itertools.product(ORIGINS[:3], range(4)):
    times, poses = build(gaps, origin, signs, 1.0)
    samples = sorted({float(times[i] + f * gaps[i]) for i in range(len(gaps))
                      for f in FRACTIONS})
    stamped = np.hstack((times.reshape(-1, 1), poses))
    keep = stamped.copy()
    quats = [Quaternion(q=p[3:7]) for p in poses]
    out = TA.interpolate_poses_from_samples(stamped, np.array(samples))
    rotations = TA.resample_quaternions_from_samples(times, quats, np.array(samples))
    check(len(out) == len(rotations) == len(samples), 'gaps {}: {} poses', gaps, len(out))
    check(np.array_equal(stamped, keep), 'gaps {}: input modified', gaps)
    for s, row, q in zip(samples, out, rotations):
      allowed = M.interpolations(times, poses, s)
      check(any(M.close(row[1:4], pos, 1e-9) and
                M.geodesic(M.quat_to_rot(row[4:8]), rot) < 1e-9 for pos, rot in allowed),
            'gaps {} origin {!r}: {} at {!r} is none of the poses recorded at that time', gaps,
            origin, row.tolist(), s)
      check(any(M.geodesic(M.quat_to_rot(q.q), rot) < 1e-9 for _, rot in allowed),
            'gaps {} origin {!r}: orientation {} at {!r}', gaps, origin, q, s)
      rec.step(2)
    rec.state((gaps, origin, signs))
  rec.outcome('repeated stamps')
