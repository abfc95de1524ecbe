"""CSV files of poses and arrays."""
import itertools
import os

import numpy as np

from mc import core
from mc import model as M
from mc.core import check

from hand_eye_calibration import bash_utils
from hand_eye_calibration import csv_io

ID = 'C08'
BOUND = {
    'quick': 'all single rows over 6 stamps x 8 positions x 60 orientations (both signs, '
             'unnormalised) x both quaternion conventions; all tables of 2 and 3 rows over '
             '9 rows and of 1 to 40 rows; all write/read histories of length <= 4 over two '
             'files and three tables; all arrays up to 3 x 4 over 7 values per position '
             'pattern',
    'thorough': 'as quick with 3-row tables over 14 rows and histories of length <= 5'}
MIN_OUTCOMES = 4

STAMPS = [0.0, 1476028547.123456, -1.5, 1e-9, float(np.nextafter(1476028547.25, 2e9)), 1234.000001]
POSITIONS = [(0, 0, 0), (1e-12, -1e-15, 1e-17), (-2e3, 0.1, 123456.789), (np.pi, -np.e, 1 / 3.),
             (1, 2, 3), (-0.0, 1e-6, 5e8), (0.1 + 0.2, -0.3, 1e-5), (7.25, -8.5, 2.0**-40)]
QUATS = [np.array(q) for q in M.octahedral_quaternions()] + [
    M.axis_angle_quat(a, g) * s for a, g, s in (
        ((1, 2, 3), 1.0, 1), ((-3, 1, 2), 3.1, 1), ((0.2, -0.9, 0.4), 5.0, 1), ((0, 0, 1), 1e-6, 1),
        ((1, 1, 1), 2.0, 2.0), ((1, 2, 3), 2.5, 0.25), ((0, 1, 0), 3.14159, -3.0),
        ((1, 0, 0), M.PI, 10.0), ((1, -1, 0), 0.5, -1.0), ((2, 0, 1), 1e-3, 1.5),
        ((0, 1, 1), 6.0, 1.0 + 1e-9), ((3, 1, -2), 4.2, 1e-3))]

ROWS = [np.hstack(([STAMPS[i % 6] + 0.37 * i], POSITIONS[(3 * i) % 8], QUATS[(7 * i + 5) % 60]))
        for i in range(14)]
DIR = None


def path(name):
  global DIR
  if DIR is None:
    DIR = core.scratch()
  return os.path.join(DIR, name)


def value_ok(got, want):
  got, want = np.asarray(got, float), np.asarray(want, float)
  if got.shape != want.shape:
    return False
  return bool(np.all((np.abs(got - want) <= 1e-17) | (got == want)))


def expected(table, jpl):
  out = np.array(table, float).copy()
  for row in out:
    row[4:8] = row[4:8] / np.linalg.norm(row[4:8])
    if jpl:
      row[4:7] *= -1
  return out


def verify(table, jpl, result, what):
  poses, times, quats = result
  want = expected(table, jpl)
  poses = np.asarray(poses)
  check(poses.shape == want.shape, '{}: shape {} instead of {}', what, poses.shape, want.shape)
  check(np.array_equal(poses[:, 0], want[:, 0]) or value_ok(poses[:, 0], want[:, 0]),
        '{}: stamps {}', what, poses[:, 0].tolist())
  check(value_ok(poses[:, 1:4], want[:, 1:4]), '{}: positions {} instead of {}', what,
        poses[:, 1:4].tolist(), want[:, 1:4].tolist())
  check(value_ok(np.asarray(times), poses[:, 0]), '{}: times {} differ from the table', what,
        np.asarray(times).tolist())
  check(len(quats) == len(want), '{}: {} orientations for {} rows', what, len(quats), len(want))
  for i, q in enumerate(quats):
    check(abs(q.norm() - 1) < 1e-12, '{}: orientation {} has norm {}', what, i, q.norm())
    check(M.same_rotation(poses[i, 4:8], want[i, 4:8], 1e-13),
          '{}: row {} orientation {} instead of {}', what, i, poses[i, 4:8].tolist(),
          want[i, 4:8].tolist())
    check(M.same_rotation(q.q, want[i, 4:8], 1e-13), '{}: quaternion {} is {} instead of {}', what,
          i, q.q.tolist(), want[i, 4:8].tolist())
    check(abs(np.linalg.norm(poses[i, 4:8]) - 1) < 1e-12, '{}: row {} not normalised', what, i)


def roundtrip(table, rec, what):
  f = path('poses.csv')
  keep = table.copy()
  csv_io.write_time_stamped_poses_to_csv_file(table, f)
  check(np.array_equal(table, keep), '{}: written table modified', what)
  for jpl in (False, True):
    result = csv_io.read_time_stamped_poses_from_csv_file(f, jpl)
    verify(table, jpl, result, '{} jpl={}'.format(what, jpl))
    # The returned table written again holds Hamilton quaternions.
    g = path('again.csv')
    csv_io.write_time_stamped_poses_to_csv_file(result[0], g)
    verify(expected(table, jpl), False, csv_io.read_time_stamped_poses_from_csv_file(g),
           '{} jpl={} second generation'.format(what, jpl))
    rec.step(4)
  verify(table, False, csv_io.read_time_stamped_poses_from_csv_file(f), what + ' default')
  verify(table, True, csv_io.read_time_stamped_poses_from_csv_file(
      f, JPL_quaternion_format=True), what + ' keyword')
  rec.step(2)
  raw = bash_utils.readArrayFromCsv(f)
  check(value_ok(raw, table), '{}: readArrayFromCsv', what)
  rec.step(2)
  rec.state(table)


def cases(tier):
  for s in range(len(STAMPS)):
    for p in range(len(POSITIONS)):
      yield dict(k='row', s=s, p=p)
  n = 14 if tier == 'thorough' else 9
  for a in range(n):
    for b in range(n):
      yield dict(k='rows', r=[a, b])
      for c in range(n):
        yield dict(k='rows', r=[a, b, c])
  for m in range(1, 41):
    yield dict(k='long', m=m)
  depth = 5 if tier == 'thorough' else 4
  ops = [('w', f, t) for f in (0, 1) for t in (0, 1, 2)] + [('r', f, j) for f in (0, 1) for j in (0, 1)]
  for first in ops:
    for second in ops:
      yield dict(k='history', first=first, second=second, depth=depth)
  for shape in itertools.product((1, 2, 3), (1, 2, 3, 4)):
    for v in range(7):
      yield dict(k='array', shape=shape, v=v)
  for m in (1, 2, 5):
    for v in range(7):
      yield dict(k='array', shape=(m,), v=v)


VALUES = [0.0, -1e-16, 1e-9, 0.1, -123456.789, 1476028547.123456789, 1.0 / 3]


def run(case, rec):
  if case['k'] == 'row':
    for qi, q in enumerate(QUATS):
      row = np.hstack(([STAMPS[case['s']]], POSITIONS[case['p']], q)).astype(float)
      roundtrip(row.reshape(1, 8), rec, 'row {}'.format(row.tolist()))
    rec.outcome('single rows')
  elif case['k'] == 'rows':
    roundtrip(np.array([ROWS[i] for i in case['r']], float), rec, 'rows {}'.format(case['r']))
    rec.outcome('tables')
  elif case['k'] == 'long':
    table = np.array([np.hstack(([1476028547.0 + 0.01 * i], POSITIONS[i % 8], QUATS[(11 * i) % 60]))
                      for i in range(case['m'])])
    roundtrip(table, rec, 'table of {} rows'.format(case['m']))
    rec.outcome('long tables')
  elif case['k'] == 'array':
    n = int(np.prod(case['shape']))
    for k in range(7):
      a = np.array([VALUES[(case['v'] + k * i) % 7] for i in range(n)]).reshape(case['shape'])
      f = path('array.csv')
      keep = a.copy()
      csv_io.write_double_numpy_array_to_csv_file(a, f)
      got = bash_utils.readArrayFromCsv(f)
      want = a if a.ndim == 2 else a.reshape(-1, 1)
      check(value_ok(got, want), 'array {}: read back {}', a.tolist(), got.tolist())
      check(np.array_equal(a, keep), 'array modified')
      rec.step(2)
      rec.state(('a', a))
    rec.outcome('arrays')
  else:
    history(case, rec)


TABLES = [np.array([ROWS[i] for i in r], float) for r in ((0, 1, 2, 3), (5,), (7, 8, 9))]


def history(case, rec):
  """All histories of writes and reads over two files."""
  ops = [('w', f, t) for f in (0, 1) for t in (0, 1, 2)] + [('r', f, j) for f in (0, 1) for j in (0, 1)]
  rest = case['depth'] - 2
  for tail in itertools.product(ops, repeat=rest):
    hist = [tuple(case['first']), tuple(case['second'])] + list(tail)
    content = [0, 1]
    for f in (0, 1):
      csv_io.write_time_stamped_poses_to_csv_file(TABLES[f], path('h%d.csv' % f))
    results = []
    for op, f, x in hist:
      name = path('h%d.csv' % f)
      if op == 'w':
        csv_io.write_time_stamped_poses_to_csv_file(TABLES[x], name)
        content[f] = x
      else:
        results.append((content[f], bool(x),
                        csv_io.read_time_stamped_poses_from_csv_file(name, bool(x))))
      rec.step()
    for t, jpl, result in results:
      verify(TABLES[t], jpl, result, 'history {}'.format(hist))
    rec.state((tuple(content), [r[:2] for r in results]))
  rec.outcome('histories')
