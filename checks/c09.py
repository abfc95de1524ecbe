"""Calibration files and composition of calibrations."""
import itertools
import json
import math
import os

import numpy as np

from mc import core
from mc import model as M
from mc.core import check

from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration

ID = 'C09'
BOUND = {
    'quick': 'all histories of length <= 3 of compose / save / load over two files, both '
             'conventions and 24 start triples; round trips and products of all pairs of 60 '
             'calibrations (half turns, both signs, scaled, large/negative/tiny offsets); '
             'associativity of all triples of 12',
    'thorough': 'as quick with histories of length <= 4 for 6 start triples'}
MIN_OUTCOMES = 3

OCT = M.octahedral_quaternions()
OFFSETS = [0.0, 0.25, -1.5, 1476028547.123456, 1e-9, -3e-3, 12345.678, 7]
TRANS = [(0, 0, 0), (1, 2, -3), (1e-9, 0, 0), (1e3, -2e3, 0.1), (-0.3, 0.2, 1 / 3.)]
ITEMS = []
for _i in range(60):
  if _i < 40:
    _q = np.array(OCT[(7 * _i) % 48])
  else:
    _q = M.axis_angle_quat(M.GENERIC_AXES[_i % 6], [1.0, 3.1, 1e-6, M.PI, 4.5, 2.2, 6.1][_i % 7])
    if _i % 3 == 0:
      _q = -_q
  ITEMS.append((OFFSETS[(3 * _i) % 8], _q, TRANS[_i % 5]))
DIR = None


def path(name):
  global DIR
  if DIR is None:
    DIR = core.scratch()
  return os.path.join(DIR, name)


def make(i):
  """(real, model) of item i; the dual quaternion keeps the given sign."""
  off, q, t = ITEMS[i]
  dq = DualQuaternion.from_vector(np.hstack((q, 0.5 * M.qmul(tuple(t) + (0.0,), q))))
  return ExtrinsicCalibration(off, dq), (float(off), M.T(M.quat_to_rot(q), t))


def verify(real, model, what):
  off, m = model
  scale = max(1.0, np.abs(m).max())
  check(abs(real.time_offset - off) <= 1e-12 * max(1.0, abs(off)), '{}: offset {!r} instead of {!r}',
        what, real.time_offset, off)
  got = real.pose_dq.copy().to_matrix()
  check(M.close(got, m, 1e-9 * scale), '{}: transform {} instead of {}', what, got.tolist(), m.tolist())


def file_ok(name, model, conv, what):
  with open(name) as f:
    d = json.load(f)
  check(sorted(d) == ['delay', 'rotation', 'translation'] and sorted(d['rotation']) == list('ijkw')
        and sorted(d['translation']) == list('xyz'), '{}: file {}', what, d)
  q = np.array([d['rotation'][k] for k in 'ijkw'])
  check(abs(np.linalg.norm(q) - 1) < 1e-9 and q[3] >= 0, '{}: rotation {} in the file', what, q.tolist())
  r = M.quat_to_rot(q)
  if conv:
    r = r.T
  check(M.close(r, model[1][:3, :3], 1e-9), '{}: rotation {} in the file', what, q.tolist())
  t = [d['translation'][k] for k in 'xyz']
  check(M.close_scaled(t, model[1][:3, 3], 1e-9), '{}: translation {} in the file', what, t)
  check(abs(d['delay'] - model[0]) <= 1e-12 * max(1.0, abs(model[0])), '{}: delay {}', what, d['delay'])


def loaded(model, wrote, read):
  off, m = model
  if bool(wrote) != bool(read):
    m = M.T(m[:3, :3].T, m[:3, 3])
  return off, m


def compose(a, b):
  return a[0] + b[0], a[1].dot(b[1])


START = [(i, (i * 5 + 7) % 60, (i * 11 + 23) % 60) for i in range(0, 60, 3)][:20] + [
    (3, 3, 3), (41, 44, 55), (59, 0, 50), (7, 47, 51)]


def cases(tier):
  for s in range(len(START)):
    for first in range(21):
      yield dict(k='history', s=s, first=first, depth=3)
  if tier == 'thorough':
    for s in (0, 4, 9, 14, 20, 22):
      for first in range(21):
        yield dict(k='history', s=s, first=first, depth=4)
  for i in range(60):
    yield dict(k='pairs', i=i)
  for i in range(12):
    for j in range(12):
      yield dict(k='assoc', i=i, j=j)


def operations(n, files):
  ops = [('mul', i, j) for i in range(n) for j in range(n)]
  ops += [('save', i, f, c) for i in range(n) for f in (0, 1) for c in (False, True)]
  ops += [('load', f, c) for f in (0, 1) for c in (False, True) if f in files]
  return ops


def history(case, rec):
  base = [make(i) for i in START[case['s']]]
  ops0 = operations(3, ())
  names = [path('a.json'), path('b.json')]

  def explore(regs, files, hist, depth):
    rec.state((START[case['s']], [np.round(r[1][1], 6).tolist() for r in regs],
               sorted((f, v[1]) for f, v in files.items())))
    if depth == 0:
      return
    ops = operations(min(len(regs), 4), files) if hist else [ops0[case['first']]]
    for op in ops:
      nregs, nfiles = regs, files
      h = hist + [op]
      if op[0] == 'mul':
        a, b = regs[op[1]], regs[op[2]]
        nregs = [(a[0] * b[0], compose(a[1], b[1]))] + regs if len(regs) < 4 else \
            regs[:3] + [(a[0] * b[0], compose(a[1], b[1]))]
      elif op[0] == 'save':
        i, f, c = op[1:]
        if c:
          regs[i][0].writeJson(names[f], switchConvention=True)
        else:
          regs[i][0].writeJson(names[f])
        nfiles = dict(files)
        nfiles[f] = (regs[i][1], c)
        file_ok(names[f], regs[i][1], c, 'history {}'.format(h))
      else:
        f, c = op[1:]
        # Re-create the file content of this history (siblings overwrote it).
        model, wrote = files[f]
        restore(model, wrote, names[f])
        got = ExtrinsicCalibration.fromJson(names[f], c)
        nregs = regs[:3] + [(got, loaded(model, wrote, c))]
      rec.step()
      for k, (real, model) in enumerate(nregs + regs):
        verify(real, model, 'history {} of {} register {}'.format(h, START[case['s']], k))
      explore(nregs, nfiles, h, depth - 1)

  def restore(model, wrote, name):
    m = model[1]
    q = rot_to_quat(m[:3, :3])
    if wrote:
      q[:3] *= -1
    with open(name, 'w') as f:
      json.dump({'delay': model[0], 'rotation': dict(zip('ijkw', map(float, q))),
                 'translation': dict(zip('xyz', map(float, m[:3, 3])))}, f)

  explore(base, {}, [], case['depth'])
  rec.outcome('histories')


def rot_to_quat(r):
  """Unit quaternion with w >= 0 via the largest component."""
  k = np.array([
      [r[0, 0] - r[1, 1] - r[2, 2], 0, 0, 0],
      [r[0, 1] + r[1, 0], r[1, 1] - r[0, 0] - r[2, 2], 0, 0],
      [r[0, 2] + r[2, 0], r[1, 2] + r[2, 1], r[2, 2] - r[0, 0] - r[1, 1], 0],
      [r[2, 1] - r[1, 2], r[0, 2] - r[2, 0], r[1, 0] - r[0, 1], np.trace(r)]]) / 3.0
  w, v = np.linalg.eigh(k)
  q = v[:, np.argmax(w)]
  return -q if q[3] < 0 else q


def pairs(case, rec):
  a, ma = make(case['i'])
  for conv in (None, False, True):
    name = path('p.json')
    if conv is None:
      a.writeJson(name)
    else:
      a.writeJson(name, switchConvention=conv)
    file_ok(name, ma, bool(conv), 'item {}'.format(case['i']))
    for back in (False, True):
      b = ExtrinsicCalibration.fromJson(name, switchConvention=back)
      verify(b, loaded(ma, conv, back), 'item {} saved {} loaded {}'.format(case['i'], conv, back))
      # Second generation.
      name2 = path('p2.json')
      b.writeJson(name2, switchConvention=back)
      c = ExtrinsicCalibration.fromJson(name2, switchConvention=back)
      verify(c, loaded(ma, conv, back), 'item {} second generation'.format(case['i']))
      rec.step(3)
    verify(a, ma, 'item {} after saving'.format(case['i']))
  for j in range(len(ITEMS)):
    b, mb = make(j)
    c = a * b
    verify(c, compose(ma, mb), 'product of {} and {}'.format(case['i'], j))
    verify(a, ma, 'left operand')
    verify(b, mb, 'right operand')
    name = path('q.json')
    a.writeJson(name)
    la = ExtrinsicCalibration.fromJson(name)
    b.writeJson(name)
    lb = ExtrinsicCalibration.fromJson(name)
    verify(la * lb, compose(ma, mb), 'product of loaded {} and {}'.format(case['i'], j))
    verify(la, ma, 'loaded {}'.format(case['i']))
    rec.step(6)
    rec.state(('p', np.round(compose(ma, mb)[1], 6).tolist()))
  rec.outcome('pairs')


def assoc(case, rec):
  a, ma = make(5 * case['i'])
  b, mb = make(5 * case['j'] + 1)
  for k in range(0, 60, 5):
    c, mc_ = make(k + 2)
    want = compose(compose(ma, mb), mc_)
    verify((a * b) * c, want, 'left association')
    verify(a * (b * c), want, 'right association')
    rec.step(4)
    rec.state(('t', np.round(want[1], 6).tolist()))
  rec.outcome('triples')


def run(case, rec):
  {'history': history, 'pairs': pairs, 'assoc': assoc}[case['k']](case, rec)
