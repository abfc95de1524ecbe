"""Pose algebra against exact rigid transforms."""
import collections
import itertools
import math

import numpy as np

from mc import model as M
from mc.core import Violation, check

from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.quaternion import Quaternion

ID = 'C01'
BOUND = {
    'quick': 'all 48 signed octahedral rotations x translations {-1,0,2}^3 x scales '
             '{1/2,1,2}: every unary operation, point mapping and product with 24 '
             'operands; all pairs of integer quaternions {-1,0,2}^4; all products '
             'of 70 general dual quaternions; BFS over operation histories to depth '
             '5 from 6 generator sets; all words of length <= 4 over 8 generic poses',
    'thorough': 'as quick with translations {-2..2}^3, integer quaternions '
                '{-2..2}^4, BFS depth 8, words of length <= 5'}
MIN_OUTCOMES = 5

QUATS = M.octahedral_quaternions()
POINTS = [(0, 0, 0), (1, 0, 0), (0, -2, 0), (0.5, 3, -1), (1e3, -7, 0.25),
          np.array([-70.0, 45.0, 6e3]), np.array([1e-5, -3e-5, 2e-5])]
FACTORS = (2, 250.0, 5e3, -1e-5)


def dq_vec(q, t, scale=1.0):
  """Dual quaternion vector of a pose: real part q, dual part t*q/2."""
  tq = M.qmul((t[0], t[1], t[2], 0.0), q)
  return np.hstack((np.asarray(q, float), 0.5 * tq)) * scale


def mk(q, t, scale=1.0):
  return DualQuaternion.from_vector(dq_vec(q, t, scale))


OPERANDS = [(QUATS[i], t) for i, t in [
    (6, (0, 0, 0)), (7, (0, 0, 0)), (0, (1, 0, 0)), (1, (0, 1, 0)),
    (2, (0, 0, 1)), (4, (1, 2, -1)), (8, (0, 0, 0)), (23, (1, -1, 2)),
    (9, (2, 0, 0)), (14, (0, 0, -1)), (24, (1, 1, 1)), (27, (0, 3, 0)),
    (28, (1, 0, 0)), (30, (0, 0, 2)), (33, (-1, 0, 1)), (36, (0, 1, 0)),
    (38, (0, 0, 0)), (40, (1, 1, 0)), (43, (2, -1, 0)), (44, (0, 0, 0)),
    (45, (0, 1, 1)), (46, (-2, 0, 0)), (47, (1, 0, 1)), (29, (0.5, 0.25, -1))]]


def expect(dq, m, what, tol=1e-9):
  """The dual quaternion represents exactly the transform m."""
  d = dq.copy()
  got = d.to_matrix()
  check(M.close_scaled(got, m, tol), '{}: matrix {} instead of {}', what,
        got.tolist(), m.tolist())
  d = dq.copy()
  pose = d.to_pose()
  check(M.close_scaled(pose[:3], m[:3, 3], tol), '{}: position {} instead of {}', what,
        pose[:3].tolist(), m[:3, 3].tolist())
  check(M.close(M.quat_to_rot(pose[3:7]), m[:3, :3], tol),
        '{}: orientation {} instead of {}', what, pose[3:7].tolist(),
        m[:3, :3].tolist())
  check(abs(np.linalg.norm(pose[3:7]) - 1.0) < 1e-9,
        '{}: pose quaternion not unit: {}', what, pose[3:7].tolist())


def expect_algebra(dq, m, scale, what):
  """dq has real norm `scale` and satisfies the unit constraint up to it."""
  real, dual = dq.norm()
  check(abs(real - scale) < 1e-8 * scale, '{}: norm {} instead of {}', what,
        real, scale)
  check(abs(dual) < 1e-8 * max(1.0, scale * np.abs(m).max()),
        '{}: dual norm {}', what, dual)
  if abs(scale - 1.0) < 1e-12:
    check(bool(dq.is_normalized()), '{}: unit dual quaternion not normalized', what)
  elif abs(scale - 1.0) > 1e-3:
    check(not dq.is_normalized(), '{}: scale {} reported as normalized', what, scale)


def lattice(case, rec):
  q = QUATS[case['q']]
  rot = np.rint(M.quat_to_rot(q))
  check(M.close(rot, M.quat_to_rot(q), 1e-12), 'harness: lattice rotation')
  for t in itertools.product(case['ts'], repeat=3):
    for scale in (1.0, 2.0, 0.5):
      m = M.T(rot, t)
      what = 'pose q={} t={} scale={}'.format(q, t, scale)
      dq = mk(q, t, scale)
      before = dq.dq.copy()
      expect(dq, m, what)
      expect_algebra(dq, m, scale, what)
      i = dq.inverse()
      expect(i, M.inv(m), 'inverse of ' + what)
      for name, prod in (('right', dq * i), ('left', i * dq)):
        check(M.close(prod.dq, [0, 0, 0, 1, 0, 0, 0, 0], 1e-9),
              '{} inverse product of {} is {}', name, what, prod.dq.tolist())
      expect(i.inverse(), m, 'double inverse of ' + what)
      c = dq.conjugate()
      expect(c, M.inv(m), 'conjugate of ' + what)
      check(M.close(c.conjugate().dq, before, 0), 'double conjugate of {}', what)
      cc = dq * c
      check(M.close(cc.dq, [0, 0, 0, scale**2, 0, 0, 0, 0], 1e-8),
            'product with conjugate of {} is {}', what, cc.dq.tolist())
      expect(dq * -1.0, m, 'negated ' + what)
      expect(-3.0 * dq, m, 'scaled ' + what)
      for f in FACTORS:
        check(M.close_scaled((dq * f).dq, f * before, 1e-12) and
              M.close_scaled((f * dq).dq, f * before, 1e-12) and
              M.close_scaled((dq / f).dq, before / f, 1e-12), 'scalar {} and {}', f, what)
      check(M.close((dq + dq).dq, 2 * before, 1e-12) and
            M.close((dq - dq).dq, 0 * before, 0), 'addition of {}', what)
      n = dq.copy()
      n.normalize()
      expect(n, m, 'normalized ' + what)
      expect_algebra(n, m, 1.0, 'normalized ' + what)
      e = dq.copy()
      e.enforce_positive_q_rot_w()
      check(e.q_rot.w >= 0.0, 'sign of {} not canonical', what)
      expect(e, m, 'sign-canonical ' + what)
      check(M.close(np.abs(e.dq), np.abs(before), 0), 'canonical sign changed {}', what)
      sc = dq.scalar()
      check(M.close(sc.dq, [0, 0, 0, before[3], 0, 0, 0, before[7]], 1e-12),
            'scalar part of {}: {}', what, sc.dq.tolist())
      for p in POINTS:
        ph = np.array(tuple(p) + (1.0,))
        check(M.close_scaled(dq.copy().passive_transform_point(p), m.dot(ph)[:3], 1e-9),
              'point {} through {}', p, what)
        check(M.close_scaled(dq.copy().active_transform_point(p),
                             M.inv(m).dot(ph)[:3], 1e-9),
              'point {} back through {}', p, what)
      for (q2, t2) in OPERANDS:
        m2 = M.T(M.quat_to_rot(q2), t2)
        o = mk(q2, t2)
        ob = o.dq.copy()
        expect(dq * o, m.dot(m2), 'product of {} with {} {}'.format(what, q2, t2))
        expect(o * dq, m2.dot(m), 'product of {} {} with {}'.format(q2, t2, what))
        if scale == 1.0:
          expect(dq / o, m.dot(M.inv(m2)), 'quotient of {} by {} {}'.format(what, q2, t2))
          check(M.close(((dq * o).inverse()).dq, (o.inverse() * dq.inverse()).dq, 1e-9),
                'inverse of product of {} with {} {}', what, q2, t2)
        check(np.array_equal(o.dq, ob), 'operand {} {} modified', q2, t2)
        rec.step(3)
      check(np.array_equal(dq.dq, before), 'operand {} modified', what)
      rec.step(20 + 2 * len(POINTS))
      rec.state((q, t, scale))
  rec.outcome('lattice ' + ('w>0' if q[3] > 0 else 'w<0' if q[3] < 0 else 'half turn'))


def quat_pairs(case, rec):
  """Integer quaternions: exact Hamilton arithmetic."""
  vals = case['vals']
  a = tuple(case['a'])
  qa = Quaternion(*[float(e) for e in a])
  na = sum(e * e for e in a)
  check(qa.squared_norm() == na and M.close(qa.norm(), math.sqrt(na), 1e-12),
        'norm of {}', a)
  check(M.close(qa.conjugate().q, [-a[0], -a[1], -a[2], a[3]], 0), 'conjugate of {}', a)
  check(M.close((-qa).q, [-e for e in a], 0), 'negation of {}', a)
  if na:
    i = qa.inverse()
    check(M.close((qa * i).q, [0, 0, 0, 1], 1e-12) and
          M.close((i * qa).q, [0, 0, 0, 1], 1e-12), 'inverse of {}', a)
    u = qa.copy()
    u.normalize()
    check(M.close(u.q, np.array(a) / math.sqrt(na), 1e-12), 'normalize {}', a)
    r = M.quat_to_rot(a)
    check(M.close(u.to_rotation_matrix(), r, 1e-12), 'matrix of {}', a)
    m4 = u.to_transformation_matrix()
    check(M.close(m4, M.T(r, (0, 0, 0)), 1e-12), '4x4 matrix of {}', a)
    for f in (64.0, 2.0**-12):
      long = Quaternion(q=f * np.array(a, float))
      check(M.close_scaled(long.squared_norm() / (f * f), na, 1e-12), 'squared norm of {} times {}',
            f, a)
      check(M.close((long * long.inverse()).q, [0, 0, 0, 1], 1e-12), 'inverse of {} times {}', f, a)
      long.normalize()
      check(M.close(long.q, u.q, 1e-12), 'normalize {} times {}', f, a)
    for p in POINTS:
      check(M.close_scaled(u.rotate_vector(p), r.dot(p), 1e-12), 'rotate {} by {}', p, a)
  for b in itertools.product(vals, repeat=4):
    qb = Quaternion(*[float(e) for e in b])
    exact = M.qmul(a, b)
    check(M.close((qa * qb).q, exact, 0), '{} * {} = {} instead of {}', a, b,
          (qa * qb).q.tolist(), exact.tolist())
    check(M.close((qa + qb).q, np.add(a, b), 0) and
          M.close((qa - qb).q, np.subtract(a, b), 0), '{} +- {}', a, b)
    nb = sum(e * e for e in b)
    if nb:
      check(M.close((qa / qb).q, M.qmul(a, (-b[0], -b[1], -b[2], b[3])) / float(nb), 1e-12),
            '{} / {}', a, b)
    check(M.close(qa.q, a, 0) and M.close(qb.q, b, 0), 'operands {} {} modified', a, b)
    rec.state(('qp', exact.tolist()))
    rec.step(4)
  for s in (-2, 0.5, 3, np.float64(0.25), 1, 64.0, 2.0**12, 2.0**-16):
    check(M.close((qa * s).q, np.array(a) * float(s), 0) and
          M.close((s * qa).q, np.array(a) * float(s), 0) and
          M.close((qa / s).q, np.array(a) / float(s), 1e-15), 'scalar {} {}', a, s)
    rec.step(3)
  rec.outcome('integer quaternion products')


GENERAL = []
for _i in range(70):
  # A fixed, arbitrary list of integer 8-vectors (not unit, not orthogonal).
  GENERAL.append([((_i * 7919 + k * k * 104729 + _i * k * 31) % 9) - 4 for k in range(8)])


def general_pairs(case, rec):
  a = GENERAL[case['i']]
  da = DualQuaternion.from_vector(np.array(a, float))
  for b in GENERAL:
    db = DualQuaternion.from_vector([float(e) for e in b])
    real = M.qmul(a[:4], b[:4])
    dual = M.qmul(a[:4], b[4:]) + M.qmul(a[4:], b[:4])
    got = (da * db).dq
    check(M.close(got, np.hstack((real, dual)), 1e-12),
          '{} * {} = {}', a, b, got.tolist())
    check(M.close((da + db).dq, np.add(a, b), 0) and
          M.close((da - db).dq, np.subtract(a, b), 0), '{} +- {}', a, b)
    check((da == db) == (a == b), 'equality of {} and {}', a, b)
    rec.step(4)
    rec.state(('gp', got.tolist()))
  check(not (da == 3) and not (da == 'x'), 'equality with another type')
  if any(a[:4]):
    i = da.inverse()
    check(M.close((da * i).dq, [0, 0, 0, 1, 0, 0, 0, 0], 1e-9) and
          M.close((i * da).dq, [0, 0, 0, 1, 0, 0, 0, 0], 1e-9), 'inverse of {}', a)
    rec.step(1)
  rec.outcome('general dual quaternion products')


GEN_SETS = [
    [(8, (1, 0, 0)), (28, (0, 1, 0))],
    [(24, (0, 0, 1)), (9, (0, 0, 0))],
    [(7, (1, 0, 0)), (0, (0, 0, 0)), (36, (0, 0, 1))],
    [(1, (0, 1, 0)), (2, (0, 0, 0)), (41, (1, 0, 0))],
    [(47, (0, 0, 1)), (12, (1, 0, 0))],
    [(26, (0, 1, 0)), (31, (0, 0, 0)), (5, (0, 0, 0))]]

BFS_OPS = ['inverse', 'conjugate', 'negate', 'double', 'halve', 'normalize',
           'positive', 'via_pose', 'via_matrix', 'square', 'copy']


def apply(dq, m, scale, op, gens):
  """Returns (real object, model matrix, model scale) after one operation."""
  if op == 'inverse':
    return dq.inverse(), M.inv(m), 1.0 / scale
  if op == 'conjugate':
    return dq.conjugate(), M.inv(m), scale
  if op == 'negate':
    return dq * -1, m, scale
  if op == 'double':
    return 2.0 * dq, m, 2 * scale
  if op == 'halve':
    return dq / 2.0, m, scale / 2
  if op == 'normalize':
    d = dq.copy()
    d.normalize()
    return d, m, 1.0
  if op == 'positive':
    d = dq.copy()
    d.enforce_positive_q_rot_w()
    return d, m, scale
  if op == 'via_pose':
    return DualQuaternion.from_pose_vector(dq.copy().to_pose()), m, 1.0
  if op == 'via_matrix':
    return DualQuaternion.from_transformation_matrix(dq.copy().to_matrix()), m, 1.0
  if op == 'square':
    return dq * dq, m.dot(m), scale * scale
  if op == 'copy':
    return dq.copy(), m, scale
  side, i = op
  g, gm = gens[i]
  if side == 'R':
    return dq * g, m.dot(gm), scale
  return g * dq, gm.dot(m), scale


def bfs(case, rec):
  """Breadth-first search over operation histories, real objects kept alive."""
  gens = []
  for qi, t in GEN_SETS[case['gens']]:
    gens.append((mk(QUATS[qi], t), M.T(np.rint(M.quat_to_rot(QUATS[qi])), t)))
  ops = BFS_OPS + [(s, i) for s in 'RL' for i in range(len(gens))]
  frontier = collections.deque()
  start = apply(DualQuaternion.identity(), np.eye(4), 1.0, ops[case['first']], gens)
  frontier.append(start + ([ops[case['first']]],))
  seen = set()
  while frontier:
    dq, m, scale, hist = frontier.popleft()
    if np.abs(m[:3, 3]).max() > 4 or not 0.2 < scale < 5:
      continue
    expect(dq, np.rint(m), 'history {}'.format(hist))
    expect_algebra(dq, m, scale, 'history {}'.format(hist))
    key = tuple(np.round(dq.dq, 6) + 0.0)
    if key in seen:
      continue
    seen.add(key)
    rec.state(('bfs', key))
    if len(hist) >= case['depth']:
      continue
    before = dq.dq.copy()
    for op in ops:
      nxt = apply(dq, m, scale, op, gens)
      rec.step()
      check(np.array_equal(dq.dq, before), 'operation {} after {} modified its operand',
            op, hist)
      frontier.append(nxt + (hist + [op],))
  rec.outcome('history search depth %d' % case['depth'])


WORD_POSES = [
    ((1, 2, 3), 1.1, (0.3, -0.2, 0.5)), ((-3, 1, 2), 2.9, (10, 0, -4)),
    ((0, 0, 1), 1e-6, (1e-6, 0, 0)), ((1, 0, 0), math.pi, (1e3, -2e3, 5e2)),
    ((0.2, -0.9, 0.4), 3.5, (0, 0, 0)), ((1, 1, 1), -2 * math.pi / 3, (0, 1e-9, 0)),
    ((0, 1, 1), 6.0, (0.1, 0.2, 0.3)), ((2, 1, -1), 0.8, (40, -5e3, 2e4))]


def word(case, rec):
  dq = DualQuaternion.identity()
  m = np.eye(4)
  for letter in case['w']:
    axis, angle, t = WORD_POSES[letter]
    g = DualQuaternion.from_pose(*(tuple(t) + tuple(M.axis_angle_quat(axis, angle))))
    dq = dq * g
    m = m.dot(M.T(M.rodrigues(axis, angle), t))
    rec.step()
  expect(dq, m, 'word {}'.format(case['w']))
  expect(dq.inverse(), M.inv(m), 'inverse of word {}'.format(case['w']))
  check(M.close_scaled((dq.inverse() * dq).to_matrix(), np.eye(4), 1e-9 * np.abs(m).max()),
        'word {} times inverse', case['w'])
  p = (0.7, -0.1, 2.0)
  check(M.close_scaled(dq.copy().passive_transform_point(p), m.dot(p + (1.0,))[:3], 1e-9),
        'point through word {}', case['w'])
  check(M.close(dq.copy().active_transform_point(p), M.inv(m).dot(p + (1.0,))[:3],
                1e-9 * max(1.0, np.abs(m).max())), 'point back through word {}', case['w'])
  rec.step(4)
  rec.state(('w', dq.dq))
  rec.outcome('generic words')


def cases(tier):
  thorough = tier == 'thorough'
  ts = (-2, -1, 0, 1, 2) if thorough else (-1, 0, 2)
  for q in range(48):
    yield dict(k='lattice', q=q, ts=ts)
  vals = (-2, -1, 0, 1, 2) if thorough else (-1, 0, 2)
  for a in itertools.product(vals, repeat=4):
    yield dict(k='quat_pairs', a=a, vals=vals)
  for i in range(len(GENERAL)):
    yield dict(k='general_pairs', i=i)
  depth = 8 if thorough else 5
  for g, s in enumerate(GEN_SETS):
    for first in range(len(BFS_OPS) + 2 * len(s)):
      yield dict(k='bfs', gens=g, first=first, depth=depth)
  for n in range(1, 6 if thorough else 5):
    for w in itertools.product(range(len(WORD_POSES)), repeat=n):
      yield dict(k='word', w=w)


def run(case, rec):
  {'lattice': lattice, 'quat_pairs': quat_pairs, 'general_pairs': general_pairs,
   'bfs': bfs, 'word': word}[case['k']](case, rec)
