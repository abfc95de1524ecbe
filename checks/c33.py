"""Quaternions and poses created in every documented way."""
import fractions
import itertools

import numpy as np

from mc import model as M
from mc.core import check

from hand_eye_calibration import quaternion as QU
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.quaternion import Quaternion

ID = 'C33'
BOUND = {
    'quick': 'all quaternions of {-1,0,2}^4 in 14 forms x every operation, binary operations with '
             'all pairs of forms for 12 values; 24 rotation matrices, 48 axes and angles, poses '
             '{-1,0,2}^3 x 40 rotations, 80 rotations x 7 lengths, and dual quaternions in all '
             'their forms; 19 malformed arguments at every place',
    'thorough': 'as quick with {-2,-1,0,1,3}^4, binary operations for 40 values and poses '
                '{-2,-1,0,1,3}^3'}
MIN_OUTCOMES = 6


class Sliced(object):
  """Arrays that share their storage with others."""

  @staticmethod
  def row(v):
    return np.array([[9.] * len(v), v, [7.] * len(v)])[1]

  @staticmethod
  def column(v):
    return np.array([[9.] * len(v), v], dtype=float).T[:, 1]

  @staticmethod
  def backward(v):
    return np.array(v[::-1], dtype=float)[::-1]

  @staticmethod
  def constant(v):
    out = np.array(v, dtype=float)
    out.flags.writeable = False
    return out


VECTORS = {
    'list of floats': lambda v: [float(x) for x in v],
    'list of integers': list,
    'list of both': lambda v: [float(x) if i % 2 else x for i, x in enumerate(v)],
    'array of floats': lambda v: np.array(v, dtype=float),
    'array of integers': np.array,
    'array of short integers': lambda v: np.array(v, dtype=np.int32),
    'row': Sliced.row,
    'column': Sliced.column,
    'backward': Sliced.backward,
    'constant': Sliced.constant}
NUMBERS = {
    'floats': lambda v: [float(x) for x in v],
    'integers': list,
    'both': lambda v: [x if i % 2 else float(x) for i, x in enumerate(v)],
    'numbers of an array': lambda v: list(np.array(v, dtype=float))}
FORMS = ([('vector', n) for n in sorted(VECTORS)] + [('numbers', n) for n in sorted(NUMBERS)])
WRONG = ['1', 'x', None, [1.], (1., 2.), {}, set(), object(), np.zeros(4), np.zeros(1), b'1',
         Quaternion(), Quaternion, len, Ellipsis, '', [], np.array(['1']), {1: 2}]


def quaternion(form, v):
  kind, name = form
  if kind == 'numbers':
    return Quaternion(*NUMBERS[name](v))
  return Quaternion(q=VECTORS[name](v))


def values(deep, n):
  return list(itertools.product((-2, -1, 0, 1, 3) if deep else (-1, 0, 2), repeat=n))


def some(deep):
  out = [(0, 0, 0, 1), (0, 0, 0, -1), (1, 0, 0, 0), (0, -1, 0, 0), (0, 0, 1, 0), (1, 1, 1, 1),
         (1, -1, 1, -1), (-1, 1, 1, 1), (0, 0, 0, 2), (2, 0, -1, 1), (1, 2, 3, 4), (0, 3, 0, 4)]
  return out + values(True, 4)[1::22] if deep else out


def cases(tier):
  deep = tier == 'thorough'
  for form in FORMS:
    yield dict(kind='unary', form=list(form), deep=deep)
  for a, b in itertools.product(FORMS, repeat=2):
    yield dict(kind='binary', forms=[list(a), list(b)], deep=deep)
  for name in sorted(VECTORS):
    yield dict(kind='dual', form=name, deep=deep)
    yield dict(kind='pose', form=name, deep=deep)
  for name in sorted(NUMBERS):
    yield dict(kind='pose numbers', form=name, deep=deep)
  for name in ['floats', 'integers', 'transposed', 'part', 'constant']:
    yield dict(kind='matrix', form=name)
  for name in sorted(VECTORS):
    yield dict(kind='angle', form=name)
  for i in range(len(WRONG)):
    yield dict(kind='wrong', i=i)
  yield dict(kind='defaults')


def result(f):
  """The value of a call as numbers, or the fact that it was refused."""
  try:
    with np.errstate(all='ignore'):
      v = f()
  except AssertionError:
    return 'refused'
  if isinstance(v, Quaternion):
    v = v.q
  elif isinstance(v, DualQuaternion):
    v = v.dq
  elif isinstance(v, tuple):
    v = np.hstack([np.ravel(x) for x in v])
  return np.array(v, dtype=float)


def equal(a, b):
  if isinstance(a, str) or isinstance(b, str):
    return isinstance(a, str) and isinstance(b, str) and a == b
  return a.shape == b.shape and np.allclose(a, b, rtol=1e-13, atol=1e-13, equal_nan=True)


def normalized(x):
  c = x.copy()
  c.normalize()
  return c


UNARY = {
    'copy': lambda q: q.copy(), 'norm': lambda q: q.norm(), 'square': lambda q: q.squared_norm(),
    'inverse': lambda q: q.inverse(), 'conjugate': lambda q: q.conjugate(),
    'negative': lambda q: -q, 'normalized': normalized, 'angle': lambda q: q.angle_axis(),
    'matrix': lambda q: q.to_rotation_matrix(), 'matrix4': lambda q: q.to_transformation_matrix(),
    'half': lambda q: 0.5 * q, 'third': lambda q: q / 3, 'integer multiple': lambda q: q * 3,
    'vector': lambda q: q.rotate_vector([1, 2, 3]), 'array': lambda q: q.rotate_vector(
        np.array([1., 2., 3.])), 'parts': lambda q: [q.x, q.y, q.z, q.w]}
BINARY = {
    'sum': lambda a, b: a + b, 'difference': lambda a, b: a - b, 'product': lambda a, b: a * b,
    'quotient': lambda a, b: a / b, 'dual': lambda a, b: DualQuaternion(a, b),
    'slerp': lambda a, b: QU.quaternion_slerp(normalized(a), normalized(b), 0.3),
    'nlerp': lambda a, b: QU.quaternion_nlerp(normalized(a), normalized(b), 0.3),
    'angle': lambda a, b: QU.angle_between_quaternions(normalized(a), normalized(b)),
    'velocity': lambda a, b: QU.angular_velocity_between_quaternions(
        normalized(a), normalized(b), 0.5)}
DUAL = {
    'copy': lambda d: d.copy(), 'norm': lambda d: d.norm(), 'inverse': lambda d: d.inverse(),
    'conjugate': lambda d: d.conjugate(), 'matrix': lambda d: d.to_matrix(),
    'pose': lambda d: d.to_pose(), 'scalar': lambda d: d.scalar(), 'half': lambda d: 0.5 * d,
    'third': lambda d: d / 3, 'square': lambda d: d * d, 'difference': lambda d: d - d * d,
    'point': lambda d: d.passive_transform_point([1, 2, 3]),
    'screw': lambda d: d.screw_axis(), 'normalized': normalized,
    'rotation': lambda d: d.q_rot, 'translation': lambda d: d.q_dual,
    'parts': lambda d: [d.r_x, d.r_y, d.r_z, d.r_w, d.t_x, d.t_y, d.t_z, d.t_w]}


def compare(ops, got, want, what, rec):
  """All operations on copies of equal values."""
  for name in sorted(ops):
    g = result(lambda: ops[name](*[x.copy() for x in got]))
    w = result(lambda: ops[name](*[x.copy() for x in want]))
    check(equal(g, w), '{}: {} is {} instead of {}', what, name, g, w)
  rec.step(len(ops))


def run(case, rec):
  globals()['run_' + case['kind'].replace(' ', '_')](case, rec)


def run_unary(case, rec):
  form = tuple(case['form'])
  for v in values(case['deep'], 4):
    q = quaternion(form, v)
    check(np.array_equal(q.q, v), '{} of {}: {}', form, v, q.q)
    ops = UNARY if any(v) else {k: UNARY[k] for k in ('copy', 'norm', 'square', 'parts', 'half')}
    compare(ops, [q], [Quaternion(*[float(x) for x in v])], 'quaternion {} as {}'.format(v, form),
            rec)
    rec.state((form, v))
  rec.outcome('quaternion from ' + form[0])


def run_binary(case, rec):
  fa, fb = (tuple(f) for f in case['forms'])
  for a, b in itertools.product(some(case['deep']), repeat=2):
    compare(BINARY, [quaternion(fa, a), quaternion(fb, b)],
            [Quaternion(*[float(x) for x in v]) for v in (a, b)],
            'quaternions {} as {} and {} as {}'.format(a, fa, b, fb), rec)
    rec.state((fa, fb, a, b))
  rec.outcome('two quaternions')


def run_dual(case, rec):
  make = VECTORS[case['form']]
  for a, b in itertools.product(some(case['deep']), repeat=2):
    v = a + b
    d = DualQuaternion.from_vector(make(v))
    check(np.array_equal(d.dq, v), 'from {} {}: {}', case['form'], v, d.dq)
    compare(DUAL, [d], [DualQuaternion(Quaternion(*[float(x) for x in a]),
                                       Quaternion(*[float(x) for x in b]))],
            'dual quaternion {} as {}'.format(v, case['form']), rec)
    rec.state((case['form'], v))
  rec.outcome('dual quaternion')


ROTATIONS = [q for q in itertools.product((-1, 0, 1), repeat=4) if any(q)]
LENGTHS = [0.001, 0.25, 0.5, 0.999, 1.001, 3., 1000.]


def check_pose(d, t, q, what, rec):
  q = np.array(q, dtype=float) / np.linalg.norm(q)
  m = M.T(M.quat_to_rot(q), t)
  check(np.allclose(d.copy().to_matrix(), m, atol=1e-12), '{}: {}', what, d.dq)
  check(abs(d.norm()[0] - 1.) < 1e-12, '{} has norm {}', what, d.norm())
  check(np.allclose(d.q_rot.q, q, atol=1e-12), '{} has rotation {}', what, d.q_rot)
  rec.step()
  rec.state(what)


def run_pose(case, rec):
  for t, q in itertools.product(values(case['deep'], 3), ROTATIONS[::2]):
    v = VECTORS[case['form']](t + q)
    check_pose(DualQuaternion.from_pose_vector(v), t, q,
               'pose {} {} as {}'.format(t, q, case['form']), rec)
  if 'integers' not in case['form']:
    for n, q in itertools.product(LENGTHS, ROTATIONS):
      q = tuple(n * x for x in q)
      v = VECTORS[case['form']]((1, -2, 3) + q)
      check_pose(DualQuaternion.from_pose_vector(v), (1, -2, 3), q,
                 'pose with {} as {}'.format(q, case['form']), rec)
  rec.outcome('pose from a vector')


def run_pose_numbers(case, rec):
  for t, q in itertools.product(values(case['deep'], 3), ROTATIONS[::2]):
    v = NUMBERS[case['form']](t + q)
    check_pose(DualQuaternion.from_pose(*v), t, q,
               'pose {} {} as {}'.format(t, q, case['form']), rec)
  if case['form'] != 'integers':
    for n, q in itertools.product(LENGTHS, ROTATIONS):
      q = tuple(n * x for x in q)
      v = NUMBERS[case['form']]((1, -2, 3) + q)
      check_pose(DualQuaternion.from_pose(*v), (1, -2, 3), q,
                 'pose with {} as {}'.format(q, case['form']), rec)
  rec.outcome('pose from numbers')


def run_matrix(case, rec):
  for q in M.octahedral_quaternions():
    R = np.rint(M.quat_to_rot(q))
    T = M.T(R, (1, -2, 3))
    if case['form'] == 'integers':
      R, T = R.astype(int), T.astype(int)
    elif case['form'] == 'transposed':
      R, T = R.T.copy().T, T.T.copy().T
    elif case['form'] == 'part':
      R, T = T[:3, :3], np.hstack((T, T))[:, :4]
    elif case['form'] == 'constant':
      R.flags.writeable = T.flags.writeable = False
    what = 'rotation of {} as {}'.format(q, case['form'])
    check(np.allclose(Quaternion.from_rotation_matrix(R).to_rotation_matrix(), R, atol=1e-12),
          '{}: {}', what, Quaternion.from_rotation_matrix(R))
    check(np.allclose(DualQuaternion.from_transformation_matrix(T).to_matrix(), T, atol=1e-12),
          '{}: {}', what, DualQuaternion.from_transformation_matrix(T))
    rec.step(2)
    rec.state((case['form'], list(q)))
  rec.outcome('matrix')


def run_angle(case, rec):
  make = VECTORS[case['form']]
  for axis in itertools.product((-1, 0, 2), repeat=3):
    for angle in (0, 1, -2, 0.5, np.pi, np.float32(0.25), fractions.Fraction(1, 2)):
      if not any(axis) and angle != 0:
        continue
      q = Quaternion.from_angle_axis(float(angle) if isinstance(angle, fractions.Fraction)
                                     else angle, make(axis))
      n = np.linalg.norm(axis)
      want = np.hstack((np.sin(float(angle) / 2) * np.array(axis) / (n or 1.),
                        np.cos(float(angle) / 2)))
      check(np.allclose(q.q, want, atol=1e-12), 'angle {} axis {} as {}: {}', angle, axis,
            case['form'], q)
      rec.step()
      rec.state((case['form'], axis, float(angle)))
  rec.outcome('angle and axis')


def refused(f):
  try:
    f()
  except Exception:
    return True
  return False


def run_wrong(case, rec):
  wrong = WRONG[case['i']]
  for place in range(4):
    v = [0., 0., 0., 1.]
    v[place] = wrong
    check(refused(lambda: Quaternion(*v)), 'accepted {!r} as part {}', wrong, place)
    rec.step()
    rec.state((case['i'], place))
  if not isinstance(wrong, (list, np.ndarray)) and wrong is not None:
    check(refused(lambda: Quaternion(q=wrong)), 'accepted {!r} as vector', wrong)
  good = Quaternion()
  if not isinstance(wrong, Quaternion):
    for pair in ((wrong, good), (good, wrong)):
      check(refused(lambda: DualQuaternion(*pair)), 'accepted {!r} as part', pair)
      rec.step()
  rec.outcome('refused')


def run_defaults(case, rec):
  check(np.array_equal(Quaternion().q, [0, 0, 0, 1]), 'default {}', Quaternion())
  check(np.array_equal(DualQuaternion.identity().dq, [0, 0, 0, 1, 0, 0, 0, 0]), 'identity {}',
        DualQuaternion.identity())
  for i, name in enumerate('xyzw'):
    q = Quaternion(**{name: 5})
    want = [0, 0, 0, 1]
    want[i] = 5
    check(np.array_equal(q.q, want), '{} given: {}', name, q)
    rec.step()
    rec.state(name)
  rec.outcome('defaults')
