"""Perturbed initial guesses under every outcome of the random generators."""
import contextlib
import itertools
import os
import random
import runpy

import numpy as np

from mc import core
from mc import model as M
from mc import rig
from mc.core import check

from hand_eye_calibration.quaternion import Quaternion

ID = 'C26'
BOUND = {
    'quick': 'all answers of the random generators over {range start, just above, middle, just '
             'below the end, end} x signs x all pairs of two directions (5 choices), for 14 combinations '
             'of ranges (of the experiments, degenerate, zero) x 5 initial guesses (7 x both '
             'quaternion signs on one direction); random orientations: 17 directions x 9 ranges '
             'x 5 answers',
    'thorough': 'as quick with 8 guesses and 8 choices of the two directions'}
MIN_OUTCOMES = 3
CASE_LIMIT_S = 300
ASSUMPTIONS = ['the generators answer from the whole closed range they are asked for, except for '
               'a direction vector that is exactly zero']

EXPERIMENT = os.path.join(core.EXP, 'bin', 'optimization_experiments.py')
FRACTIONS = [0.5, 0.0, 1.0, 2.0**-53, 1 - 2.0**-53]
DIRECTIONS = [(0.1, -0.7, 0.3), (1, 0, 0), (-1, -1, -1), (0, 1e-9, 0), (-0.3, 0.999, 1e-17),
              (0, 0, -1), (1, 1, 1), (1e-3, -1e-3, 0.7)]
ALL_DIRECTIONS = DIRECTIONS + [(-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (1, -1, 0),
                               (0.5, 0.5, -0.5), (1e-12, 0, 0), (0.2, 0.9, -0.4), (-1, 1, 1)]
D = M.PI / 180
# (angle, translation, time)
RANGES = [((0, 15 * D), (0, 0.1), (0, 0)), ((15 * D, 30 * D), (0.1, 0.2), (0.03, 0.06)),
          ((165 / 180. * M.PI, 180 / 180. * M.PI), (0.9, 1.0), (0, 0)),
          ((45 * D, 60 * D), (0.7, 0.8), (0.21, 0.24)), ((0, 0), (0, 0), (0, 0)),
          ((0.3, 0.3), (0.3, 0.3), (0.3, 0.3)), ((M.PI, M.PI), (1 / 3., 1 / 3.), (1e-3, 1e-3)),
          ((0, M.PI), (0, 10.0), (0, 5.0)), ((90 * D, 105 * D), (0.5, 0.6), (0.09, 0.12)),
          ((1e-3, 2e-3), (1e-6, 2e-6), (1e-6, 2e-6)), ((0, 0), (0.4, 0.5), (0, 0)),
          ((120 * D, 135 * D), (0, 0), (0.15, 0.18)), ((1e-6, 1e-6), (1e-3, 1e-3), (0, 0)),
          ((2.0, 2.0), (100., 100.), (60., 60.))]
GUESSES = [(rig.HAND_EYES[0], 0.25), (rig.IDENTITY, 0.0), (rig.HAND_EYES[4].neg(), -3.125),
           (rig.Pose.aa((1, 0, 0), M.PI, (50., -20., 3.)), 1e3),
           (rig.Pose.aa((0, -1, 1), 1e-4, (0, 0, 1e-9)), 1e-9),
           (rig.HAND_EYES[2], -0.5), (rig.HAND_EYES[3].neg(), 0.007),
           (rig.Pose.aa((3, 1, -2), 3.0, (0.3, 0.1, 7)), 42.0)]
SPOIL = None


def start_worker(wid, n):
  global SPOIL
  SPOIL = runpy.run_path(EXPERIMENT, run_name='experiment')['spoil_initial_guess']


@contextlib.contextmanager
def owned_random(ch, directions):
  """Every request to a random generator becomes a choice."""
  log = []

  def between(low, high):
    f = FRACTIONS[ch.choose(len(FRACTIONS), 'fraction')]
    v = low + (high - low) * f
    return min(max(v, min(low, high)), max(low, high))

  def vector(low, high):
    d = np.array(directions[ch.choose(len(directions), 'direction')], float)
    log.append(d)
    return 0.5 * (low + high) + 0.5 * (high - low) * d

  def np_uniform(low=0.0, high=1.0, size=None):
    if size in (None, ()):
      return between(low, high)
    if size in (3, (3,), [3]):
      return vector(low, high)
    if int(np.prod(size)) > 3:
      raise RuntimeError('harness: draw of size %r' % (size,))
    return np.array([between(low, high) for _ in range(int(np.prod(size)))]).reshape(size)

  def np_rand(*shape):
    return np_uniform(0.0, 1.0, shape if shape else None)

  def choice(seq, *a, **k):
    seq = list(seq)
    return seq[ch.choose(len(seq), 'element')]

  def normal(*shape):
    if shape == (3,):
      return vector(-1.0, 1.0)
    raise RuntimeError('harness: normal draw of shape %r' % (shape,))

  new = [(np.random, 'uniform', np_uniform), (np.random, 'rand', np_rand),
         (np.random, 'random', lambda size=None: np_uniform(0., 1., size)),
         (np.random, 'random_sample', lambda size=None: np_uniform(0., 1., size)),
         (np.random, 'randn', normal), (np.random, 'choice', choice),
         (np.random, 'normal', lambda loc=0., scale=1., size=None: normal(*np.atleast_1d(size))),
         (random, 'uniform', between), (random, 'random', lambda: between(0.0, 1.0)),
         (random, 'choice', choice)]
  saved = [(m, n, getattr(m, n)) for m, n, _ in new]
  for m, n, f in new:
    setattr(m, n, f)
  try:
    yield log
  finally:
    for m, n, f in saved:
      setattr(m, n, f)


def inside(value, span, tol):
  return span[0] - tol <= value <= span[1] + tol


def run_spoil(case, rec):
  angles, lengths, times = RANGES[case['r']]
  guess, offset = GUESSES[case['g']]
  directions = [DIRECTIONS[i] for i in case['dirs']]
  if case['neg']:
    guess = guess.neg()
  reached = set()

  def body(ch):
    dq = guess.dq()
    before = dq.dq.copy()
    spans = (list(angles), list(lengths), list(times))
    with owned_random(ch, directions):
      got = SPOIL(offset, dq, *spans)
    what = 'ranges {} guess {} answers {}'.format(RANGES[case['r']], guess.vec.tolist(),
                                                  ch.choices)
    check(np.array_equal(dq.dq, before), '{}: given calibration modified', what)
    check(spans == (list(angles), list(lengths), list(times)), '{}: ranges modified', what)
    time_spoiled, dq_spoiled, (d_translation, d_angle, d_time) = got
    scale = max(1.0, np.abs(guess.t).max(), lengths[1])
    check(abs(dq_spoiled.norm()[0] - 1) < 1e-9 and abs(dq_spoiled.norm()[1]) < 1e-9 * scale,
          '{}: result {} is no pose', what, dq_spoiled.dq)
    mat = dq_spoiled.copy().to_matrix()
    check(np.all(np.isfinite(mat)), '{}: result {}', what, mat)
    angle = M.geodesic(mat[:3, :3], guess.mat[:3, :3])
    shift = mat[:3, 3] - guess.t
    check(inside(angle, angles, 1e-7), '{}: rotated by {} outside {}', what, angle, angles)
    check(inside(np.linalg.norm(shift), lengths, 1e-9 * scale), '{}: moved by {} outside {}', what,
          np.linalg.norm(shift), lengths)
    check(inside(abs(time_spoiled - offset), times, 1e-9 * max(1., abs(offset))),
          '{}: time shifted by {} outside {}', what, time_spoiled - offset, times)
    check(abs(float(d_angle) - angle) < 1e-7, '{}: reported angle {} instead of {}', what, d_angle,
          angle)
    check(M.close(np.asarray(d_translation), shift, 1e-9 * scale),
          '{}: reported translation {} instead of {}', what, d_translation, shift)
    check(abs(d_time - (time_spoiled - offset)) < 1e-9 * max(1., abs(offset)),
          '{}: reported time shift {} instead of {}', what, d_time, time_spoiled - offset)
    reached.add((round(angle, 5), round(float(np.linalg.norm(shift)), 5),
                 round(time_spoiled - offset, 5)))
    rec.step(len(ch.points))
    rec.state((case['r'], case['g'], case['neg'], case['dirs'], ch.choices))

  for _ in core.explore_choices(body):
    pass
  # Every requested size can occur: both ends of every range and both signs.
  for k, span in ((0, angles), (1, lengths)):
    values = [v[k] for v in reached]
    check(min(values) < span[0] + 1e-4 + 0.02 * (span[1] - span[0]) and
          max(values) > span[1] - 1e-4 - 0.02 * (span[1] - span[0]),
          'ranges {}: only sizes {}..{} of {} occur', RANGES[case['r']], min(values), max(values),
          ('angle', 'translation')[k])
  rec.outcome('degenerate ranges' if angles[0] == angles[1] else 'ranges')


def run_orientation(case, rec):
  span = case['span']
  reached = []

  def body(ch):
    with owned_random(ch, ALL_DIRECTIONS) as log:
      q = Quaternion.get_random(*span) if span else Quaternion.get_random()
    low, high = span or (0.0, M.PI)
    what = 'random orientation {} answers {}'.format(span, ch.choices)
    check(abs(q.norm() - 1) < 1e-12, '{}: norm {}', what, q.norm())
    angle = M.rot_angle(M.quat_to_rot(q.q))
    check(inside(angle, (low, high), 1e-7), '{}: angle {}', what, angle)
    if log and angle > 1e-9:
      axis = log[0] / np.linalg.norm(log[0])
      v = q.q[:3] / np.linalg.norm(q.q[:3])
      check(abs(abs(axis.dot(v)) - 1) < 1e-9, '{}: axis {} instead of {}', what, v, axis)
    reached.append(angle)
    rec.step(len(ch.points))
    rec.state((span, ch.choices))

  for _ in core.explore_choices(body):
    pass
  low, high = span or (0.0, M.PI)
  check(min(reached) < low + 1e-4 + 0.02 * (high - low) and
        max(reached) > high - 1e-4 - 0.02 * (high - low),
        'random orientation {}: only angles {}..{} occur', span, min(reached), max(reached))
  rec.outcome('random orientations')


def cases(tier):
  deep = tier == 'thorough'
  for r in range(len(RANGES)):
    for g in range(len(GUESSES) if deep else 5):
      for first in range(8 if deep else 5):
        yield dict(k='spoil', r=r, g=g, neg=False,
                   dirs=[first, (first + 3) % 8])
    for g in range(7):
      yield dict(k='spoil', r=r, g=g, neg=True, dirs=[(r + g) % 8])
  for span in (None, (0, 0), (0.1, 0.1), (0, 15 * D), (15 * D, 30 * D), (1, 3), (M.PI, M.PI),
               (165 * D, M.PI), (1e-8, 1e-6)):
    yield dict(k='orientation', span=span)


def run(case, rec):
  (run_spoil if case['k'] == 'spoil' else run_orientation)(case, rec)
