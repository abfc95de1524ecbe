"""Harness for the consensus searches: data sets, owned randomness, reference."""
import contextlib
import itertools
import random

import numpy as np

from mc import model as M
from mc import rig


class DrawBudget(BaseException):
  """The search drew far more samples than its configuration allows."""


class RandomConsulted(BaseException):
  """A deterministic search asked a random generator."""


@contextlib.contextmanager
def scripted_draws(script, log, budget=2000):
  """random.sample returns the scripted positions, then repeats the last one."""
  real = random.sample
  state = random.getstate()
  npstate = np.random.get_state()
  random.seed(1)
  np.random.seed(1)

  def sample(population, k, **kw):
    pop = list(population)
    if len(log) >= budget:
      raise DrawBudget()
    # Refuses what the real generator refuses, a set for example.
    real(population, k, **kw)
    pos = script[min(len(log), len(script) - 1)]
    if len(pos) != k or max(pos) >= len(pop):
      raise RuntimeError('harness: cannot draw {} from {}'.format(pos, pop))
    out = [pop[p] for p in pos]
    log.append(tuple(out))
    return out

  from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE
  places = [(random, 'sample')] + [(HE, n) for n, v in vars(HE).items() if v == real]
  for mod, name in places:
    setattr(mod, name, sample)
  try:
    yield
  finally:
    for mod, name in places:
      setattr(mod, name, real)
    random.setstate(state)
    np.random.set_state(npstate)


RANDOM_NAMES = ['sample', 'random', 'choice', 'choices', 'shuffle', 'randint', 'randrange',
                'uniform', 'gauss', 'getrandbits']
NP_NAMES = ['rand', 'randn', 'random', 'choice', 'shuffle', 'permutation', 'randint', 'uniform',
            'normal', 'random_sample']


@contextlib.contextmanager
def forbidden_randomness():
  saved = [(random, n, getattr(random, n)) for n in RANDOM_NAMES]
  saved += [(np.random, n, getattr(np.random, n)) for n in NP_NAMES]

  consulted = []

  def refuse(*a, **k):
    consulted.append(a)
    raise RandomConsulted()

  for mod, n, _ in saved:
    setattr(mod, n, refuse)
  try:
    yield consulted
  finally:
    for mod, n, f in saved:
      setattr(mod, n, f)


# Hand paths: plain, with a near duplicate of a screw axis in front, with a
# motion-free pose in front, with a duplicate in the middle.
DUPLICATE = rig.Pose.aa((1.0, 0.22, -0.05), 1.5, (0.0, 0.3, 0.2))
DUPLICATE2 = rig.Pose.aa((0.3, 0.1, 1.0), 0.75, (0.3, -0.1, 0.5))


def hand_path(n, variant=0):
  if variant == 1:
    return ([DUPLICATE] + rig.HAND)[:n]
  if variant == 2:
    return ([rig.IDENTITY] + rig.HAND)[:n]
  if variant == 3:
    return (rig.HAND[:2] + [DUPLICATE, DUPLICATE2] + rig.HAND[2:])[:n]
  return list(rig.HAND[:n])


def data(n, x, w, outliers, signs=0, variant=0):
  """(hand, eye) poses with the given indices replaced by gross outliers."""
  hand = hand_path(n, variant)
  eyes = rig.eye(hand, x, w)
  for k, i in enumerate(outliers):
    eyes[i] = eyes[i] * rig.OUTLIERS[k % len(rig.OUTLIERS)]
  hand = [p.positive() for p in hand]
  eyes = [p.positive() for p in eyes]
  if signs:
    hand = [p.neg() if (i * signs) % 3 == 1 else p for i, p in enumerate(hand)]
    eyes = [p.neg() if (i * signs) % 4 == 2 else p for i, p in enumerate(eyes)]
  return hand, eyes


def well_separated(hand, eyes, outliers, tol=1e-2):
  """Outliers mismatch every other pose clearly; inliers match each other."""
  for i, j in itertools.permutations(range(len(hand)), 2):
    gap = rig.scalar_gap(hand, eyes, i, j)
    if i in outliers or j in outliers:
      if gap < 3 * tol:
        return False
    elif gap > 1e-9:
      return False
  return True


def minority(n, x, w, members, variant=0):
  """Data in which the members agree among each other on another transform."""
  hand, eyes = data(n, x, w, (), 0, variant)
  other = x * rig.Pose.aa((0.2, -1.0, 0.6), 1.7, (1.2, -0.8, 0.9))
  world = w * rig.Pose.aa((1.0, 0.4, 0.2), 2.2, (-2.0, 1.0, 3.0))
  for i in members:
    eyes[i] = (world.inv() * hand[i] * other).positive()
  return hand, eyes


def well_split(hand, eyes, members, tol=1e-2):
  for i, j in itertools.permutations(range(len(hand)), 2):
    gap = rig.scalar_gap(hand, eyes, i, j)
    if (i in members) == (j in members):
      if gap > 1e-9:
        return False
    elif gap < 3 * tol:
      return False
  return True


def snapshot(dqs):
  return [d.dq.copy() for d in dqs]


def unchanged(dqs, snap):
  """Same transforms (a sign flip is no change of the transform)."""
  return len(dqs) == len(snap) and all(
      np.array_equal(d.dq, s) or np.array_equal(d.dq, -s) for d, s in zip(dqs, snap))


def record_plots(shown):
  """Replace the blocking plot window by drawing the figures off screen.

  Appends the open figures to shown whenever the code under test shows them.
  """
  import matplotlib
  matplotlib.use('Agg')
  from matplotlib import pylab, pyplot

  def show(*a, **k):
    figures = [pyplot.figure(n) for n in pyplot.get_fignums()]
    for f in figures:
      f.canvas.draw()
    shown.append(figures)

  pyplot.show = show
  pylab.show = show
