"""Loop error of a set of pairwise calibrations."""
import itertools
import math

import numpy as np

from mc import model as M
from mc import rig
from mc import search
from mc.core import check

from hand_eye_calibration import calibration_verification as CV

ID = 'C17'
BOUND = {
    'quick': '2-7 sensors x 4 sensor layouts x 4 quaternion sign patterns x every single wrong '
             'calibration x 9 perturbations on either side; every pair of wrong calibrations '
             'for up to 6 sensors (2 layouts, 4 perturbation pairs)',
    'thorough': 'as quick with 2-10 sensors, pairs of wrong calibrations for up to 7 sensors'}
MIN_OUTCOMES = 3

PERTURB = [rig.Pose.aa((1, 0, 0), 0.0, (0.01, 0, 0)), rig.Pose.aa((0, 0, 1), 0.1, (0, 0, 0)),
           rig.Pose.aa((1, 2, -1), 1.3, (0.2, -0.4, 1.0)), rig.Pose.aa((0, 1, 0), M.PI, (0, 0, 0)),
           rig.Pose.aa((0, 1, 1), 3.0, (5.0, 0, -7.0)), rig.Pose.aa((1, 0, 0), 1e-4, (1e-4, 0, 0)),
           rig.Pose.aa((-1, 0, 2), -M.PI / 2, (0, 0, 1.0)),
           rig.Pose.aa((2, 1, 0), 0.7, (300.0, -400.0, 10.0)),
           rig.Pose.aa((0, 1, 0), 1e-5, (0, 1e-5, 0))]


def pairs(n):
  return list(itertools.combinations(range(n), 2))


def sensors(n, layout):
  if layout == 0:
    return [rig.IDENTITY] * n
  if layout == 1:
    return [rig.Pose.aa((0, 0, 1), 0.5 * i, (0.1 * i, 0.0, 0.05 * i)) for i in range(n)]
  if layout == 2:
    return [(rig.HAND[i % 8] * rig.HAND[(3 * i + 1) % 8]).positive() for i in range(n)]
  return [rig.Pose.aa(((1, 0, 0), (0, 1, 0), (0, 0, 1))[i % 3], M.PI if i % 2 else M.PI / 2,
                      (i - 2.0, 0.3 * i, 1.0)) for i in range(n)]


def cases(tier):
  top = 10 if tier == 'thorough' else 7
  for n in range(2, top + 1):
    for layout in range(4):
      for g in range(4):
        yield dict(k='single', n=n, layout=layout, g=g)
  for n in range(3, 8 if tier == 'thorough' else 7):
    for layout in (1, 2):
      yield dict(k='double', n=n, layout=layout, g=layout)


def one(n, layout, g, wrong, rec):
  s = sensors(n, layout)
  calib = {}
  for idx, (i, j) in enumerate(pairs(n)):
    p = s[i].inv() * s[j]
    if (i, j) in wrong:
      k, left = wrong[(i, j)]
      p = PERTURB[k] * p if left else p * PERTURB[k]
    if g and (idx * g) % 3 == 1:
      p = p.neg()
    calib[(i, j)] = p
  order = [calib[ij].dq() for ij in pairs(n)]
  snap = search.snapshot(order)
  m = np.eye(4)
  for i in range(n - 1):
    m = m.dot(calib[(i, i + 1)].mat)
  m = m.dot(M.inv(calib[(0, n - 1)].mat))
  what = '{} sensors layout {} signs {} wrong calibrations {}'.format(n, layout, g, wrong)
  pos, rot = CV.compute_loop_error(order, n)
  check(abs(pos - np.linalg.norm(m[:3, 3])) < 1e-6, '{}: position error {} instead of {}', what,
        pos, np.linalg.norm(m[:3, 3]))
  check(abs(rot - math.degrees(M.rot_angle(m[:3, :3]))) < 1e-4,
        '{}: orientation error {} instead of {}', what, rot, math.degrees(M.rot_angle(m[:3, :3])))
  check(all(np.array_equal(d.dq, k) for d, k in zip(order, snap)) and len(order) == len(snap),
        '{}: calibrations modified', what)
  again = CV.compute_loop_error(order, n)
  check(abs(again[0] - pos) < 1e-12 and abs(again[1] - rot) < 1e-9, '{}: {} at the second call',
        what, again)
  rec.step(2)
  rec.state((n, layout, g, sorted((k, v) for k, v in wrong.items())))
  chain = [ij for ij in wrong if n > 2 and (ij[1] == ij[0] + 1 or ij == (0, n - 1))]
  if not chain:
    check(pos < 1e-6 and rot < 1e-4, '{}: consistent chain has error {} {}', what, pos, rot)
  elif len(chain) == 1:
    k = wrong[chain[0]][0]
    check(abs(rot - math.degrees(M.rot_angle(PERTURB[k].mat[:3, :3]))) < 1e-4,
          '{}: orientation error {}', what, rot)
  rec.outcome('consistent' if not wrong else 'error outside the chain' if not chain else
              'error in the chain')


def run(case, rec):
  n = case['n']
  if case['k'] == 'single':
    one(n, case['layout'], case['g'], {}, rec)
    for ij in pairs(n):
      for k in range(len(PERTURB)):
        for left in (False, True):
          one(n, case['layout'], case['g'], {ij: (k, left)}, rec)
  else:
    for a, b in itertools.combinations(pairs(n), 2):
      for k, l in ((1, 2), (2, 2), (4, 0), (3, 6)):
        one(n, case['layout'], case['g'], {a: (k, False), b: (l, True)}, rec)
