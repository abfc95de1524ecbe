"""Calibration reports describe the returned transform."""
import itertools

import numpy as np

from mc import model as M
from mc import rig
from mc import search
from mc.core import check

from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE

ID = 'C14'
BOUND = {
    'quick': '6 poses, 4 noise patterns x 3 outlier placements x 5 search settings x prefilter '
             'x evaluation mode: all ordered single draws (sizes 1-3), all draw sequences of '
             'length 3 (size 1) and length 2 over 10 ordered triples, the exhaustive search '
             'and both baseline searches, each compared with a reference evaluation of every '
             'sample',
    'thorough': 'as quick with 7 poses, 10 noise patterns and sequences of length 3'}
MIN_OUTCOMES = 5
CASE_LIMIT_S = 300

SEARCHES = [('rmse_threshold', 3, True), ('rmse_threshold', 3, False),
            ('scalar_part_equality', 1, True), ('scalar_part_equality', 3, True),
            ('scalar_part_equality', 2, False)]
PLACEMENTS = [(), (1,), (4,)]
MINIMUM = 4


def noisy(n, level, outliers, variant, x, w):
  hand, eyes = search.data(n, x, w, outliers, 0, variant)
  if level:
    for i in range(n):
      axis = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, 0), (1, 1, 1), (0, -1, 1), (2, 1, 0)][
          (i + level) % 7]
      size = [0.0, 0.002, -0.004, 0.001, 0.003, -0.001, 0.0025][(i * level) % 7]
      t = [0.0, 0.002, -0.003, 0.001, 0.004, -0.002][(i * (level + 1)) % 6]
      eyes[i] = (eyes[i] * rig.Pose.aa(axis, size, (t, -0.5 * t, 0.3 * t))).positive()
  return hand, eyes


def config(case, draws):
  criterion, size, refine = SEARCHES[case['s']]
  c = HE.HandEyeConfig()
  c.min_num_inliers = MINIMUM
  c.prefilter_poses_enabled = case['pre']
  c.prefilter_dot_product_threshold = 0.95
  c.ransac_sample_size = size
  c.ransac_max_number_iterations = draws
  c.ransac_max_number_samples = draws
  c.ransac_enable_early_abort = False
  c.ransac_inlier_classification = criterion
  c.ransac_model_refinement = refine
  c.ransac_evaluate_refined_model_on_inliers_only = case['inl']
  # Noise of a few millimetres makes samples compete around the thresholds.
  c.ransac_position_error_threshold_m = 0.02
  c.ransac_orientation_error_threshold_deg = 1.0
  return c


class Skip(Exception):
  """The sample sits on a threshold; either classification is fine."""


class DqPose(object):
  """Adapter: a returned dual quaternion as a reference pose."""

  def __init__(self, dq):
    self.mat = dq.copy().to_matrix()


def scalar_flags(hand, eyes, first, tol):
  flags = []
  for j in range(len(hand)):
    g = rig.scalar_gap(hand, eyes, first, j)
    if abs(g - tol) < 3e-5:
      raise Skip()
    flags.append(g < tol)
  return flags


def reference(hand, eyes, sample, c):
  """(x, rmse position, rmse orientation, inliers, singular values, bad) or None."""
  n = len(hand)
  first = sample[0]
  order = list(range(first, n)) + list(range(first))

  def solve(indices):
    dh = [rig.relative(hand, first, i).dq() for i in indices]
    de = [rig.relative(eyes, first, i).dq() for i in indices]
    return HE.compute_hand_eye_calibration(
        dh, de, c.hand_eye_calibration_scalar_part_equality_tolerance)

  tol = c.ransac_sample_rejection_scalar_part_equality_tolerance
  flags = scalar_flags(hand, eyes, first, tol)
  if not all(flags[i] for i in sample):
    return None
  rh = [rig.relative(hand, first, i) for i in order]
  re = [rig.relative(eyes, first, i) for i in order]
  initial = None
  if c.ransac_inlier_classification == 'rmse_threshold':
    try:
      initial = solve(sample)
    except Exception:
      return None
    pos, rot = rig.evaluate(rh, re, DqPose(initial[0]))
    inl = []
    for k, i in enumerate(order):
      if (abs(pos[k] - c.ransac_position_error_threshold_m) < 1e-6 or
          abs(rot[k] - c.ransac_orientation_error_threshold_deg) < 1e-5):
        raise Skip()
      if (pos[k] < c.ransac_position_error_threshold_m and
          rot[k] < c.ransac_orientation_error_threshold_deg):
        if not flags[i]:
          return None
        inl.append(i)
  else:
    inl = [i for i in order if flags[i]]
  if len(inl) < c.min_num_inliers:
    return None
  if c.ransac_model_refinement or initial is None:
    try:
      result = solve(inl)
    except Exception:
      return None
  else:
    result = initial
  sub = inl if c.ransac_evaluate_refined_model_on_inliers_only else order
  pos, rot = rig.evaluate([rig.relative(hand, first, i) for i in sub],
                          [rig.relative(eyes, first, i) for i in sub], DqPose(result[0]))
  return (result[0], rig.rmse(pos), rig.rmse(rot), len(inl), result[1], result[2])


def same(out, ref):
  success, dq, (rp, ro), inl, _, runtime, sv, bad = out
  return (abs(rp - ref[1]) < 1e-6 and abs(ro - ref[2]) < 1e-5 and inl == ref[3] and
          M.close(dq.copy().to_matrix(), ref[0].copy().to_matrix(), 1e-6) and
          M.close(sv, ref[4], 1e-6) and bool(bad) == bool(ref[5]))


def describe(r):
  return 'rmse {:.6g} m {:.6g} deg, {} inliers, pose {}'.format(
      r[1], r[2], r[3], np.round(r[0].copy().to_pose(), 5).tolist())


def judge(out, refs, kept, what, rec):
  """The report equals that of one evaluated sample and none beats it in both."""
  success, dq, errors, inl, after, runtime, sv, bad = out
  check(after == len(kept), '{}: {} poses after filtering instead of {}', what, after, len(kept))
  check(runtime >= 0, '{}: runtime {}', what, runtime)
  live = [r for r in refs if r is not None]
  if not success:
    check(dq is None, '{}: failure with a transform', what)
    check(not live, '{}: failure although a sample was acceptable', what)
    rec.outcome('failure')
    return
  check(dq is not None and rig.unit_positive(dq), '{}: transform {}', what, dq)
  check(bool(live), '{}: success although no sample was acceptable', what)
  matching = [r for r in live if same(out, r)]
  check(bool(matching),
        '{}: reported rmse {} {} inliers {} pose {} singular values {} bad {}; evaluated samples: {}',
        what, errors[0], errors[1], inl, np.round(dq.copy().to_pose(), 5).tolist(), sv, bad,
        '; '.join(describe(r) for r in live))
  for r in live:
    check(not (r[1] < errors[0] - 1e-6 and r[2] < errors[1] - 1e-5),
          '{}: sample with {} beats the reported {} {}', what, describe(r), errors[0], errors[1])
  rec.outcome('success' if len(live) == 1 else 'success among competing samples')


def cases(tier):
  n = 7 if tier == 'thorough' else 6
  levels = range(0, 10) if tier == 'thorough' else (0, 1, 2, 4)
  i = 0
  for level in levels:
    for o in PLACEMENTS:
      for s in range(len(SEARCHES)):
        for pre in (False, True):
          for inl in (False, True):
            i += 1
            base = dict(n=n, level=level, o=o, s=s, pre=pre, inl=inl, x=i % 5, w=(i // 5) % 2,
                        v=(i // 2) % 4)
            yield dict(base, k='single')
            yield dict(base, k='sequence', depth=3 if (SEARCHES[s][1] == 1 or tier == 'thorough')
                       else 2)
            yield dict(base, k='exhaustive')
        if s == 0:
          for pre in (False, True):
            for inl in (False, True):
              for ex in (False, True):
                i += 1
                yield dict(k='baseline', n=n, level=level, o=o, s=s, pre=pre, inl=inl, ex=ex,
                           x=i % 5, w=(i // 5) % 2, v=(i // 2) % 4)


def run(case, rec):
  n = case['n']
  x, w = rig.HAND_EYES[case['x']], rig.BASE_WORLDS[case['w']]
  hand, eyes = noisy(n, case['level'], case['o'], case['v'], x, w)
  kept = rig.prefilter(eyes, hand, 0.95) if case['pre'] else list(range(n))
  size = SEARCHES[case['s']][1]
  if len(kept) < max(2, size) or not clear_prefilter(hand, eyes):
    rec.outcome('outside the domain')
    return
  m = len(kept)
  if case['k'] == 'baseline':
    return baseline(case, hand, eyes, kept, rec)
  cache = {}

  def ref(pos, c):
    if pos not in cache:
      try:
        cache[pos] = reference(hand, eyes, [kept[p] for p in pos], c)
      except Skip:
        cache[pos] = 'skip'
    return cache[pos]

  def real(script, c):
    dh, de = [p.dq() for p in hand], [p.dq() for p in eyes]
    sh, se = search.snapshot(dh), search.snapshot(de)
    log = []
    with search.scripted_draws(script, log):
      out = HE.compute_hand_eye_calibration_RANSAC(dh, de, c)
    check(search.unchanged(dh, sh) and search.unchanged(de, se), 'input poses modified')
    return out

  if case['k'] == 'single':
    for pos in itertools.permutations(range(m), size):
      c = config(case, 1)
      r = ref(pos, c)
      if r == 'skip':
        continue
      judge(real([pos], c), [r], kept, 'case {} draw {}'.format(case, pos), rec)
      rec.step()
      rec.state((case['level'], case['o'], case['s'], case['v'], pos,
                 None if r is None else (r[1], r[2], r[3])), 6)
  elif case['k'] == 'sequence':
    if size == 1:
      alphabet = [(i,) for i in range(m)]
    else:
      perms = list(itertools.permutations(range(m), size))
      alphabet = perms[::max(1, len(perms) // 10)][:10]
    for script in itertools.product(alphabet, repeat=case['depth']):
      c = config(case, len(script))
      refs = [ref(pos, c) for pos in script]
      if 'skip' in refs:
        continue
      judge(real(list(script), c), refs, kept, 'case {} draws {}'.format(case, script), rec)
      rec.step(len(script))
      rec.state((case['level'], case['o'], case['s'], case['v'], script))
  else:
    c = config(case, 1)
    c.enable_exhaustive_search = True
    refs = [ref(pos, c) for pos in itertools.combinations(range(m), size)]
    if 'skip' in refs:
      rec.outcome('outside the domain')
      return
    judge(real([(0,) * size], c), refs, kept, 'exhaustive case {}'.format(case), rec)
    rec.step(len(refs))
    rec.state(('ex', case['level'], case['o'], case['s'], case['v']))
    rec.outcome('exhaustive')


def clear_prefilter(hand, eyes):
  for path in (hand, eyes):
    dirs = [rig.screw_dir(p) for p in path]
    for a, b in itertools.combinations([d for d in dirs if d is not None], 2):
      if abs(a.dot(b) - 0.95) < 1e-6:
        return False
  return True


def baseline(case, hand, eyes, kept, rec):
  c = config(case, 1)
  c.use_baseline_approach = True
  c.enable_exhaustive_search = case['ex']
  fh, fe = [hand[i] for i in kept], [eyes[i] for i in kept]
  m = len(kept)
  what = 'baseline case {}'.format(case)
  # Reference: consensus of every start pose, in order.
  sets = []
  for j in range(m):
    try:
      flags = scalar_flags(fh, fe, j, 1e-2)
    except Skip:
      rec.outcome('outside the domain')
      return
    sets.append([i for i in list(range(j, m)) + list(range(j)) if flags[i]])
  if case['ex']:
    best = max(len(s) for s in sets)
    ok = best >= MINIMUM
    starts = [j for j in range(m) if len(sets[j]) == best]
  else:
    starts = [j for j in range(m) if len(sets[j]) > MINIMUM]
    ok = bool(starts)
  dh, de = [p.dq() for p in hand], [p.dq() for p in eyes]
  sh, se = search.snapshot(dh), search.snapshot(de)
  try:
    out = HE.compute_hand_eye_calibration_BASELINE(dh, de, c)
  except Exception as e:
    check(not ok, '{}: {} although a consensus exists', what, e)
    rec.outcome('baseline refused')
    rec.step()
    return
  check(search.unchanged(dh, sh) and search.unchanged(de, se), '{}: input poses modified', what)
  refs = []
  n = len(hand)
  for j in starts:
    def solve():
      return HE.compute_hand_eye_calibration(
          [rig.relative(fh, j, i).dq() for i in sets[j]], [rig.relative(fe, j, i).dq() for i in sets[j]],
          c.hand_eye_calibration_scalar_part_equality_tolerance)
    try:
      result = solve()
    except Exception:
      refs.append(None)
      continue
    first = kept[j]
    sub = ([kept[i] for i in sets[j]] if c.ransac_evaluate_refined_model_on_inliers_only
           else list(range(first, n)) + list(range(first)))
    pos, rot = rig.evaluate([rig.relative(hand, first, i) for i in sub],
                            [rig.relative(eyes, first, i) for i in sub], DqPose(result[0]))
    refs.append((result[0], rig.rmse(pos), rig.rmse(rot), len(sets[j]), result[1], result[2]))
  if not out[0]:
    check(out[1] is None, '{}: failure with a transform', what)
    check(not ok or None in refs, '{}: failure although a consensus exists', what)
    rec.outcome('baseline failure')
    return
  check(ok, '{}: success without a consensus', what)
  check(rig.unit_positive(out[1]), '{}: transform {}', what, out[1])
  check(out[4] == m, '{}: {} poses after filtering', what, out[4])
  check(any(r is not None and same(out, r) for r in refs),
        '{}: reported rmse {} inliers {} pose {}; consensus sets: {}', what, out[2], out[3],
        np.round(out[1].copy().to_pose(), 5).tolist(),
        '; '.join(describe(r) for r in refs if r is not None))
  rec.step(m)
  rec.state(('base', case['level'], case['o'], case['pre'], case['inl'], case['ex'], out[2]), 6)
  rec.outcome('baseline success')
