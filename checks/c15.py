"""Exhaustive and baseline searches for every outlier placement."""
import itertools

import numpy as np

from mc import rig
from mc import search
from mc.core import check

from hand_eye_calibration import algorithm_config as AC
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE

ID = 'C15'
BOUND = {
    'quick': '7 poses, all placements of 0-4 gross outliers and all 3-pose minorities agreeing '
             'on another transform x 9 search settings (4 exhaustive, 4 baseline, 1 two-sample) '
             'x prefilter x required inliers exactly available, fewer and one more; path '
             'layouts, transforms, frames and sign patterns cycled; every run repeated under '
             'forbidden randomness and under two random states',
    'thorough': 'as quick with 8 poses, all 4 path layouts for each placement'}
MIN_OUTCOMES = 5
CASE_LIMIT_S = 300

# strategy, criterion, sample size, refinement, exhaustive
SEARCHES = [('ransac', 'rmse_threshold', 3, True, True),
            ('ransac', 'scalar_part_equality', 1, True, True),
            ('ransac', 'rmse_threshold', 3, False, True),
            ('ransac', 'scalar_part_equality', 3, True, True),
            ('ransac', 'scalar_part_equality', 2, False, True),
            ('baseline', None, 1, True, False),
            ('baseline', None, 1, True, True),
            ('preset EC', 'rmse_threshold', 3, True, True),
            ('preset ES', 'scalar_part_equality', 1, True, True),
            ('preset baseline', None, 1, True, False)]


def cases(tier):
  n = 8 if tier == 'thorough' else 7
  i = 0
  for k in range(5):
    for o in itertools.combinations(range(n), k):
      for s in range(len(SEARCHES)):
        for pre in (False, True):
          if SEARCHES[s][0] in ('preset EC', 'preset ES') and not pre:
            continue
          for v in (range(4) if tier == 'thorough' else [i % 4]):
            i += 1
            yield dict(k='outliers', n=n, o=o, s=s, pre=pre, v=v, x=i % 5, w=(i // 5) % 2,
                       g=(i // 3) % 3, inl=bool((i // 2) % 2))
          if k == 3:
            i += 1
            yield dict(k='minority', n=n, o=o, s=s, pre=pre, v=i % 4, x=i % 5, w=(i // 5) % 2,
                       g=0, inl=bool((i // 2) % 2))


def config(case, minimum):
  strategy, criterion, size, refine, exhaustive = SEARCHES[case['s']]
  if strategy == 'preset EC':
    c = AC.get_exhaustive_search_pose_inliers_config()[1]
  elif strategy == 'preset ES':
    c = AC.get_exhaustive_search_scalar_part_inliers_config()[1]
  elif strategy == 'preset baseline':
    c = AC.get_baseline_config(case['pre'])[1]
  else:
    c = HE.HandEyeConfig()
    c.use_baseline_approach = strategy == 'baseline'
    c.enable_exhaustive_search = exhaustive
    c.prefilter_poses_enabled = case['pre']
    c.prefilter_dot_product_threshold = 0.95
    c.ransac_sample_size = size
    c.ransac_inlier_classification = criterion or 'scalar_part_equality'
    c.ransac_model_refinement = refine
    c.ransac_evaluate_refined_model_on_inliers_only = case['inl']
  c.min_num_inliers = minimum
  return c


def compute(dh, de, c):
  if c.use_baseline_approach:
    return HE.compute_hand_eye_calibration_BASELINE(dh, de, c)
  return HE.compute_hand_eye_calibration_RANSAC(dh, de, c)


def outcome(hand, eyes, c, what):
  """The result of a run that may not consult randomness: None for failure."""
  dh, de = [p.dq() for p in hand], [p.dq() for p in eyes]
  sh, se = search.snapshot(dh), search.snapshot(de)
  with search.forbidden_randomness() as consulted:
    try:
      out = compute(dh, de, c)
    except Exception as e:
      out = (False, None, e)
    except search.RandomConsulted:
      out = None
  check(out is not None and not consulted, '{}: consulted a random generator', what)
  check(search.unchanged(dh, sh) and search.unchanged(de, se), '{}: input poses modified', what)
  return out


def run(case, rec):
  n, o = case['n'], case['o']
  x, w = rig.HAND_EYES[case['x']], rig.BASE_WORLDS[case['w']]
  if case['k'] == 'minority':
    hand, eyes = search.minority(n, x, w, o, case['v'])
    clear = search.well_split(hand, eyes, o)
  else:
    hand, eyes = search.data(n, x, w, o, case['g'], case['v'])
    clear = search.well_separated(hand, eyes, o)
  if not clear:
    rec.outcome('outside the domain')
    return
  strategy, criterion, size, _, exhaustive = SEARCHES[case['s']]
  baseline = strategy.endswith('baseline')
  # The baseline method matches the quaternion signs of each pair first.
  filt_eyes = [e.neg() if e.q[3] * h.q[3] < 0 else e for h, e in zip(hand, eyes)] \
      if baseline else eyes
  kept = rig.prefilter(filt_eyes, hand, 0.95) if case['pre'] else list(range(n))
  good = [i for i in range(n) if i not in o]
  kept_good = [i for i in kept if i in good]
  pool = kept_good if baseline else good
  # Enough information for the solver among the poses that reach it.
  if rig.degenerate(hand, pool) or not kept_good:
    rec.outcome('outside the domain')
    return
  findable = True
  if criterion == 'rmse_threshold':
    findable = any(not rig.degenerate(hand, s) for s in itertools.combinations(kept_good, size))
    if not findable and len(kept_good) >= size:
      rec.outcome('outside the domain')
      return
  elif not baseline:
    findable = len(kept_good) >= size
  available = len(pool)
  minima = [available, available + 1]
  if baseline and not exhaustive:
    # Asks for strictly more pairs than the minimum; equality may go either way.
    minima = [available - 1, available + 1]
  if case['k'] == 'minority':
    if len([i for i in (kept if baseline else range(n)) if i in o]) >= minima[0]:
      # Only the exhaustive baseline prefers the larger of two large enough sets.
      rec.outcome('outside the domain')
      return
  elif available >= 4:
    minima.append(3 if not (baseline and not exhaustive) else 2)
  if case['k'] == 'minority' and baseline and exhaustive:
    minima.append(2)
  for minimum in minima:
    what = 'case {} required inliers {}'.format(case, minimum)
    out = outcome(hand, eyes, config(case, minimum), what)
    if findable and minimum <= available:
      check(out[0], '{}: no result although {} consistent pairs exist ({})', what, available,
            out[2])
      check(rig.unit_positive(out[1]), '{}: result {}', what, out[1])
      check(rig.same_transform(out[1], x, 1e-6), '{}: returned {} instead of {}', what,
            out[1].copy().to_pose().tolist(), (x.t.tolist(), x.q.tolist()))
      check(out[3] == available, '{}: {} inliers reported, {} exist', what, out[3], available)
      rec.outcome('found by ' + strategy)
    else:
      check(not out[0] and out[1] is None, '{}: reports a transform', what)
      rec.outcome('refused by ' + strategy)
    rec.step()
    rec.state((case['k'], o, case['s'], case['pre'], case['v'], case['x'], minimum, bool(out[0])))
  # The same result under different random states.
  results = []
  state, npstate = search.random.getstate(), np.random.get_state()
  try:
    for seed in (1, 2):
      search.random.seed(seed)
      np.random.seed(seed)
      dh, de = [p.dq() for p in hand], [p.dq() for p in eyes]
      try:
        r = compute(dh, de, config(case, minima[0]))
        results.append((r[0], None if r[1] is None else r[1].dq.tolist(), r[2], r[3], r[4]))
      except Exception as e:
        results.append(type(e).__name__)
  finally:
    search.random.setstate(state)
    np.random.set_state(npstate)
  check(results[0] == results[1], 'case {}: results differ between random states: {} {}', case,
        results[0], results[1])
  rec.step(2)
