"""Sampling-based calibration under every sampling order and outlier placement."""
import itertools

import numpy as np

from mc import rig
from mc import search
from mc.core import check

from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE

ID = 'C13'
BOUND = {
    'quick': '6 poses, all placements of 0-2 gross outliers; all ordered single draws (sizes '
             '1, 2, 3) and all draw sequences of length 3 (size 1) and 2 (8 representative '
             'ordered triples) x inlier criterion x prefilter x refinement x evaluation mode; '
             '5 hand-eye transforms, 2 base frames, 4 path layouts and sign patterns cycled; '
             '8 pairs of assumed outlier and wanted success probability incl. 0 and 1 cycled; '
             'required inliers exactly available and one more; rejected-only draw schedules',
    'thorough': 'as quick with 7 poses and draw sequences of length 3 of triples'}
MIN_OUTCOMES = 5
CASE_LIMIT_S = 300

# name, criterion, sample size, refinement
SEARCHES = [('rmse_threshold', 3, True), ('rmse_threshold', 3, False),
            ('scalar_part_equality', 1, True), ('scalar_part_equality', 3, True),
            ('scalar_part_equality', 2, False), ('rmse_threshold', 4, True)]

# Assumed outlier probability and wanted success probability, used to stop early.
PRIORS = [(0.5, 0.99), (0.05, 0.99), (0., 0.99), (1., 0.99), (0.5, 1.), (0., 1.), (1., 1.), (0.5, 0.)]


def placements(n):
  for k in (0, 1, 2):
    for o in itertools.combinations(range(n), k):
      yield o


def cases(tier):
  n = 7 if tier == 'thorough' else 6
  i = 0
  for o in placements(n):
    for s in range(len(SEARCHES)):
      for pre in (False, True):
        i += 1
        yield dict(k='single', n=n, o=o, s=s, pre=pre, x=i % 5, w=(i // 5) % 2, v=(i // 3) % 4,
                   g=i % 4, p=(i // 4) % len(PRIORS), inl=bool((i // 2) % 2))
  for o in placements(n):
    for s in range(5):
      for pre in (False, True):
        i += 1
        yield dict(k='sequence', n=n, o=o, s=s, pre=pre, x=i % 5, w=(i // 5) % 2, v=(i // 3) % 4,
                   g=i % 4, p=(i // 4) % len(PRIORS), inl=bool((i // 2) % 2),
                   depth=3 if (SEARCHES[s][1] == 1 or tier == 'thorough') else 2)
  for o in placements(n):
    for s in range(5):
      i += 1
      yield dict(k='minimum', n=n, o=o, s=s, pre=False, x=i % 5, w=i % 2, v=i % 4, g=0, p=i % len(PRIORS), inl=False)
  for i, s in enumerate((0, 3)):
    yield dict(k='default_limit', n=6, o=(0, 1), s=s, pre=False, x=0, w=1, v=0, g=0, p=i % len(PRIORS), inl=False)


def config(case, n_draws, minimum):
  criterion, size, refine = SEARCHES[case['s']]
  c = HE.HandEyeConfig()
  c.algorithm_name = 'search'
  c.min_num_inliers = minimum
  c.prefilter_poses_enabled = case['pre']
  c.prefilter_dot_product_threshold = 0.95
  c.ransac_sample_size = size
  # Rejected samples do not use up iterations.
  c.ransac_max_number_iterations = 1 if case['g'] % 2 else n_draws
  c.ransac_enable_early_abort = case['g'] != 2
  c.ransac_outlier_probability, c.ransac_success_probability_threshold = PRIORS[case['p']]
  c.ransac_max_number_samples = n_draws
  c.ransac_inlier_classification = criterion
  c.ransac_model_refinement = refine
  c.ransac_evaluate_refined_model_on_inliers_only = case['inl']
  return c


def one(case, hand, eyes, kept, script, minimum, rec, cfg=None, budget=2000, expect=None):
  """One run under one draw schedule."""
  n = len(hand)
  size = SEARCHES[case['s']][1]
  x = rig.HAND_EYES[case['x']]
  c = cfg or config(case, len(script), minimum)
  dh, de = [p.dq() for p in hand], [p.dq() for p in eyes]
  sh, se = search.snapshot(dh), search.snapshot(de)
  log = []
  what = 'case {} draws {}'.format(case, script)
  with search.scripted_draws(script, log, budget):
    out = HE.compute_hand_eye_calibration_RANSAC(dh, de, c)
  check(search.unchanged(dh, sh) and search.unchanged(de, se), '{}: input poses modified', what)
  success, dq = out[0], out[1]
  good = maybe = False
  inliers = n - len(case['o'])
  for pos in script:
    sample = [kept[p] for p in pos]
    if any(i in case['o'] for i in sample) or inliers < minimum:
      continue
    maybe = True
    # Without an initial model the consensus alone decides.
    if SEARCHES[case['s']][0] == 'scalar_part_equality' or not rig.degenerate(hand, sample):
      good = True
  if success:
    check(dq is not None, '{}: success without a transform', what)
    check(rig.unit_positive(dq), '{}: result {}', what, dq.dq.tolist())
    check(rig.same_transform(dq, x, 1e-6), '{}: returned {} instead of {}', what,
          dq.copy().to_pose().tolist(), (x.t.tolist(), x.q.tolist()))
    check(maybe, '{}: success although no drawn sample has {} consistent pairs', what, minimum)
  else:
    check(dq is None, '{}: failure with a transform', what)
    check(not good, '{}: no result although an outlier-free sample was drawn', what)
  rec.step(len(script))
  rec.outcome('found' if success else 'no consensus drawn' if not maybe else 'degenerate sample')
  return out


def run(case, rec):
  n = case['n']
  x, w = rig.HAND_EYES[case['x']], rig.BASE_WORLDS[case['w']]
  hand, eyes = search.data(n, x, w, case['o'], case['g'], case['v'])
  if not search.well_separated(hand, eyes, case['o']):
    raise RuntimeError('harness: outliers not separated')
  kept = rig.prefilter(eyes, hand, 0.95) if case['pre'] else list(range(n))
  size = SEARCHES[case['s']][1]
  if len(kept) < max(2, size):
    # Nothing to draw from; not part of the domain.
    rec.outcome('too few distinct poses')
    return
  minimum = n - len(case['o'])
  m = len(kept)
  if case['k'] == 'single':
    samples = (itertools.permutations(range(m), size) if size <= 3 else
               (p + q for q in itertools.combinations(range(m), 3) for p in
                [(i,) for i in range(m) if i not in q]))
    for pos in samples:
      out = one(case, hand, eyes, kept, [pos], minimum, rec)
      rec.state((case['o'], case['s'], case['v'], pos, bool(out[0])))
  elif case['k'] == 'sequence':
    if size == 1:
      alphabet = [(i,) for i in range(m)]
    else:
      perms = list(itertools.permutations(range(m), size))
      step = max(1, len(perms) // 8)
      alphabet = perms[::step][:8]
    for script in itertools.product(alphabet, repeat=case['depth']):
      out = one(case, hand, eyes, kept, list(script), minimum - 1, rec)
      rec.state((case['o'], case['s'], case['v'], script, bool(out[0])))
  elif case['k'] == 'minimum':
    # One more consistent pair required than available: failure, always.
    perms = list(itertools.permutations(range(m), size))[::7]
    for pos in perms:
      cfg = config(case, 20, minimum + 1)
      cfg.ransac_max_number_samples = 12
      out = one(case, hand, eyes, kept, [pos], minimum + 1, rec, cfg)
      check(not out[0], 'case {} draw {}: success with too few consistent pairs', case, pos)
      rec.state((case['o'], case['s'], pos))
    rec.outcome('not enough consistent pairs')
  else:
    # Default limits, every draw contains both outliers: must end by itself.
    cfg = config(case, 20, minimum)
    cfg.ransac_max_number_samples = getattr(
        HE.HandEyeConfig(), 'ransac_max_number_samples', 10000)
    out = one(case, hand, eyes, kept, [(0, 1, 2)], minimum, rec, cfg, budget=10**6)
    check(not out[0], 'case {}: success from rejected samples', case)
    rec.state(('default', case['s']))
    rec.outcome('default limits end the search')
