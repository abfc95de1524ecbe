"""Algorithm presets: what they select, independence, and use on clean data."""
import copy
import itertools

import numpy as np

from mc import rig
from mc import search
from mc.core import check

from hand_eye_calibration import algorithm_config as AC
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE
from hand_eye_calibration.time_alignment import FilteringConfig
from hand_eye_calibration_experiments import all_algorithm_configs as AA

ID = 'C25'
BOUND = {
    'quick': 'all 9 base presets, 11 experiment presets functions x arguments, the preset list; '
             'all histories of length 3 over {request, change a field} x 26 presets pairs; every '
             'preset on clean data: 5 hand-eye transforms x 2 frames x 3 combinations of path '
             'layout and sign pattern, 12-pose and 24-pose paths, sampling presets under 4 first '
             'draws',
    'thorough': 'as quick with all 16 combinations of path layout and sign pattern and 8 first '
                'draws'}
MIN_OUTCOMES = 4
CASE_LIMIT_S = 300


def base_presets():
  """(label, factory, expected)"""
  def want(name, baseline, exhaustive, size, criterion, pre):
    return dict(algorithm_name=name, use_baseline_approach=baseline,
                enable_exhaustive_search=exhaustive, ransac_sample_size=size,
                ransac_inlier_classification=criterion, prefilter_poses_enabled=pre)
  out = []
  for pre in (False, True):
    suffix = '_filter' if pre else '_no_filter'
    out += [(AC.get_RANSAC_classic_config, (pre,),
             want('RC' + suffix, False, False, 3, 'rmse_threshold', pre)),
            (AC.get_RANSAC_scalar_part_inliers_config, (pre,),
             want('RS' + suffix, False, False, 1, 'scalar_part_equality', pre)),
            (AC.get_baseline_config, (pre,),
             want('baseline' + suffix, True, False, None, None, pre))]
  out += [(AC.get_exhaustive_search_pose_inliers_config, (),
           want('EC', False, True, 3, 'rmse_threshold', True)),
          (AC.get_exhaustive_search_scalar_part_inliers_config, (),
           want('ES', False, True, 1, 'scalar_part_equality', True))]
  return out


BASE = base_presets()
BY_NAME = {w['algorithm_name']: w for _, _, w in BASE}


def full_presets():
  """(factory, args, full name, base name, optimise, optimise only)"""
  out = []
  for opt in (False, True):
    o = '_opt' if opt else '_no_opt'
    for pre in (False, True):
      f = '_filter' if pre else '_no_filter'
      out += [(AA.get_baseline_and_optimization_config, (pre, opt), 'baseline' + f + o,
               'baseline' + f, opt, False),
              (AA.get_RC_and_optimization_config, (pre, opt), 'RC' + f + o, 'RC' + f, opt, False),
              (AA.get_RS_and_optimization_config, (pre, opt), 'RS' + f + o, 'RS' + f, opt, False)]
    out += [(AA.get_EC_and_optimization_config, (opt,), 'EC' + o, 'EC', opt, False),
            (AA.get_ES_and_optimization_config, (opt,), 'ES' + o, 'ES', opt, False)]
  out.append((AA.get_optimization_with_spoiled_initial_calibration_config, (),
              'optimization_w_spoiled_init_calibration', 'ES', True, True))
  return out


FULL = full_presets()

# Settings of the basic configuration shared by every preset.
COMMON = dict(min_num_inliers=10, prefilter_dot_product_threshold=0.95,
              ransac_sample_rejection_scalar_part_equality_tolerance=1e-2,
              ransac_max_number_iterations=20, ransac_enable_early_abort=True,
              ransac_outlier_probability=0.5, ransac_success_probability_threshold=0.99,
              ransac_position_error_threshold_m=0.02, ransac_orientation_error_threshold_deg=1.0,
              ransac_model_refinement=True, ransac_evaluate_refined_model_on_inliers_only=False,
              hand_eye_calibration_scalar_part_equality_tolerance=4e-2, visualize=False)
FILTERING = dict(smoothing_kernel_size_A=25, clipping_percentile_A=99.5,
                 smoothing_kernel_size_B=25, clipping_percentile_B=99.0)


def verify_hand_eye(c, want, what):
  for k, v in want.items():
    if v is None:
      continue
    got = getattr(c, k)
    check(got == v and isinstance(got, type(v)), '{}: {} is {!r} instead of {!r}', what, k, got, v)
  for k, v in COMMON.items():
    check(getattr(c, k) == v, '{}: {} is {!r} instead of {!r}', what, k, getattr(c, k), v)
  check(c.ransac_max_number_samples >= c.ransac_max_number_iterations, '{}: {} samples', what,
        c.ransac_max_number_samples)


def verify_filtering(c, what):
  for k, v in FILTERING.items():
    check(getattr(c, k) == v, '{}: {} is {!r} instead of {!r}', what, k, getattr(c, k), v)


def state_of(config):
  """Everything a preset holds, as comparable values."""
  if isinstance(config, (tuple, list)):
    return tuple(state_of(c) for c in config)
  if hasattr(config, '__dict__'):
    return tuple(sorted(vars(config).items()))
  return config


def run_fields(case, rec):
  n = 0
  for f, args, want in BASE:
    for again in range(2):
      filtering, c = f(*args)
      what = '{}{} request {}'.format(f.__name__, args, again)
      verify_hand_eye(c, want, what)
      verify_filtering(filtering, what)
      rec.step()
      rec.state((what, state_of(c)))
  filtering, c = AC.get_basic_config()
  verify_filtering(filtering, 'basic')
  verify_hand_eye(c, dict(use_baseline_approach=False), 'basic')
  for f, args, name, base, opt, only in FULL:
    for again in range(2):
      got, filtering, c, o = f(*args)
      what = '{}{} request {}'.format(f.__name__, args, again)
      check(got == name, '{}: name {!r} instead of {!r}', what, got, name)
      verify_hand_eye(c, BY_NAME[base], what)
      verify_filtering(filtering, what)
      check(o.enable_optimization is opt, '{}: optimisation {}', what, o.enable_optimization)
      check(o.optimization_only is only, '{}: optimisation only {}', what, o.optimization_only)
      rec.step()
      rec.state((what, state_of(c)))
  rec.outcome('fields')


def run_list(case, rec):
  for again in range(2):
    presets = AA.get_all_configs()
    names = [p[0] for p in presets]
    check(len(set(names)) == len(names), 'names repeat: {}', names)
    want = {f[2]: f for f in FULL if not f[5]}
    check(sorted(names) == sorted(want), 'presets {} instead of {}', sorted(names), sorted(want))
    objects = [id(o) for p in presets for o in p[1:]]
    check(len(set(objects)) == len(objects), 'presets share configuration objects')
    for name, filtering, c, o in presets:
      _, _, _, base, opt, only = want[name]
      verify_hand_eye(c, BY_NAME[base], name)
      verify_filtering(filtering, name)
      check(o.enable_optimization is opt and o.optimization_only is only, '{}: optimisation '
            'switch {} {}', name, o.enable_optimization, o.optimization_only)
      rec.step()
      rec.state((name, again))
    # Changes made by a caller must not reach the next request.
    for _, filtering, c, o in presets:
      spoil(filtering)
      spoil(c)
      spoil(o)
  rec.outcome('list')


def spoil(config):
  for k, v in list(vars(config).items()):
    if isinstance(v, bool):
      setattr(config, k, not v)
    elif isinstance(v, str):
      setattr(config, k, v + ' changed')
    else:
      setattr(config, k, v + 17)


ALL = [(f, a) for f, a, _ in BASE] + [(f, a) for f, a, _, _, _, _ in FULL] + [
    (AC.get_basic_config, ()), (HE.HandEyeConfig, ()), (FilteringConfig, ()),
    (AA.OptimizationConfig, ())]


def parts(got):
  return [c for c in (got if isinstance(got, tuple) else (got,)) if hasattr(c, '__dict__')]


def run_histories(case, rec):
  """Requests and changes in every order: every request returns fresh values."""
  a = case['a']
  fresh = {}
  for i in range(len(ALL)):
    fresh[i] = state_of(ALL[i][0](*ALL[i][1]))
  for b in range(len(ALL)):
    for ops in itertools.product('abx', repeat=3):
      live = []
      for op in ops:
        if op == 'x':
          if live:
            k = len(live) - 1
            for c in parts(live[k][1]):
              spoil(c)
            live[k] = (live[k][0], live[k][1], state_of(live[k][1]))
        else:
          i = a if op == 'a' else b
          got = ALL[i][0](*ALL[i][1])
          check(state_of(got) == fresh[i], '{}{} after {}: {} instead of {}', ALL[i][0].__name__,
                ALL[i][1], ops, state_of(got), fresh[i])
          live.append((i, got, state_of(got)))
        for i, got, then in live:
          check(state_of(got) == then, '{}{} changed by history {}', ALL[i][0].__name__,
                ALL[i][1], ops)
        rec.step()
    rec.state((a, b))
  rec.outcome('histories')


def path(n, layout):
  """n hand poses with separated screw axes."""
  out = list(rig.HAND)
  k = 0
  axes = [(1, -0.2, -0.7), (-1, 0.3, 0.2), (0.2, -1, 0.1), (-0.6, -0.7, 0.3), (0.1, 0.4, -1),
          (-0.7, 0.6, 0.5), (0.5, 0.6, -0.8), (-0.5, -0.5, -0.9)]
  while len(out) < n:
    out.append(rig.Pose.aa(axes[k % 8], 0.6 + 0.17 * k, (0.1 * k - 0.4, 0.3 - 0.07 * k, 0.2 * (k % 3))))
    k += 1
  out = out[:n]
  if layout == 1:
    out = out[::-1]
  elif layout == 2:
    out = out[5:] + out[:5]
  elif layout == 3:
    out = [out[(5 * i) % n] for i in range(n)] if n % 5 else out
  return out


def run_clean(case, rec):
  f, args, name, base, opt, only = FULL[case['p']]
  for n in (12, 24):
    # All 2024 samples of 24 poses are tried for a single data set.
    if n == 24 and base == 'EC' and (case['x'] or case['w'] or opt or case['layout']):
      continue
    x, w = rig.HAND_EYES[case['x']], rig.BASE_WORLDS[case['w']]
    hand = path(n, case['layout'])
    eyes = rig.eye(hand, x, w)
    g = case['signs']
    hand = [p.positive() for p in hand]
    eyes = [p.positive() for p in eyes]
    if g == 1:
      hand = [p.neg() for p in hand]
    elif g:
      hand = [p.neg() if i % (g + 1) == 1 else p for i, p in enumerate(hand)]
      eyes = [p.neg() if i % (g + 2) == 2 else p for i, p in enumerate(eyes)]
    dh, de = [p.dq() for p in hand], [p.dq() for p in eyes]
    dh, de = HE.align_paths_at_index(dh), HE.align_paths_at_index(de)
    c = f(*args)[2]
    kept = n
    if c.prefilter_poses_enabled:
      rh = [rig.relative(hand, 0, i) for i in range(n)]
      re = [rig.relative(eyes, 0, i) for i in range(n)]
      kept = len(rig.prefilter(re, rh, 0.95))
    for d in range(len(case['draws'])):
      if c.use_baseline_approach or c.enable_exhaustive_search:
        if d:
          continue
        result = calibrate(c, dh, de)
      else:
        size = c.ransac_sample_size
        first = case['draws'][d] % kept
        script = [tuple((first + (i + 1) * j) % kept for j in range(size))
                  for i in range(20)]
        script = [s for s in script if len(set(s)) == size]
        with search.scripted_draws(script, []):
          result = calibrate(c, dh, de)
      what = '{} on {} clean poses'.format(name, n)
      if kept <= c.min_num_inliers:
        # Too few distinct poses for the configured minimum: failure is allowed.
        rec.outcome('few distinct poses')
        if result is None or not result[0]:
          rec.step()
          continue
      check(result is not None and result[0], '{}: failed', what)
      check(rig.same_transform(result[1], x, 1e-6), '{}: {} instead of {}', what, result[1].dq,
            x.vec)
      check(rig.unit_positive(result[1]), '{}: quaternion {}', what, result[1].dq)
      check(c.ransac_sample_size <= kept, '{}: sample size', what)
      rec.step()
      rec.state((case['p'], n, case['x'], case['w'], case['layout'], g, d))
      rec.outcome('calibrated ' + base)


def calibrate(c, dh, de):
  try:
    if c.use_baseline_approach:
      return HE.compute_hand_eye_calibration_BASELINE(dh, de, c)
    return HE.compute_hand_eye_calibration_RANSAC(dh, de, c)
  except AssertionError:
    # The baseline method signals too few inliers this way.
    if c.use_baseline_approach:
      return None
    raise


def cases(tier):
  yield dict(k='fields')
  yield dict(k='list')
  for a in range(len(ALL)):
    yield dict(k='histories', a=a)
  deep = tier == 'thorough'
  for p in range(len(FULL)):
    for x in range(5):
      for w in range(2):
        for layout in range(4 if deep else 3):
          for g in range(4 if deep else 3):
            if not deep and (layout + g + x + w) % 3:
              continue
            # Presets differing in the optimisation switch only: one data set each.
            if FULL[p][4] and (x or w):
              continue
            yield dict(k='clean', p=p, x=x, w=w, layout=layout, signs=g,
                       draws=list(range(8 if deep else 4)))


RUNS = dict(fields=run_fields, list=run_list, histories=run_histories, clean=run_clean)


def run(case, rec):
  RUNS[case['k']](case, rec)
