"""Plots: what they show and that they never change a result."""
import contextlib
import itertools
import warnings

import matplotlib
matplotlib.use('Agg')
from matplotlib import colors
from matplotlib import pylab
from matplotlib import pyplot
from matplotlib.patches import FancyArrowPatch
from mpl_toolkits.mplot3d import proj3d
import numpy as np

from mc import model as M
from mc import rig
from mc import search
from mc.core import check

from hand_eye_calibration import calibration_verification as CV
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE
from hand_eye_calibration import hand_eye_calibration_plotting_tools as HP
from hand_eye_calibration import time_alignment as TA
from hand_eye_calibration import time_alignment_plotting_tools as TP
from hand_eye_calibration.quaternion import Quaternion

ID = 'C30'
BOUND = {
    'quick': 'pose plots: all lists of 1 and 2 trajectories over 5 lengths, 3 to 5 trajectories, '
             'x arrows on/off x 3 titles x blocking; curve plots: 5 lengths of each stream x '
             'blocking x time origins; every calculation with plots on and off: time offsets '
             '(9 recordings), alignments (all pairs of 4 start times, with and without overlap, '
             '2 rates), evaluations (1 to 12 poses x 3 thinning factors x 3 transforms), loop '
             'errors (2 to 5 sensors), 8 searches x clean and outlier data x 2 thinning factors; '
             'every history of 2 plots over 6 plot kinds',
    'thorough': 'as quick with 3 trajectories over 5 lengths and histories of 3 plots'}
MIN_OUTCOMES = 4
CASE_LIMIT_S = 300
ASSUMPTIONS = ['windows are drawn off screen by matplotlib instead of being shown']


@contextlib.contextmanager
def windows():
  """Collects (figure, block flag) of every figure shown."""
  pyplot.close('all')
  shown = []
  seen = set()

  def show(*a, **k):
    for n in pyplot.get_fignums():
      f = pyplot.figure(n)
      f.canvas.draw()
      if n not in seen:
        seen.add(n)
        shown.append((f, k.get('block', a[0] if a else True)))

  saved = pyplot.show, pylab.show
  pyplot.show = pylab.show = show
  try:
    with warnings.catch_warnings():
      # Identical axis limits of a single pose.
      warnings.simplefilter('ignore')
      yield shown
  finally:
    pyplot.show, pylab.show = saved
    pyplot.close('all')


def one(shown, block, what):
  check(len(shown) == 1, '{}: {} windows', what, len(shown))
  check(bool(shown[0][1]) == bool(block), '{}: blocking {} instead of {}', what, shown[0][1], block)
  return shown[0][0]


def curves(axes):
  return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float),
           colors.to_rgba(l.get_color())) for l in axes.get_lines()]


def same(a, b):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * max(1.0, np.abs(b).max()
                                                                       if b.size else 1.0)))


def verify_curves(axes, want, what):
  """want: list of (x or None for sample numbers, y, colour or None)."""
  got = curves(axes)
  check(len(got) == len(want), '{}: {} curves instead of {}', what, len(got), len(want))
  for x, y, c in want:
    y = np.asarray(y, float).ravel()
    x = np.arange(len(y)) if x is None else x
    check(any(same(gx, x) and same(np.ravel(gy), y) and (c is None or gc == colors.to_rgba(c))
              for gx, gy, gc in got), '{}: no {} curve {} over {} among {}', what, c, y.tolist(),
          np.asarray(x).tolist(), [(g[0].tolist(), g[1].tolist(), g[2]) for g in got])


# -- pose plots ------------------------------------------------------------

POSES = rig.HAND + [rig.Pose.aa((1, 2, 0), 3.1, (1.5, -2, 0.7)), rig.IDENTITY.neg(),
                    rig.Pose.aa((0, 0, 1), M.PI, (0, 0, -1)), rig.HAND[3].neg()]


def trajectory(k, n):
  return np.array([np.hstack((POSES[(3 * k + i) % 12].t + 0.1 * k, POSES[(3 * k + i) % 12].q))
                   for i in range(n)])


def verify_poses(figure, trajectories, arrows, what):
  check(len(figure.axes) == 1, '{}: {} axes', what, len(figure.axes))
  ax = figure.axes[0]
  lines = [np.array(l.get_data_3d(), float) for l in ax.get_lines()]
  for k, t in enumerate(trajectories):
    check(any(same(l, t[:, :3].T) for l in lines), '{}: trajectory {} is not drawn', what, k)
    for p in t:
      check(any(same(l, p[:3].reshape(3, 1)) for l in lines), '{}: pose {} of trajectory {} is '
            'not marked', what, p.tolist(), k)
  low = min(t[:, :3].min() for t in trajectories)
  high = max(t[:, :3].max() for t in trajectories)
  for name, (a, b) in (('x', ax.get_xlim3d()), ('y', ax.get_ylim3d()), ('z', ax.get_zlim3d())):
    check(a <= low + 1e-9 and b >= high - 1e-9, '{}: {} axis {}..{} cuts off poses {}..{}', what,
          name, a, b, low, high)
  drawn = [a for a in ax.get_children() if isinstance(a, FancyArrowPatch)]
  if not arrows:
    check(not drawn, '{}: {} arrows', what, len(drawn))
    return
  every = np.vstack([t[:, :3] for t in trajectories])
  size = 0.05 * np.linalg.norm(every.max(axis=0) - every.min(axis=0))
  check(len(drawn) == 3 * len(every), '{}: {} arrows instead of {}', what, len(drawn),
        3 * len(every))
  ends = [(np.hstack(a._posA_posB), colors.to_rgba(a.get_edgecolor())) for a in drawn]
  for p in np.vstack(trajectories):
    r = M.quat_to_rot(p[3:])
    for axis, c in ((0, 'r'), (1, 'g'), (2, 'b')):
      tip = p[:3] + size * r[:, axis]
      xs, ys, _ = proj3d.proj_transform([p[0], tip[0]], [p[1], tip[1]], [p[2], tip[2]], ax.M)
      want = np.array([xs[0], ys[0], xs[1], ys[1]])
      check(any(np.allclose(e, want, rtol=0, atol=1e-7) and k == colors.to_rgba(c)
                for e, k in ends), '{}: no {} arrow for axis {} of pose {}', what, c, axis,
            p.tolist())


def run_poses(case, rec):
  ts = [trajectory(k, n) for k, n in enumerate(case['n'])]
  for arrows, title, block in case['looks']:
    keep = [t.copy() for t in ts]
    what = 'plot of {} poses arrows={} title={!r}'.format(case['n'], arrows, title)
    with windows() as shown:
      HP.plot_poses(ts, arrows, title, block)
      figure = one(shown, block, what)
      verify_poses(figure, keep, arrows, what)
      if title:
        check(title in [t.get_text() for t in figure.texts] or
              title == figure.axes[0].get_title(), '{}: title missing', what)
    check(all(np.array_equal(a, b) for a, b in zip(ts, keep)), '{}: poses modified', what)
    high, low = HP.compute_bbox_3D(ts)
    every = np.vstack(ts)[:, :3]
    check(same(high, every.max(axis=0)) and same(low, every.min(axis=0)), '{}: bounding box {} {}',
          what, high, low)
    rec.step()
    rec.state((case['n'], arrows, title, block))
  rec.outcome('pose plots')


# -- curve plots -----------------------------------------------------------

LENGTHS = [1, 2, 3, 7, 12]


def wave(n, k):
  return np.array([np.sin(1.3 * i + k) + 0.2 * k for i in range(n)])


def stamped(n, origin, k):
  return np.array([np.hstack(([origin + 0.1 * i], POSES[(i + k) % 12].t, POSES[(i + k) % 12].q))
                   for i in range(n)])


def run_errors(case, rec):
  for n, block in itertools.product(LENGTHS, (True, False)):
    pos, rot = np.abs(wave(n, 1)).reshape(n, 1), np.abs(wave(n, 2)).reshape(n, 1)
    keep = pos.copy(), rot.copy()
    what = 'error plot of {} poses'.format(n)
    with windows() as shown:
      HP.plot_alignment_errors(pos, 0.25, rot, 1.5, block)
      axes = one(shown, block, what).axes
      check(len(axes) == 2, '{}: {} axes', what, len(axes))
      verify_curves(axes[0], [(None, pos, 'r'), (None, np.full(n, 0.25), 'k')], what)
      verify_curves(axes[1], [(None, rot, 'r'), (None, np.full(n, 1.5), 'k')], what)
    check(np.array_equal(pos, keep[0]) and np.array_equal(rot, keep[1]), '{}: errors modified', what)
    rec.step()
    rec.state(('errors', n, block))
  rec.outcome('curve plots')


def run_results(case, rec):
  for n, block in itertools.product(LENGTHS, (True, False)):
    m = case['m']
    ta = case['origin'] + 0.1 * np.arange(n)
    tb = case['origin'] + case['shift'] + 0.1 * np.arange(m)
    a, b, c = wave(n, 1), wave(m, 2), wave(n + m - 1, 3)
    offset = 0.75
    keep = [v.copy() for v in (ta, tb, a, b, c)]
    what = 'offset plot of {} and {} samples'.format(n, m)
    with windows() as shown:
      TP.plot_results(ta, tb, a, b, c, offset, block)
      axes = one(shown, block, what).axes
      check(len(axes) == 3, '{}: {} axes', what, len(axes))
      zero = min(ta[0], tb[0])
      verify_curves(axes[0], [(ta - zero, a, 'r'), (tb - zero, b, 'b')], what)
      verify_curves(axes[1], [(np.arange(-n + 1, m), c, None)], what)
      zero = min(ta[0] + offset, tb[0])
      verify_curves(axes[2], [(ta + offset - zero, a, 'r'), (tb - zero, b, 'b')], what)
    check(all(np.array_equal(x, y) for x, y in zip((ta, tb, a, b, c), keep)), '{}: signals '
          'modified', what)
    rec.step()
    rec.state(('results', n, m, block, case['origin'], case['shift']))
  rec.outcome('curve plots')


def run_streams(case, rec):
  n = case['n']
  for m, block in itertools.product([0] + LENGTHS if n == 0 else LENGTHS, (True, False)):
    a, b = stamped(n, 5.0, 1).reshape(n, 8), stamped(m, 5.05, 2).reshape(m, 8)
    keep = a.copy(), b.copy()
    what = 'pose curves of {} and {} poses'.format(n, m)
    with windows() as shown:
      TP.plot_time_stamped_poses('poses', a, b, block)
      axes = one(shown, block, what).axes
      check(len(axes) == 4, '{}: {} axes', what, len(axes))
      for (k, s) in ((0, a), (2, b)):
        verify_curves(axes[k], [(None, s[:, i], c) for i, c in zip((4, 5, 6, 7), 'rgbc')], what)
        verify_curves(axes[k + 1], [(None, s[:, i], c) for i, c in zip((1, 2, 3), 'rgb')], what)
    check(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), '{}: poses modified', what)
    rec.step()
    rec.state(('streams', n, m, block))
    v, w = wave(3 * (n + 1), 1).reshape(-1, 3), wave(3 * (m + 1), 2).reshape(-1, 3)
    what = 'velocities {} {}'.format(n + 1, m + 1)
    with windows() as shown:
      TP.plot_angular_velocities('velocities', v, w, block)
      axes = one(shown, block, what).axes
      check(len(axes) == 2, '{}: {} axes', what, len(axes))
      for k, s in ((0, v), (1, w)):
        verify_curves(axes[k], [(None, s[:, i], c) for i, c in zip((0, 1, 2), 'rgb')], what)
    rec.step()
    rec.state(('velocities', n, m, block))
  rec.outcome('curve plots')


def run_inputs(case, rec):
  n = case['n']
  for m, block in itertools.product(LENGTHS, (True, False)):
    qs = [[POSES[(i + k) % 12].q for i in range(l)] for k, l in ((0, n), (2, m), (4, m), (6, n))]
    norms = [wave(l, k) for k, l in ((1, n), (2, m), (3, n), (4, m))]
    what = 'input plot of {} and {} samples'.format(n, m)
    with windows() as shown:
      TP.plot_input_data(*([[Quaternion(q=q.copy()) for q in s] for s in qs] + norms + [block]))
      axes = one(shown, block, what).axes
      check(len(axes) == 8, '{}: {} axes', what, len(axes))
      for k, s in ((0, 0), (1, 2), (4, 1), (5, 3)):
        q = np.array(qs[s])
        verify_curves(axes[k], [(None, q[:, i], c) for i, c in zip(range(4), 'rgbc')], what)
      for k, s, c in ((2, 0, 'r'), (3, 2, 'r'), (6, 1, 'b'), (7, 3, 'b')):
        verify_curves(axes[k], [(None, norms[s], c)], what)
    rec.step()
    rec.state(('inputs', n, m, block))
  rec.outcome('curve plots')


# -- results with plots on and off -----------------------------------------

def flat(v):
  """Comparable form of a result."""
  if isinstance(v, (tuple, list)):
    return tuple(flat(x) for x in v)
  if isinstance(v, np.ndarray):
    return ('array', v.shape, v.tobytes())
  if hasattr(v, 'dq'):
    return ('dq', v.dq.tobytes())
  if isinstance(v, float):
    return ('float', repr(float(v)))
  return v


def outcome_of(f):
  try:
    return flat(f())
  except AssertionError:
    return 'refused'


def on_off(quiet, plotted, least, what, rec):
  """Runs both, returns the figures shown with plots on (still open)."""
  with windows() as shown:
    off = outcome_of(quiet)
    check(not shown and not pyplot.get_fignums(), '{}: plots off but windows opened', what)
  return_figures = []
  with windows() as shown:
    on = outcome_of(plotted)
    check(on == off, '{}: result with plots {} instead of {}', what, on, off)
    if on != 'refused':
      check(len(shown) >= least, '{}: {} windows shown, expected {}', what, len(shown), least)
    for f, _ in shown:
      check(f.axes, '{}: empty window', what)
    return_figures = [f for f, _ in shown]
  rec.step(2)
  return on, return_figures


def config(case):
  c = TA.FilteringConfig()
  c.smoothing_kernel_size_A = c.smoothing_kernel_size_B = case.get('kernel', 1)
  c.clipping_percentile_A = c.clipping_percentile_B = case.get('clip', 99.5)
  return c


def run_offset(case, rec):
  n, delay = case['n'], case['delay']
  times = case['origin'] + 0.1 * np.arange(n)
  angles = np.cumsum([abs(np.sin(0.7 * i) + 0.3 * np.sin(2.3 * i)) * 0.2 for i in range(n + delay)])
  qs = [M.axis_angle_quat((1, 2, 3), a) for a in angles]
  qa = lambda: [Quaternion(q=q.copy()) for q in qs[delay:delay + n]]
  qb = lambda: [Quaternion(q=q.copy()) for q in qs[:n]]
  c = config(case)
  run_one = lambda plot: TA.calculate_time_offset(times.copy(), qa(), times.copy(), qb(), c, plot)
  what = 'time offset of {}'.format(case)
  got, _ = on_off(lambda: run_one(False), lambda: run_one(True), 3, what, rec)
  rec.state((case, got))
  a, b = wave(n, 1), wave(n, 1)[::-1].copy()
  run_two = lambda plot: TA.calculate_time_offset_from_signals(times.copy(), a.copy(),
                                                               times.copy(), b.copy(), plot)
  on_off(lambda: run_two(False), lambda: run_two(True), 1, what + ' from signals', rec)
  v = wave(3 * n, 1).reshape(n, 3)
  run_three = lambda plot: TA.filter_and_smooth_angular_velocity(v.copy(), c.smoothing_kernel_size_A,
                                                                 c.clipping_percentile_A, plot)
  on_off(lambda: run_three(False), lambda: run_three(True), 1, what + ' filter', rec)
  rec.outcome('time offsets')


def run_alignment(case, rec):
  a, b = stamped(case['na'], case['a'], 0), stamped(case['nb'], case['b'], 3)
  if case['slow']:
    b = b[::2].copy()
  for offset in (0.0, 0.25, -0.5):
    what = 'alignment {} under {}'.format(case, offset)
    compute = lambda plot: TA.compute_aligned_poses(a.copy(), b.copy(), offset, plot)
    got, figures = on_off(lambda: compute(False), lambda: compute(True), 1, what, rec)
    rec.state((case, offset, got))
    rec.outcome('alignment' if figures and len(figures[0].axes[0].get_lines()[0].get_ydata())
                else 'alignment without poses')


def run_evaluation(case, rec):
  n = case['n']
  hand = [POSES[i % 12] for i in range(n)]
  x = rig.HAND_EYES[case['x']]
  eyes = rig.eye(hand, x, rig.BASE_WORLDS[1])
  estimate = x if case['e'] == 0 else x * rig.Pose.aa((1, 0, 2), 0.01 * case['e'], (0.01, 0, 0))
  a = np.array([np.hstack((p.t, p.q)) for p in hand])
  b = np.array([np.hstack(((p * estimate.inv()).t, (p * estimate.inv()).q)) for p in eyes])
  c = HE.HandEyeConfig()
  c.visualize_plot_every_nth_pose = case['nth']
  what = 'evaluation {}'.format(case)
  run_one = lambda plot: HE.evaluate_alignment(a.copy(), b.copy(), c, plot)
  got, figures = on_off(lambda: run_one(False), lambda: run_one(True), 1, what, rec)
  # The curves are the errors the reported values are computed from.
  rms = [np.sqrt(np.mean(np.square(curves(ax)[0][1]))) for ax in figures[0].axes]
  value = HE.evaluate_alignment(a.copy(), b.copy(), c, False)
  check(same(rms, value[:2]), '{}: curves with RMSE {} shown for {}', what, rms, value[:2])
  for ax, v in zip(figures[0].axes, value):
    check(same(curves(ax)[1][1].ravel(), np.full(n, v)), '{}: RMSE line', what)
  if n > 1:
    ta = np.hstack((0.1 * np.arange(n).reshape(n, 1), a))
    tb = np.hstack((0.1 * np.arange(n).reshape(n, 1), np.array([np.hstack((p.t, p.q))
                                                                for p in eyes])))

    def run_two(plot):
      c.visualize = plot
      return CV.evaluate_calibration(ta.copy(), tb.copy(), estimate.dq(), case['offset'], c)

    got, figures = on_off(lambda: run_two(False), lambda: run_two(True), 0,
                          what + ' of recordings', rec)
    if np.all(np.isfinite(run_two(False)[0])):
      drawn = [f.axes[0].get_lines() for f in figures if hasattr(f.axes[0], 'get_zlim')]
      check(len(figures) > 1 and drawn and max(
          np.size(l.get_data_3d()[0]) for l in drawn[0]) >= 1, '{}: poses not shown', what)
  rec.state((case, got))
  rec.outcome('evaluations')


def run_loop(case, rec):
  n = case['n']
  sensors = [rig.HAND_EYES[(i + case['k']) % 5] * POSES[i] for i in range(n)]
  pairs = [sensors[i].inv() * sensors[j] for i, j in itertools.combinations(range(n), 2)]
  pairs[0] = pairs[0] * rig.Pose.aa((1, 1, 0), 0.1 * case['k'], (0.02, 0, 0))
  compute = lambda plot: CV.compute_loop_error([p.dq() for p in pairs], n, plot)
  got, figures = on_off(lambda: compute(False), lambda: compute(True), 1, 'loop {}'.format(case), rec)
  # The chain drawn starts at the origin and ends with the position error.
  path = max((np.array(l.get_data_3d(), float) for l in figures[0].axes[0].get_lines()),
             key=lambda d: d.shape[1])
  error = CV.compute_loop_error([p.dq() for p in pairs], n)[0]
  check(path.shape[1] == n + 1, 'loop {}: {} frames drawn', case, path.shape[1])
  check(not np.any(path[:, 0]), 'loop {}: starts at {}', case, path[:, 0])
  check(abs(np.linalg.norm(path[:, -1] - path[:, 0]) - error) < 1e-9, 'loop {}: drawn gap {} '
        'instead of {}', case, np.linalg.norm(path[:, -1] - path[:, 0]), error)
  rec.state((case, got))
  rec.outcome('loop errors')


SEARCHES = [(False, True, 'rmse_threshold', 3), (False, True, 'scalar_part_equality', 1),
            (False, False, 'rmse_threshold', 3), (False, False, 'scalar_part_equality', 1),
            (True, False, 'scalar_part_equality', 1), (True, True, 'scalar_part_equality', 1)]


def run_search(case, rec):
  baseline, exhaustive, criterion, size = SEARCHES[case['s']]
  hand, eyes = search.data(8, rig.HAND_EYES[case['x']], rig.BASE_WORLDS[1], case['o'])

  def compute(plot):
    c = HE.HandEyeConfig()
    c.use_baseline_approach = baseline
    c.enable_exhaustive_search = exhaustive
    c.ransac_inlier_classification = criterion
    c.ransac_sample_size = size
    c.prefilter_poses_enabled = case['pre']
    c.prefilter_dot_product_threshold = 0.95
    c.ransac_max_number_samples = 40
    c.min_num_inliers = case['min']
    c.visualize = plot
    c.visualize_plot_every_nth_pose = case['nth']
    dh = HE.align_paths_at_index([p.dq() for p in hand])
    de = HE.align_paths_at_index([p.dq() for p in eyes])
    f = HE.compute_hand_eye_calibration_BASELINE if baseline else \
        HE.compute_hand_eye_calibration_RANSAC
    script = [tuple((i + j * (1 + i % 2)) % 5 for j in range(size)) for i in range(12)]
    with search.scripted_draws(script, []):
      result = f(dh, de, c)
    # All but the run time.
    return result[:5] + result[6:]

  what = 'search {} {}'.format(SEARCHES[case['s']], case)
  got, _ = on_off(lambda: compute(False), lambda: compute(True), 0, what, rec)
  rec.state((case, got))
  rec.outcome('searches refused' if got == 'refused' or not got[0] else 'searches')


# -- several plots one after another ---------------------------------------

def kinds():
  ts = [trajectory(0, 3), trajectory(1, 2)]
  e = np.abs(wave(4, 1)).reshape(4, 1)
  a, b = stamped(3, 0.0, 1), stamped(4, 0.05, 2)
  v = wave(12, 1).reshape(4, 3)
  q = [Quaternion(q=p.q.copy()) for p in POSES[:4]]
  return [lambda: HP.plot_poses(ts, True, 'poses', False),
          lambda: HP.plot_alignment_errors(e, 0.1, e, 0.2, False),
          lambda: TP.plot_results(0.1 * np.arange(4), 0.1 * np.arange(4), wave(4, 1), wave(4, 2),
                                  wave(7, 1), 0.3, False),
          lambda: TP.plot_time_stamped_poses('streams', a, b, False),
          lambda: TP.plot_angular_velocities('velocities', v, v, False),
          lambda: TP.plot_input_data(q, q, q, q, wave(4, 1), wave(4, 2), wave(4, 3), wave(4, 4),
                                     False)]


def content(figure):
  out = []
  for ax in figure.axes:
    for l in ax.get_lines():
      d = l.get_data_3d() if hasattr(l, 'get_data_3d') else l.get_data()
      out.append(tuple(np.round(np.ravel(x), 9).tolist() for x in d))
  return out


def run_history(case, rec):
  """A plot made after others, still open, looks as if made alone."""
  plots = kinds()
  with windows() as shown:
    plots[case['h'][-1]]()
    alone = content(shown[-1][0])
  with windows() as shown:
    for k in case['h']:
      plots[k]()
      rec.step()
    check(len(shown) == len(case['h']), 'plots {}: {} windows', case['h'], len(shown))
    check(content(shown[-1][0]) == alone, 'plots {}: last one shows other data than alone',
          case['h'])
  rec.state(case['h'])
  rec.outcome('histories')


def cases(tier):
  deep = tier == 'thorough'
  looks = list(itertools.product((True, False), ('', 'Poses', 'a [b]'), (True, False)))
  for k in (1, 2, 3) if deep else (1, 2):
    for i, n in enumerate(itertools.product((1, 2, 3, 5, 9), repeat=k)):
      yield dict(k='poses', n=n, looks=looks if k == 1 else [looks[i % 12], looks[(5 * i + 7) % 12]])
  for n in ((1, 1, 1), (4, 2, 3), (2, 2, 2, 2), (1, 2, 3, 4, 5), (5, 4, 3, 2, 1)):
    yield dict(k='poses', n=n, looks=looks[:1] + looks[-1:])
  yield dict(k='errors')
  for m in LENGTHS:
    for origin in (0.0, 1476028547.25):
      for shift in (0.0, 1.5, -1.5):
        yield dict(k='results', m=m, origin=origin, shift=shift)
  for n in [0] + LENGTHS:
    yield dict(k='streams', n=n)
  for n in LENGTHS:
    yield dict(k='inputs', n=n)
  for n in (4, 9, 30):
    for delay in (0, 2, 5):
      yield dict(k='offset', n=n, delay=delay, origin=[0.0, 1476028547.25, -3.0][delay % 3],
                 kernel=[1, 3][delay % 2], clip=[99.5, 90.0][n % 2])
  for a, b in itertools.product((0.0, 0.3, 0.55, 50.0), repeat=2):
    for na, nb in ((6, 6), (4, 9), (9, 4), (2, 2)):
      for slow in (0, 1):
        if nb > 2 or not slow:
          yield dict(k='alignment', a=a, b=b, na=na, nb=nb, slow=slow)
  i = 0
  for n in (1, 2, 3, 5, 12):
    for nth in (1, 3, 20):
      for e in (0, 1, 60):
        i += 1
        yield dict(k='evaluation', n=n, nth=nth, e=e, x=i % 5, offset=[0.0, 0.05, 500.0][i % 3])
  for n in (2, 3, 4, 5):
    for k in range(4):
      yield dict(k='loop', n=n, k_=k)
  for s in range(len(SEARCHES)):
    for o in ((), (2,), (0, 5)):
      for pre in (False, True):
        for nth in (1, 4):
          for least in (3, 9):
            i += 1
            yield dict(k='search', s=s, o=o, pre=pre, nth=nth, min=least, x=i % 5)
  for h in itertools.product(range(6), repeat=3 if deep else 2):
    yield dict(k='history', h=h)


RUNS = dict(poses=run_poses, errors=run_errors, results=run_results, streams=run_streams,
            inputs=run_inputs, offset=run_offset, alignment=run_alignment,
            evaluation=run_evaluation, loop=lambda c, r: run_loop(dict(n=c['n'], k=c['k_']), r),
            search=run_search, history=run_history)


def run(case, rec):
  RUNS[case['k']](case, rec)
