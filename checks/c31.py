"""Result plots: every recorded result appears in its own group."""
import copy
import io
import itertools
import os
import re
import runpy
import sys
import warnings

import matplotlib
matplotlib.use('Agg')
from matplotlib import axes
from matplotlib import colors
from matplotlib import pylab
from matplotlib import pyplot
import numpy as np

from mc import core
from mc.core import check

ID = 'C31'
BOUND = {
    'quick': 'error plots: 1 to 3 methods over all combinations of 5 value lists, 4 to 17 methods; '
             'timing plots: all presence patterns of 1 to 3 data sets x 1 to 3 methods with up to '
             '2 runs, 7 data sets x 17 methods; perturbation plots: 3 orders x all grids of 1 to 3 '
             'ranges per perturbation with at most 12 cells x 5 positions in the cell, one '
             'exactly on its border, x 1 or 2 '
             'runs x 3 file orders, every single run dropped, repeated, moved to every other cell '
             'or outside the ranges on the small grids; whole script: all presence patterns of 2 '
             'data sets x 2 methods, and the full grid of 3840 runs',
    'thorough': 'as quick with 4 ranges and 24 cells, presence patterns of 3 data sets x 3 '
                'methods through the whole script'}
MIN_OUTCOMES = 5
CASE_LIMIT_S = 300
ASSUMPTIONS = ['windows are drawn off screen by matplotlib instead of being shown']

SCRIPT = os.path.join(core.EXP, 'bin', 'generate_plots.py')
PRESETS = ['baseline_filter_opt', 'baseline_no_filter_opt', 'baseline_filter_no_opt',
           'baseline_no_filter_no_opt', 'EC_no_opt', 'EC_opt', 'ES_no_opt', 'ES_opt',
           'RC_filter_no_opt', 'RC_no_filter_no_opt', 'RC_filter_opt', 'RC_no_filter_opt',
           'RS_filter_no_opt', 'RS_no_filter_no_opt', 'RS_filter_opt', 'RS_no_filter_opt']
SPOILED = 'optimization_w_spoiled_init_calibration'
SHORT = {'baseline_filter_opt': 'PF_B_O', 'RC_no_filter_no_opt': 'RC', 'ES_opt': 'PF_ES_O',
         SPOILED: 'S_PF_ES_O'}
COLORS = ['b', 'g', 'c', 'm', 'y', 'k', 'r']
TOOLS = {}
ROOT = None


def start_worker(wid, n):
  global ROOT
  ROOT = core.scratch()
  warnings.simplefilter('ignore')
  TOOLS.update(runpy.run_path(SCRIPT))


class Windows(object):
  """Keeps every figure shown together with the box plots drawn into it."""

  def __init__(self, draw):
    self.draw = draw
    self.figures = []
    self.boxes = []

  def __enter__(self):
    pyplot.close('all')
    matplotlib.rcdefaults()
    seen = set()
    self.saved = pyplot.show, pylab.show, axes.Axes.bxp
    real = self.saved[2]

    def show(*a, **k):
      for n in pyplot.get_fignums():
        if n in seen:
          continue
        f = pyplot.figure(n)
        if self.draw:
          f.savefig(io.BytesIO(), format='png', dpi=30)
        seen.add(n)
        self.figures.append(f)

    def bxp(ax, *a, **k):
      drawn = real(ax, *a, **k)
      for box, median in zip(drawn['boxes'], drawn['medians']):
        self.boxes.append((ax, box, median))
      return drawn

    pyplot.show = pylab.show = show
    axes.Axes.bxp = bxp
    return self

  def __exit__(self, *a):
    pyplot.show, pylab.show, axes.Axes.bxp = self.saved
    pyplot.close('all')

  def groups(self, figure):
    """(axes, centre, quartiles and median, colour) of every box that is visible."""
    out = []
    for ax, box, median in self.boxes:
      if ax.figure is not figure:
        continue
      v = np.asarray(box.get_path().vertices, float)
      m = np.asarray(median.get_path().vertices, float)
      if not np.all(np.isfinite(m)) or not len(m):
        continue
      centre = 0.5 * (v[:, 0].min() + v[:, 0].max())
      check(abs(centre - 0.5 * (m[:, 0].min() + m[:, 0].max())) < 1e-9, 'median beside its box')
      colour = box.get_color() if hasattr(box, 'get_color') else box.get_edgecolor()
      out.append((ax, centre, (v[:, 1].min(), m[:, 1].mean(), v[:, 1].max()),
                  colors.to_rgba(colour)))
    return out


def labels(figure):
  """Position and text of the visible tick labels below the boxes."""
  for ax in figure.axes:
    if ax.xaxis.get_visible():
      return list(zip([float(t) for t in ax.get_xticks()],
                      [t.get_text() for t in ax.get_xticklabels()]))
  return []


def label_of(x, ticks):
  return min(ticks, key=lambda t: abs(t[0] - x))[1]


def quartiles(values):
  s = sorted(float(v) for v in values)

  def at(p):
    x = p * (len(s) - 1)
    i = int(np.floor(x))
    return s[i] if i + 1 >= len(s) else s[i] + (x - i) * (s[i + 1] - s[i])
  return at(0.25), at(0.5), at(0.75)


def near(a, b):
  return all(abs(x - y) <= 1e-9 * max(1.0, abs(y)) for x, y in zip(a, b))


def compare(got, want, what):
  """got, want: {(group...): quartiles}."""
  check(set(got) == set(want), '{}: boxes for {} instead of {}', what, sorted(got), sorted(want))
  for k in want:
    check(near(got[k], want[k]), '{}: {} shows {} instead of {}', what, k, got[k], want[k])


def collect(windows, figure, kind, what):
  got = {}
  ticks = labels(figure)
  for ax, x, q, colour in windows.groups(figure):
    lo, hi = ax.get_xlim()
    check(lo <= x <= hi, '{}: box at {} outside the window', what, x)
    key = kind(ax, colour) + (label_of(x, ticks),)
    check(key not in got, '{}: two boxes for {}', what, key)
    got[key] = q
  return got, [t[1] for t in ticks]


def quantity(ax, colour):
  text = ax.get_ylabel().lower()
  return ('position' if 'position' in text else 'orientation' if 'orientation' in text else text,)


def verify_errors(windows, figure, dataset, methods, position, orientation, what):
  title = figure._suptitle.get_text() if figure._suptitle is not None else ''
  title += ' '.join(ax.get_title() for ax in figure.axes)
  check(dataset in title, '{}: title {}', what, title)
  got, names = collect(windows, figure, quantity, what)
  check(sorted(n for n in names if n) == sorted(methods), '{}: labels {}', what, names)
  want = {}
  for kind, values in (('position', position), ('orientation', orientation)):
    for m, v in zip(methods, values):
      if len(v):
        want[(kind, m)] = quartiles(v)
  compare(got, want, what)


def verify_times(windows, figure, methods, datasets, runtimes, what):
  legend = None
  for ax in figure.axes:
    legend = ax.get_legend() or legend
  check(legend is not None, '{}: no legend', what)
  names = [t.get_text() for t in legend.get_texts()]
  check(sorted(names) == sorted(datasets), '{}: legend {}', what, names)
  shades = [colors.to_rgba(p.get_facecolor()) for p in legend.get_patches()]
  check(len(set(shades)) == len(names) == len(shades), '{}: colours {}', what, shades)
  by_colour = dict(zip(shades, names))

  def kind(ax, colour):
    check(colour in by_colour, '{}: box in colour {}', what, colour)
    return (by_colour[colour],)

  got, ticks = collect(windows, figure, kind, what)
  check(sorted(n for n in ticks if n) == sorted(methods), '{}: labels {}', what, ticks)
  want = {(d, m): quartiles(runtimes[d][m]) for d in datasets for m in methods
          if runtimes[d].get(m)}
  compare(got, want, what)


# -- error and timing plots ------------------------------------------------

VALUES = [[0.25], [1.0, 3.0], [0.5, 0.125, 2.0], [], [4.0, 4.0, 1.0, 7.5, 0.03125]]


def run_errors(case, rec):
  lists = case['lists']
  methods = ['M%d' % i for i in range(len(lists))]
  position = [VALUES[k] for k in lists]
  # Other values of the same number of runs.
  orientation = [[10.0 - 0.7 * v + i for v in VALUES[k]] for i, k in enumerate(lists)]
  before = copy.deepcopy((methods, position, orientation))
  what = 'error plot of lists {}'.format(lists)
  with Windows(case['draw']) as w:
    TOOLS['generate_box_plot']('garage 7', methods, position, orientation)
    check(len(w.figures) == 1, '{}: {} windows', what, len(w.figures))
    verify_errors(w, w.figures[0], 'garage 7', methods, position, orientation, what)
  check(before == (methods, position, orientation), '{}: data modified', what)
  rec.step()
  rec.state((lists, position, orientation))
  rec.outcome('error plot with %s' % ('gaps' if 3 in lists else 'all methods'))


def run_times(case, rec):
  methods = ['M%d' % i for i in range(case['methods'])]
  datasets = ['set %d' % i for i in range(len(case['counts']))]
  runtimes = {}
  for i, row in enumerate(case['counts']):
    runtimes[datasets[i]] = {m: [0.5 + 3 * i + j + 0.25 * k * k for k in range(c)]
                             for j, (m, c) in enumerate(zip(methods, row)) if c}
  before = copy.deepcopy((methods, datasets, runtimes))
  what = 'timing plot of {} runs'.format(case['counts'])
  with Windows(case['draw']) as w:
    TOOLS['generate_time_plot'](methods, datasets, runtimes, list(COLORS))
    check(len(w.figures) == 1, '{}: {} windows', what, len(w.figures))
    verify_times(w, w.figures[0], methods, datasets, runtimes, what)
  check(before == (methods, datasets, runtimes), '{}: data modified', what)
  rec.step()
  rec.state(case['counts'])
  rec.outcome('timing plot of %d data sets' % len(datasets))


# -- perturbation plots ----------------------------------------------------

ORDERS = {  # columns, rows, figures
    'translation_time_angle': ('angle', 'time', 'translation'),
    'angle_time_translation': ('translation', 'time', 'angle'),
    'time_translation_angle': ('angle', 'translation', 'time')}
STEP = dict(angle=np.pi / 12, time=0.03, translation=0.1)
# Steps with exact multiples, for runs on the border of two cells.
EXACT = dict(angle=0.25, time=0.03125, translation=0.125)
INSIDE = dict(low=0.03, middle=0.5, high=0.97)


def steps(where):
  return EXACT if where == 'border' else STEP


def ranges(step, kind, count):
  return dict(start=0.0, end=(count - 1) * step[kind] + 0.6 * step[kind], step=step[kind])


def perturbation(step, kind, index, where, sign):
  if where == 'border':
    v = index * step[kind]
  elif where == 'start':
    # Exactly at the lower end where that is no matter of rounding.
    v = 0.0 if index == 0 else (index + 0.01) * step[kind]
  else:
    v = (index + INSIDE[where]) * step[kind]
  return -v if kind == 'time' and sign else v


def draw_perturbations(step, order, sizes, runs, required, draw):
  """runs: list of (angle, time, translation, position error, orientation error)."""
  data = [[r[3] for r in runs], [r[4] for r in runs], [r[0] for r in runs], [r[2] for r in runs],
          [r[1] for r in runs]]
  before = copy.deepcopy(data)
  w = Windows(draw)
  try:
    with w:
      TOOLS['generate_optimization_circle_error_plot'](
          ranges(step, 'time', sizes['time']),
          ranges(step, 'translation', sizes['translation']),
          ranges(step, 'angle', sizes['angle']), data, order, required)
      check(data == before, '{} {}: data modified', order, sizes)
      return [snapshot(f) for f in w.figures]
  except AssertionError as e:
    if isinstance(e, core.Violation):
      raise
    check(data == before, '{} {}: data modified', order, sizes)
    return None


NUMBER = r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?'


def interval(text):
  m = re.search(r'\[\s*(%s)[^\d,]*,\s*(%s)' % (NUMBER, NUMBER), text)
  check(m is not None, 'no range in label {}', text)
  return float(m.group(1)), float(m.group(2))


def snapshot(figure):
  """Range in the title and the value shown at every pair of ticks, per quantity."""
  out = {}
  for ax in figure.axes:
    if not ax.images:
      continue
    title = ax.get_title()
    kind = 'position' if 'transl' in title.lower() else 'orientation'
    check(kind not in out, 'two images for the {} error', kind)
    image = ax.images[-1]
    a = np.asarray(image.get_array(), float)
    left, right, bottom, top = image.get_extent()
    first, last = (top, bottom) if image.origin == 'upper' else (bottom, top)
    cells = {}
    xs = list(zip(ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]))
    ys = list(zip(ax.get_yticks(), [t.get_text() for t in ax.get_yticklabels()]))
    for x, xl in xs:
      for y, yl in ys:
        col = int(np.floor((x - left) / (right - left) * a.shape[1]))
        row = int(np.floor((y - first) / (last - first) * a.shape[0]))
        cells[interval(xl), interval(yl)] = a[row, col]
    check(len(cells) == a.size, '{} cells labelled of {}', len(cells), a.size)
    out[kind] = (interval(title.split('in', 1)[1]), cells, ax.get_xlabel())
  return out


def bounds(step, kind, index):
  s = np.degrees(step[kind]) if kind == 'angle' else step[kind]
  return index * s, (index + 1) * s


def index_of(step, kind, got, count, what):
  for i in range(count):
    want = bounds(step, kind, i)
    if all(abs(a - b) < 0.2 * (want[1] - want[0]) for a, b in zip(got, want)):
      return i
  check(False, '{}: {} range {}', what, kind, got)


def verify_perturbations(step, figures, order, sizes, cells, what):
  """cells: {(figure, row, column): [(position error, orientation error)]}."""
  xk, yk, fk = ORDERS[order]
  check(figures is not None, '{}: refused', what)
  check(len(figures) == sizes[fk], '{}: {} windows', what, len(figures))
  seen = set()
  for shown in figures:
    check(sorted(shown) == ['orientation', 'position'], '{}: images {}', what, sorted(shown))
    for n, kind in enumerate(('position', 'orientation')):
      title, values, xlabel = shown[kind]
      f = index_of(step, fk, title, sizes[fk], what)
      check(xk in xlabel.lower(), '{}: columns labelled {}', what, xlabel)
      check(len(values) == sizes[xk] * sizes[yk], '{}: {} cells', what, len(values))
      for (xr, yr), v in values.items():
        key = (f, index_of(step, yk, yr, sizes[yk], what),
               index_of(step, xk, xr, sizes[xk], what))
        want = cells[key]
        mean = sum(e[n] for e in want) / len(want)
        check(abs(v - mean) < 1e-9 * max(1.0, mean), '{}: cell {} shows {} error {} instead of {}',
              what, key, kind, v, mean)
        check((key, kind) not in seen, '{}: cell {} shown twice', what, key)
        seen.add((key, kind))


def run_grid(case, rec):
  order, where = case['order'], case['where']
  step = steps(where)
  xk, yk, fk = ORDERS[order]
  sizes = dict(zip(('angle', 'time', 'translation'), case['sizes']))
  cells = {}
  runs = []
  for k in range(case['runs']):
    for f, y, x in itertools.product(range(sizes[fk]), range(sizes[yk]), range(sizes[xk])):
      at = {fk: f, yk: y, xk: x}
      place = where if k == 0 else 'middle'
      err = (0.01 + 0.37 * x + 1.9 * y + 7.3 * f + 0.11 * k * (x + 2 * y + 1),
             5.0 + 0.71 * x - 0.3 * y + 0.05 * f + 0.2 * k * (y + 3 * f + 1))
      cells.setdefault((f, y, x), []).append(err)
      runs.append(tuple(perturbation(step, q, at[q], place, (x + y + k) % 2)
                        for q in ('angle', 'time', 'translation')) + err + ((f, y, x),))
  n = len(runs)
  if case['arrange'] == 'reversed':
    runs = runs[::-1]
  elif case['arrange'] == 'mixed':
    stride = next(s for s in range(max(2, n // 2), 2 * n + 3) if np.gcd(s, n) == 1)
    runs = [runs[i * stride % n] for i in range(n)]
  what = '{} on {} ranges, {} runs {} {}'.format(order, sizes, case['runs'], where,
                                                 case['arrange'])
  shown = draw_perturbations(step, order, sizes, runs, case['runs'], case['draw'])
  verify_perturbations(step, shown, order, sizes, cells, what)
  rec.step()
  rec.state((order, case['sizes'], where, case['arrange'], case['runs']))
  rec.outcome('perturbation plot')
  if not case['faults']:
    return
  # Another number of runs per cell than required, or runs outside the ranges, are refused.
  for required in (0, case['runs'] + 1):
    check(draw_perturbations(step, order, sizes, runs, required, False) is None,
          '{}: accepted with {} runs required', what, required)
  for i, r in enumerate(runs):
    for kind in ('dropped', 'repeated'):
      changed = runs[:i] + runs[i + 1:] if kind == 'dropped' else runs + [r]
      check(draw_perturbations(step, order, sizes, changed, case['runs'], False) is None,
            '{}: run {} {} was not noticed', what, i, kind)
      rec.step()
    for q, name in enumerate(('angle', 'time', 'translation')):
      places = [other + 0.4 for other in list(range(sizes[name])) + [sizes[name] + 1]
                if int(abs(r[q]) / step[name] + 1e-9) != other]
      if where == 'border':
        places.append(sizes[name])
      for v in [p * step[name] for p in places]:
        changed = list(runs)
        changed[i] = r[:q] + (v,) + r[q + 1:]
        check(draw_perturbations(step, order, sizes, changed, case['runs'], False) is None,
              '{}: run {} with {} {} was not noticed', what, i, name, v)
        rec.step()
  rec.outcome('wrong number of runs refused')


# -- the whole script ------------------------------------------------------

HEADER = ('algorithm_name,num_pose_pairs,iteration_num,prefiltering,poses_B_H_csv_file,'
          'poses_W_E_csv_file,success,position_rmse,orientation_rmse,num_inliers,'
          'num_input_poses,num_posesafter_filtering,runtime_s,loop_error_position_m,'
          'loop_error_orientation_deg,singular_values,bad_singular_values,optimization_enabled,'
          'optimization_success,optimization_runtime_s,spoiled_initial_guess_angle_offset,'
          'spoiled_initial_guess_translation_offset,spoiled_initial_guess_time_offset,dataset\n')


def line(name, dataset, success, bad, pos, rot, run, opt, loop, spoil):
  return '%s,0,1,True,a.csv,b.csv,%s,%r,%r,9,20,15,%r,%r,%r,[1. 2. 3.],%s,True,True,%r,%s,%s,%s,%s\n' % (
      name, success, pos, rot, run, loop[0], loop[1], bad, opt, spoil[0], spoil[1], spoil[2],
      dataset)


def run_script(files, draw=False):
  w = Windows(draw)
  old = sys.argv
  sys.argv = [SCRIPT, '--csv_file_names'] + files
  w.__enter__()
  error = None
  try:
    with core.script_files():
      runpy.run_path(SCRIPT, run_name='__main__')
  except AssertionError as e:
    error = e
  finally:
    sys.argv = old
  return w, error


def run_results(case, rec):
  """Box plots of result files with every pattern of missing and failed results."""
  sets, methods = case['sets'], case['methods']
  rows = []
  errors, rotations, times = {}, {}, {}
  for k, (code, (d, m)) in enumerate(zip(case['pattern'], itertools.product(sets, methods))):
    # Failed and ill-conditioned runs leave the group empty.
    for i in range({'none': 0, 'one': 1, 'two': 2, 'failed': 1, 'singular': 1}[code]):
      v = 0.01 * (k + 1) + 0.003 * i
      rows.append(line(m, d, code != 'failed', code == 'singular', v, 3 * v, 5.0 + k + 2 * i,
                       0.25 * (i + 1), (0.1, 0.2), (None, None, None)))
      if code in ('one', 'two'):
        errors.setdefault(d, {}).setdefault(SHORT[m], []).append(v)
        rotations.setdefault(d, {}).setdefault(SHORT[m], []).append(3 * v)
        times.setdefault(d, {}).setdefault(SHORT[m], []).append(5.0 + k + 2 * i + 0.25 * (i + 1))
  if not errors:
    return
  what = 'results {}'.format(case['pattern'])
  split = len(rows) // 2 if case['files'] == 2 and len(rows) > 1 else len(rows)
  files = []
  for n, part in enumerate((rows[:split], rows[split:])):
    if part:
      path = os.path.join(ROOT, 'results%d.csv' % n)
      with open(path, 'w') as f:
        f.write(HEADER + ''.join(part))
      files.append(path)
  w, error = run_script(files)
  try:
    # The last plot needs perturbed runs, there are none.
    used = sorted({m for d in errors for m in errors[d]})
    check(len(w.figures) >= len(errors) + 1, '{}: {} windows, {}', what, len(w.figures), error)
    left = list(w.figures)
    for d in errors:
      mine = [f for f in left if f._suptitle is not None and d in f._suptitle.get_text()]
      check(len(mine) == 1, '{}: {} windows for {}', what, len(mine), d)
      left.remove(mine[0])
      verify_errors(w, mine[0], d, used, [errors[d].get(m, []) for m in used],
                    [rotations[d].get(m, []) for m in used], what)
    verify_times(w, left[0], used, sorted(errors), times, what)
  finally:
    w.__exit__()
  rec.step()
  rec.state(case['pattern'])
  rec.outcome('script on %d of %d groups' % (sum(len(v) for v in errors.values()),
                                              len(sets) * len(methods)))


def run_full(case, rec):
  """The perturbation plot of the script as configured: 8 x 8 ranges with 60 runs each."""
  rows = []
  cells = {}
  for k in range(60):
    for a, t in itertools.product(range(8), range(8)):
      err = (0.001 * (1 + a) + 0.01 * t + 0.0001 * k, 0.1 * a + 0.02 * t * t + 0.001 * k)
      angle = (a + (k % 50 + 0.5) / 51.0) * STEP['angle']
      time = (-1 if k % 2 else 1) * (t + (k % 30 + 0.5) / 31.0) * STEP['time']
      d = 0.001 * (k + 1)
      rows.append(line(SPOILED, 'lab', True, False, 0.5, 0.5, 1.0, 1.0, err,
                       (repr(angle), '[%.8f %.8f  0.        ]' % (0.6 * d, -0.8 * d), repr(time))))
      cells.setdefault((0, t, a), []).append(err)
  if case['order']:
    rows = rows[::-1]
  path = os.path.join(ROOT, 'full.csv')
  with open(path, 'w') as f:
    f.write(HEADER + ''.join(rows))
  w, error = run_script([path], True)
  try:
    what = 'script on the full grid'
    check(error is None, '{}: refused, {}', what, error)
    shown = [snapshot(f) for f in w.figures if any(ax.images for ax in f.axes)]
  finally:
    w.__exit__()
  verify_perturbations(STEP, shown, 'translation_time_angle',
                       dict(angle=8, time=8, translation=1), cells, what)
  rec.step(len(rows))
  rec.state(('full', case['order']))
  rec.outcome('script on the full grid')


# -- enumeration -----------------------------------------------------------

def cases(tier):
  thorough = tier == 'thorough'
  for order in (0, 1):
    yield dict(k='full', order=order)
  limit = 4 if thorough else 3
  most = 24 if thorough else 12
  for order in sorted(ORDERS):
    for sizes in itertools.product(range(1, limit + 1), repeat=3):
      if np.prod(sizes) > most:
        continue
      for runs, where, arrange in itertools.product(
          (1, 2), ('start', 'low', 'middle', 'high', 'border'), ('given', 'reversed', 'mixed')):
        first = runs == 1 and arrange == 'given'
        if arrange != 'given' and np.prod(sizes) > 8 and where != 'middle' and not thorough:
          continue
        yield dict(k='grid', order=order, sizes=list(sizes), runs=runs, where=where,
                   arrange=arrange, draw=int(first and where == 'middle'),
                   faults=int(arrange == 'mixed' and np.prod(sizes) <= (8 if thorough else 4)))
  codes = ['none', 'one', 'two', 'failed', 'singular']
  names = ['baseline_filter_opt', 'RC_no_filter_no_opt', 'ES_opt']
  sets = ['cellar', 'attic', 'yard']
  for c, pattern in enumerate(itertools.product(codes, repeat=4)):
    yield dict(k='results', sets=sets[:2], methods=names[:2], pattern=list(pattern),
               files=1 + c % 2)
  for c, pattern in enumerate(itertools.product(codes[:2], repeat=9 if thorough else 6)):
    yield dict(k='results', sets=sets if thorough else sets[:2], methods=names,
               pattern=list(pattern), files=1 + c % 2)
  for n in (1, 2, 3):
    for c, lists in enumerate(itertools.product(range(len(VALUES)), repeat=n)):
      if any(l != 3 for l in lists):
        yield dict(k='errors', lists=list(lists), draw=int(c % 9 == 0))
  for n in range(4, 18):
    for start in range(5):
      yield dict(k='errors', lists=[(start + i * i) % 5 for i in range(n)], draw=int(start == 0))
  for d in (1, 2, 3):
    for m in (1, 2, 3):
      top = 3 if d * m <= 4 else 2
      for c, counts in enumerate(itertools.product(range(top), repeat=d * m)):
        if any(counts):
          yield dict(k='times', methods=m, draw=int(c % 29 == 1),
                     counts=[list(counts[i * m:(i + 1) * m]) for i in range(d)])
  for d in range(1, 8):
    for m in (1, 5, 17):
      yield dict(k='times', methods=m, draw=1,
                 counts=[[1 + (i + j) % 3 for j in range(m)] for i in range(d)])


RUNS = dict(errors=run_errors, times=run_times, grid=run_grid, results=run_results, full=run_full)


def run(case, rec):
  RUNS[case['k']](case, rec)
