"""Result rows of the experiments and their loading."""
import contextlib
import itertools
import json
import math
import os
import random
import runpy
import shlex
import shutil
import sys

import numpy as np

from mc import core
from mc import model as M
from mc import rig
from mc.core import check

from hand_eye_calibration import bash_utils as BU
from hand_eye_calibration import calibration_verification as CV
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE
from hand_eye_calibration import time_alignment as TA
from hand_eye_calibration_experiments import all_algorithm_configs as AC
from hand_eye_calibration_experiments import experiment_plotting_tools as PT
from hand_eye_calibration_experiments.experiment_results import ResultEntry

ID = 'C21'
BOUND = {
    'quick': 'rows: every field value of the alphabet (one and two fields varied) x every pair of '
             '2-4 data sets; 17 presets x 3 iterations; every single list too short / too long; '
             'loading: all row sets of 1-3 rows over 2 methods x 2 data sets x 4 outcomes in '
             'every split into files, all 17 methods; experiment runs: all outcome patterns '
             'over the pairs of 2 and 3 data sets (7 presets, 3-5 outcomes), all failure subsets '
             'of 4 data sets, two algorithms and two iterations each, fresh and existing '
             'result files, 4 kinds of file names; refinement experiments: all failing subsets of '
             'pairs',
    'thorough': 'as quick with 4 rows and all 16 presets in the experiment runs'}
MIN_OUTCOMES = 5
ASSUMPTIONS = ['experiment runs use stand-ins for alignment, calibration, evaluation and the '
               'external refinement tool; loop error, rows and files are the real code']
CASE_LIMIT_S = 300

DRIVER = os.path.join(core.EXP, 'bin', 'compute_set_of_hand_eye_calibrations.py')
REFINE = os.path.join(core.EXP, 'bin', 'optimization_experiments.py')
ROOT = None

NAMES = ['baseline_filter_opt', 'baseline_no_filter_opt', 'baseline_filter_no_opt',
         'baseline_no_filter_no_opt', 'EC_no_opt', 'EC_opt', 'ES_no_opt', 'ES_opt',
         'RC_filter_no_opt', 'RC_no_filter_no_opt', 'RC_filter_opt', 'RC_no_filter_opt',
         'RS_filter_no_opt', 'RS_no_filter_no_opt', 'RS_filter_opt', 'RS_no_filter_opt']
SPOILED = 'optimization_w_spoiled_init_calibration'


def short(name):
  """Name of a method in the plots."""
  if name == SPOILED:
    return 'S_PF_ES_O'
  base = name.split('_')[0]
  filtered = base in ('EC', 'ES') or '_no_filter' not in name
  return ('PF_' if filtered else '') + {'baseline': 'B'}.get(base, base) + \
      ('' if name.endswith('_no_opt') else '_O')


# Header column (without underscores) -> attribute, index in a tuple entry.
COLUMNS = {
    'algorithmname': ('algorithm_name', None), 'iterationnum': ('iteration_num', None),
    'prefiltering': ('prefiltering_enabled', None),
    'posesBHcsvfile': ('dataset_names', 0), 'posesWEcsvfile': ('dataset_names', 1),
    'success': ('success', None), 'positionrmse': ('rmse', 0), 'orientationrmse': ('rmse', 1),
    'numinliers': ('num_inliers', None), 'numinputposes': ('num_initial_poses', None),
    'numposesafterfiltering': ('num_poses_kept', None), 'runtimes': ('runtimes', None),
    'looperrorpositionm': ('loop_error_position', None),
    'looperrororientationdeg': ('loop_error_orientation', None),
    'singularvalues': ('singular_values', None),
    'badsingularvalues': ('bad_singular_value', None),
    'optimizationenabled': ('optimization_enabled', None),
    'optimizationsuccess': ('optimization_success', None),
    'optimizationruntimes': ('optimization_runtime', None),
    'spoiledinitialguessangleoffset': ('spoiled_initial_guess_angle_offset', None),
    'spoiledinitialguesstranslationoffset': ('spoiled_initial_guess_translation_offset', None),
    'spoiledinitialguesstimeoffset': ('spoiled_initial_guess_time_offset', None)}
# The second column holds the index of the pair.
PAIR_COLUMNS = ('numposepairs', 'posepairidx', 'posepair')

LISTS = ['dataset_names', 'success', 'rmse', 'num_inliers', 'num_initial_poses',
         'num_poses_kept', 'runtimes', 'singular_values', 'bad_singular_value',
         'optimization_success', 'optimization_runtime', 'spoiled_initial_guess_angle_offset',
         'spoiled_initial_guess_translation_offset', 'spoiled_initial_guess_time_offset']


def start_worker(wid, n):
  global ROOT
  ROOT = core.scratch()
  os.chdir(ROOT)


# -- rows ------------------------------------------------------------------

ALPHABET = {
    'success': [True, False], 'bad_singular_value': [False, True, None],
    'optimization_success': [True, False],
    'rmse': [(0.25, 1.75), (1e-9, 1e9), (-1, -1), (float('inf'), float('inf')), (None, None),
             (1 / 3.0, 2 / 3.0)],
    'num_inliers': [0, 17, None], 'num_initial_poses': [1, 100000], 'num_poses_kept': [0, 31],
    'runtimes': [0.0, 1234.5678, 1e-7], 'optimization_runtime': [0.0, 99.25],
    'singular_values': [None, np.arange(8) / 7.0, np.array([1e-12, 1e9] + [1.0] * 6)],
    'dataset_names': [('a.csv', 'b.csv'), ('/data/x y/left.csv', '/data/x y/right.csv'),
                      ('p' * 80 + '.csv', 'q.csv')],
    'spoiled_initial_guess_angle_offset': [None, 0.5],
    'spoiled_initial_guess_translation_offset': [None, np.array([0.1, -0.25, 1e-6]),
                                                 np.array([100.0, 0.0, -3.5])],
    'spoiled_initial_guess_time_offset': [None, -0.03]}


def filled(pairs, changes=()):
  """Entry whose fields all hold different values."""
  e = ResultEntry()
  e.algorithm_name, e.iteration_num = 'RC_filter_opt', 3
  e.prefiltering_enabled, e.optimization_enabled = True, True
  e.loop_error_position, e.loop_error_orientation = 0.0123, 4.56
  for p in range(pairs):
    values = dict(
        dataset_names=('set%da.csv' % p, 'set%db.csv' % p), success=p % 2 == 0,
        rmse=(0.001 * (p + 1), 0.1 * (p + 1)), num_inliers=100 + p, num_initial_poses=200 + p,
        num_poses_kept=300 + p, runtimes=40.5 + p, singular_values=np.arange(8) + 0.5 * p,
        bad_singular_value=p % 3 == 1, optimization_success=p % 2 == 1,
        optimization_runtime=60.25 + p, spoiled_initial_guess_angle_offset=0.7 + p,
        spoiled_initial_guess_translation_offset=np.array([1.0 + p, 2.0, -3.0]),
        spoiled_initial_guess_time_offset=0.8 + p)
    for name, k in changes:
      values[name] = ALPHABET[name][(k + p) % len(ALPHABET[name])]
    for name in LISTS:
      getattr(e, name).append(values[name])
  return e


def parse_row(header, line):
  check(line.endswith('\n') and line.count('\n') == 1, 'row {!r} is not one line', line)
  names = header.strip().split(',')
  fields = line.rstrip('\n').split(',')
  check(len(names) == len(fields), '{} columns in the header but {} fields in {!r}', len(names),
        len(fields), line)
  check(len(set(names)) == len(names), 'repeated columns in {!r}', header)
  return {n.replace('_', ''): f for n, f in zip(names, fields)}


def same_value(text, want):
  if want is None:
    return text in ('None', '', 'nan')
  if isinstance(want, (bool, np.bool_)):
    return text == str(bool(want))
  if isinstance(want, str):
    return text == want
  if isinstance(want, np.ndarray):
    got = text.strip()
    if not (got.startswith('[') and got.endswith(']')):
      return False
    got = [float(v) for v in got[1:-1].split()]
    return len(got) == len(want) and np.allclose(got, want, rtol=1e-6, atol=1e-7)
  try:
    got = float(text)
  except ValueError:
    return False
  return got == want or abs(got - want) <= 1e-9 * max(1.0, abs(want)) and (
      want == 0 or abs(got - want) <= 1e-5 * abs(want))


def compare_row(row, entry, p, what):
  row = dict(row)
  pair = [row.pop(c) for c in PAIR_COLUMNS if c in row]
  check(pair == [str(p)], '{}: pair {} written as {}', what, p, pair)
  check(set(row) == set(COLUMNS), '{}: columns {}', what, sorted(set(row) ^ set(COLUMNS)))
  for c, (attribute, idx) in COLUMNS.items():
    v = getattr(entry, attribute)
    if attribute in LISTS:
      v = v[p]
    if idx is not None:
      v = v[idx]
    check(same_value(row[c], v), '{}: column {} holds {!r} instead of {!r}', what, c, row[c], v)


def run_rows(case, rec):
  n = case['n']
  pairs = n * (n - 1) // 2
  changes = [tuple(c) for c in case['changes']]
  e = filled(pairs, changes)
  e.check_length(pairs)
  for p in range(pairs):
    line = e.write_pose_pair_to_csv_line(p)
    row = parse_row(e.get_header(), line)
    compare_row(row, e, p, 'pair {} of {} data sets {}'.format(p, n, changes))
    rec.step()
    rec.state(line)
  rec.outcome('row fields')


def run_lengths(case, rec):
  pairs = case['pairs']
  e = filled(pairs)
  e.check_length(pairs)
  for claimed in range(0, pairs + 3):
    if claimed != pairs:
      refused(e, claimed, 'entry with {} pairs for {}'.format(pairs, claimed))
      rec.step()
  for name in LISTS:
    e = filled(pairs)
    getattr(e, name).pop()
    refused(e, pairs, '{} too short for {} pairs'.format(name, pairs))
    e = filled(pairs)
    getattr(e, name).append(getattr(e, name)[0])
    refused(e, pairs, '{} too long for {} pairs'.format(name, pairs))
    rec.step(2)
    rec.state((pairs, name))
  rec.outcome('incomplete entries refused')


def refused(e, pairs, what):
  try:
    e.check_length(pairs)
  except AssertionError:
    return
  check(False, '{}: accepted', what)


def all_presets():
  return list(AC.get_all_configs()) + [
      AC.get_optimization_with_spoiled_initial_calibration_config()]


def run_preset(case, rec):
  names = NAMES + [SPOILED]
  configs = {c[0]: c for c in all_presets()}
  check(set(configs) == set(names), 'presets {}', sorted(configs))
  name = names[case['i']]
  (_, time_config, he, opt) = configs[name]
  for it in (0, 1, 7):
    for pre in (False, True):
      for optimise in (False, True):
        for own in (True, False):
          if not own:
            # Settings other than those of the preset.
            he.prefilter_poses_enabled, opt.enable_optimization = pre, optimise
          e = ResultEntry()
          e.init_from_configs(name, it, time_config, he, opt)
          for l in LISTS:
            check(getattr(e, l) == [], 'new entry holds {} {}', l, getattr(e, l))
          f = filled(1)
          for l in LISTS:
            setattr(e, l, getattr(f, l))
          row = parse_row(e.get_header(), e.write_pose_pair_to_csv_line(0))
          want = dict(algorithmname=name, iterationnum=it,
                      prefiltering=he.prefilter_poses_enabled,
                      optimizationenabled=opt.enable_optimization)
          for c, v in want.items():
            check(same_value(row[c], v), '{} iteration {}: column {} holds {} instead of {}',
                  name, it, c, row[c], v)
          rec.step()
          rec.state((name, it, he.prefilter_poses_enabled, opt.enable_optimization))
    (_, time_config, he, opt) = {c[0]: c for c in all_presets()}[name]
  rec.outcome('flags of a preset')


# -- loading ---------------------------------------------------------------

KINDS = ['ok', 'failed', 'singular', 'unrefined']


def loader_rows(spec):
  """(method name, data set, kind) -> lines with different values."""
  lines = []
  for k, (name, ds, kind) in enumerate(spec):
    e = filled(1)
    e.algorithm_name = name
    e.success = [kind != 'failed']
    e.bad_singular_value = [kind == 'singular']
    e.optimization_success = [kind != 'unrefined']
    e.rmse = [(-1, -1) if kind == 'unrefined' else (0.001 * (k + 1), 0.1 * (k + 1))]
    e.runtimes, e.optimization_runtime = [10.0 + k], [0.25 * (k + 1)]
    e.loop_error_position, e.loop_error_orientation = 0.5 + k, 1.5 + k
    if name == SPOILED:
      e.spoiled_initial_guess_angle_offset = [0.1 * (k + 1)]
      e.spoiled_initial_guess_translation_offset = [
          np.array([[0.3, -0.4, 0.0], [-1.0, 2.0, 2.0], [1e-5, 0.0, 0.0],
                    [12.0, 0.0, -5.0]][k % 4])]
      e.spoiled_initial_guess_time_offset = [-0.01 * (k + 1)]
    else:
      for f in ('angle', 'translation', 'time'):
        setattr(e, 'spoiled_initial_guess_%s_offset' % f, [None])
    lines.append(e.write_pose_pair_to_csv_line(0).rstrip('\n') + ',' + ds + '\n')
  return lines


def run_load(case, rec):
  spec = [tuple(s) for s in case['rows']]
  files = case['files']
  lines = loader_rows(spec)
  header = ResultEntry().get_header().rstrip('\n') + ',dataset\n'
  paths = []
  at = 0
  for k, count in enumerate(files):
    path = os.path.join(ROOT, 'rows%d.csv' % k)
    with open(path, 'w') as f:
      f.write(header + ''.join(lines[at:at + count]))
    at += count
    paths.append(path)
  what = 'rows {} in files of {}'.format(spec, files)
  (methods, datasets, pos, rot, pos_list, rot_list, runtimes, times,
   spoiled) = PT.collect_data_from_csv(paths)
  want_methods, want_sets = [], []
  want_pos, want_rot, want_time = {}, {}, {}
  kept = []
  for k, (name, ds, kind) in enumerate(spec):
    if kind != 'ok':
      continue
    kept.append(k)
    m = short(name)
    if m not in want_methods:
      want_methods.append(m)
    if ds not in want_sets:
      want_sets.append(ds)
    want_pos.setdefault(ds, {}).setdefault(m, []).append(0.001 * (k + 1))
    want_rot.setdefault(ds, {}).setdefault(m, []).append(0.1 * (k + 1))
    want_time.setdefault(ds, {}).setdefault(m, []).append(10.0 + k + 0.25 * (k + 1))
  check(sorted(methods) == sorted(want_methods), '{}: methods {}', what, methods)
  check(sorted(datasets) == sorted(want_sets), '{}: data sets {}', what, datasets)
  for got, want, kind in ((pos, want_pos, 'position'), (rot, want_rot, 'orientation'),
                          (times, want_time, 'runtime')):
    check({d: set(v) for d, v in got.items()} == {d: set(v) for d, v in want.items()},
          '{}: {} groups {}', what, kind, got)
    for d in want:
      for m in want[d]:
        check(len(got[d][m]) == len(want[d][m]) and np.allclose(got[d][m], want[d][m]),
              '{}: {} of {} {}: {} instead of {}', what, kind, d, m, got[d][m], want[d][m])
  for got, want, kind in ((pos_list, want_pos, 'position'), (rot_list, want_rot, 'orientation'),
                          (runtimes, want_time, 'runtime')):
    check(len(got) == len(methods), '{}: {} lists of {}', what, len(got), kind)
    for m, values in zip(methods, got):
      w = sorted(v for d in want for v in want[d].get(m, []))
      check(len(values) == len(w) and np.allclose(sorted(values), w), '{}: {} of {}: {}', what,
            kind, m, values)
  check(len(spoiled) == 5 and all(len(s) == len(kept) for s in spoiled),
        '{}: perturbation data {}', what, spoiled)
  for i, k in enumerate(kept):
    check(abs(spoiled[0][i] - (0.5 + k)) < 1e-9 and abs(spoiled[1][i] - (1.5 + k)) < 1e-9,
          '{}: loop errors {}', what, spoiled[:2])
    if spec[k][0] == SPOILED:
      norm = [0.5, 3.0, 1e-5, 13.0][k % 4]
      check(abs(spoiled[2][i] - 0.1 * (k + 1)) < 1e-9 and abs(spoiled[3][i] - norm) < 1e-9 and
            abs(spoiled[4][i] + 0.01 * (k + 1)) < 1e-9, '{}: perturbations {}', what, spoiled)
  rec.step()
  rec.state((spec, files))
  rec.outcome('%d of %d rows kept' % (len(kept), len(spec)))


# -- experiment runs -------------------------------------------------------

def pair_pose(i, j, salt):
  return rig.Pose.aa((1 + i, 2 - j, 1 + salt % 3), 0.3 + 0.2 * i + 0.1 * j + 0.05 * salt,
                     (0.1 * (i + 1), -0.2 * j, 0.05 * salt))


class World(object):
  """Stand-ins for everything the experiments call, with scripted outcomes."""

  def __init__(self, files, script, names):
    self.files = files
    self.script = script
    self.names = names
    self.calls = {}
    self.refined = []

  def index(self, stamp):
    return int(round(stamp / 100.0)) - 1

  def time_offset(self, times_a, quats_a, times_b, quats_b, *a, **k):
    return 0.01 * self.index(times_a[0]) + 0.001 * self.index(times_b[0])

  def aligned(self, a, b, offset, *args, **k):
    i, j = self.index(a[0, 0]), self.index(b[0, 0])
    n = 5 + i + 3 * j
    out = []
    for idx in (i, j):
      t = np.zeros((n, 8))
      t[:, 0] = np.arange(n)
      t[:, 1] = np.arange(n) * (idx + 1.0)
      t[:, 7] = 1.0
      out.append(t)
    return tuple(out)

  def outcome(self, name, it, pair):
    return self.script(name, it, pair)

  def calibrate(self, baseline):
    def stand_in(dq_a, dq_b, config):
      name = config.verif_name
      check(config.use_baseline_approach == baseline, '{} calibrated by the {} method', name,
            'baseline' if baseline else 'search')
      pair = (int(round(dq_a[1].to_pose()[0])) - 1, int(round(dq_b[1].to_pose()[0])) - 1)
      check(len(dq_a) == len(dq_b) == 5 + pair[0] + 3 * pair[1], 'poses of pair {}', pair)
      it = self.calls.get((name, pair), 0)
      self.calls[(name, pair)] = it + 1
      kind = self.outcome(name, it, pair)
      if kind == 'raise':
        raise AssertionError('Not enough inliers found!')
      if kind == 'fail':
        return (False, None, (-1, -1) if it % 2 else (None, None), None if it % 2 else 0,
                3, 0.5, None, None)
      v = self.values(name, it, pair)
      return (True, v['dq'].dq(), v['rmse'], v['inliers'], v['kept'], v['runtime'],
              v['singular'], kind == 'singular')
    return stand_in

  def values(self, name, it, pair):
    k = self.names.index(name) * 100 + it * 30 + pair[0] * 5 + pair[1]
    return dict(dq=pair_pose(pair[0], pair[1], k), rmse=(0.001 * k + 0.0005, 0.1 * k + 0.05),
                inliers=10 + k, kept=20 + k, runtime=0.5 + k, singular=np.arange(8) + 0.5 * k)

  def refine(self, cmd, dry_run=False):
    args = shlex.split(cmd)
    opts = {}
    for a in args:
      if a.startswith('--') and '=' in a:
        o, v = a[2:].split('=', 1)
        opts[o] = v
    pair = (self.files.index(opts['pose1_csv']), self.files.index(opts['pose2_csv']))
    with open(opts['init_guess_file']) as f:
      guess = json.load(f)
    self.refined.append((pair, opts, guess))
    name, it = self.identify(opts, pair)
    if self.outcome(name, it, pair) == 'runfail':
      raise Exception('batch estimator failed')
    p = self.optimised(name, it, pair)
    with open(opts['output_file'], 'w') as f:
      json.dump(dict(delay=0.5 + it, rotation=dict(zip('ijkw', [float(v) for v in p.q])),
                     translation=dict(zip('xyz', [float(v) for v in p.t]))), f)

  def identify(self, opts, pair):
    base = os.path.basename(opts['output_file'])
    name = max((n for n in self.names if base.startswith(n)), key=len)
    return name, self.calls[(name, pair)] - 1

  def optimised(self, name, it, pair):
    k = self.names.index(name) * 100 + it * 30 + 7
    return pair_pose(pair[0], pair[1], k)

  def evaluate(self, a, b, dq, offset, config):
    pair = (self.index(a[0, 0]), self.index(b[0, 0]))
    name = config.verif_name
    it = self.calls[(name, pair)] - 1
    check(rig.same_transform(dq, self.optimised(name, it, pair)) and abs(offset - 0.5 - it) < 1e-9,
          '{} pair {}: other calibration evaluated', name, pair)
    if self.outcome(name, it, pair) == 'noeval':
      return ((float('inf'), float('inf')), 0)
    k = self.values(name, it, pair)
    return ((k['rmse'][0] + 7, k['rmse'][1] + 8), k['inliers'] + 9)

  def configs(self):
    """The real presets of this run, recognisable by the stand-ins."""
    real = {c[0]: c for c in REAL_CONFIGS()}
    out = []
    for n in self.names:
      real[n][2].verif_name = n
      out.append(real[n])
    return out

  @contextlib.contextmanager
  def installed(self):
    patches = [(TA, 'calculate_time_offset', self.time_offset),
               (TA, 'compute_aligned_poses', self.aligned),
               (CV, 'compute_aligned_poses', self.aligned),
               (HE, 'compute_hand_eye_calibration_BASELINE', self.calibrate(True)),
               (HE, 'compute_hand_eye_calibration_RANSAC', self.calibrate(False)),
               (CV, 'evaluate_calibration', self.evaluate), (BU, 'run', self.refine),
               (AC, 'get_all_configs', self.configs)]
    old = [(m, n, getattr(m, n)) for m, n, _ in patches]
    for m, n, f in patches:
      setattr(m, n, f)
    try:
      yield
    finally:
      for m, n, f in old:
        setattr(m, n, f)


REAL_CONFIGS = AC.get_all_configs


# Names of the pose files and of the result folder.
STYLES = [('poses_%d.csv', 'out'), ('pose set %d.csv', 'out'), ('poses_%d.csv', 'out of all'),
          ("it's (%d).csv", 'a "new" $HOME')]


def work_folder(n, style=0):
  d = os.path.join(ROOT, 'work')
  if os.path.isdir(d):
    shutil.rmtree(d)
  os.mkdir(d)
  os.chdir(d)
  files = []
  for i in range(n):
    f = STYLES[style][0] % i
    with open(f, 'w') as out:
      for k in range(4):
        out.write('%.3f, %.3f, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0\n' % (100.0 * (i + 1) + k, k))
    files.append(f)
  return STYLES[style][1], files


def run_script(script, argv):
  old = sys.argv
  sys.argv = [script] + argv
  try:
    with core.script_files():
      runpy.run_path(script, run_name='__main__')
  finally:
    sys.argv = old


def expected_loop(poses, n):
  order = list(itertools.combinations(range(n), 2))
  m = np.eye(4)
  for i in range(n - 1):
    m = m.dot(poses[order.index((i, i + 1))].mat)
  m = m.dot(M.inv(poses[order.index((0, n - 1))].mat))
  return np.linalg.norm(m[:3, 3]), math.degrees(M.rot_angle(m[:3, :3]))


def numbers_in(path):
  """One list of numbers per line of a pose file."""
  with open(path) as f:
    return [[float(v) for v in l.strip().strip('[]').split()] for l in f if l.strip()]


def run_experiment(case, rec):
  n, names, pattern = case['n'], case['names'], case['pattern']
  pairs = list(itertools.combinations(range(n), 2))
  out, files = work_folder(n, case['style'])

  def script(name, it, pair):
    if name == names[0] and it == case['it']:
      return pattern[pairs.index(pair)]
    return 'ok'

  world = World(files, script, names)
  header = ResultEntry().get_header()
  old_rows = []
  if case['existing']:
    os.mkdir(out)
    old_rows = [filled(1).write_pose_pair_to_csv_line(0)]
    with open(out + '/results.csv', 'w') as f:
      f.write(header + old_rows[0])
  what = '{} data sets, {} outcomes {} in iteration {}'.format(n, names, pattern, case['it'])
  argv = ['--aligned_poses_B_H_csv_files'] + files + ['--result_directory', out,
                                                      '--num_iterations', '2']
  absolute = case.get('absolute')
  if absolute:
    argv += ['--is_absolute_pose_sensor'] + [str(v) for v in absolute]
  with world.installed():
    run_script(DRIVER, argv)
  rec.step()
  with open(out + '/results.csv') as f:
    lines = f.readlines()
  check(lines and lines[0] == header, '{}: header {!r}', what, lines[:1])
  check(lines[1:1 + len(old_rows)] == old_rows, '{}: rows of an earlier run changed', what)
  rows = [parse_row(header, l) for l in lines[1 + len(old_rows):]]
  found = {}
  pair_column = [c for c in PAIR_COLUMNS if c in rows[0]][0]
  for r in rows:
    key = (r['algorithmname'], int(r['iterationnum']), int(r[pair_column]))
    check(key not in found, '{}: two rows for {}', what, key)
    found[key] = r
  want = set()
  configs = {c[0]: c for c in REAL_CONFIGS()}
  for name in names:
    (_, _, he, opt) = configs[name]
    single = he.enable_exhaustive_search or he.use_baseline_approach
    for it in range(1 if single else 2):
      kinds = [script(name, it, p) for p in pairs]
      results = []
      for p, (pair, kind) in enumerate(zip(pairs, kinds)):
        want.add((name, it, p))
        r = found.get((name, it, p))
        check(r is not None, '{}: no row for {} iteration {} pair {}', what, name, it, pair)
        ok = kind in ('ok', 'singular')
        calibrated = kind not in ('fail', 'raise')
        v = world.values(name, it, pair)
        fields = dict(prefiltering=he.prefilter_poses_enabled,
                      optimizationenabled=opt.enable_optimization,
                      posesBHcsvfile=files[pair[0]], posesWEcsvfile=files[pair[1]],
                      success=calibrated)
        if opt.enable_optimization or ok:
          fields['optimizationsuccess'] = ok
        if calibrated:
          fields.update(numinputposes=5 + pair[0] + 3 * pair[1],
                        numposesafterfiltering=v['kept'], runtimes=v['runtime'],
                        singularvalues=v['singular'], badsingularvalues=kind == 'singular')
        if ok:
          rmse, inliers = v['rmse'], v['inliers']
          if opt.enable_optimization:
            rmse, inliers = (rmse[0] + 7, rmse[1] + 8), inliers + 9
          fields.update(positionrmse=rmse[0], orientationrmse=rmse[1], numinliers=inliers)
        for c, value in fields.items():
          check(same_value(r[c], value), '{}: {} iteration {} pair {}: column {} holds {!r} '
                'instead of {!r}', what, name, it, pair, c, r[c], value)
        if opt.enable_optimization:
          if ok:
            check(float(r['optimizationruntimes']) >= 0, '{}: runtime {}', what,
                  r['optimizationruntimes'])
          results.append(world.optimised(name, it, pair) if ok else None)
        else:
          results.append(v['dq'] if ok else None)
        rec.step()
      if all(results):
        loop = expected_loop(results, n)
        for r in (found[(name, it, p)] for p in range(len(pairs))):
          check(abs(float(r['looperrorpositionm']) - loop[0]) < 1e-6 and
                abs(float(r['looperrororientationdeg']) - loop[1]) < 1e-4,
                '{}: {} iteration {}: loop error {} {} instead of {}', what, name, it,
                r['looperrorpositionm'], r['looperrororientationdeg'], loop)
      else:
        for r in (found[(name, it, p)] for p in range(len(pairs))):
          check(r['looperrorpositionm'] in ('-1', '-1.0', 'None', 'nan'),
                '{}: {} iteration {}: loop error {} without all calibrations', what, name, it,
                r['looperrorpositionm'])
  check(set(found) == want, '{}: rows {}', what, sorted(set(found) - want))
  # Pose files: one line for every iteration that gave a pose.
  for name in names:
    (_, _, he, opt) = configs[name]
    its = range(1 if he.enable_exhaustive_search or he.use_baseline_approach else 2)
    for p, pair in enumerate(pairs):
      poses = []
      for it in its:
        kind = script(name, it, pair)
        if kind in ('ok', 'singular') or kind == 'noeval':
          poses.append((kind, world.optimised(name, it, pair) if opt.enable_optimization else
                        world.values(name, it, pair)['dq']))
      sure = [q for k, q in poses if k != 'noeval']
      both = [q for _, q in poses]
      for folder, suffix in (('dq_H_E', 'dq_H_E'), ('poses_H_E', 'pose_H_E')):
        path = '%s/%s/%s_pose_pair_%d_%s.txt' % (out, folder, name, p, suffix)
        got = numbers_in(path) if os.path.exists(path) else []
        good = False
        for wanted in (sure, both):
          good = good or (len(got) == len(wanted) and all(
              matches(g, q, folder == 'dq_H_E') for g, q in zip(got, wanted)))
        check(good, '{}: {} pair {}: file {} holds {}', what, name, pair, path, got)
  # Every refinement started from the calibration of its pair.
  flags = [bool(v) for v in absolute] if absolute else [False] * n
  started = {}
  for pair, opts, guess in world.refined:
    name = max((m for m in names if os.path.basename(opts['output_file']).startswith(m)), key=len)
    it = started.get((name, pair), 0)
    kinds = [script(name, i, pair) for i in range(2)]
    its = [i for i in range(2) if kinds[i] not in ('fail', 'raise')]
    started[(name, pair)] = it + 1
    check(it < len(its), '{}: {} refined pair {} without a calibration', what, name, pair)
    v = world.values(name, its[it], pair)['dq']
    g = rig.Pose([guess['rotation'][c] for c in 'ijkw'], [guess['translation'][c] for c in 'xyz'])
    check(np.allclose(g.mat, v.mat, atol=1e-9), '{}: {} pair {} refined from {}', what, name, pair,
          guess)
    check(abs(guess['delay'] - (0.01 * pair[0] + 0.001 * pair[1])) < 1e-9,
          '{}: {} pair {} refined with delay {}', what, name, pair, guess['delay'])
    check_flags(opts, flags, pair, what)
  rec.state((n, names, pattern, case['it'], [l for l in lines if 'optimi' not in l][:1]))
  rec.outcome('all pairs calibrated' if set(pattern) <= {'ok'} else
              'experiment with failures')


def check_flags(opts, flags, pair, what):
  given = dict(o.split('=') for o in opts['model_config'].split(','))
  for k, i in enumerate(pair):
    key = 'pose%d/absoluteMeasurements' % (k + 1)
    check(given.get(key) == ('true' if flags[i] else 'false'), '{}: pair {} refined with {}', what,
          pair, given)


def matches(numbers, pose, is_dq):
  if is_dq:
    want = pose.vec
  else:
    want = np.concatenate([pose.t, pose.q])
  if len(numbers) != len(want):
    return False
  numbers = np.array(numbers)
  if np.allclose(numbers, want, atol=1e-6):
    return True
  flip = -want if is_dq else np.concatenate([pose.t, -np.array(pose.q)])
  return np.allclose(numbers, flip, atol=1e-6)


class SerialPool(object):
  def __init__(self, *a, **k):
    pass

  def map(self, f, items, *a, **k):
    return [f(i) for i in items]

  def close(self):
    pass

  def join(self):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False


def run_refinement(case, rec):
  """Refinement experiments with scripted failures of the external tool."""
  import multiprocessing
  n = case['n']
  pairs = list(itertools.combinations(range(n), 2))
  failing = [pairs[k] for k in range(len(pairs)) if case['fail'] >> k & 1]
  flags = [(case['fail'] >> k) + k & 1 for k in range(n)]
  out, files = work_folder(n, case['style'])

  def script(name, it, pair):
    return case['kind'] if pair in failing else 'ok'

  world = World(files, script, [SPOILED])
  world.identify = lambda opts, pair: (SPOILED, 0)
  real = AC.get_optimization_with_spoiled_initial_calibration_config

  def config():
    c = real()
    c[2].verif_name = SPOILED
    return c

  real_pool = multiprocessing.Pool
  multiprocessing.Pool = SerialPool
  AC.get_optimization_with_spoiled_initial_calibration_config = config
  random.seed(1)
  np.random.seed(1)
  try:
    with world.installed():
      run_script(REFINE, ['--aligned_poses_B_H_csv_files'] + files + [
          '--result_directory', out, '--num_iterations', str(case['iterations']),
          '--is_absolute_pose_sensor'] + [str(v) for v in flags])
  finally:
    multiprocessing.Pool = real_pool
    AC.get_optimization_with_spoiled_initial_calibration_config = real
  what = 'refinement of {} data sets, {} {}'.format(n, case['kind'], failing)
  header = ResultEntry().get_header()
  with open(out + '/results_optimization.csv') as f:
    lines = f.readlines()
  check(lines and lines[0] == header, '{}: header', what)
  rows = [parse_row(header, l) for l in lines[1:]]
  # A pair without calibration has rows but nothing to refine.
  lost = failing if case['kind'] in ('fail', 'raise') else []
  check(all(pair not in lost for pair, _, _ in world.refined), '{}: refined without calibration',
        what)
  check(len(rows) and len(rows) % (len(pairs) * case['iterations']) == 0, '{}: {} rows', what,
        len(rows))
  # The runs are independent processes, none may use the files of another.
  for option in ('init_guess_file', 'output_file'):
    used = [opts[option] for _, opts, _ in world.refined]
    check(len(set(used)) == len(used), '{}: {} shared by several runs', what, option)
  pair_column = [c for c in PAIR_COLUMNS if c in rows[0]][0]
  count = {}
  refined = iter(world.refined)
  for r in rows:
    p = int(r[pair_column])
    key = (p, r['iterationnum'])
    count[key] = count.get(key, 0) + 1
    if pairs[p] in lost:
      fields = dict(algorithmname=SPOILED, prefiltering=True, optimizationenabled=True,
                    posesBHcsvfile=files[pairs[p][0]], posesWEcsvfile=files[pairs[p][1]],
                    success=False, optimizationsuccess=False,
                    numinputposes=5 + pairs[p][0] + 3 * pairs[p][1])
      for c, value in fields.items():
        check(same_value(r[c], value), '{}: pair {}: column {} holds {!r} instead of {!r}', what,
              pairs[p], c, r[c], value)
      check(r['looperrorpositionm'] in ('-1', '-1.0', 'None', 'nan'), '{}: loop error {}', what,
            r['looperrorpositionm'])
      rec.step()
      continue
    pair, opts, guess = next(refined, (None, None, None))
    check(pairs[p] == pair, '{}: row for pair {} but refined pair {}', what, pairs[p], pair)
    check_flags(opts, flags, pair, what)
    ok = pair not in failing
    v = world.values(SPOILED, 0, pair)
    fields = dict(algorithmname=SPOILED, prefiltering=True, optimizationenabled=True,
                  posesBHcsvfile=files[pair[0]], posesWEcsvfile=files[pair[1]], success=True,
                  optimizationsuccess=ok, numinputposes=5 + pair[0] + 3 * pair[1],
                  numposesafterfiltering=v['kept'], runtimes=v['runtime'],
                  singularvalues=v['singular'], badsingularvalues=False)
    if ok:
      fields.update(positionrmse=v['rmse'][0] + 7, orientationrmse=v['rmse'][1] + 8,
                    numinliers=v['inliers'] + 9)
    for c, value in fields.items():
      check(same_value(r[c], value), '{}: pair {}: column {} holds {!r} instead of {!r}', what,
            pair, c, r[c], value)
    # The row states the perturbation that was handed to the refinement.
    g = rig.Pose([guess['rotation'][c] for c in 'ijkw'], [guess['translation'][c] for c in 'xyz'])
    off = np.array(g.t) - np.array(v['dq'].t)
    check(same_value(r['spoiledinitialguesstranslationoffset'], off),
          '{}: pair {}: translation offset {} instead of {}', what, pair,
          r['spoiledinitialguesstranslationoffset'], off)
    angle = M.geodesic(g.mat[:3, :3], v['dq'].mat[:3, :3])
    check(abs(float(r['spoiledinitialguessangleoffset']) - angle) < 1e-6,
          '{}: pair {}: angle offset {} instead of {}', what, pair,
          r['spoiledinitialguessangleoffset'], angle)
    shift = guess['delay'] - (0.01 * pair[0] + 0.001 * pair[1])
    check(abs(float(r['spoiledinitialguesstimeoffset']) - shift) < 1e-9,
          '{}: pair {}: time offset {} instead of {}', what, pair,
          r['spoiledinitialguesstimeoffset'], shift)
    if failing:
      check(r['looperrorpositionm'] in ('-1', '-1.0', 'None', 'nan'), '{}: loop error {}', what,
            r['looperrorpositionm'])
    else:
      loop = expected_loop([world.optimised(SPOILED, 0, q) for q in pairs], n)
      check(abs(float(r['looperrorpositionm']) - loop[0]) < 1e-6, '{}: loop error {}', what,
            r['looperrorpositionm'])
    rec.step()
  check(next(refined, None) is None, '{}: more refinements than rows', what)
  check(len(set(count.values())) == 1 and len(count) == len(pairs) * case['iterations'],
        '{}: rows per pair and iteration {}', what, count)
  rec.state((n, case['fail'], case['kind'], len(rows)))
  rec.outcome('refinement experiment')


# -- enumeration -----------------------------------------------------------

def cases(tier):
  thorough = tier == 'thorough'
  # Longest first.
  for n in (2, 3):
    pairs = n * (n - 1) // 2
    for fail in range(1 << pairs):
      for kind in ('runfail', 'noeval', 'fail', 'raise') if fail else ('ok',):
        yield dict(k='refinement', n=n, fail=fail, kind=kind,
                   iterations=2 if fail in (0, 1) else 1, style=0)
  for style in range(1, len(STYLES)):
    yield dict(k='refinement', n=2, fail=0, kind='ok', iterations=1, style=style)
  presets = NAMES if thorough else ['baseline_filter_opt', 'baseline_no_filter_no_opt',
                                    'RC_filter_opt', 'RC_no_filter_no_opt', 'RS_filter_no_opt',
                                    'ES_opt', 'EC_no_opt']
  for k, name in enumerate(presets):
    other = presets[(k + 3) % len(presets)]
    kinds = ['ok', 'fail', 'raise', 'runfail', 'noeval'] if not name.endswith('_no_opt') else \
        ['ok', 'fail', 'raise', 'singular']
    its = (0, 1) if name[:2] in ('RC', 'RS') else (0,)
    for n in (2, 3):
      pairs = n * (n - 1) // 2
      for c, pattern in enumerate(itertools.product(kinds, repeat=pairs)):
        for it in its if n == 2 or len(set(pattern)) < 3 else (c % len(its),):
          yield dict(k='experiment', n=n, names=[name, other], pattern=list(pattern), it=it,
                     existing=c % 2, style=c % len(STYLES), absolute=[0, 1, 1][:n] if c % 3 == 0 else None)
    for mask in range(64):
      yield dict(k='experiment', n=4, names=[name, other], it=0, existing=0, style=0, absolute=None,
                 pattern=['fail' if mask >> p & 1 else 'ok' for p in range(6)])
  for i in range(17):
    yield dict(k='preset', i=i)
  for pairs in range(1, 7):
    yield dict(k='lengths', pairs=pairs)
  singles = [(f, v) for f in sorted(ALPHABET) for v in range(len(ALPHABET[f]))]
  for n in (2, 3, 4):
    yield dict(k='rows', n=n, changes=[])
    for a in singles:
      yield dict(k='rows', n=n, changes=[a])
  for a, b in itertools.combinations(singles, 2):
    if a[0] != b[0]:
      yield dict(k='rows', n=3, changes=[a, b])
  for name in NAMES + [SPOILED]:
    for kind in KINDS:
      yield dict(k='load', rows=[(name, 'lab', kind)], files=[1])
      yield dict(k='load', rows=[(name, 'lab', kind), ('RS_filter_opt', 'field', 'ok')],
                 files=[2])
  alphabet = [(m, d, kind) for m in ('RC_no_filter_opt', SPOILED) for d in ('lab', 'field')
              for kind in KINDS]
  for count in range(1, 5 if thorough else 4):
    splits = [c for size in range(1, count + 1)
              for c in itertools.product(range(1, count + 1), repeat=size) if sum(c) == count]
    for c, spec in enumerate(itertools.product(alphabet, repeat=count)):
      for s in splits if count < 4 else (splits[c % len(splits)],):
        yield dict(k='load', rows=[list(x) for x in spec], files=list(s))


RUNS = dict(rows=run_rows, lengths=run_lengths, preset=run_preset, load=run_load,
            experiment=run_experiment, refinement=run_refinement)


def run(case, rec):
  RUNS[case['k']](case, rec)
