"""What the batch refinement hands to its optimiser and what it writes."""
import itertools
import json
import os

import numpy as np

from mc import core
from mc import native
from mc.core import check

ID = 'C32'
BOUND = {
    'quick': 'all pairs of recordings of 1 to 3 rows over {pose with / without blanks, many digits, '
             'negative scalar part, time stamp only} in both quaternion conventions; every broken '
             'row at every place of recordings of up to 3 rows; every subset of the places that '
             'define a setting, for 5 settings; 6 results; 9 intervals of the recorded poses',
    'thorough': 'as quick with recordings of up to 4 rows'}
MIN_OUTCOMES = 8
ASSUMPTIONS = ['the optimiser, the value stores and the package path are stand-ins; the tool '
               'itself is compiled from the repository',
               'copies of a property tree are handles of the same content']

SOURCE = os.path.join(core.REPO, 'hand_eye_calibration_batch_estimation', 'src',
                      'batch_estimator.cc')
PROGRAM, = native.build(SOURCE, [[]])
ROOT = None

ROWS = 'pbdno'
POSES = {
    'p': ([0.5, -1.25, 2.], [0.5, 0.5, 0.5, 0.5], ', ', '%r'),
    'b': ([1e-3, 40., -0.125], [0., 0.6, 0., 0.8], ',', '%r'),
    'd': ([1. / 3., 1e5 + 0.1, -2. / 3.], [0.48, 0.6, 0., 0.64], ', ', '%.18e'),
    'n': ([3., 2., 1.], [0.64, 0., 0.48, -0.6], ', ', '%.17g')}
BROKEN = {
    'short': '10.5, 1.0, 2.0, 3.0, 0.0, 0.0, 0.0',
    'long': '10.5, 1.0, 2.0, 3.0, 0.0, 0.0, 0.0, 1.0, 0.0',
    'pair': '10.5, 1.0',
    'text': '10.5, 1.0, x, 3.0, 0.0, 0.0, 0.0, 1.0',
    'header': 'timestamp, x [m], y[m], z[m], x, y, z, w',
    'norm': '10.5, 1.0, 2.0, 3.0, 0.5, 0.0, 0.0, 1.0'}
GUESS = dict(delay=0.125, rotation=dict(i=0.5, j=-0.5, k=0.5, w=0.5),
             translation=dict(x=1., y=-2., z=0.25))
NAMES = ['delay', 'translation/x', 'translation/y', 'translation/z', 'rotation/i', 'rotation/j',
         'rotation/k', 'rotation/w']
RESULTS = [[0.1, 1.5, -2.5, 0.3, 0.48, 0.6, 0., 0.64], [0., 0., 0., 0., 0., 0., 0., 1.],
           [-3.25, 1. / 3., 1e-9, 1e6, 0.5, 0.5, 0.5, 0.5],
           [1e-12, -1., -1., -1., 0.8, 0., 0.6, 0.], [2., 0., 0., 1., 0., 0., 1., 0.],
           [0.1 + 0.2, 5e-324, 1e-300, 3., 0., 0.8, 0.6, 0.]]
KEYS = ['pose2/delay', 'pose2/translation/x', 'pose2/mestimator/name', 'pose1/frame',
        'traj/splines/knotsPerSecond']
PLACES = ['extra', 'guess', 'config']


def cases(tier):
  n = 4 if tier == 'thorough' else 3
  recordings = [''.join(r) for k in range(1, n + 1) for r in itertools.product(ROWS, repeat=k)]
  small = [r for r in recordings if len(r) <= 2]
  for jpl in (False, True):
    for r in recordings:
      yield dict(kind='rows', first=r, second='pd', jpl=jpl)
      yield dict(kind='rows', first='dp', second=r, jpl=jpl)
    for a, b in itertools.product(small, repeat=2):
      yield dict(kind='rows', first=a, second=b, jpl=jpl)
  for k in range(1, n + 1):
    for place, broken, which in itertools.product(range(k), sorted(BROKEN), (0, 1)):
      yield dict(kind='broken', n=k, place=place, broken=broken, which=which)
  for what in ('no first', 'no second', 'no guess', 'no configuration', 'no optimum'):
    yield dict(kind='failure', what=what)
  for key in KEYS:
    for places in itertools.product((0, 1), repeat=3):
      if places[1] and not key.startswith('pose2'):
        continue
      for more in (0, 1, 2):
        yield dict(kind='setting', key=key, places=list(places), more=more)
  for style in ('default', 'marker', 'path'):
    yield dict(kind='configuration', style=style)
  for i in range(len(RESULTS)):
    for jpl in (False, True):
      yield dict(kind='result', i=i, jpl=jpl)
  for times in ([10.], [10., 10.01], [10., 10.02], [10., 10.05], [0., 1.], [1479313046.25, 1479313046.5],
                [10.02, 10.], [10.04, 10., 10.06], [-0.5, 0.5]):
    for outlier in (False, True):
      yield dict(kind='interval', times=times, outlier=outlier)
  yield dict(kind='no output')


def start_worker(wid, n):
  global ROOT
  ROOT = core.scratch()


def stamp(which, i):
  return 10. + 0.25 * i + 0.125 * which


def row(kind, t):
  if kind == 'o':
    return '%r' % t
  p, q, sep, fmt = POSES[kind]
  return sep.join(fmt % v for v in [t] + p + q)


def expected(kind, t, jpl):
  ns = int(round(t * 1e9))
  if kind == 'o':
    return (ns, None)
  p, q = POSES[kind][:2]
  # The optimiser works with the inverse of Hamilton quaternions.
  return (ns, tuple(p) + (tuple(q) if jpl else (-q[0], -q[1], -q[2], q[3])))


def lines(kinds, which, times=None):
  return [row(k, times[i] if times else stamp(which, i)) for i, k in enumerate(kinds)]


class Run(object):
  """One execution of the tool in a folder of its own."""

  def __init__(self, first, second, jpl=False, guess=GUESS, result=RESULTS[0], config=None,
               extra=None, flags=(), keys=()):
    self.folder = native.empty(os.path.join(ROOT, 'run'))
    for name, content in (('a.csv', first), ('b.csv', second)):
      if content is not None:
        self.write(name, ''.join(l + '\n' for l in content))
    if guess is not None:
      self.write('guess.json', json.dumps(guess))
    if result is not None:
      self.write('result.txt', ' '.join('%.17g' % v for v in result))
    argv = [PROGRAM, '-v', '1', '--pose1_csv', 'a.csv', '--pose2_csv=b.csv', '--init_guess_file',
            'guess.json', '--output_file', 'out.json']
    if config is not None:
      self.write('own.info', config)
      argv += ['--config_file', 'own.info']
    if extra is not None:
      argv += ['--model_config', extra]
    if jpl:
      argv.append('--use_jpl')
    self.status = native.call(argv + list(flags), self.folder, extra=dict(
        STANDIN_PACKAGES=core.REPO, STANDIN_RESULT=os.path.join(self.folder, 'result.txt'),
        STANDIN_KEYS=' '.join(keys)))
    self.requests = [r.split() for r in native.requests(self.folder)]

  def write(self, name, text):
    with open(os.path.join(self.folder, name), 'w') as f:
      f.write(text)

  def of(self, word):
    return [r[1:] for r in self.requests if r[0] == word]

  def poses(self, sensor):
    out = []
    for r in self.of('pose'):
      if r[0] == sensor:
        out.append((int(r[1]), None if r[2] == 'outlier' else tuple(float(v) for v in r[2:])))
    return out

  def output(self):
    path = os.path.join(self.folder, 'out.json')
    check(os.path.isfile(path), 'no output file')
    with open(path) as f:
      return json.load(f)

  def trajectory(self, name):
    path = os.path.join(self.folder, name + '.out')
    check(os.path.isfile(path), '{} was not written', path)
    with open(path) as f:
      rows = [[float(c) for c in l.split(',')] for l in f.read().splitlines()]
    check(all(len(r) == 8 for r in rows), '{}: rows {}', name, rows)
    return rows


def same_poses(got, want):
  if sorted(g[0] for g in got) != sorted(w[0] for w in want):
    return False
  order = lambda x: (x[0], x[1] is not None, x[1] or ())
  for g, w in zip(sorted(got, key=order), sorted(want, key=order)):
    if (g[1] is None) != (w[1] is None):
      return False
    if g[1] is not None and not all(a == b for a, b in zip(g[1], w[1])):
      return False
  return True


def verify_input(r, wanted):
  check(r.of('model') == [['body', 'world']], 'frames {}', r.of('model'))
  for sensor, want in zip(('pose1', 'pose2'), wanted):
    got = r.poses(sensor)
    check(same_poses(got, want), '{}: the optimiser got {} for {}', sensor, got, want)
  got = r.of('interval')
  check(sorted(int(g[1]) for g in got) == sorted(w[0] for w in wanted[0]) and
        all(g[0] == 'pose1' for g in got), 'the batch interval is made of {}', got)


def verify_output(r, result, guess=GUESS, but=()):
  out = r.output()
  for name, value in zip(NAMES, result):
    if name in but:
      continue
    node = out
    for part in name.split('/'):
      check(isinstance(node, dict) and part in node, 'no {} in {}', name, out)
      node = node[part]
    check(float(node) == value, '{}: {} written, {} found', name, node, value)
  check(sorted(out) == sorted(guess), 'output {} for a guess {}', out, guess)


def verify_trajectories(r, times, jpl):
  s = np.sqrt(0.5)
  start, end = (int(round(f(times) * 1e9)) for f in (min, max))
  ticks = range(start, end + 1, 20000000)
  for name, y, q in (('a.csv', 1., (s, 0., 0., s)), ('b.csv', 2., (0., 0.6, 0., 0.8))):
    q = q if jpl else (-q[0], -q[1], -q[2], q[3])
    rows = r.trajectory(name)
    check(len(rows) == len(ticks), '{}: {} poses between {} and {}', name, len(rows), start, end)
    for tick, got in zip(ticks, rows):
      want = [tick * 1e-9, tick * 1e-9, y, 0.25] + list(q)
      check(np.abs(np.array(got) - want).max() < 1e-6, '{}: {} instead of {}', name, got, want)


def run(case, rec):
  globals()['run_' + case['kind'].replace(' ', '_')](case, rec)


def run_rows(case, rec):
  kinds, jpl = (case['first'], case['second']), case['jpl']
  r = Run(lines(kinds[0], 0), lines(kinds[1], 1), jpl)
  check(r.status == 0, 'exit status {}', r.status)
  verify_input(r, [[expected(k, stamp(w, i), jpl) for i, k in enumerate(kinds[w])]
                   for w in (0, 1)])
  verify_output(r, RESULTS[0])
  verify_trajectories(r, [stamp(0, i) for i in range(len(kinds[0]))], jpl)
  rec.step(len(kinds[0]) + len(kinds[1]) + 2)
  rec.state((kinds, jpl))
  rec.outcome('rows: %s' % ('with outliers' if 'o' in kinds[0] + kinds[1] else 'poses'))


def run_broken(case, rec):
  content = [lines('p' * case['n'], 0), lines('p' * case['n'], 1)]
  content[case['which']][case['place']] = BROKEN[case['broken']]
  r = Run(content[0], content[1])
  check(r.status != 0, 'success with the row {}', BROKEN[case['broken']])
  check(not os.path.exists(os.path.join(r.folder, 'out.json')), 'an output was written')
  rec.step()
  rec.state((case['n'], case['place'], case['broken'], case['which'], r.status))
  rec.outcome('broken: ' + case['broken'])


def run_failure(case, rec):
  what = case['what']
  good = lines('pd', 0)
  r = Run(None if what == 'no first' else good, None if what == 'no second' else good,
          guess=None if what == 'no guess' else GUESS,
          result=None if what == 'no optimum' else RESULTS[0],
          flags=['--config_file', 'absent.info'] if what == 'no configuration' else [])
  check(r.status != 0, 'success although: {}', what)
  check(not os.path.exists(os.path.join(r.folder, 'out.json')), 'an output was written')
  rec.step()
  rec.state((what, r.status))
  rec.outcome('failure: ' + what)


def nested(key, value):
  out = value
  for part in reversed(key.split('/')):
    out = {part: out}
  return out


def merge(a, b):
  out = dict(a)
  for k, v in b.items():
    out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
  return out


def info(tree, indent=''):
  out = ''
  for k, v in tree.items():
    if isinstance(v, dict):
      out += '%s%s {\n%s%s}\n' % (indent, k, info(v, indent + ' '), indent)
    else:
      out += '%s%s "%s"\n' % (indent, k, v)
  return out


def run_setting(case, rec):
  key = case['key']
  values = dict(zip(PLACES, ('0.5', '0.25', '0.75')))
  used = dict(zip(PLACES, case['places']))
  config = dict(model=dict(Gravity=dict(used='false')),
                calibrator=dict(timeBaseSensor='pose1'))
  guess = GUESS
  if used['config']:
    config = merge(config, nested('model/' + key, values['config']))
  name = key[len('pose2/'):] if key.startswith('pose2/') else None
  if used['guess']:
    guess = merge(guess, nested(name, values['guess']))
  want = '-'
  if name in NAMES:
    want = '0.125' if name == 'delay' else '1.0'
  for place in ('config', 'guess', 'extra'):
    if used[place] and (place != 'config' or name not in NAMES):
      want = values[place]
  extra = ['%s=%s' % (key, values['extra'])] if used['extra'] else []
  others = ['pose1/first=x', 'pose2/second=y'][:case['more']]
  extra = others[:1] + extra + others[1:]
  r = Run(lines('pd', 0), lines('dp', 1), guess=guess, config=info(config),
          extra=','.join(extra) if extra else None,
          keys=[key, 'pose1/first', 'pose2/second', 'Gravity/used'])
  check(r.status == 0, 'exit status {}', r.status)
  got = dict((s[0], s[1]) for s in r.of('setting'))
  same = got[key] == want or (want != '-' and got[key] != '-' and name != 'mestimator/name' and
                              float(got[key]) == float(want))
  check(same, '{} is {} instead of {} (defined in {})', key, got[key], want,
        [p for p in PLACES if used[p]])
  check([got['pose1/first'], got['pose2/second'], got['Gravity/used']] ==
        ['x' if case['more'] > 0 else '-', 'y' if case['more'] > 1 else '-', 'false'],
        'settings {} for {}', got, extra)
  # A value that is overruled from the command line is not refined in the guess.
  verify_output(r, RESULTS[0], guess, but=(name,) if used['extra'] else ())
  rec.step(4)
  rec.state((key, case['places'], case['more'], got[key]))
  defined = [p for p in PLACES if used[p] or (p == 'guess' and name in NAMES)]
  rec.outcome('setting from ' + (defined + ['nowhere'])[0])


def run_configuration(case, rec):
  path = 'hand_eye_calibration_batch_estimation/conf/config.info'
  flags = {'default': [], 'marker': ['--config_file', '<PACKAGE>/conf/config.info'],
           'path': ['--config_file', os.path.join(core.REPO, path)]}[case['style']]
  r = Run(lines('pd', 0), lines('dp', 1), flags=flags,
          keys=['pose1/frame', 'pose1/targetFrame', 'pose2/frame', 'pose2/targetFrame',
                'pose1/delay/used', 'pose1/rotation/used', 'pose1/translation/used',
                'pose2/delay/used', 'traj/McSensor', 'traj/frame', 'traj/referenceFrame'])
  check(r.status == 0, 'exit status {}', r.status)
  got = dict((s[0], s[1]) for s in r.of('setting'))
  want = {'pose1/frame': 'body', 'pose1/targetFrame': 'world', 'pose2/frame': 'body',
          'pose2/targetFrame': 'world', 'pose1/delay/used': 'false',
          'pose1/rotation/used': 'false', 'pose1/translation/used': 'false',
          'pose2/delay/used': '-', 'traj/McSensor': 'pose1', 'traj/frame': 'body',
          'traj/referenceFrame': 'world'}
  check(got == want, 'settings {} instead of {}', got, want)
  check(['timeBaseSensor', 'pose1'] in r.of('calibrator'), 'calibrator {}', r.of('calibrator'))
  check(sorted(m[0] for m in r.of('module')) == ['pose1', 'pose2', 'traj'], 'modules {}',
        r.of('module'))
  verify_output(r, RESULTS[0])
  rec.step(2)
  rec.state(case['style'])
  rec.outcome('configuration: ' + case['style'])


def run_result(case, rec):
  result = RESULTS[case['i']]
  r = Run(lines('pdn', 0), lines('nop', 1), case['jpl'], result=result)
  check(r.status == 0, 'exit status {}', r.status)
  verify_output(r, result)
  rec.step(2)
  rec.state((case['i'], case['jpl']))
  rec.outcome('result')


def run_interval(case, rec):
  times = case['times']
  kinds = 'p' * (len(times) - 1) + ('o' if case['outlier'] else 'p')
  r = Run(lines(kinds, 0, times), lines('dp', 1))
  check(r.status == 0, 'exit status {}', r.status)
  verify_input(r, [[expected(k, t, False) for k, t in zip(kinds, times)],
                   [expected(k, stamp(1, i), False) for i, k in enumerate('dp')]])
  verify_trajectories(r, times, False)
  rec.step(3)
  rec.state((times, kinds))
  rec.outcome('interval')


def run_no_output(case, rec):
  r = Run(lines('pd', 0), lines('dp', 1), flags=['--output_file='])
  check(r.status == 0, 'exit status {}', r.status)
  check(sorted(os.listdir(r.folder)) == ['a.csv', 'a.csv.out', 'b.csv', 'b.csv.out',
                                         'guess.json', 'requests.log', 'result.txt'],
        'files {}', sorted(os.listdir(r.folder)))
  rec.step()
  rec.state('no output')
  rec.outcome('no output')
