"""The complete-calibration script with stand-ins for its stages."""
import itertools
import json
import os
import shutil
import stat
import subprocess
import sys

from mc import core
from mc.core import check

ID = 'C24'
BOUND = {
    'quick': '10 layouts of the two recordings (folders, spaces, same name, relative and absolute, '
             'special characters) x every stage failing before / after / without writing its '
             'files (all subsets) x {fresh folder, files of an earlier run}; all histories of 3 '
             'runs over 3 fault patterns and changed recordings; missing arguments',
    'thorough': 'as quick with histories of 4 runs over 5 fault patterns'}
MIN_OUTCOMES = 3
ASSUMPTIONS = ['rosrun is a stand-in that records its arguments and writes outputs that are a '
               'function of its inputs']

SCRIPT = os.path.join(core.HEC, 'scripts', 'compute_complete_handeye_calibration.sh')
ROOT = None
BIN = None

# The stand-in: log the call, act as one stage.
ROSRUN = r'''#!%s
import hashlib, json, os, sys
args = sys.argv[1:]
opts = {}
rest = args[2:]
while rest:
  a = rest.pop(0)
  if a.startswith('-') and '=' in a:
    k, v = a.split('=', 1)
    opts[k.lstrip('-')] = v
  elif a.startswith('-'):
    opts[a.lstrip('-')] = rest.pop(0) if rest else None
  else:
    opts.setdefault('extra', []).append(a)
stage = {'compute_aligned_poses.py': 0, 'compute_hand_eye_calibration.py': 1,
         'batch_estimator': 2}.get(args[1] if len(args) > 1 else None)
ins = [['poses_B_H_csv_file', 'poses_W_E_csv_file'],
       ['aligned_poses_B_H_csv_file', 'aligned_poses_W_E_csv_file', 'time_offset_input_csv_file'],
       ['pose1_csv', 'pose2_csv', 'init_guess_file']]
outs = [['aligned_poses_B_H_csv_file', 'aligned_poses_W_E_csv_file',
         'time_offset_output_csv_file'], ['calibration_output_json_file'], ['output_file']]
fail = json.loads(os.environ['STAND_IN_FAIL'])
def log(status):
  with open(os.environ['STAND_IN_LOG'], 'a') as f:
    f.write(json.dumps(dict(args=args, opts=opts, stage=stage, status=status,
                            cwd=os.getcwd())) + '\n')
if stage is None:
  log('unknown')
  sys.exit(64)
if fail[stage] == 'before':
  log('failed')
  sys.exit(1)
texts = []
for k in ins[stage]:
  try:
    with open(opts[k]) as f:
      texts.append(f.read())
  except (KeyError, TypeError, IOError) as e:
    log('no input ' + k)
    sys.exit(2)
for k in outs[stage]:
  if k not in opts or opts[k] is None:
    log('no output ' + k)
    sys.exit(2)
  h = hashlib.sha1('|'.join(texts + [str(stage), k]).encode()).hexdigest()
  if fail[stage] == 'torn':
    h = h[:5]
  with open(opts[k], 'w') as f:
    f.write(h)
log('failed' if fail[stage] else 'done')
sys.exit(3 if fail[stage] else 0)
'''


def start_worker(wid, n):
  global ROOT, BIN
  ROOT = core.scratch()
  BIN = os.path.join(ROOT, 'bin')
  os.mkdir(BIN)
  path = os.path.join(BIN, 'rosrun')
  with open(path, 'w') as f:
    f.write(ROSRUN % sys.executable)
  os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR)


# (first recording, second recording); {abs} is the absolute working folder.
LAYOUTS = [('hand.csv', 'eye.csv'), ('data/hand.csv', 'data/eye.csv'),
           ('{abs}/a/hand.csv', '{abs}/b/eye.csv'), ('my data/hand.csv', 'my data/eye.csv'),
           ('hand poses.csv', 'eye poses.csv'), ('a/poses.csv', 'b/poses.csv'),
           ('{abs}/my data/the hand.csv', 'b/eye.csv'), ('./hand.csv', '../work/eye.csv'),
           ('d (1)/hand&1.csv', "it's/eye;2.csv"), ('x*y/ha?nd.csv', 'two  gaps/e$HOME.csv')]


class Place(object):
  def __init__(self, layout):
    self.dir = os.path.join(ROOT, 'work')
    if os.path.isdir(self.dir):
      shutil.rmtree(self.dir)
    os.mkdir(self.dir)
    self.paths = [p.replace('{abs}', self.dir) for p in LAYOUTS[layout]]
    self.log = os.path.join(ROOT, 'log')
    for k in range(2):
      self.change(k, 0)

  def change(self, k, version):
    p = os.path.join(self.dir, self.paths[k])
    if not os.path.isdir(os.path.dirname(p)):
      os.makedirs(os.path.dirname(p))
    with open(p, 'w') as f:
      f.write('recording %d version %d' % (k, version))

  def content(self, path):
    p = os.path.join(self.dir, path)
    if not os.path.exists(p):
      return None
    with open(p) as f:
      return f.read()

  def run(self, fail, argv=None):
    with open(self.log, 'w'):
      pass
    env = dict(os.environ, PATH=BIN + ':' + os.environ['PATH'], STAND_IN_LOG=self.log,
               STAND_IN_FAIL=json.dumps(fail))
    done = subprocess.run(['bash', SCRIPT] + (self.paths if argv is None else argv), cwd=self.dir,
                          env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL, timeout=100)
    with open(self.log) as f:
      return done.returncode, [json.loads(l) for l in f]


def same_file(place, a, b):
  return os.path.realpath(os.path.join(place.dir, a)) == os.path.realpath(
      os.path.join(place.dir, b))


def verify(place, fail, code, calls, what):
  first = next((k for k in range(3) if fail[k]), None)
  expected = list(range(3 if first is None else first + 1))
  check([c['stage'] for c in calls] == expected, '{}: stages run: {}', what,
        [(c['args'][:2], c['status']) for c in calls])
  for c in calls:
    check('extra' not in c['opts'], '{}: stray arguments {}', what, c['args'])
    k = c['stage']
    check(c['status'] == ('failed' if fail[k] else 'done'), '{}: stage {} {}: {}', what, k,
          c['status'], c['args'])
    o = c['opts']
    packages = ['hand_eye_calibration', 'hand_eye_calibration',
                'hand_eye_calibration_batch_estimation']
    check(c['args'][0] == packages[k], '{}: stage {} of package {}', what, k, c['args'][0])
    if k == 0:
      pairs = [('poses_B_H_csv_file', place.paths[0]), ('poses_W_E_csv_file', place.paths[1])]
      align = o
      check(not any(same_file(place, o[n], p) for p in place.paths for n in (
          'aligned_poses_B_H_csv_file', 'aligned_poses_W_E_csv_file',
          'time_offset_output_csv_file')), '{}: alignment overwrites a recording: {}', what, o)
      check(len({os.path.realpath(os.path.join(place.dir, o[n])) for n in (
          'aligned_poses_B_H_csv_file', 'aligned_poses_W_E_csv_file',
          'time_offset_output_csv_file')}) == 3, '{}: outputs of the alignment coincide: {}', what,
            o)
    elif k == 1:
      pairs = [(n, align[n]) for n in ('aligned_poses_B_H_csv_file',
                                       'aligned_poses_W_E_csv_file')]
      pairs.append(('time_offset_input_csv_file', align['time_offset_output_csv_file']))
      calibrated = o['calibration_output_json_file']
    else:
      pairs = [('pose1_csv', place.paths[0]), ('pose2_csv', place.paths[1]),
               ('init_guess_file', calibrated)]
      check(not same_file(place, o['output_file'], calibrated), '{}: refinement overwrites its '
            'initial guess', what)
    for n, p in pairs:
      check(n in o and same_file(place, o[n], p), '{}: stage {} got {} {!r} instead of {!r}', what,
            k, n, o.get(n), p)
    if k < 2:
      check(str(o.get('visualize', '0')).lower() in ('0', 'false', 'no'),
            '{}: plots switched on in stage {}', what, k)
  if first is None:
    check(code == 0, '{}: exit status {}', what, code)
  else:
    check(code != 0, '{}: stage {} failed but the exit status is 0', what, first)


def run_single(case, rec):
  place = Place(case['layout'])
  fail = case['fail']
  what = 'layout {} failing {} {}'.format(LAYOUTS[case['layout']], fail,
                                          'after a complete run' if case['stale'] else '')
  if case['stale']:
    code, calls = place.run([None] * 3)
    verify(place, [None] * 3, code, calls, what + ' (first run)')
    place.change(case['layout'] % 2, 1)
    rec.step(3)
  inputs = [place.content(p) for p in place.paths]
  code, calls = place.run(fail)
  verify(place, fail, code, calls, what)
  check([place.content(p) for p in place.paths] == inputs, '{}: recordings changed', what)
  rec.step(len(calls))
  rec.state((case['layout'], fail, case['stale'], code))
  rec.outcome('completed' if code == 0 else 'stopped at stage %d' % calls[-1]['stage'])


def run_history(case, rec):
  """Results after a complete run depend on the current recordings only."""
  place = Place(case['layout'])
  version = 0
  for step, (fail, change) in enumerate(case['runs']):
    if change:
      version += 1
      place.change(change - 1, version)
    what = 'run {} of history {}'.format(step, case['runs'])
    code, calls = place.run(fail)
    verify(place, fail, code, calls, what)
    rec.step(len(calls))
  last = [dict(c['opts']) for c in calls]
  if all(f is None for f in case['runs'][-1][0]):
    result = place.content(last[2]['output_file'])
    clean = Place(case['layout'])
    for k in range(2):
      with open(os.path.join(place.dir, place.paths[k]), 'w') as f:
        v = max([i for i, (_, c) in enumerate(numbered(case['runs'])) if c == k + 1] or [-1])
        f.write('recording %d version %d' % (k, 0 if v < 0 else numbered(case['runs'])[v][0]))
    code, calls = clean.run([None] * 3)
    check(code == 0 and clean.content(calls[2]['opts']['output_file']) == result,
          'history {}: result differs from a run from scratch', case['runs'])
    rec.outcome('history ends with a complete run')
  else:
    rec.outcome('history ends with a failure')
  rec.state((case['layout'], case['runs']))


def numbered(runs):
  """(version, changed recording) of every run."""
  out, version = [], 0
  for _, change in runs:
    if change:
      version += 1
    out.append((version, change))
  return out


def run_arguments(case, rec):
  place = Place(0)
  before = sorted(os.listdir(place.dir))
  code, calls = place.run([None] * 3, case['argv'])
  # Without both recordings no stage can succeed.
  check(code != 0, 'arguments {}: exit status 0', case['argv'])
  check(all(c['status'] != 'done' for c in calls), 'arguments {}: stages {}', case['argv'], calls)
  check(sorted(os.listdir(place.dir)) == before, 'arguments {}: wrote {}', case['argv'],
        sorted(os.listdir(place.dir)))
  rec.step()
  rec.state(case['argv'])
  rec.outcome('missing recordings')


def cases(tier):
  kinds = [None, 'before', 'after', 'torn']
  for layout in range(len(LAYOUTS)):
    for fail in itertools.product(kinds, repeat=3):
      for stale in (0, 1):
        yield dict(k='single', layout=layout, fail=list(fail), stale=stale)
  faults = [[None] * 3, ['torn', None, None], [None, 'before', None]]
  if tier == 'thorough':
    faults += [[None, None, 'torn'], [None, 'torn', None]]
  steps = [(f, c) for f in faults for c in (0, 1, 2)]
  for runs in itertools.product(steps, repeat=4 if tier == 'thorough' else 3):
    if tier == 'thorough' and any(f[0] for f, _ in runs[:1]) and runs[0][1]:
      continue
    if runs[0][1]:
      continue
    yield dict(k='history', layout=len(runs[1][0]) % 2 * 3, runs=[list(r) for r in runs])
  for argv in ([], ['hand.csv'], ['hand.csv', 'missing.csv'], ['missing.csv', 'eye.csv'],
               ['no/hand.csv', 'no/eye.csv']):
    yield dict(k='arguments', argv=argv)


RUNS = dict(single=run_single, history=run_history, arguments=run_arguments)


def run(case, rec):
  RUNS[case['k']](case, rec)
