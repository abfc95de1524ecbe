"""Interrupted and repeated circle calibrations."""
import hashlib
import io
import itertools
import json
import os
import re
import runpy
import shlex
import shutil
import sys

import numpy as np

from mc import core
from mc import model as M
from mc.core import check

from hand_eye_calibration import bash_utils as BU
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration

ID = 'C20'
BOUND = {
    'quick': 'two recordings: all histories of 3 events (full run, run interrupted before / in '
             'the middle of every file effect, change of either recording, removal of any '
             'file) followed by a run; three recordings: all histories of 2 '
             'events; all present/absent and age orders of the inputs of one stage',
    'thorough': 'as quick with histories of 4 events (two recordings, every other event kind '
                'of the first step)'}
MIN_OUTCOMES = 4
ASSUMPTIONS = ['external tools are stand-ins whose outputs are a function of the contents of '
               'their inputs; every file effect gets a later time stamp than the previous one']

SCRIPT = os.path.join(core.HEC, 'scripts', 'close_the_circle_test.py')
ROOT = None
TICK = 10
START = 1000000000


class Crash(BaseException):
  """The process is killed."""


def start_worker(wid, n):
  global ROOT
  ROOT = core.scratch()


def number(*texts):
  h = hashlib.blake2b('|'.join(texts).encode(), digest_size=8).digest()
  return int.from_bytes(h, 'big')


def pose_of(seed):
  q = M.axis_angle_quat([(seed >> 3) % 7 - 3, (seed >> 6) % 5 + 1, (seed >> 9) % 9 - 4],
                        (seed % 1000) / 400.0)
  t = [(seed >> 12) % 100 / 50.0, (seed >> 20) % 100 / 50.0 - 1, (seed >> 28) % 100 / 100.0]
  return t + [float(v) for v in q]


class Circle(object):
  """One working folder with stand-ins for the external tools."""

  def __init__(self, count):
    self.dir = os.path.join(ROOT, 'work')
    if os.path.isdir(self.dir):
      shutil.rmtree(self.dir)
    os.mkdir(self.dir)
    os.chdir(self.dir)
    self.clock = START
    self.stamped = {}
    # Files left incomplete by an interruption.
    self.bad = set()
    self.inputs = ['rec_%s.csv' % c for c in 'abc'[:count]]
    self.version = [0] * count
    for i in range(count):
      self.change(i)
    self.crash_at = None
    self.torn = False

  # -- file effects -----------------------------------------------------
  def tick(self, path):
    self.clock += TICK
    os.utime(path, (self.clock, self.clock))
    self.stamped[os.path.normpath(path)] = self.clock

  def settle(self):
    """Give files written behind our back their place in the logical order."""
    fresh = []
    for base, _, files in os.walk('.'):
      for n in files:
        p = os.path.normpath(os.path.join(base, n))
        st = os.stat(p)
        if self.stamped.get(p) != st.st_mtime:
          fresh.append((st.st_mtime_ns, p))
    for _, p in sorted(fresh):
      self.tick(p)

  def effect(self, path, text):
    self.settle()
    if self.effects == self.crash_at:
      if self.torn:
        with open(path, 'w') as f:
          f.write(text[:len(text) // 2])
        self.tick(path)
        self.bad.add(os.path.normpath(path))
      raise Crash()
    self.effects += 1
    with open(path, 'w') as f:
      f.write(text)
    self.tick(path)
    self.bad.discard(os.path.normpath(path))

  def change(self, i):
    self.version[i] += 1
    with open(self.inputs[i], 'w') as f:
      f.write('recording %d version %d\n' % (i, self.version[i]))
    self.tick(self.inputs[i])

  # -- stand-in tools ---------------------------------------------------
  def tool(self, cmd, dry_run=False):
    args = shlex.split(cmd)
    self.commands.append(args)
    check(not dry_run, 'dry run of {}', args)
    check(args[0] == 'rosrun', 'command {}', args)
    opts = {}
    rest = args[3:]
    while rest:
      a = rest.pop(0)
      if '=' in a:
        k, v = a.split('=', 1)
        opts[k.lstrip('-')] = v
      else:
        opts[a.lstrip('-')] = rest.pop(0)
    self.settle()

    def read(k):
      with open(opts[k]) as f:
        return f.read()

    def fail(*a):
      raise Exception('tool failed: {}'.format(a))

    try:
      if args[2] == 'compute_aligned_poses.py':
        a, b = read('poses_B_H_csv_file'), read('poses_W_E_csv_file')
        check(a.startswith('recording') and b.startswith('recording'), 'aligned files {}', opts)
        seed = number(a, b)
        out = [(opts['aligned_poses_B_H_csv_file'], 'aligned %s, %d\n' % (a.strip(), seed)),
               (opts['aligned_poses_W_E_csv_file'], 'aligned %s, %d\n' % (b.strip(), seed)),
               (opts['time_offset_output_csv_file'], '%.18f\n' % ((seed % 2001) / 1000.0 - 1))]
      elif args[2] == 'compute_hand_eye_calibration.py':
        a, b = read('aligned_poses_B_H_csv_file'), read('aligned_poses_W_E_csv_file')
        p = pose_of(number(a, b))
        out = [(opts['extrinsics_output_csv_file'], ', '.join('%.18f' % v for v in p) + '\n')]
      elif args[2] == 'batch_estimator':
        seed = number(read('pose1_csv'), read('pose2_csv'), read('init_guess_file'))
        p = pose_of(seed)
        out = [(opts['output_file'], json.dumps(dict(
            delay=(seed % 777) / 100.0, rotation=dict(zip('ijkw', p[3:])),
            translation=dict(zip('xyz', p[:3])))))]
      else:
        check(False, 'unknown tool {}', args)
    except (IOError, KeyError) as e:
      fail(e)
    for path, text in out:
      self.effect(path, text)

  # -- the script -------------------------------------------------------
  def run(self, crash_at=None, torn=False):
    """Returns ('crash', None), ('error', exception) or ('done', printed text)."""
    self.effects, self.commands = 0, []
    self.crash_at, self.torn = crash_at, torn
    real_run, real_write = BU.run, ExtrinsicCalibration.writeJson
    circle = self

    def write(cal, out_file, *a, **k):
      # The real writer produces the text; the effect may be interrupted.
      tmp = out_file + '.real'
      real_write(cal, tmp, *a, **k)
      with open(tmp) as f:
        text = f.read()
      os.remove(tmp)
      circle.effect(out_file, text)

    BU.run = self.tool
    ExtrinsicCalibration.writeJson = write
    argv, stdout = sys.argv, sys.stdout
    sys.argv = [SCRIPT] + self.inputs
    sys.stdout = io.StringIO()
    try:
      try:
        with core.script_files():
          runpy.run_path(SCRIPT, run_name='__main__')
        return 'done', sys.stdout.getvalue()
      except Crash:
        return 'crash', None
      except (Exception, SystemExit) as e:
        if isinstance(e, core.Violation):
          raise
        return 'error', e
    finally:
      sys.argv, sys.stdout = argv, stdout
      BU.run = real_run
      ExtrinsicCalibration.writeJson = real_write
      self.settle()

  def groups(self):
    if len(self.inputs) == 2:
      return [('test', 0, 1)]
    return [('%d_%d' % (i, (i + 1) % 3), i, (i + 1) % 3) for i in range(3)]

  def outputs(self, group, a, b):
    name = lambda i: self.inputs[i][:-4]
    return ['%s/%s_aligned.csv' % (group, name(a)), '%s/%s_aligned.csv' % (group, name(b)),
            group + '/time_offset.csv', group + '/pose.csv', group + '_init_guess.json',
            group + '.json']

  def all_outputs(self):
    return [f for g in self.groups() for f in self.outputs(*g)]

  def content(self):
    out = {}
    for f in self.all_outputs():
      if os.path.exists(f):
        with open(f) as h:
          out[f] = h.read()
    return out

  def weaknesses(self):
    """Listed weaknesses of the staleness test that this folder runs into."""
    found = []
    for group, a, b in self.groups():
      outs = self.outputs(group, a, b)
      missing = [i for i in range(3) if not os.path.exists(outs[i])]
      if missing and len(missing) < 3:
        oldest = min(os.path.getmtime(outs[i]) for i in range(3) if i not in missing)
        newest = max(os.path.getmtime(self.inputs[i]) for i in (a, b))
        if newest <= oldest:
          found.append('alignment results missing: ' + ' '.join(KINDS[i] for i in missing))
      for i, f in enumerate(outs):
        if os.path.normpath(f) in self.bad and os.path.exists(f):
          found.append('incomplete file used: ' + KINDS[i])
    return found


KINDS = ['first aligned poses', 'second aligned poses', 'time offset', 'pose', 'initial guess',
         'calibration']
CLEAN = {}


def clean(version):
  """Files and printed circle of a run from scratch."""
  key = tuple(version)
  if key not in CLEAN:
    keep = os.getcwd()
    c = Circle(len(version))
    while c.version != list(version):
      for i, v in enumerate(version):
        while c.version[i] < v:
          c.change(i)
    status, text = c.run()
    check(status == 'done', 'run from scratch: {}', text)
    content = c.content()
    check(set(content) == set(c.all_outputs()), 'run from scratch wrote {}', sorted(content))
    again, _ = c.run()
    check(again == 'done' and not c.commands, 'second run started {}', c.commands)
    printed(text, content, c)
    CLEAN[key] = content
    os.chdir(keep)
  return CLEAN[key]


def printed(text, content, circle):
  """The printed circle error is the product of the calibrations."""
  if len(circle.inputs) < 3:
    return
  for label, suffix in (('before NLOPT', '_init_guess.json'), ('after NLOPT', '.json')):
    m, delay = np.eye(4), 0.0
    for group, _, _ in circle.groups():
      d = json.loads(content[group + suffix])
      m = m.dot(M.T(M.quat_to_rot([d['rotation'][k] for k in 'ijkw']),
                    [d['translation'][k] for k in 'xyz']))
      delay += d['delay']
    found = re.search(r'Circle {}\s*: \[delta_time: (\S+), delta_pose: \[([^\]]*)\]'.format(label),
                      text)
    check(found is not None, 'no circle error printed for {}: {}', label, text[-500:])
    values = [float(v) for v in found.group(2).split()]
    check(abs(float(found.group(1)) - delay) < 1e-5, 'circle {}: delay {} instead of {}', label,
          found.group(1), delay)
    check(M.close(M.T_pose(values), m, 1e-5), 'circle {}: {} instead of {}', label, values,
          m.tolist())


def events(count):
  n_effects = 6 * (1 if count == 2 else 3)
  out = [('run',)]
  out += [('crash', k, torn) for k in range(n_effects) for torn in (False, True)]
  out += [('change', i) for i in range(count)]
  out += [('remove', i) for i in range(n_effects)]
  return out


def cases(tier):
  two, three = len(events(2)), len(events(3))
  for i in range(two):
    for j in range(two):
      yield dict(count=2, prefix=(i, j), depth=3)
      if tier == 'thorough' and i % 2 == 0:
        yield dict(count=2, prefix=(i, j), depth=4)
  for i in range(three):
    yield dict(count=3, prefix=(i,), depth=2)
  for n_in in range(0, 4):
    for n_out in range(1, 4):
      yield dict(stale=(n_in, n_out))


def run(case, rec):
  cwd = os.getcwd()
  try:
    if 'stale' in case:
      return stale(case, rec)
    ev = events(case['count'])
    rest = case['depth'] - len(case['prefix'])
    for tail in itertools.product(range(len(ev)), repeat=rest):
      history([ev[i] for i in tuple(case['prefix']) + tail], case, rec)
  finally:
    os.chdir(cwd)


def full_run(c, trace, rec):
  version = list(c.version)
  want = clean(version)
  os.chdir(c.dir)
  weak = c.weaknesses()
  status, text = c.run()
  commands = list(c.commands)
  problem = None
  if status != 'done':
    problem = 'the run failed: {!r}'.format(text)
  else:
    got = c.content()
    wrong = sorted(f for f in want if got.get(f) != want[f])
    if wrong:
      problem = 'differs from a run from scratch in {}'.format(wrong)
  rec.step(1 + len(commands))
  if problem:
    check(bool(weak), '{}: {}', trace, problem)
    for w in weak:
      rec.finding(w, '{}: {} ({})'.format(trace, problem, w))
    rec.outcome('known weakness')
    return False
  printed(text, want, c)
  again, _ = c.run()
  check(again == 'done' and not c.commands, '{}: a run with everything up to date started {}',
        trace, c.commands)
  rec.step()
  rec.outcome('nothing to do' if not commands else 'everything repeated'
              if len(commands) == 3 * len(c.groups()) else 'partly repeated')
  return True


def history(evs, case, rec):
  clean([1] * case['count'])
  c = Circle(case['count'])
  trace = []
  for e in evs + [('run',)]:
    trace.append(e)
    if e[0] == 'run':
      full_run(c, trace, rec)
    elif e[0] == 'crash':
      c.run(e[1], e[2])
      rec.step(1 + len(c.commands))
    elif e[0] == 'change':
      c.change(e[1])
    else:
      f = c.all_outputs()[e[1]]
      if not os.path.exists(f):
        return
      os.remove(f)
      c.bad.discard(os.path.normpath(f))
    order = sorted((os.path.getmtime(f), f) for f in c.all_outputs() + c.inputs
                   if os.path.exists(f))
    rec.state((case['count'], [f for _, f in order], sorted(c.content().items()), sorted(c.bad)))


def stale(case, rec):
  """The staleness test itself over all orders of ages and absences."""
  n_in, n_out = case['stale']
  module = runpy.run_path(SCRIPT, run_name='circle')
  requires = module['requiresUpdate']
  d = os.path.join(ROOT, 'stale')
  if not os.path.isdir(d):
    os.mkdir(d)
  names = ['in%d' % i for i in range(n_in)] + ['out%d' % i for i in range(n_out)]
  paths = [os.path.join(d, n) for n in names]
  for ages in itertools.product([None, 1, 2, 3], repeat=len(names)):
    if None in ages[:n_in] and n_in:
      # Inputs always exist when a stage is reached.
      continue
    for p, a in zip(paths, ages):
      if a is None:
        if os.path.exists(p):
          os.remove(p)
      else:
        with open(p, 'w'):
          pass
        os.utime(p, (START + a, START + a))
    outs = ages[n_in:]
    got = bool(requires(paths[:n_in], paths[n_in:]))
    ins = ages[:n_in]
    have = [o for o in outs if o is not None]
    missing = len(have) < len(outs)
    old = bool(have) and bool(ins) and max(ins) > min(have)
    if missing and have and not old:
      if not got:
        rec.finding('staleness test ignores missing results',
                    'inputs aged {} outputs aged {}: no update'.format(ins, outs))
        rec.outcome('known weakness')
    else:
      check(got == (missing or old), 'inputs aged {} outputs aged {}: update {}', ins, outs, got)
      rec.outcome('update' if got else 'up to date')
    rec.step()
    rec.state((ins, outs))
