"""Bounded exhaustive exploration of the code in /repo.

A check is a module checks/cNN.py with

  ID                 property id
  BOUND              {tier: text} what is enumerated completely
  cases(tier)        yields every case inside the bound (JSON-able values)
  run(case, rec)     executes the case on the real code, compares each step with
                     the reference model, raises Violation on disagreement

Every case is one execution (or one complete sub-exploration) of the real code.
Cases are distributed over worker processes; all of them are run, always.
"""
import argparse
import builtins
import collections
import contextlib
import hashlib
import importlib
import itertools
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import weakref

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HEC = os.path.join(REPO, 'hand_eye_calibration')
EXP = os.path.join(REPO, 'hand_eye_calibration_experiments')

PATHS = [os.path.join(VERIF, 'stubs'), os.path.join(HEC, 'python'),
         os.path.join(EXP, 'python')]

# Bytes of one worker process.
MEMORY_LIMIT = 3 << 30

KNOWN_FINDINGS = os.path.join(VERIF, 'known_findings.jsonl')


class Violation(Exception):
  """The property does not hold for the case being run."""

  def __init__(self, message, key=None, detail=None):
    Exception.__init__(self, message)
    self.message = message
    self.key = key
    self.detail = detail


class CaseTimeout(BaseException):
  """The case did not end within its time limit."""


def check(condition, message, *args, **kw):
  if not condition:
    raise Violation(message.format(*args) if args else message, **kw)


def canon(obj, digits=9):
  """Canonical text of a value: floats rounded, containers walked."""
  import numpy as np
  out = []

  def walk(o):
    if o is None or isinstance(o, (bool, np.bool_, str, int, np.integer)):
      out.append(repr(o) if not isinstance(o, np.generic) else repr(o.item()))
    elif isinstance(o, (float, np.floating)):
      o = float(o)
      if o != o:
        out.append('nan')
      else:
        r = round(o, digits)
        out.append(repr(r + 0.0))
    elif isinstance(o, np.ndarray):
      out.append('[')
      for e in o.tolist() if o.ndim == 1 else list(o):
        walk(e)
        out.append(',')
      out.append(']')
    elif isinstance(o, dict):
      out.append('{')
      for k in sorted(o, key=repr):
        out.append(repr(k) + ':')
        walk(o[k])
        out.append(',')
      out.append('}')
    elif isinstance(o, (list, tuple, set, frozenset)):
      out.append('(')
      for e in (sorted(o, key=repr) if isinstance(o, (set, frozenset)) else o):
        walk(e)
        out.append(',')
      out.append(')')
    else:
      out.append(repr(o))

  walk(obj)
  return ''.join(out)


def digest(obj, digits=9):
  return hashlib.blake2b(canon(obj, digits).encode(), digest_size=8).digest()


class Recorder(object):
  """Measures what one worker explored."""

  def __init__(self):
    self.states = set()
    self.outcomes = collections.Counter()
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.findings = []
    self.known = ()

  def finding(self, key, message):
    """A violation that ends the case unless its key is a listed finding."""
    if key not in self.known:
      raise Violation(message, key=key)
    if all(v['key'] != key for v in self.findings):
      self.findings.append(dict(case=None, key=key, message=message, detail=None))

  def step(self, n=1):
    """n operations of the code under test were executed and compared."""
    self.transitions += n

  def state(self, obj, digits=9):
    """A state (observed result of the code under test) was reached."""
    d = digest(obj, digits)
    if d in self.states:
      return False
    self.states.add(d)
    return True

  def outcome(self, name):
    self.outcomes[name] += 1


_scratch_base = None


@contextlib.contextmanager
def script_files():
  """Files a script leaves open are complete when it ends, as at process exit."""
  opened = weakref.WeakSet()
  real = builtins.open

  def tracked(*a, **k):
    f = real(*a, **k)
    opened.add(f)
    return f

  builtins.open = tracked
  try:
    yield
  finally:
    builtins.open = real
    for f in list(opened):
      f.close()


def scratch():
  """A fresh directory, removed with everything else when the check ends."""
  global _scratch_base
  if _scratch_base is None:
    _scratch_base = tempfile.mkdtemp(prefix='verif-')
  return tempfile.mkdtemp(dir=_scratch_base)


def remove_scratch():
  global _scratch_base
  if _scratch_base is not None:
    shutil.rmtree(_scratch_base, ignore_errors=True)
    _scratch_base = None


def load_known():
  known = {}
  if os.path.exists(KNOWN_FINDINGS):
    with open(KNOWN_FINDINGS) as f:
      for line in f:
        line = line.strip()
        if line:
          d = json.loads(line)
          if d.get('status') == 'known':
            known[(d['property'], d['key'])] = d
  return known


def silence():
  """Send the output of the code under test to /dev/null."""
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)
  os.dup2(devnull, 2)
  os.close(devnull)
  # Python level streams: drop the text without encoding it.
  class Null(object):
    encoding = 'utf-8'
    errors = 'strict'

    def write(self, s):
      return len(s)

    def flush(self):
      pass

    def isatty(self):
      return False

    def fileno(self):
      return 1
  sys.stdout = Null()
  sys.stderr = Null()


def run_case(mod, case, rec, limit):
  """Returns None or a dict describing the violation."""
  def on_alarm(signum, frame):
    raise CaseTimeout()

  old = signal.signal(signal.SIGALRM, on_alarm)
  # Repeats, in case the first one is swallowed by the code under test.
  signal.setitimer(signal.ITIMER_REAL, limit, 1.0)
  try:
    mod.run(case, rec)
    rec.traces += 1
    return None
  except Violation as v:
    return dict(case=case, key=v.key or canon(case), message=v.message,
                detail=v.detail)
  except CaseTimeout:
    return dict(case=case, key=canon(case), detail=None,
                message='did not terminate within %d s' % limit)
  except KeyboardInterrupt:
    raise
  except BaseException as e:
    return dict(case=case, key=canon(case), detail=None,
                message='unexpected %s: %s\n%s' % (
                    type(e).__name__, e, traceback.format_exc()))
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


def worker(mod_name, tier, wid, n, stop, conn, known, limit):
  try:
    os.setpgid(0, 0)
  except OSError:
    pass
  # An endless loop that collects memory ends in its own worker.
  resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_LIMIT, MEMORY_LIMIT))
  try:
    keep = os.dup(2)
    silence()
    rec = Recorder()
    rec.known = set(k for p, k in known)
    err = None
    violation = None
    try:
      mod = importlib.import_module(mod_name)
      if hasattr(mod, 'start_worker'):
        mod.start_worker(wid, n)
      for i, case in enumerate(mod.cases(tier)):
        if i % n != wid:
          continue
        if stop.is_set():
          break
        if len(rec.samples) < 2 or (i < 4096 and len(rec.samples) < 4 and i % 97 == 0):
          rec.samples.append(case)
        v = run_case(mod, case, rec, limit)
        if 'matplotlib.pyplot' in sys.modules:
          sys.modules['matplotlib.pyplot'].close('all')
        if v is not None:
          if (mod.ID, v['key']) in known:
            rec.findings.append(v)
            rec.traces += 1
          else:
            violation = v
            stop.set()
            break
      if hasattr(mod, 'end_worker'):
        mod.end_worker()
    except BaseException:
      err = traceback.format_exc()
      stop.set()
    conn.send(dict(states=b''.join(rec.states), transitions=rec.transitions,
                   traces=rec.traces, outcomes=dict(rec.outcomes),
                   samples=rec.samples, findings=rec.findings,
                   violation=violation, error=err))
    conn.close()
  finally:
    os._exit(0)


def write_replay(pid, v):
  d = os.path.join(VERIF, 'evidence', 'replay')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, '%s-%s.json' % (
      pid, hashlib.blake2b(canon(v['case']).encode(), digest_size=6).hexdigest()))
  with open(path, 'w') as f:
    json.dump(dict(property=pid, case=v['case'], key=v['key'],
                   message=v['message'], detail=v.get('detail'),
                   replay_cmd='./check %s --replay %s' % (pid, path)), f, indent=1,
              default=str)
  return path


def import_failure(pid, text):
  path = write_replay(pid, dict(case='import', key='import', message=text))
  print(text)
  print('VIOLATION property=%s replay=%s' % (pid, path))
  return 1


def main(argv):
  scratch()
  try:
    return checked_main(argv)
  finally:
    remove_scratch()


def checked_main(argv):
  parser = argparse.ArgumentParser()
  parser.add_argument('property')
  parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  parser.add_argument('--replay')
  parser.add_argument('--jobs', type=int, default=0)
  args = parser.parse_args(argv)
  tier = 'thorough' if args.tier == 'thorough' else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '0') or 0)
  pid = args.property
  sys.path[:0] = PATHS + [VERIF]
  warnings.simplefilter('ignore')
  start = time.time()
  mod_name = 'checks.' + pid.lower()
  try:
    mod = importlib.import_module(mod_name)
  except BaseException:
    text = traceback.format_exc()
    if REPO in text:
      return import_failure(pid, text)
    print(text)
    return 2
  limit = getattr(mod, 'CASE_LIMIT_S', 120)

  if args.replay:
    with open(args.replay) as f:
      data = json.load(f)
    rec = Recorder()
    if hasattr(mod, 'start_worker'):
      mod.start_worker(0, 1)
    v = run_case(mod, data['case'], rec, limit)
    if hasattr(mod, 'end_worker'):
      mod.end_worker()
    if v is None:
      print('replay: property %s holds for this case' % pid)
      return 0
    print(v['message'])
    print('VIOLATION property=%s replay=%s' % (pid, args.replay))
    return 1

  known = {k: v for k, v in load_known().items() if k[0] == pid}
  n = args.jobs or getattr(mod, 'JOBS', 0) or min(8, os.cpu_count() or 1)
  ctx = multiprocessing.get_context('fork')
  stop = ctx.Event()
  procs = []
  for wid in range(n):
    parent, child = ctx.Pipe(False)
    p = ctx.Process(target=worker, args=(mod_name, tier, wid, n, stop, child, known, limit))
    p.start()
    child.close()
    procs.append((p, parent))
  results = []
  error = None
  pending = {conn: p for p, conn in procs}
  stopped_at = None
  while pending:
    ready = multiprocessing.connection.wait(list(pending), timeout=1.0)
    for conn in ready:
      p = pending.pop(conn)
      try:
        results.append(conn.recv())
      except EOFError:
        error = error or 'a worker died without a result'
        stop.set()
      p.join()
    if stop.is_set():
      if any(r['violation'] for r in results) and pending:
        # A violation was found: the other workers have nothing to add.
        for conn, p in list(pending.items()):
          p.kill()
          p.join()
          pending.pop(conn)
      stopped_at = stopped_at or time.time()
      if time.time() - stopped_at > limit + 60:
        for conn, p in list(pending.items()):
          p.kill()
          p.join()
          pending.pop(conn)
  wall = time.time() - start

  states = set()
  transitions = traces = 0
  outcomes = collections.Counter()
  samples, findings, violations = [], [], []
  for r in results:
    b = r['states']
    states.update(b[i:i + 8] for i in range(0, len(b), 8))
    transitions += r['transitions']
    traces += r['traces']
    outcomes.update(r['outcomes'])
    samples += r['samples'][:2]
    findings += r['findings']
    if r['violation']:
      violations.append(r['violation'])
    if r['error']:
      error = error or r['error']

  evidence = dict(
      property=pid, tier=tier, seed=seed, level='model_checking',
      coverage=dict(
          states=len(states), transitions=transitions,
          traces_validated_against_impl=traces,
          distinct_outcomes=len(outcomes),
          outcomes={k: outcomes[k] for k in sorted(outcomes)[:40]},
          exhaustive=not violations and not error,
          bound=mod.BOUND[tier],
          validation='every enumerated execution runs on the code in %s; the '
                     'reference model is compared after every step' % REPO,
          samples=[json.loads(json.dumps(s, default=str)) for s in samples[:8]]),
      assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
      wall_s=round(wall, 2), violations=len(violations))
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
    json.dump(evidence, f, indent=1)

  print('%s tier=%s states=%d transitions=%d executions=%d outcomes=%d wall=%.1fs' % (
      pid, tier, len(states), transitions, traces, len(outcomes), wall))
  for k in sorted(outcomes)[:40]:
    print('  outcome %-50s %d' % (k, outcomes[k]))
  seen = set()
  for v in findings:
    if v['key'] not in seen:
      seen.add(v['key'])
      print('KNOWN-FINDING: property=%s %s' % (
          pid, known[(pid, v['key'])]['what']))
  if violations:
    for v in violations[:3]:
      path = write_replay(pid, v)
      print('case: %s' % json.dumps(v['case'], default=str)[:2000])
      print('reason: %s' % v['message'][:3000])
      print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
  if error:
    print('ERROR', error)
    return 2
  minimum = getattr(mod, 'MIN_OUTCOMES', 1)
  if len(outcomes) < minimum:
    print('ERROR: vacuous exploration, only outcomes %s' % dict(outcomes))
    return 2
  return 0


# ---------------------------------------------------------------------------
# Exploration helpers


class Choices(object):
  """One execution under a choice sequence: follows a prefix, then takes 0."""

  def __init__(self, prefix=()):
    self.prefix = list(prefix)
    self.points = []

  def choose(self, n, label=''):
    i = len(self.points)
    c = self.prefix[i] if i < len(self.prefix) else 0
    if c >= n:
      raise RuntimeError('replay diverged at choice %d (%s)' % (i, label))
    self.points.append((c, n, label))
    return c

  @property
  def choices(self):
    return [p[0] for p in self.points]


def explore_choices(body, max_deviations=None, max_executions=None):
  """Depth-first enumeration of all choice sequences of body(choices).

  Yields (choices, result) for every complete execution. A deviation is any
  choice other than 0.
  """
  stack = [[]]
  count = 0
  while stack:
    prefix = stack.pop()
    ch = Choices(prefix)
    result = body(ch)
    if len(ch.points) < len(prefix):
      raise RuntimeError('replay diverged: execution shorter than its prefix')
    yield ch.choices, result
    count += 1
    if max_executions is not None and count >= max_executions:
      raise RuntimeError('execution cap reached, exploration incomplete')
    for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
      if max_deviations is not None:
        dev = sum(1 for p in ch.points[:i] if p[0] != 0)
        if dev + 1 > max_deviations:
          continue
      for alt in range(ch.points[i][1] - 1, 0, -1):
        stack.append(ch.choices[:i] + [alt])


def product_cases(**alphabets):
  names = list(alphabets)
  for values in itertools.product(*[alphabets[n] for n in names]):
    yield dict(zip(names, values))
