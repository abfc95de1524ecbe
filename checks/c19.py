"""Output folders under races and failures; external commands."""
import errno
import itertools
import os
import shutil
import signal
import subprocess
import threading

from mc import core
from mc.core import check

from hand_eye_calibration import bash_utils as BU

ID = 'C19'
BOUND = {
    'quick': 'all interleavings of two processes at file system calls for 25 ordered pairs of '
             'paths x 5 initial folder states; three processes with at most 3 preemptions; one '
             'file system failure (6 kinds) at every call; 9 impossible locations; commands: 17 '
             'exit statuses and signals x delays, all pairs of 23 argument spellings, dry runs, '
             'commands that cannot start, all pairs of runs',
    'thorough': 'as quick with three processes and at most 5 preemptions'}
MIN_OUTCOMES = 6
CASE_LIMIT_S = 600

PATHS = ['a/f', 'a/b/f', 'a/c/f', 'a/b/c/f', 'f']
# Initial state: existing folders and files.
STATES = [(), ('a/',), ('a/', 'a/keep'), ('a/', 'a/b/', 'a/b/f'), ('x/', 'x/a/', 'keep')]
ROOT = None


def start_worker(wid, n):
  global ROOT
  ROOT = core.scratch()
  # Commands inherit ignored and blocked signals; whoever started the check may ignore some.
  ending = {signal.SIGHUP, signal.SIGINT, signal.SIGABRT, signal.SIGTERM, signal.SIGALRM}
  for s in ending:
    signal.signal(s, signal.SIG_DFL)
  signal.pthread_sigmask(signal.SIG_UNBLOCK, ending)


def setup(state):
  d = os.path.join(ROOT, 'tree')
  if os.path.isdir(d):
    shutil.rmtree(d)
  os.mkdir(d)
  for e in state:
    if e.endswith('/'):
      os.mkdir(os.path.join(d, e))
    else:
      with open(os.path.join(d, e), 'w') as f:
        f.write('content of ' + e)
  return d


def listing(d):
  out = {}
  for base, dirs, files in os.walk(d):
    for n in dirs:
      out[os.path.relpath(os.path.join(base, n), d)] = None
    for n in files:
      p = os.path.join(base, n)
      if os.path.islink(p):
        out[os.path.relpath(p, d)] = ('link', os.readlink(p))
      else:
        with open(p) as f:
          out[os.path.relpath(p, d)] = f.read()
  return out


WATCHED = ['stat', 'lstat', 'mkdir', 'access', 'rmdir', 'remove', 'unlink', 'rename', 'replace',
           'open', 'listdir', 'scandir', 'symlink']


class Hooks(object):
  """File system calls of the code under test become scheduling points."""

  def __init__(self, before):
    self.before = before
    self.real = {n: getattr(os, n) for n in WATCHED}

  def __enter__(self):
    for n in WATCHED:
      setattr(os, n, self.wrap(n, self.real[n]))

  def __exit__(self, *exc):
    for n in WATCHED:
      setattr(os, n, self.real[n])

  def wrap(self, name, f):
    def call(*a, **k):
      self.before(name, a)
      return f(*a, **k)
    return call


class Race(object):
  """Runs bodies as processes, one at a time, switching at hooked calls."""

  def __init__(self, bodies, choices, preemptions=None):
    self.bodies = bodies
    self.choices = choices
    self.left = preemptions
    self.go = [threading.Semaphore(0) for _ in bodies]
    self.back = threading.Semaphore(0)
    self.done = [False] * len(bodies)
    self.errors = [None] * len(bodies)
    self.ids = {}
    self.calls = 0

  def before(self, name, a):
    i = self.ids.get(threading.get_ident())
    if i is None:
      return
    self.calls += 1
    self.back.release()
    self.go[i].acquire()

  def body(self, i):
    self.ids[threading.get_ident()] = i
    self.go[i].acquire()
    try:
      self.bodies[i]()
    except BaseException as e:
      self.errors[i] = e
    self.done[i] = True
    self.back.release()

  def run(self):
    threads = [threading.Thread(target=self.body, args=(i,), daemon=True)
               for i in range(len(self.bodies))]
    for t in threads:
      t.start()
    current = None
    order = []
    while not all(self.done):
      ready = [i for i in range(len(self.bodies)) if not self.done[i]]
      if current in ready:
        # Choice 0 continues with the running process.
        ready.remove(current)
        ready.insert(0, current)
        if self.left == 0:
          ready = ready[:1]
      c = self.choices.choose(len(ready), 'switch') if len(ready) > 1 else 0
      if c and ready[0] == current and self.left is not None:
        self.left -= 1
      current = ready[c]
      order.append(current)
      self.go[current].release()
      self.back.acquire()
    for t in threads:
      t.join()
    return order


def cases(tier):
  for s in range(len(STATES)):
    for p, q in itertools.product(range(len(PATHS)), repeat=2):
      yield dict(k='race', paths=(p, q), s=s, pre=None)
  for s in (0, 1):
    for ps in [(0, 0, 0), (1, 1, 1), (1, 2, 3), (0, 1, 3)]:
      yield dict(k='race', paths=ps, s=s, pre=5 if tier == 'thorough' else 3)
  for s in range(len(STATES)):
    for p in range(len(PATHS)):
      yield dict(k='fault', p=p, s=s)
  yield dict(k='impossible')
  for delay in (0, 1):
    yield dict(k='status', delay=delay)
  for i in range(len(ARGS)):
    yield dict(k='args', i=i)
  yield dict(k='dry')
  yield dict(k='start')
  for i in range(len(STATUSES)):
    yield dict(k='twice', i=i)


def run(case, rec):
  cwd = os.getcwd()
  try:
    globals()[case['k']](case, rec)
  finally:
    os.chdir(cwd)


def ensured(d, path, before, what):
  if os.path.dirname(path):
    check(os.path.isdir(os.path.join(d, os.path.dirname(path))), '{}: folder of {} is missing',
          what, path)
  now = listing(d)
  for k, v in before.items():
    check(k in now and now[k] == v, '{}: {} was changed', what, k)


def race(case, rec):
  paths = [PATHS[i] for i in case['paths']]
  what = 'paths {} initial {}'.format(paths, STATES[case['s']])

  def body(ch):
    d = setup(STATES[case['s']])
    os.chdir(d)
    before = listing(d)
    # The first process names its file absolutely.
    named = [os.path.join(d, paths[0]) if paths[0] != 'f' else 'f'] + paths[1:]
    r = Race([lambda p=p: BU.create_path(p) for p in named], ch, case['pre'])
    with Hooks(r.before):
      order = r.run()
    trace = '{} schedule {}'.format(what, order)
    for p, e in zip(paths, r.errors):
      check(e is None, '{}: creating {} failed: {!r}', trace, p, e)
      ensured(d, p, before, trace)
    wanted = set(before)
    for p in paths:
      parts = os.path.dirname(p).split('/')
      wanted.update('/'.join(parts[:i + 1]) for i in range(len(parts)) if parts[0])
    check(set(listing(d)) == wanted, '{}: left {}', trace, sorted(listing(d)))
    rec.step(r.calls + len(paths))
    rec.state((case['paths'], case['s'], order))
    return order

  for choices, order in core.explore_choices(body):
    switched = sum(1 for a, b in zip(order, order[1:]) if a != b) > len(paths) - 1
    rec.outcome('race interleaved' if switched else 'race serial')


FAULTS = [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.ENAMETOOLONG, errno.EIO, errno.EPERM]


def fault(case, rec):
  """A failing mkdir is reported, one that lost a race is not."""
  path = PATHS[case['p']]
  for code in FAULTS + [errno.EEXIST]:
    for at in range(6):
      d = setup(STATES[case['s']])
      os.chdir(d)
      before = listing(d)
      count = [0]

      def hook(name, a):
        if name == 'mkdir':
          count[0] += 1
          if count[0] == at + 1:
            if code == errno.EEXIST:
              # Another process created the folder just before.
              real_mkdir(a[0])
            raise OSError(code, os.strerror(code), a[0])

      hooks = Hooks(hook)
      real_mkdir = hooks.real['mkdir']
      error = None
      with hooks:
        try:
          BU.create_path(path)
        except OSError as e:
          error = e
      hit = count[0] > at
      what = 'path {} initial {} mkdir {} fails with {}'.format(
          path, STATES[case['s']], at, errno.errorcode[code])
      if hit and code != errno.EEXIST:
        check(error is not None, '{}: no error', what)
        rec.outcome('failure reported')
      else:
        check(error is None, '{}: {!r}', what, error)
        ensured(d, path, before, what)
        rec.outcome('race lost' if hit else 'no failure')
      now = listing(d)
      check(all(k in now and now[k] == v for k, v in before.items()), '{}: files changed', what)
      rec.step(1 + count[0])
      rec.state((case['p'], case['s'], code, at, hit))
      if not hit:
        break


IMPOSSIBLE = [(('a',), 'a/f'), (('a',), 'a/b/f'), (('a/', 'a/b'), 'a/b/f'),
              (('a/', 'a/b'), 'a/b/c/f'), (('link>nowhere',), 'link/f'), (('link>a', 'a'), 'link/f'),
              (('link>nowhere',), 'link/b/f')]
POSSIBLE = [(('link>a', 'a/'), 'link/f'), (('link>a', 'a/'), 'link/b/f')]


def impossible(case, rec):
  for entries, path in IMPOSSIBLE + POSSIBLE:
    for absolute in (False, True):
      d = setup(())
      os.chdir(d)
      for e in entries:
        if '>' in e:
          os.symlink(e.split('>')[1], e.split('>')[0])
        elif e.endswith('/'):
          os.mkdir(e)
        else:
          with open(e, 'w') as f:
            f.write('file ' + e)
      before = listing(d)
      error = None
      try:
        BU.create_path(os.path.join(d, path) if absolute else path)
      except OSError as e:
        error = e
      what = 'path {} with {}'.format(path, entries)
      if (entries, path) in POSSIBLE:
        check(error is None and os.path.isdir(os.path.dirname(path)), '{}: {!r}', what, error)
        rec.outcome('folder through a link')
      elif os.path.isdir(os.path.dirname(path)):
        # A dangling link may be completed with its target.
        check(error is None, '{}: {!r}', what, error)
      else:
        check(error is not None, '{}: no error although the folder does not exist', what)
        rec.outcome('impossible folder reported')
      now = listing(d)
      check(all(k in now and now[k] == v for k, v in before.items()), '{}: files changed', what)
      rec.step()
      rec.state((entries, path, absolute))


# External commands: a recorder that stores its arguments and ends as told.
RECORDER = r'''out="$1"; how="$2"; nap="$3"; shift 3
if [ "$nap" != 0 ]; then sleep 0.15; fi
printf '%s\0' "$#" "$@" >> "$out"
case "$how" in
  s*) kill -"${how#s}" $$;;
  *) exit "$how";;
esac
'''
STATUSES = ['0', '1', '2', '3', '64', '126', '127', '128', '130', '137', '255', 's9', 's15', 's2',
            's6', 's1', 's14']
# spelling in the command -> argument received
ARGS = [
    ('plain', ['plain']), ('--key=value', ['--key=value']), ('"two words"', ['two words']),
    ("'two words'", ['two words']), ('two\\ words', ['two words']), ('""', ['']), ("''", ['']),
    ('a   b', ['a', 'b']), ('"a\'b"', ["a'b"]),
    ("'a\"b'", ['a"b']), ('$HOME', ['$HOME']), ('"$(echo hi)"', ['$(echo hi)']), ('*', ['*']),
    ("';'", [';']), ('";" echo', [';', 'echo']), ("'|'", ['|']), ("'#x'", ['#x']),
    ('"tab\there"', ['tab\there']), ('üé', ['üé']),
    ('--file="my file.csv"', ['--file=my file.csv']), ('a"b"c', ['abc']), ("'&&'", ['&&']),
    ('-1.5e-3', ['-1.5e-3'])]


def command(spelling, status='0', nap=0):
  """(command line, file with the recorded calls)"""
  d = os.path.join(ROOT, 'cmd dir')
  if not os.path.isdir(d):
    os.mkdir(d)
    with open(os.path.join(d, 'recorder.sh'), 'w') as f:
      f.write(RECORDER)
  os.chdir(d)
  out = os.path.join(d, 'calls')
  if os.path.exists(out):
    os.remove(out)
  return '/bin/sh "{}/recorder.sh" "{}" {} {} {}'.format(d, out, status, nap, spelling), out


def recorded(out):
  if not os.path.exists(out):
    return []
  with open(out, encoding='utf-8') as f:
    fields = f.read().split('\0')[:-1]
  calls = []
  while fields:
    n = int(fields[0])
    calls.append(fields[1:1 + n])
    fields = fields[1 + n:]
  return calls


def attempt(cmd, *a):
  try:
    BU.run(cmd, *a)
    return None
  except Exception as e:
    return e


def status(case, rec):
  for s in STATUSES:
    cmd, out = command('x "y z"', s, case['delay'])
    e = attempt(cmd)
    check((e is None) == (s == '0'), 'command ending with {}: {!r}', s, e)
    # The command has ended by the time run returns.
    check(recorded(out) == [['x', 'y z']], 'command ending with {}: received {}', s, recorded(out))
    rec.step()
    rec.state((s, case['delay']))
    rec.outcome('command succeeded' if s == '0' else 'command failed')


def args(case, rec):
  one, got = ARGS[case['i']]
  for two, got2 in [('', [])] + ARGS:
    for dry in (False, True):
      cmd, out = command(one + ' ' + two)
      e = attempt(cmd, dry)
      check(e is None, 'command {!r}: {!r}', cmd, e)
      calls = recorded(out)
      if dry:
        check(calls == [], 'dry run of {!r} started the command', cmd)
        rec.outcome('dry run')
      else:
        check(len(calls) == 1 and calls[0] == got + got2, 'command {!r}: received {} instead of {}',
              cmd, calls, got + got2)
        rec.outcome('arguments')
      rec.step()
      rec.state((one, two, dry))


def dry(case, rec):
  """A dry run starts nothing, whatever the command would do."""
  started = []
  real = subprocess.Popen

  class Popen(object):
    def __init__(self, *a, **k):
      started.append(a)
      raise OSError('started')

  for s in STATUSES:
    cmd, out = command('x', s)
    subprocess.Popen = Popen
    try:
      e = attempt(cmd, True)
    finally:
      subprocess.Popen = real
    check(e is None and not started and recorded(out) == [], 'dry run: {!r} started {}', e, started)
    e = attempt('/nonexistent/command', True)
    check(e is None, 'dry run of a missing command: {!r}', e)
    rec.step(2)
    rec.state(('dry', s))
    rec.outcome('dry run')


def start(case, rec):
  d = setup(())
  os.chdir(d)
  with open('noexec', 'w') as f:
    f.write('#!/bin/sh\nexit 0\n')
  with open('badinterp', 'w') as f:
    f.write('#!/nonexistent/interpreter\n')
  os.chmod('badinterp', 0o755)
  for cmd in ['/nonexistent/command', 'no_such_command_anywhere x', d, './badinterp', './noexec']:
    e = attempt(cmd)
    check(e is not None, 'command {} cannot be started but no error was raised', cmd)
    rec.step()
    rec.state(('start', cmd[-12:]))
    rec.outcome('command cannot start')


def twice(case, rec):
  """Runs do not influence each other."""
  a = STATUSES[case['i']]
  for b in STATUSES:
    for first_dry in (False, True):
      cmd, out = command('1', a)
      e1 = attempt(cmd, first_dry)
      cmd2 = cmd.replace(' {} 0 1'.format(a), ' {} 0 2'.format(b))
      e2 = attempt(cmd2)
      check((e1 is None) == (first_dry or a == '0') and (e2 is None) == (b == '0'),
            'runs ending with {} then {}: {!r} {!r}', a, b, e1, e2)
      expect = ([] if first_dry else [['1']]) + [['2']]
      check(recorded(out) == expect, 'runs ending with {} then {}: {}', a, b, recorded(out))
      rec.step(2)
      rec.state((a, b, first_dry))
      rec.outcome('two runs')
