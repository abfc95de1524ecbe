"""Export of recorded transforms to pose files."""
import itertools
import os
import runpy
import sys
import types

import numpy as np

from mc import core
from mc import model as M
from mc.core import check

import rosbag
import rospy
import tf

ID = 'C22'
BOUND = {
    'quick': 'all recordings of up to 5 messages over {other topic with and without transforms, '
             'empty, other frame, source frame with later / much later / slightly later / equal / '
             'earlier stamp, failing and successful look-up}; all recordings of 8 messages over '
             '{later, equal stamp, failing look-up}, of 6 with stamps 100 ns apart; all recordings of 2 messages with up to 3 '
             'transforms; the command line with 6 argument sets',
    'thorough': 'as quick with up to 6 messages, 10 messages over the small alphabet, 3 messages '
                'with up to 2 transforms'}
MIN_OUTCOMES = 4
ASSUMPTIONS = ['rosbag, rospy and tf are stand-ins with the documented behaviour; the look-up of '
               'a transform at one stamp always has the same outcome']

SCRIPT = os.path.join(core.HEC, 'bin', 'tf_to_csv.py')
ROOT = None
EXPORT = None
OUT = None


# -- stand-ins -------------------------------------------------------------

class Stamp(object):
  """Common part of times and durations, in nanoseconds."""

  def __init__(self, secs=0, nsecs=0):
    self.ns = int(round(secs * 1000000000)) + int(nsecs)

  @classmethod
  def of(cls, ns):
    s = cls()
    s.ns = ns
    return s

  @classmethod
  def from_sec(cls, secs):
    return cls(secs)

  @property
  def secs(self):
    return self.ns // 1000000000

  @property
  def nsecs(self):
    return self.ns % 1000000000

  def to_sec(self):
    return self.secs + self.nsecs / 1e9

  def to_nsec(self):
    return self.ns

  def is_zero(self):
    return self.ns == 0

  def __hash__(self):
    return hash(self.ns)

  def __eq__(self, o):
    return isinstance(o, Stamp) and self.ns == o.ns

  def __ne__(self, o):
    return not self == o

  def __lt__(self, o):
    return self.compare(o) < 0

  def __le__(self, o):
    return self.compare(o) <= 0

  def __gt__(self, o):
    return self.compare(o) > 0

  def __ge__(self, o):
    return self.compare(o) >= 0

  def compare(self, o):
    if type(o) is not type(self):
      raise TypeError('cannot compare %r and %r' % (self, o))
    return self.ns - o.ns

  def __repr__(self):
    return '%s[%d]' % (type(self).__name__, self.ns)

  def __str__(self):
    return str(self.ns)


class Duration(Stamp):
  def __sub__(self, o):
    return Duration.of(self.ns - o.ns)

  def __add__(self, o):
    return type(o).of(self.ns + o.ns)


class Time(Stamp):
  def __sub__(self, o):
    return Duration.of(self.ns - o.ns) if isinstance(o, Time) else Time.of(self.ns - o.ns)

  def __add__(self, o):
    return Time.of(self.ns + o.ns)


RECORDING = dict(messages=[], fails={}, opened=[])


class Bag(object):
  def __init__(self, path, mode='r', *a, **k):
    RECORDING['opened'].append(path)
    self.open = True

  def read_messages(self, topics=None, *a, **k):
    if isinstance(topics, str):
      topics = [topics]
    for topic, msg, t in RECORDING['messages']:
      if not self.open:
        raise ValueError('I/O operation on closed bag')
      if not topics or topic in topics:
        yield topic, msg, t

  def __iter__(self):
    return self.read_messages()

  def close(self):
    self.open = False

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


class Transformer(object):
  def __init__(self, interpolate=True, cache_time=None):
    self.cache = cache_time if cache_time is not None else Duration(10.0)
    self.known = {}

  def setTransform(self, t, authority=''):
    self.known.setdefault(t.child_frame_id, set()).add(t.header.stamp.ns)

  def lookupTransform(self, target, source, stamp):
    inverse = False
    if source == 'robot/world' or source == RECORDING['target']:
      inverse, child = True, target
    else:
      child = source
    if child not in self.known or RECORDING['target'] not in (target, source):
      raise tf.LookupException('unknown frame')
    fail = RECORDING['fails'].get(stamp.ns)
    if fail:
      raise fail('scripted')
    known = self.known[child]
    if stamp.ns < max(known) - self.cache.ns:
      raise tf.ExtrapolationException('expired')
    if stamp.ns > max(known) or stamp.ns < min(known):
      raise tf.ExtrapolationException('into the future')
    t, q = transform(stamp.ns)
    if inverse:
      m = M.inv(M.T(M.quat_to_rot(q), t))
      return list(m[:3, 3]), list(M.rot_to_quat(m[:3, :3]))
    return list(t), list(q)


def transform(ns):
  k = (ns // 1000) % 99991
  q = M.axis_angle_quat((1 + k % 3, k % 5 - 2, 1 + k % 7), 0.1 + (k % 40) / 17.0)
  return [(k % 1000) / 3.0, -(k % 77) / 7.0, (k % 13) / 9.0], [float(v) for v in q]


def start_worker(wid, n):
  global ROOT, EXPORT, OUT
  ROOT = core.scratch()
  os.chdir(ROOT)
  OUT = os.path.join(ROOT, 'poses.csv')
  rosbag.Bag = Bag
  rospy.Time, rospy.Duration = Time, Duration
  tf.Transformer = Transformer
  EXPORT = runpy.run_path(SCRIPT, run_name='tf_to_csv')['write_transformation_to_csv_file']


# -- recordings ------------------------------------------------------------

ERRORS = [tf.LookupException, tf.ConnectivityException, tf.ExtrapolationException]
BASES = [1500000000123456789, 7250000000]
STEP = {'q': 100, 'l': 100000000, 'L': 600000000000, 't': 1000, 'e': 0, 'b': -30000000,
        'f': 100000000, 'g': -30000000}
SINGLE = 'onmx' + 'lLtebfg'

Header = lambda stamp, frame: types.SimpleNamespace(stamp=stamp, frame_id=frame, seq=0)


def message_tf(ns, child, frame='robot/base'):
  return types.SimpleNamespace(header=Header(Time.of(ns), frame), child_frame_id=child,
                               transform=None)


def record(words, base, source, target):
  """Messages, failing stamps and expected rows of a recording."""
  messages, fails, rows = [], {}, []
  outcome = {}
  now = BASES[base]
  last = None
  errors = 0
  received = Time.of(BASES[base])
  for word in words:
    topic, transforms = '/tf', []
    for c in word:
      if c == 'o':
        topic, transforms = '/image', None
        break
      if c == 'n':
        topic = '/tf_static'
        now += STEP['l']
        transforms.append(message_tf(now, source))
      elif c == 'm':
        pass
      elif c == 'x':
        transforms.append(message_tf(now + 50000000, source + '_other', frame=source))
      else:
        now += STEP[c]
        transforms.append(message_tf(now, source))
        if now not in outcome:
          outcome[now] = c not in 'fg'
          if not outcome[now]:
            fails[now] = ERRORS[errors % 3]
            errors += 1
        if topic == '/tf' and outcome[now] and (
            last is None or Time.of(now).to_sec() > Time.of(last).to_sec()):
          rows.append(now)
          last = now
    if transforms is None:
      msg = types.SimpleNamespace(data='not a transform')
    else:
      msg = types.SimpleNamespace(transforms=transforms)
    messages.append((topic, msg, received))
  return messages, fails, rows


def verify(words, rows, path):
  with open(path) as f:
    lines = f.readlines()
  what = 'recording {}'.format(words)
  check(len(lines) == len(rows), '{}: {} rows instead of {}: {}', what, len(lines), len(rows),
        lines)
  before = None
  for line, ns in zip(lines, rows):
    check(line.endswith('\n'), '{}: row {!r}', what, line)
    v = [float(x) for x in line.split(',')]
    check(len(v) == 8, '{}: row {!r}', what, line)
    check(abs(v[0] - Time.of(ns).to_sec()) < 1e-9 + 2.3e-16 * v[0], '{}: stamp {!r} instead of {}', what,
          line.split(',')[0], ns)
    check(before is None or v[0] > before, '{}: stamps do not increase: {}', what, lines)
    before = v[0]
    t, q = transform(ns)
    check(M.close(v[1:4], t, 1e-9), '{}: translation {} instead of {}', what, v[1:4], t)
    check(M.close(v[4:8], q, 1e-9) or M.close(v[4:8], [-x for x in q], 1e-9),
          '{}: quaternion {} instead of {}', what, v[4:8], q)


def export(words, base, rec, call=None, source='robot/hand', target='robot/world'):
  messages, fails, rows = record(words, base, source, target)
  RECORDING.update(messages=messages, fails=fails, opened=[], target=target)
  if os.path.exists(OUT):
    os.remove(OUT)
  if call is None:
    EXPORT('some.bag', target, source, OUT)
    verify(words, rows, OUT)
  else:
    verify(words, rows, call())
  rec.step(max(1, len(words)))
  rec.state((words, base))
  rec.outcome('%d rows' % len(rows) if len(rows) < 4 else 'more rows')


ARGS = [('a.bag', 'cam', 'world', 'out.csv'), ('/data/my bag.bag', '/cam', '/map', 'my out.csv'),
        ('x/y.bag', 'hand-1', 'base_link', 'sub.csv'), ('a.bag', 'world2', 'cam', 'out'),
        ('b.bag', 'a/b/c', 'd', 'o.csv'), ('c.bag', 'f', 'g', 'h.csv')]


def run_cli(case, rec):
  bag, source, target, out = ARGS[case['i']]
  words = list(case['words'])

  def call():
    old = sys.argv
    options = [['--bag', bag], ['--tf_source_frame', source], ['--tf_target_frame', target],
               ['--csv_output_file', os.path.join(ROOT, out)]]
    order = list(itertools.permutations(options))[case['i'] * 4]
    sys.argv = [SCRIPT] + [a for o in order for a in o]
    try:
      with core.script_files():
        runpy.run_path(SCRIPT, run_name='__main__')
    finally:
      sys.argv = old
    check(RECORDING['opened'] and set(RECORDING['opened']) == {bag}, 'opened {} instead of {}',
          RECORDING['opened'], bag)
    return os.path.join(ROOT, out)

  export(words, 0, rec, call, source, target)


def cases(tier):
  thorough = tier == 'thorough'
  for i in range(len(ARGS)):
    for words in ('', 'll', 'lfolxel'):
      yield dict(k='cli', i=i, words=words)
  # A case fixes the first messages, the rest is enumerated inside.
  for base in (0, 1):
    for n in range(4):
      yield dict(k='all', base=base, n=n, prefix='', alphabet=SINGLE)
    for n in (4, 5) if not thorough else (4, 5, 6):
      if base == 1 and n == 6:
        continue
      for prefix in itertools.product(SINGLE, repeat=2):
        yield dict(k='all', base=base, n=n, prefix=''.join(prefix), alphabet=SINGLE)
  for prefix in itertools.product('lef', repeat=3):
    yield dict(k='all', base=0, n=10 if thorough else 8, prefix=''.join(prefix), alphabet='lef')
  for prefix in itertools.product('lqf', repeat=2):
    for base in (0, 1):
      yield dict(k='all', base=base, n=6, prefix=''.join(prefix), alphabet='lqf')
  words = [''.join(w) for k in (1, 2, 3) for w in itertools.product('xlebf', repeat=k)]
  for w in words:
    yield dict(k='multi', base=0, first=[w], words=words)
  if thorough:
    words = [w for w in words if len(w) < 3]
    for a in words:
      for b in words:
        yield dict(k='multi', base=1, first=[a, b], words=words)


def run(case, rec):
  if case['k'] == 'cli':
    return run_cli(case, rec)
  if case['k'] == 'multi':
    for w in case['words']:
      export(case['first'] + [w], case['base'], rec)
    return
  prefix = list(case['prefix'])
  for rest in itertools.product(case['alphabet'], repeat=case['n'] - len(prefix)):
    export(prefix + list(rest), case['base'], rec)
