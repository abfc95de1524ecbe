"""Batch extraction and the target extraction front end with recorded commands."""
import contextlib
import io
import itertools
import os
import runpy
import shlex
import subprocess
import sys

from mc import core
from mc.core import check

ID = 'C27'
BOUND = {
    'quick': 'all configurations of 0 to 3 recordings over 5 lists of frame pairs x 5 lists of '
             'cameras (none, empty, one, two, mismatching), 8 recording names and 3 folder '
             'layouts cycled, every single export failing (up to 2 recordings); '
             'two shipped configurations; every configuration front end to back; front end: all '
             'combinations of 3 targets x 6 topics x 6 output names x 3 bags x 2 cameras, '
             'missing options and files',
    'thorough': 'as quick and 4 recordings over 9 entries'}
MIN_OUTCOMES = 5
ASSUMPTIONS = ['commands are recorded instead of started; no folder is created for the outputs']

BATCH = os.path.join(core.HEC, 'bin', 'bag_to_csv_with_config.py')
FRONT = os.path.join(core.HEC, 'bin', 'target_extractor_interface.py')
ROOT = None


def start_worker(wid, n):
  global ROOT
  ROOT = core.scratch()
  os.chdir(ROOT)


@contextlib.contextmanager
def recorded_commands(log, status):
  """Commands are recorded; the i-th one ends with status(i)."""

  class Command(object):
    def __init__(self, args, *a, **k):
      self.args = shlex.split(args) if isinstance(args, str) else [os.fspath(x) for x in args]
      self.returncode = None
      self.pid = 1
      self.stdin = self.stdout = self.stderr = None
      self.index = len(log)
      log.append(self.args)

    def wait(self, timeout=None):
      self.returncode = status(self.index)
      return self.returncode

    poll = wait

    def communicate(self, input=None, timeout=None):
      self.wait()
      return b'', b''

    def kill(self):
      pass

    def __enter__(self):
      return self

    def __exit__(self, *a):
      self.wait()

  def system(text):
    return Command(text).wait()

  saved = subprocess.Popen, os.system
  subprocess.Popen, os.system = Command, system
  try:
    yield
  finally:
    subprocess.Popen, os.system = saved


def start(script, argv, log, status=lambda i: 0):
  """Run a script; returns None or the exception it ended with."""
  saved = sys.argv
  sys.argv = [script] + argv
  try:
    with recorded_commands(log, status), contextlib.redirect_stdout(io.StringIO()), \
        contextlib.redirect_stderr(io.StringIO()):
      with core.script_files():
        runpy.run_path(script, run_name='__main__')
  except SystemExit as e:
    return e if e.code not in (None, 0) else None
  except Exception as e:
    return e
  finally:
    sys.argv = saved
  return None


def options(args, what):
  out = {}
  rest = list(args)
  while rest:
    a = rest.pop(0)
    check(a.startswith('--'), '{}: stray argument {!r} in {}', what, a, args)
    if '=' in a:
      k, v = a[2:].split('=', 1)
    elif a == '--alsologtostderr':
      k, v = a[2:], True
    else:
      check(rest, '{}: option {} without value', what, a)
      k, v = a[2:], rest.pop(0)
    check(k not in out, '{}: option {} given twice', what, k)
    out[k] = v
  return out


# -- batch extraction ------------------------------------------------------

NAMES = ['h_e_1.bag', '1_falcon_merged-2017-04-07-12-16-44.bag', 'run.1.bag', 'run.2.bag',
         'with space.bag', 'plain', 'robot_v1.0.2.bag', 'a.bag']
FOLDERS = [('/data/', '/calib/', '/target/'), ('', '', ''),
           ('/Google Drive/sets/', './calib/', 'my targets/')]
FRAMES = [None, ([], []), (['vicon'], ['falcon']), (['vicon', 'odom'], ['falcon', 'imu']),
          (['vicon', 'odom'], ['falcon'])]
CAMERAS = [None, ([], []), (['/camera/rgb/image_raw'], ['rgb.yaml']),
           (['/cam0/image', '/ir'], ['cam0.yaml', 'ir.yaml']), (['/cam0/image'], [])]


def entry(position, f, c):
  folder = FOLDERS[(position + f + c) % len(FOLDERS)]
  return dict(name=NAMES[(3 * position + f + 5 * c) % len(NAMES)], folder=folder, frames=FRAMES[f],
              cameras=CAMERAS[c], target='target_%d.yaml' % position)


def to_yaml(entries):
  """Written by hand, in the layout of the shipped configurations."""
  if not entries:
    return 'bags: []\n'
  out = ['bags:']
  for i, e in enumerate(entries):
    out.append('  - %d:' % (i + 1))
    out.append('    name: %s' % e['name'])
    for key, value in zip(('bag_path', 'intrinsics_path', 'target_config_path'), e['folder']):
      out.append('    %s: %s' % (key, value or "''"))
    for key, names, value in (('cameras', ('cam_topics', 'cam_intrinsics'), e['cameras']),
                              ('tf_frames', ('source', 'target'), e['frames'])):
      out.append('    %s:' % key)
      if value is not None:
        for name, values in zip(names, value):
          out.append('      %s:%s' % (name, '' if values else ' []'))
          out += ['        - %s' % v for v in values]
    out.append('    target: %s' % e['target'])
  return '\n'.join(out) + '\n'


def expected(entries):
  """Exports in order and whether the configuration is refused."""
  out = []
  for e in entries:
    bag, calib, target = e['folder']
    frames = e['frames'] or ([], [])
    if len(frames[0]) != len(frames[1]):
      return out, True
    for s, t in zip(*frames):
      out.append(dict(kind='tf', bag=bag + e['name'], source=s, target=t, name=e['name']))
    cameras = e['cameras'] or ([], [])
    if len(cameras[0]) != len(cameras[1]):
      return out, True
    for topic, intrinsics in zip(*cameras):
      out.append(dict(kind='camera', bag=bag + e['name'], topic=topic, intrinsics=calib + intrinsics,
                      target=target + e['target'], name=e['name']))
  return out, False


def verify_batch(want, refused, log, error, what):
  if refused:
    check(error is not None, '{}: accepted', what)
    # A configuration may also be refused before anything is started.
    check(len(log) <= len(want), '{}: started {}', what, log)
    want = want[:len(log)]
  else:
    check(error is None, '{}: ended with {!r}', what, error)
  check(len(log) == len(want), '{}: started {} exports instead of {}: {}', what, len(log),
        len(want), log)
  outputs = []
  for args, w in zip(log, want):
    check(args[:2] == ['rosrun', 'hand_eye_calibration'], '{}: started {}', what, args)
    o = options(args[3:], what)
    if w['kind'] == 'tf':
      check(args[2] == 'tf_to_csv.py', '{}: started {}', what, args)
      out = o.pop('csv_output_file')
      check(o == dict(bag=w['bag'], tf_source_frame=w['source'], tf_target_frame=w['target']),
            '{}: options {} instead of {}', what, o, w)
      parts = [w['source'], w['target']]
    else:
      check(args[2] == 'target_extractor_interface.py', '{}: started {}', what, args)
      out = o.pop('output_file')
      check(o == dict(bag=w['bag'], image_topic=w['topic'], calib_file_camera=w['intrinsics'],
                      calib_file_target=w['target']), '{}: options {} instead of {}', what, o, w)
      parts = [w['topic'].strip('/').replace('/', '_')]
    # The output file names its recording and the frames or the topic.
    for p in parts + [os.path.splitext(w['name'])[0]]:
      check(p in out, '{}: output {!r} does not name {!r}', what, out, p)
    check(out.endswith('.csv') and '/' not in out, '{}: output {!r}', what, out)
    outputs.append((w['name'], tuple(parts), w['kind'], out))
  # Exports of different recordings, frames or topics never share a file.
  for a, b in itertools.combinations(outputs, 2):
    check(a[:3] == b[:3] or a[3] != b[3], '{}: {} and {} write the same file', what, a, b)



def run_batch(case, rec):
  entries = [entry(i, f, c) for i, (f, c) in enumerate(case['entries'])]
  with open('config.yaml', 'w') as f:
    f.write(to_yaml(entries))
  want, refused = expected(entries)
  failures = [None] + (list(range(len(want))) if case.get('faults') else [])
  for fail in failures:
    log = []
    error = start(BATCH, ['--yaml_config_file', 'config.yaml'], log,
                  lambda i: 1 if i == fail else 0)
    verify_batch(want, refused, log, error, 'configuration {} export {} failing'.format(
        entries, fail))
    rec.step(len(log) + 1)
  rec.state(entries)
  rec.outcome('refused' if refused else '%d exports' % len(want))
  if not refused:
    through(log, want, rec)


def through(log, want, rec):
  """Hand the recorded camera exports to the front end."""
  for args, w in zip(log, want):
    if w['kind'] != 'camera':
      continue
    target = write_target(w['target'], 0)
    if target is None:
      continue
    front = []
    error = start(FRONT, args[3:], front)
    o = options(args[3:], 'batch')
    verify_front(0, w['bag'], w['intrinsics'], w['topic'], o['output_file'], front, error,
                 'front end for {}'.format(args))
    rec.step()


def write_target(path, t):
  """Target description under the scratch folder, None for other places."""
  if os.path.isabs(path):
    return None
  if os.path.dirname(path) and not os.path.isdir(os.path.dirname(path)):
    os.makedirs(os.path.dirname(path))
  with open(path, 'w') as f:
    for k, v in TARGETS[t].items():
      f.write('%s: %s\n' % (k, v))
  return path


def run_shipped(case, rec):
  import yaml
  path = os.path.join(core.HEC, 'configs', case['file'])
  with open(path) as f:
    content = yaml.safe_load(f)
  entries = []
  for b in content['bags']:
    frames, cameras = b['tf_frames'], b['cameras']
    entries.append(dict(
        name=b['name'], folder=(b['bag_path'], b['intrinsics_path'], b['target_config_path']),
        frames=(frames['source'], frames['target']) if frames else None,
        cameras=(cameras['cam_topics'], cameras['cam_intrinsics']) if cameras else None,
        target=b['target']))
  want, refused = expected(entries)
  log = []
  error = start(BATCH, ['--yaml_config_file', path], log)
  verify_batch(want, refused, log, error, case['file'])
  rec.step(len(log))
  rec.state(case)
  rec.outcome('shipped configuration')


def run_broken(case, rec):
  argv = case['argv']
  with open('broken.yaml', 'w') as f:
    f.write(case['text'])
  log = []
  error = start(BATCH, argv, log)
  check(error is not None and not log, '{} {!r}: {!r} {}', argv, case['text'], error, log)
  rec.step()
  rec.state(case)
  rec.outcome('unusable configuration')


# -- target extraction front end -------------------------------------------

TARGETS = [dict(april_tag_number_vertical=6, april_tag_number_horizontal=7,
                april_tag_number_pixel_boarder=2, april_tag_size_m=0.083,
                april_tag_gap_size_m=0.0249),
           dict(april_tag_number_vertical=1, april_tag_number_horizontal=12,
                april_tag_number_pixel_boarder=3, april_tag_size_m=0.055,
                april_tag_gap_size_m=0.0165),
           dict(april_tag_gap_size_m=1.0e-3, april_tag_size_m=2, april_tag_number_pixel_boarder=1,
                april_tag_number_horizontal=5, april_tag_number_vertical=9)]
TOPICS = ['/camera/rgb/image_raw', '/ir', 'relative/topic', '/a b', '/x=y', '/cam0/image:1']
OUTPUTS = ['poses.csv', 'with space.csv', 'out/poses.csv', '/data/set 1/poses.csv', './poses.csv',
           'no_suffix']
BAGS = ['calibration.bag', '/data/my bags/a.b.bag', '../up/x=1.bag']
CAMERA_FILES = ['camera.yaml', '/calib dir/sr300=ir.yaml']


def verify_front(t, bag, camera, topic, output, log, error, what):
  check(error is None, '{}: ended with {!r}', what, error)
  check(len(log) == 1, '{}: started {}', what, log)
  args = log[0]
  check(args[:3] == ['rosrun', 'hand_eye_calibration_target_extractor', 'target_extractor'],
        '{}: started {}', what, args)
  o = options(args[3:], what)
  for key, value in (('bag', bag), ('topic', topic), ('eval_camera_yaml', camera),
                     ('camera_pose_T_C_G_output_file_timestamped', output)):
    check(o.get(key) == value, '{}: {} is {!r} instead of {!r}', what, key, o.get(key), value)
  target = TARGETS[t]
  for key in target:
    flag = 'april_tag_pixel_boarder' if key.endswith('boarder') else key
    check(flag in o and float(o[flag]) == target[key], '{}: {} is {!r} instead of {!r}', what, flag,
          o.get(flag), target[key])
    if 'number' in key:
      check('.' not in o[flag], '{}: {} is {!r}', what, flag, o[flag])
  # The readers of the pose file expect no header.
  check(str(o.get('write_csv_header')).lower() in ('false', '0', 'no'), '{}: header switched on',
        what)
  other = o.get('camera_pose_T_C_G_output_file')
  check(other and other != output, '{}: sequence numbered poses go to {!r}', what, other)
  check(os.path.normpath(os.path.dirname(other)) == os.path.normpath(os.path.dirname(output)),
        '{}: sequence numbered poses {!r} are not beside {!r}', what, other, output)
  check(os.path.basename(other).endswith(os.path.basename(output)) or
        os.path.basename(output) in other, '{}: sequence numbered poses {!r} do not name {!r}',
        what, other, output)


def run_front(case, rec):
  t = case['t']
  write_target('target.yaml', t)
  for topic, output, bag, camera in itertools.product(TOPICS, OUTPUTS, BAGS, CAMERA_FILES):
    argv = ['--bag', bag, '--calib_file_camera', camera, '--calib_file_target', 'target.yaml',
            '--image_topic', topic, '--output_file', output]
    for order in (0, 1):
      if order:
        argv = argv[6:] + argv[:6]
      log = []
      error = start(FRONT, argv, log)
      verify_front(t, bag, camera, topic, output, log, error, 'front end {}'.format(argv))
      rec.step()
    rec.state((t, topic, output, bag, camera))
  rec.outcome('front end')


def run_missing(case, rec):
  write_target('target.yaml', 0)
  full = ['--bag', 'a.bag', '--calib_file_camera', 'c.yaml', '--calib_file_target', 'target.yaml',
          '--image_topic', '/t', '--output_file', 'o.csv']
  pairs = [full[i:i + 2] for i in range(0, 10, 2)]
  for k in range(5):
    for keep in itertools.combinations(pairs, k):
      log = []
      error = start(FRONT, sum(keep, []), log)
      check(error is not None and not log, 'options {}: {!r} started {}', keep, error, log)
      rec.step()
      rec.state(keep)
  for key in TARGETS[0]:
    with open('partial.yaml', 'w') as f:
      for k, v in TARGETS[0].items():
        if k != key:
          f.write('%s: %s\n' % (k, v))
    log = []
    argv = full[:5] + ['partial.yaml'] + full[6:]
    error = start(FRONT, argv, log)
    check(error is not None and not log, 'target without {}: {!r} started {}', key, error, log)
    rec.step()
    rec.state(key)
  log = []
  error = start(FRONT, full[:5] + ['absent.yaml'] + full[6:], log)
  check(error is not None and not log, 'absent target: {!r} started {}', error, log)
  rec.outcome('incomplete options')


def cases(tier):
  every = list(itertools.product(range(5), range(5)))
  yield dict(k='batch', entries=[])
  for e in every:
    yield dict(k='batch', entries=[e], faults=True)
  for pair in itertools.product(every, repeat=2):
    yield dict(k='batch', entries=list(pair), faults=True)
  for three in itertools.product(every, repeat=3):
    yield dict(k='batch', entries=list(three))
  if tier == 'thorough':
    few = [(0, 0), (0, 2), (1, 3), (2, 0), (2, 2), (3, 1), (3, 3), (4, 2), (2, 4)]
    for four in itertools.product(few, repeat=4):
      yield dict(k='batch', entries=list(four))
  for f in ('primesense.yaml', 'falcon.yaml'):
    yield dict(k='shipped', file=f)
  arg = ['--yaml_config_file', 'broken.yaml']
  for argv, text in ((arg, ''), (arg, 'bags: [1, 2'), (arg, 'other: 1\n'), (arg, 'bags:\n  - a: 1\n'),
                     ([], 'bags: []\n'), (['--yaml_config_file', 'absent.yaml'], '')):
    yield dict(k='broken', argv=argv, text=text)
  for t in range(len(TARGETS)):
    yield dict(k='front', t=t)
  yield dict(k='missing')


RUNS = dict(batch=run_batch, shipped=run_shipped, broken=run_broken, front=run_front,
            missing=run_missing)


def run(case, rec):
  RUNS[case['k']](case, rec)
