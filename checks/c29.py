"""Camera poses written by the target extractor."""
import itertools
import os
import sys

import numpy as np

from mc import core
from mc import model as M
from mc import native
from mc.core import check

ID = 'C29'
BOUND = {
    'quick': 'all recordings of up to 4 messages over {target not seen, estimation failed with and '
             'without inliers, too few / just enough / enough inliers, rotation with negative '
             'scalar part, image of another topic} for 4 settings of header, millimetre files, '
             'ratio and drawing; all pairs of 9 image formats; all '
             'triples of 6 time stamps; 48 orientations; all inlier counts of up to 6 corners for 5 '
             'ratios; every fault at every place of recordings of up to 3 images; target '
             'settings through flags and through the interface script',
    'thorough': 'as quick with up to 5 messages, all triples of image formats, all quadruples of '
                'time stamps'}
MIN_OUTCOMES = 8
ASSUMPTIONS = ['the recording, the detector, the pose estimation, the camera and the image '
               'conversions are stand-ins with scripted outcomes; the extractor itself is compiled '
               'from the repository',
               'the camera object exists (see the known finding about its creation)']

SOURCE = os.path.join(core.REPO, 'hand_eye_calibration_target_extractor', 'src',
                      'target_extractor.cc')
INTERFACE = os.path.join(core.HEC, 'bin', 'target_extractor_interface.py')
PROGRAM, STRICT = native.build(SOURCE, [['-DSTANDIN_CAMERA_PROVIDED'], []])
ROOT = None

TOPIC, OTHER = '/front/image_raw', '/cam0/image_raw'
TURNED = (0.1, 0.9, 0.3, -0.3)
PLAIN = (0.8, 0.2, -0.4, 0.4)
FRAMES = {
    # name: topic, detected, corners, success, inliers, rotation (w, x, y, z)
    'unseen': (TOPIC, 0, 8, 1, 8, PLAIN),
    'failed': (TOPIC, 1, 8, 0, 8, PLAIN),
    'lost': (TOPIC, 1, 8, 0, 0, PLAIN),
    'few': (TOPIC, 1, 10, 1, 3, PLAIN),
    'edge': (TOPIC, 1, 10, 1, 5, PLAIN),
    'good': (TOPIC, 1, 10, 1, 9, PLAIN),
    'turned': (TOPIC, 1, 4, 1, 4, TURNED),
    'other': (OTHER, 1, 8, 1, 8, PLAIN)}
SETTINGS = [dict(header=1, mm=0, ratio=0.4, draw=0), dict(header=0, mm=1, ratio=0.4, draw=0),
            dict(header=1, mm=1, ratio=0.5, draw=1), dict(header=0, mm=0, ratio=0.25, draw=0)]
FORMATS = [('mono8', 0, 0), ('mono8', 0, 5), ('mono16', 0, 0), ('mono16', 1, 0), ('mono16', 0, 4),
           ('16UC1', 0, 0), ('16UC1', 1, 4), ('bgr8', 0, 0), ('rgb8', 0, 3)]
STAMPS = [(0, 0), (0, 1), (1479313046, 999999999), (1479313047, 0), (1479313046, 500000000),
          (4294967290, 123456789)]
FAULTS = ['message', 'encoding', 'step']
TARGETS = [dict(vertical=6, horizontal=6, size=0.055, gap=0.0165, border=2),
           dict(vertical=4, horizontal=7, size=0.088, gap=0.026, border=1),
           dict(vertical=1, horizontal=2, size=1.5, gap=0.125, border=3)]


def orientations():
  """24 orientations with right angles and 24 general ones, with both signs."""
  out = [tuple(float(v) for v in np.roll((1, 0, 0, 0), i)) for i in range(4)]
  out += [tuple(float(v) for v in (0.5, 0.5 * a, 0.5 * b, 0.5 * c))
          for a, b, c in itertools.product((1, -1), repeat=3)]
  for i, j in itertools.combinations(range(4), 2):
    for s in (1, -1):
      q = [0.] * 4
      q[i], q[j] = np.sqrt(0.5), s * np.sqrt(0.5)
      out.append(tuple(q))
  for q in [(0.9, 0.1, 0.2, 0.3), (0.1, 0.2, 0.9, 0.3), (1e-9, 0.6, 0., 0.8)]:
    for s in itertools.product((1, -1), repeat=3):
      out.append((q[0], s[0] * q[1], s[1] * q[2], s[2] * q[3]))
  return out


def cases(tier):
  deep = tier == 'thorough'
  names = list(FRAMES)
  for setting in SETTINGS:
    for n in range(6 if deep else 5):
      for seq in itertools.product(names, repeat=n):
        yield dict(kind='sequence', frames=list(seq), setting=setting)
  for pair in itertools.product(FORMATS, repeat=3 if deep else 2):
    for last in ('good', 'unseen'):
      yield dict(kind='formats', formats=[list(f) for f in pair], last=last)
  for stamps in itertools.product(STAMPS, repeat=4 if deep else 3):
    yield dict(kind='stamps', stamps=[list(s) for s in stamps])
  for q in orientations():
    yield dict(kind='pose', q=list(q))
  for corners in range(1, 7):
    for ratio in (0., 0.25, 0.4, 0.5, 1.):
      yield dict(kind='ratio', corners=corners, ratio=ratio)
  for n in range(1, 4):
    for place in range(n):
      for fault in FAULTS:
        yield dict(kind='fault', n=n, place=place, fault=fault)
  yield dict(kind='fault', n=2, place=0, fault='recording')
  for seq in itertools.product(('good', 'unseen'), repeat=2):
    yield dict(kind='no camera', frames=list(seq))
  for target in TARGETS:
    for style in ('separate', 'joined', 'interface'):
      yield dict(kind='target', target=target, style=style)
  yield dict(kind='camera')


def start_worker(wid, n):
  global ROOT
  ROOT = core.scratch()


def position(i):
  return (0.25 * i - 1., 1. / 3. + 7. * i, 1e-3 / (i + 1))


def frame(i, topic=TOPIC, detected=1, corners=10, success=1, inliers=9, q=PLAIN, stamp=None,
          fmt=('mono8', 0, 0), kind='image'):
  q = np.array(q, dtype=float)
  return dict(topic=topic, kind=kind, fmt=fmt, stamp=stamp or (1479313046 + i, 125000000 * i),
              id=i + 1, detected=detected, corners=corners, success=success,
              inliers=list(range(inliers)) if isinstance(inliers, int) else inliers,
              t=position(i), q=q / np.linalg.norm(q))


def write_recording(frames, path):
  with open(path, 'w') as f:
    for x in frames:
      values = [x['topic'], x['kind'], x['fmt'][0], x['stamp'][0], x['stamp'][1], x['id'],
                x['fmt'][1], x['fmt'][2], x['detected'], x['corners'], x['success']]
      values += [repr(float(v)) for v in list(x['t']) + list(x['q'])]
      values += [len(x['inliers'])] + x['inliers']
      f.write(' '.join(str(v) for v in values) + '\n')


def execute(program, frames, flags, folder=None, recording=True):
  """Runs the extractor in a folder of its own; returns (exit status, folder, requests)."""
  folder = folder or native.empty(os.path.join(ROOT, 'run'))
  bag = os.path.join(folder, 'in.bag')
  if recording:
    write_recording(frames, bag)
  with open(os.path.join(folder, 'camera.yaml'), 'w') as f:
    f.write('camera\n')
  status = native.call([program, '--bag', bag] + flags, folder)
  return status, folder, native.requests(folder)


def flags_of(setting, topic=TOPIC):
  return ['--topic', topic, '--eval_camera_yaml', 'camera.yaml',
          '--camera_pose_T_C_G_output_file', 'seq.csv',
          '--camera_pose_T_C_G_output_file_timestamped=stamped.csv',
          '--camera_pose_T_C_G_output_file_mm', 'seq_mm.csv',
          '--camera_pose_T_C_G_output_file_mm_timestamped', 'stamped_mm.csv',
          '--write_csv_header=' + ('true' if setting['header'] else 'false'),
          '--output_position_in_mm' if setting['mm'] else '--nooutput_position_in_mm',
          '--draw_extraction=' + ('true' if setting['draw'] else 'false'),
          '--inlier_ratio_for_good_camera_pose', repr(setting['ratio'])]


def rows(folder, name, header, columns):
  path = os.path.join(folder, name)
  check(os.path.isfile(path), '{} was not written', name)
  with open(path) as f:
    lines = f.read().split('\n')
  check(lines[-1] == '', '{} does not end with a complete line', name)
  lines = lines[:-1]
  if header:
    check(lines, '{} has no header', name)
    check(len(lines[0].split(',')) == columns, '{}: header {}', name, lines[0])
    check(not lines[0].split(',')[0].strip().replace('.', '').isdigit(),
          '{}: no header but {}', name, lines[0])
    lines = lines[1:]
  out = []
  for line in lines:
    cells = line.split(',')
    check(len(cells) == columns, '{}: line {}', name, line)
    try:
      out.append([float(c) for c in cells])
    except ValueError:
      check(False, '{}: line {} is not numeric', name, line)
  return out


def same_rotation(q, row):
  """q is (w, x, y, z), the row ends with x, y, z, w."""
  written = np.array([row[7], row[4], row[5], row[6]])
  return (abs(np.linalg.norm(written) - 1.) < 1e-9 and written[0] >= 0. and
          min(np.abs(written - q).max(), np.abs(written + q).max()) < 1e-7)


def accepted(x, ratio):
  """True, False or None when the ratio is exactly the required one."""
  if not x['detected'] or not x['success'] or not x['inliers']:
    return False
  share = len(x['inliers']) / float(x['corners'])
  return None if share == ratio else share > ratio


def verify(frames, folder, setting, requests, topic=TOPIC):
  images = [x for x in frames if x['topic'] == topic]
  got = rows(folder, 'stamped.csv', setting['header'], 8)
  numbers = rows(folder, 'seq.csv', setting['header'], 8)
  check(len(got) == len(numbers), '{} poses by time stamp, {} by number', len(got), len(numbers))
  at = 0
  kept = []
  for i, x in enumerate(images):
    verdict = accepted(x, setting['ratio'])
    here = at < len(numbers) and numbers[at][0] == i
    if verdict is None:
      verdict = here
    check(here or not verdict, 'image {} was accepted but has no pose: {}', i, numbers)
    check(verdict or not here, 'image {} was rejected but has a pose: {}', i, numbers)
    if verdict:
      kept.append((i, x))
      at += 1
  check(at == len(numbers), 'poses of no image: {}', numbers[at:])
  for (i, x), stamped, number in zip(kept, got, numbers):
    seconds = x['stamp'][0] + 1e-9 * x['stamp'][1]
    check(stamped[0] == seconds, 'image {} of {} written at {}', i, seconds, stamped[0])
    check(stamped[1:] == number[1:], 'image {}: pose {} by time stamp, {} by number', i, stamped,
          number)
    check(np.abs(np.array(stamped[1:4]) - x['t']).max() < 1e-12, 'image {}: position {} for {}',
          i, stamped, x['t'])
    check(same_rotation(x['q'], stamped), 'image {}: rotation {} for (w x y z) {}', i, stamped,
          x['q'])
  mm = [os.path.exists(os.path.join(folder, n)) for n in ('seq_mm.csv', 'stamped_mm.csv')]
  check(mm == [bool(setting['mm'])] * 2, 'millimetre files {}', mm)
  if setting['mm']:
    for name, metres in (('seq_mm.csv', numbers), ('stamped_mm.csv', got)):
      scaled = rows(folder, name, setting['header'], 8)
      check(len(scaled) == len(metres), '{}: {} rows for {}', name, len(scaled), len(metres))
      for a, b in zip(scaled, metres):
        check(a[0] == b[0] and a[4:] == b[4:] and
              np.allclose(a[1:4], 1000. * np.array(b[1:4]), rtol=1e-14, atol=0.),
              '{}: {} for {}', name, a, b)
  verify_corners(images, rows(folder, 'corner_reprojections.csv', setting['header'], 9))
  asked = [r.split() for r in requests]
  check([r[1] for r in asked if r[0] == 'detect'] == [str(x['id']) for x in images],
        'images searched: {}', requests)
  check(['camera', 'camera.yaml', '1'] in asked, 'camera file was not read: {}', requests)
  if setting['draw']:
    check(sum(r[0] == 'shown' for r in asked) == len(images), 'drawn: {}', requests)
    check(sum(r[0] == 'corners' for r in asked) == sum(x['detected'] for x in images),
          'drawn: {}', requests)
  return kept


def verify_corners(images, got):
  want = [(i, x, c) for i, x in enumerate(images) if x['detected'] for c in range(x['corners'])]
  check(len(got) == len(want), '{} corners written, {} found', len(got), len(want))
  for (i, x, c), row in zip(want, got):
    n = x['id']
    expected = [i, 3 * c + n, x['success'], int(c in x['inliers'])]
    check(row[:4] == expected, 'corner {} of image {}: {} instead of {}', c, i, row, expected)
    check(np.allclose(row[5:7], (100. * n + c, 50. * n + 2. * c), rtol=1e-5),
          'corner {} of image {}: measured {}', c, i, row)
    if x['success']:
      R = M.quat_to_rot(np.roll(x['q'], -1))
      p = R.T.dot(np.array((0.0625 * (c % 4), 0.0625 * (c // 4), 0.)) - x['t'])
      u, v = 400. * p[0] / p[2] + 320., 400. * p[1] / p[2] + 240.
      if abs(p[2]) > 1e-6:
        check(np.allclose(row[7:], (u, v), rtol=1e-4, atol=1e-3),
              'corner {} of image {}: reprojected to {} instead of {}', c, i, row, (u, v))
        check(row[4] == int(p[2] > 0. and 0. <= u < 640. and 0. <= v < 480.),
              'corner {} of image {}: visible {}', c, i, row)


def compare(frames, setting, rec, label, extra=()):
  status, folder, requests = execute(PROGRAM, frames, flags_of(setting) + list(extra))
  check(status == 0, 'exit status {}', status)
  kept = verify(frames, folder, setting, requests)
  rec.step(len(frames) + 1)
  rec.state((label, setting, [(x['topic'], x['detected'], x['success'], len(x['inliers']),
                               x['corners'], x['fmt'], x['stamp'], list(x['q']))
                              for x in frames], [i for i, _ in kept]))
  rec.outcome('%s: %s' % (label, 'no pose' if not kept else 'all' if len(kept) == len(frames)
                          else 'some'))


def run(case, rec):
  globals()['run_' + case['kind'].replace(' ', '_')](case, rec)


def run_sequence(case, rec):
  frames = []
  for i, name in enumerate(case['frames']):
    topic, detected, corners, success, inliers, q = FRAMES[name]
    frames.append(frame(i, topic, detected, corners, success, inliers, q))
  compare(frames, case['setting'], rec, 'sequence')


def run_formats(case, rec):
  frames = [frame(i, fmt=tuple(f)) for i, f in enumerate(case['formats'])]
  frames[-1]['detected'] = int(case['last'] == 'good')
  compare(frames, SETTINGS[0], rec, 'formats')


def run_stamps(case, rec):
  frames = [frame(i, stamp=tuple(s)) for i, s in enumerate(case['stamps'])]
  compare(frames, SETTINGS[0], rec, 'stamps')


def run_pose(case, rec):
  q = np.array(case['q'])
  compare([frame(0, q=q), frame(1, q=-q)], SETTINGS[1], rec, 'pose')


def run_ratio(case, rec):
  n = case['corners']
  setting = dict(SETTINGS[0], ratio=case['ratio'])
  frames = [frame(k, corners=n, inliers=list(range(n - k, n))) for k in range(n + 1)]
  compare(frames, setting, rec, 'ratio')


def run_fault(case, rec):
  frames = [frame(i) for i in range(case['n'])]
  bad = frames[case['place']]
  if case['fault'] == 'message':
    bad['kind'] = 'text'
  elif case['fault'] == 'encoding':
    bad['fmt'] = ('yuv422', 0, 0)
  elif case['fault'] == 'step':
    bad['fmt'] = ('mono8', 0, -1)
  status, folder, _ = execute(PROGRAM, frames, flags_of(SETTINGS[0]),
                              recording=case['fault'] != 'recording')
  check(status != 0, 'success although the recording could not be read')
  for name in ('seq.csv', 'stamped.csv'):
    if os.path.exists(os.path.join(folder, name)):
      check(not rows(folder, name, 1, 8), '{} has poses of an unreadable recording', name)
  rec.step()
  rec.state(('fault', case['n'], case['place'], case['fault'], status))
  rec.outcome('fault: ' + case['fault'])


def run_no_camera(case, rec):
  frames = [frame(i, detected=int(n == 'good')) for i, n in enumerate(case['frames'])]
  status, folder, requests = execute(PROGRAM, frames, ['--topic', TOPIC])
  check(status == 0, 'exit status {}', status)
  left = sorted(n for n in os.listdir(folder) if n.endswith('.csv'))
  check(all(not rows(folder, n, 1, 8) for n in left), 'poses without a camera: {}', left)
  rec.step(len(frames))
  rec.state(('no camera', case['frames'], left))
  rec.outcome('no camera')


def run_target(case, rec):
  t = case['target']
  frames = [frame(0), frame(1, detected=0), frame(2, inliers=1), frame(3)]
  setting = SETTINGS[3]
  values = [('april_tag_number_vertical', t['vertical']),
            ('april_tag_number_horizontal', t['horizontal']), ('april_tag_size_m', t['size']),
            ('april_tag_gap_size_m', t['gap']), ('april_tag_pixel_boarder', t['border'])]
  if case['style'] == 'interface':
    folder = native.empty(os.path.join(ROOT, 'run'))
    write_recording(frames, os.path.join(folder, 'in.bag'))
    with open(os.path.join(folder, 'camera.yaml'), 'w') as f:
      f.write('camera\n')
    with open(os.path.join(folder, 'target.yaml'), 'w') as f:
      for name, value in values:
        f.write('%s: %r\n' % (name.replace('tag_pixel', 'tag_number_pixel'), value))
    bin_dir = native.empty(os.path.join(ROOT, 'bin'))
    with open(os.path.join(bin_dir, 'rosrun'), 'w') as f:
      f.write('#!/bin/sh\n[ "$1 $2" = "hand_eye_calibration_target_extractor target_extractor" ] '
              '|| exit 1\nshift 2\nexec %s "$@"\n' % PROGRAM)
    os.chmod(os.path.join(bin_dir, 'rosrun'), 0o755)
    status = native.call(
        [sys.executable, INTERFACE, '--bag', 'in.bag', '--calib_file_camera', 'camera.yaml',
         '--calib_file_target', 'target.yaml', '--image_topic', TOPIC,
         '--output_file', os.path.join(folder, 'poses.csv')], folder, path=bin_dir)
    os.rename(os.path.join(folder, 'poses.csv'), os.path.join(folder, 'stamped.csv'))
    os.rename(os.path.join(folder, 'sequenced_poses.csv'), os.path.join(folder, 'seq.csv'))
    requests = native.requests(folder)
    # The interface leaves the ratio at the default of the extractor.
    setting = dict(setting, ratio=0.4)
  else:
    flags = []
    for name, value in values:
      if case['style'] == 'joined':
        flags.append('--%s=%r' % (name, value))
      else:
        flags += ['--' + name, repr(value)]
    status, folder, requests = execute(PROGRAM, frames, flags_of(setting) + flags)
  check(status == 0, 'exit status {}', status)
  verify(frames, folder, setting, requests)
  asked = [r.split()[1:] for r in requests if r.startswith('target ')]
  check(asked and all([float(v) for v in a] == [t['vertical'], t['horizontal'], t['size'],
                                                t['gap'], t['border']] for a in asked),
        'the target of the detector is {} for {}', asked, t)
  rec.step(len(frames) + 1)
  rec.state(('target', t, case['style']))
  rec.outcome('target: ' + case['style'])


def run_camera(case, rec):
  status, folder, requests = execute(STRICT, [frame(0)], flags_of(SETTINGS[0]))
  rec.step()
  rec.state(('camera', status))
  if status != 0:
    rec.outcome('camera: never created')
    rec.finding('camera-never-created',
                'with a camera file the extractor ends with status %s before it writes a pose: '
                'the camera is read through a pointer to no camera' % status)
    return
  verify([frame(0)], folder, SETTINGS[0], requests)
  rec.outcome('camera: created')
