"""The alignment and the calibration tool on pose files."""
import contextlib
import itertools
import json
import os
import runpy
import shutil
import sys

import numpy as np

from mc import core
from mc import model as M
from mc import rig
from mc import search
from mc.core import check
from checks import c07

import matplotlib.pyplot as plt

ID = 'C23'
BOUND = {
    'quick': 'both tools in sequence: 5 hand-eye transforms x 2 worlds x 7 delays (cuts, epoch '
             'stamps, other rates cycled) x {Hamilton, JPL} x 4 pose directions (cycled); all '
             '128 combinations of the input and output options of the calibration tool, fresh '
             'and with files from an earlier run; all subsets of the options of the alignment '
             'tool; all spellings of 12 switch values; damaged inputs',
    'thorough': 'as quick with the full product of transforms, worlds, delays, conventions and '
                'pose directions'}
MIN_OUTCOMES = 5
CASE_LIMIT_S = 300
ASSUMPTIONS = ['the motion profile has separated rotation bursts about several axes']

ALIGN = os.path.join(core.HEC, 'bin', 'compute_aligned_poses.py')
CALIBRATE = os.path.join(core.HEC, 'bin', 'compute_hand_eye_calibration.py')
ROOT = None
SHOWN = []


def start_worker(wid, n):
  global ROOT
  ROOT = core.scratch()
  os.chdir(ROOT)
  search.record_plots(SHOWN)


# -- recordings ------------------------------------------------------------

PROFILE = [(2.5, 0.4, 1.1, (1, 0, 0)), (4.1, 0.4, 1.3, (0, 1, 0)), (5.2, 0.4, -1.5, (0, 0, 1)),
           (7.4, 0.4, 1.2, (1, 2, 3)), (8.7, 0.4, 0.9, (-1, 1, 0))]
HAND_EYES = rig.HAND_EYES
# delay, start and end of the first / the second recording
DELAYS = [(0.0, 0.5, 10.5, 0.5, 10.5), (0.35, 0.5, 10.5, 0.5, 10.5), (-0.6, 0.5, 10.5, 0.5, 10.5),
          (2.5, 0.0, 10.5, 0.5, 11.0), (-100.0, 0.5, 11.0, 0.25, 10.5),
          (0.115, 0.5, 10.5, 0.52, 10.47), (1476028547.25, 0.5, 10.5, 0.25, 10.5)]
ORIGINS = [0.0, 1476028547.0]


def hand_pose(t):
  q = c07.orientation(PROFILE, t, 1)
  s = [c07.smooth((t - c) / 0.9) for c in (2.3, 3.9, 5.4, 7.1, 8.5)]
  return rig.Pose(q, (0.3 * s[0] - 0.5 * s[2], 0.4 * s[1] + 0.2 * s[4], 0.1 + 0.35 * s[3]))


def recording(start, end, dt, right, left, shift, jpl=False, signs=0):
  rows = []
  n = int(round((end - start) / dt)) + 1
  for i in range(n):
    t = start + i * dt
    p = left * hand_pose(t) * right
    q = p.q.copy()
    if signs and (i // signs) % 2:
      q = -q
    if jpl:
      q[:3] *= -1
    rows.append(np.hstack(([t + shift], p.t, q)))
  return np.array(rows)


def write(path, rows):
  with open(path, 'w') as f:
    for r in rows:
      f.write(', '.join(repr(float(v)) for v in r) + '\n')


def read(path):
  with open(path) as f:
    return np.array([[float(v) for v in l.split(',')] for l in f if l.strip()])


def invert(rows):
  out = []
  for r in rows:
    p = rig.Pose(r[4:8], r[1:4]).inv()
    out.append(np.hstack(([r[0]], p.t, p.q)))
  return np.array(out)


# -- running the tools -----------------------------------------------------

def tool(script, argv):
  """Returns True if the tool ended successfully."""
  del SHOWN[:]
  old = sys.argv
  sys.argv = [script] + argv
  try:
    with core.script_files():
      runpy.run_path(script, run_name='__main__')
    return True
  except SystemExit as e:
    return not e.code
  except core.Violation:
    raise
  except Exception:
    return False
  finally:
    sys.argv = old
    plt.close('all')


@contextlib.contextmanager
def folder(name='work'):
  d = os.path.join(ROOT, name)
  if os.path.isdir(d):
    shutil.rmtree(d)
  os.mkdir(d)
  os.chdir(d)
  try:
    yield d
  finally:
    os.chdir(ROOT)


def listing():
  out = {}
  for base, _, files in os.walk('.'):
    for f in files:
      p = os.path.normpath(os.path.join(base, f))
      with open(p, 'rb') as g:
        out[p] = g.read()
  return out


def check_calibration(path, offset, x, what, tol=1e-5):
  with open(path) as f:
    c = json.load(f)
  check(set(c) == {'delay', 'rotation', 'translation'}, '{}: calibration {}', what, c)
  check(abs(c['delay'] - offset) < 1e-9 * max(1.0, abs(offset)), '{}: delay {!r} instead of {!r}',
        what, c['delay'], offset)
  p = rig.Pose([c['rotation'][k] for k in 'ijkw'], [c['translation'][k] for k in 'xyz'])
  check(M.close(p.mat, x.mat, tol), '{}: transform {} instead of {}', what, p.mat.tolist(),
        x.mat.tolist())
  return p


def run_chain(case, rec):
  x, w = HAND_EYES[case['x']], rig.BASE_WORLDS[case['w']]
  delay, a0, a1, b0, b1 = DELAYS[case['d']]
  origin = ORIGINS[case['o']]
  dta, dtb = ((0.05, 0.05), (0.05, 0.025), (0.025, 0.05))[case['rate']]
  jpl = case['jpl']
  what = 'rig {} world {} delay {} JPL {} directions {}'.format(
      case['x'], case['w'], delay, jpl, (case['hb'], case['ew']))
  hand = recording(a0, a1, dta, rig.IDENTITY, rig.IDENTITY, origin, jpl, case['sa'])
  eyes = recording(b0, b1, dtb, x, w.inv(), origin + delay, jpl, case['sb'])
  with folder():
    write('hand.csv', hand)
    write('eye.csv', eyes)
    argv = ['--poses_B_H_csv_file', 'hand.csv', '--poses_W_E_csv_file', 'eye.csv',
            '--aligned_poses_B_H_csv_file', 'a_hand.csv', '--aligned_poses_W_E_csv_file',
            'a_eye.csv', '--time_offset_output_csv_file', 'offset.csv']
    if jpl or case['x'] % 2:
      argv += ['--quaternion_format', 'JPL' if jpl else 'Hamilton']
    before = listing()
    check(tool(ALIGN, argv), '{}: alignment failed', what)
    check(not SHOWN, '{}: alignment opened a plot', what)
    after = listing()
    check(set(after) - set(before) == {'a_hand.csv', 'a_eye.csv', 'offset.csv'} and
          all(after[k] == before[k] for k in before), '{}: files {}', what, sorted(after))
    offset = read('offset.csv')
    check(offset.shape == (1, 1), '{}: offset file holds {}', what, offset.tolist())
    offset = float(offset[0, 0])
    step = max(dta, dtb)
    check(abs(offset - delay) <= 2 * step + 1e-6, '{}: offset {!r}', what, offset)
    ah, ae = read('a_hand.csv'), read('a_eye.csv')
    check(ah.shape == ae.shape and ah.shape[1] == 8 and len(ah) >= 100,
          '{}: aligned tables {} {}', what, ah.shape, ae.shape)
    check(np.all(np.diff(ah[:, 0]) > 0) and np.abs(ah[:, 0] - ae[:, 0]).max() < 1e-6,
          '{}: stamps of the aligned poses differ', what)
    exact = abs(offset - delay) < 1e-5
    # Pairs hold one rig pose: interpolation error grows with the error of the offset.
    tol = 2e-3 if exact else 0.3
    for rh, re in zip(ah, ae):
      ph, pe = rig.Pose(rh[4:8], rh[1:4]), rig.Pose(re[4:8], re[1:4])
      check(M.close((w.inv() * ph * x).mat, pe.mat, tol), '{}: pair at {!r} does not belong '
            'together', what, rh[0])
    rec.step()
    # Calibration of the aligned poses, possibly inverted.
    opts = ['--time_offset_input_csv_file', 'offset.csv', '--calibration_output_json_file',
            'calibration.json', '--extrinsics_output_csv_file', 'extrinsics.csv',
            '--visualize=0']
    if case['hb']:
      write('i_hand.csv', invert(ah))
      opts += ['--aligned_poses_H_B_csv_file', 'i_hand.csv']
    else:
      opts += ['--aligned_poses_B_H_csv_file', 'a_hand.csv']
    if case['ew']:
      write('i_eye.csv', invert(ae))
      opts += ['--aligned_poses_E_W_csv_file', 'i_eye.csv']
    else:
      opts += ['--aligned_poses_W_E_csv_file', 'a_eye.csv']
    before = listing()
    check(tool(CALIBRATE, opts), '{}: calibration failed', what)
    check(not SHOWN, '{}: calibration opened a plot', what)
    after = listing()
    check(set(after) - set(before) == {'calibration.json', 'extrinsics.csv'} and
          all(after[k] == before[k] for k in before), '{}: files {}', what, sorted(after))
    p = check_calibration('calibration.json', offset, x, what, 2e-3 if exact else 0.1)
    e = read('extrinsics.csv').ravel()
    check(e.shape == (7,) and M.close(rig.Pose(e[3:7], e[:3]).mat, p.mat, 1e-9),
          '{}: extrinsics {} differ from the calibration', what, e.tolist())
    rec.step()
    rec.state((case['x'], case['w'], case['d'], jpl, case['hb'], case['ew'], round(offset, 5)))
    rec.outcome('exact offset' if exact else 'offset within the sampling')
    rec.outcome('JPL' if jpl else 'Hamilton')


# -- options ---------------------------------------------------------------

INPUTS = ['B_H', 'H_B', 'W_E', 'E_W']
X = HAND_EYES[0]


def short_files():
  """Aligned pose files of a short recording in both directions."""
  hand = [rig.HAND[i % 8] * rig.HAND[(3 * i + 1) % 8] for i in range(14)]
  eyes = rig.eye(hand, X, rig.BASE_WORLDS[1])
  for name, poses in (('B_H', hand), ('W_E', eyes)):
    rows = np.array([np.hstack(([10.0 + k], p.t, p.q)) for k, p in enumerate(poses)])
    write(name + '.csv', rows)
    write(name[::-1] + '.csv', invert(rows))
  with open('offset.csv', 'w') as f:
    f.write('-0.123456789012345678\n')


def run_options(case, rec):
  mask, stale = case['mask'], case['stale']
  inputs = [n for k, n in enumerate(INPUTS) if mask >> k & 1]
  extrinsics, js, offset = mask >> 4 & 1, mask >> 5 & 1, mask >> 6 & 1
  valid = (('B_H' in inputs) != ('H_B' in inputs) and ('W_E' in inputs) != ('E_W' in inputs) and
           (offset or not js))
  what = 'options {} extrinsics {} calibration {} offset {}'.format(inputs, extrinsics, js, offset)
  argv = []
  for n in inputs:
    argv += ['--aligned_poses_%s_csv_file' % n, n + '.csv']
  if extrinsics:
    argv += ['--extrinsics_output_csv_file', 'extrinsics.csv']
  if js:
    argv += ['--calibration_output_json_file', 'calibration.json']
  if offset:
    argv += ['--time_offset_input_csv_file', 'offset.csv']
  with folder():
    short_files()
    if stale:
      for f in ('extrinsics.csv', 'calibration.json'):
        with open(f, 'w') as g:
          g.write('stale')
    before = listing()
    done = tool(CALIBRATE, argv)
    after = listing()
    rec.step()
    rec.state((mask, stale, done))
    changed = {k for k in after if before.get(k) != after[k]}
    check(set(before) <= set(after), '{}: files removed', what)
    if not valid:
      check(not done, '{}: accepted', what)
      check(not changed, '{}: refused but wrote {}', what, sorted(changed))
      rec.outcome('refused')
      return
    check(done, '{}: failed', what)
    wanted = set()
    if extrinsics:
      wanted.add('extrinsics.csv')
    if js:
      wanted.add('calibration.json')
    check(changed == wanted, '{}: wrote {}', what, sorted(changed))
    if js:
      check_calibration('calibration.json', -0.123456789012345678, X, what)
    if extrinsics:
      e = read('extrinsics.csv').ravel()
      check(e.shape == (7,) and M.close(rig.Pose(e[3:7], e[:3]).mat, X.mat, 1e-5),
            '{}: extrinsics {}', what, e.tolist())
    rec.outcome('accepted')


ALIGN_OPTIONS = [['--poses_B_H_csv_file', 'hand.csv'], ['--poses_W_E_csv_file', 'eye.csv'],
                 ['--aligned_poses_B_H_csv_file', 'a_hand.csv'],
                 ['--aligned_poses_W_E_csv_file', 'a_eye.csv'],
                 ['--time_offset_output_csv_file', 'offset.csv']]
FORMATS = [(None, True), ('Hamilton', True), ('JPL', True), ('jpl', False), ('hamilton', False),
           ('Jpl', False), ('', False), ('JPL ', False), ('xyzw', False)]


def run_align_options(case, rec):
  mask = case['mask']
  name, known = FORMATS[case['f']]
  argv = [a for k, o in enumerate(ALIGN_OPTIONS) if mask >> k & 1 for a in o]
  if name is not None:
    argv += ['--quaternion_format', name]
  what = 'options {}'.format(argv)
  with folder():
    write('hand.csv', recording(0.5, 10.5, 0.05, rig.IDENTITY, rig.IDENTITY, 0.0))
    write('eye.csv', recording(0.5, 10.5, 0.05, X, rig.IDENTITY, 0.5))
    before = listing()
    done = tool(ALIGN, argv)
    changed = {k for k, v in listing().items() if before.get(k) != v}
    rec.step()
    rec.state((mask, case['f'], done))
    if mask & 15 == 15 and known:
      check(done, '{}: failed', what)
      check(changed == {'a_hand.csv', 'a_eye.csv'} | ({'offset.csv'} if mask >> 4 else set()),
            '{}: wrote {}', what, sorted(changed))
      rec.outcome('accepted')
    elif mask & 15 == 15 and name.strip().lower() in ('jpl', 'hamilton'):
      # Other spellings of a convention: refused, or taken as meant.
      rec.outcome('accepted' if done else 'refused')
      check(done or not changed, '{}: refused but wrote {}', what, sorted(changed))
      if done:
        want = run_reference(name.strip().lower() == 'jpl')
        check(all(listing()[k] == want[k] for k in changed), '{}: other result', what)
    else:
      check(not done, '{}: accepted', what)
      check(not changed, '{}: refused but wrote {}', what, sorted(changed))
      rec.outcome('refused')


def run_reference(jpl):
  check(tool(ALIGN, [a for o in ALIGN_OPTIONS for a in o] +
             ['--quaternion_format', 'JPL' if jpl else 'Hamilton']), 'reference run failed')
  return listing()


SWITCH = [('0', False), ('False', False), ('false', False), ('FALSE', False), ('no', False),
          ('1', True), ('True', True), ('true', True)]


def run_switch(case, rec):
  value, shown = SWITCH[case['i']]
  with folder():
    short_files()
    argv = ['--aligned_poses_B_H_csv_file', 'B_H.csv', '--aligned_poses_W_E_csv_file', 'W_E.csv',
            '--time_offset_input_csv_file', 'offset.csv', '--calibration_output_json_file',
            'calibration.json'] + (['--visualize=' + value] if case['glue'] else
                                   ['--visualize', value])
    what = 'plots switched by {!r} in {}'.format(value, case['tool'])
    if case['tool'] == 'calibrate':
      done = tool(CALIBRATE, argv)
    else:
      write('hand.csv', recording(0.5, 10.5, 0.05, rig.IDENTITY, rig.IDENTITY, 0.0))
      write('eye.csv', recording(0.5, 10.5, 0.05, X, rig.IDENTITY, 0.5))
      done = tool(ALIGN, [a for o in ALIGN_OPTIONS for a in o] +
                  (['--visualize=' + value] if case['glue'] else ['--visualize', value]))
    drawn = bool(SHOWN)
    rec.step()
    rec.state((value, case['tool'], done, drawn))
    if value == 'no' and not done:
      # An unknown spelling may be refused.
      rec.outcome('refused')
      return
    check(done, '{}: failed', what)
    check(drawn == shown, '{}: {}', what, 'plots shown' if drawn else 'no plots')
    if case['tool'] == 'calibrate':
      check_calibration('calibration.json', -0.123456789012345678, X, what)
    rec.outcome('plots' if drawn else 'no plots')


DAMAGE = ['missing hand', 'missing eye', 'missing offset', 'short hand', 'short eye', 'text',
          'columns', 'unrelated']


def run_damage(case, rec):
  kind = DAMAGE[case['i']]
  with folder():
    short_files()
    if kind == 'missing hand':
      os.remove('B_H.csv')
    elif kind == 'missing eye':
      os.remove('W_E.csv')
    elif kind == 'missing offset':
      os.remove('offset.csv')
    elif kind == 'short hand':
      write('B_H.csv', read('B_H.csv')[:-1])
    elif kind == 'short eye':
      write('W_E.csv', read('W_E.csv')[1:])
    elif kind == 'text':
      with open('W_E.csv', 'a') as f:
        f.write('1, 2, 3, 4, 5, six, 7, 8\n')
      with open('B_H.csv', 'a') as f:
        f.write('1, 2, 3, 4, 5, 6, 7, 8\n')
    elif kind == 'columns':
      write('W_E.csv', read('W_E.csv')[:, :7])
    else:
      rows = read('W_E.csv')
      poses = [rig.HAND[(5 * i + 2) % 8] * rig.HAND[(i * i) % 8] * rig.HAND[i % 3]
               for i in range(len(rows))]
      write('W_E.csv', [np.hstack(([r[0]], 3 * p.t * (k % 4), p.q))
                        for k, (r, p) in enumerate(zip(rows, poses))])
    argv = ['--aligned_poses_B_H_csv_file', 'B_H.csv', '--aligned_poses_W_E_csv_file', 'W_E.csv',
            '--time_offset_input_csv_file', 'offset.csv', '--calibration_output_json_file',
            'calibration.json']
    if case['extrinsics'] and kind != 'missing offset':
      argv += ['--extrinsics_output_csv_file', 'extrinsics.csv']
    before = listing()
    done = tool(CALIBRATE, argv)
    after = listing()
    rec.step()
    rec.state((kind, done))
    check(not done, 'input with {}: ended successfully', kind)
    check(after == before, 'input with {}: wrote {}', kind, sorted(set(after) - set(before)))
    rec.outcome('damaged input')


# -- enumeration -----------------------------------------------------------

def cases(tier):
  thorough = tier == 'thorough'
  i = 0
  for x, w, d in itertools.product(range(5), range(2), range(len(DELAYS))):
    for jpl in (0, 1):
      for hb, ew in itertools.product((0, 1), repeat=2):
        i += 1
        if not thorough and (hb, ew) != ((x + d) % 2, (x + w + jpl) % 2):
          continue
        yield dict(k='chain', x=x, w=w, d=d, jpl=jpl, hb=hb, ew=ew, o=(x + d) % 2,
                   rate=(w + d + jpl) % 3, sa=(0, 7, 1)[(x + w + d) % 3],
                   sb=(0, 0, 5, 1)[(x + d + jpl) % 4])
  for stale in (0, 1):
    for mask in range(128):
      yield dict(k='options', mask=mask, stale=stale)
  for mask in range(32):
    yield dict(k='align', mask=mask, f=0)
  for f in range(1, len(FORMATS)):
    yield dict(k='align', mask=31, f=f)
    yield dict(k='align', mask=15, f=f)
  for i in range(len(SWITCH)):
    for glue in (0, 1):
      for t in ('calibrate', 'align'):
        yield dict(k='switch', i=i, glue=glue, tool=t)
  for i in range(len(DAMAGE)):
    for e in (0, 1):
      yield dict(k='damage', i=i, extrinsics=e)


RUNS = dict(chain=run_chain, options=run_options, align=run_align_options, switch=run_switch,
            damage=run_damage)


def run(case, rec):
  RUNS[case['k']](case, rec)
