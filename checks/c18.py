"""Call histories with in-place changes of inputs and results."""
import copy
import os
import pickle

import numpy as np

from mc import core
from mc import rig
from mc import search
from mc.core import check

from hand_eye_calibration import algorithm_config as AC
from hand_eye_calibration import bash_utils as BU
from hand_eye_calibration import calibration_verification as CV
from hand_eye_calibration import csv_io as CSV
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE
from hand_eye_calibration import quaternion as Q
from hand_eye_calibration import time_alignment as TA
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
from hand_eye_calibration.quaternion import Quaternion

ID = 'C18'
BOUND = {
    'quick': 'all histories call, change (nothing / the result / one element of the result / '
             'each input object the call used), call over all ordered pairs of 79 library '
             'operations on one shared set of objects; each call also compared with the same '
             'call in a fresh process',
    'thorough': 'as quick, followed by a third call of each of 79 operations for 24 '
                'first operations'}
MIN_OUTCOMES = 4
CASE_LIMIT_S = 600

DIR = None
BASE = None


def dqs(poses):
  return [p.dq() for p in poses]


def world():
  """A fresh set of objects as a caller would hold them."""
  hand, eyes = search.data(6, rig.HAND_EYES[0], rig.BASE_WORLDS[1], (), 2, 0)
  t = np.arange(0, 2.0, 0.25)
  quats = [Quaternion(q=(p.neg() if i == 2 else p).q.copy())
           for i, p in enumerate(rig.HAND)]
  a = np.array([np.hstack((ti, p.t, p.q)) for ti, p in zip(t / 4, rig.HAND)])
  b = np.array([np.hstack((ti, p.t, p.q)) for ti, p in zip(
      t / 4 + 0.03, rig.eye(rig.HAND, rig.HAND_EYES[0], rig.BASE_WORLDS[1]))])
  b[3, 4:] *= -1
  rel_h, rel_e = ([rig.relative(ps, 0, i) for i in range(6)] for ps in (hand, eyes))
  cfg = HE.HandEyeConfig()
  cfg.min_num_inliers = 3
  cfg.enable_exhaustive_search = True
  cfg.ransac_sample_size = 1
  cfg.prefilter_poses_enabled = False
  cfg3 = HE.HandEyeConfig()
  cfg3.min_num_inliers = 3
  cfg3.enable_exhaustive_search = True
  cfg3.prefilter_poses_enabled = True
  cfg3.ransac_sample_size = 3
  cfg3.ransac_inlier_classification = 'rmse_threshold'
  fc = TA.FilteringConfig()
  fc.smoothing_kernel_size_A = fc.smoothing_kernel_size_B = 3
  p1, p2 = rig.HAND[3], rig.HAND[4].neg()
  mat = rig.HAND[6].mat
  return dict(
      q1=Quaternion(q=p1.q.copy()), q2=Quaternion(q=p2.q.copy()), d1=p1.dq(), d2=p2.dq(),
      # Not normalised: exporting it may scale it, not change the transform.
      d3=DualQuaternion.from_vector(1.5 * rig.HAND[5].vec),
      vec=np.array([0.3, -1.0, 2.0]), pose=np.hstack((p2.t, p2.q)), pose1=np.hstack((p1.t, p1.q)),
      dqvec=p1.vec.copy(), qvec=p2.q.copy(), mat=mat.copy(), rot=mat[:3, :3].copy(),
      times=t.copy(), quats=quats, samples=np.array([0.0, 0.1, 0.25, 0.25, 1.0, 1.3, 1.75]),
      psamples=np.array([0.0, 0.0625, 0.1, 0.4375]), A=a, B=b,
      sig_a=np.array([0.0, 1, 3, 1, 0, 0, 0, 0]), sig_b=np.array([0.0, 0, 0, 1, 3, 1, 0, 0]),
      vel=np.array([[0.1, 2.0, -3.0], [0.2, 0, 1], [9.0, -1, 0], [0.3, 0.2, 0.1]]),
      hand=dqs(hand), eyes=dqs(eyes), rel_h=dqs(rel_h), rel_e=dqs(rel_e), x=rig.HAND_EYES[0].dq(),
      w=rig.BASE_WORLDS[1].dq(), pa=np.array([np.hstack((p.t, p.q)) for p in rig.HAND[:4]]),
      pb=np.array([np.hstack((p.t, p.q)) for p in rig.HAND[1:5]]), cfg=cfg, cfg3=cfg3, fc=fc,
      chain=dqs([rig.HAND[0], rig.HAND[1], rig.HAND[2].neg()]),
      e1=ExtrinsicCalibration(0.5, rig.HAND[1].dq()), e2=ExtrinsicCalibration(-2.0, p2.dq()))


def save_load(w, name, value, write, read):
  path = os.path.join(DIR, name)
  write(value, path)
  return read(path)


def json_trip(w, e, conv):
  path = os.path.join(DIR, 'calib.json')
  e.writeJson(path, conv)
  return ExtrinsicCalibration.fromJson(path, conv)


def in_place(method):
  """Methods that change their object are applied to a copy of it."""
  def call(d):
    c = d.copy()
    getattr(c, method)()
    return c
  return call


# name -> (inputs, function of the inputs)
OPS = [
    ('Quaternion(q)', 'qvec', lambda v: Quaternion(q=v)),
    ('quaternion copy', 'q1', lambda q: q.copy()),
    ('quaternion conjugate', 'q1', lambda q: q.conjugate()),
    ('quaternion inverse', 'q2', lambda q: q.inverse()),
    ('quaternion product', 'q1 q2', lambda a, b: a * b),
    ('quaternion scaled', 'q1', lambda q: 2 * q),
    ('quaternion scaled right', 'q1', lambda q: q * 1.0),
    ('quaternion sum', 'q1 q2', lambda a, b: a + b),
    ('quaternion difference', 'q1 q2', lambda a, b: a - b),
    ('quaternion quotient', 'q1 q2', lambda a, b: a / b),
    ('quaternion divided by 1', 'q1', lambda a: a / 1.0),
    ('quaternion negated', 'q1', lambda a: -a),
    ('quaternion normalised', 'q2', in_place('normalize')),
    ('angle axis', 'q1', lambda a: a.angle_axis()),
    ('rotate vector', 'q1 vec', lambda a, v: a.rotate_vector(v)),
    ('rotation matrix', 'q1', lambda a: a.to_rotation_matrix()),
    ('transformation matrix', 'q2', lambda a: a.to_transformation_matrix()),
    ('from rotation matrix', 'rot', Quaternion.from_rotation_matrix),
    ('from angle axis', 'vec', lambda v: Quaternion.from_angle_axis(0.7, v)),
    ('slerp', 'q1 q2', lambda a, b: Q.quaternion_slerp(a, b, 0.3)),
    ('slerp start', 'q1 q2', lambda a, b: Q.quaternion_slerp(a, b, 0.0)),
    ('slerp end', 'q1 q2', lambda a, b: Q.quaternion_slerp(a, b, 1.0)),
    ('lerp start', 'q1 q2', lambda a, b: Q.quaternion_lerp(a, b, 0.0)),
    ('lerp end', 'q1 q2', lambda a, b: Q.quaternion_lerp(a, b, 1.0)),
    ('nlerp', 'q1 q2', lambda a, b: Q.quaternion_nlerp(a, b, 0.4)),
    ('interpolate', 'q1 q2 psamples',
     lambda a, b, s: Q.quaternions_interpolate(a, 0.0, b, 0.5, s)),
    ('angle between', 'q1 q2', Q.angle_between_quaternions),
    ('angular velocity', 'q1 q2', lambda a, b: Q.angular_velocity_between_quaternions(a, b, 0.1)),
    ('DualQuaternion', 'q1 q2', DualQuaternion),
    ('dq from vector', 'dqvec', DualQuaternion.from_vector),
    ('dq from pose', 'pose', DualQuaternion.from_pose_vector),
    ('dq from matrix', 'mat', DualQuaternion.from_transformation_matrix),
    ('dq identity', '', DualQuaternion.identity),
    ('dq copy', 'd1', lambda d: d.copy()),
    ('dq product', 'd1 d2', lambda a, b: a * b),
    ('dq scaled', 'd1', lambda a: 1.0 * a),
    ('dq sum', 'd1 d2', lambda a, b: a + b),
    ('dq conjugate', 'd2', lambda a: a.conjugate()),
    ('dq inverse', 'd2', lambda a: a.inverse()),
    ('dq quotient', 'd1 d2', lambda a, b: a / b),
    ('dq normalised', 'd3', in_place('normalize')),
    ('dq canonical sign', 'd2', in_place('enforce_positive_q_rot_w')),
    ('dq norm', 'd2', lambda a: a.norm()),
    ('dq scalar', 'd1', lambda a: a.scalar()),
    ('dq screw axis', 'd1', lambda a: a.screw_axis()),
    ('dq parts', 'd1', lambda a: [a.q_rot, a.q_dual]),
    ('dq to pose', 'd3', lambda a: a.to_pose()),
    ('dq to matrix', 'd2', lambda a: a.to_matrix()),
    ('dq transform point', 'd1 vec',
     lambda a, v: [a.passive_transform_point(v), a.active_transform_point(v)]),
    ('resample', 'times quats samples', TA.resample_quaternions_from_samples),
    ('resample steps', 'times quats', lambda t, q: TA.resample_quaternions(t, q, 0.125)),
    ('resample at stamps', 'times quats',
     lambda t, q: TA.resample_quaternions_from_samples(t, q, t)),
    ('interpolate poses', 'A psamples', TA.interpolate_poses_from_samples),
    ('pair recordings', 'A B', lambda a, b: TA.compute_aligned_poses(a, b, 0.0)),
    ('pair shifted recordings', 'A B', lambda a, b: TA.compute_aligned_poses(a, b, 0.03)),
    ('smooth', 'vel', lambda v: TA.filter_and_smooth_angular_velocity(v, 1, 100.0)),
    ('smooth clipped', 'vel', lambda v: TA.filter_and_smooth_angular_velocity(v, 3, 60.0)),
    ('angular rates', 'quats times', lambda q, t: TA.compute_angular_velocity_norms(q, t, 3, 99.0)),
    ('offset of signals', 'times sig_a sig_b',
     lambda t, a, b: TA.calculate_time_offset_from_signals(t, a, t, b)),
    ('offset', 'times quats fc', lambda t, q, f: TA.calculate_time_offset(t, q, t, q, f)),
    ('re-base', 'hand', lambda h: HE.align_paths_at_index(h, 2)),
    ('eye path', 'hand x w', HE.compute_dual_quaternions_with_offset),
    ('solve', 'rel_h rel_e', lambda a, b: HE.compute_hand_eye_calibration(a, b, 0.01)),
    ('prefilter', 'eyes hand', lambda a, b: HE.prefilter_using_screw_axis(a, b, 0.95)[:2]),
    ('pose error', 'pose pose1', HE.compute_pose_error),
    ('evaluate', 'pa pb cfg', HE.evaluate_alignment),
    ('reconstruct', 'rel_h rel_e x', HE.get_aligned_poses),
    ('exhaustive search', 'hand eyes cfg',
     lambda h, e, c: strip(HE.compute_hand_eye_calibration_RANSAC(h, e, c))),
    ('filtered exhaustive search', 'hand eyes cfg3',
     lambda h, e, c: strip(HE.compute_hand_eye_calibration_RANSAC(h, e, c))),
    ('baseline search', 'hand eyes cfg',
     lambda h, e, c: strip(HE.compute_hand_eye_calibration_BASELINE(h, e, c))),
    ('evaluate recordings', 'A B x cfg', lambda a, b, x, c: CV.evaluate_calibration(a, b, x, 0.0, c)),
    ('loop error', 'chain', lambda c: CV.compute_loop_error(c, 3)),
    ('calibration product', 'e1 e2', lambda a, b: a * b),
    ('calibration file', 'e1', lambda e: json_trip(None, e, False)),
    ('calibration JPL file', 'e2', lambda e: json_trip(None, e, True)),
    ('pose file', 'A', lambda a: save_load(None, 'a.csv', a, CSV.write_time_stamped_poses_to_csv_file,
                                           CSV.read_time_stamped_poses_from_csv_file)),
    ('array file', 'pa', lambda a: save_load(None, 'b.csv', a, CSV.write_double_numpy_array_to_csv_file,
                                             BU.readArrayFromCsv)),
    ('preset', '', lambda: AC.get_RANSAC_classic_config(True)),
    ('other preset', '', lambda: AC.get_baseline_config(False)),
]
NAMES = [n for n, _, _ in OPS]


def strip(result):
  """Everything but the run time."""
  return list(result[:5]) + list(result[6:])


def freeze(v):
  """Nested plain value of a result or input object."""
  if isinstance(v, Quaternion):
    return ('q', v.q.tolist())
  if isinstance(v, DualQuaternion):
    return ('dq', v.dq.tolist())
  if isinstance(v, ExtrinsicCalibration):
    return ('e', float(v.time_offset), freeze(v.pose_dq))
  if isinstance(v, np.ndarray):
    return ('a', v.shape, v.ravel().tolist())
  if isinstance(v, (list, tuple)):
    return ('l',) + tuple(freeze(e) for e in v)
  if isinstance(v, (bool, np.bool_)):
    return bool(v)
  if isinstance(v, (int, float, np.number)):
    return float(v)
  if v is None or isinstance(v, str):
    return v
  return ('o', type(v).__name__, tuple((k, freeze(x)) for k, x in sorted(vars(v).items())))


def alike(a, b, tol=1e-9):
  """Equal up to rounding, quaternion sign and scale of unnormalised poses."""
  if isinstance(a, float) and isinstance(b, float):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a)) or (a != a and b != b)
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    if len(a) != len(b):
      return False
    if a and a[0] in ('q', 'dq') and b[0] == a[0]:
      x, y = np.array(a[1]), np.array(b[1])
      n, m = np.linalg.norm(x[:4]), np.linalg.norm(y[:4])
      if a[0] == 'dq' and n > 0 and m > 0:
        x, y = x / n, y / m
      return bool(np.allclose(x, y, 0, tol) or np.allclose(x, -y, 0, tol))
    return all(alike(x, y, tol) for x, y in zip(a, b))
  return a == b


def disturb(v, seen=None):
  """Change everything reachable from v in place (True if anything could be)."""
  seen = set() if seen is None else seen
  if id(v) in seen:
    return False
  seen.add(id(v))
  if isinstance(v, Quaternion):
    v.q += 0.375
    return True
  if isinstance(v, DualQuaternion):
    v.dq += 0.375
    return True
  if isinstance(v, ExtrinsicCalibration):
    v.time_offset += 1
    return disturb(v.pose_dq, seen)
  if isinstance(v, np.ndarray):
    if not v.flags.writeable:
      return False
    v += 0.375 if v.dtype.kind == 'f' else 1
    return True
  if isinstance(v, (list, tuple)):
    changed = False
    for e in v:
      changed = disturb(e, seen) or changed
    if isinstance(v, list):
      v.append('changed')
      changed = True
    return changed
  if v is None or isinstance(v, (bool, int, float, str, np.generic)):
    return False
  for k, x in list(vars(v).items()):
    if isinstance(x, bool):
      setattr(v, k, not x)
    elif isinstance(x, (int, float)):
      setattr(v, k, x + 7)
  return True


def apply(w, i):
  name, inputs, f = OPS[i]
  return f(*[w[k] for k in inputs.split()])


def start_worker(wid, n):
  global DIR, BASE
  DIR = core.scratch()
  # Every operation alone in its own process.
  BASE = []
  for i in range(len(OPS)):
    r, s = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(r)
        try:
          data = ('ok', freeze(apply(world(), i)))
        except Exception as e:
          data = ('error', '{}: {!r}'.format(OPS[i][0], e))
        with os.fdopen(s, 'wb') as f:
          pickle.dump(data, f)
      finally:
        os._exit(0)
    os.close(s)
    with os.fdopen(r, 'rb') as f:
      BASE.append(pickle.load(f))
    os.waitpid(pid, 0)


def cases(tier):
  for f in range(len(OPS)):
    for g in range(len(OPS)):
      yield dict(f=f, g=g)
  if tier == 'thorough':
    for f in range(0, 72, 3):
      for g in range(len(OPS)):
        yield dict(f=f, g=g, third=True)


class History(object):
  """Runs operations on one world and watches everything handed out so far."""

  def __init__(self, rec):
    self.w = world()
    self.rec = rec
    self.trace = []
    self.inputs = {k: freeze(v) for k, v in self.w.items()}
    self.results = []
    self.touched = set()

  def call(self, i):
    self.trace.append(OPS[i][0])
    out = apply(self.w, i)
    value = freeze(out)
    if not (self.touched & set(OPS[i][1].split())):
      check(BASE[i][0] == 'ok', '{}', BASE[i][1])
      check(alike(value, BASE[i][1]), '{}: result {} instead of {} in a fresh process',
            self.trace, str(value)[:300], str(BASE[i][1])[:300])
    self.results.append([out, value])
    self.rec.step()
    self.inspect()
    return len(self.results) - 1

  def change_input(self, k):
    self.trace.append('change ' + k)
    disturb(self.w[k])
    self.touched.add(k)
    self.inputs[k] = freeze(self.w[k])
    self.rec.step()
    self.inspect()

  def change_result(self, j):
    self.trace.append('change result {}'.format(j))
    changed = disturb(self.results[j][0])
    self.results[j][1] = freeze(self.results[j][0])
    self.rec.step()
    self.inspect()
    return changed

  def change_element(self, j, e):
    out, before = self.results[j]
    self.trace.append('change element {} of result {}'.format(e, j))
    disturb(out[e])
    after = freeze(out)
    rest = [n for n in range(len(out)) if n != e]
    check(all(after[1 + n] == before[1 + n] for n in rest),
          '{}: another element of the result changed as well', self.trace)
    self.results[j][1] = after
    self.rec.step()
    self.inspect()

  def inspect(self):
    for k, v in self.inputs.items():
      now = freeze(self.w[k])
      check(alike(now, v), '{}: input {} changed from {} to {}', self.trace, k, str(v)[:300],
            str(now)[:300])
      # Later comparisons start from what the caller sees now (sign, scale).
      self.inputs[k] = now
    for j, (out, v) in enumerate(self.results):
      check(alike(freeze(out), v), '{}: result {} changed to {}', self.trace, j,
            str(freeze(out))[:300])


def run(case, rec):
  f, g = case['f'], case['g']
  changes = [None, 'result', 'element'] + OPS[f][1].split()
  for change in changes:
    thirds = [None]
    if case.get('third'):
      thirds = list(range(len(OPS)))
    for third in thirds:
      h = History(rec)
      j = h.call(f)
      if change == 'result':
        if not h.change_result(j):
          continue
      elif change == 'element':
        out = h.results[j][0]
        if not (isinstance(out, list) and len(out) > 1):
          continue
        h.change_element(j, 0)
      elif change is not None:
        h.change_input(change)
      # Calls whose inputs no longer are valid poses may be refused.
      if not (h.touched & set(OPS[g][1].split())):
        k = h.call(g)
        if third is None or third == f:
          h.change_result(k)
          if not (h.touched & set(OPS[f][1].split())):
            h.call(f)
      if third is not None and not (h.touched & set(OPS[third][1].split())):
        h.call(third)
      rec.state((h.trace, [v for _, v in h.results]))
      rec.outcome('change ' + (change if change in (None, 'result', 'element') else 'input')
                  if change else 'calls only')
