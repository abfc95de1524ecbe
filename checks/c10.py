"""Re-basing trajectories and deriving the eye trajectory."""
import itertools

import numpy as np

from mc import model as M
from mc.core import check

from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration import dual_quaternion_hand_eye_calibration as HE

ID = 'C10'
BOUND = {
    'quick': 'all trajectories of 1 to 4 poses over 6 poses x all quaternion sign patterns x '
             'all base indices x both sign options; trajectories of 5 to 12 poses x all '
             'bases; derived eye trajectories for 8 hand-eye x 6 base-world transforms',
    'thorough': 'as quick with trajectories of up to 5 poses'}
MIN_OUTCOMES = 4

POSES = [((0, 0, 1), 0.0, (0, 0, 0)), ((1, 0, 0), M.PI / 2, (1, 0, -1)),
         ((0, 1, 0), M.PI, (0, 2, 0.5)), ((1, 2, 3), 2.4, (0.3, -0.2, 10)),
         ((-3, 1, 2), 0.01, (1e3, 0, 1e-3)), ((0, -1, 1), 3.1, (0, 0, -4))]
OFFS = [((0, 0, 1), 0.0, (0, 0, 0)), ((1, 0, 0), M.PI, (0, 0, 0)), ((0, 0, 1), 1.0, (0, 0, 0)),
        ((0, 1, 0), 0.0, (1, 2, 3)), ((1, 1, 1), -2 * M.PI / 3, (0.1, 0, -0.2)),
        ((1, 2, 3), 5.5, (-3, 0.5, 0.25)), ((-1, 0, 1), 3.1, (0, 0, 100)), ((0, 1, 0), M.PI, (1, 0, 0))]


def dq_vec(p, sign=1):
  axis, angle, t = p
  q = sign * M.axis_angle_quat(axis, angle)
  return np.hstack((q, 0.5 * M.qmul(tuple(t) + (0.0,), q)))


def mat(p):
  return M.T(M.rodrigues(p[0], p[1]), p[2])


def cases(tier):
  top = 5 if tier == 'thorough' else 4
  for n in range(1, top + 1):
    for idx in itertools.product(range(len(POSES)), repeat=n):
      yield dict(k='align', idx=idx)
  for n in range(5, 13):
    for seed in range(6):
      yield dict(k='long', n=n, seed=seed)
  for n in range(0, 4):
    for idx in itertools.product(range(len(POSES)), repeat=n):
      yield dict(k='offset', idx=idx)


def align(vecs, mats, base, positive, rec, what):
  objs = [DualQuaternion.from_vector(v) for v in vecs]
  if positive is None:
    out = HE.align_paths_at_index(objs, base) if base else HE.align_paths_at_index(objs)
    positive = True
  else:
    out = HE.align_paths_at_index(objs, align_index=base, enforce_positive_q_rot_w=positive)
  n = len(vecs)
  check(len(out) == n, '{}: {} results', what, len(out))
  for o, v in zip(objs, vecs):
    check(np.array_equal(o.dq, v), '{}: input modified', what)
  ib = M.inv(mats[base])
  qb = vecs[base][:4]
  far = max(1.0, max(np.abs(m).max() for m in mats))
  for k in range(n):
    src = (base + k) % n
    want = ib.dot(mats[src])
    got = out[k].copy().to_matrix()
    check(M.close(got, want, 1e-9 * far), '{}: element {} is {} instead of {}', what, k,
          got.tolist(), want.tolist())
    q = M.qmul((-qb[0], -qb[1], -qb[2], qb[3]), vecs[src][:4])
    if positive:
      check(out[k].q_rot.w >= 0.0, '{}: element {} has scalar part {}', what, k, out[k].q_rot.w)
    else:
      check(M.close(out[k].q_rot.q, q, 1e-9), '{}: element {} quaternion {} instead of {}', what, k,
            out[k].q_rot.q.tolist(), q.tolist())
    check(abs(out[k].norm()[0] - 1) < 1e-9, '{}: element {} not unit', what, k)
  check(M.close(out[0].dq, [0, 0, 0, 1, 0, 0, 0, 0], 1e-8), '{}: first element {}', what,
        out[0].dq.tolist())
  rec.step(n)
  return out


def run(case, rec):
  if case['k'] == 'align':
    idx = case['idx']
    mats = [mat(POSES[i]) for i in idx]
    for signs in itertools.product((1, -1), repeat=len(idx)):
      vecs = [dq_vec(POSES[i], s) for i, s in zip(idx, signs)]
      for base in range(len(idx)):
        for positive in (True, False, None):
          what = 'poses {} signs {} base {} positive {}'.format(idx, signs, base, positive)
          out = align(vecs, mats, base, positive, rec, what)
        rec.state([o.dq for o in out])
    rec.outcome('length %d' % len(idx))
  elif case['k'] == 'long':
    n, seed = case['n'], case['seed']
    idx = [(i * (seed + 1) + i * i) % len(POSES) for i in range(n)]
    signs = [1 if (i * (seed + 3)) % 5 < 3 else -1 for i in range(n)]
    mats = [mat(POSES[i]) for i in idx]
    vecs = [dq_vec(POSES[i], s) for i, s in zip(idx, signs)]
    for base in range(n):
      for positive in (True, False, None):
        out = align(vecs, mats, base, positive, rec, 'long {} base {}'.format(case, base))
      # Re-basing again at any element gives the same relative motions.
      back = HE.align_paths_at_index(out, (n - base) % n)
      first = mats[0]
      for k in range(n):
        check(M.close(back[k].copy().to_matrix(), M.inv(first).dot(mats[k]), 1e-6),
              'long {}: re-based twice, element {}', case, k)
      rec.step(n)
      rec.state([o.dq for o in out])
    rec.outcome('long')
  else:
    idx = case['idx']
    for h, x in enumerate(OFFS):
      for w in OFFS[:6]:
        for sign in (1, -1):
          vecs = [dq_vec(POSES[i], sign if k % 2 else 1) for k, i in enumerate(idx)]
          objs = [DualQuaternion.from_vector(v) for v in vecs]
          dx = DualQuaternion.from_vector(dq_vec(x, sign))
          dw = DualQuaternion.from_vector(dq_vec(w, -sign))
          kx, kw = dx.dq.copy(), dw.dq.copy()
          out = HE.compute_dual_quaternions_with_offset(objs, dx, dw)
          what = 'offset poses {} X {} W {} sign {}'.format(idx, x, w, sign)
          check(len(out) == len(idx), '{}: {} results', what, len(out))
          for k, o in enumerate(out):
            want = M.inv(mat(w)).dot(mat(POSES[idx[k]])).dot(mat(x))
            check(M.close_scaled(o.copy().to_matrix(), want, 1e-9), '{}: element {}', what, k)
            check(bool(abs(o.norm()[0] - 1) < 1e-8), '{}: element {} not unit', what, k)
          check(np.array_equal(dx.dq, kx) and np.array_equal(dw.dq, kw) and
                all(np.array_equal(o.dq, v) for o, v in zip(objs, vecs)), '{}: input modified', what)
          rec.step(len(idx) + 1)
          rec.state((idx, h, w, [np.abs(o.dq) for o in out]))
    rec.outcome('eye trajectory')
