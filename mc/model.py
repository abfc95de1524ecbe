"""Reference mathematics used by the oracles.

Everything is expressed with rotation matrices and 4x4 matrices and shares no
code with /repo.
"""
import itertools
import math

import numpy as np

PI = math.pi


def quat_to_rot(q):
  """Rotation matrix of the (not necessarily unit) quaternion [x y z w]."""
  q = np.asarray(q, dtype=float)
  n = math.sqrt(float(np.dot(q, q)))
  x, y, z, w = [float(e) / n for e in q]
  v = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]], dtype=float)
  return np.eye(3) + 2.0 * w * v + 2.0 * v.dot(v)


def rodrigues(axis, angle):
  a = np.asarray(axis, dtype=float)
  a = a / math.sqrt(float(np.dot(a, a)))
  k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
  return np.eye(3) + math.sin(angle) * k + (1.0 - math.cos(angle)) * k.dot(k)


def axis_angle_quat(axis, angle):
  a = np.asarray(axis, dtype=float)
  n = math.sqrt(float(np.dot(a, a)))
  s = math.sin(angle / 2.0)
  return np.array([a[0] / n * s, a[1] / n * s, a[2] / n * s,
                   math.cos(angle / 2.0)])


def rot_to_quat(r):
  """Quaternion (x, y, z, w) of a rotation matrix, as dominant eigenvector."""
  k = np.array([
      [r[0, 0] - r[1, 1] - r[2, 2], r[0, 1] + r[1, 0], r[0, 2] + r[2, 0], r[2, 1] - r[1, 2]],
      [r[0, 1] + r[1, 0], r[1, 1] - r[0, 0] - r[2, 2], r[1, 2] + r[2, 1], r[0, 2] - r[2, 0]],
      [r[0, 2] + r[2, 0], r[1, 2] + r[2, 1], r[2, 2] - r[0, 0] - r[1, 1], r[1, 0] - r[0, 1]],
      [r[2, 1] - r[1, 2], r[0, 2] - r[2, 0], r[1, 0] - r[0, 1], r[0, 0] + r[1, 1] + r[2, 2]]])
  q = np.linalg.eigh(k)[1][:, -1]
  return -q if q[3] < 0 else q


def rot_angle(r):
  """Angle in [0, pi] of a rotation matrix, accurate everywhere."""
  r = np.asarray(r, dtype=float)
  s = 0.5 * math.sqrt((r[2, 1] - r[1, 2])**2 + (r[0, 2] - r[2, 0])**2 +
                      (r[1, 0] - r[0, 1])**2)
  c = 0.5 * (r[0, 0] + r[1, 1] + r[2, 2] - 1.0)
  return math.atan2(s, c)


def geodesic(ra, rb):
  return rot_angle(np.asarray(ra).T.dot(np.asarray(rb)))


def T(r, t):
  m = np.eye(4)
  m[:3, :3] = r
  m[:3, 3] = t
  return m


def T_pose(pose):
  """4x4 matrix of [x y z qx qy qz qw]."""
  return T(quat_to_rot(pose[3:7]), pose[0:3])


def inv(m):
  r = m[:3, :3].T
  out = np.eye(4)
  out[:3, :3] = r
  out[:3, 3] = -r.dot(m[:3, 3])
  return out


def qmul(a, b):
  """Hamilton product via the left multiplication matrix."""
  x, y, z, w = a
  left = np.array([[w, -z, y, x], [z, w, -x, y], [-y, x, w, z],
                   [-x, -y, -z, w]])
  return left.dot(np.asarray(b))


def close(a, b, tol=1e-9):
  a = np.asarray(a, dtype=float)
  b = np.asarray(b, dtype=float)
  if a.shape != b.shape or not (np.isfinite(a).all() and np.isfinite(b).all()):
    return False
  if a.size == 0:
    return True
  return bool(np.max(np.abs(a - b)) <= tol)


def close_scaled(a, b, tol=1e-9):
  """close() with the tolerance scaled by the magnitude of b."""
  b = np.asarray(b, dtype=float)
  scale = max(1.0, float(np.max(np.abs(b)))) if b.size else 1.0
  return close(a, b, tol * scale)


def same_rotation(qa, qb, tol=1e-9):
  """Do two quaternions (any sign, any scale) represent the same rotation?"""
  qa = np.asarray(qa, dtype=float)
  qb = np.asarray(qb, dtype=float)
  if not (np.isfinite(qa).all() and np.isfinite(qb).all()):
    return False
  na, nb = np.linalg.norm(qa), np.linalg.norm(qb)
  if na == 0 or nb == 0:
    return False
  qa, qb = qa / na, qb / nb
  return bool(min(np.max(np.abs(qa - qb)), np.max(np.abs(qa + qb))) <= tol)


def octahedral_rotations():
  """The 24 rotation matrices with entries in {-1, 0, 1}, exact integers."""
  out = []
  for perm in itertools.permutations(range(3)):
    for signs in itertools.product((1, -1), repeat=3):
      m = np.zeros((3, 3), dtype=int)
      for i, p in enumerate(perm):
        m[i, p] = signs[i]
      d = (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) -
           m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0]) +
           m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
      if d == 1:
        out.append(m)
  return out


def octahedral_quaternions():
  """The 48 unit quaternions of the binary octahedral group."""
  out = []
  h = math.sqrt(0.5)
  for i in range(4):
    for s in (1.0, -1.0):
      q = [0.0] * 4
      q[i] = s
      out.append(tuple(q))
  for signs in itertools.product((0.5, -0.5), repeat=4):
    out.append(tuple(signs))
  for i, j in itertools.combinations(range(4), 2):
    for si, sj in itertools.product((h, -h), repeat=2):
      q = [0.0] * 4
      q[i], q[j] = si, sj
      out.append(tuple(q))
  assert len(out) == 48
  return out


# Directions: the 13 axes of the cube, a few generic and nearly degenerate ones.
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (1, 0, 1),
        (1, 0, -1), (0, 1, 1), (0, 1, -1), (1, 1, 1), (1, 1, -1), (1, -1, 1),
        (-1, 1, 1)]
GENERIC_AXES = [(1, 2, 3), (-3, 1, 2), (0.2, -0.9, 0.4), (-1, -1, -1),
                (1, 1e-7, 0), (1e-3, -1, 1e-3)]


def slerp_rot(qa, qb, f):
  """Rotation matrix on the shortest arc from qa to qb at fraction f."""
  ra, rb = quat_to_rot(qa), quat_to_rot(qb)
  rel = rb.dot(ra.T)
  angle = rot_angle(rel)
  if angle < 1e-15:
    return ra
  s = np.array([rel[2, 1] - rel[1, 2], rel[0, 2] - rel[2, 0], rel[1, 0] - rel[0, 1]])
  n = np.linalg.norm(s)
  if n == 0:
    raise ValueError('slerp across a half turn')
  return rodrigues(s / n, f * angle).dot(ra)


def interpolate(times, poses, t):
  """Reference resampling: (position, rotation matrix) at time t, or None."""
  times = [float(x) for x in times]
  if t < times[0] or t > times[-1]:
    return None
  for i, ti in enumerate(times):
    if t == ti:
      return np.array(poses[i][:3], float), quat_to_rot(poses[i][3:7])
  for i in range(len(times) - 1):
    if times[i] < t < times[i + 1]:
      f = (t - times[i]) / (times[i + 1] - times[i])
      a, b = np.array(poses[i], float), np.array(poses[i + 1], float)
      return a[:3] + f * (b[:3] - a[:3]), slerp_rot(a[3:7], b[3:7], f)


def interpolations(times, poses, t):
  """All poses a stream with repeated stamps may have at time t."""
  same = [i for i, ti in enumerate(times) if t == float(ti)]
  if same:
    return [(np.array(poses[i][:3], float), quat_to_rot(poses[i][3:7])) for i in same]
  return [interpolate(times, poses, t)]


# A list of poses with moderate relative motions and both quaternion signs.
def stream_pose(i, signs=0, scale=1.0):
  axis = [(1, 2, 3), (-3, 1, 2), (0, 0, 1), (1, -1, 0), (0.2, -0.9, 0.4), (1, 1, 1),
          (0, 1, 0)][i % 7]
  angle = [0.3, 0.9, 2.0, 0.0, 1.3, 2.9, 4.5, 0.7][i % 8]
  q = axis_angle_quat(axis, angle)
  if signs == 1 and i % 2 or signs == 2 or signs == 3 and (i // 2) % 2:
    q = -q
  t = [0.3 * i, -0.5 + 0.2 * i * i, [1.0, -2.0, 0.25][i % 3]]
  return np.array([scale * t[0], scale * t[1], scale * t[2]] + list(q))
