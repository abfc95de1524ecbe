"""Rig trajectories shared by the calibration checks (harness side only)."""
import itertools
import math

import numpy as np

from mc import model as M


def dq_vec(q, t):
  return np.hstack((np.asarray(q, float), 0.5 * M.qmul((t[0], t[1], t[2], 0.0), q)))


class Pose(object):
  """A pose of the reference model with a definite quaternion sign."""

  def __init__(self, q, t):
    self.q = np.asarray(q, float) / np.linalg.norm(q)
    self.t = np.asarray(t, float)

  @classmethod
  def aa(cls, axis, angle, t):
    return cls(M.axis_angle_quat(axis, angle), t)

  def __mul__(self, o):
    return Pose(M.qmul(self.q, o.q), self.t + M.quat_to_rot(self.q).dot(o.t))

  def inv(self):
    q = self.q * np.array([-1, -1, -1, 1.0])
    return Pose(q, -M.quat_to_rot(q).dot(self.t))

  def neg(self):
    return Pose(-self.q, self.t)

  def positive(self):
    return self.neg() if self.q[3] < 0 else self

  @property
  def mat(self):
    return M.T(M.quat_to_rot(self.q), self.t)

  @property
  def vec(self):
    return dq_vec(self.q, self.t)

  def dq(self):
    from hand_eye_calibration.dual_quaternion import DualQuaternion
    return DualQuaternion.from_vector(self.vec)

  def scalars(self):
    """Scalar parts (cos of half angle, dual scalar) of the signed representative."""
    v = self.vec
    return v[3], v[7]


IDENTITY = Pose((0, 0, 0, 1), (0, 0, 0))


def same_transform(dq, pose, tol=1e-6):
  return M.close(dq.copy().to_matrix(), pose.mat, tol * max(1.0, np.abs(pose.t).max()))


def unit_positive(dq):
  return abs(dq.norm()[0] - 1) < 1e-8 and abs(dq.norm()[1]) < 1e-6 and dq.q_rot.w >= 0


# Absolute hand poses with well separated relative rotation axes.
HAND = [
    Pose.aa((0.3, 0.1, 1.0), 0.2, (0.1, 0.0, 0.2)),
    Pose.aa((1.0, 0.2, -0.1), 0.9, (0.5, -0.2, 0.1)),
    Pose.aa((0.1, 1.0, 0.3), -0.8, (-0.1, 0.4, 0.3)),
    Pose.aa((-0.2, 0.4, 1.0), 1.3, (0.3, 0.3, -0.4)),
    Pose.aa((1.0, 1.0, 0.1), -1.1, (-0.4, 0.1, 0.5)),
    Pose.aa((1.0, -0.7, 0.8), 0.7, (0.2, -0.5, 0.0)),
    Pose.aa((-0.3, 1.0, -1.0), 1.2, (0.6, 0.2, 0.4)),
    Pose.aa((0.9, 0.1, 1.0), -1.5, (-0.2, -0.3, 0.6)),
]

HAND_EYES = [
    Pose.aa((1, 2, 3), 0.7, (0.1, -0.2, 0.3)),
    Pose.aa((0, 0, 1), 0.0, (0, 0, 0)),
    Pose.aa((1, 0, 0), M.PI / 2, (0.0, 0.0, 0.0)),
    Pose.aa((0, 1, 0), 0.0, (0.3, 0.1, -0.5)),
    Pose.aa((-1, 1, 2), 2.6, (-0.4, 0.05, 0.2)),
]

BASE_WORLDS = [IDENTITY, Pose.aa((1, -2, 1), 2.1, (3.0, -1.0, 0.5))]


def eye(hand, x, w):
  """Eye poses W_E = W_B * B_H * H_E with w the base-world transform."""
  return [w.inv() * h * x for h in hand]


# Gross outliers: right-multiplied onto the eye pose.
OUTLIERS = [
    Pose.aa((0.5, -1.0, 0.3), 1.9, (1.5, -2.0, 1.0)),
    Pose.aa((-1.0, 0.2, 0.9), 2.3, (-2.0, 1.2, 2.4)),
    Pose.aa((0.3, 0.9, 1.0), -2.6, (2.2, 2.1, -1.1)),
    Pose.aa((1.0, 0.6, -0.4), 1.3, (-1.7, 2.6, 0.4)),
]


def relative(poses, i, j):
  return (poses[i].inv() * poses[j]).positive()


def scalar_gap(hand, eyes, i, j):
  """Mismatch of the scalar parts of the relative motion i -> j."""
  a, b = relative(hand, i, j).scalars(), relative(eyes, i, j).scalars()
  return max(abs(a[0] - b[0]), abs(a[1] - b[1]))


def screw_dir(p):
  """Signed screw axis direction of a pose (None if motion-free)."""
  n = np.linalg.norm(p.q[:3])
  if n > 1e-9:
    return p.q[:3] / n
  t = np.linalg.norm(p.t)
  if t > 1e-9:
    return p.t / t
  return None


def prefilter(eyes, hand, threshold):
  """Reference prefilter: indices kept."""
  kept = []
  for i in range(len(eyes)):
    a, b = screw_dir(eyes[i]), screw_dir(hand[i])
    if a is None or b is None:
      continue
    if any(a.dot(screw_dir(eyes[k])) > threshold or b.dot(screw_dir(hand[k])) > threshold
           for k in kept):
      continue
    kept.append(i)
  return kept


def degenerate(hand, sample):
  """True if the relative rotations of the sample share one axis (nearly)."""
  axes = []
  for j in sample[1:]:
    r = relative(hand, sample[0], j)
    n = np.linalg.norm(r.q[:3])
    if n > 0.05:
      axes.append(r.q[:3] / n)
  for a, b in itertools.combinations(axes, 2):
    if np.linalg.norm(np.cross(a, b)) > 0.3:
      return False
  return True


def evaluate(hand, eyes, x):
  """True per-pose errors after expressing both paths relative to their first.

  hand, eyes: lists of Pose, x: Pose (or object with .mat).
  Returns (position errors, orientation errors in degrees).
  """
  h = [M.inv(hand[0].mat).dot(p.mat) for p in hand]
  xi = M.inv(x.mat)
  e = [p.mat.dot(xi) for p in eyes]
  e = [M.inv(e[0]).dot(m) for m in e]
  pos = [float(np.linalg.norm(a[:3, 3] - b[:3, 3])) for a, b in zip(h, e)]
  rot = [math.degrees(M.geodesic(a[:3, :3], b[:3, :3])) for a, b in zip(h, e)]
  return pos, rot


def rmse(v):
  return math.sqrt(sum(x * x for x in v) / len(v))
