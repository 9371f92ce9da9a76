"""Reference mathematics, independent of the code under test.

Quaternions are arrays x, y, z, w; poses are arrays x, y, z, qx, qy, qz, qw.
"""
import math

import numpy as np

# Multiplication table of the basis (i, j, k, 1): _TABLE[a][b] = (sign, index).
_TABLE = [
    [(-1, 3), (1, 2), (-1, 1), (1, 0)],
    [(-1, 2), (-1, 3), (1, 0), (1, 1)],
    [(1, 1), (-1, 0), (-1, 3), (1, 2)],
    [(1, 0), (1, 1), (1, 2), (1, 3)],
]


def qmul(a, b):
  out = np.zeros(4)
  for i in range(4):
    for j in range(4):
      sign, k = _TABLE[i][j]
      out[k] += sign * a[i] * b[j]
  return out


def qconj(q):
  return np.array([-q[0], -q[1], -q[2], q[3]])


def qinv(q):
  q = np.asarray(q, dtype=float)
  return qconj(q) / np.dot(q, q)


def qunit(q):
  q = np.asarray(q, dtype=float)
  return q / np.linalg.norm(q)


def skew(v):
  return np.array([[0., -v[2], v[1]], [v[2], 0., -v[0]], [-v[1], v[0], 0.]])


def rodrigues(angle, axis):
  """Rotation matrix of a rotation about a unit axis."""
  axis = np.asarray(axis, dtype=float)
  k = skew(axis)
  return np.eye(3) + math.sin(angle) * k + (1. - math.cos(angle)) * k.dot(k)


def q_from_angle_axis(angle, axis):
  axis = np.asarray(axis, dtype=float)
  axis = axis / np.linalg.norm(axis)
  return np.append(math.sin(angle / 2.) * axis, math.cos(angle / 2.))


def rot(q):
  """Rotation matrix of a quaternion of any positive norm, as p -> q p q^-1."""
  q = qunit(q)
  columns = []
  for e in np.eye(3):
    columns.append(qmul(qmul(q, np.append(e, 0.)), qconj(q))[0:3])
  return np.array(columns).T


def angle_of(q):
  """Rotation angle in [0, pi] of a quaternion, accurate for all angles."""
  return 2. * math.atan2(np.linalg.norm(q[0:3]), abs(q[3]))


def angle_between(a, b):
  return angle_of(qmul(qunit(a), qconj(qunit(b))))


def matrix_angle(R):
  v = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2.
  return math.atan2(np.linalg.norm(v), (np.trace(R) - 1.) / 2.)


def same_rotation(a, b):
  """Distance of two quaternions as rotations (sign does not matter)."""
  a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
  return min(np.linalg.norm(a - b), np.linalg.norm(a + b))


def slerp(a, b, f):
  """Shortest constant-rate rotation from a to b at fraction f."""
  a, b = qunit(a), qunit(b)
  d = qmul(qconj(a), b)
  if d[3] < 0.:
    d = -d
  n = np.linalg.norm(d[0:3])
  if n < 1e-15:
    return a
  half = math.atan2(n, d[3]) * f
  return qmul(a, np.append(math.sin(half) * d[0:3] / n, math.cos(half)))


def mat(pose):
  """4x4 matrix of a pose."""
  T = np.eye(4)
  T[0:3, 0:3] = rot(pose[3:7])
  T[0:3, 3] = pose[0:3]
  return T


def inv(T):
  out = np.eye(4)
  out[0:3, 0:3] = T[0:3, 0:3].T
  out[0:3, 3] = -T[0:3, 0:3].T.dot(T[0:3, 3])
  return out


def pose_mul(a, b):
  """Composition of two poses."""
  q = qmul(qunit(a[3:7]), qunit(b[3:7]))
  t = rot(a[3:7]).dot(np.asarray(b[0:3], dtype=float)) + np.asarray(a[0:3], dtype=float)
  return np.append(t, q)


def pose_inv(a):
  q = qconj(qunit(a[3:7]))
  return np.append(-rot(q).dot(np.asarray(a[0:3], dtype=float)), q)


def pose_positive(a):
  a = np.array(a, dtype=float)
  a[3:7] = qunit(a[3:7])
  if a[6] < 0.:
    a[3:7] *= -1.
  return a


def dq_components(pose):
  """Unit dual quaternion components of a pose: q and t q / 2."""
  q = qunit(pose[3:7])
  return np.append(q, 0.5 * qmul(np.append(np.asarray(pose[0:3], dtype=float), 0.), q))


def pose_from_dq(c):
  """Pose of dual quaternion components of any positive scale."""
  c = np.asarray(c, dtype=float)
  n = np.linalg.norm(c[0:4])
  q, d = c[0:4] / n, c[4:8] / n
  return np.append(2. * qmul(d, qconj(q))[0:3], q)


def mat_from_dq(c):
  return mat(pose_from_dq(c))


def align(poses, index):
  """Poses relative to poses[index], cyclically starting there."""
  base = pose_inv(poses[index])
  n = len(poses)
  return [pose_mul(base, poses[(index + k) % n]) for k in range(n)]


def pose_error(a, b):
  """Position distance and rotation angle in degrees."""
  return (float(np.linalg.norm(np.asarray(a[0:3], dtype=float) - np.asarray(b[0:3], dtype=float))),
          math.degrees(angle_between(a[3:7], b[3:7])))


def transform_error(Ta, Tb):
  D = inv(Ta).dot(Tb)
  return float(np.linalg.norm(Ta[0:3, 3] - Tb[0:3, 3])), math.degrees(matrix_angle(D[0:3, 0:3]))


def scalar_part(pose):
  """Scalar components (rotation, dual) of the dual quaternion with w >= 0."""
  c = dq_components(pose_positive(pose))
  return np.array([c[3], c[7]])


def screw(pose):
  """Axis, angle in degrees and translation along the axis for w >= 0."""
  p = pose_positive(pose)
  n = np.linalg.norm(p[3:6])
  if n == 0.:
    d = np.linalg.norm(p[0:3])
    return (p[0:3] / d if d > 0. else np.zeros(3)), 0., d
  axis = p[3:6] / n
  return axis, math.degrees(angle_of(p[3:7])), float(np.dot(axis, p[0:3]))


def t_matrix(poses_a, poses_b):
  """The 6n x 8 system of Daniilidis for a X = X b, in x, y, z, w order."""
  rows = []
  for a, b in zip(poses_a, poses_b):
    ca, cb = dq_components(pose_positive(a)), dq_components(pose_positive(b))
    s = np.zeros((6, 8))
    s[0:3, 0:3] = skew(ca[0:3] + cb[0:3])
    s[0:3, 3] = ca[0:3] - cb[0:3]
    s[3:6, 0:3] = skew(ca[4:7] + cb[4:7])
    s[3:6, 3] = ca[4:7] - cb[4:7]
    s[3:6, 4:8] = s[0:3, 0:4]
    rows.append(s)
  return np.vstack(rows)
