"""The functions of tf.transformations that the repository uses (x, y, z, w order)."""
import math

import numpy as np


def quaternion_matrix(q):
  q = np.array(q, dtype=float)
  x, y, z, w = q / np.linalg.norm(q)
  m = np.eye(4)
  m[0:3, 0:3] = [
      [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
      [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
      [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
  return m


def quaternion_from_matrix(m):
  m = np.asarray(m, dtype=float)
  K = np.array([
      [m[0, 0] - m[1, 1] - m[2, 2], 0., 0., 0.],
      [m[0, 1] + m[1, 0], m[1, 1] - m[0, 0] - m[2, 2], 0., 0.],
      [m[0, 2] + m[2, 0], m[1, 2] + m[2, 1], m[2, 2] - m[0, 0] - m[1, 1], 0.],
      [m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1], np.trace(m[0:3, 0:3])]]) / 3.
  w, V = np.linalg.eigh(K)
  q = V[:, np.argmax(w)]
  return -q if q[3] < 0. else q


def quaternion_multiply(a, b):
  x0, y0, z0, w0 = b
  x1, y1, z1, w1 = a
  return np.array([
      x1 * w0 + y1 * z0 - z1 * y0 + w1 * x0,
      -x1 * z0 + y1 * w0 + z1 * x0 + w1 * y0,
      x1 * y0 - y1 * x0 + z1 * w0 + w1 * z0,
      -x1 * x0 - y1 * y0 - z1 * z0 + w1 * w0])


def quaternion_from_euler(ai, aj, ak, axes='sxyz'):
  def about(i, angle):
    q = np.zeros(4)
    q[i] = math.sin(angle / 2.)
    q[3] = math.cos(angle / 2.)
    return q
  x, y, z = about(0, ai), about(1, aj), about(2, ak)
  if axes == 'rxyz':
    return quaternion_multiply(quaternion_multiply(x, y), z)
  if axes == 'sxyz':
    return quaternion_multiply(quaternion_multiply(z, y), x)
  raise NotImplementedError(axes)


def random_quaternion(rand=None):
  rand = np.random.rand(3) if rand is None else rand
  r1, r2 = math.sqrt(1. - rand[0]), math.sqrt(rand[0])
  t1, t2 = 2. * math.pi * rand[1], 2. * math.pi * rand[2]
  return np.array([math.sin(t1) * r1, math.cos(t1) * r1, math.sin(t2) * r2, math.cos(t2) * r2])


def random_rotation_matrix(rand=None):
  return quaternion_matrix(random_quaternion(rand))


def random_vector(size):
  return np.random.random(size)


def translation_matrix(direction):
  m = np.eye(4)
  m[0:3, 3] = direction[0:3]
  return m
