"""Trajectories for hand-eye calibration, built from a seed and a few parameters."""
import math

import numpy as np

from hec import gen, ref


def hand_path(rng, n, scale=1., max_angle=math.radians(170.), min_angle=0., still=0):
  """n poses whose rotations relative to the first are at most max_angle.

  The first pose is the identity, the second and third rotate by 40 to 120 degrees
  about axes that are 40 to 140 degrees apart.
  """
  poses = [np.array([0., 0., 0., 0., 0., 0., 1.])]
  first = gen.random_unit(rng)
  other = gen.random_unit(rng)
  other -= np.dot(first, other) * first
  other /= np.linalg.norm(other)
  spread = math.radians(rng.uniform(40., 140.))
  second = math.cos(spread) * first + math.sin(spread) * other
  for axis in (first, second):
    q = ref.q_from_angle_axis(math.radians(rng.uniform(40., 120.)), axis)
    poses.append(np.append(rng.uniform(-scale, scale, 3), q))
  for i in range(n - 3):
    poses.append(gen.random_pose(rng, max_angle, scale, min_angle))
  return poses[:n]


def eye_path(hand, X):
  """Eye poses relative to the first for hand poses relative to the first."""
  Xi = ref.pose_inv(X)
  return [ref.pose_mul(ref.pose_mul(Xi, h), X) for h in hand]
