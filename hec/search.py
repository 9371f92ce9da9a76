"""Data sets and predictions for the calibration searches (RANSAC, exhaustive, baseline)."""
import copy
import itertools
import math
import random

import numpy as np
from hypothesis import strategies as st

from hec import gen, paths, ref
from hec.code import DQ, calibration

IDENTITY = np.array([0., 0., 0., 0., 0., 0., 1.])
ALGORITHMS = ('RC', 'RS', 'EC', 'ES', 'baseline', 'baseline_exhaustive')


class Data(object):
  pass


def small_rotation_pose(rng, max_degrees, scale):
  q = ref.q_from_angle_axis(math.radians(rng.uniform(5., max_degrees)), gen.random_unit(rng))
  return np.append(rng.uniform(-scale, scale, 3), q)


def build(case):
  """Two streams related by X except for the outliers, both starting at the identity.

  Rotations relative to the frame of the first pose are below 85 degrees so that no
  two poses are close to half a turn apart.
  """
  rng = np.random.RandomState(case['seed'])
  data = Data()
  n = case['n']
  data.X = ref.pose_positive(case['X'])
  hand = [IDENTITY] + [small_rotation_pose(rng, 80., case.get('scale', 0.7)) for _ in range(n - 1)]
  eye = [ref.pose_positive(p) for p in paths.eye_path(hand, data.X)]
  noise = case.get('noise', 0.)
  if noise:
    for i in range(1, n):
      eye[i] = ref.pose_positive(ref.pose_mul(eye[i], np.append(
          rng.normal(0., noise, 3), ref.q_from_angle_axis(rng.normal(0., noise), gen.random_unit(rng)))))
  data.outliers = []
  for index in sorted(rng.choice(np.arange(0 if case.get('first_may_be_outlier') else 1, n),
                                 case['outliers'], replace=False)):
    for _ in range(200):
      candidate = small_rotation_pose(rng, 80., case.get('scale', 0.7) + np.linalg.norm(data.X[0:3]))
      if all(_different(hand[index], hand[j], candidate, eye[j]) for j in range(n)
             if j != index and j not in data.outliers):
        break
    eye[index] = ref.pose_positive(candidate)
    data.outliers.append(int(index))
  data.hand, data.eye = hand, eye
  data.inliers = [i for i in range(n) if i not in data.outliers]
  return data


def _different(hand_a, hand_b, eye_a, eye_b):
  """The scalar parts of the two relative motions differ clearly."""
  a = ref.scalar_part(ref.pose_mul(ref.pose_inv(hand_b), hand_a))
  b = ref.scalar_part(ref.pose_mul(ref.pose_inv(eye_b), eye_a))
  return np.max(np.abs(a - b)) > 0.04


def prefilter(hand, eye, threshold):
  """Kept indices, and whether a decision was too close to call."""
  kept, ambiguous = [], False
  axes = [(ref.screw(h)[0], ref.screw(e)[0]) for h, e in zip(hand, eye)]
  for i, (a, b) in enumerate(axes):
    if not np.any(a) or not np.any(b):
      continue
    drop = False
    for j in kept:
      for x, y in ((a, axes[j][0]), (b, axes[j][1])):
        d = np.dot(x, y)
        ambiguous = ambiguous or abs(d - threshold) < 1e-6
        drop = drop or d > threshold
    if not drop:
      kept.append(i)
  return kept, ambiguous


@st.composite
def config(draw, algorithms=ALGORITHMS):
  return {
      'algorithm': draw(st.sampled_from(algorithms)),
      'prefilter': draw(st.booleans()),
      'threshold': draw(gen.pick(0.7, 0.8, 0.9, 0.95)),
      'refine': draw(st.booleans()),
      'on_inliers': draw(st.booleans()),
      'min_inliers': draw(st.integers(4, 8)),
      'early_abort': draw(st.booleans()),
      'iterations': draw(gen.pick(20, 1, 5)),
      'limits': draw(gen.pick([0.02, 1.], [0.02, 1.], [0.03, 1.5], [0.015, 0.7])),
      'tolerance': draw(gen.pick(1e-2, 1e-2, 2e-2)),
      'sample': draw(gen.pick(None, None, None, 2, 3, 4)),
  }


def make_config(c, data):
  """The configuration object of the code under test."""
  out = calibration.HandEyeConfig()
  algorithm = c['algorithm']
  out.algorithm_name = algorithm
  out.use_baseline_approach = algorithm.startswith('baseline')
  out.enable_exhaustive_search = algorithm in ('EC', 'ES', 'baseline_exhaustive')
  out.min_num_inliers = c['min_inliers']
  out.prefilter_poses_enabled = c['prefilter']
  threshold = c['threshold']
  if algorithm == 'EC' or c.get('few'):
    # Keep the number of combinations of three small.
    out.prefilter_poses_enabled = True
    while len(prefilter(data.hand, data.eye, threshold)[0]) > 8 and threshold > -0.9:
      threshold -= 0.05
  out.prefilter_dot_product_threshold = threshold
  out.ransac_sample_size = 3 if algorithm in ('RC', 'EC') else 1
  if c['sample'] is not None:
    lowest, highest = {'RC': (3, 4), 'EC': (3, 4), 'RS': (1, 3)}.get(algorithm, (1, 1))
    out.ransac_sample_size = min(max(c['sample'], lowest), highest)
  out.ransac_position_error_threshold_m, out.ransac_orientation_error_threshold_deg = c['limits']
  out.ransac_sample_rejection_scalar_part_equality_tolerance = c['tolerance']
  out.ransac_inlier_classification = ('rmse_threshold' if algorithm in ('RC', 'EC')
                                      else 'scalar_part_equality')
  out.ransac_model_refinement = c['refine']
  out.ransac_evaluate_refined_model_on_inliers_only = c['on_inliers']
  out.ransac_enable_early_abort = c['early_abort']
  out.ransac_max_number_iterations = c['iterations']
  return out


def filtered(data, config):
  if config.prefilter_poses_enabled:
    return prefilter(data.hand, data.eye, config.prefilter_dot_product_threshold)
  return list(range(len(data.hand))), False


def run(data, config, seed, streams=None):
  """Runs the search the configuration names on fresh copies of the data."""
  dq_hand, dq_eye = streams or ([DQ(p) for p in data.hand], [DQ(p) for p in data.eye])
  random.seed(seed)
  np.random.seed(seed)
  search = (calibration.compute_hand_eye_calibration_BASELINE if config.use_baseline_approach
            else calibration.compute_hand_eye_calibration_RANSAC)
  result = search(dq_hand, dq_eye, copy.deepcopy(config))
  return result


def solve(hand, eye):
  """Independent dual quaternion solution for poses relative to the first pair.

  Returns the pose and the singular values, or None if the system is degenerate.
  """
  s_matrix = ref.t_matrix(hand, eye)
  _, s, V = np.linalg.svd(s_matrix)
  if len(s) < 8 or s[5] < 1e-3:
    return None
  # Null space vectors v = (q, d); find the combination with q.d = 0 and |q| = 1.
  x, y = V[6], V[7]
  form = np.array([[np.dot(x[0:4], x[4:8]), 0.5 * (np.dot(x[0:4], y[4:8]) + np.dot(y[0:4], x[4:8]))],
                   [0., np.dot(y[0:4], y[4:8])]])
  form[1, 0] = form[0, 1]
  w, E = np.linalg.eigh(form)
  if w[0] > 0. or w[1] < 0.:
    return None
  best = None
  for sign in (1., -1.):
    k = math.sqrt(max(0., w[1])) * E[:, 0] + sign * math.sqrt(max(0., -w[0])) * E[:, 1]
    v = k[0] * x + k[1] * y
    n = np.linalg.norm(v[0:4])
    v = v / np.linalg.norm(v)
    n = np.linalg.norm(v[0:4])
    if best is None or n > best[0]:
      best = (n, v)
  return ref.pose_positive(ref.pose_from_dq(best[1])), s


def anchored(data, index):
  """Both streams relative to the pose, with non-negative real parts, cyclically."""
  return ([ref.pose_positive(p) for p in ref.align(data.hand, index)],
          [ref.pose_positive(p) for p in ref.align(data.eye, index)])


def scalar_inliers(hand, eye, tolerance):
  """Indices with matching scalar parts and whether a decision was too close to call."""
  out, ambiguous = [], False
  for i in range(len(hand)):
    a, b = ref.scalar_part(hand[i]), ref.scalar_part(eye[i])
    d = np.abs(a - b) - 1e-5 * np.maximum(np.abs(a), np.abs(b)) / 2.
    if np.any(np.abs(d - tolerance) < 2e-5):
      ambiguous = True
    if np.all(d <= tolerance):
      out.append(i)
  return out, ambiguous


def mapped_errors(hand, eye, X):
  """Pose errors of the hand stream and the eye stream mapped with X."""
  inverse = ref.inv(ref.mat(X))
  first = ref.inv(ref.mat(eye[0]).dot(inverse))
  errors = []
  for h, e in zip(hand, eye):
    errors.append(ref.transform_error(ref.mat(h), first.dot(ref.mat(e)).dot(inverse)))
  return np.array(errors)


def rmse(errors):
  return np.sqrt(np.mean(errors ** 2, axis=0))


def sampled_models(data, config, kept, ordered=False):
  """Models of all samples of the kept poses, inliers being decided by their errors.

  Yields (errors, number of inliers, pose); errors is None where the sample decides too
  narrowly to predict what happens with it.
  """
  tolerance = config.ransac_sample_rejection_scalar_part_equality_tolerance
  limits = (config.ransac_position_error_threshold_m, config.ransac_orientation_error_threshold_deg)
  for first in kept:
    hand, eye = anchored(data, first)
    scalar, unclear = scalar_inliers(hand, eye, tolerance)
    where = {k: (k - first) % len(hand) for k in kept}
    others = [k for k in kept if k != first and (ordered or k > first)]
    for rest in itertools.combinations(others, config.ransac_sample_size - 1):
      sample = [0] + [where[k] for k in rest]
      if unclear:
        yield None, 0, None
        continue
      if not all(i in scalar for i in sample):
        continue
      solution = solve([hand[i] for i in sample], [eye[i] for i in sample])
      if solution is None or solution[1][5] < 0.05:
        yield None, 0, None
        continue
      errors = mapped_errors(hand, eye, solution[0])
      if np.any(np.abs(errors - limits) < (1e-5, 1e-3)):
        yield None, 0, None
        continue
      inliers = [i for i in range(len(hand)) if np.all(errors[i] < limits)]
      if not all(i in scalar for i in inliers) or len(inliers) < config.min_num_inliers:
        continue
      if config.ransac_model_refinement:
        solution = solve([hand[i] for i in inliers], [eye[i] for i in inliers])
        if solution is None or solution[1][5] < 0.05:
          yield None, 0, None
          continue
        errors = mapped_errors(hand, eye, solution[0])
      chosen = inliers if config.ransac_evaluate_refined_model_on_inliers_only else range(len(hand))
      yield rmse(errors[list(chosen)]), len(inliers), solution[0]
