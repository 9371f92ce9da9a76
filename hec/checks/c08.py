import copy
import math

import numpy as np
from hypothesis import strategies as st

from hec import gen, paths, ref
from hec.code import DQ, calibration, dq_from_components
from hec.harness import Sub, close, note, require

PROPERTY = 'C08'
RULE = ('a case counts as non-trivial if the hand-eye transformation has a rotation and a '
        'translation and the trajectories have a translation')
ASSUMPTIONS = ['rotations relative to the first pose stay below 170 degrees: at half a turn the '
               'relative sign of the two quaternions is undefined',
               'two relative motions rotate by 40 to 120 degrees about axes 40 to 140 degrees '
               'apart',
               'hand-eye rotations by half a turn that reverse all rotation axes of the motion '
               'are excluded, see the known finding']


@st.composite
def cases(draw):
  return {
      'X': draw(gen.pose()),
      'n': draw(gen.count(3, 25, 120)),
      'scale': draw(gen.pick(0., 1., 1., 10., 0.05)),
      'max_angle': draw(gen.pick(170., 170., 60., 5.)),
      'seed': draw(gen.seed()),
      'signs': draw(st.booleans()),
      'shuffle': draw(st.booleans()),
      'simple': draw(st.booleans()),
  }


def build(case):
  rng = np.random.RandomState(case['seed'])
  hand = paths.hand_path(rng, case['n'], case['scale'], math.radians(case['max_angle']))
  if case['simple']:
    # Axis-aligned rotations and grid positions.
    for i in range(1, case['n']):
      axis = np.eye(3)[i % 3]
      hand[i] = np.append(np.round(hand[i][0:3], 1),
                          ref.q_from_angle_axis(math.radians([90., 45., 60.][i % 3]), axis))
  return rng, hand, paths.eye_path(hand, case['X'])


def _reversed(hand, eye):
  """The hand-eye rotation reverses (almost) all rotation axes."""
  if np.linalg.svd(ref.t_matrix(hand, eye), compute_uv=False)[5] > 0.05:
    return False
  note('all axes reversed')
  return True


def test_recovery(case):
  rng, hand, eye = build(case)
  if _reversed(hand, eye):
    return False
  X = ref.pose_positive(case['X'])
  size = 1. + np.linalg.norm(X[0:3]) + case['scale']
  components = []
  for i, (h, e) in enumerate(zip(hand, eye)):
    ch, ce = ref.dq_components(ref.pose_positive(h)), ref.dq_components(ref.pose_positive(e))
    if case['signs'] and i > 0:
      ch, ce = ch * rng.choice([-1., 1.]), ce * rng.choice([-1., 1.])
    components.append((ch, ce))
  dq_hand = [dq_from_components(h) for h, _ in components]
  dq_eye = [dq_from_components(e) for _, e in components]
  result, singular, bad = calibration.compute_hand_eye_calibration(dq_hand, dq_eye)
  check(result, X, size)
  # The motions keep their meaning.
  for i in range(len(hand)):
    close(ref.mat_from_dq(dq_hand[i].dq), ref.mat(hand[i]), 1e-8 * size, what='hand pose')
    close(ref.mat_from_dq(dq_eye[i].dq), ref.mat(eye[i]), 1e-8 * size, what='eye pose')
  expected = np.linalg.svd(ref.t_matrix(hand, eye), compute_uv=False)
  require(len(singular) == 8, 'number of singular values', n=len(singular))
  close(sorted(singular, reverse=True), expected, 1e-6 * size * len(hand), what='singular values')
  if expected[5] > 0.6:
    note('well conditioned')
    require(not bad, 'flagged as badly conditioned', singular=list(singular))
  elif expected[5] < 0.4:
    note('badly conditioned')
    require(bad, 'not flagged as badly conditioned', singular=list(singular))
  if case['shuffle']:
    order = [0] + list(1 + rng.permutation(len(hand) - 1))
    shuffled, _, _ = calibration.compute_hand_eye_calibration(
        [dq_from_components(components[i][0]) for i in order],
        [dq_from_components(components[i][1]) for i in order])
    check(shuffled, X, size)
  return ref.angle_of(X[3:7]) > 1e-3 and np.linalg.norm(X[0:3]) > 0. and case['scale'] > 0.


def check(result, X, size):
  c = np.array(result.dq)
  require(c[3] >= 0., 'real part', dq=c.tolist())
  close(np.linalg.norm(c[0:4]), 1., 1e-9, what='norm')
  close(np.dot(c[0:4], c[4:8]), 0., 1e-6 * size, what='unit condition')
  close(ref.mat_from_dq(c), ref.mat(X), 1e-5 * size, what='hand-eye transformation')


@st.composite
def world_cases(draw):
  case = draw(cases())
  case.update(B=draw(gen.pose()), W=draw(gen.pose()), anchor=draw(st.integers(0, case['n'] - 1)))
  return case


def test_worlds(case):
  """Absolute poses in arbitrary world frames, re-anchored by the library."""
  rng, hand, eye = build(case)
  if _reversed(hand, eye):
    return False
  X = ref.pose_positive(case['X'])
  size = 1. + sum(np.linalg.norm(case[k][0:3]) for k in 'XBW') + case['scale']
  dq_hand = calibration.align_paths_at_index([DQ(ref.pose_mul(case['B'], h)) for h in hand])
  dq_eye = calibration.align_paths_at_index([DQ(ref.pose_mul(case['W'], e)) for e in eye])
  result, singular, bad = calibration.compute_hand_eye_calibration(dq_hand, dq_eye)
  check(result, X, size)
  # Any pose may serve as the anchor, provided no motion is close to half a turn.
  rotated = ref.align(hand, case['anchor'])
  if max(ref.angle_of(p[3:7]) for p in rotated) < math.radians(170.):
    sv = np.linalg.svd(ref.t_matrix(rotated, ref.align(eye, case['anchor'])), compute_uv=False)
    if sv[5] > 0.1:
      note('other anchor')
      dq_hand = calibration.align_paths_at_index(dq_hand, case['anchor'])
      dq_eye = calibration.align_paths_at_index(dq_eye, case['anchor'])
      result, singular, bad = calibration.compute_hand_eye_calibration(dq_hand, dq_eye)
      check(result, X, size)
  return ref.angle_of(X[3:7]) > 1e-3 and np.linalg.norm(X[0:3]) > 0. and case['scale'] > 0.


SUBS = [
    Sub('recovery', cases, test_recovery, 3000, 30000),
    Sub('worlds', world_cases, test_worlds, 2000, 20000),
]


class ReversedAxes(object):
  text = ('rotations about y and z only with a hand-eye rotation by half a turn about x: all axes '
          'are reversed and the linear system has rank 2 instead of 6')

  @staticmethod
  def reproduces():
    X = [0., 0., 0., 1., 0., 0., 0.]
    hand = [np.array([0., 0., 0., 0., 0., 0., 1.]),
            np.append(np.zeros(3), ref.q_from_angle_axis(math.radians(45.), [0., 1., 0.])),
            np.append(np.zeros(3), ref.q_from_angle_axis(math.radians(60.), [0., 0., 1.]))]
    eye = paths.eye_path(hand, X)
    try:
      result, _, bad = calibration.compute_hand_eye_calibration([DQ(p) for p in hand],
                                                                [DQ(p) for p in eye])
    except Exception:
      return True
    return bad or ref.transform_error(ref.mat_from_dq(result.dq), ref.mat(X))[1] > 1e-3


KNOWN = [ReversedAxes]
