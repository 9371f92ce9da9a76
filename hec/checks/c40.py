import math

import numpy as np
from hypothesis import strategies as st

from hec import gen, paths, ref
from hec.code import calibration, dq_from_components
from hec.harness import Sub, close, note, require

PROPERTY = 'C40'
RULE = ('a case counts as non-trivial if the motions are disturbed by more than 1e-6 and the '
        'deviation of the result could be bounded')
ASSUMPTIONS = ['the linear system of the undisturbed motions has a sixth singular value above 0.1',
               'deviations are bounded only while the disturbance is small compared to that value']
# The largest deviation seen in 3000 random cases is 0.72 times this measure.
FACTOR = 5.


@st.composite
def cases(draw):
  return {
      'X': draw(gen.pose(0., gen.PI - 0.02)),
      'n': draw(gen.count(3, 25, 150)),
      'scale': draw(gen.pick(0., 1., 1., 10., 0.05)),
      'max_angle': draw(gen.pick(170., 170., 60., 120.)),
      'noise': draw(gen.pick(0., 1e-11, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 3e-3, 1e-2, 3e-2, 0.2)),
      'what': draw(gen.pick('both', 'both', 'position', 'orientation', 'frame')),
      'stream': draw(gen.pick('both', 'hand', 'eye')),
      'tolerance': draw(gen.pick(None, 4e-2, 2e-2)),
      'signs': draw(st.booleans()),
      'seed': draw(gen.seed()),
  }


def _disturbed(rng, pose, case):
  noise = case['noise']
  if case['what'] == 'frame':
    # The same screw motion about another line: the scalar parts stay.
    frame = np.append(rng.uniform(0., noise) * gen.random_unit(rng), ref.q_from_angle_axis(
        rng.uniform(0., noise), gen.random_unit(rng)))
    return ref.pose_mul(ref.pose_mul(frame, np.array(pose)), ref.pose_inv(frame))
  position = np.array(pose[0:3])
  if case['what'] != 'orientation':
    position = position + rng.uniform(0., noise) * gen.random_unit(rng)
  turn = ref.q_from_angle_axis(rng.uniform(0., noise) if case['what'] != 'position' else 0.,
                               gen.random_unit(rng))
  return np.append(position, ref.qmul(turn, pose[3:7]))


def test_noise(case):
  rng = np.random.RandomState(case['seed'])
  X = ref.pose_positive(case['X'])
  hand = paths.hand_path(rng, case['n'], case['scale'], math.radians(case['max_angle']))
  eye = paths.eye_path(hand, X)
  clean = np.linalg.svd(ref.t_matrix(hand, eye), compute_uv=False)
  if clean[5] < 0.1:
    note('badly conditioned')
    return False
  if case['stream'] != 'eye':
    hand = hand[:1] + [_disturbed(rng, p, case) for p in hand[1:]]
  if case['stream'] != 'hand':
    eye = eye[:1] + [_disturbed(rng, p, case) for p in eye[1:]]
  components = [(ref.dq_components(ref.pose_positive(h)), ref.dq_components(ref.pose_positive(e)))
                for h, e in zip(hand, eye)]
  mismatch = max(np.max(np.abs(a[[3, 7]] - b[[3, 7]])) for a, b in components)
  tolerance = 1e-2 if case['tolerance'] is None else case['tolerance']
  arguments = [] if case['tolerance'] is None else [tolerance]
  flips = [1.] + [rng.choice([-1., 1.]) if case['signs'] else 1. for _ in hand[1:]]
  try:
    result, singular, bad = calibration.compute_hand_eye_calibration(
        [dq_from_components(a) for a, _ in components],
        [dq_from_components(s * b) for s, (_, b) in zip(flips, components)], *arguments)
  except Exception:
    # Larger mismatches of the scalar parts may be refused.
    if mismatch < 0.99 * tolerance:
      raise
    note('refused')
    return False
  # The comparison has a relative tolerance on top.
  require(mismatch < 1.01 * tolerance + 1e-4, 'accepted mismatch', mismatch=mismatch,
          tolerance=tolerance)

  expected = np.linalg.svd(ref.t_matrix(hand, eye), compute_uv=False)
  size = 1. + np.linalg.norm(X[0:3]) + case['scale']
  require(len(singular) == 8, 'number of singular values', n=len(singular))
  close(singular, expected, 1e-6 * size * len(hand), what='singular values')
  low, high = expected[5], expected[6]
  if low > 0.501 and high < 0.499:
    require(not bad, 'flagged as badly conditioned', singular=list(singular))
  elif low < 0.499 or high > 0.501:
    note('flagged: small sixth' if low < 0.499 else 'flagged: large seventh')
    require(bad, 'not flagged as badly conditioned', singular=list(singular))

  c = np.array(result.dq)
  require(np.all(np.isfinite(c)) and c[3] >= 0., 'real part', dq=c.tolist())
  close(np.linalg.norm(c[0:4]), 1., 1e-9, what='norm')
  noise = 2. * case['noise'] if case['what'] == 'frame' else case['noise']
  measure = noise * math.sqrt(case['n']) * size / clean[5]
  if measure * size > 0.2:
    note('too much noise')
    return False
  position, degrees = ref.transform_error(ref.mat_from_dq(c), ref.mat(X))
  require(position <= FACTOR * measure * size + 1e-6 * size and
          math.radians(degrees) <= FACTOR * measure + 1e-6, 'deviation of the transformation',
          position=position, degrees=degrees, limit=FACTOR * measure)
  note('noise {:.0e}'.format(case['noise']))
  return case['noise'] > 1e-6


SUBS = [
    Sub('noise', cases, test_noise, 4000, 40000),
]
