import math

import numpy as np
from hypothesis import strategies as st

from hec import gen, paths, ref
from hec.code import DQ, calibration, dq_from_components
from hec.harness import Sub, note, raises, require

PROPERTY = 'C09'
RULE = ('a case counts as non-trivial if the offending pose is not the first one (mismatch), the '
        'deviation from the identity is small (origin), or there are at least three poses '
        '(degenerate motion)')
ERRORS = Exception


def _base(case):
  rng = np.random.RandomState(case['seed'])
  hand = paths.hand_path(rng, case['n'], 1., math.radians(150.))
  eye = paths.eye_path(hand, gen.random_pose(rng))
  return rng, hand, [ref.pose_positive(e) for e in eye]


@st.composite
def origin_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(3, 12, 60)),
          'stream': draw(gen.pick('hand', 'eye', 'both')),
          'what': draw(gen.pick('translation', 'rotation')),
          'size': draw(gen.pick(1e-3, 1e-2, 1., 1e-4)), 'axis': draw(gen.axis())}


def test_origin(case):
  rng, hand, eye = _base(case)
  if case['what'] == 'translation':
    offset = np.append(case['size'] * np.array(case['axis']), [0., 0., 0., 1.])
  else:
    offset = np.append(np.zeros(3), ref.q_from_angle_axis(case['size'], case['axis']))
  # The whole trajectory is moved, so the relative motions stay consistent.
  if case['stream'] in ('hand', 'both'):
    hand = [ref.pose_mul(offset, p) for p in hand]
  if case['stream'] in ('eye', 'both'):
    eye = [ref.pose_mul(offset, p) for p in eye]
  note(case['stream'] + ' ' + case['what'])
  with raises(ERRORS, 'first pose away from the identity ({})'.format(case['stream'])):
    calibration.compute_hand_eye_calibration([DQ(p) for p in hand], [DQ(p) for p in eye], 4e-2)
  return case['size'] < 0.1


@st.composite
def mismatch_cases(draw):
  n = draw(gen.count(3, 12, 60))
  return {'seed': draw(gen.seed()), 'n': n, 'index': draw(st.integers(1, n - 1)),
          'stream': draw(gen.pick('hand', 'eye')), 'what': draw(gen.pick('angle', 'pitch')),
          'tolerance': draw(gen.pick(None, 1e-2, 1e-3, 4e-2, 1e-4)),
          'factor': draw(gen.pick(1.5, 2., 5., 1.2, 1.05)), 'direction': draw(gen.pick(1., -1.)),
          'enforce': draw(st.booleans())}


def test_mismatch(case):
  rng, hand, eye = _base(case)
  stream = hand if case['stream'] == 'hand' else eye
  i = case['index']
  tolerance = 1e-2 if case['tolerance'] is None else case['tolerance']
  # The comparison has a relative tolerance of 1e-5 on top.
  delta = (case['factor'] * tolerance + 2e-5) * case['direction']
  c = ref.dq_components(ref.pose_positive(stream[i]))
  axis, angle, pitch = ref.screw(stream[i])
  if not 10. < angle < 150.:
    note('rotation not suitable')
    return False
  if case['what'] == 'angle':
    w = c[3] + delta
    if not 0.05 < w < 0.999:
      note('rotation not suitable')
      return False
    # Same pitch component in the dual part, different rotation angle.
    half = math.acos(w)
    q = np.append(math.sin(half) * axis, w)
    t = np.array(stream[i][0:3])
    t = t - np.dot(t, axis) * axis + axis * (-2. * c[7] / math.sin(half))
    changed = np.append(t, q)
  else:
    changed = np.array(stream[i])
    changed[0:3] += axis * (-2. * delta / math.sin(math.radians(angle) / 2.))
  other = hand[i] if case['stream'] == 'eye' else eye[i]
  difference = np.abs(ref.scalar_part(changed) - ref.scalar_part(other))
  require(abs(max(difference) - abs(delta)) < 1e-9, 'generator: scalar parts', difference=difference.tolist())
  stream[i] = changed
  dq_hand, dq_eye = [DQ(p) for p in hand], [DQ(ref.pose_positive(p)) for p in eye]
  note(case['stream'] + ' ' + case['what'])
  with raises(ERRORS, 'scalar part mismatch {} at pose {}'.format(delta, i)):
    if case['tolerance'] is None:
      calibration.compute_hand_eye_calibration(dq_hand, dq_eye)
    else:
      calibration.compute_hand_eye_calibration(
          dq_hand, dq_eye, tolerance, enforce_same_non_dual_scalar_sign=case['enforce'])
  return True


@st.composite
def signs_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(3, 12, 60)),
          'index': draw(st.integers(1, 59)), 'stream': draw(gen.pick('hand', 'eye'))}


def test_signs(case):
  """With sign matching switched off, opposite signs are a scalar part mismatch."""
  rng, hand, eye = _base(case)
  i = 1 + case['index'] % (case['n'] - 1)
  hand_c = [ref.dq_components(ref.pose_positive(p)) for p in hand]
  eye_c = [ref.dq_components(ref.pose_positive(p)) for p in eye]
  if case['stream'] == 'hand':
    hand_c[i] = -hand_c[i]
  else:
    eye_c[i] = -eye_c[i]
  with raises(ERRORS, 'opposite signs at pose {}'.format(i)):
    calibration.compute_hand_eye_calibration(
        [dq_from_components(c) for c in hand_c], [dq_from_components(c) for c in eye_c], 1e-2,
        enforce_same_non_dual_scalar_sign=False)
  calibration.compute_hand_eye_calibration(
      [dq_from_components(c) for c in hand_c], [dq_from_components(c) for c in eye_c], 1e-2)
  return True


@st.composite
def degenerate_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(1, 20, 80)),
          'kind': draw(gen.pick('one axis', 'translation', 'still', 'same motion', 'tiny second axis')),
          'X': draw(gen.pose()), 'axis': draw(gen.axis())}


def test_degenerate(case):
  rng = np.random.RandomState(case['seed'])
  n, axis = case['n'], np.array(case['axis'])
  hand = [np.array([0., 0., 0., 0., 0., 0., 1.])]
  for i in range(n - 1):
    t = rng.uniform(-1., 1., 3)
    q = np.array([0., 0., 0., 1.])
    if case['kind'] == 'one axis':
      q = ref.q_from_angle_axis(rng.uniform(-2.6, 2.6), axis)
    elif case['kind'] == 'same motion':
      q = ref.q_from_angle_axis(1., axis)
      t = axis * 0.3
    elif case['kind'] == 'still':
      t = np.zeros(3)
    elif case['kind'] == 'tiny second axis':
      q = ref.q_from_angle_axis(rng.uniform(-2.6, 2.6), axis)
      q = ref.qunit(ref.qmul(q, ref.q_from_angle_axis(1e-4, gen.random_unit(rng))))
    hand.append(np.append(t, q))
  eye = paths.eye_path(hand, case['X'])
  note(case['kind'])
  try:
    _, singular, bad = calibration.compute_hand_eye_calibration(
        [DQ(ref.pose_positive(p)) for p in hand], [DQ(ref.pose_positive(p)) for p in eye])
  except ERRORS:
    note('error raised')
    return n >= 3
  require(bad, 'degenerate motion reported as well-conditioned', singular=list(singular))
  return n >= 3


SUBS = [
    Sub('origin', origin_cases, test_origin, 1500, 10000),
    Sub('mismatch', mismatch_cases, test_mismatch, 3000, 20000),
    Sub('signs', signs_cases, test_signs, 600, 5000),
    Sub('degenerate', degenerate_cases, test_degenerate, 2000, 20000),
]
