import numpy as np
from hypothesis import strategies as st

from hec import gen, motion, ref, search
from hec.checks.c16 import _eligible, _expected_pose
from hec.code import DQ, calibration, verification
from hec.harness import Sub, close, note, require

PROPERTY = 'C20'
RULE = ('a case counts as non-trivial if at least three pose pairs are compared and the recordings '
        'rotate by more than 0.1 rad')
ASSUMPTIONS = ['pairs whose error is within 0.5 percent of a threshold are not judged as inliers',
               'orientation errors below 0.002 degree may be reported as zero']


@st.composite
def cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(3, 25, 700)), 'X': draw(gen.pose()),
          'Y': draw(st.one_of(st.none(), st.none(), gen.pose(0., 0.05), gen.pose(0., 0.3))),
          'ratio': draw(st.integers(2, 4)), 'pairs': draw(gen.pick(*[None] * 5 + [1, 1, 2, 3])), 'slow_hand': draw(st.booleans()),
          'offset': draw(st.one_of(st.just(0), st.integers(-300, 300), st.integers(-300, 300))) / 64.,
          'wrong_offset': draw(gen.pick(0., 0., 0., 0., 0.015625, 0.03125, 1. / 2048., -1. / 2048.)),
          'noise': draw(gen.pick(0., 0., 0., 1e-3, 1e-2, 0.1)),
          'before_A': draw(gen.pose()), 'before_B': draw(gen.pose()),
          'position': draw(gen.pick(0.02, 0.1, 1.)), 'degrees': draw(gen.pick(1., 0.3, 5.)),
          'apart': draw(gen.pick(*[False] * 9 + [True])), 'signs': draw(st.booleans())}


def test_evaluated(case):
  rng = np.random.RandomState(case['seed'])
  m = motion.Motion(rng, 4)
  # The slower recording has every ratio-th stamp of the faster one; all on a binary grid.
  step = 3. / 64.
  count = case['n']
  fast = step * (8. + np.arange(case['ratio'] * count + 3.))
  slow = fast[0:case['ratio'] * count:case['ratio']]
  if case['pairs'] is not None:
    # Only the last few stamps of the slower recording are in the faster one.
    fast = fast[fast >= slow[-case['pairs']] - step]
  hand_stamps, eye_stamps = (slow, fast) if case['slow_hand'] else (fast, slow)
  signs = rng if case['signs'] else None
  hand = motion.record(m, hand_stamps, -case['offset'], case['before_A'], signs=signs)
  eye = motion.record(m, eye_stamps, 0., case['before_B'], case['X'], signs)
  if case['noise']:
    for row in eye:
      row[1:8] = ref.pose_mul(row[1:8], np.append(
          rng.normal(0., case['noise'], 3),
          ref.q_from_angle_axis(rng.normal(0., case['noise']), gen.random_unit(rng))))
  estimate = np.array(case['X'] if case['Y'] is None else ref.pose_mul(case['X'], case['Y']))
  offset = case['offset'] + case['wrong_offset'] + (1000. if case['apart'] else 0.)
  config = calibration.HandEyeConfig()
  config.ransac_position_error_threshold_m = case['position']
  config.ransac_orientation_error_threshold_deg = case['degrees']
  keep = hand.copy(), eye.copy()
  dq = DQ(estimate)
  (position, orientation), inliers = verification.evaluate_calibration(hand, eye, dq, offset, config)
  close(hand, keep[0], 0., what='hand recording')
  close(eye, keep[1], 0., what='eye recording')
  close(ref.mat_from_dq(dq.dq), ref.mat(estimate), 1e-8 * (1. + np.linalg.norm(estimate[0:3])),
        what='calibration')
  if case['apart']:
    note('no overlap')
    require(position == float('inf') and orientation == float('inf') and inliers == 0,
            'recordings without overlap', position=position, orientation=orientation, inliers=inliers)
    return False
  shifted = hand.copy()
  shifted[:, 0] += offset
  low, high = (shifted, eye) if case['slow_hand'] else (eye, shifted)
  stamps = [t for t, required, allowed in _eligible(low[:, 0], high[:, 0]) if allowed]
  required = [t for t, r, allowed in _eligible(low[:, 0], high[:, 0]) if r]
  if stamps != required or len(stamps) < 1:
    note('end of the recording not decided')
    return False
  pairs = []
  for rows in (shifted, eye):
    pairs.append([np.concatenate(_expected_pose(rows, t)) for t in stamps])
  pairs = [[ref.pose_positive(p) for p in ref.align(poses, 0)] for poses in pairs]
  errors = search.mapped_errors(pairs[0], pairs[1], estimate)
  expected = search.rmse(errors)
  size = 10. + sum(np.linalg.norm(case[k][0:3]) for k in ('X', 'before_A', 'before_B'))
  size += np.linalg.norm(estimate[0:3])
  close(position, expected[0], 1e-7 * size, what='position error')
  close(orientation, expected[1], 3e-3, what='orientation error')
  if case['Y'] is None and not case['noise'] and not case['wrong_offset']:
    note('consistent')
    require(position < 1e-7 * size and orientation < 3e-3, 'errors of consistent recordings',
            position=position, orientation=orientation)
    require(inliers == len(stamps), 'inliers of consistent recordings', inliers=inliers,
            pairs=len(stamps))
  limits = np.array([case['position'], case['degrees']])
  if np.all(np.abs(errors - limits) > 5e-3 * limits):
    require(inliers == int(np.sum(np.all(errors < limits, axis=1))), 'inliers', actual=inliers,
            errors=errors.tolist())
  turn = max(ref.angle_of(p[3:7]) for p in pairs[0])
  return len(stamps) >= 3 and turn > 0.1


SUBS = [
    Sub('evaluated', cases, test_evaluated, 1500, 20000),
]
