import numpy as np
from hypothesis import strategies as st

from hec import gen, paths, ref
from hec.code import DQ, calibration
from hec.harness import Sub, close, note, require

PROPERTY = 'C11'
RULE = ('a case counts as non-trivial if the poses differ in position and by more than 0.01 degree '
        'in orientation (scores: some pairs are inliers and some are not)')
ASSUMPTIONS = ['orientation errors below 0.002 degree may be reported as zero']


def _degree_tolerance(degree):
  return 2e-3 if degree < 6e-3 else 1e-4


@st.composite
def pair(draw):
  a = np.array(draw(gen.pose()))
  if draw(st.booleans()):
    b = np.array(draw(gen.pose()))
  else:
    d = np.array(draw(gen.pose(0., gen.PI)))
    b = ref.pose_mul(a, d)
  return {'a': [float(x) for x in a], 'b': [float(x) for x in b],
          'scale': [draw(gen.pick(1., -1., 3., -0.2)) for _ in range(2)]}


def test_error(case):
  a, b = np.array(case['a']), np.array(case['b'])
  position, degree = ref.pose_error(a, b)
  a[3:7] *= case['scale'][0]
  b[3:7] *= case['scale'][1]
  keep = a.copy(), b.copy()
  size = 1. + np.linalg.norm(a[0:3]) + np.linalg.norm(b[0:3])
  for x, y in ((a, b), (b, a)):
    result = calibration.compute_pose_error(x, y)
    require(len(result) == 2, 'two errors')
    close(result[0], position, 1e-9 * size, what='position error')
    close(result[1], degree, _degree_tolerance(degree), what='orientation error')
    require(0. <= result[1] <= 180., 'orientation error range', degree=result[1])
  same = calibration.compute_pose_error(a, a)
  require(same[0] == 0. and same[1] < 2e-3, 'error of equal poses', error=same)
  close(a, keep[0], 0., what='first pose')
  close(b, keep[1], 0., what='second pose')
  if degree > 179.9:
    note('half-turn')
  return position > 0. and degree > 0.01


@st.composite
def score_cases(draw):
  n = draw(st.integers(1, 12))
  a = [draw(gen.pose()) for _ in range(n)]
  offsets = []
  for _ in range(n):
    size = draw(gen.pick(0., 0.5, 0.99, 1.01, 2., 50., 20000.))
    turn = draw(gen.pick(0., 0.5, 0.97, 1.03, 2., 100.))
    offsets.append([size, turn] + draw(gen.axis()) + draw(gen.axis()))
  if not draw(st.integers(0, 9)):
    for i in range(draw(st.integers(1, 100))):
      a.append(a[i % n])
      offsets.append(offsets[(i * i) % n])
  return {'a': a, 'offsets': offsets, 'position': draw(gen.pick(0.02, 0.1, 1., 0.005)),
          'degrees': draw(gen.pick(1., 0.2, 1.7, 10., 0.05)), 'sign': draw(gen.pick(1, 2, 3, 1000))}


def test_score(case):
  A = np.array(case['a'])
  B = []
  for i, (a, o) in enumerate(zip(A, case['offsets'])):
    q = ref.qmul(a[3:7], ref.q_from_angle_axis(np.radians(o[1] * case['degrees']), o[5:8]))
    B.append(np.append(a[0:3] + o[0] * case['position'] * np.array(o[2:5]),
                       q if (i + 1) % case['sign'] else -q))
  B = np.array(B)
  config = calibration.HandEyeConfig()
  config.ransac_position_error_threshold_m = case['position']
  config.ransac_orientation_error_threshold_deg = case['degrees']
  keep = A.copy(), B.copy()
  rmse_position, rmse_orientation, flags = calibration.evaluate_alignment(A, B, config)
  errors = np.array([ref.pose_error(a, b) for a, b in zip(A, B)])
  expected = np.sqrt(np.mean(errors ** 2, axis=0))
  close(rmse_position, expected[0], 1e-9 * (1. + np.max(np.abs(A))), what='position RMSE')
  close(rmse_orientation, expected[1], 2e-3 if expected[1] < 0.1 else 1e-3, what='orientation RMSE')
  require(len(flags) == len(A), 'number of flags')
  inliers = [bool(o[0] < 1. and o[1] < 1.) for o in case['offsets']]
  require([bool(f) for f in flags] == inliers, 'inliers', actual=list(flags), expected=inliers)
  close(A, keep[0], 0., what='first poses')
  close(B, keep[1], 0., what='second poses')
  return any(inliers) and not all(inliers)


@st.composite
def aligned_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(1, 10, 60)), 'X': draw(gen.pose()),
          'Y': draw(gen.pose()), 'W': draw(gen.pose()), 'true': draw(st.booleans()),
          'signs': draw(st.booleans())}


def test_aligned(case):
  rng = np.random.RandomState(case['seed'])
  hand = [gen.random_pose(rng) for _ in range(case['n'])]
  hand[0] = np.array([0., 0., 0., 0., 0., 0., 1.])
  eye = [ref.pose_mul(case['W'], e) for e in paths.eye_path(hand, case['X'])]
  if case['signs']:
    eye = [np.append(e[0:3], e[3:7] * rng.choice([-1., 1.])) for e in eye]
    hand = [np.append(h[0:3], h[3:7] * rng.choice([-1., 1.])) for h in hand]
  estimate = case['X'] if case['true'] else case['Y']
  dq_hand, dq_eye, dq = [DQ(p) for p in hand], [DQ(p) for p in eye], DQ(estimate)
  keep = [d.dq.copy() for d in dq_hand + dq_eye + [dq]]
  result_hand, result_eye = calibration.get_aligned_poses(dq_hand, dq_eye, dq)
  size = 10. + sum(np.linalg.norm(case[k][0:3]) for k in 'XYW')
  require(result_hand.shape == (case['n'], 7) == result_eye.shape, 'shape', shape=result_hand.shape)
  inverse = ref.inv(ref.mat(estimate))
  first = ref.inv(ref.mat(eye[0]).dot(inverse))
  for i in range(case['n']):
    close(ref.mat(result_hand[i]), ref.mat(hand[i]), 1e-9 * size, what='hand pose {}'.format(i))
    close(ref.mat(result_eye[i]), first.dot(ref.mat(eye[i])).dot(inverse), 1e-8 * size,
          what='mapped eye pose {}'.format(i))
    if case['true']:
      close(ref.mat(result_eye[i]), ref.mat(hand[i]), 1e-8 * size, what='matching poses')
    require(result_hand[i, 6] >= 0. and result_eye[i, 6] >= 0., 'real parts of the poses')
  for d, k in zip(dq_hand + dq_eye + [dq], keep):
    close(ref.mat_from_dq(d.dq), ref.mat_from_dq(k), 1e-9 * size, what='input')
  return case['n'] >= 3


SUBS = [
    Sub('error', pair, test_error, 4000, 50000),
    Sub('score', score_cases, test_score, 1500, 15000),
    Sub('aligned', aligned_cases, test_aligned, 1500, 15000),
]
