import copy

import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import DQ, calibration
from hec.harness import Sub, close, note, raises, require

PROPERTY = 'C10'
RULE = ('a case counts as non-trivial if at least one pair is dropped, at least two are kept and '
        'no two axes are within 1e-6 of the threshold')
ASSUMPTIONS = ['rotations are zero or between 0.001 and 3.1 rad with positive real part']


@st.composite
def motion(draw, axes):
  """One motion; its axis comes from a small pool so that axes repeat."""
  kind = draw(gen.pick('screw', 'screw', 'screw', 'screw', 'translation', 'still'))
  axis = np.array(draw(st.sampled_from(axes)))
  if kind == 'still':
    return [0., 0., 0., 0., 0., 0., 1.]
  if kind == 'translation':
    return [float(x) for x in axis * draw(st.one_of(gen.fixed(0.01, 2.), gen.pick(1e-4, 1e-3, 50.)))] + [0., 0., 0., 1.]
  wobble = np.array(draw(st.lists(st.integers(-3, 3), min_size=3, max_size=3))) / 20.
  axis = axis + wobble if draw(st.booleans()) else axis
  q = ref.q_from_angle_axis(draw(st.one_of(
      gen.fixed(0.02, 3.1), gen.fixed(0.02, 3.1), gen.pick(1e-3, 3e-3, 0.01))), axis)
  return draw(st.lists(gen.fixed(-1., 1.), min_size=3, max_size=3)) + [float(x) for x in q]


@st.composite
def cases(draw):
  axes = draw(st.lists(gen.axis(), min_size=draw(gen.pick(1, 3, 6)), max_size=8))
  n = draw(st.one_of(st.integers(0, 12), st.integers(6, 14)))
  hand, eye = ([draw(motion(axes)) for _ in range(n)] for _ in range(2))
  if n and not draw(st.integers(0, 9)):
    # A long recording repeating these motions and some new ones.
    rng = np.random.RandomState(draw(gen.seed()))
    for _ in range(draw(st.integers(1, 80))):
      for poses in (hand, eye):
        poses.append(poses[rng.randint(n)] if rng.randint(4) else
                     ref.pose_positive(gen.random_pose(rng, 3.1, 1., 0.02)).tolist())
  return {'hand': hand, 'eye': eye,
          'threshold': draw(gen.pick(0.95, 0.975, 0.9, 0.5, 0.99, 0.))}


def _expected(hand, eye, threshold):
  kept = []
  ambiguous = False
  for i in range(len(hand)):
    a, b = ref.screw(hand[i])[0], ref.screw(eye[i])[0]
    if not np.any(a) or not np.any(b):
      continue
    drop = False
    for j in kept:
      for x, y in ((a, ref.screw(hand[j])[0]), (b, ref.screw(eye[j])[0])):
        d = np.dot(x, y)
        ambiguous = ambiguous or abs(d - threshold) < 1e-6
        drop = drop or d > threshold
    if not drop:
      kept.append(i)
  return kept, ambiguous


def test_prefilter(case):
  hand, eye = [np.array(p) for p in case['hand']], [np.array(p) for p in case['eye']]
  kept, ambiguous = _expected(hand, eye, case['threshold'])
  if ambiguous:
    note('axes at the threshold')
    return False
  dq_hand, dq_eye = [DQ(p) for p in hand], [DQ(p) for p in eye]
  before = copy.deepcopy(([d.dq for d in dq_hand], [d.dq for d in dq_eye]))
  if len(kept) < 2:
    note('not enough distinct motions')
    with raises(Exception, 'fewer than two distinct motions'):
      calibration.prefilter_using_screw_axis(dq_eye, dq_hand, case['threshold'])
    return False
  out_eye, out_hand = calibration.prefilter_using_screw_axis(dq_eye, dq_hand, case['threshold'])
  require(len(out_eye) == len(out_hand), 'streams of different length')
  actual = []
  for a, b in zip(out_hand, out_eye):
    found = [i for i in range(len(hand)) if np.allclose(a.dq, before[0][i], atol=1e-12) and
             np.allclose(b.dq, before[1][i], atol=1e-12)]
    require(found, 'pair that is not in the input')
    actual.append(found)
  require(len(actual) == len(kept) and all(k in f for k, f in zip(kept, actual)), 'kept pairs',
          actual=actual, expected=kept)
  for d in out_eye + out_hand:
    d.dq[:] = 5.
  require(len(dq_hand) == len(hand) and len(dq_eye) == len(eye), 'input length')
  for d, b in zip(dq_hand + dq_eye, before[0] + before[1]):
    close(d.dq, b, 1e-12, what='input pose')
  return len(kept) < len(hand)


@st.composite
def distinct_cases(draw):
  """Only well separated axes: every moving pair is kept."""
  directions = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.]]
  order = draw(st.permutations(directions))
  n = draw(st.integers(2, 6))
  poses = []
  for i in range(n):
    q = ref.q_from_angle_axis(draw(gen.fixed(0.02, 3.1)), order[i])
    poses.append(draw(st.lists(gen.fixed(-1., 1.), min_size=3, max_size=3)) + [float(x) for x in q])
  return {'poses': poses, 'still': draw(st.lists(st.integers(0, n - 1), max_size=3)),
          'X': draw(gen.pose()), 'default': draw(st.booleans())}


def test_distinct(case):
  hand = []
  for i, p in enumerate(case['poses']):
    hand += [np.array([0., 0., 0., 0., 0., 0., 1.])] * case['still'].count(i)
    hand.append(np.array(p))
  eye = [p if ref.angle_of(p[3:7]) == 0. else
         ref.pose_positive(ref.pose_mul(ref.pose_mul(ref.pose_inv(case['X']), p), case['X']))
         for p in hand]
  arguments = [] if case['default'] else [0.95]
  out_eye, out_hand = calibration.prefilter_using_screw_axis([DQ(p) for p in eye],
                                                             [DQ(p) for p in hand], *arguments)
  require(len(out_hand) == len(case['poses']) == len(out_eye), 'number of kept motions',
          kept=len(out_hand), expected=len(case['poses']))
  for p, d in zip(case['poses'], out_hand):
    close(ref.mat_from_dq(d.dq), ref.mat(p), 1e-9, what='kept motion')
  return bool(case['still'])


SUBS = [
    Sub('prefilter', cases, test_prefilter, 3000, 40000),
    Sub('distinct', distinct_cases, test_distinct, 1500, 20000),
]
