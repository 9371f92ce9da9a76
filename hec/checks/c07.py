import copy

import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import DQ, calibration
from hec.harness import Sub, close, note, require

PROPERTY = 'C07'
RULE = ('a case counts as non-trivial if the trajectory has at least three poses and (re-anchoring) '
        'the anchor is not the first pose')


@st.composite
def path(draw, n=None):
  n = draw(st.integers(1, 8)) if n is None else n
  poses = [draw(gen.pose()) for _ in range(n)]
  if not draw(st.integers(0, 9)):
    rng = np.random.RandomState(draw(gen.seed()))
    poses += [gen.random_pose(rng).tolist() for _ in range(draw(st.integers(1, 60)))]
  return poses


@st.composite
def align_cases(draw):
  poses = draw(path())
  return {'poses': poses, 'index': draw(st.integers(0, len(poses) - 1)),
          'positive': draw(st.booleans()), 'default': draw(st.booleans())}


def test_align(case):
  poses = [np.array(p) for p in case['poses']]
  index, positive = case['index'], case['positive']
  dqs = [DQ(p) for p in poses]
  before = [dq.dq.copy() for dq in dqs]
  if case['default'] and positive:
    result = (calibration.align_paths_at_index(dqs, index) if index else
              calibration.align_paths_at_index(dqs))
  else:
    result = calibration.align_paths_at_index(dqs, align_index=index,
                                              enforce_positive_q_rot_w=positive)
  require(len(result) == len(poses), 'number of poses', n=len(result))
  size = 1. + max(np.linalg.norm(p[0:3]) for p in poses)
  expected = ref.align(poses, index)
  for k, (dq, pose) in enumerate(zip(result, expected)):
    c = ref.dq_components(pose)
    if positive:
      require(dq.dq[3] >= 0., 'real part of pose {}'.format(k), dq=dq.dq.tolist())
      if abs(c[3]) > 1e-6:
        c = c if c[3] > 0. else -c
        close(dq.dq, c, 1e-8 * size, what='pose {}'.format(k))
    else:
      close(dq.dq, c, 1e-8 * size, what='pose {} without sign change'.format(k))
    close(ref.mat_from_dq(dq.dq), ref.mat(pose), 1e-8 * size, what='pose {}'.format(k))
  close(result[0].dq, [0., 0., 0., 1., 0., 0., 0., 0.], 1e-8, what='first pose')
  for dq in result:
    dq.dq[:] = 8.
  for k in range(len(dqs)):
    close(dqs[k].dq, before[k], 1e-12 * size, what='input pose {}'.format(k))
  require(len(dqs) == len(before), 'input length')
  note('positive' if positive else 'signs kept')
  return len(poses) >= 3 and index > 0


@st.composite
def offset_cases(draw):
  return {'poses': draw(path()), 'X': draw(gen.pose()), 'W': draw(gen.pose())}


def test_offset(case):
  poses = [np.array(p) for p in case['poses']]
  dqs, X, W = [DQ(p) for p in poses], DQ(case['X']), DQ(case['W'])
  before = copy.deepcopy([d.dq for d in dqs + [X, W]])
  result = calibration.compute_dual_quaternions_with_offset(dqs, X, W)
  require(len(result) == len(poses), 'number of poses', n=len(result))
  size = 1. + max(np.linalg.norm(p[0:3]) for p in poses + [np.array(case['X']), np.array(case['W'])])
  for k, p in enumerate(poses):
    expected = ref.inv(ref.mat(case['W'])).dot(ref.mat(p)).dot(ref.mat(case['X']))
    close(ref.mat_from_dq(result[k].dq), expected, 1e-8 * size, what='eye pose {}'.format(k))
    close(np.linalg.norm(result[k].dq[0:4]), 1., 1e-8, what='norm of eye pose {}'.format(k))
    result[k].dq[:] = 3.
  for dq, b in zip(dqs + [X, W], before):
    close(dq.dq, b, 1e-12 * size, what='input')
  return len(poses) >= 3


SUBS = [
    Sub('align', align_cases, test_align, 4000, 40000),
    Sub('offset', offset_cases, test_offset, 2500, 30000),
]
