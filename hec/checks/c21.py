import itertools

import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import DQ, verification
from hec.harness import Sub, close, note, require

PROPERTY = 'C21'
RULE = ('a case counts as non-trivial if there are at least three sensors and a calibration on the '
        'loop is perturbed')
ASSUMPTIONS = ['orientation errors below 0.002 degree may be reported as zero']


@st.composite
def cases(draw):
  n = draw(gen.count(2, 7, 13))
  pairs = list(itertools.combinations(range(n), 2))
  return {'n': n, 'sensors': [draw(gen.pose()) for _ in range(n)],
          'changes': draw(st.lists(st.tuples(st.integers(0, len(pairs) - 1), gen.pose(0., gen.PI)),
                                   max_size=4)),
          'signs': draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))}


def test_loop(case):
  n = case['n']
  pairs = list(itertools.combinations(range(n), 2))
  loop = [(i, i + 1) for i in range(n - 1)] + [(0, n - 1)]
  transforms = {}
  for a, b in pairs:
    transforms[a, b] = ref.pose_mul(ref.pose_inv(case['sensors'][a]), case['sensors'][b])
  for index, change in case['changes']:
    transforms[pairs[index]] = ref.pose_mul(transforms[pairs[index]], change)
  dqs = []
  for pair, flip in zip(pairs, case['signs']):
    dq = DQ(transforms[pair])
    if flip:
      dq.dq = -dq.dq
    dqs.append(dq)
  keep = [d.dq.copy() for d in dqs]
  position, orientation = verification.compute_loop_error(dqs, n)
  chain = np.eye(4)
  for i in range(n - 1):
    chain = chain.dot(ref.mat(transforms[i, i + 1]))
  chain = chain.dot(ref.inv(ref.mat(transforms[0, n - 1])))
  expected = ref.transform_error(np.eye(4), chain)
  size = 1. + sum(np.linalg.norm(t[0:3]) for t in transforms.values())
  close(position, expected[0], 1e-8 * size, what='position loop error')
  close(orientation, expected[1], 3e-3, what='orientation loop error')
  on_loop = [pairs[i] for i, _ in case['changes'] if pairs[i] in loop]
  if not on_loop:
    note('consistent loop')
    require(position < 1e-8 * size and orientation < 3e-3, 'loop error of consistent calibrations',
            position=position, orientation=orientation)
  for d, k in zip(dqs, keep):
    close(ref.mat_from_dq(d.dq), ref.mat_from_dq(k), 1e-9 * size, what='input calibration')
  return n >= 3 and bool(on_loop)


SUBS = [
    Sub('loop', cases, test_loop, 3000, 40000),
]
