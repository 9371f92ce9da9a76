import json
import os

import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import DQ, extrinsic
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C19'
RULE = ('a case counts as non-trivial if the rotation is larger than 0.001 rad and both translation '
        'and time offset are not zero')


def offset():
  return st.one_of(gen.pick(0., 0.5, -0.125, 1e-9, 1466012345.678, 1. / 3., -2.5e-11, 0.1234567890123456), gen.fixed(-100., 100., 6))


@st.composite
def json_cases(draw):
  return {'pose': draw(gen.pose()), 'offset': draw(offset()), 'write': draw(st.booleans()),
          'read': draw(st.booleans()), 'numpy': draw(st.booleans())}


def _conjugated(pose, switch):
  pose = np.array(pose, dtype=float)
  if switch:
    pose[3:6] *= -1.
  return pose


def test_json(case):
  pose = np.array(case['pose'])
  dq = DQ(pose)
  keep = dq.dq.copy()
  value = np.float64(case['offset']) if case['numpy'] else case['offset']
  calibration = extrinsic.ExtrinsicCalibration(value, dq)
  size = 1e-9 * (1. + np.linalg.norm(pose[0:3]))
  with scratch() as d:
    path = os.path.join(d, 'calibration.json')
    with open(path, 'w') as f:
      f.write('x' * 5000)
    if case['write']:
      calibration.writeJson(path, True)
    else:
      calibration.writeJson(path)
    with open(path) as f:
      data = json.load(f)
    if case['read']:
      result = extrinsic.ExtrinsicCalibration.fromJson(path, True)
    else:
      result = extrinsic.ExtrinsicCalibration.fromJson(path)
  for name, keys in (('rotation', 'ijkw'), ('translation', 'xyz')):
    for k in keys:
      require(isinstance(data[name][k], (int, float)), 'not a number', key=k)
  require(isinstance(data['delay'], (int, float)), 'not a number', key='delay')
  close(data['delay'], case['offset'], 0., what='delay in the file')
  close([data['translation'][k] for k in 'xyz'], pose[0:3], size, what='translation in the file')
  q = np.array([data['rotation'][k] for k in 'ijkw'])
  close(np.linalg.norm(q), 1., 1e-9, what='norm in the file')
  stored = _conjugated(pose, case['write'])
  require(ref.same_rotation(q, stored[3:7]) < 1e-9, 'rotation in the file', actual=q.tolist(),
          expected=stored[3:7].tolist())
  close(result.time_offset, case['offset'], 0., what='time offset')
  close(ref.mat_from_dq(result.pose_dq.dq), ref.mat(_conjugated(pose, case['write'] != case['read'])),
        1e-8 * (1. + np.linalg.norm(pose[0:3])), what='transformation')
  close(np.linalg.norm(result.pose_dq.dq[0:4]), 1., 1e-9, what='norm')
  close(ref.mat_from_dq(dq.dq), ref.mat_from_dq(keep), size, what='written calibration')
  close(calibration.time_offset, case['offset'], 0., what='written time offset')
  if case['write'] != case['read']:
    note('different conventions')
  return (ref.angle_of(pose[3:7]) > 1e-3 and np.linalg.norm(pose[0:3]) > 0. and
          case['offset'] != 0.)


@st.composite
def product_cases(draw):
  n = draw(st.integers(2, 4))
  return {'poses': [draw(gen.pose()) for _ in range(n)], 'offsets': [draw(offset()) for _ in range(n)]}


def test_product(case):
  parts = [extrinsic.ExtrinsicCalibration(o, DQ(p)) for o, p in zip(case['offsets'], case['poses'])]
  keep = [p.pose_dq.dq.copy() for p in parts]
  product = parts[0]
  T = ref.mat(case['poses'][0])
  for part, pose in zip(parts[1:], case['poses'][1:]):
    product = product * part
    T = T.dot(ref.mat(pose))
  size = 1. + sum(np.linalg.norm(p[0:3]) for p in case['poses'])
  close(ref.mat_from_dq(product.pose_dq.dq), T, 1e-8 * size, what='composed transformation')
  total = sum(case['offsets'])
  close(product.time_offset, total, 1e-6, what='composed time offset')
  for part, o, k in zip(parts, case['offsets'], keep):
    require(part.time_offset == o, 'operand changed')
    close(ref.mat_from_dq(part.pose_dq.dq), ref.mat_from_dq(k), 1e-9 * size, what='operand')
  with scratch() as d:
    path = os.path.join(d, 'product.json')
    product.writeJson(path)
    again = extrinsic.ExtrinsicCalibration.fromJson(path)
  close(ref.mat_from_dq(again.pose_dq.dq), T, 1e-8 * size, what='stored product')
  require(isinstance(str(product), str), 'text')
  return all(ref.angle_of(np.array(p[3:7])) > 1e-3 for p in case['poses'])


SUBS = [
    Sub('json', json_cases, test_json, 3000, 40000),
    Sub('product', product_cases, test_product, 1500, 20000),
]
