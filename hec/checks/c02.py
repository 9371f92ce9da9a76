import math
import random

import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import Quat, quaternion
from hec.harness import Sub, close, note, require

PROPERTY = 'C02'
RULE = ('a case counts as non-trivial if the rotation is not the identity and its axis is not a '
        'coordinate axis; angles at and near 0 and 180 degrees are counted as features')


def _features(q):
  a = ref.angle_of(q)
  if a == 0.:
    note('identity')
  elif a < 1e-2:
    note('small rotation')
  elif abs(a - math.pi) < 1e-2:
    note('half-turn')
  if q[3] < 0.:
    note('negative real part')
  return a > 1e-6 and np.sum(np.abs(q[0:3]) > 1e-9) > 1


def test_to(case):
  q, v = case['q'], np.array(case['v'])
  code = Quat(q)
  R = ref.rot(q)
  tol = 1e-11
  close(code.to_rotation_matrix(), R, tol, what='rotation matrix')
  T = np.eye(4)
  T[0:3, 0:3] = R
  close(code.to_transformation_matrix(), T, tol, what='homogeneous matrix')
  close(code.rotate_vector(v), R.dot(v), tol * (1. + np.linalg.norm(v)), what='rotated vector')
  close(code.rotate_vector(list(v)), R.dot(v), tol * (1. + np.linalg.norm(v)),
        what='rotated list')
  close(v, case['v'], 0., what='vector after rotating it')
  close((-code).to_rotation_matrix(), R, tol, what='rotation matrix of -q')
  close(code.q, q, 0., what='quaternion after conversion')
  # The matrices handed out belong to the caller.
  code.to_rotation_matrix()[:] = 5.
  code.to_transformation_matrix()[:] = 5.
  close(code.to_rotation_matrix(), R, tol, what='rotation matrix again')
  return _features(q)


def test_matrix_round_trip(case):
  q = case['q']
  R = ref.rot(q)
  back = quaternion.Quaternion.from_rotation_matrix(R)
  require(not np.any(np.isnan(back.q)), 'quaternion of a rotation matrix is NaN', R=R.tolist())
  require(ref.same_rotation(back.q, q) < 1e-7, 'matrix -> quaternion', q=q, back=back.q.tolist())
  again = quaternion.Quaternion.from_rotation_matrix(Quat(q).to_rotation_matrix())
  require(ref.same_rotation(again.q, q) < 1e-7, 'quaternion -> matrix -> quaternion', q=q,
          back=again.q.tolist())
  close(ref.rot(q), R, 0., what='matrix after conversion')
  return _features(q)


def test_angle_axis_to(case):
  angle, axis, scale = case['angle'], np.array(case['axis']), case['scale']
  scaled = list(axis * scale) if case['as_list'] else axis * scale
  q = quaternion.Quaternion.from_angle_axis(angle, scaled)
  expected = ref.q_from_angle_axis(angle, axis)
  require(ref.same_rotation(q.q, expected) < 1e-11, 'angle/axis -> quaternion',
          q=q.q.tolist(), expected=expected.tolist())
  close(np.array(scaled), axis * scale, 0., what='axis after conversion')
  if scale != 1.:
    note('axis not unit')
  return _features(expected)


def test_angle_axis_from(case):
  q = case['q']
  result = np.array(Quat(q).angle_axis())
  require(result.shape == (4,) and not np.any(np.isnan(result)), 'angle/axis', result=result.tolist())
  axis, angle = result[0:3], result[3]
  small = ref.angle_of(q) < 1e-4
  tol = 5e-6 if small else 1e-9
  close(np.linalg.norm(axis), 1., 1e-3 if small else 1e-7, what='axis length')
  close(ref.rodrigues(angle, axis / np.linalg.norm(axis)), ref.rot(q), tol,
        what='rotation of the angle/axis form')
  back = quaternion.Quaternion.from_angle_axis(angle, axis)
  require(ref.same_rotation(back.q, q) < tol, 'angle/axis -> quaternion', q=q, back=back.q.tolist())
  return _features(q)


def test_product(case):
  a, b, v = case['a'], case['b'], np.array(case['v'])
  qa, qb = Quat(a), Quat(b)
  R = ref.rot(a).dot(ref.rot(b))
  close((qa * qb).to_rotation_matrix(), R, 1e-11, what='matrix of the product')
  close(qa.rotate_vector(qb.rotate_vector(v)), (qa * qb).rotate_vector(v),
        1e-10 * (1. + np.linalg.norm(v)), what='rotating twice')
  close(qa.inverse().to_rotation_matrix(), ref.rot(a).T, 1e-11, what='matrix of the inverse')
  return _features(a) and _features(b)


def test_random(case):
  lo, hi = sorted([case['lo'], case['hi']])
  np.random.seed(case['seed'])
  random.seed(case['seed'])
  for _ in range(3):
    q = quaternion.Quaternion.get_random(lo, hi)
    close(q.norm(), 1., 1e-9, what='norm of a random quaternion')
    angle = ref.angle_of(q.q)
    require(lo - 1e-7 <= angle <= hi + 1e-7, 'angle of a random quaternion', angle=angle, lo=lo, hi=hi)
  q = quaternion.Quaternion.get_random()
  close(q.norm(), 1., 1e-9, what='norm of a random quaternion')
  require(quaternion.Quaternion.get_random().q.tolist() != q.q.tolist(), 'random quaternions repeat')
  return hi > lo


def _dict(**kw):
  return lambda: st.fixed_dictionaries({k: v() for k, v in kw.items()})


SUBS = [
    Sub('to', _dict(q=gen.unit_quat, v=gen.vec3), test_to, 4000, 50000),
    Sub('matrix', _dict(q=gen.unit_quat), test_matrix_round_trip, 4000, 50000),
    Sub('angle_axis_to', _dict(angle=lambda: gen.angle(-4. * gen.PI, 4. * gen.PI), axis=gen.axis,
                               scale=lambda: gen.pick(1., 1., 0.01, 3., 100., 1e-7, 1e7),
                               as_list=st.booleans), test_angle_axis_to, 4000, 50000),
    Sub('angle_axis_from', _dict(q=gen.unit_quat), test_angle_axis_from, 4000, 50000),
    Sub('product', _dict(a=gen.unit_quat, b=gen.unit_quat, v=gen.vec3), test_product, 2000, 30000),
    Sub('random', _dict(lo=lambda: gen.fixed(0., math.pi), hi=lambda: gen.fixed(0., math.pi),
                        seed=gen.seed), test_random, 1000, 10000),
]
