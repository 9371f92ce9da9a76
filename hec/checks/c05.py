import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import DQ, Quat, dq_from_components, dual_quaternion
from hec.harness import Sub, close, note, require

PROPERTY = 'C05'
RULE = ('a case counts as non-trivial if every transformation in it has a rotation above 1e-6 rad '
        'and a translation')


def _nontrivial(*poses):
  return all(ref.angle_of(p[3:7]) > 1e-6 and np.linalg.norm(p[0:3]) > 0. for p in poses)


def _size(*poses):
  return 1. + sum(np.linalg.norm(p[0:3]) for p in poses)


def _same(dq, T, size, what):
  """The dual quaternion represents the matrix, read from its components."""
  close(ref.mat_from_dq(dq.dq), T, 1e-9 * size, what=what)


def _dq():
  return dual_quaternion.DualQuaternion


def test_construct(case):
  pose, scale = np.array(case['pose']), case['scale']
  T = ref.mat(pose)
  size = _size(pose)
  scaled = pose.copy()
  scaled[3:7] *= scale
  components = ref.dq_components(pose)
  given = {
      'pose': _dq().from_pose(*[float(x) for x in scaled]),
      'pose vector': _dq().from_pose_vector(scaled),
      'pose list': _dq().from_pose_vector(list(scaled)),
      'component vector': _dq().from_vector(components),
      'component list': _dq().from_vector(list(components)),
      'matrix': _dq().from_transformation_matrix(T),
      'two quaternions': _dq()(Quat(components[0:4]), Quat(components[4:8])),
  }
  close(scaled[3:7], pose[3:7] * scale, 1e-15 * scale, what='pose vector after conversion')
  close(T, ref.mat(pose), 0., what='matrix after conversion')
  for name, dq in given.items():
    _same(dq, T, size, 'dual quaternion from ' + name)
    close(np.linalg.norm(dq.dq[0:4]), 1., 1e-9, what='norm, from ' + name)
    close(np.dot(dq.dq[0:4], dq.dq[4:8]), 0., 1e-9 * size, what='unit condition, from ' + name)
    close(dq.to_matrix(), T, 1e-9 * size, what='matrix, from ' + name)
    p = dq.to_pose()
    require(p.shape == (7,), 'pose shape')
    require(p[6] >= 0., 'real part of the pose', pose=p.tolist())
    close(ref.mat(p), T, 1e-9 * size, what='pose, from ' + name)
    close(np.linalg.norm(p[3:7]), 1., 1e-9, what='norm of the pose, from ' + name)
    close(dq.norm(), [1., 0.], 1e-9 * size, what='norm')
    require(dq.is_normalized() or size > 5., 'is_normalized')
    dq.to_matrix()[:] = 4.
    dq.to_pose()[:] = 4.
    close(dq.to_matrix(), T, 1e-9 * size, what='matrix again, from ' + name)
    c = dq.copy()
    close(c.dq, dq.dq, 0., what='copy')
    c.dq[:] = 3.
    _same(dq, T, size, 'dual quaternion after changing a copy')
  if scale != 1.:
    note('scaled quaternion')
  if pose[6] < 0.:
    note('negative real part')
  identity = _dq().identity()
  close(identity.dq, [0., 0., 0., 1., 0., 0., 0., 0.], 0., what='identity')
  identity.dq[:] = 2.
  close(_dq().identity().dq, [0., 0., 0., 1., 0., 0., 0., 0.], 0., what='identity later')
  dq = given['component vector']
  for i, name in enumerate(('r_x', 'r_y', 'r_z', 'r_w', 't_x', 't_y', 't_z', 't_w')):
    close(getattr(dq, name), dq.dq[i], 0., what=name)
  close(dq.q_rot.q, dq.dq[0:4], 0., what='rotation part')
  close(dq.q_dual.q, dq.dq[4:8], 0., what='dual part')
  require(str(dq) and repr(dq), 'text form')
  for part in (dq.q_rot, dq.q_dual):
    part.q[:] = 6.
  _same(dq, T, size, 'dual quaternion after changing its parts')
  # A multiple of a dual quaternion stands for the same transformation.
  multiple = lambda: _dq().from_vector(components * scale)
  close(multiple().to_matrix(), T, 1e-9 * size, what='matrix of a multiple')
  close(ref.mat(multiple().to_pose()), T, 1e-9 * size, what='pose of a multiple')
  close(multiple().passive_transform_point([1., -2., .5]), T.dot([1., -2., .5, 1.])[0:3],
        1e-9 * size, what='point transformed by a multiple')
  close(multiple().active_transform_point([1., -2., .5]),
        ref.inv(T).dot([1., -2., .5, 1.])[0:3], 1e-9 * size,
        what='point transformed back by a multiple')
  return _nontrivial(pose)


def test_algebra(case):
  a, b = np.array(case['a']), np.array(case['b'])
  s = case['s']
  A, B = ref.mat(a), ref.mat(b)
  size = _size(a, b)
  da, db = DQ(a), DQ(b)
  before_a, before_b = da.dq.copy(), db.dq.copy()
  ca, cb = before_a, before_b
  results = []

  def result(dq):
    results.append(dq)
    return dq

  _same(result(da * db), A.dot(B), size, 'product')
  _same(result(da.inverse()), ref.inv(A), size, 'inverse')
  _same(result(da.conjugate()), ref.inv(A), size, 'conjugate')
  _same(result(da / db), A.dot(ref.inv(B)), size, 'quotient')
  close(result(da * da.inverse()).dq, [0., 0., 0., 1., 0., 0., 0., 0.], 1e-9 * size, what='a a^-1')
  close(result(da.inverse() * da).dq, [0., 0., 0., 1., 0., 0., 0., 0.], 1e-9 * size, what='a^-1 a')
  close(result(da + db).dq, ca + cb, 1e-12 * size, what='sum')
  close(result(da - db).dq, ca - cb, 1e-12 * size, what='difference')
  close(result(da * s).dq, ca * s, 1e-12 * size * abs(s), what='product with a scalar')
  close(result(s * da).dq, ca * s, 1e-12 * size * abs(s), what='product with a scalar')
  close(result(da / s).dq, ca / s, 1e-12 * size / abs(s), what='quotient with a scalar')
  scaled = result(da * abs(s))
  close(scaled.norm(), [abs(s), 0.], 1e-9 * size * abs(s), what='norm of a scaled dual quaternion')
  require(abs(abs(s) - 1.) < 1e-4 or not scaled.is_normalized(), 'scaled dual quaternion is normalised')
  total = ca + cb
  length = np.linalg.norm(total[0:4])
  if length > 0.1:
    close((da + db).norm(), [length, np.dot(total[0:4], total[4:8]) / length], 1e-9 * size * size,
          what='norm of a sum')
  scaled.normalize()
  close(scaled.dq, ca, 1e-9 * size, what='normalised')
  # Inverse of a transformation that is not normalised.
  close((scaled * s * (scaled * s).inverse()).dq, [0., 0., 0., 1., 0., 0., 0., 0.], 1e-8 * size,
        what='inverse of a scaled dual quaternion')
  positive = result(da.copy())
  positive.enforce_positive_q_rot_w()
  require(positive.dq[3] >= 0., 'positive real part')
  close(positive.dq, ca if ca[3] >= 0. else -ca, 0., what='enforced sign')
  _same(da, A, size, 'left operand')
  _same(db, B, size, 'right operand')
  for r in results:
    r.dq[:] = 5.
  close(da.dq, before_a, 1e-12 * size, what='left operand after changing the results')
  close(db.dq, before_b, 1e-12 * size, what='right operand after changing the results')
  return _nontrivial(a, b)


def test_points(case):
  a, p = np.array(case['pose']), np.array(case['p'])
  T = ref.mat(a)
  dq = DQ(a)
  size = _size(a) + np.linalg.norm(p)
  forward = T.dot(np.append(p, 1.))[0:3]
  close(dq.passive_transform_point(p), forward, 1e-9 * size, what='transformed point')
  close(dq.active_transform_point(p), ref.inv(T).dot(np.append(p, 1.))[0:3], 1e-9 * size,
        what='inversely transformed point')
  close(dq.passive_transform_point(list(case['p'])), forward, 1e-9 * size, what='transformed list')
  close(dq.active_transform_point(forward), p, 1e-8 * size, what='point transformed back and forth')
  close(p, case['p'], 0., what='point')
  _same(dq, T, size, 'dual quaternion after transforming')
  return _nontrivial(a) and np.any(p)


def test_equality(case):
  a = ref.dq_components(case['pose'])
  dq = dq_from_components(a)
  require(dq == dq_from_components(a), 'equal dual quaternions')
  require(dq == dq_from_components(a * (1. + 1e-12)), 'nearly equal dual quaternions')
  require(not (dq == dq_from_components(-a)), 'dual quaternion of opposite sign')
  require(not (dq == 'text') and not (dq == 1.), 'other types')
  b = a.copy()
  b[case['i']] += case['d'] * (1. + abs(b[case['i']]))
  other = dq_from_components(b)
  require(not (dq == other), 'different dual quaternions', i=case['i'])
  require(not (other == dq), 'different dual quaternions', i=case['i'])
  return True


@st.composite
def construct_cases(draw):
  return {'pose': draw(gen.pose()), 'scale': draw(gen.pick(1., 1., 0.1, 3., 25., 1e-4, 1e4))}


def algebra_cases():
  return st.fixed_dictionaries({'a': gen.pose(), 'b': gen.pose(),
                                's': gen.pick(1., -1., 0.5, 3., -20., 2, 1e-3, 1e3)})


SUBS = [
    Sub('construct', construct_cases, test_construct, 2500, 30000),
    Sub('algebra', algebra_cases, test_algebra, 2500, 30000),
    Sub('points', lambda: st.fixed_dictionaries({'pose': gen.pose(), 'p': gen.vec3()}), test_points,
        2500, 30000),
    Sub('equality', lambda: st.fixed_dictionaries(
        {'pose': gen.pose(), 'i': st.integers(0, 7), 'd': gen.pick(1., -1., 0.01, -0.01, 1e-3, 1e-4, -5e-5)}),
        test_equality, 1000, 10000),
]
