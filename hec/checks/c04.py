import math

import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import Quat, quaternion
from hec.harness import Sub, close, note, require

PROPERTY = 'C04'
RULE = ('a case counts as non-trivial if the two orientations differ by more than 1e-4 rad and '
        'less than half a turn')
ASSUMPTIONS = ['angles below 3e-5 rad are only required to be reported below 3e-5 rad',
               'for quaternions on opposite hemispheres the angle or its complement to a full '
               'turn is accepted']


@st.composite
def pair(draw):
  a = np.array(draw(gen.unit_quat()))
  rel = np.array(draw(gen.unit_quat(0., gen.PI)))
  b = ref.qunit(ref.qmul(rel, a))
  if draw(st.booleans()):
    b = -b
  return {'a': [float(x) for x in a], 'b': [float(x) for x in b],
          'r': draw(gen.unit_quat()), 't': draw(gen.pick(1., 0.01, 0.1, 2.5, 1e-3, 1e-6, 600.))}


def _tolerance(theta):
  return 3e-5 if theta < 1e-4 or theta > 2. * math.pi - 1e-4 else 1e-6


def _check_angle(result, a, b):
  require(np.ndim(result) == 0 and not math.isnan(result), 'angle', result=result)
  theta = ref.angle_between(a, b)
  options = [theta] if np.dot(a, b) >= 1e-6 else [theta, 2. * math.pi - theta]
  deviation = min(abs(result - o) for o in options)
  require(deviation <= _tolerance(theta), 'angle between orientations', result=result, expected=options)
  return theta


def test_angle(case):
  a, b, r = np.array(case['a']), np.array(case['b']), np.array(case['r'])
  angle = quaternion.angle_between_quaternions
  qa, qb, qr = Quat(a), Quat(b), Quat(r)
  theta = _check_angle(angle(qa, qb), a, b)
  _check_angle(angle(qb, qa), b, a)
  for left, right, name in ((qr * qa, qr * qb, 'left'), (qa * qr, qb * qr, 'right')):
    _check_angle(angle(left, right), left.q, right.q)
    if np.dot(a, b) >= 1e-6:
      close(angle(left, right), theta, _tolerance(theta), what='angle after {} product'.format(name))
  require(angle(qa, qa) == 0., 'angle of equal orientations')
  require(angle(qa, qa.copy()) == 0., 'angle of equal orientations')
  close(qa.q, a, 0., what='first orientation')
  close(qb.q, b, 0., what='second orientation')
  if theta < 1e-4:
    note('tiny angle')
  if theta > math.pi - 1e-3:
    note('half-turn')
  return 1e-4 < theta < math.pi


def _rate(a, b, t):
  v = quaternion.angular_velocity_between_quaternions(a, b, t)
  require(np.shape(v) == (3,) and not np.any(np.isnan(v)), 'angular rate', v=np.array(v).tolist())
  return np.array(v)


def test_rate(case):
  a, b, t = np.array(case['a']), np.array(case['b']), case['t']
  qa, qb = Quat(a), Quat(b)
  theta = ref.angle_between(a, b)
  if theta > math.pi - 1e-3:
    note('half-turn')
    return False
  # The factor of proportionality is fixed by one reference motion.
  unit = _rate(Quat(ref.q_from_angle_axis(1., [1., 0., 0.])), Quat([0., 0., 0., 1.]), 1.)
  factor = unit[0]
  require(abs(factor) > 1e-3 and np.linalg.norm(unit[1:3]) < 1e-9, 'rate of a rotation about x',
          rate=unit.tolist())
  d = ref.qmul(a, ref.qconj(b))
  d = -d if d[3] < 0. else d
  n = np.linalg.norm(d[0:3])
  axis = d[0:3] / n if n > 0. else np.zeros(3)
  expected = factor * theta / t * axis
  tol = (5e-6 if theta < 1e-4 else 1e-5 * theta) / t
  v = _rate(qa, qb, t)
  close(v, expected, tol, what='angular rate')
  close(_rate(qb, qa, t), -expected, tol, what='angular rate of swapped orientations')
  for sa in (1., -1.):
    for sb in (1., -1.):
      close(_rate(Quat(sa * a), Quat(sb * b), t), expected, tol, what='angular rate with other signs')
  close(_rate(qa, qb, 2. * t), v / 2., 1e-9 * (1. + np.linalg.norm(v)), what='rate in twice the time')
  close(_rate(qa, qa, t), np.zeros(3), 5e-6 / t, what='rate without motion')
  close(qa.q, a, 0., what='first orientation')
  close(qb.q, b, 0., what='second orientation')
  return theta > 1e-4


SUBS = [
    Sub('angle', pair, test_angle, 5000, 60000),
    Sub('rate', pair, test_rate, 5000, 60000),
]
