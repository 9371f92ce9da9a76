import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import Quat, quaternion
from hec.harness import Sub, close, note, raises, require

PROPERTY = 'C03'
RULE = ('a case counts as non-trivial if the end points differ by more than 1e-6 rad and the '
        'fraction is strictly between 0 and 1')
ASSUMPTIONS = ['end points half a turn apart (within 1e-3 rad) have no unique shorter rotation '
               'and are only checked for unit length and covered angle']


@st.composite
def pair(draw):
  """Two unit orientations with a chosen relative angle and arbitrary signs."""
  a = np.array(draw(gen.unit_quat()))
  rel = np.array(draw(gen.unit_quat(0., gen.PI)))
  b = ref.qunit(ref.qmul(a, rel))
  if draw(st.booleans()):
    b = -b
  return {'a': [float(x) for x in a], 'b': [float(x) for x in b]}


@st.composite
def cases(draw):
  case = draw(pair())
  case['f'] = draw(st.one_of(gen.fixed(0., 1.), gen.pick(0., 1., 0.5, 1e-9, 1. - 1e-9)))
  return case


def test_slerp(case):
  a, b, f = case['a'], case['b'], case['f']
  qa, qb = Quat(a), Quat(b)
  q = quaternion.quaternion_slerp(qa, qb, f)
  theta = ref.angle_between(a, b)
  close(np.linalg.norm(q.q), 1., 1e-7, what='norm')
  close(ref.angle_between(a, q.q), f * theta, 1e-6, what='angle from the first end point')
  close(ref.angle_between(b, q.q), (1. - f) * theta, 1e-6, what='angle to the second end point')
  if theta < gen.PI - 1e-3:
    require(ref.same_rotation(q.q, ref.slerp(a, b, f)) < 1e-6, 'interpolated rotation', q=q.q.tolist())
  if f in (0., 1.):
    require(ref.same_rotation(q.q, b if f else a) < 1e-12, 'end point', q=q.q.tolist())
  if np.dot(a, b) < 0.:
    note('opposite hemispheres')
  # Neither end point is modified or shared.
  q.q[:] = 9.
  close(qa.q, a, 0., what='first end point')
  close(qb.q, b, 0., what='second end point')
  return theta > 1e-6 and 0. < f < 1.


def test_lerp(case):
  a, b, f = np.array(case['a']), np.array(case['b']), case['f']
  qa, qb = Quat(a), Quat(b)
  blend = a + f * (b - a)
  q = quaternion.quaternion_lerp(qa, qb, f)
  close(q.q, blend, 1e-12, what='linear interpolation')
  q.q[:] = 9.
  n = np.linalg.norm(blend)
  if n > 1e-3:
    q = quaternion.quaternion_nlerp(qa, qb, f)
    close(q.q, blend / n, 1e-9, what='normalised linear interpolation')
    q.q[:] = 9.
  close(qa.q, a, 0., what='first end point')
  close(qb.q, b, 0., what='second end point')
  return ref.angle_between(a, b) > 1e-6 and 0. < f < 1.


@st.composite
def time_cases(draw):
  case = draw(pair())
  case['start'] = draw(gen.pick(0., 12.5, -3., 1.5e9))
  case['length'] = draw(gen.pick(0.01, 0.1, 1., 10., 0.05, 3600.))
  case['f'] = draw(st.lists(st.one_of(gen.fixed(0., 1.), gen.pick(0., 1.)), min_size=draw(gen.pick(0, 1, 1, 5)), max_size=12))
  return case


def test_times(case):
  a, b = case['a'], case['b']
  if ref.angle_between(a, b) > gen.PI - 1e-3:
    note('half a turn apart')
    return False
  left = np.float64(case['start'])
  right = np.float64(case['start'] + case['length'])
  times = np.array([min(right, left + f * (right - left)) for f in case['f']])
  result = quaternion.quaternions_interpolate(Quat(a), left, Quat(b), right, times)
  require(len(result) == len(times), 'number of results', n=len(result))
  for t, q in zip(times, result):
    share = (t - left) / (right - left)
    require(ref.same_rotation(q.q, ref.slerp(a, b, share)) < 1e-6, 'rotation at time', t=t,
            q=q.q.tolist())
  if abs(case['start']) > 1e6:
    note('epoch stamps')
  return ref.angle_between(a, b) > 1e-6 and any(0. < f < 1. for f in case['f'])


@st.composite
def rejected(draw):
  case = draw(pair())
  case['f'] = draw(gen.fixed(0., 1.))
  case['what'] = draw(gen.pick('fraction', 'first', 'second'))
  if case['what'] == 'fraction':
    case['f'] = draw(st.one_of(
        gen.fixed(-10., -0.001), gen.fixed(1.001, 10.), gen.pick(-1e-6, 1. + 1e-6, -1e-4, 1.0001)))
  case['scale'] = draw(gen.pick(0.5, 0.99, 1.01, 2., 0., 0.999, 1.001, 0.9998, 1.0002))
  case['kind'] = draw(gen.pick('slerp', 'lerp', 'nlerp', 'times'))
  return case


def test_rejected(case):
  a, b = np.array(case['a']), np.array(case['b'])
  if case['what'] == 'first':
    a = a * case['scale']
  elif case['what'] == 'second':
    b = b * case['scale']
  if case['kind'] == 'times':
    # A time before the first or after the second end point has such a fraction.
    def function(q_left, q_right, f):
      times = np.array([3.5, 3. + 2. * f, 4.])
      return quaternion.quaternions_interpolate(q_left, 3., q_right, 5., times)
  else:
    function = getattr(quaternion, 'quaternion_' + case['kind'])
  note(case['kind'] + ' ' + case['what'])
  with raises(Exception, '{}: invalid {}'.format(case['kind'], case['what'])):
    function(Quat(a), Quat(b), case['f'])
  return True


SUBS = [
    Sub('slerp', cases, test_slerp, 5000, 60000),
    Sub('lerp', cases, test_lerp, 3000, 30000),
    Sub('times', time_cases, test_times, 3000, 30000),
    Sub('rejected', rejected, test_rejected, 2000, 10000),
]
