import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import DQ
from hec.harness import Sub, close, note, require

PROPERTY = 'C06'
SMALLEST = 2e-6
RULE = ('a case counts as non-trivial if the motion has a rotation of at least 2e-6 rad and a '
        'translation, or is a pure translation')
ASSUMPTIONS = ['rotations between 0 and 2e-6 rad are not generated: the axis of such a motion is '
               'numerically undefined in double precision']


@st.composite
def motion(draw):
  kind = draw(gen.pick('screw', 'screw', 'screw', 'translation', 'identity', 'half-turn'))
  t = draw(gen.translation())
  if kind == 'identity':
    return {'kind': kind, 'pose': [0., 0., 0., 0., 0., 0., 1.]}
  if kind == 'translation':
    if not np.linalg.norm(t) > 1e-6:
      t = [0.5, 0., 0.]
    return {'kind': kind, 'pose': t + [0., 0., 0., 1.]}
  lo, hi = SMALLEST, gen.PI
  angle = hi if kind == 'half-turn' else draw(st.one_of(
      gen.fixed(1e-3, hi - 1e-4), gen.angle(lo, hi), gen.fixed(lo, 2e-3, 6)))
  q = ref.q_from_angle_axis(angle, draw(gen.axis()))
  if angle == hi:
    q[3] = 0.
  return {'kind': kind, 'pose': t + [float(x) for x in q]}


def _tolerance(pose):
  """The real part of a small rotation only holds half of the digits of its angle."""
  angle = ref.angle_of(pose[3:7])
  return 1e-6 + (4e-15 / angle ** 2 if angle > 0. else 0.)


def _screw(dq):
  axis, rotation, translation = dq.screw_axis()
  axis = np.array(axis)
  require(axis.shape == (3,) and not np.any(np.isnan(axis)) and not np.isnan(rotation) and
          not np.isnan(translation), 'screw parameters', axis=axis.tolist(), rotation=rotation,
          translation=translation)
  return axis, float(rotation), float(translation)


def test_screw(case):
  pose = np.array(case['pose'])
  size = 1. + np.linalg.norm(pose[0:3])
  dq = DQ(pose)
  before = dq.dq.copy()
  note(case['kind'])
  axis, rotation, translation = _screw(dq)
  expected_axis, expected_rotation, expected_translation = ref.screw(pose)
  tolerance = _tolerance(pose)
  if case['kind'] == 'screw' and expected_rotation < 0.1:
    note('less than 0.1 degree')
  close(axis, expected_axis, tolerance, what='screw axis')
  close(rotation, expected_rotation, 1e-6, what='rotation in degrees')
  close(translation, expected_translation, tolerance * size, what='translation along the axis')
  axis[:] = 7.
  close(dq.dq, before, 1e-12 * size, what='dual quaternion afterwards')
  s = dq.scalar()
  expected = np.zeros(8)
  expected[[3, 7]] = before[[3, 7]]
  close(s.dq, expected, 1e-9 * size, what='scalar part')
  s.dq[:] = 7.
  close(dq.dq, before, 1e-12 * size, what='dual quaternion afterwards')
  return case['kind'] != 'identity' and (np.linalg.norm(pose[0:3]) > 0.)


@st.composite
def frame_cases(draw):
  case = draw(motion())
  case['frame'] = draw(gen.pose())
  return case


def test_frames(case):
  pose, frame = np.array(case['pose']), np.array(case['frame'])
  size = 1. + np.linalg.norm(pose[0:3]) + np.linalg.norm(frame[0:3])
  dq, X = DQ(pose), DQ(frame)
  other = X * dq * X.inverse()
  note(case['kind'])
  close(other.scalar().dq, dq.scalar().dq, 1e-9 * size, what='scalar part in another frame')
  if pose[6] < 1e-3 or case['kind'] != 'screw':
    return False  # the sign of the real part or an exact zero is lost by rounding
  axis, rotation, translation = _screw(dq)
  axis_2, rotation_2, translation_2 = _screw(other)
  # A frame far away adds rounding errors of its distance to the translation.
  tolerance = 10. * _tolerance(pose) + 1e-15 * size / ref.angle_of(pose[3:7])
  close(rotation_2, rotation, 1e-5, what='angle in another frame')
  close(translation_2, translation, tolerance * size, what='pitch in another frame')
  close(axis_2, ref.rot(frame[3:7]).dot(axis), tolerance, what='axis in another frame')
  return True


SUBS = [
    Sub('screw', motion, test_screw, 5000, 60000),
    Sub('frames', frame_cases, test_frames, 3000, 40000),
]
