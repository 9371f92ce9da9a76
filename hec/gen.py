"""Hypothesis strategies producing plain JSON data.

Numbers are built from integers so that failures shrink to readable values, and
special values (zero, half-turns, tiny rotations) appear with high probability.
"""
import math

import numpy as np
from hypothesis import strategies as st

from hec import ref

PI = math.pi


def fixed(lo, hi, digits=4):
  """Decimal numbers of the interval with a fixed number of digits."""
  scale = 10 ** digits
  return st.integers(int(math.ceil(lo * scale)), int(math.floor(hi * scale))).map(
      lambda i: i / float(scale))


def pick(*values):
  return st.sampled_from(values)


def component():
  return st.one_of(pick(0., 1., -1., 0.5, 2.), fixed(-10., 10.), fixed(-1000., 1000., 2),
                   fixed(-0.01, 0.01, 6))


def vec3(scale=10.):
  return st.one_of(
      pick([0., 0., 0.], [1., 0., 0.], [0., -1., 0.], [0., 0., 1.]),
      st.lists(fixed(-scale, scale), min_size=3, max_size=3))


@st.composite
def axis(draw):
  if draw(st.booleans()):
    v = draw(pick([1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.],
                  [0., 0., -1.], [1., 1., 0.], [0., 1., -1.], [1., 1., 1.], [-1., 1., 1.]))
  else:
    v = draw(st.lists(st.integers(-100, 100), min_size=3, max_size=3))
    if not any(v):
      v = [0, 0, 1]
  v = np.array(v, dtype=float)
  return [float(x) for x in v / np.linalg.norm(v)]


def angle(lo=0., hi=2. * PI):
  special = [a for a in (0., 1e-9, 1e-7, 1e-6, 3e-6, 1e-5, 1e-4, 1e-3, 8e-3, 0.1, PI / 3., PI / 2.,
                         PI - 1e-2, PI - 1e-4, PI - 1e-6, PI - 1e-9, PI, PI + 1e-6, PI + 1e-3,
                         1.5 * PI, 2. * PI - 1e-3) if lo <= a <= hi]
  uniform = fixed(lo, hi)
  return st.one_of(uniform, uniform, st.sampled_from(special)) if special else uniform


@st.composite
def unit_quat(draw, lo=0., hi=2. * PI, signs=True):
  a = draw(angle(lo, hi))
  v = draw(axis())
  q = ref.q_from_angle_axis(a, v)
  # cos(pi / 2) is not exactly zero in floating point; make exact half-turns exact.
  if a == PI:
    q[3] = 0.
  if signs and draw(st.booleans()):
    q = -q
  return [float(x) for x in q]


@st.composite
def scaled_quat(draw):
  scale = 10. ** draw(st.integers(-6, 6)) * draw(pick(1., 1., -1., 3.))
  return [x * scale for x in draw(unit_quat())]


def quat():
  """Any quaternion that is not almost zero."""
  return st.one_of(
      unit_quat(), scaled_quat(),
      st.lists(component(), min_size=4, max_size=4).filter(lambda q: np.linalg.norm(q) > 1e-3))


def any_quat():
  return st.one_of(quat(), st.lists(component(), min_size=4, max_size=4))


@st.composite
def translation(draw):
  scale = draw(pick(0., 1e-3, 1., 1., 1., 10., 1000.))
  v = draw(st.lists(fixed(-1., 1.), min_size=3, max_size=3))
  return [float(x * scale) for x in v]


@st.composite
def pose(draw, lo=0., hi=2. * PI, signs=True):
  return draw(translation()) + draw(unit_quat(lo, hi, signs))


@st.composite
def count(draw, lo, hi, rare):
  """Mostly numbers up to hi, sometimes up to a much larger one."""
  return draw(st.integers(lo, hi) if draw(st.integers(0, 9)) else st.integers(lo, rare))


def seed():
  return st.integers(0, 2 ** 31 - 1)


def random_unit(rng):
  v = rng.normal(size=3)
  return v / np.linalg.norm(v)


def random_pose(rng, max_angle=PI, scale=1., min_angle=0.):
  q = ref.q_from_angle_axis(rng.uniform(min_angle, max_angle), random_unit(rng))
  return np.append(rng.uniform(-scale, scale, 3), q)
