import math
import os
import random

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, ref, scripts
from hec.code import DQ
from hec.harness import Sub, close, note, require

PROPERTY = 'C26'
RULE = ('a case counts as non-trivial if the angular and the translation range do not start at '
        'zero, or if the initial guess is a rotation and a translation')
ASSUMPTIONS = ['angular and translation ranges have a positive width',
               'perturbations below 3e-5 rad may be reported as zero']
PROGRAM = os.path.join(env.EXP_BIN, 'optimization_experiments.py')


@st.composite
def interval(draw, largest, smallest_width):
  """A range of [0, largest], often one of the bins of the experiments."""
  bins = draw(st.booleans())
  if bins:
    count = draw(st.integers(6, 12))
    i = draw(st.integers(0, count - 1))
    return [largest * i / count, largest * (i + 1) / count]
  lo = draw(st.one_of(gen.pick(0.), gen.fixed(0.01, largest - smallest_width)))
  lo = min(lo, largest - smallest_width)
  return [lo, draw(st.one_of(gen.pick(largest, lo + smallest_width),
                             gen.fixed(lo + smallest_width, largest)))]


@st.composite
def cases(draw):
  time = draw(st.one_of(gen.pick([0., 0.], [0.03, 0.06]), interval(1., 0.01)))
  return {'pose': draw(gen.pose()), 'offset': draw(gen.component()),
          'angles': draw(interval(math.pi, 0.02)), 'distances': draw(interval(1., 0.01)),
          'times': time, 'state': draw(gen.seed())}


def _spoil(case):
  module = scripts.load(PROGRAM)
  dq = DQ(case['pose'])
  before = dq.dq.copy()
  ranges = [list(case[k]) for k in ('angles', 'distances', 'times')]
  result = module.spoil_initial_guess(case['offset'], dq, *ranges)
  size = 1. + np.linalg.norm(case['pose'][0:3])
  close(dq.dq, before, 1e-12 * size, what='initial guess afterwards')
  require(ranges == [list(case[k]) for k in ('angles', 'distances', 'times')], 'ranges modified')
  return result


def _verify(case, result):
  offset, dq, (translation, angle, shift) = result
  pose = np.array(case['pose'])
  size = 1. + np.linalg.norm(pose[0:3])
  components = np.array(dq.dq, dtype=float)
  close(np.linalg.norm(components[0:4]), 1., 1e-8, what='norm')
  close(np.dot(components[0:4], components[4:8]), 0., 1e-8 * size, what='rigid transformation')
  spoiled = ref.mat_from_dq(components)
  initial = ref.mat(pose)
  moved = spoiled[0:3, 3] - initial[0:3, 3]
  turned = ref.matrix_angle(initial[0:3, 0:3].T.dot(spoiled[0:3, 0:3]))
  # Ranges, with room for rounding only.
  slack = 1e-9 * size
  require(case['angles'][0] - 3e-5 <= turned <= case['angles'][1] + 1e-6, 'angle outside the range',
          applied=turned, range=case['angles'])
  distance = np.linalg.norm(moved)
  require(case['distances'][0] - slack <= distance <= case['distances'][1] + slack,
          'distance outside the range', applied=distance, range=case['distances'])
  time = abs(offset - case['offset'])
  require(case['times'][0] - 1e-9 <= time <= case['times'][1] + 1e-9, 'time outside the range',
          applied=time, range=case['times'])
  # Reported sizes.
  close(np.array(translation, dtype=float), moved, slack, what='reported translation')
  close(float(angle), turned, 3e-5, what='reported angle')
  close(float(shift), offset - case['offset'], 1e-9, what='reported time shift')
  return moved, turned, offset - case['offset']


def test_spoil(case):
  random.seed(case['state'])
  np.random.seed(case['state'] % (2 ** 32))
  _verify(case, _spoil(case))
  pose = case['pose']
  if case['angles'][1] > 3.14:
    note('up to half a turn')
  return bool((case['angles'][0] and case['distances'][0]) or
              (np.any(pose[0:3]) and abs(pose[6]) < 0.99))


DRAWS = 60


def test_spread(case):
  """Repeated perturbations differ and go in all directions.

  A fair sign or octant is missed by 60 draws with a probability below 1e-3 for an octant and
  1e-17 for a sign, so only signs are required.
  """
  random.seed(case['state'])
  np.random.seed(case['state'] % (2 ** 32))
  results = [_verify(case, _spoil(case)) for _ in range(DRAWS)]
  shifts = np.array([r[2] for r in results])
  if case['times'][0] > 1e-3:
    require(np.any(shifts > 0.) and np.any(shifts < 0.), 'time is only shifted in one direction')
    note('time signs')
  moves = np.array([r[0] for r in results])
  require(np.all(np.any(moves > 0., axis=0)) and np.all(np.any(moves < 0., axis=0)),
          'translations only go in one direction')
  for name, values in (('angles', [r[1] for r in results]),
                       ('distances', [np.linalg.norm(m) for m in moves])):
    lo, hi = case[name]
    middle = 0.5 * (lo + hi)
    require(min(values) < middle < max(values), 'perturbations only use a part of the range',
            what=name, smallest=min(values), largest=max(values), range=case[name])
  return True


SUBS = [
    Sub('spoil', cases, test_spoil, 1500, 15000),
    Sub('spread', cases, test_spread, 60, 500),
]
