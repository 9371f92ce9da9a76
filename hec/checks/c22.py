import os

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, motion, ref, scripts
from hec.checks import c15
from hec.checks.c16 import _expected_pose, _matches
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C22'
RULE = ('a case counts as non-trivial if the hidden offset is larger than five sample periods and '
        'the sensors are related by a rotation')
ASSUMPTIONS = c15.ASSUMPTIONS + ['consecutive stamps are at least a microsecond apart']
PROGRAM = os.path.join(env.BIN, 'compute_aligned_poses.py')


@st.composite
def cases(draw):
  case = draw(c15.cases())
  case['start'] = draw(gen.pick(0., 100., 1.4e9))
  case['format'] = draw(gen.pick(None, 'Hamilton', 'JPL', 'JPL'))
  case['visualize'] = draw(gen.pick(None, None, 'False', 'false', '0', 'no', 'off', 'True'))
  case['offset_file'] = draw(gen.pick(True, True, True, False))
  case['scaled'] = draw(gen.pick(False, False, True))
  case['order'] = draw(gen.seed())
  return case


def _command(case, offset_file=True, visualize=None):
  words = [('--poses_B_H_csv_file', 'in_A.csv'), ('--poses_W_E_csv_file', 'in_B.csv'),
           ('--aligned_poses_B_H_csv_file', 'out_A.csv'),
           ('--aligned_poses_W_E_csv_file', 'out_B.csv')]
  if offset_file:
    words.append(('--time_offset_output_csv_file', 'offset.csv'))
  if case['format']:
    words.append(('--quaternion_format', case['format']))
  if visualize is not None:
    words.append(('--visualize', visualize))
  order = np.random.RandomState(case['order'] % (2 ** 31)).permutation(len(words))
  return [w for i in order for w in words[i]]


def _write(path, rows, case, rng):
  rows = rows.copy()
  if case['format'] == 'JPL':
    rows[:, 4:7] *= -1.
  if case['scaled']:
    rows[:, 4:8] *= rng.uniform(0.5, 2., (len(rows), 1))
  scripts.write_rows(path, rows)


def test_program(case):
  import matplotlib.pyplot as plt
  A, B, period = c15._recordings(case)
  rng = np.random.RandomState(case['seed'])
  with scratch() as d:
    paths = {k: os.path.join(d, k) for k in ('in_A.csv', 'in_B.csv', 'out_A.csv', 'out_B.csv',
                                             'offset.csv')}
    _write(paths['in_A.csv'], A, case, rng)
    _write(paths['in_B.csv'], B, case, rng)
    before = open(paths['in_A.csv']).read(), open(paths['in_B.csv']).read()
    plt.close('all')
    scripts.run(PROGRAM, _command(case, case['offset_file'], case['visualize']), d)
    figures = len(plt.get_fignums())
    plt.close('all')
    if case['visualize'] == 'True':
      note('plotted')
    else:
      require(figures == 0, 'plots although switched off', figures=figures)
    first = open(paths['out_A.csv']).read(), open(paths['out_B.csv']).read()
    if not case['offset_file']:
      require(not os.path.exists(paths['offset.csv']), 'offset file that was not asked for')
      scripts.run(PROGRAM, _command(case), d)
      again = open(paths['out_A.csv']).read(), open(paths['out_B.csv']).read()
      require(first == again, 'aligned poses depend on writing the offset')
    require(before == (open(paths['in_A.csv']).read(), open(paths['in_B.csv']).read()),
            'input files were modified')
    offset = np.array(scripts.read_rows(paths['offset.csv']))
    out_A, out_B = (np.array(scripts.read_rows(paths[k])) for k in ('out_A.csv', 'out_B.csv'))
  require(offset.shape == (1, 1), 'offset file', contents=offset.tolist())
  offset = float(offset[0, 0])
  require(abs(offset - case['offset']) < 2. * period, 'time offset', actual=offset,
          expected=case['offset'], period=period)
  require(out_A.shape == out_B.shape and out_A.shape[1] == 8, 'aligned poses', A=out_A.shape,
          B=out_B.shape)
  close(out_A[:, 0], out_B[:, 0], 0., what='stamps of the aligned files')
  shifted = A.copy()
  shifted[:, 0] += offset
  stamps = out_A[:, 0].tolist()
  a, b = shifted[:, 0], B[:, 0]
  dt_A, dt_B = np.median(np.diff(a)), np.median(np.diff(b))
  choices = []
  if dt_A > dt_B - 1e-6:
    choices.append((a, b))
  if dt_B > dt_A - 1e-6:
    choices.append((b, a))
  results = []
  for low, high in choices:
    # Stamps in the file are decimal; match them with the stamps of the recording.
    index = np.clip(np.searchsorted(low, np.array(stamps) - 2e-7), 0, len(low) - 1)
    nearest = low[index]
    results.append(bool(np.all(np.abs(nearest - stamps) < 1e-6)) and
                   _matches(nearest.tolist(), low.tolist(), high)[0])
  require(any(results), 'common times', stamps=stamps[:5], count=len(stamps))
  for rows, result in ((shifted, out_A), (B, out_B)):
    expected = [_expected_pose(rows, r[0]) for r in result]
    close(result[:, 1:4], np.array([e[0] for e in expected]), 1e-5, what='positions')
    q = np.array([e[1] for e in expected])
    close(np.linalg.norm(result[:, 4:8], axis=1), np.ones(len(result)), 1e-7, what='norms')
    distance = np.minimum(np.linalg.norm(q - result[:, 4:8], axis=1),
                          np.linalg.norm(q + result[:, 4:8], axis=1))
    require(np.max(distance) < 1e-5, 'orientations', deviation=float(np.max(distance)))
  if case['format'] == 'JPL':
    note('JPL')
  return (abs(case['offset']) > 5. * period and
          ref.angle_of(np.array(case['after'][3:7])) > 0.1)


SUBS = [
    Sub('program', cases, test_program, 160, 2500),
]
