import os

import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import csv_io
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C18'
RULE = ('a case counts as non-trivial if the file has at least two different rows with rotations '
        'other than the identity')
ASSUMPTIONS = ['quaternions in a file have a norm between 0.01 and 100']


@st.composite
def rows(draw):
  n = draw(st.one_of(st.integers(1, 6), gen.count(1, 40, 1500)))
  return {'seed': draw(gen.seed()), 'n': n,
          'start': draw(gen.pick(0., 1466012345.678901, -3.5, 1e5)),
          'size': draw(gen.pick(1., 1e-6, 1000.)),
          'special': draw(st.lists(gen.pose(), max_size=3)), 'signs': draw(st.booleans()),
          'scale': draw(gen.pick(1., 1., 0.01, 7.3, 100., 0.999, 1.0001, 'each')),
          'order': draw(gen.pick(True, True, False)), 'JPL': draw(st.booleans()),
          'format': draw(gen.pick('library', 'plain', 'exponent', 'spaces', 'repr'))}


def _rows(case):
  rng = np.random.RandomState(case['seed'])
  n = case['n']
  stamps = case['start'] + np.cumsum(rng.uniform(0.001, 0.5, n))
  if not case['order']:
    stamps = rng.choice(stamps, n)
  out = []
  for i in range(n):
    if i < len(case['special']):
      pose = np.array(case['special'][i])
    else:
      pose = np.append(rng.uniform(-case['size'], case['size'], 3), ref.qunit(rng.normal(size=4)))
    if case['signs']:
      pose[3:7] *= rng.choice([-1., 1.])
    out.append(np.append(stamps[i], pose))
  return np.array(out)


def _write(rows, name, path):
  if name == 'library':
    csv_io.write_time_stamped_poses_to_csv_file(rows, path)
    return
  formats = {'plain': '{:.17f}', 'exponent': '{:.17e}', 'spaces': ' {:.17f} ', 'repr': '{!r}'}
  with open(path, 'w') as f:
    for r in rows:
      f.write((', ' if name == 'repr' else ',').join(formats[name].format(float(x)) for x in r) + '\n')


def test_read(case):
  data = _rows(case)
  stored = data.copy()
  if case['scale'] == 'each':
    scales = np.random.RandomState(case['seed']).choice([1., 1., 0.5, 0.02, 3., 60.], len(data))
    stored[:, 4:8] *= scales[:, None]
  else:
    stored[:, 4:8] *= case['scale']
  keep = stored.copy()
  with scratch() as d:
    path = os.path.join(d, 'poses.csv')
    _write(stored, case['format'], path)
    close(stored, keep, 0., what='written array')
    if case['format'] == 'library':
      with open(path) as f:
        lines = [l for l in f.read().split('\n') if l.strip()]
      require(len(lines) == len(data), 'one line per pose', lines=len(lines))
      for line, row in zip(lines, stored):
        values = [float(v) for v in line.split(',')]
        close(values, row, 1e-15, rtol=1e-15, what='line')
    before = open(path).read()
    if case['JPL']:
      result = csv_io.read_time_stamped_poses_from_csv_file(path, True)
    else:
      result = csv_io.read_time_stamped_poses_from_csv_file(path)
    require(open(path).read() == before, 'the file was changed by reading it')
  require(len(result) == 3, 'three results')
  poses, times, quaternions = result
  require(np.shape(poses) == data.shape, 'shape', shape=np.shape(poses))
  require(len(times) == len(data) == len(quaternions), 'number of rows')
  close(poses[:, 0:4], data[:, 0:4], 1e-15, rtol=1e-15, what='stamps and positions')
  close(times, data[:, 0], 1e-15, rtol=1e-15, what='times')
  expected = data[:, 4:8].copy()
  if case['JPL']:
    expected[:, 0:3] *= -1.
  for i in range(len(data)):
    for q in (poses[i, 4:8], quaternions[i].q):
      close(np.linalg.norm(q), 1., 1e-9, what='norm')
      require(ref.same_rotation(q, expected[i]) < 1e-9, 'rotation of row', row=i,
              actual=np.array(q).tolist(), expected=expected[i].tolist())
  if case['JPL']:
    note('JPL')
  return len(data) > 1 and all(ref.angle_of(q) > 1e-3 for q in expected[0:2])


@st.composite
def twice_cases(draw):
  case = draw(rows())
  case['format'] = 'library'
  return case


def test_twice(case):
  """Writing what was read and reading it again changes nothing."""
  data = _rows(case)
  with scratch() as d:
    first, second = os.path.join(d, 'a.csv'), os.path.join(d, 'b.csv')
    csv_io.write_time_stamped_poses_to_csv_file(data, first)
    poses, times, _ = csv_io.read_time_stamped_poses_from_csv_file(first)
    csv_io.write_time_stamped_poses_to_csv_file(poses, second)
    again, _, _ = csv_io.read_time_stamped_poses_from_csv_file(second)
    close(again, poses, 1e-15, rtol=1e-15, what='poses after a second round')
    # The conversion from JPL is its own inverse.
    jpl, _, _ = csv_io.read_time_stamped_poses_from_csv_file(second, True)
    csv_io.write_time_stamped_poses_to_csv_file(jpl, first)
    back, _, _ = csv_io.read_time_stamped_poses_from_csv_file(first, True)
    close(back, poses, 1e-14, rtol=1e-15, what='poses after two conversions')
    array = poses[:, 1:4]
    csv_io.write_double_numpy_array_to_csv_file(array, first)
    close(np.loadtxt(first, delimiter=',', ndmin=2), array, 1e-15, rtol=1e-15, what='array')
    csv_io.write_double_numpy_array_to_csv_file(np.array((times[0],)), first)
    close(np.loadtxt(first, delimiter=',', ndmin=1), times[0:1], 1e-15, rtol=1e-15, what='one value')
  return len(data) > 1


SUBS = [
    Sub('read', rows, test_read, 2500, 30000),
    Sub('twice', twice_cases, test_twice, 500, 6000),
]
