import json
import os

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, ref, scripts, search
from hec.code import extrinsic
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C23'
RULE = ('a case counts as non-trivial if the program succeeded and there are outliers, inverted '
        'inputs or a JSON output')
ASSUMPTIONS = ['all poses are within 85 degrees of the first pose, so that no relative rotation '
               'is close to half a turn',
               'outliers disagree with every consistent pose in the scalar part of the relative '
               'motion by at least 0.04']
PROGRAM = os.path.join(env.BIN, 'compute_hand_eye_calibration.py')


@st.composite
def cases(draw):
  n = draw(gen.count(16, 30, 140))
  outputs = draw(gen.pick('csv', 'json', 'both', 'both'))
  return {'seed': draw(gen.seed()), 'n': n, 'X': draw(gen.pose(0., gen.PI - 0.02)),
          'outliers': draw(st.integers(0, n // 4)), 'noise': draw(gen.pick(0., 0., 0., 3e-4)),
          'B': draw(gen.pose()), 'W': draw(gen.pose()), 'signs': draw(st.booleans()),
          'invert_hand': draw(st.booleans()), 'invert_eye': draw(st.booleans()),
          'outputs': outputs, 'offset': draw(gen.component()),
          'unused_offset': draw(st.booleans()),
          'visualize': draw(gen.pick(*['', '', 'False', '0', 'off'] * 3 + ['True'])),
          'nth': draw(gen.pick(0, 0, 1, 3, 10)), 'order': draw(gen.seed()),
          'start': draw(gen.pick(0., 1.4e9, 12.5)),
          'laps': draw(gen.pick(*[1] * 14 + [2])) if n > 40 else draw(gen.pick(*[1] * 9 + [12]))}


def laps(case, data):
  """Poses of the hand and the eye of all laps.

  The copies of an outlier agree with each other but contain no motion.
  """
  return list(data.hand) * case.get('laps', 1), list(data.eye) * case.get('laps', 1)


def _files(case, data, d):
  """Writes the two recordings, returns the options naming them."""
  rng = np.random.RandomState(case['seed'] // 7)
  words = []
  hand, eye = laps(case, data)
  for name, world, poses, invert in (
      (('B_H', 'H_B'), case['B'], hand, case['invert_hand']),
      (('W_E', 'E_W'), case['W'], eye, case['invert_eye'])):
    rows = []
    for i, p in enumerate(poses):
      pose = ref.pose_mul(np.array(world), p)
      if invert:
        pose = ref.pose_inv(pose)
      if case['signs'] and rng.randint(2):
        pose = np.append(pose[0:3], -pose[3:7])
      rows.append(np.append(case['start'] + 0.1 * i, pose))
    path = os.path.join(d, name[0] + '.csv')
    scripts.write_rows(path, rows)
    words.append(('--aligned_poses_{}_csv_file'.format(name[1 if invert else 0]), path))
  return words


def _prepare(case):
  case = dict(case)
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  case['X'] = X
  for k in ('B', 'W'):
    w = np.array(case[k])
    w[0:3] = np.clip(w[0:3], -50., 50.)
    case[k] = w
  return case, search.build(case)


def _shuffled(words, case):
  order = np.random.RandomState(case['order'] % (2 ** 31)).permutation(len(words))
  return [w for i in order for w in words[i]]


def test_program(case):
  import matplotlib.pyplot as plt
  case, data = _prepare(case)
  # The prefilter of the program must leave two poses to search over.
  kept, _ = search.prefilter(data.hand, data.eye, 0.95)
  if len([i for i in kept if i in data.inliers]) < 3:
    return False
  with scratch() as d:
    words = _files(case, data, d)
    csv, js = os.path.join(d, 'extrinsics.csv'), os.path.join(d, 'calibration.json')
    offset = os.path.join(d, 'offset.csv')
    if case['outputs'] != 'json':
      words.append(('--extrinsics_output_csv_file', csv))
    if case['outputs'] != 'csv':
      words.append(('--calibration_output_json_file', js))
    if case['outputs'] != 'csv' or case['unused_offset']:
      with open(offset, 'w') as f:
        f.write('{:.18f}\n'.format(case['offset']))
      words.append(('--time_offset_input_csv_file', offset))
    if case['visualize']:
      words.append(('--visualize', case['visualize']))
    if case['nth']:
      words.append(('--plot_every_nth_pose', str(case['nth'])))
    before = {w[1]: open(w[1]).read() for w in words if os.path.isfile(w[1])}
    plt.close('all')
    scripts.run(PROGRAM, _shuffled(words, case), d)
    figures = len(plt.get_fignums())
    plt.close('all')
    require(case['visualize'] == 'True' or figures == 0, 'plots although switched off',
            figures=figures)
    for path in before:
      require(open(path).read() == before[path], 'input file modified', path=path)
    require(os.path.exists(csv) == (case['outputs'] != 'json'), 'pose file',
            exists=os.path.exists(csv))
    require(os.path.exists(js) == (case['outputs'] != 'csv'), 'JSON file', exists=os.path.exists(js))
    results = []
    if case['outputs'] != 'json':
      values = np.array(scripts.read_rows(csv)).flatten()
      require(values.shape == (7,), 'values in the pose file', count=len(values))
      results.append(values)
    if case['outputs'] != 'csv':
      with open(js) as f:
        parsed = json.load(f)
      close(parsed['delay'], case['offset'], 1e-12, what='time offset')
      results.append(np.array([parsed['translation'][k] for k in 'xyz'] +
                              [parsed['rotation'][k] for k in 'ijkw']))
      read = extrinsic.ExtrinsicCalibration.fromJson(js)
      close(read.time_offset, case['offset'], 1e-12, what='time offset read by the library')
      close(ref.mat_from_dq(read.pose_dq.dq), ref.mat(results[-1]), 1e-8,
            what='transformation read by the library')
  for result in results:
    close(np.linalg.norm(result[3:7]), 1., 1e-8, what='norm of the rotation')
    position, degrees = ref.transform_error(ref.mat(result), ref.mat(data.X))
    limit = (1e-3, 0.05) if not case['noise'] else (0.02, 1.)
    require(position < limit[0] and degrees < limit[1], 'wrong transformation', position=position,
            degrees=degrees, expected=data.X.tolist(), actual=result.tolist())
  if len(results) == 2:
    close(ref.mat(results[0]), ref.mat(results[1]), 1e-8, what='the two outputs')
  note(case['outputs'])
  for k in ('invert_hand', 'invert_eye'):
    if case[k]:
      note(k)
  return bool(data.outliers or case['invert_hand'] or case['invert_eye'] or
              case['outputs'] != 'csv')


@st.composite
def refused_cases(draw):
  case = draw(cases())
  case['problem'] = draw(gen.pick('two hands', 'two eyes', 'no hand', 'no eye', 'no offset',
                                  'different lengths', 'no agreement'))
  return case


def test_refused(case):
  """Contradicting options and recordings without agreement leave no calibration behind."""
  case, data = _prepare(case)
  problem = case['problem']
  if problem == 'different lengths':
    data.eye = data.eye[:-1]
  elif problem == 'no agreement':
    # Repeated, two poses that match by chance would be enough.
    case['laps'] = 1
    rng = np.random.RandomState(case['seed'])
    data.eye = [data.eye[0]] + [search.small_rotation_pose(rng, 80., 5.) for _ in data.eye[1:]]
    for anchor in range(len(data.hand)):
      hand, eye = search.anchored(data, anchor)
      if len(search.scalar_inliers(hand, eye, 0.05)[0]) >= 5:
        return False
  with scratch() as d:
    words = _files(case, data, d)
    csv, js = os.path.join(d, 'extrinsics.csv'), os.path.join(d, 'calibration.json')
    offset = os.path.join(d, 'offset.csv')
    with open(offset, 'w') as f:
      f.write('{:.18f}\n'.format(case['offset']))
    words += [('--extrinsics_output_csv_file', csv), ('--calibration_output_json_file', js)]
    if problem != 'no offset':
      words.append(('--time_offset_input_csv_file', offset))
    if problem == 'two hands':
      words += [('--aligned_poses_{}_csv_file'.format('B_H' if case['invert_hand'] else 'H_B'),
                 words[0][1])]
    elif problem == 'two eyes':
      words += [('--aligned_poses_{}_csv_file'.format('W_E' if case['invert_eye'] else 'E_W'),
                 words[1][1])]
    elif problem == 'no hand':
      words = words[1:]
    elif problem == 'no eye':
      words = words[0:1] + words[2:]
    failed = scripts.fails(PROGRAM, _shuffled(words, case), d)
    require(failed, 'accepted', problem=problem)
    require(not os.path.exists(csv) and not os.path.exists(js), 'calibration written',
            problem=problem)
  note(problem)
  return True


SUBS = [
    Sub('program', cases, test_program, 200, 2500),
    Sub('refused', refused_cases, test_refused, 80, 600),
]
