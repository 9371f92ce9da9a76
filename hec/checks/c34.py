import csv
import itertools
import json
import os

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, ref, scripts
from hec.checks import c33
from hec.code import all_configs, extrinsic, verification
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C34'
RULE = ('a case counts as non-trivial if the whole experiment (120 perturbation levels times '
        'iterations and pairs) was run and at least one optimisation succeeded')
ASSUMPTIONS = ['all sensors are sampled at the same instants, so that their time offset is found '
               'exactly', 'file names contain no spaces or commas',
               'the optimiser is replaced by a program that writes a calibration chosen by the case',
               'the levels are 12 steps of 15 degrees times 10 steps of 0.1 m without time offset',
               'the experiment draws its perturbations from system entropy, so they differ from '
               'run to run; every requirement holds for all of them']
PROGRAM = os.path.join(env.EXP_BIN, 'optimization_experiments.py')
ANGLES, LENGTHS = 12, 10


@st.composite
def cases(draw):
  n = draw(gen.pick(2, 2, 3))
  pairs = n * (n - 1) // 2
  return {'seed': draw(gen.seed()), 'n': n, 'poses': draw(st.integers(c33.DISTINCT, 14)),
          'sensors': [draw(gen.pose(0., gen.PI - 0.05)) for _ in range(n)],
          'worlds': [draw(gen.pose()) for _ in range(n)],
          'shifts': [draw(st.integers(-400, 400)) for _ in range(n)],
          'signs': draw(st.booleans()), 'stranger': False,
          'iterations': draw(gen.pick(1, 2, None)) if n == 2 else 1,
          'absolute': draw(st.one_of(st.none(), st.lists(st.integers(0, 1), min_size=n,
                                                         max_size=n))),
          'results': draw(st.lists(st.one_of(st.none(), gen.pose(0., 0.02)),
                                   min_size=pairs, max_size=pairs)),
          'delays': draw(st.lists(gen.pick(0., 0., 0.0125, -0.025, 1000.), min_size=pairs,
                                  max_size=pairs)),
          'fail': draw(st.lists(st.integers(0, 119), max_size=4)),
          'fail_some': draw(st.lists(gen.pick(None, None, 3, 20), min_size=pairs, max_size=pairs)),
          'existing': draw(st.booleans())}


def _pose(calibration):
  return np.array([calibration['translation'][k] for k in 'xyz'] +
                  [calibration['rotation'][k] for k in 'ijkw'])


def test_experiment(case):
  n = case['n']
  pairs = list(itertools.combinations(range(n), 2))
  recordings = c33._recordings(case)
  truth = [ref.pose_mul(ref.pose_inv(c33._clip(case['sensors'][a], 1.)),
                        c33._clip(case['sensors'][b], 1.)) for a, b in pairs]
  offsets = [(case['shifts'][b] - case['shifts'][a]) / c33.RATE for a, b in pairs]
  with scratch() as d:
    files = [os.path.join(d, 'sensor_{}.csv'.format('dbca'[i])) for i in range(n)]
    for path, rows in zip(files, recordings):
      scripts.write_rows(path, rows)
    results = []
    for (a, b), change, X, offset, delay in zip(pairs, case['results'], truth, offsets,
                                                case['delays']):
      if change is not None:
        result = ref.pose_mul(X, c33._clip(change, 0.05))
        results.append([files[a], files[b],
                        {'delay': offset + delay, 'rotation': dict(zip('ijkw', result[3:7].tolist())),
                         'translation': dict(zip('xyz', result[0:3].tolist()))}])
    output = os.path.join(d, 'out')
    table_path = os.path.join(output, 'results_optimization.csv')
    before = 0
    if case['existing']:
      # The rows of an earlier experiment.
      os.mkdir(output)
      from hec.code import experiment_results
      header = experiment_results.ResultEntry().get_header()
      with open(table_path, 'w') as f:
        f.write(header + ','.join(['earlier'] * len(header.split(','))) + '\n')
      before = 1
    ros = scripts.Ros(os.path.join(d, 'ros'), {
        'results': results, 'fail_words': ['_run_{}_'.format(r) for r in case['fail']],
        'fail_some': [[files[a], files[b], k] for (a, b), k in zip(pairs, case['fail_some']) if k]})
    argv = [env.PYTHON, PROGRAM, '--result_directory', output, '--aligned_poses_B_H_csv_files']
    argv += files
    if case['absolute'] is not None:
      argv += ['--is_absolute_pose_sensor'] + [str(x) for x in case['absolute']]
    if case['iterations'] is not None:
      argv += ['--num_iterations', str(case['iterations'])]
    code, text = scripts.child(argv, d, ros, 800)
    require(code == 0, 'the experiment failed', code=code, output=text[-2000:])
    with open(table_path) as f:
      table = list(csv.DictReader(f))
    require(len(table) >= before and all(r['algorithm_name'] == 'earlier' for r in table[0:before]),
            'rows of the earlier experiment')
    return _check(case, pairs, files, truth, offsets, recordings, table[before:], ros.calls())


def _check(case, pairs, files, truth, offsets, recordings, table, calls):
  iterations = 2 if case['iterations'] is None else case['iterations']
  runs = ANGLES * LENGTHS * iterations
  require(len(table) == runs * len(pairs), 'rows', actual=len(table), expected=runs * len(pairs))
  require(len(calls) == runs * len(pairs), 'optimiser runs', actual=len(calls),
          expected=runs * len(pairs))
  name, _, config, _ = all_configs.get_optimization_with_spoiled_initial_calibration_config()
  by_pair = {}
  for call in calls:
    options = dict(scripts.options(call['argv']))
    key = (options.get('pose1_csv'), options.get('pose2_csv'))
    by_pair.setdefault(key, []).append(
        (_pose(call['init_guess'])[0:3], call, options))
  require(sorted(by_pair) == sorted((files[a], files[b]) for a, b in pairs),
          'pairs of the optimiser', actual=sorted(by_pair))
  optimised, seen, used = {}, [], set()
  succeeded = 0
  for i, row in enumerate(table):
    run, index = divmod(i, len(pairs))
    level, iteration = divmod(run, iterations)
    angle_level, length_level = divmod(level, LENGTHS)
    a, b = pairs[index]
    require(row['algorithm_name'] == name and int(row['iteration_num']) == iteration and
            int(row['num_pose_pairs']) == index and row['success'] == 'True' and
            [row['poses_B_H_csv_file'], row['poses_W_E_csv_file']] == [files[a], files[b]],
            'order of the rows', row=dict(row), run=run, pair=index, iteration=iteration)
    angle = float(row['spoiled_initial_guess_angle_offset'])
    shift = np.array([float(x) for x in
                      row['spoiled_initial_guess_translation_offset'].strip('[]').split()])
    time = float(row['spoiled_initial_guess_time_offset'])
    length = np.linalg.norm(shift)
    low = np.radians(15. * angle_level)
    require(low - 1e-4 <= angle <= low + np.radians(15.) + 1e-4 and
            0.1 * length_level - 1e-6 <= length <= 0.1 * (length_level + 1) + 1e-6 and time == 0.,
            'perturbation outside its level', angle=angle, length=length, time=time,
            angle_level=angle_level, length_level=length_level)
    seen.append(shift / max(length, 1e-12))
    # The optimiser run that started from this perturbation.
    candidates = by_pair[files[a], files[b]]
    distances = [np.linalg.norm(c[0] - truth[index][0:3] - shift) for c in candidates]
    best = int(np.argmin(distances))
    require(distances[best] < 1e-3 and (index, best) not in used,
            'no optimisation started from the perturbation in the table', row=dict(row),
            distance=distances[best])
    used.add((index, best))
    _, call, options = candidates[best]
    guess = _pose(call['init_guess'])
    close(ref.matrix_angle(ref.rot(truth[index][3:7]).T.dot(ref.rot(guess[3:7]))), angle, 2e-3,
          what='angle of the perturbation')
    close(call['init_guess']['delay'], offsets[index] + time, 0.02 / c33.RATE,
          what='time offset of the perturbed guess')
    absolute = [bool(case['absolute'][k]) if case['absolute'] else False for k in (a, b)]
    require(sorted(options.get('model_config', '').split(',')) ==
            ['pose{}/absoluteMeasurements={}'.format(k + 1, str(absolute[k]).lower())
             for k in range(2)], 'model of the optimiser', argv=call['argv'], expected=absolute)
    require(0. <= float(row['optimization_runtime_s']) < 3600., 'runtime', row=dict(row))
    position, degrees = float(row['position_rmse']), float(row['orientation_rmse'])
    if call['failed']:
      note('optimiser failed')
      require(row['optimization_success'] == 'False' and position < 0. and degrees < 0. and
              int(row['num_inliers']) == 0, 'failed optimisation', row=dict(row))
      continue
    with open(options['output_file']) as f:
      result = json.load(f)
    if case['results'][index] is None:
      close(_pose(result), guess, 1e-9, what='result of this optimisation')
    calibration = extrinsic.ExtrinsicCalibration.fromJson(options['output_file'])
    (p, o), inliers = verification.evaluate_calibration(
        recordings[a].copy(), recordings[b].copy(), calibration.pose_dq, calibration.time_offset,
        config)
    if inliers:
      close(position, p, 1e-6 * (1. + p), what='position error of the optimised calibration')
      close(degrees, o, 3e-3, what='orientation error of the optimised calibration')
    require(abs(int(row['num_inliers']) - inliers) <= 1, 'inliers', actual=row['num_inliers'],
            expected=inliers)
    if int(row['num_inliers']):
      require(row['optimization_success'] == 'True', 'optimisation', row=dict(row))
      optimised[run, index] = _pose(result)
      succeeded += 1
    else:
      require(row['optimization_success'] == 'False', 'no inliers', row=dict(row))
  _distinct(np.array(seen))
  for run in range(runs):
    _check_loop(case['n'], pairs, table[run * len(pairs):(run + 1) * len(pairs)],
                [optimised.get((run, index)) for index in range(len(pairs))])
  note('{} sensors'.format(case['n']))
  return succeeded > 0


def _distinct(directions):
  products = directions.dot(directions.T) - 2. * np.eye(len(directions))
  i, j = np.unravel_index(np.argmax(products), products.shape)
  require(np.linalg.norm(directions[i] - directions[j]) > 1e-6, 'repeated random perturbation',
          rows=[int(i), int(j)], direction=directions[i].tolist())


def _check_loop(n, pairs, rows, poses):
  values = set((r['loop_error_position_m'], r['loop_error_orientation_deg']) for r in rows)
  require(len(values) == 1, 'loop errors of one run', actual=sorted(values))
  position, degrees = [float(x) for x in values.pop()]
  if any(p is None for p in poses):
    require(position == -1. and degrees == -1., 'loop error without all calibrations',
            position=position, degrees=degrees)
    return
  chain = np.eye(4)
  for i in range(n - 1):
    chain = chain.dot(ref.mat(poses[pairs.index((i, i + 1))]))
  chain = chain.dot(ref.inv(ref.mat(poses[pairs.index((0, n - 1))])))
  error = ref.transform_error(np.eye(4), chain)
  close(position, error[0], 1e-6, what='position loop error')
  close(degrees, error[1], 3e-3, what='orientation loop error')


SUBS = [
    Sub('experiment', cases, test_experiment, 24, 120, 850),
]
