import contextlib
import csv
import importlib
import itertools
import json
import os

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, ref, scripts
from hec.code import all_configs, extrinsic, verification
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C33'
RULE = ('a case counts as non-trivial if there are at least two pairs or several iterations, and '
        'the optimiser was started or several algorithms were run')
ASSUMPTIONS = ['all sensors are sampled at the same 13 to 15 instants, so that their time offset is found '
               'exactly', 'file names contain no spaces or commas',
               'the optimiser is replaced by a program that writes a calibration chosen by the case',
               'baseline algorithms are only run on consistent recordings, they stop on others']
PROGRAM = os.path.join(env.EXP_BIN, 'compute_set_of_hand_eye_calibrations.py')
RATE = 16.
DISTINCT = 12


@st.composite
def cases(draw):
  algorithms = draw(st.lists(st.integers(0, 15), min_size=1, max_size=2, unique=True))
  # The exhaustive search over triples (numbers 12 and 13) takes seconds per pair.
  slow = bool(set(algorithms) & {12, 13})
  n = 2 if slow else draw(gen.pick(2, 3, 3, 4))
  pairs = n * (n - 1) // 2
  return {'seed': draw(gen.seed()), 'n': n, 'poses': draw(st.integers(DISTINCT, 14)),
          'sensors': [draw(gen.pose(0., gen.PI - 0.05)) for _ in range(n)],
          'worlds': [draw(gen.pose()) for _ in range(n)],
          'shifts': [draw(st.integers(-400, 400)) for _ in range(n)],
          'signs': draw(st.booleans()),
          'algorithms': algorithms,
          'iterations': draw(gen.pick(None, 1, 2, 3)),
          'absolute': draw(st.one_of(st.none(), st.lists(st.integers(0, 1), min_size=n,
                                                         max_size=n))),
          'results': draw(st.lists(st.one_of(st.none(), st.none(), gen.pose(0., 0.02)),
                                   min_size=pairs, max_size=pairs)),
          'delays': draw(st.lists(gen.pick(0., 0., 0.0125, -0.025, 1000.), min_size=pairs,
                                  max_size=pairs)),
          'fail': draw(st.lists(st.integers(0, 5), max_size=2)),
          'stranger': draw(gen.pick(*[False] * 5 + [True])),
          'twice': not slow and draw(gen.pick(False, False, True))}


_chosen = []


@contextlib.contextmanager
def _only(names):
  """Restricts the presets of the experiment.

  The replacement stays installed, so that it does not matter when the program imports it.
  """
  module = importlib.import_module('hand_eye_calibration_experiments.all_algorithm_configs')
  original = module.get_all_configs
  if not hasattr(original, 'restricted'):
    def restricted():
      presets = original()
      if not _chosen:
        return presets
      return sorted([p for p in presets if p[0] in _chosen], key=lambda p: _chosen.index(p[0]))
    restricted.restricted = True
    module.get_all_configs = restricted
  _chosen[:] = names
  try:
    yield
  finally:
    _chosen[:] = []


def _clip(pose, limit):
  pose = np.array(pose)
  pose[0:3] = np.clip(pose[0:3], -limit, limit)
  return pose


def _base(rng, count):
  """A path whose poses all turn about different axes."""
  poses, axes = [np.array([0., 0., 0., 0., 0., 0., 1.])], []
  while len(axes) < count:
    axis = gen.random_unit(rng)
    if len(axes) < DISTINCT and any(np.dot(axis, a) > 0.93 for a in axes):
      continue
    axes.append(axis)
    q = ref.q_from_angle_axis(np.radians(rng.uniform(10., 80.)), axis)
    poses.append(np.append(rng.uniform(-0.7, 0.7, 3), q))
  return poses


def _strange(rng, poses):
  """Rotates as fast as the path, but about other axes."""
  out = [poses[0]]
  for a, b in zip(poses[:-1], poses[1:]):
    angle = ref.angle_of(ref.pose_mul(ref.pose_inv(a), b)[3:7])
    out.append(ref.pose_mul(out[-1], np.append(
        rng.uniform(-1., 1., 3), ref.q_from_angle_axis(angle, gen.random_unit(rng)))))
  return out


def _recordings(case):
  """One recording per sensor, stamped by its own clock."""
  rng = np.random.RandomState(case['seed'])
  base = _base(rng, case['poses'])
  out = []
  for i in range(case['n']):
    path = base
    if case['stranger'] and i == case['n'] - 1:
      path = _strange(rng, base)
    rows = []
    for k, pose in enumerate(path):
      pose = ref.pose_mul(ref.pose_mul(_clip(case['worlds'][i], 20.), pose),
                          _clip(case['sensors'][i], 1.))
      if case['signs'] and rng.randint(2):
        pose[3:7] *= -1.
      rows.append(np.append(100. + (case['shifts'][i] + k) / RATE, pose))
    out.append(np.array(rows))
  return out


def _matrix(calibration):
  r, t = calibration['rotation'], calibration['translation']
  return ref.mat(np.array([t[k] for k in 'xyz'] + [r[k] for k in 'ijkw']))


def _lines(path):
  if not os.path.exists(path):
    return None
  with open(path) as f:
    return [np.array([float(x) for x in line.strip().strip('[]').split()])
            for line in f if line.strip()]


def _accurate(matrix, pose, what):
  position, degrees = ref.transform_error(matrix, ref.mat(pose))
  require(position < 1e-3 and degrees < 0.05, what, position=position, degrees=degrees,
          expected=pose.tolist())


def test_batch(case):
  n = case['n']
  pairs = list(itertools.combinations(range(n), 2))
  recordings = _recordings(case)
  presets = all_configs.get_all_configs()
  chosen = [presets[i] for i in case['algorithms'] if i < len(presets)]
  if case['stranger']:
    chosen = [c for c in chosen if c[2].use_baseline_approach is False]
  if not chosen:
    return False
  names = [c[0] for c in chosen]
  truth = [ref.pose_mul(ref.pose_inv(_clip(case['sensors'][a], 1.)), _clip(case['sensors'][b], 1.))
           for a, b in pairs]
  offsets = [(case['shifts'][b] - case['shifts'][a]) / RATE for a, b in pairs]
  with scratch() as d:
    files = [os.path.join(d, 'sensor_{}.csv'.format('dbca'[i])) for i in range(n)]
    for path, rows in zip(files, recordings):
      scripts.write_rows(path, rows)
    keep = [open(path).read() for path in files]
    results = []
    for (a, b), change, X, offset, delay in zip(pairs, case['results'], truth, offsets,
                                                case['delays']):
      if change is not None:
        result = ref.pose_mul(X, _clip(change, 0.05))
        results.append([files[a], files[b],
                        {'delay': offset + delay, 'rotation': dict(zip('ijkw', result[3:7].tolist())),
                         'translation': dict(zip('xyz', result[0:3].tolist()))}])
    output = os.path.join(d, 'out')
    ros = scripts.Ros(os.path.join(d, 'ros'), {'results': results, 'fail': case['fail']})
    work = os.path.join(d, 'work')
    os.mkdir(work)
    argv = ['--result_directory', output, '--aligned_poses_B_H_csv_files'] + files
    if case['absolute'] is not None:
      argv += ['--is_absolute_pose_sensor'] + case['absolute']
    if case['iterations'] is not None:
      argv += ['--num_iterations', case['iterations']]
    with _only(names):
      for _ in range(2 if case['twice'] else 1):
        scripts.run(PROGRAM, argv, work, ros)
    for path, text in zip(files, keep):
      require(open(path).read() == text, 'recording modified', path=os.path.basename(path))
    calls = ros.calls()
    with open(os.path.join(output, 'results.csv')) as f:
      table = list(csv.DictReader(f))
    _check(case, chosen, names, pairs, files, truth, offsets, recordings, table, calls, output)
  several = len(pairs) > 1 or case['iterations'] != 1
  return several and (len(names) > 1 or bool(calls))


def _check(case, chosen, names, pairs, files, truth, offsets, recordings, table, calls, output):
  repeat = 2 if case['twice'] else 1
  asked = 2 if case['iterations'] is None else case['iterations']
  expected = []
  for run in range(repeat):
    for name, _, hand_eye, _ in chosen:
      once = hand_eye.enable_exhaustive_search or hand_eye.use_baseline_approach
      for iteration in range(1 if once else asked):
        for index in range(len(pairs)):
          expected.append((run, name, iteration, index))
  require([(r['algorithm_name'], int(r['iteration_num']), int(r['num_pose_pairs']))
           for r in table] == [e[1:] for e in expected], 'rows of the table',
          actual=[(r['algorithm_name'], r['iteration_num'], r['num_pose_pairs']) for r in table],
          expected=[e[1:] for e in expected])
  with_opt = dict((name, opt.enable_optimization) for name, _, _, opt in chosen)
  configs = dict((c[0], c[2]) for c in chosen)
  last = {}  # Files of a run are overwritten when the experiment is repeated.
  for e in expected:
    last[e[1:]] = e
  calls = list(calls)
  lines, found = {}, {}
  for e, row in zip(expected, table):
    run, name, iteration, index = e
    a, b = pairs[index]
    consistent = not (case['stranger'] and b == case['n'] - 1)
    require([row['poses_B_H_csv_file'], row['poses_W_E_csv_file']] == [files[a], files[b]],
            'files of the pair', actual=[row['poses_B_H_csv_file'], row['poses_W_E_csv_file']])
    require(row['optimization_enabled'] == str(with_opt[name]), 'optimisation', row=dict(row))
    success = row['success'] == 'True'
    require(success or not consistent, 'calibration of consistent recordings failed', row=dict(row))
    require(int(row['num_input_poses']) <= len(recordings[a]) and
            int(row['num_input_poses']) >= len(recordings[a]) - 3, 'poses', row=dict(row))
    stem = os.path.join(output, 'optimization', '{}_pose_pair_{}_it_{}_'.format(
        name, index, iteration))
    position, degrees = float(row['position_rmse']), float(row['orientation_rmse'])
    transformation = None
    if not with_opt[name]:
      require(row['optimization_success'] == 'True' and float(row['optimization_runtime_s']) == 0.,
              'optimisation although switched off', row=dict(row))
      require(not os.path.exists(stem + 'optimized.json'), 'optimised calibration', name=name)
      if success and consistent:
        require(position < 1e-3 and degrees < 0.05, 'error of the calibration', row=dict(row))
        transformation = truth[index]
    elif not success:
      note('no initial guess')
      require(row['optimization_success'] == 'False', 'optimisation without initial guess',
              row=dict(row))
    else:
      require(calls, 'the optimiser was not started', name=name, pair=index)
      call = calls.pop(0)
      options = dict(scripts.options(call['argv']))
      require(call['package'] == 'hand_eye_calibration_batch_estimation' and
              call['program'] == 'batch_estimator' and
              options.get('pose1_csv') == files[a] and options.get('pose2_csv') == files[b],
              'files of the optimiser', argv=call['argv'])
      paths = [os.path.join(call['cwd'], options.get(k, ''))
               for k in ('init_guess_file', 'output_file')]
      require([os.path.realpath(p) for p in paths] ==
              [os.path.realpath(stem + 'init_guess.json'), os.path.realpath(stem + 'optimized.json')],
              'calibration files of the optimiser', argv=call['argv'])
      absolute = [bool(case['absolute'][i]) if case['absolute'] else False for i in (a, b)]
      require(sorted(options.get('model_config', '').split(',')) ==
              ['pose{}/absoluteMeasurements={}'.format(i + 1, str(absolute[i]).lower())
               for i in range(2)], 'model of the optimiser', argv=call['argv'], expected=absolute)
      guess = call['init_guess']
      if consistent:
        _accurate(_matrix(guess), truth[index], 'wrong initial guess')
        close(guess['delay'], offsets[index], 0.02 / RATE, what='time offset of the initial guess')
      if call['failed']:
        note('optimiser failed')
        require(row['optimization_success'] == 'False' and position < 0. and degrees < 0. and
                int(row['num_inliers']) == 0, 'failed optimisation', row=dict(row))
      else:
        note('optimised')
        change = case['results'][index]
        if last[e[1:]] == e:
          with open(stem + 'init_guess.json') as f:
            close(_matrix(json.load(f)), _matrix(guess), 1e-9, what='initial guess file')
          optimised = extrinsic.ExtrinsicCalibration.fromJson(stem + 'optimized.json')
          if change is None:
            close(ref.mat_from_dq(optimised.pose_dq.dq), _matrix(guess), 1e-9,
                  what='optimised calibration')
          (p, o), inliers = verification.evaluate_calibration(
              recordings[a].copy(), recordings[b].copy(), optimised.pose_dq, optimised.time_offset,
              configs[name])
          if inliers:
            require(row['optimization_success'] == 'True', 'optimisation', row=dict(row))
            close(position, p, 1e-6, what='position error of the optimised calibration')
            close(degrees, o, 3e-3, what='orientation error of the optimised calibration')
            require(abs(int(row['num_inliers']) - inliers) <= 1, 'inliers',
                    actual=row['num_inliers'], expected=inliers)
          else:
            note('optimised without inliers')
            require(row['optimization_success'] == 'False', 'no inliers', row=dict(row))
        if change is not None:
          transformation = ref.pose_mul(truth[index], _clip(change, 0.05))
        elif consistent:
          transformation = truth[index]
    if success and not (with_opt[name] and call['failed']):
      lines.setdefault((name, index), []).append(transformation)
    found[e] = transformation
  require(not calls, 'additional optimiser runs', calls=[c['argv'] for c in calls])
  for name in names:
    for index in range(len(pairs)):
      expected_lines = lines.get((name, index), [])
      dqs = _lines(os.path.join(output, 'dq_H_E', '{}_pose_pair_{}_dq_H_E.txt'.format(name, index)))
      poses = _lines(os.path.join(output, 'poses_H_E',
                                  '{}_pose_pair_{}_pose_H_E.txt'.format(name, index)))
      require(dqs is not None and poses is not None and len(dqs) == len(poses) ==
              len(expected_lines), 'lines of the transformation files', name=name, pair=index,
              actual=[None if x is None else len(x) for x in (dqs, poses)],
              expected=len(expected_lines))
      for dq, pose, X in zip(dqs, poses, expected_lines):
        require(dq.shape == (8,) and pose.shape == (7,), 'transformation files', dq=dq.tolist(),
                pose=pose.tolist())
        close(ref.mat_from_dq(dq), ref.mat(pose), 1e-5, what='transformations in both files')
        if X is not None:
          _accurate(ref.mat(pose), X, 'wrong transformation')
  _check_loops(case, pairs, expected, table, found, with_opt)


def _check_loops(case, pairs, expected, table, found, with_opt):
  """All rows of an iteration carry the loop error of its transformations."""
  n = case['n']
  for start in range(0, len(expected), len(pairs)):
    block = expected[start:start + len(pairs)]
    rows = table[start:start + len(pairs)]
    values = set((r['loop_error_position_m'], r['loop_error_orientation_deg']) for r in rows)
    require(len(values) == 1, 'loop errors of one iteration', actual=sorted(values))
    position, degrees = [float(x) for x in values.pop()]
    complete = all(r['success'] == 'True' and r['optimization_success'] == 'True' for r in rows)
    if not complete:
      if any(r['optimization_success'] == 'True' for r in rows):
        note('partly optimised')
      require(position == -1. and degrees == -1., 'loop error without all calibrations',
              position=position, degrees=degrees)
      continue
    if any(found[e] is None for e in block):
      continue
    chain = np.eye(4)
    for i in range(n - 1):
      chain = chain.dot(ref.mat(found[block[pairs.index((i, i + 1))]]))
    chain = chain.dot(ref.inv(ref.mat(found[block[pairs.index((0, n - 1))]])))
    error = ref.transform_error(np.eye(4), chain)
    close(position, error[0], 5e-3, what='position loop error')
    close(degrees, error[1], 0.2, what='orientation loop error')
    note('loop closed')


SUBS = [
    Sub('batch', cases, test_batch, 96, 800, 240),
]
