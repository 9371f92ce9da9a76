import csv
import io
import os

import numpy as np
from hypothesis import strategies as st

from hec import gen
from hec.code import all_configs, experiment_plotting, experiment_results
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C25'
RULE = ('a case counts as non-trivial if at least two rows enter the statistics and at least one '
        'does not, or if several algorithms or data sets are mixed')
ASSUMPTIONS = ['names in the table contain no comma and have at most 50 characters',
               'array columns are compared with the eight digits of their text form']

LABELS = {
    'baseline_filter_opt': 'PF_B_O', 'baseline_no_filter_opt': 'B_O',
    'baseline_filter_no_opt': 'PF_B', 'baseline_no_filter_no_opt': 'B',
    'EC_no_opt': 'PF_EC', 'EC_opt': 'PF_EC_O', 'ES_no_opt': 'PF_ES', 'ES_opt': 'PF_ES_O',
    'RC_filter_no_opt': 'PF_RC', 'RC_no_filter_no_opt': 'RC', 'RC_filter_opt': 'PF_RC_O',
    'RC_no_filter_opt': 'RC_O', 'RS_filter_no_opt': 'PF_RS', 'RS_no_filter_no_opt': 'RS',
    'RS_filter_opt': 'PF_RS_O', 'RS_no_filter_opt': 'RS_O',
    'optimization_w_spoiled_init_calibration': 'S_PF_ES_O'}
NUMBER = gen.pick(0., 1e-9, 0.125, 3.5, 1234.5678)


@st.composite
def entry(draw, pairs):
  value = st.one_of(NUMBER, gen.fixed(0., 10., 6))
  out = {'name': draw(st.sampled_from(sorted(LABELS))), 'iteration': draw(st.integers(0, 99)),
         'loop': draw(gen.pick(None, None, None, [-1, -1])) or [draw(value), draw(value)],
         'pairs': []}
  for _ in range(pairs):
    perturbed = draw(st.booleans())
    out['pairs'].append({
        'files': ['h{}.csv'.format(draw(st.integers(0, 9))),
                  'dir/eye_{}.csv'.format(draw(st.integers(0, 9)))],
        'success': draw(gen.pick(True, True, True, False)),
        'bad': draw(gen.pick(False, False, False, True)),
        'rmse': [draw(value), draw(value)], 'inliers': draw(st.integers(0, 500)),
        'poses': draw(st.integers(0, 5000)), 'kept': draw(st.integers(0, 500)),
        'runtime': draw(value), 'opt_success': draw(st.booleans()), 'opt_runtime': draw(value),
        'singular': draw(st.one_of(st.none(), st.lists(value, min_size=8, max_size=8))),
        'angle': draw(gen.fixed(0., 180.)) if perturbed else None,
        'translation': draw(st.lists(st.one_of(gen.component(), gen.fixed(-1., 1., 9)),
                                     min_size=3, max_size=3)) if perturbed else None,
        'time': draw(gen.fixed(-1., 1.)) if perturbed else None})
  return out


@st.composite
def cases(draw):
  files = []
  for _ in range(draw(gen.count(1, 3, 6))):
    pairs = draw(gen.count(1, 4, 12))
    files.append({'dataset': draw(gen.pick('robot', 'Robot', 'hand held', 'set_3', 'x' * 50, 'ARM', 'Lab. 2',
                                           'laboratory arm with two cameras - morning',
                                           'laboratory arm with two cameras - evening')),
                  'entries': draw(st.lists(entry(pairs), min_size=1, max_size=4))})
  return {'files': files}


def _result_entry(e):
  """Built the way the experiments build it, from the preset of the algorithm."""
  presets = {c[0]: c for c in all_configs.get_all_configs()}
  spoiled = all_configs.get_optimization_with_spoiled_initial_calibration_config()
  presets[spoiled[0]] = spoiled
  result = experiment_results.ResultEntry()
  name, time, hand_eye, optimisation = presets[e['name']]
  result.init_from_configs(name, e['iteration'], time, hand_eye, optimisation)
  result.loop_error_position, result.loop_error_orientation = e['loop']
  for p in e['pairs']:
    result.dataset_names.append(tuple(p['files']))
    result.success.append(p['success'])
    result.rmse.append(tuple(p['rmse']))
    result.num_inliers.append(p['inliers'])
    result.num_initial_poses.append(p['poses'])
    result.num_poses_kept.append(p['kept'])
    result.runtimes.append(p['runtime'])
    result.singular_values.append(None if p['singular'] is None else np.array(p['singular']))
    result.bad_singular_value.append(p['bad'])
    result.optimization_success.append(p['opt_success'])
    result.optimization_runtime.append(p['opt_runtime'])
    result.spoiled_initial_guess_angle_offset.append(p['angle'])
    result.spoiled_initial_guess_translation_offset.append(
        None if p['translation'] is None else np.array(p['translation']))
    result.spoiled_initial_guess_time_offset.append(p['time'])
  return result


def _number(text):
  return None if text == 'None' else float(text)


def _array(text):
  return [float(x) for x in text.strip().strip('[]').split()]


def _check_row(row, e, i):
  p = e['pairs'][i]
  name = e['name']
  require(row['algorithm_name'] == name, 'algorithm', actual=row['algorithm_name'])
  require(int(row['num_pose_pairs']) == i, 'pair', actual=row['num_pose_pairs'], expected=i)
  require(int(row['iteration_num']) == e['iteration'], 'iteration', actual=row['iteration_num'])
  require(row['prefiltering'] == str('no_filter' not in name), 'prefiltering', name=name,
          actual=row['prefiltering'])
  require(row['optimization_enabled'] == str('no_opt' not in name), 'optimisation', name=name,
          actual=row['optimization_enabled'])
  require([row['poses_B_H_csv_file'], row['poses_W_E_csv_file']] == p['files'], 'files',
          actual=[row['poses_B_H_csv_file'], row['poses_W_E_csv_file']])
  require(row['success'] == str(p['success']) and row['bad_singular_values'] == str(p['bad']) and
          row['optimization_success'] == str(p['opt_success']), 'success', row=dict(row))
  for column, value in (('num_inliers', p['inliers']), ('num_input_poses', p['poses']),
                        ('num_posesafter_filtering', p['kept'])):
    require(int(row[column]) == value, column, actual=row[column], expected=value)
  for column, value in (('position_rmse', p['rmse'][0]), ('orientation_rmse', p['rmse'][1]),
                        ('runtime_s', p['runtime']), ('optimization_runtime_s', p['opt_runtime']),
                        ('loop_error_position_m', e['loop'][0]),
                        ('loop_error_orientation_deg', e['loop'][1])):
    close(float(row[column]), value, 1e-12 * (1. + abs(value)), what=column)
  for column, value in (('spoiled_initial_guess_angle_offset', p['angle']),
                        ('spoiled_initial_guess_time_offset', p['time'])):
    require(_number(row[column]) == value, column, actual=row[column], expected=value)
  if p['singular'] is None:
    require(row['singular_values'] == '', 'singular values', actual=row['singular_values'])
  else:
    close(_array(row['singular_values']), p['singular'], 1e-7 * (1. + max(p['singular'])),
          what='singular values')
  if p['translation'] is None:
    require(row['spoiled_initial_guess_translation_offset'] == 'None', 'translation',
            actual=row['spoiled_initial_guess_translation_offset'])
  else:
    close(_array(row['spoiled_initial_guess_translation_offset']), p['translation'],
          1e-7 * (1. + np.max(np.abs(p['translation']))), what='translation')


def _same(actual, expected, what):
  """Lists of numbers, None standing for a missing value."""
  require(len(actual) == len(expected), what + ' (count)', actual=len(actual),
          expected=len(expected))
  for a, e in zip(actual, expected):
    if e is None:
      require(not a > 0. and not a < 0., what, actual=float(a), expected='no value')
    else:
      close(a, e, 1e-6 * (1. + abs(e)), what=what)


def _same_groups(actual, expected, what):
  require(sorted(actual) == sorted(expected), what + ' (data sets)', actual=sorted(actual),
          expected=sorted(expected))
  for dataset in expected:
    require(sorted(actual[dataset]) == sorted(expected[dataset]), what + ' (algorithms)',
            dataset=dataset, actual=sorted(actual[dataset]), expected=sorted(expected[dataset]))
    for method in expected[dataset]:
      _same(actual[dataset][method], expected[dataset][method], what)


def test_tables(case):
  rows = []  # (data set, entry, pair) in file order
  with scratch() as d:
    names = []
    for number, content in enumerate(case['files']):
      lines = []
      written = []
      for e in content['entries']:
        result = _result_entry(e)
        result.check_length(len(e['pairs']))
        if not lines:
          lines.append(result.get_header())
        for i in range(len(e['pairs'])):
          lines.append(result.write_pose_pair_to_csv_line(i))
          written.append((content['dataset'], e, i))
      table = list(csv.DictReader(io.StringIO(''.join(lines))))
      require(len(table) == len(written), 'number of rows', actual=len(table),
              expected=len(written))
      for row, (_, e, i) in zip(table, written):
        require(None not in row and None not in row.values(), 'number of columns')
        _check_row(row, e, i)
      rows += written
      names.append(os.path.join(d, 'results_{}.csv'.format(number)))
      with open(names[-1], 'w') as f:
        for k, line in enumerate(lines):
          f.write(line.rstrip('\n') + ',' + ('dataset' if k == 0 else content['dataset']) + '\n')
    collected = experiment_plotting.collect_data_from_csv(names)
  (methods, datasets, position_groups, orientation_groups, position, orientation, runtimes,
   runtime_groups, perturbations) = collected
  kept = [(ds, e, e['pairs'][i]) for ds, e, i in rows
          if e['pairs'][i]['success'] and not e['pairs'][i]['bad']]
  order, sets = [], []
  groups = [{}, {}, {}]
  for ds, e, p in kept:
    label = LABELS[e['name']]
    if label not in order:
      order.append(label)
    if ds not in sets:
      sets.append(ds)
    for group, value in zip(groups, (p['rmse'][0], p['rmse'][1], p['runtime'] + p['opt_runtime'])):
      group.setdefault(ds, {}).setdefault(label, []).append(value)
  require([str(m) for m in methods] == order, 'algorithms', actual=[str(m) for m in methods],
          expected=order)
  require([str(s) for s in datasets] == sets, 'data sets', actual=[str(s) for s in datasets],
          expected=sets)
  _same_groups(position_groups, groups[0], 'position errors by data set')
  _same_groups(orientation_groups, groups[1], 'orientation errors by data set')
  _same_groups(runtime_groups, groups[2], 'runtimes by data set')
  for i, label in enumerate(order):
    mine = [p for _, e, p in kept if LABELS[e['name']] == label]
    _same(position[i], [p['rmse'][0] for p in mine], 'position errors')
    _same(orientation[i], [p['rmse'][1] for p in mine], 'orientation errors')
    _same(runtimes[i], [p['runtime'] + p['opt_runtime'] for p in mine], 'runtimes')
  _same(perturbations[0], [e['loop'][0] for _, e, _ in kept], 'loop errors in position')
  _same(perturbations[1], [e['loop'][1] for _, e, _ in kept], 'loop errors in orientation')
  _same(perturbations[2], [p['angle'] for _, _, p in kept], 'angles')
  _same(perturbations[3], [0. if p['translation'] is None else np.linalg.norm(p['translation'])
                           for _, _, p in kept], 'translations')
  _same(perturbations[4], [p['time'] for _, _, p in kept], 'times')
  if len(case['files']) > 1:
    note('several files')
  if len(kept) < len(rows):
    note('dropped rows')
  return len(kept) >= 2 and (len(kept) < len(rows) or len(order) > 1 or len(sets) > 1)


@st.composite
def length_cases(draw):
  return {'entry': draw(st.integers(1, 4).flatmap(entry)), 'field': draw(st.integers(0, 13)),
          'more': draw(st.booleans())}


FIELDS = ('dataset_names', 'success', 'rmse', 'num_inliers', 'num_initial_poses', 'num_poses_kept',
          'runtimes', 'singular_values', 'bad_singular_value', 'optimization_success',
          'optimization_runtime', 'spoiled_initial_guess_angle_offset',
          'spoiled_initial_guess_translation_offset', 'spoiled_initial_guess_time_offset')


def test_lengths(case):
  """A result with a missing or additional value is noticed."""
  result = _result_entry(case['entry'])
  n = len(case['entry']['pairs'])
  values = getattr(result, FIELDS[case['field']])
  values.append(values[-1]) if case['more'] else values.pop()
  try:
    result.check_length(n)
  except AssertionError:
    return True
  require(False, 'incomplete result accepted', field=FIELDS[case['field']])


SUBS = [
    Sub('tables', cases, test_tables, 500, 6000),
    Sub('lengths', length_cases, test_lengths, 300, 2000),
]
