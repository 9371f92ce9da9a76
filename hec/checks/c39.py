import os
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, scripts
from hec.code import all_configs, experiment_results
from hec.harness import Sub, Violation, close, note, require, scratch

PROPERTY = 'C39'
RULE = ('a map counts as non-trivial if it has at least four cells; box plots count if they show '
        'at least two methods; runs of the program always count')
ASSUMPTIONS = ['perturbations are at least 1e-9 away from the upper edge of their cell',
               'edges are multiples of a power of two, so that lower edges can be met exactly']
PROGRAM = os.path.join(env.EXP_BIN, 'generate_plots.py')
ORDERS = {'translation_time_angle': ('translation', 'time', 'angle'),
          'angle_time_translation': ('angle', 'time', 'translation'),
          'time_translation_angle': ('time', 'translation', 'angle')}
# The table of the plotting program: times in steps of 0.03 s, angles in steps of 15 degrees.
TIMES, ANGLES, PER_CELL = 8, 8, 60
KINDS = ('time', 'translation', 'angle')


@st.composite
def cases(draw):
  axes = {}
  for kind in KINDS:
    step = draw(gen.pick(0.0625, 0.25, 0.5))
    axes[kind] = {'start': step * draw(gen.pick(0, 0, 0, 1, 3)), 'step': step,
                  'cells': draw(st.integers(1, 4))}
  return {'seed': draw(gen.seed()), 'axes': axes, 'order': draw(st.sampled_from(sorted(ORDERS))),
          'per_cell': draw(st.integers(1, 3)),
          'problem': draw(gen.pick(*[''] * 7 + ['missing', 'additional', 'above', 'below', 'moved']))}


def _runs(case, rng):
  """One list (kind -> value, position error, orientation error) per run."""
  runs = []
  axes = case['axes']
  for i in range(axes['time']['cells']):
    for j in range(axes['translation']['cells']):
      for k in range(axes['angle']['cells']):
        for _ in range(case['per_cell']):
          run = {'errors': rng.uniform(0., 10., 2)}
          for kind, cell in zip(KINDS, (i, j, k)):
            share = rng.choice([0., rng.uniform(0., 1. - 1e-6)])
            run[kind] = axes[kind]['start'] + (cell + share) * axes[kind]['step']
            run[kind + '_cell'] = cell
          if rng.randint(2):
            run['time'] *= -1.
          runs.append(run)
  return [runs[i] for i in rng.permutation(len(runs))]


def _range(axis):
  # The last edge is the first one at or behind the end.
  return {'start': axis['start'], 'step': axis['step'],
          'end': axis['start'] + (axis['cells'] - 0.3) * axis['step']}


def _plot(case, runs):
  module = scripts.load(PROGRAM)
  data = [[float(r['errors'][0]) for r in runs], [float(r['errors'][1]) for r in runs],
          [r['angle'] for r in runs], [r['translation'] for r in runs], [r['time'] for r in runs]]
  keep = [list(x) for x in data]
  ranges = [_range(case['axes'][k]) for k in KINDS]
  module.generate_optimization_circle_error_plot(*(ranges + [data, case['order'],
                                                             case['per_cell']]))
  require(data == keep, 'data modified by plotting')


def _numbers(text):
  return [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', text)]


def _described(axes):
  """What the labels of a map say."""
  axes = [a for a in axes.figure.axes if a.images and a.get_ylabel()][0]
  interval = re.search(r'\[(.*)\)', axes.get_title())
  return {'x': axes.get_xlabel().lower(), 'y': axes.get_ylabel().lower(),
          'x_cells': [_numbers(t.get_text()) for t in axes.get_xticklabels()],
          'y_cells': [_numbers(t.get_text()) for t in axes.get_yticklabels()],
          'x_ticks': list(axes.get_xticks()), 'y_ticks': list(axes.get_yticks()),
          'interval': _numbers(interval.group(1)) if interval else []}


def _check_labels(label, case, index):
  plot_kind, y_kind, x_kind = ORDERS[case['order']]
  require(x_kind in label['x'] and y_kind in label['y'], 'labels of the axes', actual=label,
          expected=[x_kind, y_kind])

  def edges(kind, cell):
    axis = case['axes'][kind]
    out = axis['start'] + np.array([cell, cell + 1]) * axis['step']
    return np.degrees(out) if kind == 'angle' else out

  for name, kind in (('x', x_kind), ('y', y_kind)):
    cells = label[name + '_cells']
    count = case['axes'][kind]['cells']
    require(len(cells) == count and np.allclose(label[name + '_ticks'], np.arange(count)),
            'labelled cells', actual=label, expected=count)
    for i, cell in enumerate(cells):
      # Angles are shown as whole degrees.
      close(cell, edges(kind, i), 0.501 if kind == 'angle' else 1e-6,
            what='label of cell {} along {}'.format(i, name))
  close(label['interval'], edges(plot_kind, index), 1e-6, what='interval in the title')


def _maps(plt, labels):
  """The images of all figures in order: (translational, angular)."""
  out = []
  for number in plt.get_fignums():
    images = [(a.get_title().lower(), a.images[0]) for a in plt.figure(number).axes if a.images]
    found, found_axes = {}, []
    for title, image in images:
      for word in ('transl', 'angular'):
        if title.startswith(word):
          require(word not in found, 'two maps of one error', title=title)
          found[word] = np.array(image.get_array(), dtype=float)
          found_axes.append(image.axes)
    require(sorted(found) == ['angular', 'transl'], 'maps', titles=[t for t, _ in images])
    labels.append(_described(found_axes[0]))
    out.append((found['transl'], found['angular']))
  return out


def test_map(case):
  import matplotlib.pyplot as plt
  rng = np.random.RandomState(case['seed'] % (2 ** 32))
  runs = _runs(case, rng)
  axes = case['axes']
  if case['problem']:
    note('refused: ' + case['problem'])
    kind = KINDS[rng.randint(3)]
    index = rng.randint(len(runs))
    if case['problem'] == 'missing':
      del runs[index]
    elif case['problem'] == 'additional':
      runs.append(dict(runs[index]))
    elif case['problem'] == 'above':
      runs[index][kind] = axes[kind]['start'] + axes[kind]['step'] * (
          axes[kind]['cells'] + rng.uniform(0.01, 3.))
    elif case['problem'] == 'below':
      if axes[kind]['start'] == 0.:
        return False
      runs[index][kind] = axes[kind]['start'] * rng.uniform(0., 0.99)
    elif axes[kind]['cells'] == 1:
      return False
    else:  # moved to another cell
      cell = runs[index][kind + '_cell']
      other = rng.choice([c for c in range(axes[kind]['cells']) if c != cell])
      runs[index][kind] = axes[kind]['start'] + (other + 0.5) * axes[kind]['step']
    plt.close('all')
    try:
      _plot(case, runs)
    except Violation:
      raise
    except Exception:
      return False
    finally:
      plt.close('all')
    raise Violation('runs that do not fill the map are plotted: ' + case['problem'])
  plt.close('all')
  try:
    _plot(case, runs)
    labels = []
    maps = _maps(plt, labels)
  finally:
    plt.close('all')
  plot_kind, y_kind, x_kind = ORDERS[case['order']]
  require(len(maps) == axes[plot_kind]['cells'], 'number of maps', actual=len(maps),
          expected=axes[plot_kind]['cells'])
  for k, (positions, orientations) in enumerate(maps):
    expected = np.zeros((2, axes[y_kind]['cells'], axes[x_kind]['cells']))
    for run in runs:
      if run[plot_kind + '_cell'] == k:
        expected[:, run[y_kind + '_cell'], run[x_kind + '_cell']] += run['errors']
    expected /= case['per_cell']
    _check_labels(labels[k], case, k)
    close(positions, expected[0], 1e-9, what='position errors of map {}'.format(k))
    close(orientations, expected[1], 1e-9, what='orientation errors of map {}'.format(k))
  note(case['order'])
  return axes['time']['cells'] * axes['translation']['cells'] * axes['angle']['cells'] >= 4


@st.composite
def box_cases(draw):
  return {'seed': draw(gen.seed()), 'methods': draw(st.integers(1, 7)),
          'datasets': draw(st.integers(1, 5))}


class _Recorder(object):
  """Records what is drawn as box plots."""

  def __enter__(self):
    from matplotlib.axes import Axes
    self.original = Axes.boxplot
    self.calls = []
    original, calls = self.original, self.calls

    def boxplot(*args, **kwargs):
      result = original(*args, **kwargs)
      bound = dict(zip(('self', 'x', 'notch', 'sym', 'vert', 'whis', 'positions'), args))
      bound.update(kwargs)
      places = bound.get('positions')
      calls.append((bound['self'], [np.array(x, dtype=float) for x in bound['x']],
                    np.arange(1., 1. + len(bound['x'])) if places is None else np.array(places),
                    result))
      return result

    Axes.boxplot = boxplot
    return self

  def __exit__(self, *_):
    from matplotlib.axes import Axes
    Axes.boxplot = self.original


def _labels(axes, positions):
  ticks = np.array(axes.get_xticks(), dtype=float)
  names = [t.get_text() for t in axes.get_xticklabels()]
  return [names[int(np.argmin(np.abs(ticks - p)))] for p in positions]


def test_boxes(case):
  import matplotlib.pyplot as plt
  from matplotlib import colors as mcolors
  module = scripts.load(PROGRAM)
  rng = np.random.RandomState(case['seed'] % (2 ** 32))
  methods = ['M{}'.format(i) for i in rng.permutation(case['methods'])]
  datasets = ['set {}'.format(i) for i in rng.permutation(case['datasets'])]
  colors = ['b', 'g', 'c', 'm', 'y', 'k', 'r']
  sizes = rng.randint(1, 6, len(methods))
  position = [rng.uniform(0.1, 1., n).tolist() for n in sizes]
  orientation = [rng.uniform(1., 5., n).tolist() for n in sizes]
  times = {d: {m: rng.uniform(0.1, 9., rng.randint(1, 6)).tolist() for m in methods}
           for d in datasets}
  plt.close('all')
  try:
    with _Recorder() as recorder:
      module.generate_box_plot(datasets[0], methods, position, orientation)
      figure = plt.gcf()
      require(datasets[0] in figure._suptitle.get_text(), 'title',
              title=figure._suptitle.get_text())
    shown = {}
    for axes, samples, places, _ in recorder.calls:
      label = axes.get_ylabel().lower()
      kind = [k for k in ('position', 'orientation') if k in label]
      require(len(kind) == 1 and kind[0] not in shown, 'label of the errors', label=label)
      shown[kind[0]] = dict(zip(_labels(figure.axes[-1], places), samples))
      require(len(samples) == len(methods), 'boxes', actual=len(samples))
    for kind, data in (('position', position), ('orientation', orientation)):
      require(sorted(shown.get(kind, {})) == sorted(methods), 'methods of the ' + kind,
              actual=sorted(shown.get(kind, {})))
      for method, values in zip(methods, data):
        close(shown[kind][method], values, 0., what='{} errors of {}'.format(kind, method))
    plt.close('all')
    with _Recorder() as recorder:
      module.generate_time_plot(methods, datasets, times, colors)
      legend = recorder.calls[0][0].get_legend()
    by_color = {}
    handles = getattr(legend, 'legend_handles', None) or legend.legendHandles
    for handle, text in zip(handles, legend.get_texts()):
      by_color[mcolors.to_hex(handle.get_facecolor())] = text.get_text()
    require(sorted(by_color.values()) == sorted(datasets), 'legend', actual=sorted(by_color.values()))
    seen = []
    for axes, samples, places, drawn in recorder.calls:
      dataset = by_color[mcolors.to_hex(drawn['boxes'][0].get_color())]
      seen.append(dataset)
      labels = _labels(axes, places)
      require(sorted(labels) == sorted(methods), 'methods of the times', actual=labels)
      for method, values in zip(labels, samples):
        close(values, times[dataset][method], 0., what='times of {} on {}'.format(method, dataset))
    require(sorted(seen) == sorted(datasets), 'data sets', actual=seen)
  finally:
    plt.close('all')
  return len(methods) > 1


@st.composite
def program_cases(draw):
  return {'seed': draw(gen.seed()), 'datasets': draw(st.integers(1, 3)),
          'files': draw(st.integers(1, 3)), 'failed': draw(st.integers(0, 40))}


def test_program(case):
  """The plotting program on tables of a complete experiment."""
  import matplotlib
  import matplotlib.pyplot as plt
  rng = np.random.RandomState(case['seed'] % (2 ** 32))
  datasets = ['set {}'.format(i) for i in range(case['datasets'])]
  name, time, hand_eye, optimisation = (
      all_configs.get_optimization_with_spoiled_initial_calibration_config())
  runs = []
  for i in range(TIMES):
    for j in range(ANGLES):
      for k in range(PER_CELL):
        runs.append((i, j, True))
  runs += [(rng.randint(TIMES), rng.randint(ANGLES), False) for _ in range(case['failed'])]
  lines, sums = [[] for _ in range(case['files'])], np.zeros((2, TIMES, ANGLES))
  samples = {}
  order = rng.permutation(len(runs))
  for number, index in enumerate(order):
    i, j, good = runs[index]
    part = number * case['files'] // len(runs)
    dataset = datasets[rng.randint(len(datasets))]
    values = np.round(rng.uniform(0.1, 9., 6), 6)
    entry = experiment_results.ResultEntry()
    entry.init_from_configs(name, number, time, hand_eye, optimisation)
    entry.loop_error_position, entry.loop_error_orientation = values[0:2]
    entry.dataset_names.append(('hand.csv', 'eye.csv'))
    entry.success.append(good or bool(rng.randint(2)))
    entry.bad_singular_value.append(not good)
    entry.rmse.append((values[2], values[3]))
    entry.num_inliers.append(20)
    entry.num_initial_poses.append(40)
    entry.num_poses_kept.append(30)
    entry.runtimes.append(values[4])
    entry.optimization_runtime.append(values[5])
    entry.optimization_success.append(True)
    entry.singular_values.append(rng.uniform(0., 1., 8))
    entry.spoiled_initial_guess_angle_offset.append((j + rng.uniform(0.01, 0.99)) * np.pi / 12.)
    entry.spoiled_initial_guess_translation_offset.append(
        gen.random_unit(rng) * rng.uniform(0.001, 0.099))
    entry.spoiled_initial_guess_time_offset.append(
        (i + rng.uniform(0.01, 0.99)) * 0.03 * rng.choice([-1., 1.]))
    if not lines[part]:
      lines[part].append(entry.get_header().rstrip('\n') + ',dataset')
    lines[part].append(entry.write_pose_pair_to_csv_line(0).rstrip('\n') + ',' + dataset)
    if good:
      sums[:, i, j] += values[0:2]
      mine = samples.setdefault(dataset, ([], [], []))
      for group, value in zip(mine, (values[2], values[3], values[4] + values[5])):
        group.append(value)
  style = dict(matplotlib.rcParams)
  plt.close('all')
  try:
    with scratch() as d:
      paths = []
      for number, part in enumerate(lines):
        paths.append(os.path.join(d, 'results_{}.csv'.format(number)))
        with open(paths[-1], 'w') as f:
          f.write('\n'.join(part) + '\n')
      with _Recorder() as recorder:
        scripts.run(PROGRAM, ['--csv_file_names'] + paths, d)
    maps = []
    for figure in plt.get_fignums():
      if any(a.images for a in plt.figure(figure).axes):
        maps.append(figure)
    require(len(maps) == 1, 'maps', actual=len(maps))
    for figure in plt.get_fignums():
      if figure not in maps:
        plt.close(figure)
    (positions, orientations), = _maps(plt, [])
  finally:
    plt.close('all')
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      matplotlib.rcParams.update(style)
  close(positions, sums[0] / PER_CELL, 1e-9, what='map of the position errors')
  close(orientations, sums[1] / PER_CELL, 1e-9, what='map of the orientation errors')
  # Two box plots per data set, then the times of all data sets.
  require(len(recorder.calls) == 3 * len(samples), 'box plots', actual=len(recorder.calls))
  found = []
  for axes, drawn, _, _ in recorder.calls:
    require(len(drawn) == 1, 'methods', actual=len(drawn))
    label = axes.get_ylabel().lower()
    kind = [k for k in ('position', 'orientation', 'time') if k in label]
    require(len(kind) == 1, 'label', label=label)
    title = axes.figure._suptitle.get_text()
    for dataset in samples:
      expected = samples[dataset][('position', 'orientation', 'time').index(kind[0])]
      if len(drawn[0]) == len(expected) and np.allclose(drawn[0], expected, 0., 1e-9):
        if kind[0] != 'time':
          require(dataset in title, 'title', title=title, expected=dataset)
        found.append((kind[0], dataset))
  require(sorted(found) == sorted((k, s) for k in ('position', 'orientation', 'time')
                                  for s in samples), 'samples of the box plots', actual=sorted(found))
  return True


SUBS = [
    Sub('map', cases, test_map, 240, 3000),
    Sub('boxes', box_cases, test_boxes, 160, 2000),
    Sub('program', program_cases, test_program, 16, 300),
]
