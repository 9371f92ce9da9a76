import csv
import os

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, motion, ref, scripts, search
from hec.checks import c23, c32, c33
from hec.code import (DQ, Quat, all_configs, calibration, plotting, time_alignment,
                      time_plotting, verification)
from hec.harness import Sub, note, require, scratch

PROPERTY = 'C31'
RULE = ('a drawing counts as non-trivial if it shows more than one sample; runs of the programs '
        'always count')
ASSUMPTIONS = ['figures are rendered without a display (Agg)',
               'arrows are arrow patches, their common length is taken from the plot itself']
BATCH = os.path.join(env.EXP_BIN, 'compute_set_of_hand_eye_calibrations.py')


class _Shown(object):
  """Records the calls that show figures."""

  def __enter__(self):
    import matplotlib.pyplot as plt
    from matplotlib import pylab
    self.modules = [(plt, plt.show), (pylab, pylab.show)]
    self.blocks = []

    def show(*args, **kwargs):
      self.blocks.append(kwargs.get('block', args[0] if args else None))

    for module, _ in self.modules:
      module.show = show
    return self

  def __exit__(self, *_):
    for module, original in self.modules:
      module.show = original


def _check_show(shown, block):
  require(len(shown.blocks) == 1, 'the figure is shown', times=len(shown.blocks))
  if block is not None:
    require(shown.blocks[0] == block, 'blocking', actual=shown.blocks[0], expected=block)


def _hex(color):
  from matplotlib import colors
  return colors.to_hex(color)


RED, GREEN, BLUE, CYAN, BLACK = 'r', 'g', 'b', 'c', 'k'


# --- 3D poses ------------------------------------------------------------------------------------

def _markers(axes):
  """Positions of all markers with their colour."""
  out = []
  for line in axes.get_lines():
    if line.get_marker() not in (None, '', ' ', 'None', 'none'):
      for p in np.array(line.get_data_3d(), dtype=float).T:
        out.append((p, _hex(line.get_color())))
  for c in axes.collections:
    if hasattr(c, '_offsets3d'):
      for p in np.array([np.asarray(x, dtype=float) for x in c._offsets3d]).T:
        out.append((p, None))
  return out


def _project(axes, points):
  from mpl_toolkits.mplot3d import proj3d
  points = np.array(points)
  x, y, _ = proj3d.proj_transform(points[:, 0], points[:, 1], points[:, 2], axes.get_proj())
  return np.array([np.asarray(x), np.asarray(y)]).T


def _length(axes, start, direction, target, largest):
  """Length of the arrow that ends at the target on the screen."""
  low, high = 0., largest
  goal = np.linalg.norm(np.array(target) - _project(axes, [start])[0])
  for _ in range(80):
    middle = 0.5 * (low + high)
    a, b = _project(axes, [start, start + middle * direction])
    low, high = (middle, high) if np.linalg.norm(b - a) < goal else (low, middle)
  return 0.5 * (low + high)


def _check_arrows(axes, poses, diagonal):
  from matplotlib.patches import FancyArrowPatch
  arrows = axes.findobj(FancyArrowPatch)
  require(len(arrows) == 3 * len(poses), 'number of arrows', actual=len(arrows),
          expected=3 * len(poses))
  by_color = {}
  for a in arrows:
    by_color.setdefault(_hex(a.get_edgecolor()), []).append(
        np.array([np.array(p, dtype=float) for p in a._posA_posB]))
  require(sorted(by_color) == sorted(_hex(c) for c in (RED, GREEN, BLUE)), 'colours of the arrows',
          actual=sorted(by_color))
  starts = _project(axes, [p[0:3] for p in poses])
  length = None
  for k, color in enumerate((RED, GREEN, BLUE)):
    drawn = by_color[_hex(color)]
    require(len(drawn) == len(poses), 'arrows of one colour', actual=len(drawn),
            expected=len(poses))
    directions = [ref.rot(p[3:7])[:, k] for p in poses]
    if length is None:
      # Measured at the arrow that looks longest.
      begins = np.array([d[0] for d in drawn])
      near = [int(np.argmin(np.linalg.norm(begins - s, axis=1))) for s in starts]
      sizes = [np.linalg.norm(drawn[i][1] - drawn[i][0]) for i in near]
      best = int(np.argmax(sizes))
      length = _length(axes, poses[best][0:3], directions[best], drawn[near[best]][1], diagonal)
      require(1e-3 * diagonal < length < 0.9 * diagonal, 'length of the arrows', actual=length,
              diagonal=diagonal)
    ends = _project(axes, [p[0:3] + length * d for p, d in zip(poses, directions)])
    unused = list(range(len(drawn)))
    for start, end in zip(starts, ends):
      distances = [np.linalg.norm(drawn[i] - np.array([start, end])) for i in unused]
      i = int(np.argmin(distances))
      require(distances[i] < 1e-6, 'arrow along axis {} of a pose'.format('xyz'[k]),
              distance=distances[i])
      del unused[i]


def test_poses(case):
  rng = np.random.RandomState(case['seed'])
  lists = [np.array([gen.random_pose(rng, np.pi, case['scale']) for _ in range(n)])
           for n in case['lengths']]
  for poses in lists:
    poses[:, 3:7] *= rng.choice([-1., 1.], (len(poses), 1))
  everything = np.vstack(lists)
  kwargs = {}
  if case['arrows'] is not None:
    kwargs['plot_arrows'] = case['arrows']
  if case['title']:
    kwargs['title'] = case['title']
  if case['blocking'] is not None:
    kwargs['blocking'] = case['blocking']
  with c32._Clean(), _Shown() as shown:
    plotting.plot_poses(lists, **kwargs)
    figure, = c32._draw()
    if case['title']:
      texts = [t.get_text() for t in figure.texts] + [a.get_title() for a in figure.axes]
      require(case['title'] in texts, 'title', actual=texts)
    axes = figure.axes[0]
    markers = _markers(axes)
    require(len(markers) == len(everything), 'markers', actual=len(markers),
            expected=len(everything))
    slack = 1e-9 * (1. + case['scale'])
    colors = []
    for poses in lists:
      mine = set()
      for p in poses[:, 0:3]:
        hits = [c for q, c in markers if np.max(np.abs(q - p)) <= slack]
        require(hits, 'pose without a marker', position=p.tolist())
        mine.update(hits)
      colors.append(mine)
    if case['scale'] and all(len(c) == 1 and None not in c for c in colors):
      require(len(set.union(*colors)) == len(lists), 'pose lists of the same colour',
              actual=[sorted(c) for c in colors])
    diagonal = np.linalg.norm(np.max(everything[:, 0:3], axis=0) - np.min(everything[:, 0:3], axis=0))
    if case['arrows'] is False:
      from matplotlib.patches import FancyArrowPatch
      require(not axes.findobj(FancyArrowPatch), 'arrows although switched off')
    elif diagonal > 0.:
      _check_arrows(axes, everything, diagonal)
      note('arrows')
    _check_show(shown, case['blocking'])
  return len(everything) > 1


# --- Panels --------------------------------------------------------------------------------------

def _panels(figure):
  """Axes of a figure with the curves they show."""
  out = []
  for a in figure.axes:
    curves = [(_hex(l.get_color()), np.array(l.get_data(), dtype=float)) for l in a.get_lines()]
    out.append((a, curves))
  return out


def _panel(panels, curves, what):
  """The panel that shows exactly these curves: (colour, values) or (colour, times, values)."""
  for axes, drawn in panels:
    if len(drawn) != len(curves):
      continue
    left = list(drawn)
    for c in curves:
      values = np.array(c[-1], dtype=float)
      for i, (color, data) in enumerate(left):
        if (c[0] is None or color == _hex(c[0])) and data[1].shape == values.shape and np.allclose(
            data[1], values, rtol=1e-9, atol=1e-9) and (
                len(c) == 2 or np.allclose(data[0], c[1], rtol=0., atol=1e-5)):
          del left[i]
          break
      else:
        break
    if not left:
      return axes
  require(False, 'no panel shows ' + what)


def _separate(axes):
  require(len(set(id(a) for a in axes)) == len(axes), 'panels shared by different curves')
  boxes = [a.get_position() for a in axes]
  for i, a in enumerate(boxes):
    require(a.width > 0.01 and a.height > 0.01, 'size of a panel', width=a.width, height=a.height)
    for b in boxes[:i]:
      width = min(a.x1, b.x1) - max(a.x0, b.x0)
      height = min(a.y1, b.y1) - max(a.y0, b.y0)
      require(width < 1e-6 or height < 1e-6, 'overlapping panels', width=width, height=height)


def _above(top, bottom):
  require(top.get_position().y0 >= bottom.get_position().y1 - 1e-6, 'panel A is not above panel B')
  require(abs(top.get_position().x0 - bottom.get_position().x0) < 1e-6,
          'panels of A and B are not in one column')


def _titled(axes, word):
  require(word in axes.get_title().lower(), 'title of a panel', actual=axes.get_title(),
          expected=word)


@st.composite
def panel_cases(draw):
  case = draw(c32.signal_cases())
  case['kind'] = draw(gen.pick('results', 'poses', 'velocities', 'input', 'errors'))
  return case


def test_panels(case):
  rng = np.random.RandomState(case['seed'])
  a, b = case['a'], case['b']
  kwargs = {} if case['block'] is None else {'block': case['block']}
  rgb = (RED, GREEN, BLUE)
  rgbc = rgb + (CYAN,)
  with c32._Clean(), _Shown() as shown:
    if case['kind'] == 'results':
      times = [case['start'] + np.cumsum(rng.uniform(0.01, 0.1, n)) for n in (a, b)]
      signals = [rng.uniform(0., 3., n) for n in (a, b)]
      correlation = rng.normal(size=a + b - 1)
      offset = case['offset'] if abs(case['offset']) > 1e-3 else 0.5
      time_plotting.plot_results(times[0], times[1], signals[0], signals[1], correlation, offset,
                                 **kwargs)
      figure, = c32._draw()
      panels = _panels(figure)
      shown_axes = []
      for moved, word in ((times[0], 'before'), (times[0] + offset, 'after')):
        first = min(moved[0], times[1][0])
        axes = _panel(panels, [(RED, moved - first, signals[0]), (BLUE, times[1] - first, signals[1])],
                      'the signals {} the alignment'.format(word))
        _titled(axes, word)
        shown_axes.append(axes)
      shown_axes.append(_panel(panels, [(None, np.arange(1 - a, b), correlation)],
                               'the correlation'))
      _titled(shown_axes[-1], 'correlation')
      _separate(shown_axes)
    elif case['kind'] == 'poses':
      data = [np.hstack((case['start'] + np.arange(n).reshape(-1, 1),
                         [gen.random_pose(rng) for _ in range(n)])) for n in (a, b)]
      time_plotting.plot_time_stamped_poses('Poses', data[0], data[1], **kwargs)
      figure, = c32._draw()
      panels = _panels(figure)
      found = []
      for columns, colors, word in ((range(4, 8), rgbc, 'orientation'), (range(1, 4), rgb, 'position')):
        for rows in data:
          found.append(_panel(panels, [(c, rows[:, k]) for c, k in zip(colors, columns)],
                              'the ' + word))
        _titled(found[-2], word)
        _above(found[-2], found[-1])
      _separate(found)
    elif case['kind'] == 'velocities':
      data = [rng.normal(size=(a, 3)), rng.normal(size=(a, 3))]
      time_plotting.plot_angular_velocities('Velocities', data[0], data[1], **kwargs)
      figure, = c32._draw()
      panels = _panels(figure)
      found = []
      for rows, word in zip(data, ('before', 'after')):
        found.append(_panel(panels, [(c, rows[:, k]) for k, c in enumerate(rgb)],
                            'the velocities {} filtering'.format(word)))
        _titled(found[-1], word)
      _separate(found)
    elif case['kind'] == 'input':
      quaternions = [[Quat(gen.random_pose(rng)[3:7]) for _ in range(n)]
                     for n in (a, b, a + 1, b + 1)]
      norms = [rng.uniform(0., 3., n) for n in (a, b, a, b)]
      time_plotting.plot_input_data(*(quaternions + norms), **kwargs)
      figure, = c32._draw()
      panels = _panels(figure)
      found = []
      for index, word in ((0, 'input'), (2, 'interpolated')):
        for qs in quaternions[index:index + 2]:
          rows = np.array([q.q for q in qs])
          found.append(_panel(panels, [(c, rows[:, k]) for k, c in enumerate(rgbc)],
                              word + ' quaternions'))
        _titled(found[-2], word)
        _above(found[-2], found[-1])
      for index, word in ((0, 'norm'), (2, 'filter')):
        for values, color in zip(norms[index:index + 2], (RED, BLUE)):
          found.append(_panel(panels, [(color, values)], 'angular velocity norms'))
        _titled(found[-2], word)
        _above(found[-2], found[-1])
      _separate(found)
    else:
      p, o = rng.uniform(0., 1., (a, 1)), rng.uniform(0., 180., (a, 1))
      rmse = [float(np.sqrt(np.mean(x ** 2))) for x in (p, o)]
      plotting.plot_alignment_errors(
          p, rmse[0], o, rmse[1], **({} if case['block'] is None else {'blocking': case['block']}))
      figure, = c32._draw()
      panels = _panels(figure)
      found = []
      for values, mean, word in ((p, rmse[0], 'position'), (o, rmse[1], 'orientation')):
        found.append(_panel(panels, [(RED, values[:, 0]), (BLACK, np.full(a, mean))],
                            'the {} errors'.format(word)))
        _titled(found[-1], word)
      _separate(found)
    _check_show(shown, case['block'])
  note(case['kind'])
  return True


# --- Programs ------------------------------------------------------------------------------------

def _pose_figures(word):
  """Paths of the 3D figures whose title contains the word."""
  out = []
  for figure in c32._figures():
    title = figure._suptitle.get_text().lower() if figure._suptitle else ''
    axes = [a for a in figure.axes if hasattr(a, 'get_zlim3d')]
    if word in title and axes:
      out.append([np.array(l.get_data_3d(), dtype=float).T for l in axes[0].get_lines()
                  if l.get_marker() in (None, '', ' ', 'None', 'none')])
  return out


def test_calibration(case):
  """The calibration program shows every n-th pose before and after the alignment."""
  case, data = c23._prepare(dict(case, outliers=0, noise=0.))
  kept, _ = search.prefilter(data.hand, data.eye, 0.95)
  if len(kept) < 4:
    return False
  nth = case['nth'] or 10
  with scratch() as d, c32._Clean():
    words = c23._files(case, data, d) + [('--visualize', 'True')]
    if case['nth']:
      words.append(('--plot_every_nth_pose', str(case['nth'])))
    scripts.run(c23.PROGRAM, c23._shuffled(words, case), d)
    before, after = _pose_figures('before'), _pose_figures('after')
  hand, eye = [np.array(p)[::nth, 0:3] for p in c23.laps(case, data)]
  for figures, paths, limit, what in ((before, (hand, eye), 1e-6, 'before'),
                                      (after, (hand, hand), 1e-2, 'after')):
    require(len(figures) == 1, 'figures {} the alignment'.format(what), actual=len(figures))
    require(len(figures[0]) == 2, 'paths {} the alignment'.format(what), actual=len(figures[0]))
    for path, expected in zip(figures[0], paths):
      require(path.shape == expected.shape, 'poses shown {} the alignment'.format(what),
              actual=len(path), expected=len(expected))
      distance = np.max(np.abs(path - expected))
      require(distance < limit * (1. + np.max(np.abs(expected))),
              'positions shown {} the alignment'.format(what), distance=float(distance))
  return True


@st.composite
def batch_cases(draw):
  case = draw(c33.cases())
  n = 2
  for key in ('sensors', 'worlds', 'shifts'):
    case[key] = case[key][0:n]
  case.update(n=n, stranger=False, algorithm=draw(gen.pick(8, 9, 14, 14)),
              nth=draw(gen.pick(None, 1, 2, 3, 5, 7)), visualize=draw(gen.pick(*[True] * 5 + [False])))
  return case


def test_batch(case):
  """So does the batch experiment."""
  name = all_configs.get_all_configs()[case['algorithm']][0]
  recordings = c33._recordings(case)
  with scratch() as d, c32._Clean():
    files = [os.path.join(d, 'sensor_{}.csv'.format(i)) for i in range(2)]
    for path, rows in zip(files, recordings):
      scripts.write_rows(path, rows)
    output = os.path.join(d, 'out')
    argv = ['--result_directory', output, '--num_iterations', 1, '--visualize', case['visualize'],
            '--aligned_poses_B_H_csv_files'] + files
    if case['nth'] is not None:
      argv += ['--plot_every_nth_pose', case['nth']]
    with c33._only([name]):
      scripts.run(BATCH, argv, d)
    with open(os.path.join(output, 'results.csv')) as f:
      row, = list(csv.DictReader(f))
    before, after = _pose_figures('before'), _pose_figures('after')
    figures = len(c32._figures())
  if not case['visualize']:
    require(not figures, 'plots although switched off', figures=figures)
    return True
  nth = 10 if case['nth'] is None else case['nth']
  expected = (int(row['num_input_poses']) + nth - 1) // nth
  for shown, what in ((before, 'before'), (after, 'after')):
    require(len(shown) == 1 and [len(p) for p in shown[0]] == [expected] * 2,
            'poses shown {} the alignment'.format(what), expected=expected,
            actual=[[len(p) for p in paths] for paths in shown])
  difference = np.max(np.abs(after[0][0] - after[0][1]))
  require(difference < 1e-2, 'the paths do not coincide after the alignment',
          distance=float(difference))
  return True


@st.composite
def verification_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(2, 40, 400)), 'X': draw(gen.pose()),
          'nth': draw(gen.pick(None, 1, 1, 2, 3, 7, 50)), 'sensors': draw(st.integers(2, 6))}


def _compare_paths(figures, expected, what):
  require(len(figures) == 1, 'figures of ' + what, actual=len(figures))
  require(len(figures[0]) == len(expected), 'paths of ' + what, actual=len(figures[0]))
  for path, positions in zip(figures[0], expected):
    require(path.shape == positions.shape, 'poses of ' + what, actual=len(path),
            expected=len(positions))
    distance = np.max(np.abs(path - positions))
    require(distance < 1e-6 * (1. + np.max(np.abs(positions))), 'positions of ' + what,
            distance=float(distance))


def test_verification(case):
  """Evaluating a calibration shows the compared poses, closing the loop its corners."""
  rng = np.random.RandomState(case['seed'])
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -5., 5.)
  stamps = 1. + 0.125 * np.arange(float(case['n']))
  m = motion.Motion(rng, 4)
  hand = motion.record(m, stamps, 0., search.IDENTITY)
  eye = motion.record(m, stamps, 0., gen.random_pose(rng), X)
  config = calibration.HandEyeConfig()
  config.visualize = True
  nth = config.visualize_plot_every_nth_pose if case['nth'] is None else case['nth']
  config.visualize_plot_every_nth_pose = nth
  with c32._Clean():
    verification.evaluate_calibration(hand.copy(), eye.copy(), DQ(X), 0., config)
    figures = _pose_figures('after')
  compared, _ = time_alignment.compute_aligned_poses(hand.copy(), eye.copy(), 0.)
  first = ref.pose_inv(compared[0, 1:8])
  path = np.array([ref.pose_mul(first, row[1:8]) for row in compared])[::nth, 0:3]
  _compare_paths(figures, [path, path], 'the evaluation')
  k = case['sensors']
  pairs = [(i, j) for i in range(k) for j in range(i + 1, k)]
  estimates = {p: gen.random_pose(rng) for p in pairs}
  corners = [search.IDENTITY]
  for i in range(k - 1):
    corners.append(ref.pose_mul(corners[-1], estimates[i, i + 1]))
  corners.append(ref.pose_mul(corners[-1], ref.pose_inv(estimates[0, k - 1])))
  with c32._Clean():
    verification.compute_loop_error([DQ(estimates[p]) for p in pairs], k, True)
    figures = _pose_figures('loop')
  _compare_paths(figures, [np.array(corners)[:, 0:3]], 'the loop')
  return True


SUBS = [
    Sub('poses', c32.pose_cases, test_poses, 100, 1000),
    Sub('panels', panel_cases, test_panels, 160, 1600),
    Sub('calibration', c23.cases, test_calibration, 40, 500, 120),
    Sub('verification', verification_cases, test_verification, 60, 800),
    Sub('batch', batch_cases, test_batch, 24, 300, 240),
]
