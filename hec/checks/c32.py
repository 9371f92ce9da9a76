import copy

import numpy as np
from hypothesis import strategies as st

from hec import gen, motion, ref, search
from hec.code import (DQ, Quat, calibration, plotting, time_alignment, time_plotting, verification)
from hec.harness import Sub, close, note, require

PROPERTY = 'C32'
RULE = ('a drawing counts as non-trivial if it shows more than one sample; a computation always '
        'counts when it was repeated with plotting')
ASSUMPTIONS = ['figures are rendered without a display (Agg)']


def _figures():
  import matplotlib.pyplot as plt
  return [plt.figure(n) for n in plt.get_fignums()]


def _draw(minimum=1):
  """Renders all figures and returns them."""
  figures = _figures()
  require(len(figures) >= minimum, 'number of figures', actual=len(figures), expected=minimum)
  for f in figures:
    require(f.get_axes(), 'empty figure')
    f.set_size_inches(2., 2.)
    f.set_dpi(30)
    f.canvas.draw()
  return figures


def _lines(figures):
  out = []
  for f in figures:
    for ax in f.get_axes():
      for line in ax.get_lines():
        if hasattr(line, 'get_data_3d'):
          out.append(np.array(line.get_data_3d(), dtype=float))
        else:
          out.append(np.array(line.get_data(), dtype=float))
  return out


def _shown(lines, values, what):
  """Some line shows the values (one row per coordinate)."""
  values = np.array(values, dtype=float)
  for line in lines:
    if line.shape == values.shape and np.allclose(line, values, rtol=1e-9, atol=1e-9):
      return
    if values.ndim == 1 and line.shape[1:] == values.shape and np.allclose(line[1], values,
                                                                        rtol=1e-9, atol=1e-9):
      return
  require(False, what + ' are not shown')


class _Clean(object):
  """Closes all figures and restores the settings of matplotlib."""

  def __enter__(self):
    import matplotlib
    import matplotlib.pyplot as plt
    plt.close('all')
    self.old = dict(matplotlib.rcParams)

  def __exit__(self, *args):
    import matplotlib
    import matplotlib.pyplot as plt
    plt.close('all')
    dict.update(matplotlib.rcParams, self.old)


# --- Drawing functions -----------------------------------------------------------------------

@st.composite
def pose_cases(draw):
  return {'lengths': draw(st.one_of(
      st.lists(gen.pick(1, 2, 3, 5, 9), min_size=1, max_size=5),
      st.lists(gen.pick(1, 2, 3, 5, 9), min_size=1, max_size=5),
      st.lists(gen.pick(1, 5, 9, 30), min_size=1, max_size=5),
      st.lists(gen.pick(150, 450, 700), min_size=1, max_size=1))),
          'seed': draw(gen.seed()), 'scale': draw(gen.pick(1., 1e-3, 1000., 0.)),
          'arrows': draw(gen.pick(True, True, False, None)), 'title': draw(gen.pick('', 'Poses $x$')),
          'blocking': draw(gen.pick(None, True, False))}


def test_poses(case):
  rng = np.random.RandomState(case['seed'])
  lists = [np.array([gen.random_pose(rng, np.pi, case['scale']) for _ in range(n)])
           for n in case['lengths']]
  for poses in lists:
    poses[:, 3:7] *= rng.choice([-1., 1.], (len(poses), 1))
  keep = copy.deepcopy(lists)
  kwargs = {}
  if case['arrows'] is not None:
    kwargs['plot_arrows'] = case['arrows']
  if case['title']:
    kwargs['title'] = case['title']
  if case['blocking'] is not None:
    kwargs['blocking'] = case['blocking']
  with _Clean():
    plotting.plot_poses(lists, **kwargs)
    lines = _lines(_draw())
    for poses in keep:
      _shown(lines, poses[:, 0:3].T, 'positions of a pose list')
    axes = _figures()[0].get_axes()[0]
    limits = np.array([axes.get_xlim3d(), axes.get_ylim3d(), axes.get_zlim3d()])
    everything = np.vstack(keep)[:, 0:3]
    slack = 1e-6 * (1. + np.max(np.abs(everything)))
    require(np.all(np.sort(limits, axis=1)[:, 0] <= np.min(everything, axis=0) + slack) and
            np.all(np.sort(limits, axis=1)[:, 1] >= np.max(everything, axis=0) - slack),
            'poses outside the axes', limits=limits.tolist())
  for a, b in zip(lists, keep):
    require(np.array_equal(a, b), 'poses modified')
  upper, lower = plotting.compute_bbox_3D(lists)
  close(upper, np.max(everything, axis=0), 0., what='upper corner of the bounding box')
  close(lower, np.min(everything, axis=0), 0., what='lower corner of the bounding box')
  return len(everything) > 1


@st.composite
def error_cases(draw):
  return {'n': draw(gen.pick(1, 2, 3, 10, 100, 3000)), 'seed': draw(gen.seed()),
          'scale': draw(gen.pick(0., 1e-9, 1., 1e6)), 'blocking': draw(gen.pick(None, True, False))}


def test_errors(case):
  rng = np.random.RandomState(case['seed'])
  p = rng.uniform(0., 1., (case['n'], 1)) * case['scale']
  o = rng.uniform(0., 180., (case['n'], 1))
  keep = p.copy(), o.copy()
  rmse = [float(np.sqrt(np.mean(x ** 2))) for x in (p, o)]
  kwargs = {} if case['blocking'] is None else {'blocking': case['blocking']}
  with _Clean():
    plotting.plot_alignment_errors(p, rmse[0], o, rmse[1], **kwargs)
    lines = _lines(_draw())
    for values, name in ((keep[0][:, 0], 'position errors'), (keep[1][:, 0], 'orientation errors'),
                         (np.full(case['n'], rmse[0]), 'position RMSE'),
                         (np.full(case['n'], rmse[1]), 'orientation RMSE')):
      _shown(lines, values, name)
  require(np.array_equal(p, keep[0]) and np.array_equal(o, keep[1]), 'errors modified')
  return case['n'] > 1


@st.composite
def signal_cases(draw):
  return {'kind': draw(gen.pick('results', 'poses', 'velocities', 'input')),
          'a': draw(gen.pick(2, 3, 10, 60, 1500)), 'b': draw(gen.pick(2, 3, 10, 60, 1500)),
          'seed': draw(gen.seed()), 'start': draw(gen.pick(0., 1.4e9)),
          'offset': draw(gen.component()), 'block': draw(gen.pick(None, True, False)),
          'lists': draw(st.booleans())}


def test_signals(case):
  rng = np.random.RandomState(case['seed'])
  a, b = case['a'], case['b']
  kwargs = {} if case['block'] is None else {'block': case['block']}
  with _Clean():
    if case['kind'] == 'results':
      times = [case['start'] + np.cumsum(rng.uniform(0.01, 0.1, n)) for n in (a, b)]
      signals = [rng.uniform(0., 3., n) for n in (a, b)]
      data = times + signals + [rng.normal(size=a + b - 1)]
      keep = copy.deepcopy(data)
      passed = data[0:2] + ([list(s) for s in signals] if case['lists'] else signals)
      time_plotting.plot_results(*(passed + [data[4], case['offset']]), **kwargs)
      lines = _lines(_draw())
      first = min(times[0][0], times[1][0])
      _shown(lines, [times[0] - first, signals[0]], 'signal A before the alignment')
      _shown(lines, [times[1] - first, signals[1]], 'signal B before the alignment')
      _shown(lines, [np.arange(-a + 1, b), data[4]], 'correlation')
      moved = times[0] + case['offset']
      first = min(moved[0], times[1][0])
      for t, s, name in ((moved, signals[0], 'A'), (times[1], signals[1], 'B')):
        values = np.array([t - first, s])
        require(any(l.shape == values.shape and np.allclose(l, values, atol=1e-5) for l in lines),
                'signal after the alignment', signal=name)
    elif case['kind'] == 'poses':
      data = [np.hstack((case['start'] + np.arange(n).reshape(-1, 1),
                         [gen.random_pose(rng) for _ in range(n)])) for n in (a, b)]
      keep = copy.deepcopy(data)
      time_plotting.plot_time_stamped_poses('Poses', data[0], data[1], **kwargs)
      lines = _lines(_draw())
      for rows in keep:
        for c in range(1, 8):
          _shown(lines, rows[:, c], 'column {} of the poses'.format(c))
    elif case['kind'] == 'velocities':
      data = [rng.normal(size=(a, 3)), rng.normal(size=(a, 3))]
      keep = copy.deepcopy(data)
      time_plotting.plot_angular_velocities('Velocities', data[0], data[1], **kwargs)
      lines = _lines(_draw())
      for rows in keep:
        for c in range(3):
          _shown(lines, rows[:, c], 'column {} of the velocities'.format(c))
    else:
      quaternions = [[Quat(gen.random_pose(rng)[3:7]) for _ in range(n)] for n in (a, b, a + 1, b + 1)]
      data = [np.array([q.q for q in qs]) for qs in quaternions]
      norms = [rng.uniform(0., 3., n) for n in (a, b, a, b)]
      keep = copy.deepcopy(data + norms)
      time_plotting.plot_input_data(*(quaternions + norms), **kwargs)
      lines = _lines(_draw())
      for rows in keep[0:4]:
        for c in range(4):
          _shown(lines, rows[:, c], 'column {} of the quaternions'.format(c))
      for values in keep[4:]:
        _shown(lines, values, 'angular velocity norms')
      data = [np.array([q.q for q in qs]) for qs in quaternions] + norms
    for x, y in zip(data, keep):
      require(np.array_equal(x, y), 'data modified')
  note(case['kind'])
  return True


# --- Computations ----------------------------------------------------------------------------

@st.composite
def computation_cases(draw):
  return {'kind': draw(gen.pick('signals', 'filter', 'norms', 'offset', 'aligned', 'alignment',
                                'evaluate', 'loop', 'search', 'search')),
          'seed': draw(gen.seed()), 'n': draw(st.integers(13, 16)), 'X': draw(gen.pose(0., 3.)),
          'nth': draw(gen.pick(1, 2, 10, 50)), 'outliers': draw(st.integers(0, 2)),
          'apart': draw(gen.pick(False, False, True)),
          'config': draw(search.config(('RC', 'RS', 'ES', 'baseline'))),
          'state': draw(st.integers(0, 10 ** 6)), 'sensors': draw(st.integers(2, 5))}


def _flat(value):
  """Numbers of a result, in order."""
  if value is None:
    return [-12345.]
  if hasattr(value, 'dq'):
    return _flat(value.dq)
  if isinstance(value, (list, tuple)):
    out = []
    for v in value:
      out += _flat(v)
    return out
  return [float(x) for x in np.asarray(value, dtype=float).flatten()]


def _computation(case):
  """A function of the plotting switch."""
  rng = np.random.RandomState(case['seed'])
  kind = case['kind']
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  m = motion.Motion(rng, 6)
  stamps = 1. + 0.05 * np.arange(90.)
  hand = motion.record(m, stamps, 0., search.IDENTITY)
  eye = motion.record(m, stamps[10:80] + (100. if case['apart'] else 0.), 0., search.IDENTITY, X)
  config = calibration.HandEyeConfig()
  config.visualize_plot_every_nth_pose = case['nth']
  filtering = time_alignment.FilteringConfig()
  if kind == 'signals':
    signals = rng.uniform(0., 1., 30), rng.uniform(0., 1., 40)
    times = np.arange(30.) * 0.1, 5. + np.arange(40.) * 0.1
    return lambda plot: time_alignment.calculate_time_offset_from_signals(
        times[0], signals[0], times[1], signals[1], plot)
  if kind == 'filter':
    velocities = rng.normal(size=(40, 3))
    return lambda plot: time_alignment.filter_and_smooth_angular_velocity(velocities, 5, 99., plot)
  quaternions = [[Quat(row[4:8]) for row in rows] for rows in (hand, eye)]
  if kind == 'norms':
    return lambda plot: time_alignment.compute_angular_velocity_norms(
        quaternions[0], hand[:, 0], 5, 99., plot)
  if kind == 'offset':
    return lambda plot: time_alignment.calculate_time_offset(
        hand[:, 0], quaternions[0], eye[:, 0], quaternions[1], filtering, plot)
  if kind == 'aligned':
    return lambda plot: time_alignment.compute_aligned_poses(hand.copy(), eye.copy(), 0., plot)
  if kind == 'alignment':
    poses = [np.array([ref.pose_positive(gen.random_pose(rng, 3.)) for _ in range(case['n'])])
             for _ in range(2)]
    return lambda plot: calibration.evaluate_alignment(poses[0], poses[1], config, plot)
  if kind == 'evaluate':
    def evaluate(plot):
      config.visualize = plot
      return verification.evaluate_calibration(hand.copy(), eye.copy(), DQ(X), 0., config)
    return evaluate
  if kind == 'loop':
    k = case['sensors']
    dqs = [gen.random_pose(rng) for _ in range(k * (k - 1) // 2)]
    return lambda plot: verification.compute_loop_error([DQ(p) for p in dqs], k, plot)
  case = dict(case, X=X)
  data = search.build(case)

  def run(plot):
    c = search.make_config(case['config'], data)
    c.visualize = plot
    c.visualize_plot_every_nth_pose = case['nth']
    try:
      result = search.run(data, c, case['state'])
    except AssertionError:
      return None  # too few poses left, the same with and without plots
    # Everything but the runtime.
    return [r for i, r in enumerate(result) if i != 5]
  return run


def test_computation(case):
  f = _computation(case)
  with _Clean():
    plain = _flat(f(False))
    require(not _figures(), 'plots although switched off')
    plotted = _flat(f(True))
    if plotted != [-12345.]:
      require(case['kind'] == 'search' or _figures() or case['apart'], 'no plot although switched on')
    if _figures():
      _draw()
      note('plotted: ' + case['kind'])
  require(len(plain) == len(plotted), 'size of the result', plain=len(plain), plotted=len(plotted))
  close(plotted, plain, 1e-9, 1e-9, what='result with plots') if np.all(np.isfinite(plain)) else None
  return True


SUBS = [
    Sub('poses', pose_cases, test_poses, 90, 900),
    Sub('errors', error_cases, test_errors, 60, 600),
    Sub('signals', signal_cases, test_signals, 100, 1000),
    Sub('computation', computation_cases, test_computation, 160, 1600, 120),
]
