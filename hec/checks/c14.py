import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import Quat, time_alignment
from hec.harness import Sub, close, note, raises, require

PROPERTY = 'C14'
RULE = ('a case counts as non-trivial if it has at least three recordings and a requested time '
        'strictly between two recordings that differ by more than 0.01 rad')
ASSUMPTIONS = ['consecutive recordings are less than 2.9 rad apart',
               'orientations are compared as rotations (either quaternion sign)']


@st.composite
def recording(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(2, 12, 400)),
          'stamps': draw(gen.pick('uniform', 'irregular', 'gaps')),
          'start': draw(gen.pick(0., 0., 3.25, -7.5, 1.5e9, 1466012345.6789)),
          'step': draw(gen.pick(0.005, 0.01, 0.1, 1., 10.)),
          'turn': draw(gen.pick(0., 0.001, 0.1, 1., 2.9)), 'signs': draw(st.booleans())}


def _recording(case):
  rng = np.random.RandomState(case['seed'])
  n = case['n']
  if case['stamps'] == 'uniform':
    steps = np.ones(n - 1)
  elif case['stamps'] == 'irregular':
    steps = rng.uniform(0.2, 2., n - 1)
  else:
    steps = np.where(rng.rand(n - 1) < 0.3, 20., 1.)
  times = case['start'] + case['step'] * np.concatenate(([0.], np.cumsum(steps)))
  q = ref.qunit(rng.normal(size=4))
  quaternions = [q]
  for _ in range(n - 1):
    turn = ref.q_from_angle_axis(rng.uniform(0., 1.) * case['turn'], gen.random_unit(rng))
    q = ref.qunit(ref.qmul(q, turn))
    quaternions.append(q)
  if case['signs']:
    quaternions = [x * rng.choice([-1., 1.]) for x in quaternions]
  poses = rng.uniform(-3., 3., (n, 3))
  return times, np.array(quaternions), poses, rng


def _at(times, quaternions, t):
  i = int(np.searchsorted(times, t))
  if times[i] == t:
    return quaternions[i], False
  f = (t - times[i - 1]) / (times[i] - times[i - 1])
  return (ref.slerp(quaternions[i - 1], quaternions[i], f),
          ref.angle_between(quaternions[i - 1], quaternions[i]) > 0.01)


def _samples(case, times, rng):
  samples = list(times[0] + rng.rand(case['extra']) * (times[-1] - times[0]))
  samples += [times[i] for i in range(len(times)) if case['recorded'] and rng.rand() < 0.6]
  # Times next to a recording.
  for i in range(len(times) - 1):
    if rng.rand() < 0.4:
      samples.append(np.nextafter(times[i], times[-1] + 1.))
    if rng.rand() < 0.4:
      samples.append(times[i] + 0.999 * (times[i + 1] - times[i]))
  samples = [s for s in samples if times[0] <= s <= times[-1]]
  if case['ordered']:
    samples.sort()
  else:
    rng.shuffle(samples)
  return np.array(samples)


@st.composite
def sample_cases(draw):
  case = draw(recording())
  case.update({'extra': draw(gen.count(0, 8, 60)), 'recorded': draw(st.booleans()),
               'ordered': draw(gen.pick(True, True, False))})
  return case


def _compare(actual, expected, what):
  q = np.array(actual, dtype=float)
  require(q.shape == (4,), what + ' shape')
  close(np.linalg.norm(q), 1., 1e-7, what=what + ' norm')
  deviation = ref.same_rotation(q, expected)
  require(deviation < 1e-6, what + ' differs', actual=q.tolist(), expected=expected.tolist(),
          deviation=deviation)


def test_samples(case):
  times, quaternions, positions, rng = _recording(case)
  samples = _samples(case, times, rng)
  recorded = [Quat(q) for q in quaternions]
  keep_times, keep_samples = times.copy(), samples.copy()
  result = time_alignment.resample_quaternions_from_samples(times, recorded, samples)
  require(len(result) == len(samples), 'number of orientations', actual=len(result),
          expected=len(samples))
  moved = False
  for s, r in zip(samples, result):
    expected, between = _at(times, quaternions, s)
    moved = moved or between
    _compare(r.q, expected, 'orientation at {!r}'.format(s))
  close(times, keep_times, 0., what='times')
  close(samples, keep_samples, 0., what='samples')
  for q, r in zip(quaternions, recorded):
    close(r.q, q, 1e-12, what='recorded orientation')
  if case['start'] > 1e9:
    note('epoch')
  return case['n'] >= 3 and moved


def test_poses(case):
  times, quaternions, positions, rng = _recording(case)
  samples = _samples(case, times, rng)
  rows = np.column_stack((times, positions, quaternions))
  keep = rows.copy()
  result = np.asarray(time_alignment.interpolate_poses_from_samples(rows, samples))
  require(result.shape == (len(samples), 8), 'shape', shape=result.shape)
  moved = False
  for s, r in zip(samples, result):
    expected, between = _at(times, quaternions, s)
    moved = moved or between
    require(r[0] == s, 'stamp', actual=r[0], expected=s)
    i = max(1, int(np.searchsorted(times, s)))
    f = (s - times[i - 1]) / (times[i] - times[i - 1])
    close(r[1:4], (1. - f) * positions[i - 1] + f * positions[i], 1e-9, what='position')
    _compare(r[4:8], expected, 'orientation at {!r}'.format(s))
  close(rows, keep, 0., what='input')
  return case['n'] >= 3 and moved


@st.composite
def uniform_cases(draw):
  case = draw(recording())
  # Requested step in units of the recorded step.
  case['dt'] = draw(gen.pick(0.3, 0.5, 0.99, 1., 1.37, 2., 2.5))
  return case


def test_uniform(case):
  times, quaternions, positions, rng = _recording(case)
  interval = times[-1] - times[0]
  dt = min(case['dt'] * case['step'], interval)
  if interval / dt > 1000.:
    return False
  recorded = [Quat(q) for q in quaternions]
  result, samples = time_alignment.resample_quaternions(times, recorded, dt)
  samples = np.asarray(samples)
  require(len(result) == len(samples), 'number of orientations')
  epsilon = 1e-6 * dt + 4. * np.spacing(abs(times[-1]))
  require(samples[0] == times[0], 'first time', actual=samples[0], expected=times[0])
  if len(samples) < 2:
    # The interval is as long as the step up to rounding.
    require(interval < dt * (1. + 1e-6), 'only one time')
    return False
  close(samples[-1], times[-1], 0., what='last time')
  steps = np.diff(samples)
  close(steps, np.full(len(steps), interval / len(steps)), epsilon, what='equal steps')
  require(np.mean(steps) >= dt - epsilon, 'step too small', step=np.mean(steps), requested=dt)
  require(np.mean(steps) < 2. * dt + epsilon, 'step too large', step=np.mean(steps), requested=dt)
  moved = False
  for s, r in zip(samples, result):
    expected, between = _at(times, quaternions, s)
    moved = moved or between
    _compare(r.q, expected, 'orientation at {!r}'.format(s))
  return case['n'] >= 3 and moved


@st.composite
def outside_cases(draw):
  case = draw(recording())
  case.update({'side': draw(gen.pick('before', 'after')), 'distance': draw(gen.pick(1e-3, 0.3, 100., 1e-5)),
               'others': draw(st.integers(0, 3)), 'position': draw(st.integers(0, 3)),
               'poses': draw(st.booleans())})
  return case


def test_outside(case):
  times, quaternions, positions, rng = _recording(case)
  samples = list(np.sort(times[0] + rng.rand(case['others']) * (times[-1] - times[0])))
  outside = (times[0] - case['distance'] if case['side'] == 'before' else
             times[-1] + case['distance'])
  samples.insert(min(case['position'], len(samples)), outside)
  with raises(Exception, 'time outside of the recording'):
    if case['poses']:
      time_alignment.interpolate_poses_from_samples(
          np.column_stack((times, positions, quaternions)), np.array(samples))
    else:
      time_alignment.resample_quaternions_from_samples(
          times, [Quat(q) for q in quaternions], np.array(samples))
  return case['n'] >= 3


SUBS = [
    Sub('samples', sample_cases, test_samples, 2000, 25000),
    Sub('poses', sample_cases, test_poses, 1200, 15000),
    Sub('uniform', uniform_cases, test_uniform, 1200, 15000),
    Sub('outside', outside_cases, test_outside, 400, 4000),
]
