import numpy as np
from hypothesis import strategies as st

from hec import gen, motion, ref
from hec.code import Quat, quaternion, time_alignment
from hec.harness import Sub, close, note, require

PROPERTY = 'C17'
RULE = ('a case counts as non-trivial if some component is clipped and the window is longer than one '
        'sample (filter), or the filtered norms vary by more than 1 percent (norms)')
ASSUMPTIONS = ['the clipping percentile of the signal is positive',
               'for an even window either of the two central positions is accepted']


@st.composite
def filter_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(st.one_of(st.integers(1, 12), st.integers(20, 80), gen.count(20, 80, 400))),
          'scale': draw(gen.pick(1e-3, 1., 100.)), 'spikes': draw(st.integers(0, 4)),
          'offset': draw(gen.pick(0., 0., 0.5, -0.2)),
          'window': draw(gen.pick(1, 2, 3, 4, 5, 11, 24, 25, 51, 100)),
          'percentile': draw(gen.pick(100., 99.9, 99.5, 99., 95., 90., 75.))}


def _average(x, window, before):
  """Zero padded average over `window` entries, `before` of them left of the entry."""
  padded = np.vstack((np.zeros((window, x.shape[1])), x, np.zeros((window, x.shape[1]))))
  out = np.zeros_like(x)
  for i in range(len(x)):
    first = window + i - before
    out[i] = np.sum(padded[first:first + window], axis=0) / window
  return out


def test_filter(case):
  rng = np.random.RandomState(case['seed'])
  x = case['scale'] * (rng.normal(size=(case['n'], 3)) + case['offset'])
  for _ in range(case['spikes']):
    x[rng.randint(case['n']), rng.randint(3)] *= rng.choice([-20., 20.])
  limit = np.percentile(x, case['percentile'])
  if limit <= 0.:
    return False
  keep = x.copy()
  result = np.asarray(time_alignment.filter_and_smooth_angular_velocity(
      x, case['window'], case['percentile']))
  close(x, keep, 0., what='input signal')
  require(result.shape == x.shape, 'shape', shape=result.shape)
  clipped = np.minimum(np.maximum(x, -limit), limit)
  k = case['window']
  centred = [_average(clipped, k, k // 2)]
  if k % 2 == 0:
    centred.append(_average(clipped, k, k // 2 - 1))
  tol = 1e-9 * case['scale'] * 100.
  deviations = [np.max(np.abs(result - c)) for c in centred]
  require(min(deviations) < tol, 'filtered signal', deviations=deviations, actual=result.tolist(),
          expected=centred[0].tolist())
  if np.any(x < -limit):
    note('clipped below')
  if case['n'] < k:
    note('window longer than the signal')
  return k > 1 and bool(np.any(clipped != x))


@st.composite
def norm_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(3, 40, 200)),
          'step': draw(gen.pick(0.01, 0.05, 1.)), 'jitter': draw(gen.pick(0., 0.5)),
          'turn': draw(gen.pick(0.05, 0.5, 2.5)), 'window': draw(gen.pick(1, 3, 5, 25, 51)),
          'percentile': draw(gen.pick(100., 100., 99., 90.)),
          'before': draw(gen.unit_quat()), 'after': draw(gen.unit_quat()),
          'start': draw(gen.pick(0., 50., 1.4e9))}


def test_norms(case):
  rng = np.random.RandomState(case['seed'])
  n = case['n']
  steps = case['step'] * (1. + case['jitter'] * rng.uniform(-1., 1., n - 1))
  stamps = case['start'] + np.concatenate(([0.], np.cumsum(steps)))
  q = ref.qunit(rng.normal(size=4))
  orientations = [q]
  for _ in range(n - 1):
    q = ref.qunit(ref.qmul(q, ref.q_from_angle_axis(
        rng.uniform(0.1, 1.) * case['turn'], gen.random_unit(rng))))
    orientations.append(q)
  norms = np.array(time_alignment.compute_angular_velocity_norms(
      [Quat(q) for q in orientations], stamps, case['window'], case['percentile']), dtype=float)
  require(norms.shape == (n - 1,), 'length', actual=norms.shape, expected=n - 1)
  # Factor and sign of a rate are fixed by one reference motion.
  factor = quaternion.angular_velocity_between_quaternions(
      Quat([0., 0., 0., 1.]), Quat(ref.q_from_angle_axis(1., [1., 0., 0.])), 1.)[0]
  rates = []
  for i in range(n - 1):
    d = ref.qmul(orientations[i + 1], ref.qconj(orientations[i]))
    d = -d if d[3] < 0. else d
    rates.append(factor * ref.angle_of(d) / (stamps[i + 1] - stamps[i]) *
                 d[0:3] / np.linalg.norm(d[0:3]))
  rates = np.array(rates)
  size = np.max(np.abs(rates))
  changed = [ref.qmul(ref.qmul(case['before'], q), case['after']) * rng.choice([-1., 1.])
             for q in orientations]
  rotated = rates.dot(ref.rot(case['before']).T)
  free = np.linalg.norm(_average(rates, case['window'], case['window'] // 2), axis=1)
  for name, quaternions, r in (('', orientations, rates), ('in another frame', changed, rotated)):
    limit = np.percentile(r, case['percentile'])
    if limit <= 1e-6 * size:
      continue
    actual = np.array(time_alignment.compute_angular_velocity_norms(
        [Quat(q) for q in quaternions], stamps, case['window'], case['percentile']), dtype=float)
    averaged = np.linalg.norm(
        _average(np.clip(r, -limit, limit), case['window'], case['window'] // 2), axis=1)
    close(actual, averaged, 1e-5 * size, what='rate norms ' + name)
    if limit >= (1. - 1e-9) * np.max(np.abs(r)):
      note('nothing clipped ' + name)
      close(actual, free, 1e-5 * size, what='rate norms without clipping ' + name)
  return np.max(norms) > 1.01 * np.min(norms)


@st.composite
def sign_cases(draw):
  case = draw(norm_cases())
  case['percentile'] = draw(gen.pick(100., 99., 90.))
  return case


def test_signs(case):
  """Quaternion signs and a common time shift never matter."""
  rng = np.random.RandomState(case['seed'])
  m = motion.Motion(rng, 3)
  stamps = np.linspace(0., m.duration, case['n'])
  P = m.poses(stamps)[:, 3:7]
  flipped = P * rng.choice([-1., 1.], size=(len(P), 1))
  first = np.array(time_alignment.compute_angular_velocity_norms(
      [Quat(q) for q in P], stamps, case['window'], case['percentile']))
  second = np.array(time_alignment.compute_angular_velocity_norms(
      [Quat(q) for q in flipped], stamps + 64., case['window'], case['percentile']))
  close(second, first, 1e-5 * (1. + np.max(first)), what='rate norms with other signs')
  return np.max(first) > 1.01 * np.min(first)


SUBS = [
    Sub('filter', filter_cases, test_filter, 4000, 50000),
    Sub('norms', norm_cases, test_norms, 1500, 20000),
    Sub('signs', sign_cases, test_signs, 500, 6000),
]
