import numpy as np
from hypothesis import strategies as st

from hec import gen, motion, ref
from hec.code import Quat, time_alignment
from hec.harness import Sub, close, note, require

PROPERTY = 'C15'
RULE = ('a case counts as non-trivial if the true offset is larger than five sample periods and '
        'both recordings are related by a fixed rotation other than the identity')
ASSUMPTIONS = ['the recordings share all strong rotation bursts, and begin and end at rest; only weak '
               'rotations are missing from one of them',
               'the window of the moving average is at most 1.3 s long']


@st.composite
def cases(draw):
  return {'seed': draw(gen.seed()), 'bursts': draw(st.integers(4, 8)),
          'lead': draw(st.integers(0, 2)), 'tail': draw(st.integers(0, 2)),
          'whole_A': [draw(st.booleans()), draw(st.booleans())],
          'whole_B': [draw(st.booleans()), draw(st.booleans())],
          'rate_A': draw(gen.pick(20., 30., 50., 80.)), 'rate_B': draw(gen.pick(20., 25., 50., 80.)),
          'jitter': draw(gen.pick(0., 0., 0.3)),
          'start': draw(gen.pick(0., 0., 100., 1.4e9)),
          'offset': draw(st.one_of(gen.fixed(-3., 3.), gen.fixed(-60., 60.), gen.pick(0., 5000.))),
          'after': draw(gen.pose(0., gen.PI)), 'before': draw(gen.pose(0., gen.PI)),
          'signs': draw(st.booleans())}


def _recordings(case, same_instants=False):
  rng = np.random.RandomState(case['seed'])
  m = motion.Motion(rng, case['bursts'], lead=case['lead'], tail=case['tail'])

  def stamps(whole, rate):
    begin = m.begin if whole[0] else 0.
    end = m.end if whole[1] else m.duration
    if same_instants:
      return np.arange(np.ceil(begin * rate), np.floor(end * rate)) / rate
    t = np.arange(begin, end, 1. / rate)
    return t + case['jitter'] / rate * rng.uniform(0., 1., len(t))

  rate_A = case['rate'] if same_instants else case['rate_A']
  rate_B = case['rate'] if same_instants else case['rate_B']
  signs = rng if case['signs'] else None
  A = motion.record(m, stamps(case['whole_A'], rate_A), case['start'], signs=signs)
  B = motion.record(m, stamps(case['whole_B'], rate_B), case['start'] + case['offset'],
                    case['before'], case['after'], signs)
  return A, B, max(1. / rate_A, 1. / rate_B)


def _estimate(A, B, config=None):
  return float(time_alignment.calculate_time_offset(
      A[:, 0], [Quat(q) for q in A[:, 4:8]], B[:, 0], [Quat(q) for q in B[:, 4:8]],
      config or time_alignment.FilteringConfig()))


def test_recovered(case):
  A, B, period = _recordings(case)
  keep = A.copy(), B.copy()
  estimate = _estimate(A, B)
  require(abs(estimate - case['offset']) < 2. * period, 'time offset', actual=estimate,
          expected=case['offset'], period=period)
  swapped = _estimate(B, A)
  require(abs(swapped + case['offset']) < 2. * period, 'time offset of swapped recordings',
          actual=swapped, expected=-case['offset'], period=period)
  close(A, keep[0], 0., what='first recording')
  close(B, keep[1], 0., what='second recording')
  if case['whole_A'] != case['whole_B'] and case['lead'] + case['tail']:
    note('partial overlap')
  if case['rate_A'] != case['rate_B']:
    note('different rates')
  return (abs(case['offset']) > 5. * period and
          ref.angle_of(np.array(case['after'][3:7])) > 0.1)


@st.composite
def exact_cases(draw):
  case = draw(cases())
  # Everything on a binary grid, so that both recordings are sampled at the same instants.
  case['rate'] = draw(gen.pick(64., 64., 64., 16., 256.))
  case['start'] = draw(gen.pick(0., 128., 1.4e9))
  case['offset'] = draw(st.integers(-2000, 2000)) / 64.
  case['shift_A'] = draw(st.integers(-2000, 2000)) / 64.
  case['shift_B'] = draw(st.integers(-2000, 2000)) / 64.
  case['window'] = draw(gen.pick(1, 5, 13, 25))
  return case


def test_exact(case):
  A, B, period = _recordings(case, same_instants=True)
  config = time_alignment.FilteringConfig()
  config.smoothing_kernel_size_A = config.smoothing_kernel_size_B = case['window']
  config.clipping_percentile_A = config.clipping_percentile_B = 100.
  estimate = _estimate(A, B, config)
  close(estimate, case['offset'], 1e-3 * period, what='time offset at the same instants')
  A[:, 0] += case['shift_A']
  B[:, 0] += case['shift_B']
  close(_estimate(A, B, config), case['offset'] + case['shift_B'] - case['shift_A'], 1e-3 * period,
        what='time offset after shifting the stamps')
  return (abs(case['offset']) > 5. * period and
          ref.angle_of(np.array(case['after'][3:7])) > 0.1)


@st.composite
def signal_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(3, 60, 500)), 'before_A': draw(st.integers(0, 30)),
          'after_A': draw(st.integers(0, 30)), 'before_B': draw(st.integers(0, 30)),
          'after_B': draw(st.integers(0, 30)), 'dt': draw(gen.pick(0.0078125, 0.03125, 0.5, 2.)),
          'start_A': draw(gen.pick(0., 10., 1.4e9)), 'start_B': draw(gen.pick(0., -10., 1.4e9 + 4.))}


def test_signals(case):
  """The same pulse train inside two zero-padded signals of different lengths."""
  rng = np.random.RandomState(case['seed'])
  pulse = rng.uniform(0.2, 1., case['n'])
  A = np.concatenate((np.zeros(case['before_A']), pulse, np.zeros(case['after_A'])))
  B = np.concatenate((np.zeros(case['before_B']), pulse, np.zeros(case['after_B'])))
  times_A = case['start_A'] + case['dt'] * np.arange(len(A))
  times_B = case['start_B'] + case['dt'] * np.arange(len(B))
  expected = times_B[case['before_B']] - times_A[case['before_A']]
  for a, b in ((A, B), (A.tolist(), B.tolist())):
    estimate = time_alignment.calculate_time_offset_from_signals(times_A, a, times_B, b)
    close(estimate, expected, 1e-6 * case['dt'] + 1e-6, what='time offset of the signals')
  return len(A) != len(B) and case['before_A'] != case['before_B']


SUBS = [
    Sub('recovered', cases, test_recovered, 240, 4000),
    Sub('exact', exact_cases, test_exact, 160, 2500),
    Sub('signals', signal_cases, test_signals, 1500, 20000),
]
