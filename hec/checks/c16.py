import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import time_alignment
from hec.harness import Sub, close, note, require

PROPERTY = 'C16'
RULE = ('a case counts as non-trivial if at least two common times are returned of which one needs '
        'interpolation and at least one time of the slower recording is not returned')
ASSUMPTIONS = ['consecutive poses of a recording are less than 2.9 rad apart',
               'gaps within a microsecond of the limit of 0.1 s are not judged']

LIMIT = 0.1


@st.composite
def cases(draw):
  step = st.sampled_from([0.01, 0.02, 0.04, 0.05, 0.08, 0.12, 0.25])
  size = st.one_of(gen.count(2, 30, 200), gen.count(12, 40, 200))
  return {'seed': draw(gen.seed()), 'n_A': draw(size), 'n_B': draw(size),
          'step_A': draw(step), 'step_B': draw(step),
          'jitter_A': draw(gen.pick(0., 0., 0.2, 0.8)), 'jitter_B': draw(gen.pick(0., 0., 0.2, 0.8)),
          'gaps_A': draw(gen.pick(0., 0., 0.2)), 'gaps_B': draw(gen.pick(0., 0., 0.2)),
          'gap': draw(gen.pick(0.09, 0.11, 0.15, 0.5, 5.)),
          'start': draw(gen.pick(0., 0., 10., 1466012345.25)),
          'lag': draw(gen.pick(0., 0., 0., 0.01, 0.01, 0.025, 0.06, -0.3, 0.3, 1., -50.)),
          'offset': draw(gen.pick(0., 0.5, -0.5, 0.0123, -3.75, 1000.)),
          'turn': draw(gen.pick(0.1, 1., 2.9)), 'signs': draw(st.booleans())}


def _stream(rng, n, step, jitter, gaps, gap, turn, signs):
  steps = step * (1. + jitter * rng.uniform(-1., 1., n - 1) * 0.9)
  steps = np.where(rng.rand(n - 1) < gaps, steps + gap, steps)
  times = np.concatenate(([0.], np.cumsum(steps)))
  q = ref.qunit(rng.normal(size=4))
  rows = []
  for t in times:
    s = rng.choice([-1., 1.]) if signs else 1.
    rows.append(np.concatenate(([t], rng.uniform(-3., 3., 3), s * q)))
    q = ref.qunit(ref.qmul(q, ref.q_from_angle_axis(rng.uniform(0., 1.) * turn, gen.random_unit(rng))))
  return np.array(rows)


def _expected_pose(rows, t):
  i = max(1, min(int(np.searchsorted(rows[:, 0], t)), len(rows) - 1))
  a, b = rows[i - 1], rows[i]
  f = (t - a[0]) / (b[0] - a[0])
  return (1. - f) * a[1:4] + f * b[1:4], ref.slerp(a[4:8], b[4:8], f)


def _eligible(low, high):
  """Times of the slower recording as (stamp, required, allowed)."""
  out = []
  for t in low:
    if t < high[0] or t > high[-1]:
      out.append((t, False, False))
      continue
    i = int(np.searchsorted(high, t))
    if high[i] == t:
      out.append((t, t <= high[-2], True))
      continue
    left, right = t - high[i - 1], high[i] - t
    near = max(left, right)
    out.append((t, near < LIMIT - 1e-6 and t <= high[-2], near < LIMIT + 1e-6))
  return out


def _matches(stamps, low, high):
  expected = _eligible(low, high)
  allowed = [t for t, _, a in expected if a]
  needed = [t for t, r, _ in expected if r]
  return (all(t in allowed for t in stamps) and all(t in stamps for t in needed)), needed, allowed


def test_aligned(case):
  rng = np.random.RandomState(case['seed'])
  A = _stream(rng, case['n_A'], case['step_A'], case['jitter_A'], case['gaps_A'], case['gap'],
              case['turn'], case['signs'])
  B = _stream(rng, case['n_B'], case['step_B'], case['jitter_B'], case['gaps_B'], case['gap'],
              case['turn'], case['signs'])
  A[:, 0] += case['start'] - case['offset']
  B[:, 0] += case['start'] + case['lag']
  keep = A.copy(), B.copy()
  result_A, result_B = time_alignment.compute_aligned_poses(A, B, case['offset'])
  result_A, result_B = np.asarray(result_A), np.asarray(result_B)
  close(A, keep[0], 0., what='first recording')
  close(B, keep[1], 0., what='second recording')
  require(result_A.shape == result_B.shape and result_A.ndim == 2 and result_A.shape[1] == 8,
          'shapes', A=result_A.shape, B=result_B.shape)
  shifted = A.copy()
  shifted[:, 0] = A[:, 0] + case['offset']
  stamps = result_A[:, 0]
  close(result_B[:, 0], stamps, 0., what='stamps')
  require(np.all(np.diff(stamps) > 0.), 'stamps do not increase', stamps=stamps.tolist())
  a, b = shifted[:, 0], B[:, 0]
  dt_A, dt_B = np.median(np.diff(a)), np.median(np.diff(b))
  choices = []
  if dt_A > dt_B - 1e-6:
    choices.append((a, b))
  if dt_B > dt_A - 1e-6:
    choices.append((b, a))
  results = [_matches(stamps.tolist(), low.tolist(), high) for low, high in choices]
  require(any(r[0] for r in results), 'common times', actual=stamps.tolist(), required=results[0][1],
          allowed=results[0][2])
  for rows, result in ((shifted, result_A), (B, result_B)):
    for r in result:
      position, q = _expected_pose(rows, r[0])
      close(r[1:4], position, 1e-9, what='position')
      close(np.linalg.norm(r[4:8]), 1., 1e-7, what='norm')
      require(ref.same_rotation(r[4:8], q) < 1e-5, 'orientation', stamp=r[0], actual=r[4:8].tolist(),
              expected=q.tolist())
  if len(stamps) == 0:
    note('no common times')
  low, high = choices[0]
  between = [t for t in stamps if t not in high]
  return len(stamps) >= 2 and len(between) > 0 and len(stamps) < len(low)


SUBS = [
    Sub('aligned', cases, test_aligned, 4000, 60000),
]
