import numpy as np
from hypothesis import strategies as st

from hec import gen, ref, search
from hec.code import calibration
from hec.harness import Sub, close, note, require

PROPERTY = 'C12'
RULE = ('a case counts as non-trivial if there are outliers and the search reported success')
ASSUMPTIONS = ['all poses are within 85 degrees of the first pose, so that no relative rotation '
               'is close to half a turn',
               'outliers disagree with every consistent pose in the scalar part of the relative '
               'motion by at least 0.04']


@st.composite
def cases(draw):
  n = draw(gen.count(13, 20, 40))
  config = draw(search.config())
  outliers = draw(st.integers(0, min(n * 3 // 10, config['min_inliers'] - 1)))
  return {'seed': draw(gen.seed()), 'n': n, 'X': draw(gen.pose(0., gen.PI - 0.02)),
          'outliers': outliers, 'first_may_be_outlier': draw(st.booleans()), 'config': config,
          'state': draw(st.integers(0, 10 ** 6))}


def expected_to_succeed(data, config, kept):
  inliers = [i for i in kept if i in data.inliers]
  if config.use_baseline_approach:
    return len(inliers) > config.min_num_inliers
  if len(kept) < 2 or len(data.inliers) < config.min_num_inliers + 1:
    return False
  if config.ransac_sample_size == 1:
    return len(inliers) >= 1
  return len(inliers) >= max(5, config.ransac_sample_size)


def test_outliers(case):
  # A shorter translation keeps the scalar parts informative.
  case = dict(case)
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  case['X'] = X
  data = search.build(case)
  config = search.make_config(case['config'], data)
  kept, ambiguous = search.filtered(data, config)
  name = case['config']['algorithm'] + (' prefilter' if config.prefilter_poses_enabled else '')
  if ambiguous:
    return False
  must_succeed = expected_to_succeed(data, config, kept)
  try:
    result = search.run(data, config, case['state'])
  except Exception as e:
    if must_succeed:
      raise
    note('refused: ' + name)
    return False
  success, dq, rmse, num_inliers, n_filtered, runtime, singular, bad = result
  if not success:
    require(not must_succeed, 'search failed', algorithm=name)
    note('failed: ' + name)
    return False
  note('succeeded: ' + name)
  position, degrees = ref.transform_error(ref.mat_from_dq(dq.dq), ref.mat(data.X))
  require(position < 1e-3 and degrees < 0.05, 'wrong transformation', algorithm=name,
          position=position, degrees=degrees, expected=data.X.tolist(), actual=ref.pose_from_dq(dq.dq).tolist())
  close(np.linalg.norm(dq.dq[0:4]), 1., 1e-8, what='norm')
  if config.use_baseline_approach:
    expected = len([i for i in kept if i in data.inliers])
  else:
    expected = len(data.inliers)
  require(num_inliers == expected, 'number of inliers', algorithm=name, actual=num_inliers,
          expected=expected, outliers=data.outliers)
  return case['outliers'] > 0


@st.composite
def noisy_cases(draw):
  case = draw(cases())
  case['noise'] = draw(gen.pick(1e-4, 3e-4, 1e-3))
  case['config']['refine'] = True
  return case


def test_noise(case):
  """With small noise the result stays close and outliers stay out."""
  case = dict(case)
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  case['X'] = X
  data = search.build(case)
  config = search.make_config(case['config'], data)
  kept, ambiguous = search.filtered(data, config)
  name = case['config']['algorithm'] + (' prefilter' if config.prefilter_poses_enabled else '')
  try:
    result = search.run(data, config, case['state'])
  except Exception:
    if case['config']['algorithm'] == 'ES' and expected_to_succeed(data, config, kept) and not ambiguous:
      raise
    return False
  success, dq, rmse, num_inliers = result[0:4]
  if not success:
    require(case['config']['algorithm'] != 'ES' or ambiguous or
            not expected_to_succeed(data, config, kept), 'search failed', algorithm=name)
    return False
  note('succeeded: ' + name)
  position, degrees = ref.transform_error(ref.mat_from_dq(dq.dq), ref.mat(data.X))
  require(position < 0.05 and degrees < 3., 'wrong transformation', algorithm=name, position=position,
          degrees=degrees)
  require(num_inliers <= len(data.inliers), 'outliers counted as inliers', algorithm=name,
          actual=num_inliers, outliers=data.outliers)
  return case['outliers'] > 0


@st.composite
def best_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(st.integers(12, 18)), 'X': draw(gen.pose(0., gen.PI - 0.02)),
          'outliers': draw(st.integers(0, 3)), 'noise': draw(gen.pick(1e-3, 2e-3, 3e-3)),
          'config': draw(search.config(('ES',))), 'state': draw(st.integers(0, 10 ** 6))}


def test_best(case):
  """No other admissible start pose gives lower errors in position and orientation."""
  case = dict(case)
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  case['X'] = X
  data = search.build(case)
  config = search.make_config(case['config'], data)
  kept, ambiguous = search.filtered(data, config)
  if ambiguous or len(kept) < 2:
    return False
  success, dq, rmse = search.run(data, config, case['state'])[0:3]
  candidates = []
  for index in kept:
    hand, eye = search.anchored(data, index)
    inliers, unclear = search.scalar_inliers(
        hand, eye, config.ransac_sample_rejection_scalar_part_equality_tolerance)
    if unclear:
      note('unclear inliers')
      return False
    if len(inliers) < config.min_num_inliers:
      continue
    solution = search.solve([hand[i] for i in inliers], [eye[i] for i in inliers])
    if solution is None:
      note('unclear candidate')
      return False
    chosen = inliers if case['config']['on_inliers'] else range(len(hand))
    errors = search.mapped_errors(hand, eye, solution[0])[list(chosen)]
    candidates.append(search.rmse(errors))
  require(success == bool(candidates), 'success', success=success, candidates=len(candidates))
  if not success:
    return False
  for c in candidates:
    require(not (c[0] < rmse[0] - 1e-6 and c[1] < rmse[1] - 1e-4), 'a better model exists',
            reported=rmse, better=c.tolist())
  require(any(abs(c[0] - rmse[0]) < 1e-6 and abs(c[1] - rmse[1]) < 5e-3 for c in candidates),
          'reported errors belong to no candidate', reported=rmse)
  return len(candidates) > 1


@st.composite
def sampled_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(st.integers(12, 18)), 'X': draw(gen.pose(0., gen.PI - 0.02)),
          'outliers': draw(st.integers(0, 3)), 'noise': draw(gen.pick(5e-4, 1e-3, 2e-3, 3e-3)),
          'config': draw(search.config(('EC',))), 'state': draw(st.integers(0, 10 ** 6))}


def test_sampled(case):
  """No other admissible sample gives lower errors in position and orientation."""
  case = dict(case)
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  case['X'] = X
  data = search.build(case)
  config = search.make_config(case['config'], data)
  kept, ambiguous = search.filtered(data, config)
  if ambiguous or len(kept) < config.ransac_sample_size:
    return False
  success, dq, rmse, num_inliers = search.run(data, config, case['state'])[0:4]
  models = list(search.sampled_models(data, config, kept))
  known = [m for m in models if m[0] is not None]
  if not success:
    require(not known, 'search failed', models=len(known))
    return False
  for errors, _, _ in known:
    require(not (errors[0] < rmse[0] - 1e-6 and errors[1] < rmse[1] - 1e-4), 'a better model exists',
            reported=rmse, better=errors.tolist())
  if len(known) < len(models):
    note('samples too close to call')
    return False
  require(any(abs(m[0][0] - rmse[0]) < 1e-6 and abs(m[0][1] - rmse[1]) < 5e-3 and
              m[1] == num_inliers for m in known), 'reported values belong to no sample',
          reported=rmse, inliers=num_inliers)
  return len(known) > 1


@st.composite
def default_cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(st.integers(16, 40)),
          'X': draw(gen.pose(0., gen.PI - 0.02)), 'outliers': draw(st.integers(0, 4)),
          'baseline': draw(st.booleans()), 'state': draw(st.integers(0, 10 ** 6))}


def test_defaults(case):
  """The configuration as it comes."""
  case = dict(case)
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  case['X'] = X
  data = search.build(case)
  config = calibration.HandEyeConfig()
  config.use_baseline_approach = case['baseline']
  try:
    success, dq, rmse, num_inliers = search.run(data, config, case['state'])[0:4]
  except (AssertionError, ValueError):
    note('refused')
    return False
  if not success:
    note('failed')
    return False
  note('succeeded: ' + ('baseline' if case['baseline'] else 'random sampling'))
  position, degrees = ref.transform_error(ref.mat_from_dq(dq.dq), ref.mat(data.X))
  require(position < 1e-3 and degrees < 0.05, 'wrong transformation', position=position,
          degrees=degrees, outliers=data.outliers)
  require(num_inliers <= len(data.inliers), 'outliers counted as inliers', actual=num_inliers,
          outliers=data.outliers)
  return case['outliers'] > 0


SUBS = [
    Sub('defaults', default_cases, test_defaults, 80, 1000),
    Sub('outliers', cases, test_outliers, 400, 5000),
    Sub('noise', noisy_cases, test_noise, 160, 2000),
    Sub('best', best_cases, test_best, 160, 2000),
    Sub('sampled', sampled_cases, test_sampled, 160, 2000),
]
