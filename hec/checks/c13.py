import math

import numpy as np
from hypothesis import strategies as st

from hec import gen, ref, search
from hec.code import DQ
from hec.harness import Sub, close, note, require

PROPERTY = 'C13'
RULE = ('a case counts as non-trivial if the search reported success on noisy data with outliers '
        '(honest), or was given data without a consistent majority (failure)')
ASSUMPTIONS = ['all poses are within 85 degrees of the first pose']


def _short(case):
  case = dict(case)
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  case['X'] = X
  return case


@st.composite
def cases(draw):
  n = draw(st.integers(12, 18))
  return {'seed': draw(gen.seed()), 'n': n, 'X': draw(gen.pose(0., gen.PI - 0.02)),
          'outliers': draw(st.integers(0, 4)), 'noise': draw(gen.pick(0., 1e-3, 3e-3)),
          'config': draw(search.config()), 'state': draw(st.integers(0, 10 ** 6)),
          # Required inliers relative to the number of consistent poses, or as configured.
          'margin': draw(gen.pick(None, None, None, -1, 0, 1, 2)),
          'signs': draw(st.booleans()), 'first_may_be_outlier': draw(st.booleans())}


def _streams(data, case):
  """Dual quaternions of the data, with random signs except for the first ones."""
  rng = np.random.RandomState(case['seed'] % 1000)
  hand, eye = [DQ(p) for p in data.hand], [DQ(p) for p in data.eye]
  if case['signs'] and not case['config']['prefilter'] and case['config']['algorithm'] != 'EC':
    for d in hand[1:] + eye[1:]:
      d.dq = d.dq * rng.choice([-1., 1.])
  return hand, eye


def _comparable(result):
  success, dq, rmse, inliers, n_filtered, runtime, singular, bad = result
  return [success, None if dq is None else dq.dq.tolist(), tuple(rmse), inliers, n_filtered,
          None if singular is None else list(singular), bad]


def test_honest(case):
  case = _short(case)
  if case['margin'] is not None:
    case['config'] = dict(case['config'], min_inliers=case['n'] - case['outliers'] + case['margin'])
    if case['margin'] > 0:
      case['config']['iterations'] = 1
  data = search.build(case)
  config = search.make_config(case['config'], data)
  kept, ambiguous = search.filtered(data, config)
  name = case['config']['algorithm']
  streams = _streams(data, case)
  try:
    result = search.run(data, config, case['state'], streams)
  except Exception as e:
    # Not enough distinct or consistent poses; nothing may be returned then.
    note('error: {} {}'.format(name, type(e).__name__))
    in_kept = len([i for i in kept if i in data.inliers])
    enough = (in_kept > config.min_num_inliers if config.use_baseline_approach else
              len(kept) >= max(2, config.ransac_sample_size))
    if enough and not ambiguous and not (config.use_baseline_approach and case['noise']):
      raise
    return False
  _check_inputs(streams, data)
  try:
    again = search.run(data, config, case['state'], _streams(data, case))
  except Exception as e:
    require(False, 'second run raised', error=repr(e))
  require(_comparable(result) == _comparable(again), 'second run differs', first=_comparable(result),
          second=_comparable(again))
  success, dq, rmse, num_inliers, n_filtered, runtime, singular, bad = result
  require(runtime >= 0., 'runtime')
  if not ambiguous:
    require(n_filtered == len(kept), 'number of poses after filtering', actual=n_filtered,
            expected=len(kept))
  if not success:
    require(dq is None, 'failure with a transformation')
    note('failure: ' + name)
    return False
  note('success: ' + name)
  require(num_inliers >= config.min_num_inliers, 'fewer inliers than required', actual=num_inliers)
  close(np.linalg.norm(dq.dq[0:4]), 1., 1e-8, what='norm')
  if ambiguous:
    return False
  X = ref.pose_from_dq(dq.dq)
  reasons = []
  for index in kept:
    reason = _explained(data, config, kept, index, X, rmse, num_inliers, singular, bad)
    if reason is None:
      return case['noise'] > 0. and case['outliers'] > 0
    reasons.append(reason)
  require(False, 'the reported values follow from no start pose', algorithm=name, rmse=rmse,
          inliers=num_inliers, reasons=reasons)


def _check_inputs(streams, data):
  for stream, poses in zip(streams, (data.hand, data.eye)):
    require(len(stream) == len(poses), 'number of input poses')
    for d, p in zip(stream, poses):
      close(ref.mat_from_dq(d.dq), ref.mat(p), 1e-8, what='input pose')


def _explained(data, config, kept, index, X, rmse, num_inliers, singular, bad):
  """None if this start pose explains the reported values, else the reason why not."""
  hand, eye = search.anchored(data, index)
  if config.use_baseline_approach:
    where = [(k - index) % len(data.hand) for k in kept]
    order = where[where.index(0):] + where[:where.index(0)]
    used, unclear = search.scalar_inliers([hand[i] for i in order], [eye[i] for i in order], 1e-2)
    used = [order[i] for i in used]
  elif config.ransac_inlier_classification == 'scalar_part_equality':
    used, unclear = search.scalar_inliers(
        hand, eye, config.ransac_sample_rejection_scalar_part_equality_tolerance)
  else:
    # The inliers follow from the model of the sample, which is the result only
    # without refinement.
    used, unclear = None, False
    errors = search.mapped_errors(hand, eye, X)
    limits = (config.ransac_position_error_threshold_m, config.ransac_orientation_error_threshold_deg)
    if not config.ransac_model_refinement:
      margin = min(np.min(np.abs(errors[:, 0] - limits[0])), np.min(np.abs(errors[:, 1] - limits[1])))
      unclear = margin < 5e-3 * 1e-2
      used = [i for i in range(len(hand)) if errors[i, 0] < limits[0] and errors[i, 1] < limits[1]]
  if used is not None and not unclear and len(used) != num_inliers:
    return '{} inliers'.format(len(used))
  errors = search.mapped_errors(hand, eye, X)
  if config.ransac_evaluate_refined_model_on_inliers_only:
    if used is None or unclear:
      return None
    errors = errors[used]
  expected = search.rmse(errors)
  if abs(expected[0] - rmse[0]) > 1e-6 or abs(expected[1] - rmse[1]) > 3e-3:
    return 'rmse {}'.format(expected.tolist())
  refined = config.ransac_model_refinement or config.ransac_inlier_classification != 'rmse_threshold'
  if used is not None and not unclear and (refined or config.use_baseline_approach):
    expected = np.linalg.svd(ref.t_matrix([hand[i] for i in used], [eye[i] for i in used]),
                             compute_uv=False)
    if len(singular) != 8 or np.max(np.abs(np.sort(singular)[::-1] - expected)) > 1e-4:
      return 'singular values {}'.format(expected.tolist())
  well = singular[5] > 0.5 and singular[6] < 0.5
  clear = abs(singular[5] - 0.5) > 1e-3 and abs(singular[6] - 0.5) > 1e-3
  if clear and bool(bad) == bool(well):
    return 'singular value status'
  return None


@st.composite
def sampled_cases(draw):
  case = draw(cases())
  case['config'] = dict(draw(search.config(('RC', 'RC', 'EC'))), prefilter=True, few=True)
  case['noise'] = draw(gen.pick(5e-4, 1e-3, 2e-3, 3e-3))
  case['signs'] = False
  return case


def test_sampled(case):
  """Errors, inliers and transformation belong to one of the possible samples."""
  case = _short(case)
  data = search.build(case)
  config = search.make_config(case['config'], data)
  kept, ambiguous = search.filtered(data, config)
  if ambiguous or len(kept) < config.ransac_sample_size:
    return False
  success, dq, rmse, num_inliers = search.run(data, config, case['state'])[0:4]
  models = list(search.sampled_models(data, config, kept, not config.enable_exhaustive_search))
  known = [m for m in models if m[0] is not None]
  if len(known) < len(models):
    note('samples too close to call')
    return False
  if not success:
    require(not known or not config.enable_exhaustive_search, 'search failed', models=len(known))
    return False
  X = ref.mat_from_dq(dq.dq)
  for errors, inliers, pose in known:
    difference = ref.transform_error(X, ref.mat(pose))
    if (inliers == num_inliers and abs(errors[0] - rmse[0]) < 1e-6 and abs(errors[1] - rmse[1]) < 5e-3
        and difference[0] < 1e-4 and difference[1] < 0.01):
      return len(known) > 1
  require(False, 'the reported values follow from no sample', rmse=rmse, inliers=num_inliers,
          models=len(known))


@st.composite
def failure_cases(draw):
  n = draw(st.integers(8, 14))
  case = {'seed': draw(gen.seed()), 'n': n, 'X': draw(gen.pose(0., gen.PI - 0.02)), 'outliers': 0,
          'config': draw(search.config()), 'state': draw(st.integers(0, 10 ** 6)),
          'kind': draw(gen.pick('unrelated', 'still', 'few', 'one axis')), 'signs': False}
  case['config']['iterations'] = draw(gen.pick(1, 3))
  return case


def test_failure(case):
  case = _short(case)
  data = search.build(case)
  rng = np.random.RandomState(case['seed'] + 1)
  n = case['n']
  if case['kind'] == 'unrelated':
    data.eye = [search.IDENTITY] + [search.small_rotation_pose(rng, 80., 3.) for _ in range(n - 1)]
  elif case['kind'] == 'still':
    data.hand = [search.IDENTITY] * n
    data.eye = [search.IDENTITY] * n
  elif case['kind'] == 'one axis':
    axis = gen.random_unit(rng)
    data.hand = [np.append(rng.uniform(-1., 1., 3), ref.q_from_angle_axis(rng.uniform(0., 1.4), axis))
                 for _ in range(n)]
    data.hand[0] = search.IDENTITY
    data.eye = [ref.pose_positive(p) for p in search.paths.eye_path(data.hand, data.X)]
  else:
    # Consistent, but fewer poses than required inliers.
    case['config'] = dict(case['config'], min_inliers=n + 1)
  config = search.make_config(case['config'], data)
  note('{}: {}'.format(case['kind'], case['config']['algorithm']))
  try:
    result = search.run(data, config, case['state'])
  except Exception:
    note('error raised')
    return True
  success, dq, rmse, num_inliers, n_filtered, runtime, singular, bad = result
  if success:
    require(case['kind'] not in ('few', 'still'), 'success on unusable data', kind=case['kind'])
    require(num_inliers >= config.min_num_inliers, 'fewer inliers than required', actual=num_inliers)
    if case['kind'] == 'one axis':
      require(bad, 'degenerate motion reported as well-conditioned', singular=list(singular))
    note('model found')
    return False
  require(dq is None, 'failure with a transformation')
  require(not num_inliers, 'failure with inliers', inliers=num_inliers)
  return True


@st.composite
def abort_cases(draw):
  case = draw(cases())
  case.update({'config': draw(search.config(('RS', 'RS', 'RC'))), 'margin': None, 'signs': False,
               'noise': draw(gen.pick(1e-3, 2e-3, 3e-3)), 'outlier_probability': draw(gen.fixed(0.05, 0.6, 2)),
               'success_probability': draw(gen.pick(0.5, 0.9, 0.99, 0.999))})
  case['config']['iterations'] = 20
  return case


def test_abort(case):
  """An early end after the required number of iterations equals a search of that many."""
  case = _short(case)
  data = search.build(case)
  config = search.make_config(case['config'], data)
  config.ransac_enable_early_abort = True
  config.ransac_outlier_probability = case['outlier_probability']
  config.ransac_success_probability_threshold = case['success_probability']
  good_sample = (1. - case['outlier_probability']) ** config.ransac_sample_size
  required = math.log(1. - case['success_probability']) / math.log(1. - good_sample)
  if abs(required - round(required)) < 1e-9:
    return False
  results = []
  for early, iterations in ((True, 20), (False, min(20, int(required) + 1))):
    config.ransac_enable_early_abort = early
    config.ransac_max_number_iterations = iterations
    try:
      results.append(_comparable(search.run(data, config, case['state'])))
    except AssertionError:
      results.append('refused')
  require(results[0] == results[1], 'result with early end', required=required, early=results[0],
          expected=results[1])
  note('ends early' if required < 19. else 'ends at the limit')
  return results[0] != 'refused' and bool(results[0][0]) and required < 19.


SUBS = [
    Sub('abort', abort_cases, test_abort, 320, 4000),
    Sub('honest', cases, test_honest, 400, 5000),
    Sub('sampled', sampled_cases, test_sampled, 240, 3000),
    Sub('failure', failure_cases, test_failure, 400, 4000, timeout=60),
]
