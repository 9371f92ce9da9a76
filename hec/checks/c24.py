import numpy as np
from hypothesis import strategies as st

from hec import gen, ref, search
from hec.code import algorithm_config, all_configs
from hec.harness import Sub, note, require

PROPERTY = 'C24'
RULE = ('a history counts as non-trivial if a preset is fetched again after another one was '
        'changed; a search counts if it succeeded')
ASSUMPTIONS = ['searches run on 12 to 13 consistent poses within 85 degrees of the first']

# name: prefilter, exhaustive, baseline, sample size, inlier rule (None: not used).
FAMILIES = {
    'RC': (False, False, 3, 'rmse_threshold'),
    'RS': (False, False, 1, 'scalar_part_equality'),
    'EC': (True, False, 3, 'rmse_threshold'),
    'ES': (True, False, 1, 'scalar_part_equality'),
    'baseline': (False, True, None, None),
}
WITH_FILTER = ('RC', 'RS', 'baseline')


def fetch(kind, flag, optimise):
  """The preset as (name, time alignment, hand-eye, optimisation)."""
  a, x = algorithm_config, all_configs
  plain = {'RC': lambda: a.get_RANSAC_classic_config(flag),
           'RS': lambda: a.get_RANSAC_scalar_part_inliers_config(flag),
           'EC': lambda: a.get_exhaustive_search_pose_inliers_config(),
           'ES': lambda: a.get_exhaustive_search_scalar_part_inliers_config(),
           'baseline': lambda: a.get_baseline_config(flag),
           'basic': lambda: a.get_basic_config()}
  if kind in plain and (optimise is None or kind == 'basic'):
    time, hand_eye = plain[kind]()
    return hand_eye.algorithm_name, time, hand_eye, None
  if kind == 'spoiled':
    return x.get_optimization_with_spoiled_initial_calibration_config()
  if kind in ('EC', 'ES'):
    return (x.get_EC_and_optimization_config if kind == 'EC' else
            x.get_ES_and_optimization_config)(optimise)
  return {'RC': x.get_RC_and_optimization_config, 'RS': x.get_RS_and_optimization_config,
          'baseline': x.get_baseline_and_optimization_config}[kind](flag, optimise)


def expected_name(kind, flag, optimise):
  if kind == 'basic':
    return ''
  if kind == 'spoiled':
    return 'optimization_w_spoiled_init_calibration'
  name = kind
  if kind in WITH_FILTER:
    name += '_filter' if flag else '_no_filter'
  if optimise is not None:
    name += '_opt' if optimise else '_no_opt'
  return name


def settings(config):
  if config is None:
    return None
  return {k: getattr(config, k) for k in dir(config)
          if not k.startswith('_') and not callable(getattr(config, k))}


def consistent(preset, kind, flag, optimise):
  name, time, hand_eye, optimisation = preset
  require(name == expected_name(kind, flag, optimise), 'name', actual=name, kind=kind, flag=flag,
          optimise=optimise)
  if kind == 'basic':
    return
  family = 'ES' if kind == 'spoiled' else kind
  exhaustive, baseline, size, rule = FAMILIES[family]
  prefilter = flag if family in WITH_FILTER else True
  actual = settings(hand_eye)
  require(bool(actual['prefilter_poses_enabled']) == prefilter, 'prefilter switch', name=name,
          actual=actual['prefilter_poses_enabled'])
  require(bool(actual['enable_exhaustive_search']) == exhaustive, 'search mode', name=name,
          actual=actual['enable_exhaustive_search'])
  require(bool(actual['use_baseline_approach']) == baseline, 'baseline switch', name=name,
          actual=actual['use_baseline_approach'])
  if size is not None:
    require(actual['ransac_sample_size'] == size, 'sample size', name=name,
            actual=actual['ransac_sample_size'])
    require(actual['ransac_inlier_classification'] == rule, 'inlier rule', name=name,
            actual=actual['ransac_inlier_classification'])
  require(actual['algorithm_name'] == expected_name(family, flag, None), 'name of the algorithm',
          actual=actual['algorithm_name'], preset=name)
  require(actual['visualize'] is False, 'plots by default', name=name)
  require(0. < actual['prefilter_dot_product_threshold'] < 1. and
          actual['min_num_inliers'] >= max(2, actual['ransac_sample_size']) and
          actual['ransac_sample_rejection_scalar_part_equality_tolerance'] > 0. and
          actual['hand_eye_calibration_scalar_part_equality_tolerance'] > 0. and
          actual['ransac_position_error_threshold_m'] > 0. and
          actual['ransac_orientation_error_threshold_deg'] > 0. and
          actual['ransac_max_number_iterations'] >= 1, 'unusable limits', name=name)
  timing = settings(time)
  for k in ('smoothing_kernel_size_A', 'smoothing_kernel_size_B'):
    require(timing[k] >= 1, 'smoothing of the time alignment', name=name, setting=k)
  for k in ('clipping_percentile_A', 'clipping_percentile_B'):
    require(50. < timing[k] <= 100., 'clipping of the time alignment', name=name, setting=k)
  if kind == 'spoiled':
    require(optimisation.enable_optimization and optimisation.optimization_only,
            'optimisation of the perturbed initial guess')
  elif optimise is not None:
    require(bool(optimisation.enable_optimization) == optimise and
            not optimisation.optimization_only, 'optimisation switch', name=name,
            actual=optimisation.enable_optimization)


@st.composite
def preset(draw):
  kind = draw(gen.pick('RC', 'RS', 'EC', 'ES', 'baseline', 'spoiled', 'basic'))
  return [kind, draw(st.booleans()), draw(gen.pick(None, True, False))]


@st.composite
def histories(draw):
  steps = []
  for _ in range(draw(st.integers(2, 12))):
    if steps and draw(st.booleans()):
      steps.append(['change', draw(st.integers(0, 30)), draw(st.integers(0, 60)),
                    draw(gen.pick(-7, 'changed', 0, 123.25, None))])
    elif draw(gen.pick(True, True, True, False)):
      steps.append(['fetch', draw(preset())])
    else:
      steps.append(['list'])
  return steps


def test_history(steps):
  held = []  # [preset key, preset, settings it should have]
  initial = {}
  changed = again = False

  def hold(key, value):
    wanted = [settings(c) for c in value[1:]]
    known = initial.setdefault(key, wanted)
    require(known == wanted, 'preset differs from the one fetched before', preset=key)
    for _, other, _ in held:
      for a in other[1:]:
        for b in value[1:]:
          require(a is None or a is not b, 'presets share an object', preset=key)
    held.append([key, value, [dict(w) if w is not None else None for w in wanted]])

  for step in steps:
    if step[0] == 'fetch':
      kind, flag, optimise = step[1]
      value = fetch(kind, flag, optimise)
      consistent(value, kind, flag, optimise)
      again = again or changed
      hold('{} {} {}'.format(kind, flag if kind in WITH_FILTER else '', optimise), value)
    elif step[0] == 'list':
      values = all_configs.get_all_configs()
      names = [v[0] for v in values]
      wanted = [expected_name(k, f, o) for k in FAMILIES for o in (True, False)
                for f in ((True, False) if k in WITH_FILTER else (True,))]
      require(sorted(names) == sorted(wanted), 'names in the list', actual=names)
      again = again or changed
      for value in values:
        require(len(value) == 4, 'entry of the list', length=len(value))
        words = value[0].split('_')
        kind, optimise, flag = words[0], words[-2] != 'no', words[1] != 'no'
        consistent(value, kind, flag, optimise)
        hold('{} {} {}'.format(kind, flag if kind in WITH_FILTER else '', optimise), value)
      note('list')
    elif held:
      entry = held[step[1] % len(held)]
      configs = [i for i, c in enumerate(entry[1][1:]) if c is not None]
      i = configs[step[2] % len(configs)]
      names = sorted(entry[2][i])
      name = names[step[2] % len(names)]
      setattr(entry[1][1 + i], name, step[3])
      entry[2][i][name] = step[3]
      changed = True
    for key, value, wanted in held:
      require([settings(c) for c in value[1:]] == wanted, 'preset changed by changing another',
              preset=key)
  return again


@st.composite
def search_cases(draw):
  return {'preset': [draw(gen.pick('RC', 'RS', 'EC', 'ES', 'baseline')), draw(st.booleans()),
                     draw(gen.pick(None, True, False))],
          'seed': draw(gen.seed()), 'n': draw(st.integers(12, 13)), 'outliers': 0,
          'X': draw(gen.pose(0., gen.PI - 0.02)), 'state': draw(st.integers(0, 10 ** 6))}


def test_search(case):
  case = dict(case)
  X = np.array(case['X'])
  X[0:3] = np.clip(X[0:3], -1., 1.)
  case['X'] = X
  data = search.build(case)
  kind, flag, optimise = case['preset']
  name, _, hand_eye, _ = fetch(kind, flag, optimise)
  before = settings(hand_eye)
  kept, ambiguous = search.filtered(data, hand_eye)
  if ambiguous or len(kept) < (11 if kind == 'baseline' else 5):
    return False
  result = search.run(data, hand_eye, case['state'])
  require(settings(hand_eye) == before, 'preset changed by the search', name=name)
  require(bool(result[0]), 'search failed', name=name)
  position, degrees = ref.transform_error(ref.mat_from_dq(result[1].dq), ref.mat(data.X))
  require(position < 1e-3 and degrees < 0.05, 'wrong transformation', name=name,
          position=position, degrees=degrees)
  note(name)
  return True


SUBS = [
    Sub('history', histories, test_history, 1200, 10000),
    Sub('search', search_cases, test_search, 100, 900),
]
