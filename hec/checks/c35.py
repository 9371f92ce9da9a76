import json
import os

import numpy as np
from hypothesis import strategies as st

from hec import cpp, gen
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C35'
RULE = ('a case counts as non-trivial if both recordings have at least two poses and a setting is '
        'given in more than one place')
ASSUMPTIONS = [
    'the program is compiled against stand-ins of the optimisation and settings libraries: copies '
    'of a settings tree share their content, and a changed setting is stored where it came from',
    'the optimisation is played by a stand-in with results chosen by the case',
    'quaternions of the files have unit norm up to rounding, or differ from it by at least 1e-7']
SOURCE = 'hand_eye_calibration_batch_estimation/src/batch_estimator.cc'
PACKAGE = 'hand_eye_calibration_batch_estimation'
STEP = 0.02
KEYS = ['pose1/absoluteMeasurements', 'pose2/absoluteMeasurements', 'pose1/covPosition/sigma',
        'pose2/covPosition/sigma', 'pose2/covOrientation/sigma', 'traj/splines/knotsPerSecond',
        'Gravity/used', 'pose2/mestimator/name', 'pose1/delay/used']
CALIBRATOR_KEYS = ['timeBaseSensor', 'estimator/optimizer/maxIterations', 'verbose']
VARIABLES = ['delay', 'rotation/i', 'rotation/j', 'rotation/k', 'rotation/w', 'translation/x',
             'translation/y', 'translation/z']


def prepare(directory):
  cpp.build(SOURCE, directory)


@st.composite
def recordings(draw):
  start = draw(gen.pick(0., 100., 1466012345., -2.5))
  n = draw(st.one_of(st.integers(2, 8), st.integers(2, 8), st.integers(1, 3),
                     st.integers(9, 40)))
  stamps = draw(st.lists(gen.fixed(0., draw(gen.pick(*[2.] * 6 + [30., 30., 90.]))), min_size=n, max_size=n,
                         unique=True))
  if draw(gen.pick(True, True, True, False)):
    stamps = sorted(stamps)
  rows = []
  for i, t in enumerate(stamps):
    outlier = draw(gen.pick(False, False, False, True))
    rows.append([start + t] + ([] if outlier else draw(gen.pose())))
  return rows


def word():
  return gen.pick('true', 'false', '0.01', '7', 'Cauchy', 'x1')


@st.composite
def cases(draw):
  def settings(keys, most):
    chosen = draw(st.lists(st.sampled_from(keys), unique=True, max_size=most))
    return dict((k, draw(word())) for k in sorted(chosen))

  return {
      'poses': [draw(recordings()), draw(recordings())], 'jpl': draw(st.booleans()),
      'config': settings(KEYS, len(KEYS)), 'calibrator': settings(CALIBRATOR_KEYS, 3),
      'extra': settings(KEYS, 3),
      'guess': [draw(gen.fixed(-5., 5.)) for _ in VARIABLES],
      'guess_extra': settings(['covPosition/sigma', 'covOrientation/sigma',
                               'absoluteMeasurements'], 2),
      'result': [draw(gen.fixed(-9., 9.)) for _ in VARIABLES],
      'motion': [[draw(gen.fixed(-3., 3.)) for _ in range(6)] + draw(gen.axis()) +
                 [draw(gen.fixed(-3., 3.)), draw(gen.fixed(-2., 2.))] for _ in range(2)],
      'marker': draw(gen.pick('default', 'marker', 'none', 'inside')),
      'output': draw(gen.pick('given', 'given', 'default', 'none', 'guess')),
      'old': draw(st.booleans()), 'separator': draw(gen.pick(',', ', ')),
      'newline': draw(gen.pick(True, True, False)),
      'trouble': draw(st.integers(0, 29)), 'where': draw(st.integers(0, 7)),
      'which': draw(gen.pick(1, 0))}


def _nested(flat):
  tree = {}
  for key, value in flat.items():
    node = tree
    for part in key.split('/')[:-1]:
      node = node.setdefault(part, {})
    node[key.split('/')[-1]] = value
  return tree


def _info(tree, depth=0):
  lines = []
  for key, value in sorted(tree.items()):
    if isinstance(value, dict):
      lines += ['  ' * depth + key, '  ' * depth + '{'] + _info(value, depth + 1)
      lines.append('  ' * depth + '}')
    else:
      lines.append('{}{} "{}"'.format('  ' * depth, key, value))
  return lines


def _flat(tree, prefix=''):
  out = {}
  for key, value in tree.items():
    if isinstance(value, dict):
      out.update(_flat(value, prefix + key + '/'))
    else:
      out[prefix + key] = value
  return out


TROUBLES = {1: 'no poses', 2: 'no guess', 3: 'no configuration', 4: 'columns', 5: 'norm', 6: 'text', 7: 'gap'}


def _lines(case, which, trouble):
  lines = []
  rows = [list(r) for r in case['poses'][which]]
  if which == case['which'] and trouble in ('columns', 'norm', 'text', 'gap'):
    row = rows[case['where'] % len(rows)]
    if len(row) == 1:
      row += [0., 0., 0., 0., 0., 0., 1.]
    if trouble == 'columns':
      row[:] = (row + [1.] * 8)[:(2, 3, 7, 9, 7, 9, 4, 16)[case['where']]]
    elif trouble == 'norm':
      scale = (1. + 2e-7, 1. - 2e-7, 1. + 1e-5, 1. - 1e-4, 1.01, 0.9, 1.5, 0.)[case['where']]
      row[4:8] = [scale * v for v in row[4:8]]
    elif trouble == 'gap':
      row.insert(case['where'], '')
    else:
      row[case['where']] = 'none'
  for row in rows:
    lines.append(case['separator'].join(v if isinstance(v, str) else repr(v) for v in row))
  return lines


def test_estimation(case):
  trouble = TROUBLES.get(case['trouble'])
  with scratch() as d:
    path = lambda name: os.path.join(d, name)
    package = path(PACKAGE)
    os.makedirs(os.path.join(package, 'conf'))

    def write(name, lines, newline=True):
      with open(path(name), 'w') as f:
        f.write('\n'.join(lines) + ('\n' if newline and lines else ''))

    tree = {'model': _nested(case['config']), 'calibrator': _nested(case['calibrator'])}
    config = {'default': os.path.join(PACKAGE, 'conf', 'config.info'),
              'marker': os.path.join(PACKAGE, 'conf', 'other.info'),
              'inside': os.path.join(PACKAGE, 'conf', 'other.info'), 'none': 'own.info'}
    if trouble != 'no configuration':
      write(config[case['marker']], _info(tree))
    for i in range(2):
      if trouble != 'no poses' or i != case['which']:
        write('pose{}.txt'.format(i + 1), _lines(case, i, trouble), case['newline'])
    guess = dict(zip(VARIABLES, case['guess']))
    guess.update(case['guess_extra'])
    if trouble != 'no guess':
      write('guess.json', [json.dumps(_nested(guess))])
    write('keys', KEYS + CALIBRATOR_KEYS)
    write('result', ['variable pose2/{} {!r}'.format(k, v)
                     for k, v in zip(VARIABLES, case['result'])] +
          ['sensor pose{} {}'.format(i + 1, ' '.join(repr(v) for v in case['motion'][i]))
           for i in range(2)])
    words = ['--pose1_csv=' + path('pose1.txt'), '--pose2_csv=' + path('pose2.txt'),
             '--init_guess_file=' + path('guess.json'),
             '--use_jpl={}'.format('true' if case['jpl'] else 'false')]
    if case['marker'] != 'default':
      words.append('--config_file=' + {'marker': '<PACKAGE>/conf/other.info',
                                       'inside': '/.//<PACKAGE>/conf/other.info',
                                       'none': path('own.info')}[case['marker']])
    if case['extra']:
      words.append('--model_config=' + ','.join('{}={}'.format(k, v)
                                                for k, v in sorted(case['extra'].items())))
    output = {'given': path('result.json'), 'default': path('output.json'), 'none': None,
              # The guess is replaced by the result.
              'guess': path('guess.json')}
    if case['output'] != 'default':
      words.append('--output_file=' + (output[case['output']] or ''))
    if case['old']:
      # Results of an earlier run.
      for name in ['pose1.txt.out', 'pose2.txt.out'] + (
          [os.path.basename(output[case['output']])] if case['output'] in ('given', 'default') else []):
        write(name, ['1, 2, 3, 4, 0, 0, 0, 1'] * 3000)
    status = cpp.run(words, d, {'HEC_TRACE': path('trace'), 'HEC_KEYS': path('keys'),
                                'HEC_RESULT': path('result'), 'HEC_PACKAGES': d})
    if trouble:
      note(trouble)
      require(status != 0, 'accepted although there is ' + trouble)
      return False
    require(status == 0, 'the program failed', status=status)
    with open(path('trace')) as f:
      trace = [l.split() for l in f.read().splitlines()]

    calibration = [i for i, l in enumerate(trace) if l == ['calibrate']]
    require(len(calibration) == 1, 'number of optimisations', number=len(calibration))
    for i in range(2):
      name = 'pose{}'.format(i + 1)
      given = [l for l in trace[:calibration[0]] if l[0] in ('pose', 'outlier') and l[1] == name]
      require(len(given) == len(case['poses'][i]), name + ': number of measurements')
      for l, row in zip(given, case['poses'][i]):
        require(l[0] == ('outlier' if len(row) == 1 else 'pose'), 'kind of measurement', row=row)
        close([int(l[2]) * 1e-9], [row[0]], atol=5e-7, what='stamp')
        if len(row) == 8:
          sign = 1. if case['jpl'] else -1.
          close([float(v) for v in l[3:10]],
                row[1:4] + [sign * v for v in row[4:7]] + [row[7]], atol=1e-12, what='measurement')

    for who in ('model', 'pose1', 'pose2', 'traj'):
      seen = dict((l[2], l[3]) for l in trace if l[0] == 'setting' and l[1] == who)
      expected = {}
      for key in KEYS:
        inner = key[len('pose2/'):] if key.startswith('pose2/') else None
        value = case['extra'].get(key, case['guess_extra'].get(inner, case['config'].get(key)))
        if value is not None:
          expected[key] = value
      require(seen == expected, 'settings of ' + who, seen=seen, expected=expected)
    seen = dict((l[2], l[3]) for l in trace if l[0] == 'setting' and l[1] == 'calibrator')
    require(seen == case['calibrator'], 'settings of the calibrator', seen=seen)

    for i in range(2):
      _check_poses(case, i, path('pose{}.txt.out'.format(i + 1)))
    for name in ('result.json', 'output.json'):
      require(os.path.exists(path(name)) == (output[case['output']] == path(name)),
              'existence of the result file ' + name)
    if output[case['output']]:
      with open(output[case['output']]) as f:
        written = _flat(json.load(f))
      expected = dict(zip(VARIABLES, case['result']))
      require(sorted(written) == sorted(list(expected) + list(case['guess_extra'])),
              'keys of the result', written=sorted(written))
      close([float(written[k]) for k in VARIABLES], case['result'], what='written calibration')
      require(all(written[k] == v for k, v in case['guess_extra'].items()), 'settings of the guess')
  shadowed = [k for k in KEYS if (k in case['config']) + (k in case['extra']) +
              (k.startswith('pose2/') and k[6:] in case['guess_extra']) > 1]
  return all(len(p) >= 2 for p in case['poses']) and bool(shadowed)


def _check_poses(case, which, path):
  with open(path) as f:
    rows = [[float(v) for v in l.split(',')] for l in f.read().splitlines()]
  stamps = [round(r[0] * 1e9) for r in case['poses'][0]]
  start, end = min(stamps), max(stamps)
  count = int((end - start) // int(STEP * 1e9)) + 1
  # Stamps of epoch size carry an error of some hundred nanoseconds.
  slack = 1 if start > 1e15 else 0
  require(abs(len(rows) - count) <= slack and rows, 'number of optimised poses', count=len(rows),
          expected=count)
  v = np.array(case['motion'][which])
  for i, row in enumerate(rows):
    s = i * STEP
    half = .5 * (v[9] + v[10] * s)
    q = np.append(np.sin(half) * v[6:9], np.cos(half))
    if not case['jpl']:
      q[0:3] *= -1.
    close([row[0]], [start * 1e-9 + s], atol=2e-6, what='stamp of an optimised pose')
    close(row[1:4], v[0:3] + s * v[3:6], atol=1e-7, what='optimised position')
    close(np.sign(np.dot(row[4:8], q)) * np.array(row[4:8]), q, atol=1e-7,
          what='optimised orientation')


SUBS = [Sub('estimation', cases, test_estimation, 1600, 25000)]
