"""Runs the generated-input search of one property and writes its evidence.

A check module provides PROPERTY, RULE, SUBS (a list of Sub) and optionally
ASSUMPTIONS and KNOWN.  Every Sub pairs a Hypothesis strategy producing plain
JSON data with a test function that builds the objects, exercises the code under
test and raises AssertionError if the oracle disagrees.  The test function
returns True for a non-trivial case.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from hec import env

CASE_TIMEOUT_S = 90
SHRINK_BUDGET_S = {'quick': 45, 'thorough': 120}
SOFT_BUDGET_S = {'quick': 240, 'thorough': 700}
SHARDS = 8


class HarnessError(Exception):
  """The check itself could not do its work; never a verdict on the property."""


class StopRun(BaseException):
  """Ends a Hypothesis run from inside a test function."""


class Hang(BaseException):
  """A case that normally takes milliseconds did not return."""


class Violation(AssertionError):
  pass


class Sub(object):

  def __init__(self, name, strategy, test, quick, thorough=None, timeout=CASE_TIMEOUT_S):
    self.name = name
    self.strategy = strategy  # callable returning a strategy
    self.test = test
    self.quick = quick
    self.thorough = thorough if thorough is not None else quick * 10
    self.timeout = timeout

  def examples(self, tier):
    return self.thorough if tier == 'thorough' else self.quick


class _Null(io.TextIOBase):

  def write(self, s):
    return len(s)

  def flush(self):
    pass


_labels = {}


def note(label):
  """Count a feature of the current case, shown in the evidence."""
  _labels[label] = _labels.get(label, 0) + 1


def require(condition, message='', **values):
  if not condition:
    details = ', '.join('{}={!r}'.format(k, v) for k, v in values.items())
    raise Violation('{} {}'.format(message, details).strip())


def close(actual, expected, atol=1e-9, rtol=0., what='value'):
  import numpy as np
  a = np.asarray(actual, dtype=float)
  e = np.asarray(expected, dtype=float)
  require(a.shape == e.shape, what + ': different shape', actual=a.shape, expected=e.shape)
  if a.size == 0:
    return
  bad = ~(np.abs(a - e) <= atol + rtol * np.abs(e))
  if np.any(bad):
    raise Violation('{}: {} differs from expected {} (max deviation {})'.format(
        what, a.tolist(), e.tolist(), float(np.max(np.abs(a - e)))))


@contextlib.contextmanager
def raises(exceptions, what):
  try:
    yield
  except exceptions:
    return
  raise Violation('{}: accepted without an error'.format(what))


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='hec_')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
  """Silence the code under test."""
  with contextlib.redirect_stdout(_Null()), contextlib.redirect_stderr(_Null()):
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      yield


def _alarm(signum, frame):
  raise Hang()


def run_case(sub, case):
  """Runs one case, returns whether it was non-trivial."""
  import random
  import numpy as np
  # Code under test that draws random numbers does so as a function of the case.
  draws = int(_digest(case)[:8], 16)
  random.seed(draws)
  np.random.seed(draws)
  cwd = os.getcwd()
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, sub.timeout)
  try:
    with quiet():
      return bool(sub.test(case))
  except ModuleNotFoundError as e:
    raise HarnessError('a module is missing: {}'.format(e))
  except SystemExit as e:
    raise Violation('the code under test ended the process: {!r}'.format(e.code))
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)
    os.chdir(cwd)


def derive_seed(*parts):
  return int(hashlib.sha256(':'.join(str(p) for p in parts).encode()).hexdigest()[:15], 16)


def _digest(case):
  return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _abridge(value, limit=1500):
  text = json.dumps(value)
  return value if len(text) <= limit else text[:limit] + '...'


def _run_sub(prop, sub, tier, base_seed, shard, count, stop_at):
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, seed, settings
  stats = {'sub': sub.name, 'evaluations': 0, 'nontrivial': [], 'samples': [],
           'labels': {}, 'violation': None, 'budget_hit': False}
  seen = set()
  failing = {'case': None, 'size': None, 'error': None, 'first': None}
  _labels.clear()

  def body(case):
    now = time.time()
    if failing['first'] is not None and now - failing['first'] > SHRINK_BUDGET_S[tier]:
      raise StopRun()
    if failing['first'] is None and now > stop_at:
      stats['budget_hit'] = True
      raise StopRun()
    counting = failing['first'] is None
    if counting:
      stats['evaluations'] += 1
    try:
      nontrivial = run_case(sub, case)
    except HarnessError:
      raise
    except Hang:
      failing.update(case=case, error='did not return within {} s'.format(sub.timeout))
      raise StopRun()
    except hypothesis.errors.UnsatisfiedAssumption:
      raise
    except Exception as e:
      size = len(json.dumps(case))
      if failing['size'] is None or size <= failing['size']:
        failing.update(case=case, size=size, error='{}: {}'.format(type(e).__name__, e),
                       trace=traceback.format_exc())
      if failing['first'] is None:
        failing['first'] = now
      raise
    if counting:
      d = _digest(case)
      if nontrivial and d not in seen:
        seen.add(d)
        if len(stats['samples']) < 2:
          stats['samples'].append({'sub': sub.name, 'case': _abridge(case)})

  test = given(sub.strategy())(body)
  test = settings(max_examples=count, database=None, deadline=None,
                  phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                  print_blob=False, suppress_health_check=list(HealthCheck),
                  stateful_step_count=50)(test)
  test = seed(derive_seed(base_seed, prop, sub.name, shard))(test)
  try:
    with quiet():
      test()
  except HarnessError:
    raise
  except StopRun:
    pass
  except (hypothesis.errors.Unsatisfiable, hypothesis.errors.InvalidArgument) as e:
    raise HarnessError('generator of {}: {}'.format(sub.name, e))
  except Exception:
    if failing['case'] is None:
      raise HarnessError(traceback.format_exc())
  stats['nontrivial'] = sorted(seen)
  stats['labels'] = dict(_labels)
  if failing['case'] is not None:
    stats['violation'] = {'sub': sub.name, 'case': failing['case'], 'error': failing['error'],
                          'trace': failing.get('trace', '')}
  return stats


def _shard_main(module_name, tier, base_seed, shard, shards, stop_at, conn):
  try:
    # Programs started by the code under test inherit this output.
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    env.setup_paths()
    os.environ['MPLCONFIGDIR'] = tempfile.mkdtemp(prefix='hec_mpl_')
    module = importlib.import_module(module_name)
    results = []
    for sub in module.SUBS:
      total = sub.examples(tier)
      count = total // shards + (1 if shard < total % shards else 0)
      if count == 0:
        continue
      r = _run_sub(module.PROPERTY, sub, tier, base_seed, shard, count, stop_at)
      results.append(r)
      if r['violation']:
        break
    conn.send(('ok', results))
  except BaseException:
    conn.send(('error', traceback.format_exc()))
  finally:
    conn.close()
    shutil.rmtree(os.environ.get('MPLCONFIGDIR', '/nonexistent'), ignore_errors=True)


def _write_json(path, data):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  tmp = path + '.tmp'
  with open(tmp, 'w') as f:
    json.dump(data, f, indent=1)
  os.replace(tmp, path)


def replay(module, path):
  with open(path) as f:
    data = json.load(f)
  sub = [s for s in module.SUBS if s.name == data['sub']]
  if not sub:
    print('unknown sub-check in replay file', data['sub'])
    return 2
  try:
    run_case(sub[0], data['case'])
  except HarnessError as e:
    print('CHECK ERROR', e)
    return 2
  except Hang:
    print('did not return within {} s'.format(sub[0].timeout))
    print('VIOLATION property={} replay={}'.format(module.PROPERTY, path))
    return 1
  except Exception:
    traceback.print_exc(file=sys.stdout)
    print('VIOLATION property={} replay={}'.format(module.PROPERTY, path))
    return 1
  print('held on', path)
  return 0


def main(argv):
  """Modules with a function prepare(directory) get it called once before the search."""
  env.setup_paths()
  module = importlib.import_module('hec.checks.' + argv[0].lower())
  if not hasattr(module, 'prepare'):
    return _main(argv)
  with scratch() as directory:
    os.environ['HEC_PREPARED'] = directory
    try:
      module.prepare(directory)
    except HarnessError as e:
      print('CHECK ERROR', e)
      return 2
    return _main(argv)


def _main(argv):
  prop = argv[0]
  module_name = 'hec.checks.' + prop.lower()
  if len(argv) >= 3 and argv[1] == '--replay':
    os.environ['MPLCONFIGDIR'] = tempfile.mkdtemp(prefix='hec_mpl_')
    return replay(importlib.import_module(module_name), argv[2])
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in SHRINK_BUDGET_S:
    tier = 'quick'
  base_seed = int(os.environ.get('VERIF_SEED', '0'))
  start = time.time()
  shards = int(os.environ.get('HEC_SHARDS', SHARDS))
  ctx = multiprocessing.get_context('spawn')
  procs = []
  for shard in range(shards):
    parent, child = ctx.Pipe(duplex=False)
    p = ctx.Process(target=_shard_main, args=(module_name, tier, base_seed, shard, shards,
                                              start + SOFT_BUDGET_S[tier], child))
    p.start()
    child.close()
    procs.append((p, parent))
  results, errors = [], []
  for p, conn in procs:
    try:
      status, payload = conn.recv()
    except EOFError:
      status, payload = 'error', 'a worker process died'
    p.join()
    if status == 'ok':
      results.append(payload)
    else:
      errors.append(payload)

  module = importlib.import_module(module_name)
  evaluations, labels, nontrivial, samples, violations = 0, {}, set(), [], []
  per_sub, budget_hit = {}, False
  for shard_results in results:
    for r in shard_results:
      evaluations += r['evaluations']
      nontrivial.update((r['sub'], d) for d in r['nontrivial'])
      s = per_sub.setdefault(r['sub'], {'evaluations': 0, 'nontrivial': set()})
      s['evaluations'] += r['evaluations']
      s['nontrivial'].update(r['nontrivial'])
      for k, v in r['labels'].items():
        labels[k] = labels.get(k, 0) + v
      if sum(1 for x in samples if x['sub'] == r['sub']) < 2:
        samples.extend(r['samples'][:1])
      budget_hit = budget_hit or r['budget_hit']
      if r['violation']:
        violations.append(r['violation'])

  known_lines = []
  for known in getattr(module, 'KNOWN', []):
    try:
      with quiet():
        still = known.reproduces()
    except Exception:
      still = True
    if still:
      known_lines.append('KNOWN-FINDING: property={} {}'.format(prop, known.text))

  evidence = {
      'property': prop, 'tier': tier, 'seed': base_seed, 'level': 'exploration',
      'coverage': {
          'evaluations': evaluations, 'distinct_nontrivial': len(nontrivial),
          'rule': module.RULE, 'samples': samples,
          'per_generator': {k: {'evaluations': v['evaluations'],
                                'distinct_nontrivial': len(v['nontrivial'])}
                            for k, v in sorted(per_sub.items())},
          'features': dict(sorted(labels.items())),
          'stopped_early_by_time_budget': budget_hit,
      },
      'assumptions': getattr(module, 'ASSUMPTIONS', []),
      'wall_s': round(time.time() - start, 3),
      'violations': len(violations),
  }
  _write_json(os.path.join(env.VERIF, 'evidence', prop + '.json'), evidence)
  for line in known_lines:
    print(line)
  if violations:
    violations.sort(key=lambda v: len(json.dumps(v['case'])))
    v = violations[0]
    path = os.path.join(env.VERIF, 'evidence', 'replay',
                        '{}-{}-{}.json'.format(prop, v['sub'], _digest(v['case'])))
    _write_json(path, {'property': prop, 'sub': v['sub'], 'case': v['case'],
                       'error': v['error'], 'trace': v['trace'],
                       'replay_cmd': 'run_check.py {} --replay {}'.format(prop, path)})
    print(v['trace'])
    print('{} [{}]: {}'.format(prop, v['sub'], v['error'][:2000]))
    print('VIOLATION property={} replay={}'.format(prop, path))
    return 1
  if errors:
    print('CHECK ERROR in {} of {} workers:\n{}'.format(len(errors), shards, errors[0]))
    return 2
  print('{}: held on {} cases ({} distinct non-trivial), {:.1f} s'.format(
      prop, evaluations, len(nontrivial), time.time() - start))
  return 0
