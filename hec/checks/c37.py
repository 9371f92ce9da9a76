import json
import os
import shutil

from hypothesis import strategies as st

from hec import env, gen, ref, scripts
from hec.checks import c33
from hec.harness import HarnessError, Sub, close, note, require, scratch

PROPERTY = 'C37'
RULE = ('a history counts as non-trivial if it has several runs or a failing step; a real run counts '
        'if the recordings have a time offset')
ASSUMPTIONS = ['paths contain no spaces',
               'the optimiser is replaced by a program that copies its initial guess or derives its '
               'result from all its inputs']
PROGRAM = os.path.join(env.SCRIPTS, 'compute_complete_handeye_calibration.sh')
STEPS = ('compute_aligned_poses.py', 'compute_hand_eye_calibration.py', 'batch_estimator')


@st.composite
def histories(draw):
  runs = []
  for _ in range(draw(st.integers(1, 3))):
    runs.append({'inputs': draw(st.lists(st.integers(0, 3), min_size=2, max_size=2, unique=True)),
                 'fail': draw(gen.pick(None, None, None, 0, 1, 2)),
                 'relative': draw(st.booleans()), 'rewrite': draw(st.booleans())})
  return {'runs': runs, 'contents': draw(st.lists(st.integers(0, 99), min_size=4, max_size=4))}


NAMES = ('a/poses.csv', 'b/poses.csv', 'a/other.poses.csv', 'b/eye')


def _reference(d, ros, first, second):
  """The same three steps one after another in a directory of their own."""
  work = os.path.join(d, 'reference')
  os.mkdir(work)

  def step(package, program, *words):
    code, text = scripts.child(['rosrun', package, program] + list(words), work, ros)
    if code:
      raise HarnessError('step of the reference failed: ' + text)

  aligned = [os.path.join(work, 'one'), os.path.join(work, 'two')]
  step('hand_eye_calibration', STEPS[0], '--poses_B_H_csv_file', first, '--poses_W_E_csv_file',
       second, '--aligned_poses_B_H_csv_file', aligned[0], '--aligned_poses_W_E_csv_file',
       aligned[1], '--time_offset_output_csv_file', 'offset')
  step('hand_eye_calibration', STEPS[1], '--aligned_poses_B_H_csv_file', aligned[0],
       '--aligned_poses_W_E_csv_file', aligned[1], '--time_offset_input_csv_file', 'offset',
       '--calibration_output_json_file', 'calibration')
  step('hand_eye_calibration_batch_estimation', STEPS[2], '--pose1_csv', first, '--pose2_csv',
       second, '--init_guess_file', 'calibration', '--output_file', 'optimised')
  out = [open(os.path.join(work, name)).read() for name in ('calibration', 'optimised')]
  shutil.rmtree(work)
  return out


def _read(path):
  return open(path).read() if os.path.exists(path) else None


def test_history(case):
  if not os.path.exists(PROGRAM):
    raise HarnessError('missing program ' + PROGRAM)
  with scratch() as d:
    work = os.path.join(d, 'work')
    for name in ('a', 'b', 'work'):
      os.mkdir(os.path.join(d, name))
    ros = scripts.Ros(os.path.join(d, 'ros'), {})
    for number, run in enumerate(case['runs']):
      for i, name in enumerate(NAMES):
        if number == 0 or run['rewrite']:
          with open(os.path.join(d, name), 'w') as f:
            f.write('{},{},{}\n'.format(i, case['contents'][i], number))
      inputs = [os.path.join(d, NAMES[i]) for i in run['inputs']]
      keep = [_read(p) for p in inputs]
      ros.behave(token=True)
      expected = _reference(d, ros, *inputs)
      words = [os.path.relpath(p, work) if run['relative'] else p for p in inputs]
      optimised = os.path.join(work, 'calibration_optimized.json')
      old = _read(optimised)
      fail = [] if run['fail'] is None else [STEPS[run['fail']]]
      ros.behave(token=True, fail=fail)
      ros.reset()
      code, text = scripts.child(['bash', PROGRAM] + words, work, ros)
      require([_read(p) for p in inputs] == keep, 'input files modified')
      calls = ros.calls()
      started = [c['program'] for c in calls]
      last = 3 if run['fail'] is None else run['fail'] + 1
      require(started == list(STEPS[:last]), 'steps', actual=started, fail=run['fail'])
      if run['fail'] is not None:
        note('failing step')
        require(code != 0, 'success although a step failed', step=STEPS[run['fail']])
        require(_read(optimised) in (None, old), 'result although a step failed')
        continue
      require(code == 0, 'the script failed', code=code, output=text[-1000:])
      require(_read(os.path.join(work, 'calibration.json')) == expected[0],
              'initial calibration differs from the one of the single steps')
      require(_read(optimised) == expected[1],
              'calibration differs from the one of the single steps')
  return len(case['runs']) > 1 or case['runs'][0]['fail'] is not None


@st.composite
def real_cases(draw):
  return {'seed': draw(gen.seed()), 'n': 2, 'poses': draw(st.integers(16, 22)),
          'sensors': [draw(gen.pose(0., gen.PI - 0.05)) for _ in range(2)],
          'worlds': [draw(gen.pose()) for _ in range(2)],
          'shifts': [draw(st.integers(-400, 400)) for _ in range(2)],
          'signs': draw(st.booleans()), 'stranger': draw(gen.pick(False, False, False, True))}


def test_real(case):
  """The whole chain with the programs of the repository."""
  recordings = c33._recordings(case)
  sensors = [c33._clip(p, 1.) for p in case['sensors']]
  X = ref.pose_mul(ref.pose_inv(sensors[0]), sensors[1])
  with scratch() as d:
    os.mkdir(os.path.join(d, 'work'))
    files = [os.path.join(d, name) for name in ('hand.csv', 'eye.csv')]
    for path, rows in zip(files, recordings):
      scripts.write_rows(path, rows)
    ros = scripts.Ros(os.path.join(d, 'ros'), {'real': [env.BIN]})
    code, text = scripts.child(['bash', PROGRAM] + files, os.path.join(d, 'work'), ros)
    path = os.path.join(d, 'work', 'calibration_optimized.json')
    if case['stranger']:
      note('inconsistent recordings')
      started = [c['program'] for c in ros.calls()]
      require(code != 0 or os.path.exists(path), 'no error and no calibration')
      require(code == 0 or started[-1] != STEPS[2], 'refined without calibration', calls=started)
      return False
    require(code == 0 and os.path.exists(path), 'the script failed', code=code, output=text[-1500:])
    with open(path) as f:
      result = json.load(f)
  position, degrees = ref.transform_error(c33._matrix(result), ref.mat(X))
  require(position < 1e-3 and degrees < 0.05, 'wrong transformation', position=position,
          degrees=degrees, expected=X.tolist())
  offset = (case['shifts'][1] - case['shifts'][0]) / c33.RATE
  close(result['delay'], offset, 0.02 / c33.RATE, what='time offset')
  return offset != 0.


SUBS = [
    Sub('history', histories, test_history, 160, 2500, 120),
    Sub('real', real_cases, test_real, 32, 500, 120),
]
