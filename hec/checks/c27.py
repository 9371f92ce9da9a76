import contextlib
import io
import json
import os
import re

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, ref, scripts
from hec.code import DQ, extrinsic
from hec.harness import Sub, Violation, close, note, require, scratch

PROPERTY = 'C27'
TECHNIQUE = 'stateful property-based testing (Hypothesis) against a model of outdated files'
RULE = ('a history counts as non-trivial if a later run repeats some but not all steps; a file set '
        'if inputs and outputs exist; a circle if it has three or more members')
ASSUMPTIONS = ['the results of one step are deleted together (see the known finding)',
               'the programs started by the script are played by a stand-in']
PROGRAM = os.path.join(env.PKG, 'scripts', 'close_the_circle_test.py')


def _program():
  for directory in (env.SCRIPTS, env.BIN):
    path = os.path.join(directory, 'close_the_circle_test.py')
    if os.path.exists(path):
      return path
  return PROGRAM


# --- Deciding whether files are outdated -----------------------------------------------------

@st.composite
def file_cases(draw):
  time = st.integers(0, 6)
  return {'inputs': draw(st.lists(st.one_of(time, time, time, st.none()), max_size=4)),
          'outputs': draw(st.one_of(
              st.lists(time, min_size=1, max_size=4),
              st.lists(time, min_size=1, max_size=4),
              st.lists(st.none(), min_size=1, max_size=3)))}


def test_outdated(case):
  module = scripts.load(_program())
  with scratch() as d:
    names = {}
    for kind in ('inputs', 'outputs'):
      names[kind] = []
      for i, t in enumerate(case[kind]):
        path = os.path.join(d, '{}_{}'.format(kind, i))
        names[kind].append(path)
        if t is not None:
          open(path, 'w').close()
          os.utime(path, (1e9 + 1000 - t, 1e9 + t))
    inputs = [t for t in case['inputs'] if t is not None]
    outputs = [t for t in case['outputs'] if t is not None]
    expected = not outputs or bool(inputs and max(inputs) > min(outputs))
    actual = module.requiresUpdate(list(names['inputs']), list(names['outputs']))
    require(bool(actual) == expected, 'needs to be repeated', actual=actual, expected=expected)
  note('outdated' if expected else 'current')
  return bool(inputs and outputs)


# --- Composing calibrations ------------------------------------------------------------------

@st.composite
def circle_cases(draw):
  return {'calibrations': draw(st.lists(st.tuples(gen.fixed(-5., 5.), gen.pose()), min_size=1,
                                        max_size=5))}


PRINTED = re.compile(r'Circle\s+(.*?)\s*:\s*\[delta_time:\s*(\S+?),\s*delta_pose:\s*\[([^\]]*)\]')


def _circles(text):
  out = {}
  for name, time, pose in PRINTED.findall(text):
    values = np.array([float(x) for x in pose.split()])
    require(values.shape == (7,), 'printed pose', text=pose)
    out[name] = (float(time), values)
  return out


def _check_circle(printed, calibrations):
  time = sum(c[0] for c in calibrations)
  T, size = np.eye(4), 1.
  for c in calibrations:
    T = T.dot(ref.mat(c[1]))
    size += np.linalg.norm(c[1][0:3])
  close(printed[0], time, 2e-6, what='time offset around the circle')
  close(ref.mat(printed[1]), T, 1e-5 * size, what='transformation around the circle')


def test_circle(case):
  module = scripts.load(_program())
  calibrations = [(t, np.array(p)) for t, p in case['calibrations']]
  objects = [extrinsic.ExtrinsicCalibration(t, DQ(p)) for t, p in calibrations]
  stream = io.StringIO()
  with contextlib.redirect_stdout(stream):
    module.computeCircle('of sensors', objects)
  printed = _circles(stream.getvalue())
  require(list(printed) == ['of sensors'], 'printed circles', text=stream.getvalue())
  _check_circle(printed['of sensors'], calibrations)
  for o, (t, p) in zip(objects, calibrations):
    size = 1. + np.linalg.norm(p[0:3])
    close(o.time_offset, t, 0., what='time offset of a member')
    close(ref.mat_from_dq(o.pose_dq.dq), ref.mat(p), 1e-8 * size, what='transformation of a member')
  return len(calibrations) >= 3


# --- Histories of the whole script -----------------------------------------------------------

ALIGN, CALIBRATE, GUESS, OPTIMISE = range(4)
PROGRAMS = {'compute_aligned_poses.py': ALIGN, 'compute_hand_eye_calibration.py': CALIBRATE,
            'batch_estimator': OPTIMISE}


@st.composite
def histories(draw):
  sensors = draw(gen.pick(2, 3, 3))
  groups = 1 if sensors == 2 else 3
  steps = [['run', None]]
  for _ in range(draw(st.integers(1, 7))):
    kind = draw(gen.pick('run', 'run', 'touch', 'edit', 'delete', 'touch result', 'age', 'remove',
                         'touch one', 'age one'))
    if kind == 'run':
      fail = draw(gen.pick(None, None, None, 'compute_aligned_poses.py',
                           'compute_hand_eye_calibration.py', 'batch_estimator', 0, 1, 2))
      steps.append(['run', fail])
    elif kind in ('touch', 'edit', 'age', 'remove'):
      steps.append([kind, draw(st.integers(0, sensors - 1))])
    else:
      steps.append([kind, draw(st.integers(0, groups - 1)), draw(st.integers(0, 3)),
                    draw(st.integers(0, 2))])
      if kind.endswith('one'):
        steps[-1][2] = ALIGN
  steps.append(['run', None])
  return {'sensors': sensors, 'steps': steps, 'directory': draw(st.booleans())}


class _World(object):
  """The files of one history with times that only the history decides."""

  def __init__(self, base, sensors, directory):
    self.work = os.path.join(base, 'work')
    os.makedirs(self.work)
    data = os.path.join(base, 'data') if directory else self.work
    if directory:
      os.makedirs(data)
    self.names = ['left', 'arm', 'top'][:sensors]
    self.inputs = []
    for n in self.names:
      path = os.path.join(data, n + '.csv')
      self.inputs.append(path if directory else n + '.csv')
    self.clock = 10 ** 9
    self.times = {}
    self.edits = 0
    pairs = [(0, 1)] if sensors == 2 else [(0, 1), (1, 2), (2, 0)]
    self.groups = []
    for a, b in pairs:
      g = 'test' if sensors == 2 else '{}_{}'.format(a, b)
      aligned = ['{}/{}_aligned.csv'.format(g, self.names[i]) for i in (a, b)]
      offset, pose = g + '/time_offset.csv', g + '/pose.csv'
      guess, result = g + '_init_guess.json', g + '.json'
      ins = [self.inputs[a], self.inputs[b]]
      self.groups.append([
          (ins, aligned + [offset]), (aligned, [pose]), ([offset, pose], [guess]),
          (ins + [guess], [result])])
    for p in self.inputs:
      self.edit(p)

  def path(self, name):
    return os.path.join(self.work, name)

  def stamp(self, name, time=None):
    if time is None:
      self.clock += 10
      time = self.clock
    self.times[name] = time
    os.utime(self.path(name), (time, time))

  def edit(self, name):
    self.edits += 1
    with open(self.path(name), 'w') as f:
      f.write('recording {}\n'.format(self.edits))
    self.stamp(name)

  def remove(self, name):
    if os.path.exists(self.path(name)):
      os.remove(self.path(name))
    self.times.pop(name, None)

  def outdated(self, inputs, outputs):
    out = [self.times[o] for o in outputs if o in self.times]
    into = [self.times[i] for i in inputs if i in self.times]
    return not out or bool(into and max(into) > min(out))


def _expected_options(step, inputs, outputs):
  if step == ALIGN:
    return {'poses_B_H_csv_file': inputs[0], 'poses_W_E_csv_file': inputs[1],
            'aligned_poses_B_H_csv_file': outputs[0], 'aligned_poses_W_E_csv_file': outputs[1],
            'time_offset_output_csv_file': outputs[2]}
  if step == CALIBRATE:
    return {'aligned_poses_B_H_csv_file': inputs[0], 'aligned_poses_W_E_csv_file': inputs[1],
            'extrinsics_output_csv_file': outputs[0]}
  return {'pose1_csv': inputs[0], 'pose2_csv': inputs[1], 'init_guess_file': inputs[2],
          'output_file': outputs[0]}


def _calibration(path):
  with open(path) as f:
    c = json.load(f)
  return c['delay'], np.array([c['translation'][k] for k in 'xyz'] +
                              [c['rotation'][k] for k in 'ijkw'])


def _run(world, ros, fail):
  """Runs the script, compares it with the model; returns how many steps ran and could have."""
  ros.reset()
  ros.behave(token=True, fail=[] if fail is None else [fail])
  stream = io.StringIO()
  error = None
  with contextlib.redirect_stdout(stream):
    try:
      scripts.run(_program(), world.inputs, world.work, ros)
    except Exception as e:
      error = e
  calls = ros.calls()
  ran, broken = 0, False
  for group in world.groups:
    for step, (inputs, outputs) in enumerate(group):
      if not world.outdated(inputs, outputs):
        continue
      available = all(i in world.times for i in inputs)
      ran += 1
      if step == GUESS:
        require(available, 'initial guess without its inputs')  # excluded by the generator
        pose = np.array(scripts.read_rows(world.path(inputs[1]))).flatten()
        offset = scripts.read_rows(world.path(inputs[0]))[0][0]
        require(os.path.exists(world.path(outputs[0])), 'initial guess is missing')
        written = _calibration(world.path(outputs[0]))
        close(written[0], offset, 1e-9, what='time offset of the initial guess')
        close(ref.mat(written[1]), ref.mat(pose), 1e-6, what='initial guess')
        world.stamp(outputs[0])
        continue
      require(calls, 'a step was not repeated', outputs=outputs, error=repr(error))
      call = calls.pop(0)
      require(PROGRAMS.get(call['program']) == step, 'a different step was run', program=call['program'],
              outputs=outputs)
      require(call['package'] == ('hand_eye_calibration_batch_estimation' if step == OPTIMISE else
                                  'hand_eye_calibration'), 'package', actual=call['package'])
      options = dict(scripts.options(call['argv']))
      for k, v in _expected_options(step, inputs, outputs).items():
        require(options.get(k) == v, 'option of a step', option=k, actual=options.get(k), expected=v)
      if call['failed'] or not available:
        broken = True
        break
      for o in outputs:
        world.stamp(o)
    if broken:
      break
  require(not calls, 'a step was repeated without need', programs=[c['program'] for c in calls])
  if broken:
    require(error is not None, 'the failure of a step was ignored')
    note('failed step')
    return ran, False
  require(error is None, 'the script failed', error=repr(error))
  if len(world.groups) == 3:
    printed = _circles(stream.getvalue())
    require(sorted(printed) == ['after NLOPT', 'before NLOPT'], 'printed circles',
            names=sorted(printed))
    for name, step in (('before NLOPT', GUESS), ('after NLOPT', OPTIMISE)):
      _check_circle(printed[name], [_calibration(world.path(g[step][1][0])) for g in world.groups])
  return ran, True


def _unchanged_outputs(world):
  return {o: open(world.path(o)).read() for g in world.groups for _, outputs in g for o in outputs
          if os.path.exists(world.path(o))}


def test_history(case):
  partly = False
  with scratch() as base:
    world = _World(base, case['sensors'], case['directory'])
    ros = scripts.Ros(os.path.join(base, 'ros'), {'token': True})
    total = 4 * len(world.groups)
    first = True
    for step in case['steps']:
      kind = step[0]
      if kind == 'run':
        ran, complete = _run(world, ros, step[1])
        partly = partly or (not first and 0 < ran < total)
        if complete:
          before = _unchanged_outputs(world)
          again, _ = _run(world, ros, None)
          require(again == 0, 'a repeated run does something', steps=again)
          require(before == _unchanged_outputs(world), 'a repeated run changes results')
        first = False
      elif kind in ('touch', 'edit', 'age', 'remove'):
        name = world.inputs[step[1]]
        if kind == 'remove':
          world.remove(name)
        elif kind == 'edit' or name not in world.times:
          world.edit(name)
        else:
          world.stamp(name, None if kind == 'touch' else 10 ** 8)
      else:
        outputs = world.groups[step[1] % len(world.groups)][step[2]][1]
        if kind.endswith('one'):
          outputs = [outputs[step[3] % len(outputs)]]
        for o in outputs:
          if kind == 'delete':
            world.remove(o)
          elif o in world.times:
            world.stamp(o, 10 ** 8 if kind == 'age one' else None)
      note(kind)
  return partly


# --- Known finding ---------------------------------------------------------------------------

class PartOfTheResults(object):
  text = ('deleting only some of the results of the alignment step (time_offset.csv or one aligned '
          'file) of an otherwise complete pair does not repeat the step')

  @staticmethod
  def reproduces():
    module = scripts.load(_program())
    with scratch() as d:
      names = [os.path.join(d, n) for n in ('a', 'b', 'time_offset.csv', 'a_aligned.csv')]
      for i, n in enumerate((names[0], names[1], names[3])):
        open(n, 'w').close()
        os.utime(n, (1e9 + i, 1e9 + i))
      return not module.requiresUpdate(names[0:2], names[2:4])


KNOWN = [PartOfTheResults]

SUBS = [
    Sub('outdated', file_cases, test_outdated, 800, 6000),
    Sub('circle', circle_cases, test_circle, 400, 4000),
    Sub('history', histories, test_history, 160, 1200, 120),
]
