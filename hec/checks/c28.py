import contextlib
import io
import os
import re
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, ref, scripts
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C28'
RULE = ('a case counts as non-trivial if lines are written and at least one transform of the '
        'recording is not written')
ASSUMPTIONS = ['recordings and the transform library are played by stand-ins',
               'a frame does not change its parent within a recording']
PROGRAM = os.path.join(env.BIN, 'tf_to_csv.py')
NAMES = (('world', 'base', 'arm', 'hand', 'camera', 'other'),
         ('world', 'cam', 'cam_left', 'left_cam', 'Cam', 'ca'),
         ('map', 'base_link', 'base', 'base/tool', 'tool', 'tool0'))
COUNT = len(NAMES[0])


def _root(parents, i):
  while parents[i] is not None:
    i = parents[i]
  return i


@st.composite
def cases(draw):
  # Frame i hangs below an earlier frame or starts another tree.
  parents = [None] + [draw(st.sampled_from(list(range(i)) * (8 // i + 1) + [None]))
                      for i in range(1, COUNT)]
  children = [i for i, p in enumerate(parents) if p is not None]
  source = draw(st.sampled_from(children)) if children else 1
  related = [i for i in range(COUNT) if _root(parents, i) == _root(parents, source)]
  target = draw(st.one_of(st.sampled_from(related), st.sampled_from(related),
                          st.integers(-1, COUNT - 1)))
  return {'parents': parents, 'source': source, 'target': target, 'seed': draw(gen.seed()),
          'names': draw(st.integers(0, len(NAMES) - 1)), 'double': draw(gen.pick(0., 0., 0.4)),
          'messages': draw(gen.pick(*[0] * 60 + [1])) * 2500 or draw(gen.count(1, 40, 200)), 'start': draw(gen.pick(0, 5, 1400000000)),
          'step': draw(gen.pick(1, 10 ** 6, 10 ** 7, 33333333, 10 ** 9)),
          'repeat': draw(gen.pick(0., 0., 0.3, 1.)), 'backwards': draw(gen.pick(0., 0., 0.2)),
          'sparse': draw(gen.pick(0., 0.5)), 'others': draw(st.booleans()),
          'old_file': draw(st.booleans()), 'main': draw(st.booleans()),
          'link_frames': draw(gen.pick('all', 'all', 'late', 'early'))}


def _transform(child, parent, stamp, pose):
  return SimpleNamespace(
      child_frame_id=child,
      header=SimpleNamespace(frame_id=parent, stamp=stamp, seq=0),
      transform=SimpleNamespace(
          translation=SimpleNamespace(x=pose[0], y=pose[1], z=pose[2]),
          rotation=SimpleNamespace(x=pose[3], y=pose[4], z=pose[5], w=pose[6])))


def _recording(case):
  """Messages of the bag in order."""
  import rospy
  from tf2_msgs.msg import TFMessage
  rng = np.random.RandomState(case['seed'])
  frames = NAMES[case['names']]
  messages = []
  ns = case['start'] * 10 ** 9 + 10 ** 9
  stamps = []
  for i in range(case['messages']):
    if stamps and rng.uniform() < case['repeat']:
      ns = stamps[-1]
    elif stamps and rng.uniform() < case['backwards']:
      ns = stamps[rng.randint(len(stamps))]
    else:
      ns = (max(stamps) if stamps else ns) + case['step'] * rng.randint(1, 4)
    stamps.append(ns)
    stamp = rospy.Time.from_nsec(int(ns))
    transforms = []
    fraction = float(i) / case['messages']
    for child, parent in enumerate(case['parents']):
      if parent is None or rng.uniform() < case['sparse']:
        continue
      if child != case['source']:
        if case['link_frames'] == 'late' and fraction < 0.3:
          continue
        if case['link_frames'] == 'early' and fraction > 0.6:
          continue
      pose = gen.random_pose(rng, np.pi - 0.01, 3.)
      transforms.append(_transform(frames[child], frames[parent], stamp, pose))
      if child == case['source'] and rng.uniform() < case['double']:
        # Further samples of the same frame, some outside the range of the other frames.
        for _ in range(rng.randint(1, 3) if rng.randint(8) else rng.randint(3, 20)):
          later = ns + rng.choice([0, case['step'] // 3, case['step'], 10 ** 10, -5 * 10 ** 8])
          transforms.append(_transform(frames[child], frames[parent],
                                       rospy.Time.from_nsec(int(later)),
                                       gen.random_pose(rng, np.pi - 0.01, 3.)))
    order = rng.permutation(len(transforms))
    messages.append(('/tf', TFMessage([transforms[k] for k in order]), stamp))
    if case['others'] and rng.uniform() < 0.5:
      kind = rng.randint(4)
      if kind == 0:
        messages.append(('/camera/image_raw', SimpleNamespace(data='pixels'), stamp))
      elif kind == 1:
        messages.append(('/tf', TFMessage([]), stamp))
      elif kind == 2:
        # The same message type on another topic belongs to something else.
        other = _transform(frames[case['source']], 'elsewhere', stamp, gen.random_pose(rng, 3., 50.))
        messages.append(('/recorded_tf', TFMessage([other]), stamp))
      else:
        messages.append(('/joint_states', SimpleNamespace(transforms_count=1), stamp))
  return messages


def _expected(messages, target, source):
  import rospy
  import tf
  tree = tf.Transformer(True, rospy.Duration(3600.))
  for topic, message, _ in messages:
    if topic == '/tf':
      for t in message.transforms:
        tree.setTransform(t)
  rows, skipped = [], 0
  for topic, message, _ in messages:
    if topic != '/tf':
      skipped += 1
      continue
    for t in message.transforms:
      if t.child_frame_id != source:
        skipped += 1
        continue
      try:
        translation, q = tree.lookupTransform(target, source, t.header.stamp)
      except (tf.LookupException, tf.ConnectivityException, tf.ExtrapolationException):
        note('unresolvable')
        skipped += 1
        continue
      rows.append([t.header.stamp.to_sec()] + list(translation) + list(q))
  return rows, skipped


def _export(case, bag, source, target, out, d):
  if case['main']:
    scripts.run(PROGRAM, ['--bag', bag, '--tf_source_frame', source, '--tf_target_frame', target,
                          '--csv_output_file', out], d)
  else:
    scripts.load(PROGRAM).write_transformation_to_csv_file(bag, target, source, out)


def test_export(case):
  import rosbag
  messages = _recording(case)
  frames = NAMES[case['names']]
  source = frames[case['source']]
  target = frames[case['target']] if case['target'] >= 0 else 'unknown_frame'
  rows, skipped = _expected(messages, target, source)
  with scratch() as d:
    bag, out = os.path.join(d, 'recording.bag'), os.path.join(d, 'poses.csv')
    if case['old_file']:
      with open(out, 'w') as f:
        f.write('1.0, 2.0, 3.0, 4.0, 0.0, 0.0, 0.0, 1.0\n' * 200)
    rosbag.BAGS[bag] = messages
    try:
      printed = io.StringIO()
      with contextlib.redirect_stdout(printed):
        _export(case, bag, source, target, out, d)
    finally:
      del rosbag.BAGS[bag]
      del rosbag.OPENED[:]
    with open(out) as f:
      lines = [line for line in f.read().split('\n') if line]
  require(len(lines) == len(rows), 'number of lines', actual=len(lines), expected=len(rows))
  count = re.findall(r'[Ee]xported\s+(\d+)\b', printed.getvalue())
  if count:
    require(int(count[-1]) == len(rows), 'reported number of poses', actual=count[-1],
            expected=len(rows))
  for line, row in zip(lines, rows):
    values = [float(x) for x in line.split(',')]
    require(len(values) == 8, 'columns', line=line)
    close(values[0], row[0], 1e-7, what='stamp')
    close(values[1:4], row[1:4], 1e-6, what='position')
    close(np.linalg.norm(values[4:8]), 1., 1e-6, what='norm of the quaternion')
    distance = ref.same_rotation(np.array(values[4:8]), np.array(row[4:8]))
    require(distance < 1e-6, 'orientation', actual=values[4:8], expected=row[4:8])
  if rows:
    note('exported')
  if len(rows) > 3 and len(set(r[0] for r in rows)) == 1:
    note('one stamp only')
  return bool(rows) and skipped > 0


SUBS = [
    Sub('export', cases, test_export, 1000, 12000),
]
