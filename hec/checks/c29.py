import os

from hypothesis import strategies as st

from hec import env, gen, scripts
from hec.harness import Sub, note, require, scratch

PROPERTY = 'C29'
RULE = ('a configuration counts as non-trivial if it starts at least two programs; a target '
        'extraction always counts')
ASSUMPTIONS = ['topic names start with a slash and frame names contain none',
               'the started programs are played by a stand-in that records their command line']
CONFIGURED = os.path.join(env.BIN, 'bag_to_csv_with_config.py')
INTERFACE = os.path.join(env.BIN, 'target_extractor_interface.py')

word = gen.pick('cam0', 'image_raw', 'world', 'hand', 'left arm', 'tool-3', 'x', 'W', 'target.v2')
frame = gen.pick('world', 'hand', 'camera_link', 'left arm', 'base-1', 'tag.0', 'W')
directory = gen.pick('', 'bags/', '/data/sets/', './', 'my bags/')


@st.composite
def topic(draw):
  return '/' + '/'.join(draw(st.lists(word, min_size=1, max_size=3)))


@st.composite
def bags(draw):
  pairs = draw(gen.count(0, 3, 8))
  cameras = draw(gen.count(0, 3, 8))
  stem = draw(gen.pick('recording', 'run.1', 'run.2', '2017-05-01-12-00', 'with space'))
  out = {'name': stem + '.bag', 'bag_path': draw(directory), 'intrinsics_path': draw(directory),
         'target_config_path': draw(directory), 'tf_frames': None, 'cameras': None,
         'target': draw(gen.pick('target.yaml', 'april_6x6.yaml'))}
  if pairs or draw(st.booleans()):
    out['tf_frames'] = {'source': [draw(frame) for _ in range(pairs)],
                        'target': [draw(frame) for _ in range(pairs)]}
  if cameras or draw(st.booleans()):
    out['cameras'] = {'cam_topics': [draw(topic()) for _ in range(cameras)],
                      'cam_intrinsics': [draw(gen.pick('cam.yaml', 'left.yaml', 'r 2.yaml'))
                                         for _ in range(cameras)]}
  return out


@st.composite
def cases(draw):
  wrong = draw(gen.pick(*[None] * 9 + ['frames', 'cameras']))
  return {'bags': [draw(bags()) for _ in range(draw(gen.count(1, 3, 6)))], 'wrong': wrong}


def _expected(bag):
  stem = bag['name'][:-len('.bag')]
  recording = bag['bag_path'] + bag['name']
  calls = []
  frames = bag['tf_frames'] or {'source': [], 'target': []}
  for source, target in zip(frames['source'], frames['target']):
    calls.append(('tf_to_csv.py', {
        'bag': recording, 'tf_source_frame': source, 'tf_target_frame': target,
        'csv_output_file': '{}_{}_{}.csv'.format(stem, target, source)}))
  cameras = bag['cameras'] or {'cam_topics': [], 'cam_intrinsics': []}
  for name, intrinsics in zip(cameras['cam_topics'], cameras['cam_intrinsics']):
    calls.append(('target_extractor_interface.py', {
        'bag': recording, 'image_topic': name,
        'calib_file_camera': bag['intrinsics_path'] + intrinsics,
        'calib_file_target': bag['target_config_path'] + bag['target'],
        'output_file': '{}_W_{}.csv'.format(stem, name[1:].replace('/', '_'))}))
  return calls


def _compare(calls, expected, package='hand_eye_calibration'):
  require([c['program'] for c in calls] == [e[0] for e in expected], 'started programs',
          actual=[c['program'] for c in calls], expected=[e[0] for e in expected])
  for call, (_, options) in zip(calls, expected):
    require(call['package'] == package, 'package', actual=call['package'])
    actual = scripts.options(call['argv'])
    require(len(actual) == len(dict(actual)), 'an option is given twice', options=actual)
    require(dict(actual) == options, 'options', actual=dict(actual), expected=options)


def test_configured(case):
  import yaml
  with scratch() as d:
    config = [dict(b) for b in case['bags']]
    if case['wrong']:
      # The last recording has one frame or camera more than it should have.
      frames = dict(config[-1]['tf_frames'] or {'source': [], 'target': []})
      cameras = dict(config[-1]['cameras'] or {'cam_topics': [], 'cam_intrinsics': []})
      if case['wrong'] == 'frames':
        frames['source'] = frames['source'] + ['hand']
        config[-1]['tf_frames'] = frames
      else:
        cameras['cam_topics'] = cameras['cam_topics'] + ['/cam']
        config[-1]['cameras'] = cameras
    path = os.path.join(d, 'config.yaml')
    with open(path, 'w') as f:
      yaml.safe_dump({'bags': config}, f)
    ros = scripts.Ros(os.path.join(d, 'ros'), {})
    work = os.path.join(d, 'work')
    os.makedirs(work)
    if case['wrong']:
      require(scripts.fails(CONFIGURED, ['--yaml_config_file', path], work, ros),
              'lists of different length accepted', wrong=case['wrong'])
      note('refused')
      return True
    scripts.run(CONFIGURED, ['--yaml_config_file', path], work, ros)
    calls = ros.calls()
  expected = [c for b in case['bags'] for c in _expected(b)]
  _compare(calls, expected)
  for c in calls:
    note(c['program'])
  return len(expected) > 1


@st.composite
def interface_cases(draw):
  return {'bag': draw(directory) + draw(gen.pick('recording.bag', 'run.1.bag', 'a b.bag')),
          'topic': draw(topic()), 'camera': draw(directory) + draw(gen.pick('cam.yaml', 'c 2.yaml')),
          'output': draw(gen.pick('poses.csv', 'Run2_W_CAM.csv', 'run_W_cam.csv', 'with space.csv')),
          'vertical': draw(st.integers(1, 20)), 'horizontal': draw(st.integers(1, 20)),
          'border': draw(st.integers(1, 4)), 'size': draw(gen.fixed(0.001, 1., 4)),
          'gap': draw(gen.fixed(0.0001, 0.5, 5)), 'extra': draw(st.booleans()),
          'times': draw(gen.pick(1, 1, 2))}



def _check_extraction(call, case):
  require(call['program'] == 'target_extractor' and
          call['package'] == 'hand_eye_calibration_target_extractor', 'program', call=call['argv'])
  actual = scripts.options(call['argv'])
  require(len(actual) == len(dict(actual)), 'an option is given twice', options=actual)
  actual = dict(actual)
  for k, v in (('bag', case['bag']), ('topic', case['topic']), ('eval_camera_yaml', case['camera']),
               ('camera_pose_T_C_G_output_file_timestamped', case['output'])):
    require(actual.get(k) == v, 'option', option=k, actual=actual.get(k), expected=v)
  # Every extraction needs its own file.
  unstamped = actual.get('camera_pose_T_C_G_output_file')
  require(unstamped is not None and unstamped != case['output'] and
          os.path.splitext(case['output'])[0] in unstamped, 'output file without stamps',
          actual=unstamped, expected=case['output'])
  for k, v in (('april_tag_number_vertical', case['vertical']),
               ('april_tag_number_horizontal', case['horizontal']),
               ('april_tag_pixel_boarder', case['border']), ('april_tag_size_m', case['size']),
               ('april_tag_gap_size_m', case['gap'])):
    require(k in actual and float(actual[k]) == v, 'tag geometry', option=k, actual=actual.get(k),
            expected=v)
  # Readers of the pose files expect no header.
  require(str(actual.get('write_csv_header', 'false')).lower() in ('false', 'f', '0', 'no', 'n'),
          'header in the pose file', actual=actual.get('write_csv_header'))


def _write_target(path, case):
  import yaml
  content = {'april_tag_number_vertical': case['vertical'],
             'april_tag_number_horizontal': case['horizontal'],
             'april_tag_number_pixel_boarder': case['border'], 'april_tag_size_m': case['size'],
             'april_tag_gap_size_m': case['gap']}
  if case['extra']:
    content['comment'] = 'printed in March'
  with open(path, 'w') as f:
    yaml.safe_dump(content, f)


def test_interface(case):
  with scratch() as d:
    target = os.path.join(d, 'target.yaml')
    _write_target(target, case)
    ros = scripts.Ros(os.path.join(d, 'ros'), {})
    work = os.path.join(d, 'work')
    os.makedirs(work)
    for _ in range(case['times']):
      ros.reset()
      scripts.run(INTERFACE, ['--bag', case['bag'], '--image_topic', case['topic'],
                              '--calib_file_camera', case['camera'], '--calib_file_target', target,
                              '--output_file', case['output']], work, ros)
      calls = ros.calls()
      require(len(calls) == 1, 'number of extractions', actual=len(calls))
      _check_extraction(calls[0], case)
  return True


@st.composite
def chain_cases(draw):
  out = draw(interface_cases())
  out['topics'] = draw(st.lists(topic(), min_size=1, max_size=2))
  return out


def test_chain(case):
  """From the configuration down to the extractor."""
  import yaml
  with scratch() as d:
    _write_target(os.path.join(d, 'target.yaml'), case)
    n = len(case['topics'])
    config = {'bags': [{
        'name': 'recording.bag', 'bag_path': d + '/', 'intrinsics_path': d + '/',
        'target_config_path': d + '/', 'target': 'target.yaml', 'tf_frames': None,
        'cameras': {'cam_topics': case['topics'],
                    'cam_intrinsics': ['cam{}.yaml'.format(i) for i in range(n)]}}]}
    path = os.path.join(d, 'config.yaml')
    with open(path, 'w') as f:
      yaml.safe_dump(config, f)
    ros = scripts.Ros(os.path.join(d, 'ros'), {'real': [env.BIN]})
    work = os.path.join(d, 'work')
    os.makedirs(work)
    scripts.run(CONFIGURED, ['--yaml_config_file', path], work, ros)
    calls = [c for c in ros.calls() if c['program'] == 'target_extractor']
    require(len(calls) == n, 'number of extractions', actual=len(calls), expected=n)
    for i, (call, name) in enumerate(zip(calls, case['topics'])):
      _check_extraction(call, dict(
          case, bag=d + '/recording.bag', topic=name, camera='{}/cam{}.yaml'.format(d, i),
          output='recording_W_{}.csv'.format(name[1:].replace('/', '_'))))
  return True


SUBS = [
    Sub('configured', cases, test_configured, 200, 2000),
    Sub('interface', interface_cases, test_interface, 200, 2000),
    Sub('chain', chain_cases, test_chain, 40, 400),
]
