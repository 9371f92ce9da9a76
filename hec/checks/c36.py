import os

import numpy as np
from hypothesis import strategies as st

from hec import cpp, gen, ref
from hec.harness import Sub, close, note, require, scratch

PROPERTY = 'C36'
RULE = ('a case counts as non-trivial if at least one line is written and at least one image of '
        'the topic gives none')
ASSUMPTIONS = [
    'the program is compiled against stand-ins of rosbag, cv_bridge, OpenCV and aslam; the detector '
    'reads a code from the image and finds the corners the case lists for it',
    'the camera pointer of the stand-in creates its camera on first use, see the known finding']
SOURCE = 'hand_eye_calibration_target_extractor/src/target_extractor.cc'
BITS = 10
# The topic to extract and another one.
TOPICS = (('/cam0/image_raw', '/cam1/image_raw'), ('/cam1/image_raw', '/cam0/image_raw'),
          ('/stereo/left', '/stereo/left_rect'), ('/rig/stereo/left', '/stereo/left'))
CAMERA = (400., 320., 240., 640., 480.)


def prepare(directory):
  cpp.build(SOURCE, directory)


@st.composite
def observations(draw, code, corners):
  n = draw(st.one_of(gen.count(4, 10, 60), st.integers(1, 3)))
  ids = draw(st.lists(st.integers(0, corners - 1), min_size=min(n, corners),
                      max_size=min(n, corners), unique=True))
  n = len(ids)
  pixels = draw(st.lists(st.tuples(gen.fixed(0., 640., 2), gen.fixed(0., 480., 2)), min_size=n,
                         max_size=n))
  # The first corner tells the observations apart.
  pixels = [[float(code), pixels[0][1]]] + [list(p) for p in pixels[1:]]
  inliers = draw(st.one_of(
      st.lists(st.integers(0, n - 1), unique=True, max_size=n), st.just(list(range(n))),
      # Shares at and next to the thresholds.
      st.tuples(gen.pick(0., 0.25, 0.4, 0.5, 0.9, 0.95), gen.pick(0, 1)).map(
          lambda v: list(range(min(n, int(v[0] * n) + v[1]))))))
  pose = draw(gen.pose())
  if draw(st.booleans()):
    pose = _looking_at(pose, draw(gen.fixed(0.5, 3.)))
  return {'code': code, 'ids': ids, 'pixels': pixels, 'inliers': inliers,
          'success': draw(gen.pick(True, True, True, False)), 'pose': pose}


def _looking_at(pose, distance):
  """Puts the camera where it sees the target."""
  q = np.array(pose[3:7])
  back = ref.rot(q).dot([0., 0., -distance])
  return [float(v) for v in back] + [float(v) for v in q]


@st.composite
def cases(draw):
  rows, cols = draw(st.integers(1, 6)), draw(st.integers(1, 6))
  known = draw(st.lists(st.integers(1, 2 ** BITS - 1), unique=True,
                        min_size=draw(gen.pick(3, 2, 4, 0)), max_size=4))
  outcomes = [draw(observations(code, 4 * rows * cols)) for code in known]
  count = draw(st.one_of(st.integers(3, 8), gen.count(4, 12, 40), st.integers(0, 2)))
  messages = []
  base = draw(gen.pick(0, 1466012345, 100))
  for i in range(count):
    encoding = draw(gen.pick('mono8', 'mono16', '16UC1', 'rgb8', 'mono8'))
    if encoding in ('mono16', '16UC1'):
      low = draw(st.integers(0, 60000))
      high = draw(st.one_of(st.integers(low + 10, min(65535, low + 300)),
                            st.integers(low + 10, 65535)))
    else:
      low, high = draw(st.integers(0, 60)), draw(st.integers(190, 255))
    messages.append({
        'topic': draw(gen.pick(0, 0, 0, 1)),
        'stamp': [base + draw(st.integers(0, 5)), draw(st.integers(0, 999999999))],
        'encoding': encoding, 'big': draw(st.booleans()), 'low': low, 'high': high,
        'padding': draw(gen.pick(0, 0, 3)), 'width': draw(gen.pick(3, 4, 6)),
        'jitter': draw(st.integers(0, 1000)),
        'code': draw(st.sampled_from(known + known + [0, 77] if known else [0, 77]))})
  return {
      'messages': messages * draw(gen.pick(*[1] * 39 + [20])), 'outcomes': outcomes, 'geometry': [rows, cols],
      'tag': draw(gen.fixed(0.01, 0.3)), 'gap': draw(gen.fixed(0.001, 0.1)),
      'border': draw(st.integers(0, 3)),
      'threshold': draw(gen.pick(None, 0.5, 0.25, 0., 0.9, 0.95, 1.)), 'header': draw(st.booleans()),
      'topics': draw(st.sampled_from(range(len(TOPICS)))), 'old': draw(st.booleans()),
      'mm': draw(st.booleans()), 'names': draw(st.booleans()), 'draw': draw(st.booleans()),
      'evaluate': draw(gen.pick(True, True, True, True, False)),
      'stranger': draw(st.integers(0, 24)) == 20,
      'trouble': 'bag' if draw(st.integers(0, 24)) == 21 else ''}


def _pixels(m):
  """The grey values of an image showing the code of the message."""
  span = m['high'] - m['low']
  values = [m['low'], m['high']]
  for i in range(BITS):
    bit = (m['code'] >> (BITS - 1 - i)) & 1
    shade = int(0.3 * span * ((m['jitter'] * (i + 3)) % 11) / 10.)
    values.append(m['high'] - shade if bit else m['low'] + shade)
  return values


def _message_line(m, topic, image=True):
  values = _pixels(m)
  width = m['width']
  data = []
  for r in range(len(values) // width):
    row = []
    for v in values[r * width:(r + 1) * width]:
      if m['encoding'] in ('mono16', '16UC1'):
        row += [v >> 8, v & 255] if m['big'] else [v & 255, v >> 8]
      elif m['encoding'] == 'rgb8':
        row += [v, v, v]
      else:
        row.append(v)
    data.append(row + [0] * m['padding'])
  words = [topic, 'sensor_msgs/Image' if image else 'sensor_msgs/Imu', m['stamp'][0] + 1, 5,
           m['stamp'][0], m['stamp'][1], m['encoding'], int(m['big']), len(data), width,
           len(data[0])]
  return ' '.join(str(w) for w in words + sum(data, []))


def _write(path, lines):
  with open(path, 'w') as f:
    for line in lines:
      f.write(line + '\n')


def _rows(path, header, columns):
  require(os.path.isfile(path), 'a result file is missing', name=os.path.basename(path))
  with open(path) as f:
    lines = f.read().splitlines()
  if header:
    require(lines and not _numeric(lines[0]), 'the heading is missing', path=path)
    require(len(lines[0].split(',')) == columns, 'columns of the heading', line=lines[0])
    lines = lines[1:]
  require(all(_numeric(l) for l in lines), 'text in the table', lines=lines)
  rows = [[float(v) for v in l.split(',')] for l in lines]
  require(all(len(r) == columns for r in rows), 'number of columns', lines=lines)
  return rows


def _numeric(line):
  try:
    [float(v) for v in line.split(',')]
    return True
  except ValueError:
    return False


def _point(case, corner):
  columns = 2 * case['geometry'][1]
  r, c = divmod(corner, columns)
  pitch = case['tag'] + case['gap']
  return np.array([(c // 2) * pitch + (c % 2) * case['tag'],
                   (r // 2) * pitch + (r % 2) * case['tag'], 0.])


def _check_poses(rows, expected, first, scale, what):
  require(len(rows) == len(expected), what + ': number of lines', rows=rows, expected=len(expected))
  for row, (key, o) in zip(rows, expected):
    close([row[0]], [first(key)], atol=5e-7, what=what + ': first column')
    pose = np.array(o['pose'])
    close(row[1:4], scale * pose[0:3], atol=1e-9 * scale * (1. + np.linalg.norm(pose[0:3])),
          what=what + ': position')
    close([np.linalg.norm(row[4:8])], [1.], what=what + ': norm of the quaternion')
    require(row[7] >= 0., what + ': negative real part', row=row)
    close(ref.rot(np.array(row[4:8])), ref.rot(pose[3:7]), atol=1e-8, what=what + ': rotation')


def test_extraction(case):
  outcomes = {o['code']: o for o in case['outcomes']}
  topics = TOPICS[case['topics']]
  images = [m for m in case['messages'] if m['topic'] == 0]
  detected = [(i, outcomes[m['code']]) for i, m in enumerate(images) if m['code'] in outcomes]
  threshold = 0.4 if case['threshold'] is None else case['threshold']
  good = [(i, o) for i, o in detected
          if o['success'] and len(o['inliers']) / float(len(o['ids'])) > threshold]
  with scratch() as d:
    lines = [_message_line(m, topics[m['topic']]) for m in case['messages']]
    stranger = case['stranger'] and case['messages']
    if stranger:
      lines.append(_message_line(case['messages'][0], topics[0], image=False))
    if case['trouble'] != 'bag':
      _write(os.path.join(d, 'run.bag'), lines)
    _write(os.path.join(d, 'outcomes'), [' '.join(repr(v) for v in (
        [o['code'], len(o['ids'])] + sum(([i] + p for i, p in zip(o['ids'], o['pixels'])), []) +
        [int(o['success']), len(o['inliers'])] + o['inliers'] + o['pose'][3:7] + o['pose'][0:3]))
        for o in case['outcomes']])
    _write(os.path.join(d, 'camera.yaml'), [' '.join(repr(v) for v in CAMERA)])
    names = {'': 'camera_pose.csv', '_timestamped': 'camera_poses_timestamped.csv',
             '_mm': 'camera_pose_mm.csv', '_mm_timestamped': 'camera_poses_mm_timestamped.csv'}
    words = ['--bag=' + os.path.join(d, 'run.bag'), '--topic=' + topics[0],
             '--april_tag_number_vertical={}'.format(case['geometry'][0]),
             '--april_tag_number_horizontal={}'.format(case['geometry'][1]),
             '--april_tag_size_m={!r}'.format(case['tag']),
             '--april_tag_gap_size_m={!r}'.format(case['gap']),
             '--april_tag_pixel_boarder={}'.format(case['border']),
             '--write_csv_header={}'.format('true' if case['header'] else 'false'),
             '--draw_extraction={}'.format('true' if case['draw'] else 'false')]
    if case['evaluate']:
      words.append('--eval_camera_yaml=' + os.path.join(d, 'camera.yaml'))
    if case['mm']:
      words.append('--output_position_in_mm')
    if case['threshold'] is not None:
      words.append('--inlier_ratio_for_good_camera_pose={!r}'.format(case['threshold']))
    if case['names']:
      names = dict((k, 'poses{}.txt'.format(k)) for k in names)
      words += ['--camera_pose_T_C_G_output_file{}={}'.format(k, os.path.join(d, v))
                for k, v in names.items()]
    if case['old'] and case['evaluate']:
      # Results of an earlier run.
      for name in [names[''], names['_timestamped'], 'corner_reprojections.csv'] + (
          [names['_mm'], names['_mm_timestamped']] if case['mm'] else []):
        _write(os.path.join(d, name), ['7, 1, 2, 3, 0, 0, 0, 1'] * 500)
    status = cpp.run(words, d, {'HEC_TRACE': os.path.join(d, 'trace'),
                                'HEC_OBSERVATIONS': os.path.join(d, 'outcomes')})
    if case['trouble'] == 'bag' or stranger:
      note('refused')
      require(status != 0, 'a recording that cannot be processed was accepted')
      return False
    require(status == 0, 'the program failed', status=status)
    with open(os.path.join(d, 'trace')) as f:
      trace = [l.split() for l in f.read().splitlines()]
    target = [l[1:] for l in trace if l[0] == 'target']
    require(len(target) == 1, 'targets', target=target)
    close([float(v) for v in target[0]],
          case['geometry'] + [case['tag'], case['gap'], case['border']], what='target geometry')
    seen = [int(l[1]) for l in trace if l[0] == 'image']
    require(seen == [m['code'] for m in images], 'images given to the detector', seen=seen,
            expected=[m['code'] for m in images])
    if case['draw']:
      shown = [l[0] for l in trace if l[0] in ('drawn', 'text', 'shown')]
      require(shown == sum(([('drawn' if m['code'] in outcomes else 'text'), 'shown']
                            for m in images), []), 'drawings', shown=shown)
    paths = dict((k, os.path.join(d, v)) for k, v in names.items())
    if not case['evaluate']:
      note('detection only')
      require(not any(os.path.exists(p) and _numeric_lines(p) for p in paths.values()),
              'poses without a camera')
      return False
    camera = [l for l in trace if l[0] == 'camera' and l[1] != 'pointer']
    require(camera == [['camera', '1', os.path.join(d, 'camera.yaml')]], 'camera file', camera=camera)
    estimations = [[float(v) for v in l[1:]] for l in trace if l[0] == 'pnp']
    require(len(estimations) == len(detected), 'number of pose estimations')
    for given, (_, o) in zip(estimations, detected):
      points = sum((list(p) + list(_point(case, i)) for i, p in zip(o['ids'], o['pixels'])), [])
      close(given, [1., CAMERA[0], len(o['ids'])] + points, what='given to the pose estimation')

    stamps = [m['stamp'][0] + 1e-9 * m['stamp'][1] for m in images]
    tables = [('', 1., lambda i: i), ('_timestamped', 1., lambda i: stamps[i])]
    if case['mm']:
      tables += [('_mm', 1000., lambda i: i), ('_mm_timestamped', 1000., lambda i: stamps[i])]
    else:
      require(not os.path.exists(paths['_mm']) and not os.path.exists(paths['_mm_timestamped']),
              'a file in millimetres was not asked for')
    for key, scale, first in tables:
      _check_poses(_rows(paths[key], case['header'], 8), good, first, scale, 'poses' + key)
    _check_corners(case, _rows(os.path.join(d, 'corner_reprojections.csv'), case['header'], 9),
                   detected)
  if len(detected) > len(good):
    note('detected without a good pose')
  if any(m['encoding'] in ('mono16', '16UC1') for m in images):
    note('16 bit')
  if any(o['success'] and len(o['inliers']) / float(len(o['ids'])) == threshold
         for _, o in detected):
    note('at the threshold')
  return 0 < len(good) < len(images)


def _numeric_lines(path):
  with open(path) as f:
    return any(_numeric(l) for l in f.read().splitlines())


def _check_corners(case, rows, detected):
  expected = [(i, o, k) for i, o in detected for k in range(len(o['ids']))]
  require(len(rows) == len(expected), 'corners: number of lines', rows=len(rows),
          expected=len(expected))
  for row, (i, o, k) in zip(rows, expected):
    close(row[0:4], [i, o['ids'][k], o['success'], k in o['inliers']], what='corner')
    close(row[5:7], o['pixels'][k], atol=1e-9, rtol=1e-5, what='measured corner')
    if not o['success']:
      continue
    m = ref.inv(ref.mat(o['pose']))
    p = m[0:3, 0:3].dot(_point(case, o['ids'][k])) + m[0:3, 3]
    if abs(p[2]) < 1e-3:
      continue
    pixel = CAMERA[0] * p[0:2] / p[2] + CAMERA[1:3]
    if min(np.min(np.abs(pixel)), np.min(np.abs(pixel - CAMERA[3:5]))) > 1e-3:
      require(bool(row[4]) == bool(p[2] > 0. and np.all(pixel >= 0.) and np.all(pixel < CAMERA[3:5])),
              'visibility of a corner', row=row, pixel=pixel.tolist(), depth=p[2])
      note('visible' if row[4] else 'not visible')
    close(row[7:9], pixel, atol=1e-4, rtol=2e-5, what='reprojected corner')


class PointerNotSet(object):
  text = ('target_extractor.cc loads the camera calibration through a camera pointer that was '
          'never set, so evaluating a camera dereferences a null pointer')

  @staticmethod
  def reproduces():
    with scratch() as d:
      _write(os.path.join(d, 'run.bag'), [])
      _write(os.path.join(d, 'outcomes'), [])
      _write(os.path.join(d, 'camera.yaml'), [' '.join(repr(v) for v in CAMERA)])
      cpp.run(['--bag=run.bag', '--eval_camera_yaml=camera.yaml'], d,
              {'HEC_TRACE': os.path.join(d, 'trace'),
               'HEC_OBSERVATIONS': os.path.join(d, 'outcomes')})
      with open(os.path.join(d, 'trace')) as f:
        return 'camera pointer not set' in f.read()


KNOWN = [PointerNotSet]
SUBS = [Sub('extraction', cases, test_extraction, 2000, 30000)]
