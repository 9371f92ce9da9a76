import os
import random
import zipfile

import numpy as np
from hypothesis import strategies as st

from hec import env, gen, motion, ref
from hec.code import DQ, Quat, algorithm_config, calibration, csv_io, time_alignment
from hec.harness import HarnessError, Sub, close, note, require, scratch

PROPERTY = 'C41'
RULE = ('a segment counts as non-trivial if it is a proper part of a recording or its frames, stamps or '
        'signs were changed')
ASSUMPTIONS = ['the transformation and time offset of a recording are the median over many segments of '
               'it; the bounds are about three times the largest deviation seen, because the rigs '
               'were not measured otherwise',
               'recordings whose parts do not determine the transformation are left out']
DATASETS = os.path.join(env.REPO, 'datasets')

# Archive, hand and eye recording, transformation, offset of the stamps, bounds in m, degrees, s.
RECORDINGS = [
    ('robot_arm_w_color_camera_real.zip',
     'robot_arm/robot_arm_complete_bag_color_and_ir_base_link_sr300_hinge.csv',
     'robot_arm/robot_arm_complete_bag_color_and_ir_target_ir.csv',
     [-0.002, -0.020, 0.004, -0.606, 0.372, -0.368, 0.600], 0.022, 0.04, 3., 0.15),
    ('prime_sense_color_w_vicon_1.zip',
     'prime_sense_1/2017-04-09-18-13-10_vicon_prime_sense.csv',
     'prime_sense_1/2017-04-09-18-13-10_W_camera_rgb_image_raw.csv',
     [0.070, 0.043, 0.030, -0.419, 0.365, -0.567, 0.608], -0.004, 0.12, 8., 0.3),
    ('prime_sense_color_w_vicon_2.zip',
     'prime_sense_2/2017-04-09-18-14-38_vicon_prime_sense.csv',
     'prime_sense_2/2017-04-09-18-14-38_W_camera_rgb_image_raw.csv',
     [0.062, 0.050, 0.027, -0.415, 0.370, -0.566, 0.608], 0., 0.12, 6., 0.15),
    ('tango_triplet_hard.zip', 'TANGO_exCALIBur_1/CALIGULA_20170405_195215.csv',
     'TANGO_exCALIBur_1/MARS_20170405_195216.csv',
     [0.949, -0.385, 0.983, -0.011, 0.894, 0.359, 0.267], 125.139, 0.9, 6., 0.2),
    ('tango_triplet_hard.zip', 'TANGO_exCALIBur_1/CALIGULA_20170405_195215.csv',
     'TANGO_exCALIBur_1/NERO_20170405_195219.csv',
     [0.309, -0.175, 0.347, -0.001, 0.701, 0.316, 0.639], 4583.434, 0.9, 10., 0.3),
    ('tango_triplet_hard.zip', 'TANGO_exCALIBur_1/NERO_20170405_195219.csv',
     'TANGO_exCALIBur_1/MARS_20170405_195216.csv',
     [-0.788, -0.202, 0.509, 0.024, 0.389, 0.140, 0.910], -4458.290, 0.9, 10., 0.25),
    ('tango_triplet_easy.zip', 'TANGO_exCALIBur_2/NERO_2017-04-06-18-25-25.csv',
     'TANGO_exCALIBur_2/MARS_2017-04-06-18-23-37.csv',
     [-0.809, -0.170, 0.462, -0.014, 0.382, 0.148, 0.912], -107.719, 0.5, 6., 0.25),
    ('5_falcon.zip', '5_falcon_merged-2017-04-07-12-36-38_falcon_vicon.csv',
     '5_falcon_merged-2017-04-07-12-36-38_imu_odom.csv',
     [-1.161, 1.391, 0.129, -0.006, -0.004, 0.997, 0.074], -0.426, 0.9, 18., 0.2),
]
_loaded = {}


def recording(number):
  """Rows of the hand and the eye recording, read without the code under test."""
  if number not in _loaded:
    out = []
    archive = os.path.join(DATASETS, RECORDINGS[number][0])
    if not os.path.exists(archive):
      raise HarnessError('missing recording ' + archive)
    with zipfile.ZipFile(archive) as z:
      for name in RECORDINGS[number][1:3]:
        out.append(np.array([[float(x) for x in line.split(',')]
                             for line in z.read(name).decode().splitlines() if line.strip()]))
    _loaded[number] = out
  return [rows.copy() for rows in _loaded[number]]


@st.composite
def changes(draw, lever=False):
  """A change of one recording: frames, signs, stamps."""
  return {'world': draw(st.one_of(st.none(), gen.pose())),
          'body': draw(st.one_of(st.none(), gen.unit_quat())) if lever else None,
          'signs': draw(gen.pick('none', 'none', 'all', 'random')),
          'drop': draw(gen.pick(0., 0., 0.02, 0.1)),
          'shift': draw(st.one_of(st.just(0.), gen.fixed(-5., 5., 3), gen.fixed(-1e4, 1e4, 2)))}


def part(case):
  """The segment of both recordings."""
  out = []
  for rows in recording(case['recording']):
    begin = rows[0, 0] + case['begin'] * (1. - case['share']) * (rows[-1, 0] - rows[0, 0])
    end = begin + case['share'] * (rows[-1, 0] - rows[0, 0])
    out.append(rows[(rows[:, 0] >= begin) & (rows[:, 0] <= end)])
  return out


def change(rows, c, rng):
  """A changed recording, and the pose of the new body frame in the old one."""
  rows = rows.copy()
  body = np.array([0., 0., 0., 0., 0., 0., 1.])
  if c['drop']:
    keep = rng.uniform(size=len(rows)) >= c['drop']
    keep[0] = keep[-1] = True
    rows = rows[keep]
  if c['body'] is not None:
    body[3:7] = ref.qunit(c['body'])
    rows[:, 4:8] = motion.multiply(rows[:, 4:8], np.tile(body[3:7], (len(rows), 1)))
  if c['world'] is not None:
    world = np.array(c['world'], dtype=float)
    world[0:3] = np.clip(world[0:3], -20., 20.)
    rows[:, 1:4] = world[0:3] + rows[:, 1:4].dot(ref.rot(world[3:7]).T)
    rows[:, 4:8] = motion.multiply(np.tile(world[3:7], (len(rows), 1)), rows[:, 4:8])
  if c['signs'] == 'all':
    rows[:, 4:8] *= -1.
  elif c['signs'] == 'random':
    rows[:, 4:8] *= rng.choice([-1., 1.], len(rows))[:, None]
  rows[:, 0] += c['shift']
  rows[:, 4:8] /= np.linalg.norm(rows[:, 4:8], axis=1)[:, None]
  return rows, body


def read(rows):
  """The rows as the code under test reads them from a file."""
  with scratch() as d:
    path = os.path.join(d, 'poses.csv')
    with open(path, 'w') as f:
      f.write('\n'.join(', '.join(repr(float(x)) for x in row) for row in rows) + '\n')
    poses, stamps, quaternions = csv_io.read_time_stamped_poses_from_csv_file(path)
  require(len(stamps) == len(rows), 'number of poses read', expected=len(rows), actual=len(stamps))
  return poses, stamps, quaternions


def offset_of(hand, eye, filtering=None):
  return time_alignment.calculate_time_offset(
      hand[1], hand[2], eye[1], eye[2], filtering or algorithm_config.get_basic_config()[0])


def aligned(hand, eye, offset):
  return time_alignment.compute_aligned_poses(hand[0], eye[0], offset)


def thin(rows, poses):
  return rows[::max(1, len(rows) // poses)]


def config(name):
  return {'RC': lambda: algorithm_config.get_RANSAC_classic_config(False),
          'RCP': lambda: algorithm_config.get_RANSAC_classic_config(True),
          'RS': lambda: algorithm_config.get_RANSAC_scalar_part_inliers_config(False),
          'RSP': lambda: algorithm_config.get_RANSAC_scalar_part_inliers_config(True),
          'ES': algorithm_config.get_exhaustive_search_scalar_part_inliers_config,
          'B': lambda: algorithm_config.get_baseline_config(True)}[name]()[1]


def calibrate(hand, eye, name, number):
  random.seed(number)
  np.random.seed(number % 2 ** 31)
  streams = [calibration.align_paths_at_index([DQ(row[1:8]) for row in rows]) for rows in (hand, eye)]
  settings = config(name)
  if name == 'B':
    return calibration.compute_hand_eye_calibration_BASELINE(streams[0], streams[1], settings)
  return calibration.compute_hand_eye_calibration_RANSAC(streams[0], streams[1], settings)


# Parts of this recording have too few distinct screw axes.
OFFSET_ONLY = 6


@st.composite
def segments(draw):
  return {'recording': draw(gen.pick(*[i for i in range(len(RECORDINGS)) if i != OFFSET_ONLY])),
          'share': draw(gen.fixed(0.6, 1., 2)), 'begin': draw(gen.fixed(0., 1., 2)),
          'poses': draw(st.integers(60, 110)), 'algorithm': draw(gen.pick('ES', 'RSP', 'RS')),
          'hand': draw(changes(True)), 'eye': draw(changes(True)), 'seed': draw(gen.seed())}


def changed(case):
  return any(case[s][k] not in (None, 'none', 0.) for s in ('hand', 'eye') for k in case[s])


def test_segments(case):
  """Recording files to transformation."""
  expected, offset, metres, degrees, seconds = RECORDINGS[case['recording']][3:8]
  rng = np.random.RandomState(case['seed'])
  rows = part(case)
  hand, body_h = change(rows[0], case['hand'], rng)
  eye, body_e = change(rows[1], case['eye'], rng)
  X = np.array(expected)
  X[3:7] /= np.linalg.norm(X[3:7])
  X = ref.pose_mul(ref.pose_mul(ref.pose_inv(body_h), X), body_e)
  shift = case['eye']['shift'] - case['hand']['shift']
  hand, eye = read(hand), read(eye)
  found = offset_of(hand, eye)
  close(found, offset + shift, seconds, what='time offset')
  poses = [thin(p, case['poses']) for p in aligned(hand, eye, found)]
  result = calibrate(poses[0], poses[1], case['algorithm'], case['seed'])
  if not result[0] and case['algorithm'] != 'ES':
    note('random search without success')
    return False
  require(result[0], 'no calibration found')
  error = ref.transform_error(ref.mat(result[1].to_pose()), ref.mat(X))
  note(case['algorithm'])
  require(error[0] < metres and error[1] < degrees, 'calibration differs from the one of the recording',
          expected=X.tolist(), actual=result[1].to_pose().tolist(), error=error)
  return case['share'] < 1. or changed(case)


@st.composite
def offsets(draw):
  return {'recording': draw(st.integers(0, len(RECORDINGS) - 1)),
          'share': draw(gen.fixed(0.6, 1., 2)), 'begin': draw(gen.fixed(0., 1., 2)),
          'hand': draw(changes(True)), 'eye': draw(changes(True)),
          'swap': draw(st.booleans()), 'seed': draw(gen.seed())}


def test_offsets(case):
  """Time offsets of the recordings and of their mirror images in time order."""
  offset, seconds = RECORDINGS[case['recording']][4], RECORDINGS[case['recording']][7]
  rng = np.random.RandomState(case['seed'])
  rows = part(case)
  hand = read(change(rows[0], case['hand'], rng)[0])
  eye = read(change(rows[1], case['eye'], rng)[0])
  expected = offset + case['eye']['shift'] - case['hand']['shift']
  if case['swap']:
    note('swapped')
    hand, eye, expected = eye, hand, -expected
  close(offset_of(hand, eye), expected, seconds, what='time offset')
  return case['share'] < 1. or changed(case)


@st.composite
def frames(draw):
  return {'recording': draw(st.integers(0, len(RECORDINGS) - 1)),
          'share': draw(gen.fixed(0.1, 0.6, 2)), 'begin': draw(gen.fixed(0., 1., 2)),
          'error': draw(gen.fixed(-0.3, 0.3, 3)), 'poses': draw(st.integers(20, 60)),
          'hand': draw(changes()), 'eye': draw(changes()), 'seed': draw(gen.seed())}


def _equal_poses(a, b, what):
  close(a[:, 0:3], b[:, 0:3], 2e-8, what=what + ' position')
  close(np.abs(np.sum(a[:, 3:7] * b[:, 3:7], axis=1)), np.ones(len(a)), 1e-11, what=what + ' rotation')


def test_frames(case):
  """World frames and signs change nothing but the frame of the aligned poses."""
  rng = np.random.RandomState(case['seed'])
  rows = part(case)
  offset = RECORDINGS[case['recording']][4] + case['error']
  plain, other = [], []
  for name, stream in zip(('hand', 'eye'), rows):
    c = dict(case[name], drop=0., shift=0.)
    plain.append(read(change(stream, dict(c, world=None, signs='none'), rng)[0]))
    other.append(read(change(stream, c, rng)[0]))
  first = aligned(plain[0], plain[1], offset)
  second = aligned(other[0], other[1], offset)
  require(len(first[0]) == len(first[1]) == len(second[0]) == len(second[1]), 'number of aligned poses',
          lengths=[len(x) for x in first + second])
  for name, a, b in zip(('hand', 'eye'), first, second):
    close(a[:, 0], b[:, 0], 1e-9, what='stamps')
    if case[name]['world'] is not None:
      world = dict(case[name], drop=0., shift=0., signs='none')
      a = change(a, world, rng)[0]
    _equal_poses(a[:, 1:8], b[:, 1:8], 'aligned ' + name)
  first = [thin(p, case['poses']) for p in first]
  second = [thin(p, case['poses']) for p in second]
  answers = []
  for poses in (first, second):
    try:
      result = calibrate(poses[0], poses[1], 'ES', case['seed'])
      answers.append((bool(result[0]), result[1].to_pose() if result[0] else None, result[3]))
    except AssertionError:
      answers.append('rejected')
  if 'rejected' in answers:
    require(answers[0] == answers[1], 'rejected in one frame only', answers=str(answers))
    note('rejected')
    return False
  require(answers[0][0] == answers[1][0] and answers[0][2] == answers[1][2],
          'result depends on the world frames', answers=str(answers))
  if not answers[0][0]:
    note('not solved')
    return False
  a, b = answers[0][1], answers[1][1]
  scale = 1. + np.linalg.norm(a[0:3])
  close(b[0:3], a[0:3], 1e-5 * scale, what='position')
  close(abs(np.dot(a[3:7], b[3:7])), 1., 1e-10, what='rotation')
  return changed(case)


SUBS = [
    Sub('segments', segments, test_segments, 140, 2500, 90),
    Sub('offsets', offsets, test_offsets, 200, 3000, 90),
    Sub('frames', frames, test_frames, 140, 2500, 90),
]
