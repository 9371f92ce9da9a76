import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import DQ, test_helpers
from hec.harness import Sub, close, note, require

PROPERTY = 'C38'
RULE = ('a path counts as non-trivial if it has at least three poses and the transformation is not '
        'the identity; a random transformation always counts')
ASSUMPTIONS = ['both paths start at the identity, the variant that does not is not usable',
               'random quaternions and translations come from the transformation library']


@st.composite
def cases(draw):
  return {'seed': draw(gen.seed()), 'n': draw(gen.count(2, 60, 300)), 'X': draw(gen.pose()),
          'world': draw(gen.pose()), 'spoil': draw(gen.pick('', '', 'hand', 'eye', 'both')),
          'how': draw(gen.pick('noise', 'outliers', 'both')),
          'probability': draw(gen.pick(0., 0.1, 0.5, 1.)),
          'sigma': draw(gen.pick(0., 1e-3, 0.05))}


def _unit(dqs, what):
  for dq in dqs:
    r, t = dq.dq[0:4], dq.dq[4:8]
    require(dq.dq.shape == (8,) and not np.any(np.isnan(dq.dq)), what + ': components',
            dq=dq.dq.tolist())
    close(np.linalg.norm(r), 1., 1e-7, what=what + ': norm')
    close(np.dot(r, t), 0., 1e-6 * (1. + np.linalg.norm(t)), what=what + ': orthogonality')


def _options(case):
  out = {}
  for name, key in (('hand', 'B_H'), ('eye', 'W_E')):
    if case['spoil'] not in (name, 'both'):
      continue
    if case['how'] != 'noise':
      out['include_outliers_' + key] = True
      out['outlier_probability_' + key] = case['probability']
    if case['how'] != 'outliers':
      out['include_noise_' + key] = True
      out['noise_sigma_trans_' + key] = case['sigma']
      out['noise_sigma_rot_' + key] = case['sigma']
  return out


def test_paths(case):
  np.random.seed(case['seed'] % (2 ** 32))
  X, world = np.array(case['X']), np.array(case['world'])
  options = _options(case)
  dq_X, dq_world = DQ(X), DQ(world)
  hand, eye = test_helpers.generate_test_paths(case['n'], dq_X, dq_world, **options)
  size = 30. + np.linalg.norm(X[0:3]) + np.linalg.norm(world[0:3])
  close(ref.mat_from_dq(dq_X.dq), ref.mat(X), 1e-8 * size, what='transformation afterwards')
  require(len(hand) == len(eye) == case['n'], 'poses', hand=len(hand), eye=len(eye))
  _unit(hand, 'hand')
  _unit(eye, 'eye')
  for name, path in (('hand', hand), ('eye', eye)):
    close(ref.mat_from_dq(path[0].dq), np.eye(4), 1e-6 * size, what='first pose of the ' + name)
  clean_hand, clean_eye = test_helpers.generate_test_paths(case['n'], dq_X, dq_world)
  H = [ref.mat_from_dq(p.dq) for p in clean_hand]
  E = [ref.mat_from_dq(p.dq) for p in clean_eye]
  T = ref.mat(X)
  for h, e in zip(H, E):
    close(h.dot(T), T.dot(e), 1e-6 * size, what='transformation between the paths')
  again = test_helpers.generate_test_paths(case['n'], dq_X, dq_world)
  for first, second in zip((clean_hand, clean_eye), again):
    close([p.dq for p in first], [p.dq for p in second], 1e-9 * size, what='noise-free path')
  for name, path, clean in (('hand', hand, H), ('eye', eye, E)):
    touched = case['spoil'] in (name, 'both')
    random = touched and ((case['how'] != 'outliers' and case['sigma'] > 0.) or
                          (case['how'] != 'noise' and case['probability'] > 0.))
    if not random:
      close([ref.mat_from_dq(p.dq) for p in path], clean, 1e-6 * size,
            what='path of the {} without noise'.format(name))
    elif case['how'] == 'noise' or case['probability'] == 1.:
      note('disturbed')
      moved = [np.max(np.abs(ref.mat_from_dq(p.dq) - c)) for p, c in zip(path[1:], clean[1:])]
      require(max(moved) > 1e-9, 'noise or outliers missing', path=name)
  if not case['spoil']:
    note('noise-free')
  return case['n'] >= 3 and ref.angle_of(X[3:7]) > 1e-3


@st.composite
def random_cases(draw):
  return {'seed': draw(gen.seed()), 'positive': draw(st.booleans())}


def test_random(case):
  np.random.seed(case['seed'] % (2 ** 32))
  q = np.array(test_helpers.random_quaternion())
  require(q.shape == (4,) and q[3] >= 0., 'random quaternion', q=q.tolist())
  close(np.linalg.norm(q), 1., 1e-8, what='norm of the random quaternion')
  for name in ('random_rotation', 'random_translation', 'rand_transform'):
    M = np.array(getattr(test_helpers, name)())
    require(M.shape == (4, 4), name, shape=M.shape)
    close(M[0:3, 0:3].dot(M[0:3, 0:3].T), np.eye(3), 1e-9, what=name)
    require(np.linalg.det(M[0:3, 0:3]) > 0., name + ' is not a rotation')
    close(M[3], [0., 0., 0., 1.], 0., what=name)
    if name == 'random_rotation':
      close(M[0:3, 3], np.zeros(3), 0., what='translation of a rotation')
    elif name == 'random_translation':
      close(M[0:3, 0:3], np.eye(3), 0., what='rotation of a translation')
      require(np.linalg.norm(M[0:3, 3]) > 0., 'translation')
  dqs = [test_helpers.random_transform_as_dual_quaternion(case['positive']) for _ in range(2)]
  _unit(dqs, 'random transformation')
  if case['positive']:
    require(all(dq.dq[3] >= 0. for dq in dqs), 'sign', dq=[dq.dq.tolist() for dq in dqs])
  require(not np.allclose(dqs[0].dq, dqs[1].dq), 'repeated random transformation')
  dq = test_helpers.random_transform_as_dual_quaternion()
  require(dq.dq[3] >= 0., 'sign by default', dq=dq.dq.tolist())
  return True


SUBS = [
    Sub('paths', cases, test_paths, 500, 8000),
    Sub('random', random_cases, test_random, 800, 10000),
]
