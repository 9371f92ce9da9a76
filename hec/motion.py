"""Smooth rotational motions as functions of time, for recordings at any stamps."""
import numpy as np

from hec import gen, ref


class Motion(object):
  """Rotation and translation bursts with pauses in between."""

  def __init__(self, rng, bursts, speed=1.5, translation=0.5, lead=0, tail=0):
    """Weak bursts are added before time 0 (lead) and after the main part (tail)."""
    self.start = ref.qunit(rng.normal(size=4))
    sizes = [0.15] * lead + [1.] * bursts + [0.15] * tail
    steps, t, marks = [], 0., []
    for size in sizes:
      marks.append(t)
      t += rng.uniform(0.3, 1.5)
      length = rng.uniform(0.8, 2.5)
      rate = rng.uniform(0.5, 1.) * speed * size
      steps.append((t, length, rate * length / 2., gen.random_unit(rng),
                    rng.uniform(-translation, translation, 3)))
      t += length
    marks.append(t)
    origin, self.duration = marks[lead], marks[lead + bursts] - marks[lead] + 0.3
    self.begin, self.end = -origin, t - origin + 0.3
    self.bursts = [(s[0] - origin,) + s[1:] for s in steps]

  def poses(self, stamps):
    """Poses at all stamps, one row each."""
    t = np.asarray(stamps, dtype=float)
    q = np.tile(self.start, (len(t), 1))
    p = np.zeros((len(t), 3))
    for begin, length, angle, axis, move in self.bursts:
      x = np.clip((t - begin) / length, 0., 1.)
      share = x - np.sin(2. * np.pi * x) / (2. * np.pi)
      half = angle * share / 2.
      turn = np.column_stack((np.sin(half)[:, None] * axis[None, :], np.cos(half)))
      q = multiply(q, turn)
      p = p + share[:, None] * move[None, :]
    return np.column_stack((p, q / np.linalg.norm(q, axis=1)[:, None]))

  def pose(self, t):
    return self.poses([t])[0]


def multiply(a, b):
  """Row-wise Hamilton products."""
  av, aw, bv, bw = a[:, 0:3], a[:, 3:4], b[:, 0:3], b[:, 3:4]
  return np.column_stack((aw * bv + bw * av + np.cross(av, bv),
                          aw[:, 0] * bw[:, 0] - np.sum(av * bv, axis=1)))


def record(motion, stamps, shift=0., before=None, after=None, signs=None):
  """Rows stamp + shift and before * pose * after at the given motion times."""
  P = motion.poses(stamps)
  n = len(P)
  if after is not None:
    after = np.asarray(after, dtype=float)
    P = _compose(P, np.tile(after, (n, 1)))
  if before is not None:
    before = np.asarray(before, dtype=float)
    P = _compose(np.tile(before, (n, 1)), P)
  if signs is not None:
    P[:, 3:7] *= signs.choice([-1., 1.], size=(n, 1))
  return np.column_stack((np.asarray(stamps, dtype=float) + shift, P))


def _compose(a, b):
  q = multiply(a[:, 3:7], b[:, 3:7])
  v = np.column_stack((b[:, 0:3], np.zeros(len(b))))
  conjugate = a[:, 3:7] * np.array([-1., -1., -1., 1.])
  t = multiply(multiply(a[:, 3:7], v), conjugate)[:, 0:3] + a[:, 0:3]
  return np.column_stack((t, q))
