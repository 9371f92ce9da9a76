"""Stand-in for the ROS tf package, which is not installable here.

Only what the repository uses.  Lookups are exact rigid body mathematics on a
frame tree with time-stamped edges, interpolated between neighbouring stamps.
"""
import math

import numpy as np

from tf import transformations


class LookupException(Exception):
  pass


class ConnectivityException(Exception):
  pass


class ExtrapolationException(Exception):
  pass


def _slerp(a, b, f):
  d = float(np.dot(a, b))
  if d < 0.:
    b, d = -b, -d
  theta = math.acos(min(1., d))
  if theta < 1e-9:
    return a
  return (math.sin((1. - f) * theta) * a + math.sin(f * theta) * b) / math.sin(theta)


class Transformer(object):

  def __init__(self, interpolate=True, cache_time=None):
    # Samples that are older than the newest one by more than this are forgotten.
    self.cache_ns = 10 ** 10 if cache_time is None else cache_time.to_nsec()
    self.edges = {}  # child -> (parent, {stamp in ns: (t, q)})

  def setTransform(self, transform, authority='default_authority'):
    t = transform.transform.translation
    r = transform.transform.rotation
    child = transform.child_frame_id
    parent, samples = self.edges.get(child, (transform.header.frame_id, {}))
    if parent != transform.header.frame_id:
      samples = {}
    ns = transform.header.stamp.to_nsec()
    if samples and ns < max(samples) - self.cache_ns:
      return
    samples[ns] = (
        np.array([t.x, t.y, t.z], dtype=float), np.array([r.x, r.y, r.z, r.w], dtype=float))
    oldest = max(samples) - self.cache_ns
    for old in [s for s in samples if s < oldest]:
      del samples[old]
    self.edges[child] = (transform.header.frame_id, samples)

  def _edge(self, child, ns):
    parent, samples = self.edges[child]
    if ns in samples:
      t, q = samples[ns]
    else:
      stamps = sorted(samples)
      if ns < stamps[0] or ns > stamps[-1]:
        raise ExtrapolationException(child)
      right = [s for s in stamps if s > ns][0]
      left = [s for s in stamps if s < ns][-1]
      f = float(ns - left) / float(right - left)
      t = samples[left][0] * (1. - f) + samples[right][0] * f
      q = _slerp(samples[left][1], samples[right][1], f)
    m = transformations.quaternion_matrix(q)
    m[0:3, 3] = t
    return parent, m

  def lookupTransform(self, target_frame, source_frame, time):
    known = set(self.edges) | set(p for p, _ in self.edges.values())
    if target_frame not in known or source_frame not in known:
      raise LookupException(target_frame + ' ' + source_frame)
    source = self._parents(source_frame)
    target = self._parents(target_frame)
    common = [f for f in source if f in target]
    if not common:
      raise ConnectivityException(target_frame + ' ' + source_frame)
    ns = time.to_nsec()
    T = np.linalg.inv(self._chain(target_frame, common[0], ns)).dot(
        self._chain(source_frame, common[0], ns))
    q = transformations.quaternion_from_matrix(T)
    # Either sign, as the library returns it.
    return list(T[0:3, 3]), list(-q if q[0] < 0. else q)

  def _parents(self, frame):
    chain = [frame]
    while frame in self.edges:
      frame = self.edges[frame][0]
      chain.append(frame)
    return chain

  def _chain(self, frame, ancestor, ns):
    T = np.eye(4)
    while frame != ancestor:
      frame, m = self._edge(frame, ns)
      T = m.dot(T)
    return T
