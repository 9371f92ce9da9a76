"""Stand-in for rospy: time stamps and durations in nanoseconds."""
import functools


@functools.total_ordering
class _Stamp(object):

  def __init__(self, secs=0, nsecs=0):
    if isinstance(secs, float):
      self._ns = int(round(secs * 1e9)) + nsecs
    else:
      self._ns = secs * 1000000000 + nsecs

  @classmethod
  def from_nsec(cls, ns):
    out = cls()
    out._ns = ns
    return out

  @property
  def secs(self):
    return self._ns // 1000000000

  @property
  def nsecs(self):
    return self._ns % 1000000000

  def to_nsec(self):
    return self._ns

  def to_sec(self):
    return float(self.secs) + float(self.nsecs) / 1e9

  def __eq__(self, other):
    return isinstance(other, _Stamp) and self._ns == other._ns

  def __lt__(self, other):
    return self._ns < other._ns

  def __hash__(self):
    return hash(self._ns)


class Duration(_Stamp):
  pass


class Time(_Stamp):

  def __sub__(self, other):
    if isinstance(other, Time):
      return Duration.from_nsec(self._ns - other._ns)
    return Time.from_nsec(self._ns - other._ns)

  def __add__(self, other):
    return Time.from_nsec(self._ns + other._ns)
