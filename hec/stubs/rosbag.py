"""Stand-in for rosbag: a bag is a list of (topic, message, time) per file name.

BAGS maps file names to their messages; OPENED records every opened bag.
"""
BAGS = {}
OPENED = []


class Bag(object):

  def __init__(self, name, mode='r', **kwargs):
    if mode != 'r' or name not in BAGS:
      raise IOError('no such bag: {}'.format(name))
    OPENED.append(self)
    self.name = name
    self.closed = False

  def read_messages(self, topics=None, **kwargs):
    if isinstance(topics, str):
      topics = [topics]
    for topic, msg, t in list(BAGS[self.name]):
      if self.closed:
        raise ValueError('I/O operation on closed bag')
      if topics is None or topic in topics:
        yield topic, msg, t

  def close(self):
    self.closed = True

  def __enter__(self):
    return self

  def __exit__(self, *args):
    self.close()
