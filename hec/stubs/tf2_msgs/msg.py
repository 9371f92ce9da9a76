"""Stand-in for the tf2 message type."""


class TFMessage(object):

  def __init__(self, transforms=()):
    self.transforms = list(transforms)
