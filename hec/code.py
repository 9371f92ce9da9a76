"""Lazily imported modules of the repository under test."""
import importlib


class _Lazy(object):

  def __init__(self, name):
    self.__dict__['_name'] = name

  def __getattr__(self, attribute):
    return getattr(importlib.import_module(self.__dict__['_name']), attribute)


_P = 'hand_eye_calibration.'
_X = 'hand_eye_calibration_experiments.'
quaternion = _Lazy(_P + 'quaternion')
dual_quaternion = _Lazy(_P + 'dual_quaternion')
calibration = _Lazy(_P + 'dual_quaternion_hand_eye_calibration')
time_alignment = _Lazy(_P + 'time_alignment')
csv_io = _Lazy(_P + 'csv_io')
extrinsic = _Lazy(_P + 'extrinsic_calibration')
bash_utils = _Lazy(_P + 'bash_utils')
algorithm_config = _Lazy(_P + 'algorithm_config')
verification = _Lazy(_P + 'calibration_verification')
plotting = _Lazy(_P + 'hand_eye_calibration_plotting_tools')
time_plotting = _Lazy(_P + 'time_alignment_plotting_tools')
test_helpers = _Lazy(_P + 'hand_eye_test_helpers')
all_configs = _Lazy(_X + 'all_algorithm_configs')
experiment_results = _Lazy(_X + 'experiment_results')
experiment_plotting = _Lazy(_X + 'experiment_plotting_tools')


def Quat(q):
  """Quaternion of the code under test from components x, y, z, w."""
  import numpy as np
  return quaternion.Quaternion(q=np.array(q, dtype=float))


def DQ(pose):
  """Dual quaternion of the code under test from a reference pose.

  Built from components so that no conversion of the code under test is involved.
  """
  from hec import ref
  return dq_from_components(ref.dq_components(pose))


def dq_from_components(c):
  import numpy as np
  return dual_quaternion.DualQuaternion(Quat(np.asarray(c)[0:4]), Quat(np.asarray(c)[4:8]))
