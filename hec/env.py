"""Process environment of a check: where the code under test and the tools are.

Importing this module prepares sys.path so that
 * the packages of the repository come first and are read from the working tree,
 * stand-ins for the ROS modules that are not installable here come next,
 * the interpreter's own numpy/scipy/matplotlib are used,
 * Hypothesis is found last (it lives in the verification tools).
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
STUBS = os.path.join(VERIF, 'hec', 'stubs')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

PKG = os.path.join(REPO, 'hand_eye_calibration')
EXP = os.path.join(REPO, 'hand_eye_calibration_experiments')
PKG_PYTHON = os.path.join(PKG, 'python')
EXP_PYTHON = os.path.join(EXP, 'python')
BIN = os.path.join(PKG, 'bin')
SCRIPTS = os.path.join(PKG, 'scripts')
EXP_BIN = os.path.join(EXP, 'bin')

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
  os.environ[_v] = '1'


def setup_paths():
  for p in (STUBS, EXP_PYTHON, PKG_PYTHON):
    if p in sys.path:
      sys.path.remove(p)
    sys.path.insert(0, p)
  if TOOLS not in sys.path:
    sys.path.append(TOOLS)


def child_env(**extra):
  """Environment for running the repository's programs in a child process."""
  env = dict(os.environ)
  env['PYTHONPATH'] = os.pathsep.join([PKG_PYTHON, EXP_PYTHON, STUBS])
  env['PATH'] = os.pathsep.join(
      [os.path.join(STUBS, 'bin'), os.path.dirname(PYTHON), env.get('PATH', '/usr/bin:/bin')])
  env['PYTHONWARNINGS'] = 'ignore'
  env['HEC_PYTHON'] = PYTHON
  env['HEC_REPO'] = REPO
  env.update({k: str(v) for k, v in extra.items()})
  return env
