"""Running the repository's programs with stand-ins for the ROS tools they start."""
import contextlib
import importlib.util
import json
import os
import runpy
import subprocess
import sys

from hec import env
from hec.harness import HarnessError, Violation

_loaded = {}


class Ros(object):
  """The calls recorded by the rosrun stand-in."""

  def __init__(self, directory, behaviour):
    self.directory = directory
    os.makedirs(os.path.join(directory, 'calls'))
    self.behave(**behaviour)

  def behave(self, **behaviour):
    with open(os.path.join(self.directory, 'behaviour.json'), 'w') as f:
      json.dump(behaviour, f)

  def environment(self):
    return env.child_env(HEC_ROS_DIR=self.directory)

  def calls(self):
    """All calls so far in order."""
    out = []
    base = os.path.join(self.directory, 'calls')
    for name in sorted(n for n in os.listdir(base) if n.endswith('.json')):
      with open(os.path.join(base, name)) as f:
        out.append(json.load(f))
    return out

  def reset(self):
    """Forgets the calls."""
    base = os.path.join(self.directory, 'calls')
    for name in os.listdir(base):
      os.remove(os.path.join(base, name))


def options(argv):
  """Options of a command line as a list of (name, value); value None for a bare switch."""
  out, i = [], 0
  while i < len(argv):
    word = argv[i]
    if word.startswith('-') and '=' in word:
      out.append((word.lstrip('-').split('=', 1)[0], word.split('=', 1)[1]))
    elif word.startswith('-') and i + 1 < len(argv) and not argv[i + 1].startswith('--'):
      out.append((word.lstrip('-'), argv[i + 1]))
      i += 1
    else:
      out.append((word.lstrip('-'), None))
    i += 1
  return out


@contextlib.contextmanager
def _environment(values):
  old = dict(os.environ)
  os.environ.update(values)
  try:
    yield
  finally:
    os.environ.clear()
    os.environ.update(old)


def load(path):
  """The functions of a program as a module, without running it."""
  if path not in _loaded:
    if not os.path.exists(path):
      raise HarnessError('missing program ' + path)
    name = 'hec_loaded_' + os.path.basename(path).replace('.', '_')
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    with _script_directory(path):
      spec.loader.exec_module(module)
    _loaded[path] = module
  return _loaded[path]


@contextlib.contextmanager
def _script_directory(path):
  sys.path.insert(0, os.path.dirname(path))
  try:
    yield
  finally:
    sys.path.remove(os.path.dirname(path))


def run(path, argv, cwd, ros=None):
  """Runs a program in this process; a failing exit is raised as Violation."""
  if not os.path.exists(path):
    raise HarnessError('missing program ' + path)
  old_argv, old_cwd = sys.argv, os.getcwd()
  values = ros.environment() if ros else {}
  try:
    sys.argv = [path] + [str(a) for a in argv]
    os.chdir(cwd)
    with _environment(values), _script_directory(path):
      runpy.run_path(path, run_name='__main__')
  except SystemExit as e:
    if e.code not in (None, 0):
      raise Violation('the program ended with {!r}'.format(e.code))
  finally:
    sys.argv = old_argv
    os.chdir(old_cwd)


def fails(path, argv, cwd, ros=None):
  """Whether the program refuses its command line or fails."""
  try:
    run(path, argv, cwd, ros)
  except Exception:
    return True
  return False


def child(command, cwd, ros=None, timeout=120):
  """Runs a command in a child process, returns exit code and output."""
  p = subprocess.run(command, cwd=cwd, env=ros.environment() if ros else env.child_env(),
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                     timeout=timeout)
  return p.returncode, p.stdout.decode('utf-8', 'replace')


def write_rows(path, rows, separator=', '):
  with open(path, 'w') as f:
    for row in rows:
      f.write(separator.join(repr(float(x)) for x in row) + '\n')


def read_rows(path):
  with open(path) as f:
    return [[float(x) for x in line.split(',')] for line in f if line.strip()]
