"""Builds the C++ programs of the repository against stand-ins of their libraries."""
import os
import subprocess

from hec import env
from hec.harness import HarnessError

INCLUDE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', 'cpp')


def build(source, directory):
  """Compiles a source file of the working tree to <directory>/program."""
  program = os.path.join(directory, 'program')
  result = subprocess.run(
      ['g++', '-std=c++17', '-O0', '-w', '-D_GLIBCXX_ASSERTIONS', '-I', INCLUDE,
       '-isystem', '/usr/include/eigen3', os.path.join(env.REPO, source), '-o', program],
      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
  if result.returncode != 0:
    raise HarnessError('{} does not compile against the stand-ins:\n{}'.format(
        source, result.stdout.decode(errors='replace')[:4000]))


def run(words, cwd, variables, timeout=30):
  """Runs the program, returns its exit status."""
  environment = dict(os.environ)
  environment.update(variables)
  result = subprocess.run([os.path.join(os.environ['HEC_PREPARED'], 'program')] + list(words),
                          cwd=cwd, env=environment, stdin=subprocess.DEVNULL,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
  return result.returncode
