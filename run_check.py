#!/opt/venv/bin/python
"""Usage: run_check.py <property> [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
  from hec import env, harness
  if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(env.PYTHON))):
    os.execv(env.PYTHON, [env.PYTHON] + sys.argv)  # the interpreter of the repository's tests
  sys.exit(harness.main(sys.argv[1:]))
