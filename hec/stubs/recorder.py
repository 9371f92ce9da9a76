"""Appends its arguments to the file named first and ends the way the second one says."""
import json
import os
import signal
import sys

with open(sys.argv[1], 'a') as f:
  f.write(json.dumps(sys.argv[3:]) + '\n')
if sys.argv[2] == 'killed':
  os.kill(os.getpid(), signal.SIGTERM)
sys.exit(int(sys.argv[2]))
