"""Writes MANIFEST.json from the check modules present (run after adding a check)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from hec import env  # noqa: E402

env.setup_paths()

NOT_YET = 'no check is registered for this property yet'
NOT_APPLICABLE = {}


def main():
  checks, missing = [], []
  with open(os.path.join(VERIF, 'properties.jsonl')) as f:
    properties = [json.loads(line) for line in f if line.strip()]
  for p in properties:
    pid = p['id']
    if not os.path.exists(os.path.join(VERIF, 'hec', 'checks', pid.lower() + '.py')):
      missing.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, NOT_YET)})
      continue
    module = importlib.import_module('hec.checks.' + pid.lower())
    note = ('Generated-input search with shrinking over: ' +
            ', '.join('{} ({}/{})'.format(s.name, s.quick, s.thorough) for s in module.SUBS) +
            ' (cases quick/thorough). ')
    assumptions = getattr(module, 'ASSUMPTIONS', [])
    note += ('Assumes: ' + '; '.join(assumptions) + '.' if assumptions else
             'No case outside the generators is covered.')
    checks.append({
        'property': pid,
        'quick_cmd': '/opt/venv/bin/python run_check.py ' + pid,
        'thorough_cmd': 'env VERIF_TIER=thorough /opt/venv/bin/python run_check.py ' + pid,
        'evidence_file': 'evidence/{}.json'.format(pid),
        'technique': getattr(module, 'TECHNIQUE',
                             'property-based testing (Hypothesis) against a reference model'),
        'level': 'exploration',
        'level_note': note,
    })
  manifest = {
      'version': 1,
      'setup_cmd': 'bash setup.sh',
      'checks': checks,
      'not_applicable': missing,
      'notes': 'run_check.py <id> --replay <file> re-runs one recorded case.',
  }
  path = os.path.join(VERIF, 'MANIFEST.json')
  with open(path, 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
  print('{} checks, {} properties without'.format(len(checks), len(missing)))


if __name__ == '__main__':
  main()
