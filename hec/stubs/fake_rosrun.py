"""Plays the programs started with rosrun.

HEC_ROS_DIR holds behaviour.json and receives one file per call.  Keys of the behaviour:
  fail     names of programs, or numbers of calls, that end with exit code 3
  fail_words  calls with one of these words in an argument end with exit code 3
  fail_some  list of [first pose file, second pose file, k]: about every k-th call with these files,
           chosen by its initial guess, ends with exit code 3
  token    programs write values derived from their name and the contents of their input files to
           their outputs, in the format of the output
  results  list of [first pose file, second pose file, calibration] written by the estimator;
           without an entry for its files the estimator copies its initial guess
  real     directories in which Python programs are looked up and executed
"""
import hashlib
import json
import os
import shutil
import sys
import time

INPUTS = ('poses_B_H_csv_file', 'poses_W_E_csv_file', 'pose1_csv', 'pose2_csv', 'init_guess_file',
          'time_offset_input_csv_file')
OUTPUTS = ('time_offset_output_csv_file', 'calibration_output_json_file', 'output_file',
           'extrinsics_output_csv_file')


def options(argv):
  out, i = [], 0
  while i < len(argv):
    word = argv[i]
    if word.startswith('-') and '=' in word:
      out.append([word.lstrip('-').split('=', 1)[0], word.split('=', 1)[1]])
    elif word.startswith('-') and i + 1 < len(argv) and not argv[i + 1].startswith('--'):
      out.append([word.lstrip('-'), argv[i + 1]])
      i += 1
    else:
      out.append([word.lstrip('-'), None])
    i += 1
  return out


def contents(path):
  with open(path) as f:
    return f.read()


def derived(option, digest):
  values = [int(digest[4 * i:4 * i + 4], 16) / 32768. - 1. for i in range(8)]
  norm = sum(v * v for v in values[3:7]) ** 0.5
  pose = values[0:3] + [v / norm for v in values[3:7]]
  if option.startswith('time_offset'):
    return '{!r}\n'.format(values[7])
  if option.startswith('extrinsics'):
    return ''.join('{!r}\n'.format(v) for v in pose)
  if option.startswith('aligned'):
    return digest + '\n'
  return json.dumps({'delay': values[7], 'rotation': dict(zip('ijkw', pose[3:7])),
                     'translation': dict(zip('xyz', pose[0:3]))})


def main():
  base = os.environ['HEC_ROS_DIR']
  with open(os.path.join(base, 'behaviour.json')) as f:
    behaviour = json.load(f)
  package, program, argv = sys.argv[1], sys.argv[2], sys.argv[3:]
  opts = dict(options(argv))
  calls = os.path.join(base, 'calls')
  number = len(os.listdir(calls))
  record = {'package': package, 'program': program, 'argv': argv, 'cwd': os.getcwd(), 'number': number}
  if 'init_guess_file' in opts:
    record['init_guess'] = json.loads(contents(opts['init_guess_file']))
  fail = behaviour.get('fail', [])
  record['failed'] = bool(program in fail or number in fail or any(
      word in argument for word in behaviour.get('fail_words', []) for argument in argv))
  for first, second, k in behaviour.get('fail_some', []):
    if [opts.get('pose1_csv'), opts.get('pose2_csv')] == [first, second]:
      digest = hashlib.sha1(json.dumps(record.get('init_guess'), sort_keys=True).encode()).hexdigest()
      record['failed'] = record['failed'] or int(digest[0:8], 16) % k == 0
  name = os.path.join(calls, '{:020d}-{}.json'.format(time.time_ns(), os.getpid()))
  with open(name + '.tmp', 'w') as f:
    json.dump(record, f)
  os.rename(name + '.tmp', name)
  if record['failed']:
    return 3
  if program.endswith('.py') and behaviour.get('real'):
    for directory in behaviour['real']:
      path = os.path.join(directory, program)
      if os.path.exists(path):
        python = os.environ['HEC_PYTHON']
        os.execv(python, [python, path] + argv)
    return 4
  if behaviour.get('token'):
    aligned_is_output = program == 'compute_aligned_poses.py'
    aligned = [k for k in sorted(opts) if k.startswith('aligned_poses')]
    inputs = [k for k in sorted(opts) if k in INPUTS] + ([] if aligned_is_output else aligned)
    outputs = [k for k in sorted(opts) if k in OUTPUTS] + (aligned if aligned_is_output else [])
    if not all(os.path.exists(opts[k]) for k in inputs):
      return 5
    text = program + ''.join('|{}:{}'.format(k, contents(opts[k])) for k in inputs)
    for k in outputs:
      with open(opts[k], 'w') as f:
        f.write(derived(k, hashlib.sha1((text + '>' + k).encode()).hexdigest()))
    return 0
  if program == 'batch_estimator':
    for first, second, calibration in behaviour.get('results', []):
      if opts.get('pose1_csv') == first and opts.get('pose2_csv') == second:
        with open(opts['output_file'], 'w') as f:
          json.dump(calibration, f)
        return 0
    shutil.copyfile(opts['init_guess_file'], opts['output_file'])
  return 0


sys.exit(main())
