import json
import os
import shlex
import threading

import numpy as np
from hypothesis import strategies as st

from hec import env, gen
from hec.code import bash_utils
from hec.harness import Sub, Violation, note, require, scratch

PROPERTY = 'C30'
RULE = ('a command counts as non-trivial if it has a word that needs quoting or fails; a path if '
        'directories are missing; a spelling always; an array if it has more than one element')
ASSUMPTIONS = ['words contain no NUL character', 'a parent directory is not a regular file unless '
               'a failure is expected']

RECORDER = os.path.join(env.STUBS, 'recorder.py')
CHARACTERS = 'ab1-=/._ \t\n\'"\\$*;|&<>#~`(){}?!%ä'


# --- Commands --------------------------------------------------------------------------------

@st.composite
def command_cases(draw):
  text = st.text(alphabet=CHARACTERS, max_size=8)
  words = draw(st.lists(st.one_of(text, gen.pick('--option', '--a=b', '$HOME', '*', '; touch x',
                                                 'two words', '', '>out', "it's", 'a\\')),
                        max_size=6))
  quoting = [draw(gen.pick('auto', 'single', 'double', 'backslash')) for _ in words]
  return {'words': words, 'quoting': quoting,
          'separators': [draw(gen.pick(' ', '  ', ' \\\n', '\t', ' \\\n      ')) for _ in words],
          'end': draw(gen.pick('0', '0', '0', '1', '2', '127', '255', 'killed')),
          'dry_run': draw(gen.pick(False, False, False, True)),
          'missing_program': draw(gen.pick(*[False] * 9 + [True]))}


def _quoted(word, how):
  if how == 'double' and word:
    return '"' + ''.join('\\' + c if c in '"\\' else c for c in word) + '"'
  if how == 'backslash' and word and '\n' not in word:
    return ''.join(c if c.isalnum() and c.isascii() else '\\' + c for c in word)
  if how == 'single' and "'" not in word:
    return "'" + word + "'"
  return shlex.quote(word)


def test_command(case):
  with scratch() as d:
    log = os.path.join(d, 'log')
    program = os.path.join(d, 'no_such_program') if case['missing_program'] else env.PYTHON
    parts = [shlex.quote(w) for w in (program, '-S', '-E', RECORDER, log, case['end'])]
    command = ' '.join(parts)
    for word, how, separator in zip(case['words'], case['quoting'], case['separators']):
      # A continued line: the backslash and the line break are removed by shell words.
      command += separator.replace('\\\n', ' ') + _quoted(word, how)
    os.chdir(d)
    error = None
    try:
      if case['dry_run']:
        bash_utils.run(command, True)
      else:
        bash_utils.run(command)
    except Exception as e:
      error = e
    lines = open(log).read().split('\n')[:-1] if os.path.exists(log) else []
    extra = sorted(set(os.listdir(d)) - {'log'})
  require(not extra, 'files created by shell interpretation', files=extra)
  if case['dry_run']:
    require(error is None and not lines, 'dry run', error=repr(error), calls=len(lines))
    note('dry run')
    return True
  if case['missing_program']:
    require(error is not None, 'missing program accepted')
    return True
  require(len(lines) == 1, 'number of executions', actual=len(lines), error=repr(error))
  require(json.loads(lines[0]) == case['words'], 'words', actual=json.loads(lines[0]),
          expected=case['words'])
  require((error is not None) == (case['end'] != '0'), 'failure', end=case['end'], error=repr(error))
  note('exit ' + case['end'])
  return case['end'] != '0' or any(shlex.quote(w) != w for w in case['words'])


# --- Paths -----------------------------------------------------------------------------------

@st.composite
def path_cases(draw):
  return {'parts': draw(st.lists(gen.pick('a', 'b', 'with space', 'c.d', '..', '.'), max_size=4)),
          'existing': draw(st.integers(0, 4)), 'absolute': draw(st.booleans()),
          'file_exists': draw(st.booleans()), 'slash': draw(gen.pick(False, False, True)),
          'kind': draw(gen.pick('plain', 'plain', 'plain', 'race', 'threads', 'blocked')),
          'times': draw(gen.pick(1, 2))}


def _tree(d):
  return sorted(os.path.relpath(os.path.join(base, n), d) for base, dirs, files in os.walk(d)
                for n in dirs + files)


def test_path(case):
  with scratch() as base:
    d = os.path.join(base, 'inside', 'deeper', 'here')
    os.makedirs(d)
    os.chdir(d)
    # Dots never lead out of the scratch directory (at most two levels up).
    parts, up = [], 0
    for p in case['parts']:
      if p == '..':
        up += 1
        if up > 2:
          continue
      parts.append(p)
    for i in range(1, min(case['existing'], len(parts)) + 1):
      os.makedirs(os.path.join(d, *parts[:i]), exist_ok=True)
    # A path through a missing directory and back needs that directory.
    directory = os.path.join(*parts) if parts else ''
    name = os.path.join(directory, '' if case['slash'] and directory else 'result.csv')
    if case['absolute']:
      name = os.path.join(d, name)
      directory = os.path.join(d, directory) if directory else d
    if case['kind'] == 'blocked':
      with open(os.path.join(d, 'blocked'), 'w') as f:
        f.write('a file')
      try:
        bash_utils.create_path(os.path.join(d, 'blocked', 'x', 'y', 'result.csv'))
      except Exception:
        require(os.path.isfile(os.path.join(d, 'blocked')), 'file replaced')
        note('blocked')
        return True
      raise Violation('a directory below a file was not reported')
    missing = bool(directory) and not os.path.isdir(directory)
    keep = None
    if case['file_exists'] and not missing and not name.endswith('/'):
      keep = name
      with open(name, 'w') as f:
        f.write('important')
    before = _tree(base)
    if case['kind'] == 'threads':
      errors = []

      def create():
        try:
          bash_utils.create_path(name)
        except Exception as e:
          errors.append(repr(e))

      threads = [threading.Thread(target=create) for _ in range(4)]
      for t in threads:
        t.start()
      for t in threads:
        t.join()
      require(not errors, 'concurrent creation', errors=errors)
    elif case['kind'] == 'race' and missing:
      # Somebody else creates the directory just before.
      original = os.makedirs

      def makedirs(path, *args, **kwargs):
        original(path, exist_ok=True)
        return original(path, *args, **kwargs)

      os.makedirs = makedirs
      try:
        bash_utils.create_path(name)
      finally:
        os.makedirs = original
      note('race')
    else:
      for _ in range(case['times']):
        bash_utils.create_path(name)
    after = _tree(base)
    require(not directory or os.path.isdir(directory), 'directory is missing', directory=directory)
    require(all(os.path.exists(os.path.join(base, p)) for p in before), 'something was removed')
    created = [p for p in after if p not in before]
    require(all(os.path.isdir(os.path.join(base, p)) for p in created), 'a file was created',
            created=created)
    if not missing:
      require(not created, 'created although everything existed', created=created)
    if keep:
      require(open(keep).read() == 'important', 'existing file changed')
    if not directory:
      note('no directory part')
    os.chdir('/')
  return missing


# --- Boolean options -------------------------------------------------------------------------

TRUE = ('true', 't', 'yes', 'y', 'on', '1')
FALSE = ('false', 'f', 'no', 'n', 'off', '0')


@st.composite
def bool_cases(draw):
  kind = draw(gen.pick('true', 'false', 'other'))
  if kind == 'other':
    value = draw(st.one_of(gen.pick('2', '-1', 'truee', 'tru', 'none', 'maybe', '01', 'o', 'of',
                                    'ye', '1.0', 'nope', 'falsey', '10', '00'),
                           st.text(min_size=1, max_size=6)))
    if value.strip().lower() in TRUE + FALSE or not value.strip():
      value = 'maybe'
  else:
    value = draw(st.sampled_from(TRUE if kind == 'true' else FALSE))
    value = ''.join(c.upper() if draw(st.booleans()) else c for c in value)
  return {'kind': kind, 'value': value}


def test_bool(case):
  import argparse
  try:
    result = bash_utils.parse_bool(case['value'])
  except (argparse.ArgumentTypeError, ValueError, TypeError):
    require(case['kind'] == 'other', 'rejected', value=case['value'])
    note('rejected')
    return True
  require(case['kind'] != 'other', 'accepted', value=case['value'], result=result)
  require(result is (case['kind'] == 'true'), 'value', value=case['value'], result=result)
  return True


# --- Numeric files ---------------------------------------------------------------------------

@st.composite
def array_cases(draw):
  rows, columns = draw(st.integers(1, 8)), draw(st.integers(1, 9))
  value = st.one_of(gen.component(), gen.pick(1e-300, 1.7976931348623157e308, -0.1, 1. / 3.,
                                              123456789.123456789, 1e22),
                    st.floats(allow_nan=False, allow_infinity=False))
  return {'values': [[draw(value) for _ in range(columns)] for _ in range(rows)],
          'separator': draw(gen.pick(',', ', ', ' ,')), 'end': draw(gen.pick('\n', '', '\r\n'))}


def test_array(case):
  values = np.array(case['values'])
  with scratch() as d:
    path = os.path.join(d, 'array.csv')
    newline = '\r\n' if case['end'] == '\r\n' else '\n'
    with open(path, 'w', newline='') as f:
      f.write(newline.join(case['separator'].join(repr(float(x)) for x in row) for row in values) +
              case['end'])
    before = open(path, 'rb').read()
    result = bash_utils.readArrayFromCsv(path)
    require(open(path, 'rb').read() == before, 'file changed')
  result = np.asarray(result)
  require(result.dtype == np.dtype(float), 'type', actual=str(result.dtype))
  require(result.shape == values.shape, 'shape', actual=result.shape, expected=values.shape)
  require(np.array_equal(result, values), 'values', actual=result.tolist(), expected=values.tolist())
  return values.size > 1


SUBS = [
    Sub('command', command_cases, test_command, 500, 6000),
    Sub('path', path_cases, test_path, 600, 6000),
    Sub('bool', bool_cases, test_bool, 800, 5000),
    Sub('array', array_cases, test_array, 600, 6000),
]
