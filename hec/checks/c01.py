import numpy as np
from hypothesis import strategies as st

from hec import gen, ref
from hec.code import Quat, quaternion
from hec.harness import Sub, close, note, require

PROPERTY = 'C01'
RULE = ('a case counts as non-trivial if no operand is zero, real, or equal to another operand, '
        'so that the product does not commute by accident')


def _nontrivial(*qs):
  for q in qs:
    if not np.any(np.array(q[0:3])):
      return False
  return all(list(a) != list(b) for i, a in enumerate(qs) for b in qs[i + 1:])


def _scale(*qs):
  s = 1.
  for q in qs:
    s *= max(1., np.linalg.norm(q))
  return s


def test_binary(case):
  a, b, s = case['a'], case['b'], case['s']
  qa, qb = Quat(a), Quat(b)
  na, nb = np.array(a), np.array(b)
  tol = 1e-12 * _scale(a, b) * max(1., abs(s))
  results = {
      'sum': (qa + qb, na + nb),
      'difference': (qa - qb, na - nb),
      'negation': (-qa, -na),
      'product': (qa * qb, ref.qmul(na, nb)),
      'scalar product': (qa * s, na * s),
      'scalar product from left': (s * qa, na * s),
      'conjugate': (qa.conjugate(), ref.qconj(na)),
      'copy': (qa.copy(), na),
  }
  if abs(s) > 1e-6:
    results['scalar quotient'] = (qa / s, na / s)
    tol_s = max(tol, 1e-12 * _scale(a) / abs(s))
  else:
    tol_s = tol
  norm_b = np.linalg.norm(nb)
  if norm_b > 1e-7:
    results['inverse'] = (qb.inverse(), ref.qinv(nb))
    results['quotient'] = (qa / qb, ref.qmul(na, ref.qinv(nb)))
    tol_i = 1e-12 * _scale(a) / min(1., norm_b) ** 2
    tol_s = max(tol_s, tol_i)
    close((qb * qb.inverse()).q, [0., 0., 0., 1.], 1e-9, what='q * q^-1')
    close((qb.inverse() * qb).q, [0., 0., 0., 1.], 1e-9, what='q^-1 * q')
  for name, (result, expected) in results.items():
    close(result.q, expected, tol_s, 1e-12, what=name)
  close([qa.x, qa.y, qa.z, qa.w], a, 0., what='components')
  close(qa.norm(), np.linalg.norm(na), tol, what='norm')
  close(qa.squared_norm(), np.dot(na, na), tol * max(1., np.linalg.norm(na)), what='squared norm')
  close((qa * qb).norm(), np.linalg.norm(na) * norm_b, tol * 10, what='norm of the product')
  # Neither operands nor results may be affected by the other.
  close(qa.q, a, 0., what='left operand after the operations')
  close(qb.q, b, 0., what='right operand after the operations')
  for name, (result, _) in results.items():
    result.q[:] = 17.
  close(qa.q, a, 0., what='left operand after changing results')
  close(qb.q, b, 0., what='right operand after changing results')
  return _nontrivial(a, b)


def test_triple(case):
  a, b, c = (Quat(case[k]) for k in 'abc')
  tol = 1e-11 * _scale(case['a'], case['b'], case['c'])
  close(((a * b) * c).q, (a * (b * c)).q, tol, what='associativity')
  close((a * (b + c)).q, (a * b + a * c).q, tol, what='left distributivity')
  close(((a + b) * c).q, (a * c + b * c).q, tol, what='right distributivity')
  close((a * b).conjugate().q, (b.conjugate() * a.conjugate()).q, tol, what='conjugate of product')
  close((a - b).q, (a + (-b)).q, tol, what='difference')
  return _nontrivial(case['a'], case['b'], case['c'])


def test_construction(case):
  a = case['a']
  q = quaternion.Quaternion(*a)
  close(q.q, a, 0., what='construction from components')
  array = np.array(a, dtype=float)
  r = quaternion.Quaternion(q=array)
  array[:] = 3.
  close(r.q, a, 0., what='construction from an array')
  longer = np.array([7.] + list(a) + [8.], dtype=float)
  r = quaternion.Quaternion(q=longer[1:5])
  longer[:] = 3.
  close(r.q, a, 0., what='construction from a part of an array')
  default = quaternion.Quaternion()
  close(default.q, [0., 0., 0., 1.], 0., what='default quaternion')
  if np.linalg.norm(a) > 1e-7:
    r.normalize()
    close(r.q, ref.qunit(a), 1e-12, what='normalised quaternion')
    close(r.norm(), 1., 1e-12, what='norm after normalisation')
    q.normalize()
    close(q.q, ref.qunit(a), 1e-12, what='normalised quaternion from components')
  close(quaternion.Quaternion().q, [0., 0., 0., 1.], 0., what='default quaternion later')
  s = str(Quat(a))
  require(isinstance(s, str) and len(s) > 0, 'text form')
  require('Quaternion' in repr(Quat(a)), 'text form')
  if np.linalg.norm(a) < 0.9 or np.linalg.norm(a) > 1.1:
    note('not unit')
  return _nontrivial(a)


def _scalar():
  return st.one_of(gen.component(), st.integers(-5, 5))


def _ints():
  return st.one_of(st.lists(st.integers(-9, 9), min_size=4, max_size=4),
                   st.lists(_scalar(), min_size=4, max_size=4))


SUBS = [
    Sub('binary', lambda: st.fixed_dictionaries(
        {'a': gen.any_quat(), 'b': gen.any_quat(), 's': _scalar()}), test_binary, 6000, 80000),
    Sub('triple', lambda: st.fixed_dictionaries(
        {'a': gen.any_quat(), 'b': gen.any_quat(), 'c': gen.any_quat()}), test_triple, 3000, 40000),
    Sub('construction', lambda: st.fixed_dictionaries(
        {'a': st.one_of(gen.any_quat(), _ints())}), test_construction, 3000, 40000),
]
