"""Quaternion arithmetic against Hamilton's algebra."""
from vfa.core import *

SPEC = '''
import numpy as np

def d_add(a, b): return (a + b).q
def d_sub(a, b): return (a - b).q
def d_neg(a): return (-a).q
def d_mul(a, b): return (a * b).q
def d_muls(a, s): return (a * s).q
def d_rmuls(a, s): return (s * a).q
def d_div(a, b): return (a / b).q
def d_divs(a, s): return (a / s).q
def d_olddiv(a, b): return a.__div__(b).q
def d_olddivs(a, s): return a.__div__(s).q
def d_conj(a): return a.conjugate().q
def d_inv(a): return a.inverse().q
def d_sq(a): return a.squared_norm()
def d_norm(a): return a.norm()
def d_copy(a): return a.copy().q
def d_comp(a): return (a.x, a.y, a.z, a.w)
def d_imul(a, b):
  a *= b
  return a.q
def d_normalize(a):
  a.normalize()
  return a.q
def d_chain(a, b, c): return ((a * b) * c - a * (b * c)).q
def d_one(a): return (a * a.inverse()).q

def r_add(a, b): return np.array([a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]])
def r_sub(a, b): return np.array([a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]])
def r_neg(a): return np.array([-a[0], -a[1], -a[2], -a[3]])
def r_mul(a, b):
  va = a[0:3]
  vb = b[0:3]
  v = a[3] * vb + b[3] * va + np.cross(va, vb)
  return np.array([v[0], v[1], v[2], a[3] * b[3] - np.dot(va, vb)])
def r_muls(a, s): return np.array([a[0] * s, a[1] * s, a[2] * s, a[3] * s])
def r_conj(a): return np.array([-a[0], -a[1], -a[2], a[3]])
def r_sq(a): return a[0]**2 + a[1]**2 + a[2]**2 + a[3]**2
def r_inv(a): return r_conj(a) / r_sq(a)
def r_div(a, b): return r_mul(a, r_inv(b))
def r_divs(a, s): return np.array([a[0] / s, a[1] / s, a[2] / s, a[3] / s])
def r_norm(a): return np.sqrt(r_sq(a))
def r_comp(a): return (a[0], a[1], a[2], a[3])
def r_copy(a): return a
def r_normalize(a): return a / r_norm(a)
def r_chain(a, b, c): return np.zeros(4)
def r_one(a): return np.array([0.0, 0.0, 0.0, 1.0])
'''

CASES = [
    # driver, reference, operands, method
    ('add', 'add', 'qq', '__add__'), ('sub', 'sub', 'qq', '__sub__'), ('neg', 'neg', 'q', '__neg__'),
    ('mul', 'mul', 'qq', '__mul__'), ('muls', 'muls', 'qs', '__mul__'), ('rmuls', 'muls', 'qs', '__rmul__'),
    ('imul', 'mul', 'qq', '__mul__'),
    ('div', 'div', 'qq', '__truediv__'), ('divs', 'divs', 'qs', '__truediv__'),
    ('olddiv', 'div', 'qq', '__div__'), ('olddivs', 'divs', 'qs', '__div__'),
    ('conj', 'conj', 'q', 'conjugate'), ('inv', 'inv', 'q', 'inverse'), ('sq', 'sq', 'q', 'squared_norm'),
    ('norm', 'norm', 'q', 'norm'), ('comp', 'comp', 'q', 'x'), ('copy', 'copy', 'q', 'copy'),
    ('chain', 'chain', 'qqq', '__mul__'), ('one', 'one', 'q', 'inverse'),
]


def operands(kinds, plain=False):
    def build(it, st):
        r = []
        for n, k in zip('abc', kinds):
            if k == 's':
                r.append(S('s'))
            elif plain:
                r.append(it.new_arr(st, (4,), [S(n + c) for c in 'xyzw']))
            else:
                r.append(quat(it, st, n))
        return r
    return build


def run(c):
    c.add_spec('spec_c01', SPEC)
    for d, ref, kinds, meth in CASES:
        w = c.where(QMOD, 'Quaternion.' + meth)
        got = c.run('spec_c01', 'd_' + d, operands(kinds))
        want = c.run('spec_c01', 'r_' + ref, operands(kinds, True))
        c.equal('Quaternion.%s[%s]' % (meth, d), 'algebra', w, got, want.value)
    # construction
    w = c.where(QMOD, 'Quaternion.__init__')
    c.add_spec('spec_c01b', '''
import numpy as np
from hand_eye_calibration.quaternion import Quaternion
def d_scalars(x, y, z, w): return Quaternion(x, y, z, w).q
def d_named(x, y, z, w): return Quaternion(w=w, z=z, y=y, x=x).q
def d_array(x, y, z, w): return Quaternion(q=np.array([x, y, z, w])).q
def d_default(): return Quaternion().q
def r_id(x, y, z, w): return np.array([x, y, z, w])
def r_default(): return np.array([0.0, 0.0, 0.0, 1.0])
''')
    args = lambda it, st: [S('x'), S('y'), S('z'), S('w')]
    want = c.run('spec_c01b', 'r_id', args)
    for d in ('scalars', 'named', 'array'):
        got = c.run('spec_c01b', 'd_' + d, args)
        c.equal('Quaternion(%s)' % d, 'construction', w, got, want.value)
    got = c.run('spec_c01b', 'd_default', lambda it, st: [])
    want = c.run('spec_c01b', 'r_default', lambda it, st: [])
    c.equal('Quaternion()', 'construction', w, got, want.value)
    # normalisation
    w = c.where(QMOD, 'Quaternion.normalize')
    got = c.run('spec_c01', 'd_normalize', operands('q'))
    want = c.run('spec_c01', 'r_normalize', operands('q', True))
    n2 = T.radd(T.radd(T.rpow(S('ax'), 2), T.rpow(S('ay'), 2)), T.radd(T.rpow(S('az'), 2), T.rpow(S('aw'), 2)))
    short = [dict(zip(['a' + x for x in 'xyzw'], [s * v for v in (0.6, -0.3, 0.2, 0.7)]))
             for s in (1e6, 1e3, 0.1, 1e-2, 1e-3, 1e-4, 1e-5, 2e-6)]
    c.equal('Quaternion.normalize', 'algebra', w, got, want.value, assume=T.lt(num('0.000001'), T.rsqrt(n2)),
            specials=short)
    zero = lambda it, st: [it.alloc(st, Obj('inst', {'q': it.new_arr(st, (4,), [T.ZERO] * 4)}, cls=QCLS))]
    got = c.run('spec_c01', 'd_normalize', zero)
    c.equal('Quaternion.normalize[zero]', 'algebra', w, got, T.farr((4,), [T.ZERO] * 4))
    c.assumptions.append('real arithmetic: rounding, overflow and NaN inputs are not modelled')
    return c.finish('other', 'value-flow summaries of every quaternion operator compared with the '
                    'reference algebra as normalised polynomials / rational functions in free components',
                    minimum=24)
