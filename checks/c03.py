"""Dual quaternion arithmetic against dual-number-valued Hamilton quaternions."""
import math
from vfa.core import *

SPEC = '''
import numpy as np
from hand_eye_calibration.quaternion import Quaternion
from hand_eye_calibration.dual_quaternion import DualQuaternion

def d_add(a, b): return (a + b).dq
def d_sub(a, b): return (a - b).dq
def d_mul(a, b): return (a * b).dq
def d_imul(a, b):
  a *= b
  return a.dq
def d_muls(a, s): return (a * s).dq
def d_rmuls(a, s): return (s * a).dq
def d_div(a, b): return (a / b).dq
def d_divs(a, s): return (a / s).dq
def d_olddiv(a, b): return a.__div__(b).dq
def d_olddivs(a, s): return a.__div__(s).dq
def d_conj(a): return a.conjugate().dq
def d_inv(a): return a.inverse().dq
def d_norm(a): return a.norm()
def d_copy(a): return a.copy().dq
def d_rot(a): return a.q_rot.q
def d_dual(a): return a.q_dual.q
def d_comp(a): return (a.r_x, a.r_y, a.r_z, a.r_w, a.t_x, a.t_y, a.t_z, a.t_w)
def d_normalize(a):
  a.normalize()
  return a.dq
def d_scalar(a): return a.scalar().dq
def d_chain(a, b, c): return ((a * b) * c).dq
def d_one(a): return (a * a.inverse()).dq
def d_one_left(a): return (a.inverse() * a).dq
def d_positive(a):
  a.enforce_positive_q_rot_w()
  return a.dq
def d_init(a, b): return DualQuaternion(a, b).dq
def d_from_vector(v): return DualQuaternion.from_vector(v).dq
def d_same(a): return a == DualQuaternion(a.q_rot, a.q_dual)
def d_equal(a, b): return a == b
def d_other(a): return a == 3.0
def d_is_unit(a): return a.is_normalized()
def d_identity(): return DualQuaternion.identity().dq

def r_true(a): return True
def r_false(a): return False
def r_false2(a, b): return False
def r_is_unit(a):
  n = np.sqrt(np.dot(a[0:4], a[0:4]))
  return abs(n - 1.0) < 1e-7 and abs(np.dot(a[0:4], a[4:8])) < 1e-7
def cat(r, d): return np.array([r[0], r[1], r[2], r[3], d[0], d[1], d[2], d[3]])
def qmul(a, b):
  va = a[0:3]
  vb = b[0:3]
  v = a[3] * vb + b[3] * va + np.cross(va, vb)
  return np.array([v[0], v[1], v[2], a[3] * b[3] - np.dot(va, vb)])
def qinv(a):
  return np.array([-a[0], -a[1], -a[2], a[3]]) / np.dot(a, a)
def r_add(a, b): return a + b
def r_sub(a, b): return a - b
def r_mul(a, b):
  return cat(qmul(a[0:4], b[0:4]), qmul(a[0:4], b[4:8]) + qmul(a[4:8], b[0:4]))
def r_muls(a, s): return a * s
def r_divs(a, s): return a / s
def r_conj(a): return np.array([-a[0], -a[1], -a[2], a[3], -a[4], -a[5], -a[6], a[7]])
def r_inv(a):
  i = qinv(a[0:4])
  return cat(i, -qmul(qmul(i, a[4:8]), i))
def r_div(a, b): return r_mul(a, r_inv(b))
def r_norm(a):
  n = np.sqrt(np.dot(a[0:4], a[0:4]))
  return (n, np.dot(a[0:4], a[4:8]) / n)
def r_copy(a): return a
def r_rot(a): return a[0:4]
def r_dual(a): return a[4:8]
def r_comp(a): return (a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])
def r_normalize(a): return a / np.sqrt(np.dot(a[0:4], a[0:4]))
def r_scalar(a): return np.array([0.0, 0.0, 0.0, a[3], 0.0, 0.0, 0.0, a[7]])
def r_chain(a, b, c): return r_mul(a, r_mul(b, c))
def r_one(a): return np.array([0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0])
def r_positive(a):
  if a[3] < 0:
    return -a
  return a
def r_identity(): return np.array([0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0])
def r_init(a, b): return cat(a, b)
'''

CASES = [
    # driver, reference, operands, method
    ('add', 'add', 'dd', '__add__'), ('sub', 'sub', 'dd', '__sub__'), ('mul', 'mul', 'dd', '__mul__'),
    ('imul', 'mul', 'dd', '__mul__'), ('muls', 'muls', 'ds', '__mul__'), ('rmuls', 'muls', 'ds', '__rmul__'),
    ('div', 'div', 'dd', '__truediv__'), ('divs', 'divs', 'ds', '__truediv__'),
    ('olddiv', 'div', 'dd', '__div__'), ('olddivs', 'divs', 'ds', '__div__'),
    ('conj', 'conj', 'd', 'conjugate'), ('inv', 'inv', 'd', 'inverse'), ('norm', 'norm', 'd', 'norm'),
    ('copy', 'copy', 'd', 'copy'), ('rot', 'rot', 'd', 'q_rot'), ('dual', 'dual', 'd', 'q_dual'),
    ('comp', 'comp', 'd', 'r_x'), ('normalize', 'normalize', 'd', 'normalize'), ('scalar', 'scalar', 'd', 'scalar'),
    ('chain', 'chain', 'ddd', '__mul__'), ('one', 'one', 'd', 'inverse'), ('one_left', 'one', 'd', 'inverse'),
    ('positive', 'positive', 'd', 'enforce_positive_q_rot_w'), ('init', 'init', 'qq', '__init__'),
    ('from_vector', 'copy', 'v', 'from_vector'), ('from_vector', 'copy', 'l', 'from_vector'),
    ('identity', 'identity', '', 'identity'),
]
# short and long rotational parts
SCALES = [{n + 'r' + x: s * v for n in 'abc' for x, v in zip('xyzw', (.6, -.3, .2, .7))} for s in (1e3, .05, 1e-2, 1e-3)]
D8 = ('rx', 'ry', 'rz', 'rw', 'tx', 'ty', 'tz', 'tw')


def operands(kinds, plain=False):
    def build(it, st):
        r = []
        for n, k in zip('abc', kinds):
            if k == 's':
                r.append(S('s'))
            elif k == 'l' and not plain:
                r.append(it.new_list(st, T.flist([S(n + x) for x in D8])))
            elif k == 'q':
                r.append(it.new_arr(st, (4,), [S(n + x) for x in 'xyzw']) if plain else quat(it, st, n))
            elif plain or k == 'v':
                r.append(it.new_arr(st, (8,), [S(n + x) for x in D8]))
            else:
                r.append(dquat(it, st, n))
        return r
    return build


def run(c):
    c.add_spec('spec_c03', SPEC)
    for d, ref, kinds, meth in CASES:
        w = c.where(DMOD, 'DualQuaternion.' + meth)
        got = c.run('spec_c03', 'd_' + d, operands(kinds))
        want = c.run('spec_c03', 'r_' + ref, operands(kinds, True))
        big = TRUE
        for n, k in zip('abc', kinds):
            if k == 'd':
                n2 = T.ZERO
                for x in 'xyzw':
                    n2 = T.radd(n2, T.rpow(S(n + 'r' + x), 2))
                big = band(big, T.lt(num('0.000001'), T.rsqrt(n2)))
        c.equal('DualQuaternion.%s[%s%s]' % (meth, d, ' list' if kinds == 'l' else ''), 'algebra', w, got, want.value,
                assume=big, specials=SCALES)
    w = c.where(DMOD, 'DualQuaternion.__eq__')
    got = c.run('spec_c03', 'd_same', operands('d'))
    c.equal('DualQuaternion.__eq__[same]', 'equality', w, got, TRUE)
    for i, x in enumerate(D8):
        # operands that differ in a single component
        def build(it, st, i=i, by='0.5'):
            e = [S('a' + y) for y in D8]
            f = list(e)
            f[i] = T.radd(f[i], num(by))
            return [newdq(it, st, e), newdq(it, st, f)]
        got = c.run('spec_c03', 'd_equal', build)
        c.equal('DualQuaternion.__eq__[%s differs]' % x, 'equality', w, got, FALSE)
        got = c.run('spec_c03', 'd_equal', lambda it, st: build(it, st, i, '-0.01'))
        c.equal('DualQuaternion.__eq__[%s differs a little]' % x, 'equality', w, got, FALSE,
                gen=lambda p: {k: math.fmod(v, 4.) for k, v in p.items()})
    got = c.run('spec_c03', 'd_other', operands('d'))
    c.equal('DualQuaternion.__eq__[other type]', 'equality', w, got, FALSE)
    w = c.where(DMOD, 'DualQuaternion.is_normalized')
    got = c.run('spec_c03', 'd_is_unit', operands('d'))
    want = c.run('spec_c03', 'r_is_unit', operands('d', True))

    def some(p):
        """unit, scaled, non-orthogonal and general dual quaternions"""
        r, d = [p['ar' + x] for x in 'xyzw'], [p['at' + x] for x in 'xyzw']
        n = sum(x * x for x in r) ** .5
        k = int(abs(d[0]) * 1000) % 4
        if n < 1e-3:
            return p
        if k < 3:
            r = [x / n for x in r]
        if k in (0, 1):
            s = sum(x * y for x, y in zip(r, d))
            d = [y - s * x for x, y in zip(r, d)]
        if k == 1:
            r, d = [2 * x for x in r], [2 * x for x in d]
        p.update(zip(['ar' + x for x in 'xyzw'], r))
        p.update(zip(['at' + x for x in 'xyzw'], d))
        return p
    # norms a little off, k of the generator chosen by the first dual component: 3 leaves the point as it is
    near = [dict(zip(['a' + x for x in D8], [0., .6 * s, 0., .8 * s, 1.0035, -.8 * d, .5, .6 * d + e]))
            for s, d, e in ((1., .3, 0.), (1.001, .3, 0.), (.999, .3, 0.), (1.00005, 0., 0.), (1., .3, 1e-3), (1., 0., 1e-4))]
    c.equal('DualQuaternion.is_normalized', 'algebra', w, got, want.value, gen=some, specials=near)
    c.assumptions.append('real arithmetic: rounding, overflow and NaN inputs are not modelled')
    c.assumptions.append('operands with a rotational part of norm above 1e-6')
    return c.finish('other', 'value-flow summaries of every dual quaternion operator compared with the '
                    'reference algebra as normalised rational functions in free components', minimum=46)
