"""C10: linear system and closed-form solution of the hand-eye calibration"""
import math
import random
from vfa import core
from vfa import terms as T
from vfa.terms import atom, num, band, TRUE
from vfa.core import *
from vfa.valuate import rnd as vrnd
from .c14 import rnddq

SPEC = '''
import numpy as np
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    compute_hand_eye_calibration, setup_t_matrix, setup_s_matrix, skew_from_vector)

def d_skew(v): return skew_from_vector(v)
def r_skew(v):
  return np.array([[0.0, -v[2], v[1]], [v[2], 0.0, -v[0]], [-v[1], v[0], 0.0]])

def d_s(a, b): return setup_s_matrix(a, b)
def r_s(a, b):
  x = a.dq
  y = b.dq
  s = np.zeros((6, 8))
  s[0:3, 0:3] = r_skew(x[0:3] + y[0:3])
  s[0:3, 3] = x[0:3] - y[0:3]
  s[3:6, 0:3] = r_skew(x[4:7] + y[4:7])
  s[3:6, 3] = x[4:7] - y[4:7]
  s[3:6, 4:7] = r_skew(x[0:3] + y[0:3])
  s[3:6, 7] = x[0:3] - y[0:3]
  return s

def d_residual(a, x):
  # any solution x of a * x = x * b is in the null space of the block
  b = x.inverse() * a * x
  s = setup_s_matrix(a, b)
  return np.dot(s, x.dq)
def r_residual(a, x):
  return np.zeros(6)

def d_t(a, b): return setup_t_matrix(a, b)
def r_t(a, b):
  t = np.zeros((6 * len(a), 8))
  for i in range(len(a)):
    t[6 * i:6 * i + 6, :] = setup_s_matrix(a[i], b[i])
  return t

def out(r):
  return (r[0].dq, r[1], r[2])

def d_calib(h, e, tol): return out(compute_hand_eye_calibration(h, e, tol))
def d_calib_sign(h, e, tol): return out(compute_hand_eye_calibration(h, e, tol, True))
def d_calib_free(h, e, tol):
  return out(compute_hand_eye_calibration(h, e, tol, enforce_same_non_dual_scalar_sign=False))

def signed(h, e):
  r = []
  for i in range(len(h)):
    if h[i].dq[3] * e[i].dq[3] < 0.0:
      r.append(DualQuaternion.from_vector(-e[i].dq))
    else:
      r.append(e[i])
  return r

def r_calib(h, e, tol): return solve(h, signed(h, e))
def r_calib_free(h, e, tol): return solve(h, e)

def solve(h, e):
  t = setup_t_matrix(h, e)
  u, s, v = np.linalg.svd(t)
  p = v[6]
  q = v[7]
  a = np.dot(p[0:4], p[4:8])
  b = np.dot(p[0:4], q[4:8]) + np.dot(q[0:4], p[4:8])
  c = np.dot(q[0:4], q[4:8])
  disc = b * b - 4.0 * a * c
  if disc < 0.0:
    disc = 0.0
  best = None
  r1 = (-b + np.sqrt(disc)) / (2.0 * a)
  r2 = (-b - np.sqrt(disc)) / (2.0 * a)
  d1 = r1 * p + q
  d2 = r2 * p + q
  n1 = np.sqrt(np.dot(d1[0:4], d1[0:4]))
  n2 = np.sqrt(np.dot(d2[0:4], d2[0:4]))
  if n1 > n2:
    d = d1 / n1
  else:
    d = d2 / n2
  if d[3] < 0.0:
    d = -d
  bad = False
  for i in range(6):
    if s[i] < 0.5:
      bad = True
  for i in range(6, 8):
    if s[i] > 0.5:
      bad = True
  return (d, s, bad)
'''


def smat(it, st, args, kw):
    def f(s, a, b):
        return it.new_arr(s, (6, 8), comps('smat', 48, core._dqvec(it, s, a), core._dqvec(it, s, b)))
    return it.lift_st(st, f, *args[:2])


def tmat(it, st, args, kw):
    a, b = it.freeze(st, args[0]), it.freeze(st, args[1])
    rows = T.mk('symseq', T.mk('app', 'tmat', a, b), T.rmul(num(6), T.seq_len(a)), ('arr', (8,)))
    return it.new_sarr(st, rows, (8,))


def _smat(a, b, i):
    x, y = nums(a), nums(b)
    r, c = divmod(i, 8)

    def skew(v, r, c):
        return [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]][r][c]
    o = 4 if r >= 3 else 0
    if c < 3:
        return skew([x[o + k] + y[o + k] for k in range(3)], r % 3, c)
    if c == 3:
        return x[o + r % 3] - y[o + r % 3]
    if r < 3:
        return 0.0
    if c < 7:
        return skew([x[k] + y[k] for k in range(3)], r % 3, c - 4)
    return x[r % 3] - y[r % 3]


FUNCS['smat'] = _smat


def conj(x, a):
    """x^-1 a x"""
    inv = ['', '', [core._fdqinv((0, 0, x), i) for i in range(8)]]
    t = [core._fdqmul(inv, ('', '', a), i) for i in range(8)]
    return [core._fdqmul(('', '', t), ('', '', x), i) for i in range(8)]


NAMES = ('rx', 'ry', 'rz', 'rw', 'tx', 'ty', 'tz', 'tw')


def matching(p):
    """two motions related by a third one"""
    rng = random.Random(repr(sorted(p.items())))
    a, x = rnddq(rng)['dq'], rnddq(rng)['dq']
    b = conj(x, a)
    for n, v in (('a', a), ('b', b), ('x', x)):
        for k, y in zip(NAMES, v):
            p[n + k] = y
    return p


def run(c):
    c.add_spec('spec_c10', SPEC)
    w = c.where(HMOD, 'skew_from_vector')
    one = lambda it, st: [vec(it, st, 'v', 3)]
    got = c.run('spec_c10', 'd_skew', one)
    want = c.run('spec_c10', 'r_skew', one)
    c.equal('skew_from_vector', 'cross product matrix', w, got, want.value)
    w = c.where(HMOD, 'setup_s_matrix')
    two = lambda it, st: [dquat(it, st, 'a'), dquat(it, st, 'b')]
    got = c.run('spec_c10', 'd_s', two)
    want = c.run('spec_c10', 'r_s', two)
    c.equal('setup_s_matrix', 'screw constraint', w, got, want.value, gen=matching)
    ax = lambda it, st: [dquat(it, st, 'a'), dquat(it, st, 'x')]
    op = dqprims('__mul__', 'inverse')
    got = c.run('spec_c10', 'd_residual', ax, opaque=op)
    want = c.run('spec_c10', 'r_residual', ax, opaque=op)
    c.equal('setup_s_matrix[solution]', 'screw constraint', w, got, want.value, gen=matching)

    w = c.where(HMOD, 'setup_t_matrix')
    n = S('#h')
    lists = lambda it, st: [symlist(it, st, 'h', DKIND, n), symlist(it, st, 'e', DKIND, n)]
    got = c.run('spec_c10', 'd_t', lists, opaque={'setup_s_matrix': smat})
    want = c.run('spec_c10', 'r_t', lists, opaque={'setup_s_matrix': smat})

    def hands(rng, ctx):
        return [{'dq': [0., 0., 0., 1., 0., 0., 0., 0.]}] + [turning(rng) for _ in range(ctx['lens']['#h'] - 1)]

    def eyes(rng, ctx):
        x = rnddq(rng)['dq']
        out = []
        for i, h in enumerate(ctx['tab']['h']):
            e = conj(x, h['dq'])
            out.append({'dq': [-y for y in e] if i and rng.random() < 0.5 else e})
        return out
    val = seqval({'#h': lambda r: r.randrange(2, 6)}, {'h': hands, 'e': eyes})
    c.equal('setup_t_matrix', 'stacked system', w, got, want.value, val=val)

    w = c.where(HMOD, 'compute_hand_eye_calibration')
    full = lambda it, st: [symlist(it, st, 'h', DKIND, n), symlist(it, st, 'e', DKIND, n), num('0.01')]

    def svd(rng, ctx):
        def value(v, args):
            return random.Random(repr((v.seed, vrnd(args))))

        def s(v, args):
            r = value(v, args)
            return sorted([r.choice([3.0, 1.0, 0.7, 0.6]) for _ in range(6)], reverse=True)[:r.randrange(5, 7)] + \
                [r.choice([0.2, 0.1, 0.6, 0.3, 0.05]) for _ in range(3)]

        def vm(v, args):
            # the last two rows span a null space of the kind a calibration has, up to noise
            r = value(v, args)
            x = rnddq(r)['dq']
            noise = r.choice([0.0, 0.0, 1e-3, 3e-2])
            last = [[y + noise * r.gauss(0, 1) for y in x],
                    [noise * r.gauss(0, 1) for _ in range(4)] + [y + noise * r.gauss(0, 1) for y in x[:4]]]
            if r.random() < 0.2:
                # nearly a double solution
                k = r.uniform(-1, 1)
                w = [y * r.uniform(0.9, 1.1) for y in x[4:]]
                last[1] = [1e-2 * r.gauss(0, 1) for _ in range(4)] + [y + k * z for y, z in zip(w, x[:4])]
            if r.random() < 0.3:
                # two solutions of comparable size
                while True:
                    p, q = last = ortho([[r.gauss(0, 1) for _ in range(8)] for _ in range(2)])
                    x, y, z, w = [sum(f * g for f, g in zip(u[:4], v[4:])) for u in last for v in last]
                    if (y + z) ** 2 - 4.0 * x * w > 0.05:
                        break
            t = r.uniform(0.2, 1.3)
            p, q = ortho(last)
            last = [[math.cos(t) * y + math.sin(t) * z for y, z in zip(p, q)],
                    [math.cos(t) * z - math.sin(t) * y for y, z in zip(p, q)]]
            if r.random() < 0.5:
                last = [last[1], last[0]]
            rows = ortho(last + [[r.gauss(0, 1) for _ in range(8)] for _ in range(6)])
            return [x for row in rows[2:] + rows[:2] for x in row]
        return {'svd_s': s, 'svd_v': vm}
    val = seqval({'#h': lambda r: r.randrange(2, 6)}, {'h': hands, 'e': eyes}, svd)
    plain = seqval({'#h': lambda r: r.randrange(2, 6)},
                   {'h': hands, 'e': lambda rng, ctx: signs(ctx['tab']['h'], eyes(rng, ctx))}, svd)
    for d, r, v in (('calib', 'calib', val), ('calib_sign', 'calib', val), ('calib_free', 'calib_free', plain)):
        got = c.run('spec_c10', 'd_' + d, full, opaque={'setup_t_matrix': tmat}, cut=24)
        want = c.run('spec_c10', 'r_' + r, full, opaque={'setup_t_matrix': tmat}, cut=24)
        c.equal('compute_hand_eye_calibration[%s]' % (d[6:] or 'default'), 'closed form', w, got, want.value, val=v, points=60)
    c.assumptions.append('real arithmetic; unit dual quaternions with matching scalar parts, first pair at the origin, at '
                         'least two pairs; the singular value decomposition is an uninterpreted function of the matrix')
    return c.finish('other', 'summaries of the block, stacking and solution functions compared with the screw constraint '
                    'and with a reference solution of the unit constraint', minimum=7)


def turning(rng):
    """a motion whose scalar part has a clear sign"""
    while True:
        x = rnddq(rng)
        if abs(x['dq'][3]) > 1e-3:
            return x


def ortho(rows):
    out = []
    for row in rows:
        for o in out:
            d = sum(x * y for x, y in zip(row, o))
            row = [x - d * y for x, y in zip(row, o)]
        m = math.sqrt(sum(x * x for x in row))
        out.append([x / m for x in row])
    return out


def signs(h, e):
    return [{'dq': [-z for z in y['dq']] if x['dq'][3] * y['dq'][3] < 0 else y['dq']} for x, y in zip(h, e)]
