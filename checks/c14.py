"""C14: path alignment, calibration evaluation poses, synthetic eye poses"""
import math
import random
from vfa import terms as T
from vfa.terms import atom, num, band, TRUE
from vfa import core
from vfa.core import *

SPEC = '''
import numpy as np
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    align_paths_at_index, get_aligned_poses, compute_dual_quaternions_with_offset)

def flip(d):
  if d.dq[3] < 0.0:
    return DualQuaternion.from_vector(-d.dq)
  return d

def rel(v, k, i, positive):
  r = v[k].inverse() * v[i]
  if positive:
    return flip(r).dq
  return r.dq

def raw(v):
  return [d.dq for d in v]

def d_align(v, k): return raw(align_paths_at_index(v, k))
def d_align_kw(v, k): return raw(align_paths_at_index(v, align_index=k))
def d_align_free(v, k): return raw(align_paths_at_index(v, k, False))
def d_align_free_kw(v, k): return raw(align_paths_at_index(v, k, enforce_positive_q_rot_w=False))
def d_align_first(v, k): return raw(align_paths_at_index(v))
def r_align(v, k):
  return [rel(v, k, i, True) for i in range(k, len(v))] + [rel(v, k, i, True) for i in range(k)]
def r_align_free(v, k):
  return [rel(v, k, i, False) for i in range(k, len(v))] + [rel(v, k, i, False) for i in range(k)]
def r_align_first(v, k):
  return [rel(v, 0, i, True) for i in range(len(v))]

def d_poses(h, e, x): return get_aligned_poses(h, e, x)
def r_poses(h, e, x):
  xi = x.inverse()
  w = []
  for i in range(len(e)):
    w.append(e[i] * xi)
  hands = [p.to_pose() for p in h]
  eyes = [(w[0].inverse() * p).to_pose() for p in w]
  return (np.array(hands), np.array(eyes))

def d_offset(h, x, b): return raw(compute_dual_quaternions_with_offset(h, x, b))
def r_offset(h, x, b):
  bi = b.inverse()
  out = []
  for p in h:
    d = (bi * p * x).dq
    out.append(d / np.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] + d[3] * d[3]))
  return out
'''


def rnddq(rng, unit=True):
    q = rndquat(rng)
    if rng.random() < 0.15:
        q = rng.choice([[0., 0., 0., 1.], [1., 0., 0., 0.], [0., 0., 0., -1.], [0., .6, 0., -.8]])
    t = [rng.uniform(-1, 1) for _ in range(3)]
    x = [0.5 * y for y in core._q(t + [0.], q)]
    s = 1.0 if unit else rng.uniform(0.5, 2)
    return {'dq': [s * y for y in q + x]}


def dqs(n):
    return lambda rng, ctx: [rnddq(rng) for _ in range(ctx['lens'][n])]


def unitdq(*names):
    def f(p):
        for n in names:
            rng = random.Random(repr(sorted((k, v) for k, v in p.items() if k.startswith(n))))
            for k, x in zip(('rx', 'ry', 'rz', 'rw', 'tx', 'ty', 'tz', 'tw'), rnddq(rng)['dq']):
                if n + k in p:
                    p[n + k] = x
        return p
    return f


def rows(v):
    """rows of an evaluated array"""
    if isinstance(v, tuple) and v and v[0] == 'fsarr':
        return [nums(x) for x in v[2]]
    if isinstance(v, tuple) and v and v[0] == 'farr' and len(v[1]) == 2:
        m = v[1][1]
        return [list(v[2][i * m:(i + 1) * m]) for i in range(v[1][0])]
    return None


def same_poses(a, b):
    """pairs of pose arrays, each pose up to the sign of its quaternion"""
    if not (isinstance(a, (tuple, list)) and len(a) == len(b)):
        return False
    for x, y in zip(a, b):
        x, y = rows(x), rows(y)
        if x is None or y is None or len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if len(p) != len(q) or not (same(p, q, 1e-6) or same(p[:3] + [-z for z in p[3:]], q, 1e-6)):
                return False
    return True


def same_motions(a, b):
    """lists of dual quaternions; the sign is free where the rotational scalar part vanishes"""
    if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
        return False
    for x, y in zip(a, b):
        x, y = nums(x), nums(y)
        if not (same(x, y, 1e-6) or abs(y[3]) < 1e-9 and same([-z for z in x], y, 1e-6)):
            return False
    return True


def run(c):
    c.add_spec('spec_c14', SPEC)
    op = dqprims('__mul__', 'inverse', 'to_pose')
    w = c.where(HMOD, 'align_paths_at_index')
    path = lambda it, st: [symlist(it, st, 'v', DKIND), S('#k')]
    val = seqval({'#v': lambda r: r.randrange(1, 6), '#k': 0}, {'v': dqs('#v')})

    def at(seed, pt):
        v = val(seed, pt)
        v.lens['#k'] = random.Random(seed).randrange(v.lens['#v'])
        return v
    for d, r in (('align', 'align'), ('align_kw', 'align'), ('align_free', 'align_free'),
                 ('align_free_kw', 'align_free'), ('align_first', 'align_first')):
        got = c.run('spec_c14', 'd_' + d, path, opaque=op)
        want = c.run('spec_c14', 'r_' + r, path, opaque=op)
        c.equal('align_paths_at_index[%s]' % d[5:], 'relative to the chosen pose', w, got, want.value, val=at, modulo=same_motions)
    w = c.where(HMOD, 'get_aligned_poses')
    n = S('#h')
    both = lambda it, st: [symlist(it, st, 'h', DKIND, n), symlist(it, st, 'e', DKIND, n), dquat(it, st, 'x')]
    got = c.run('spec_c14', 'd_poses', both, opaque=op)
    want = c.run('spec_c14', 'r_poses', both, opaque=op)
    c.equal('get_aligned_poses', 'evaluation poses', w, got, want.value, gen=unitdq('x'), modulo=same_poses,
            val=seqval({'#h': lambda r: r.randrange(1, 6)}, {'h': dqs('#h'), 'e': dqs('#h')}))
    w = c.where(HMOD, 'compute_dual_quaternions_with_offset')
    one = lambda it, st: [symlist(it, st, 'h', DKIND, n), dquat(it, st, 'x'), dquat(it, st, 'b')]
    got = c.run('spec_c14', 'd_offset', one, opaque=op)
    want = c.run('spec_c14', 'r_offset', one, opaque=op)
    c.equal('compute_dual_quaternions_with_offset', 'synthetic eye poses', w, got, want.value, gen=unitdq('x', 'b'),
            val=seqval({'#h': lambda r: r.randrange(1, 6)}, {'h': dqs('#h')}))
    c.assumptions.append('real arithmetic; unit dual quaternions; products, inverses and pose conversion are those decided '
                         'by C03 and C04')
    return c.finish('other', 'loop summaries of the list functions compared with reference definitions over lists of '
                    'arbitrary length; rigid motion primitives kept uninterpreted in the normal forms', minimum=7)
