"""C21: loop error of pairwise calibrations"""
import random
from vfa import core
from vfa.core import *
from .c14 import rnddq

CMOD = PKG + '.calibration_verification'
SPEC = '''
import numpy as np
import math
from hand_eye_calibration.calibration_verification import compute_loop_error
from hand_eye_calibration.dual_quaternion import DualQuaternion

def d_loop(v, n): return compute_loop_error(v, n)
def d_loop_kw(v, n): return compute_loop_error(results_dq_H_E=v, num_poses_sets=n, visualize=False)

def pair(n, i):
  # position of the pair (i, i + 1) in the list of all pairs of n sensors
  return i * n - i * (i + 1) // 2

def r_loop(v, n):
  d = v[0]
  for i in range(1, n - 1):
    d = d * v[pair(n, i)]
  d = d * v[n - 2].inverse()
  p = d.to_pose()
  w = abs(p[6])
  if w > 1.0:
    w = 1.0
  return (np.sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]), 2.0 * math.acos(w) * 180.0 / math.pi)
'''
F = 'compute_loop_error'


def run(c):
    c.add_spec('spec_c21', SPEC)
    w = c.where(CMOD, F)
    op = dqprims()
    n = S('#n')
    args = lambda it, st: [symlist(it, st, 'v', DKIND, T.rdiv(T.rmul(n, T.rsub(n, num(1))), num(2))), n]

    def data(rng, ctx):
        k = ctx['lens']['#n']
        if rng.random() < 0.3:
            # calibrations that close the loop
            p = [rnddq(rng)['dq'] for _ in range(k)]
            return [{'dq': mul(inv(p[i]), p[j])} for i in range(k) for j in range(i + 1, k)]
        return [rnddq(rng) for _ in range(k * (k - 1) // 2)]
    val = seqval({'#n': lambda r: r.randrange(2, 7)}, {'v': data})
    for d in ('loop', 'loop_kw'):
        got = c.run('spec_c21', 'd_' + d, args, opaque=op, cut=24)
        want = c.run('spec_c21', 'r_loop', args, opaque=op, cut=24)
        c.equal('%s[%s]' % (F, d), 'residual of the chain', w, got, want.value, val=val, assume=T.bnot(want.abort), tol=2e-5,
                points=60 if c.tier == 'quick' else 300)
    c.assumptions.append('real arithmetic; unit dual quaternions; products, inverses and pose conversion are those decided '
                         'by C03 and C04; at least two sensors')
    return c.finish('other', 'summary of the chain loops over a list of pairs of a symbolic number of sensors compared with '
                    'the product over consecutive pairs closed by the inverse of the direct calibration', minimum=2)


def inv(a):
    return [core._fdqinv(('', '', a), i) for i in range(8)]


def mul(a, b):
    return [core._fdqmul(('', '', a), ('', '', b), i) for i in range(8)]
