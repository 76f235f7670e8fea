"""C23: which motions the screw axis pre-filter keeps"""
from vfa import core
from vfa.core import *
from .c14 import rnddq

SPEC = '''
import numpy as np
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import prefilter_using_screw_axis

def d_filter(h, e, t):
  a, b = prefilter_using_screw_axis(h, e, t)
  return ([x.dq for x in a], [x.dq for x in b])

def d_default(h, e):
  a, b = prefilter_using_screw_axis(h, e)
  return ([x.dq for x in a], [x.dq for x in b])

def still(x):
  return np.linalg.norm(x.screw_axis()[0]) <= 1e-12

def inner(x, y):
  a = x.screw_axis()[0]
  b = y.screw_axis()[0]
  return np.dot(a, b) / (np.linalg.norm(a) * np.linalg.norm(b))

def r_filter(h, e, t):
  kept = []
  for i in range(len(h)):
    good = not still(h[i]) and not still(e[i])
    if good:
      for k in kept:
        if inner(h[k], h[i]) > t or inner(e[k], e[i]) > t:
          good = False
    if good:
      kept.append(i)
  assert len(kept) >= 2
  return ([h[i].dq for i in kept], [e[i].dq for i in kept])

def r_default(h, e):
  return r_filter(h, e, 0.95)
'''
F = 'prefilter_using_screw_axis'


def run(c):
    c.add_spec('spec_c23', SPEC)
    n = S('#h')
    args = lambda it, st: [symlist(it, st, 'h', DKIND, n), symlist(it, st, 'e', DKIND, n)]
    op = dqprims('screw_axis')
    val = seqval({'#h': lambda r: r.randrange(2, 8)}, {'h': motions, 'e': motions})
    points = 60 if c.tier == 'quick' else 300
    w = c.where(HMOD, F)
    for t in ('0.5', '0.875', '-0.25', '0'):
        a = lambda it, st: args(it, st) + [num(t)]
        got = c.run('spec_c23', 'd_filter', a, opaque=op)
        want = c.run('spec_c23', 'r_filter', a, opaque=op)
        c.equal('%s[%s]' % (F, t), 'kept motions', w, got, want.value, val=val, assume=T.bnot(want.abort), points=points)
    got = c.run('spec_c23', 'd_default', args, opaque=op)
    want = c.run('spec_c23', 'r_default', args, opaque=op)
    c.equal(F + '[default]', 'kept motions', w, got, want.value, val=val, assume=T.bnot(want.abort), points=points)
    c.assumptions.append('real arithmetic; unit dual quaternions whose screw axis is the one decided by C04')
    return c.finish('other', 'summary of the nested filter loops (recurrences over both lists) compared with a greedy '
                    'reference definition for several thresholds and lists of arbitrary length', minimum=5)


def motions(rng, ctx):
    """unit dual quaternions; some without motion, some with equal, opposite or close axes"""
    out = []
    for _ in range(ctx['lens']['#h']):
        x = rng.random()
        if x < 0.12:
            out.append({'dq': [0., 0., 0., 1., 0., 0., 0., 0.]})
        elif x < 0.24 and out:
            out.append({'dq': list(rng.choice(out)['dq'])})
        elif x < 0.36 and out:
            d = rng.choice(out)['dq']
            out.append({'dq': [-d[0], -d[1], -d[2], d[3], -d[4], -d[5], -d[6], d[7]]})
        else:
            out.append(rnddq(rng))
    return out
