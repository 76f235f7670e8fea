"""C08: time aligned poses"""
import bisect
import math
import random
from vfa import terms as T
from vfa.terms import num
from vfa.core import *
from vfa.npmodel import m_len
from vfa.valuate import FUNCS
from .c14 import rows

SPEC = '''
import numpy as np
import bisect
from hand_eye_calibration.quaternion import Quaternion, quaternion_slerp
from hand_eye_calibration.time_alignment import interpolate_poses_from_samples, compute_aligned_poses

def d_interp(p, s): return interpolate_poses_from_samples(p, s)
def r_interp(p, s):
  r = np.zeros((len(s), 8))
  t = p[:, 0]
  for i in range(len(s)):
    k = bisect.bisect_left(t, s[i])
    r[i, 0] = s[i]
    if s[i] == t[k]:
      r[i, 1:4] = p[k, 1:4]
      r[i, 4:8] = p[k, 4:8]
    else:
      f = (s[i] - t[k - 1]) / (t[k] - t[k - 1])
      r[i, 1:4] = p[k - 1, 1:4] + f * (p[k, 1:4] - p[k - 1, 1:4])
      r[i, 4:8] = quaternion_slerp(Quaternion(q=p[k - 1, 4:8]), Quaternion(q=p[k, 4:8]), f).q
  return r

def d_aligned(a, b, o): return compute_aligned_poses(a, b, o)
def d_aligned_kw(a, b, o):
  return compute_aligned_poses(time_stamped_poses_B=b, time_stamped_poses_A=a, time_offset=o, plot=False)

def r_aligned(a, b, o):
  x = a.copy()
  x[:, 0] = x[:, 0] + o
  ta = x[:, 0]
  tb = b[:, 0]
  if np.median(np.diff(a[:, 0])) >= np.median(np.diff(b[:, 0])):
    s = common(ta, tb)
  else:
    s = common(tb, ta)
  return (interpolate_poses_from_samples(x, np.array(s)), interpolate_poses_from_samples(b, np.array(s)))

def common(low, high):
  n = len(high)
  s = []
  for t in low:
    if high[0] <= t and t <= high[n - 2]:
      k = min(bisect.bisect_left(high, t), n - 1)
      if high[k] == t:
        s.append(t)
      elif t - high[max(k - 1, 0)] < 0.1 and high[k] - t < 0.1:
        s.append(t)
  return s
'''


def poses(it, st, args, kw):
    def f(s, a, b):
        n = m_len(it, s, [b], {}, None)
        return it.new_sarr(s, T.mk('symseq', T.mk('app', 'iposes', it.freeze(s, a), it.freeze(s, b)), n,
                                   ('arr', (8,))), (8,))
    return it.lift_st(st, f, *args)


def _iposes(table, stamps):
    ps, out = rows(table), []
    ts = [p[0] for p in ps]
    for t in nums(stamps):
        k = bisect.bisect_left(ts, t)
        if k == len(ts) or k == 0 and ts[0] != t:
            return math.nan
        if ts[k] == t:
            out.append(('farr', (8,), list(ps[k])))
            continue
        f = (t - ts[k - 1]) / (ts[k] - ts[k - 1])
        p, q = ps[k - 1], ps[k]
        r = [FUNCS['qslerp'](('', '', p[4:]), ('', '', q[4:]), f, i) for i in range(4)]
        out.append(('farr', (8,), [t] + [p[i] + f * (q[i] - p[i]) for i in (1, 2, 3)] + r))
    return out


FUNCS['iposes'] = _iposes


def track(name, n, step):
    """recording with gaps"""
    def f(rng, ctx):
        base = ctx.setdefault('base', rng.choice([0.0, 10.0, -2.0]))
        t = base + rng.randrange(-32, 32) / 64
        out = []
        st = ctx.setdefault('steps', [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])])[step]
        for _ in range(ctx['lens'][n]):
            out.append([t] + [rng.uniform(-1, 1) for _ in range(3)] + rndquat(rng))
            t += rng.choice([st, st, st, st + 1, 5, 9, 12]) / 64
        return out
    return f


def run(c):
    c.add_spec('spec_c08', SPEC)
    w = c.where(TMOD, 'interpolate_poses_from_samples')
    op = qprims('quaternion_slerp')
    one = lambda it, st: [symarr(it, st, 'p', (8,)), symarr(it, st, 's')]
    got = c.run('spec_c08', 'd_interp', one, opaque=op)
    want = c.run('spec_c08', 'r_interp', one, opaque=op)

    def samples(rng, ctx):
        ts = [p[0] for p in ctx['tab']['p']]
        out = []
        for _ in range(ctx['lens']['#s']):
            i = rng.randrange(len(ts) - 1)
            f = rng.choice([0.0, 1.0, 1e-3, 1 - 1e-3, rng.uniform(0.05, 0.95), rng.uniform(0.05, 0.95)])
            out.append(ts[i] + f * (ts[i + 1] - ts[i]))
        return sorted(out)

    def same_rows(a, b):
        x, y = rows(a), rows(b)
        if x is None or y is None or len(x) != len(y):
            return False
        return all(len(p) == len(q) and (same(p, q, 1e-6) or same(p[:4] + [-z for z in p[4:]], q, 1e-6))
                   for p, q in zip(x, y))
    c.equal('interpolate_poses_from_samples', 'interpolation at the stamps', w, got, want.value, modulo=same_rows,
            val=seqval({'#p': lambda r: r.randrange(2, 8), '#s': lambda r: r.randrange(1, 6)},
                       {'p': track('p', '#p', 0), 's': samples}))
    w = c.where(TMOD, 'compute_aligned_poses')
    two = lambda it, st: [symarr(it, st, 'a', (8,)), symarr(it, st, 'b', (8,)), S('o')]

    def offset(p):
        p['o'] = random.Random(repr(sorted(p.items()))).randrange(-40, 40) / 64
        return p

    def fpose(rng, ctx):
        return {}
    for d in ('aligned', 'aligned_kw'):
        got = c.run('spec_c08', 'd_' + d, two, opaque={'interpolate_poses_from_samples': poses})
        want = c.run('spec_c08', 'r_aligned', two, opaque={'interpolate_poses_from_samples': poses})
        c.equal('compute_aligned_poses[%s]' % d[8:], 'common stamps', w, got, want.value, gen=offset, points=300,
                val=seqval({'#a': lambda r: r.randrange(3, 14), '#b': lambda r: r.randrange(3, 14)},
                           {'a': track('a', '#a', 0), 'b': track('b', '#b', 1)}))
    c.assumptions.append('real arithmetic; strictly increasing stamps, at least three poses per recording')
    return c.finish('other', 'summaries of the interpolation and sample selection compared with a reference selection',
                    minimum=3)
