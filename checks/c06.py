"""Orientation interpolation."""
from vfa.core import *

SPEC = '''
import numpy as np
import bisect
from hand_eye_calibration.quaternion import (Quaternion, quaternion_slerp, quaternion_lerp, quaternion_nlerp,
                                             quaternions_interpolate)
from hand_eye_calibration.time_alignment import resample_quaternions_from_samples, resample_quaternions

def d_slerp(a, b, f): return quaternion_slerp(a, b, f).q
def d_slerp_neg(a, b, f): return quaternion_slerp(-a, b, f).q
def d_slerp_neg2(a, b, f): return quaternion_slerp(a, -b, f).q
def d_slerp_norm(a, b, f): return quaternion_slerp(a, b, f).norm()
def d_lerp(a, b, f): return quaternion_lerp(a, b, f).q
def d_nlerp(a, b, f): return quaternion_nlerp(a, b, f).q
def d_between(a, s, b, t, times): return quaternions_interpolate(a, s, b, t, times)
def d_resample(times, quaternions, samples): return resample_quaternions_from_samples(times, quaternions, samples)
def d_grid(times, quaternions, dt): return resample_quaternions(times, quaternions, dt)[1]
def d_gridq(times, quaternions, dt): return resample_quaternions(times, quaternions, dt)[0]

def r_first(a, b, f): return a.q
def r_second(a, b, f): return b.q
def r_slerp(a, b, f):
  if f == 0.0:
    return a.q
  if f == 1.0:
    return b.q
  p = a.q
  q = b.q
  d = p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
  if d < 0.0:
    d = -d
    p = -p
  theta = np.arccos(np.clip(d, -1.0, 1.0))
  return (np.sin((1 - f) * theta) * p + np.sin(f * theta) * q) / np.sin(theta)
def r_lerp(a, b, f): return (1 - f) * a.q + f * b.q
def r_nlerp(a, b, f):
  v = (1 - f) * a.q + f * b.q
  return v / np.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3])
def r_between(a, s, b, t, times):
  r = []
  for x in times:
    r.append(quaternion_slerp(a, b, (x - s) / (t - s)))
  return r
def r_resample(times, quaternions, samples):
  r = []
  for s in samples:
    k = bisect.bisect_left(times, s)
    if s == times[k]:
      r.append(quaternions[k])
    else:
      f = (s - times[k - 1]) / (times[k] - times[k - 1])
      r.append(quaternion_slerp(quaternions[k - 1], quaternions[k], f))
  return r
def r_grid(times, quaternions, dt):
  n = int((times[-1] - times[0]) / dt) + 1
  return np.linspace(times[0], times[-1], n)
def r_gridq(times, quaternions, dt):
  return r_resample(times, quaternions, r_grid(times, quaternions, dt))
'''

def upto_sign(a, b):
    if not (isinstance(a, tuple) and a[0] == 'farr'):
        return False
    neg = ('farr', a[1], [-x for x in a[2]])
    return same(a, b, 1e-6) or same(neg, b, 1e-6)


def roughly(a, b):
    if not (isinstance(a, tuple) and a[0] == 'farr'):
        return False
    neg = ('farr', a[1], [-x for x in a[2]])
    return same(a, b, 1e-4) or same(neg, b, 1e-4)


def same_rotations(a, b):
    """lists of quaternions, each up to its sign"""
    if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
        return False
    for x, y in zip(a, b):
        try:
            if not upto_sign(x[2]['q'], y[2]['q']):
                return False
        except (TypeError, KeyError, IndexError):
            return False
    return True


PAIRS = [dict(ax=a[0], ay=a[1], az=a[2], aw=a[3], bx=b[0], by=b[1], bz=b[2], bw=b[3]) for a, b in [
    ((0, 0, 0, 1), (1, 0, 0, 1)), ((0, 0, 0, 1), (1, 0, 0, -1)), ((0, 0, 0, -1), (0, 1, 0, 1)),
    ((1, 2, 3, 4), (4, 3, 2, 1)), ((1, 2, 3, 4), (-4, -3, -2, -1)), ((1, 0, 0, 0), (0, 1, 0, 0.1)),
    ((1, 0, 0, 0), (0.1, 1, 0, 0)), ((1, 0, 0, 0), (-0.1, 1, 0, 0)), ((1, 1, 1, 1), (1, 1, 1, 1.2)),
    ((1, 1, 1, 1), (-1, -1, -1, -1.2)), ((.1, .2, .3, .9), (.1, .2, .3, .91)), ((0, 0, 0, 1), (.3, .4, .5, .0))]]


def stamps(rng, ctx, n='#times', base=None):
    t = rng.choice([0.0, 0.0, -3.0, 100.0, rng.uniform(-5, 5)]) if base is None else base
    out = []
    for _ in range(ctx['lens'][n]):
        t = round(t * 64) / 64        # dyadic: grids over the range stay exact
        out.append(t)
        t += rng.choice([0.5, 1.0, 0.25, rng.uniform(0.05, 2.0)])
    return out


def inside(rng, ctx):
    """sample times in the recorded range: stored ones, between, first and last"""
    ts = ctx['tab']['times']
    out = []
    for _ in range(ctx['lens']['#samples']):
        r = rng.random()
        if r < 0.4:
            out.append(rng.choice(ts))
        elif r < 0.55:
            out.append(rng.choice([ts[0], ts[-1]]))
        else:
            i = rng.randrange(len(ts) - 1)
            f = rng.choice([1e-3, 1e-4, 1 - 1e-3]) if rng.random() < 0.25 else rng.uniform(0.05, 0.95)
            out.append(ts[i] + f * (ts[i + 1] - ts[i]))
    return out


def quats(n):
    return lambda rng, ctx: [{'q': rndquat(rng)} for _ in range(ctx['lens'][n])]


def run(c):
    c.add_spec('spec_c06', SPEC)
    two = lambda it, st: [quat(it, st, 'a'), quat(it, st, 'b'), S('f')]
    frac = band(T.lt(T.ZERO, S('f')), T.lt(S('f'), T.ONE))
    sl = c.where(QMOD, 'quaternion_slerp')

    def unit(p):
        p = unitq('a', 'b')(p)
        p['f'] = abs(p.get('f', 0.5)) % 1.0
        return p
    dot = T.ZERO
    for k in 'xyzw':
        dot = T.radd(dot, T.rmul(S('a' + k), S('b' + k)))
    apart = band(T.lt(T.rabs(dot), num('0.9999999')), T.lt(num('0.0000001'), T.rabs(dot)))
    sp = PAIRS + [dict(p, f=x) for p in PAIRS for x in (.5, .25, .9)]
    ends = lambda v: (lambda it, st: [quat(it, st, 'a'), quat(it, st, 'b'), v])
    for nm in ('slerp', 'lerp', 'nlerp'):
        w = c.where(QMOD, 'quaternion_' + nm)
        for e, v in (('first', T.ZERO), ('second', T.ONE)):
            got = c.run('spec_c06', 'd_' + nm, ends(v))
            want = c.run('spec_c06', 'r_' + e, ends(v))
            c.equal('quaternion_%s[%s]' % (nm, e), 'end points', w, got, want.value, gen=unit, specials=sp)
    got = c.run('spec_c06', 'd_slerp', two)
    want = c.run('spec_c06', 'r_slerp', two)
    c.equal('quaternion_slerp', 'shorter arc', sl, got, want.value, gen=unit, assume=band(frac, apart),
            specials=sp, modulo=upto_sign)
    for d in ('neg', 'neg2'):
        got = c.run('spec_c06', 'd_slerp_' + d, two)
        c.equal('quaternion_slerp[%s]' % d, 'sign independent', sl, got, want.value, gen=unit,
                assume=band(frac, apart), specials=sp, modulo=upto_sign)
    # rounding may put the product of two unit quaternions just outside [-1, 1]
    for nm, s in (('equal', 1), ('opposite', -1)):
        eps = num('1.000001')

        def near(it, st):
            b = [T.rmul(T.rmul(S('a' + k), eps), num(s)) for k in 'xyzw']
            return [quat(it, st, 'a'), it.alloc(st, Obj('inst', {'q': it.new_arr(st, (4,), b)}, cls=QCLS)), S('f')]
        got = c.run('spec_c06', 'd_slerp', near)
        want1 = c.run('spec_c06', 'r_first', two)
        c.equal('quaternion_slerp[%s]' % nm, 'domain of the inverse cosine', sl, got, want1.value, gen=unit,
                assume=frac, specials=sp, modulo=roughly)
    w = c.where(QMOD, 'quaternion_lerp')
    got = c.run('spec_c06', 'd_lerp', two)
    want = c.run('spec_c06', 'r_lerp', two)
    c.equal('quaternion_lerp', 'chord', w, got, want.value, gen=unit, assume=frac, specials=sp)
    w = c.where(QMOD, 'quaternion_nlerp')
    got = c.run('spec_c06', 'd_nlerp', two)
    want = c.run('spec_c06', 'r_nlerp', two)
    c.equal('quaternion_nlerp', 'chord', w, got, want.value, gen=unit, assume=band(frac, apart), specials=sp)
    # sequences
    op = qprims('quaternion_slerp')
    w = c.where(QMOD, 'quaternions_interpolate')
    pair = lambda it, st: [quat(it, st, 'a'), S('s'), quat(it, st, 'b'), S('t'), symarr(it, st, 'times')]
    got = c.run('spec_c06', 'd_between', pair, opaque=op)
    want = c.run('spec_c06', 'r_between', pair, opaque=op)

    def tt(p):
        p = unitq('a', 'b')(p)
        p['t'] = p['s'] + abs(p['t']) + 0.1
        return p

    def intimes(rng, ctx):
        p = ctx['point']
        return [p['s'] + x * (p['t'] - p['s']) for x in
                [rng.choice([0.0, 1.0, rng.random(), rng.random()]) for _ in range(ctx['lens']['#times'])]]
    c.equal('quaternions_interpolate', 'time fraction', w, got, want.value, gen=tt,
            val=seqval({'#times': lambda r: r.randrange(1, 5)}, {'times': intimes}), tol=1e-6)
    w = c.where(TMOD, 'resample_quaternions_from_samples')
    seq = lambda it, st: [symarr(it, st, 'times'), symlist(it, st, 'quats', QKIND, n=S('#times')),
                          symarr(it, st, 'samples')]
    got = c.run('spec_c06', 'd_resample', seq, opaque=op)
    want = c.run('spec_c06', 'r_resample', seq, opaque=op)
    val = seqval({'#times': lambda r: r.randrange(2, 7), '#samples': lambda r: r.randrange(1, 6)},
                 {'times': stamps, 'samples': inside, 'quats': quats('#times')})
    c.equal('resample_quaternions_from_samples', 'bracketing', w, got, want.value, val=val,
            points=None if c.tier == 'thorough' else 80, modulo=same_rotations)
    w = c.where(TMOD, 'resample_quaternions')
    grid = lambda it, st: [symarr(it, st, 'times'), symlist(it, st, 'quats', QKIND, n=S('#times')), S('dt')]
    got = c.run('spec_c06', 'd_grid', grid, opaque=op)
    want = c.run('spec_c06', 'r_grid', grid, opaque=op)

    def pos(p):
        p['dt'] = 0.05 + abs(p['dt']) / 2
        return p
    c.equal('resample_quaternions[grid]', 'grid', w, got, want.value, val=val, gen=pos)
    got = c.run('spec_c06', 'd_gridq', grid, opaque=op)
    want = c.run('spec_c06', 'r_gridq', grid, opaque=op)
    c.equal('resample_quaternions', 'grid', w, got, want.value, val=val, gen=pos, modulo=same_rotations)
    c.assumptions.append('real arithmetic; unit quaternions satisfy x^2+y^2+z^2+w^2=1 exactly except where stated; '
                         'time stamps strictly increase; resampling is judged with the two-point interpolation as an '
                         'uninterpreted function of its three arguments')
    return c.finish('other', 'value-flow summaries of the interpolation functions compared with the great-arc and '
                    'chord formulas and with a reference bracketing loop over sequences of arbitrary length',
                    minimum=16)
