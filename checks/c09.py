"""C09: time offset between two recordings"""
import random
from vfa import terms as T
from vfa.terms import num
from vfa.core import *
from .c06 import stamps, quats

SPEC = '''
import numpy as np
from scipy import signal
from hand_eye_calibration.quaternion import angular_velocity_between_quaternions, Quaternion
from hand_eye_calibration.time_alignment import (
    calculate_time_offset_from_signals, calculate_time_offset, compute_angular_velocity_norms, resample_quaternions,
    filter_and_smooth_angular_velocity, FilteringConfig)

def d_lag(ta, a, tb, b): return calculate_time_offset_from_signals(ta, a, tb, b)
def d_lag_kw(ta, a, tb, b):
  return calculate_time_offset_from_signals(times_B=tb, signal_B=b, times_A=ta, signal_A=a, plot=False, block=True)
def r_lag(ta, a, tb, b):
  k = np.argmax(signal.correlate(b, a, 'full'))
  n = len(ta)
  return (k - (len(a) - 1)) * (ta[n - 1] - ta[0]) / (n - 1) + tb[0] - ta[0]

def d_smooth(v, k, p): return filter_and_smooth_angular_velocity(v, k, p)
def r_smooth(v, k, p):
  m = np.percentile(v, p)
  w = np.minimum(np.maximum(v, -m), m)
  return signal.correlate(w, np.ones((k, 1)) / k, 'same')

def d_norms(q, s, k, p): return compute_angular_velocity_norms(q, s, k, p)
def r_norms(q, s, k, p):
  n = len(q) - 1
  v = np.zeros((n, 3))
  for i in range(n):
    v[i, :] = angular_velocity_between_quaternions(q[i], q[i + 1], s[i + 1] - s[i])
  w = filter_and_smooth_angular_velocity(v, k, p)
  return [np.sqrt(w[i, 0] * w[i, 0] + w[i, 1] * w[i, 1] + w[i, 2] * w[i, 2]) for i in range(n)]

def config(ka, pa, kb, pb):
  f = FilteringConfig()
  f.smoothing_kernel_size_A = ka
  f.clipping_percentile_A = pa
  f.smoothing_kernel_size_B = kb
  f.clipping_percentile_B = pb
  return f

def d_offset(ta, qa, tb, qb, ka, pa, kb, pb):
  return calculate_time_offset(ta, qa, tb, qb, config(ka, pa, kb, pb))
def r_offset(ta, qa, tb, qb, ka, pa, kb, pb):
  na = len(ta)
  nb = len(tb)
  da = (ta[na - 1] - ta[0]) / (na - 1)
  db = (tb[nb - 1] - tb[0]) / (nb - 1)
  dt = da
  if db > da:
    dt = db
  (xa, sa) = resample_quaternions(ta, qa, dt)
  (xb, sb) = resample_quaternions(tb, qb, dt)
  va = compute_angular_velocity_norms(xa, sa, ka, pa)
  vb = compute_angular_velocity_norms(xb, sb, kb, pb)
  return calculate_time_offset_from_signals(sa[:len(sa) - 1], va, sb[:len(sb) - 1], vb)

def d_rate(a, b, t): return angular_velocity_between_quaternions(a, b, t)
def d_rate_neg(a, b, t): return angular_velocity_between_quaternions(-a, b, t)
def d_rate_neg2(a, b, t): return angular_velocity_between_quaternions(a, -b, t)
def d_rate_half(a, b, t): return 0.5 * angular_velocity_between_quaternions(a, b, 0.5 * t)
def r_rate(a, b, t):
  p = a.q
  q = b.q
  w = p[3] * q[3] + p[0] * q[0] + p[1] * q[1] + p[2] * q[2]
  x = q[3] * p[0:3] - p[3] * q[0:3] - np.cross(p[0:3], q[0:3])
  if w < 0.0:
    w = -w
    x = -x
  s = np.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
  return np.arccos(np.clip(w, -1.0, 1.0)) * x / s / t
'''


def run(c):
    c.add_spec('spec_c09', SPEC)
    w = c.where(QMOD, 'angular_velocity_between_quaternions')
    rate = lambda it, st: [quat(it, st, 'a'), quat(it, st, 'b'), S('t')]

    def unit(p):
        p = unitq('a', 'b')(p)
        p['t'] = abs(p['t']) + 0.01
        return p
    dot = T.ZERO
    for k in 'xyzw':
        dot = T.radd(dot, T.rmul(S('a' + k), S('b' + k)))
    apart = T.lt(num('0.0000001'), T.rabs(dot))
    want = c.run('spec_c09', 'r_rate', rate)
    for d in ('rate', 'rate_neg', 'rate_neg2', 'rate_half'):
        got = c.run('spec_c09', 'd_' + d, rate)
        c.equal('angular_velocity_between_quaternions[%s]' % d[5:], 'angular rate', w, got, want.value, gen=unit,
                assume=apart, tol=1e-5)

    w = c.where(TMOD, 'calculate_time_offset_from_signals')
    sig = lambda it, st: [symarr(it, st, 'ta', n=S('#a')), symlist(it, st, 'a', 'num'),
                          symarr(it, st, 'tb', n=S('#b')), symlist(it, st, 'b', 'num')]
    val = seqval({'#a': lambda r: r.randrange(2, 8), '#b': lambda r: r.randrange(2, 8)},
                 {'ta': lambda r, x: stamps(r, x, '#a'), 'tb': lambda r, x: stamps(r, x, '#b'),
                  'a': lambda r, x: [r.uniform(0, 2) for _ in range(x['lens']['#a'])],
                  'b': lambda r, x: [r.uniform(0, 2) for _ in range(x['lens']['#b'])]})
    for d in ('lag', 'lag_kw'):
        got = c.run('spec_c09', 'd_' + d, sig)
        want = c.run('spec_c09', 'r_lag', sig)
        c.equal('calculate_time_offset_from_signals[%s]' % d[4:], 'lag of the maximum', w, got, want.value, val=val)

    w = c.where(TMOD, 'filter_and_smooth_angular_velocity')
    vel = lambda it, st: [symarr(it, st, 'v', (3,)), S('#k'), S('p')]
    got = c.run('spec_c09', 'd_smooth', vel)
    want = c.run('spec_c09', 'r_smooth', vel)

    def pct(p):
        for k in ('p', 'pa', 'pb'):
            if k in p:
                p[k] = 50 + abs(p[k]) % 50
        return p
    c.equal('filter_and_smooth_angular_velocity', 'clipping and averaging', w, got, want.value, gen=pct,
            val=seqval({'#v': lambda r: r.randrange(2, 9), '#k': lambda r: r.randrange(1, 6)},
                       {'v': lambda r, x: [[r.uniform(-2, 2) for _ in range(3)] for _ in range(x['lens']['#v'])]}))

    w = c.where(TMOD, 'compute_angular_velocity_norms')
    op = qprims('quaternion_slerp', 'angular_velocity_between_quaternions')
    seq = lambda it, st: [symlist(it, st, 'q', QKIND), symarr(it, st, 's', n=S('#q')), S('#k'), S('p')]
    got = c.run('spec_c09', 'd_norms', seq, opaque=op)
    want = c.run('spec_c09', 'r_norms', seq, opaque=op)
    c.equal('compute_angular_velocity_norms', 'rates of consecutive orientations', w, got, want.value, gen=pct,
            val=seqval({'#q': lambda r: r.randrange(3, 8), '#k': lambda r: r.randrange(1, 5)},
                       {'q': quats('#q'), 's': lambda r, x: stamps(r, x, '#q')}))

    w = c.where(TMOD, 'calculate_time_offset')
    full = lambda it, st: [symarr(it, st, 'ta', n=S('#a')), symlist(it, st, 'qa', QKIND, n=S('#a')),
                           symarr(it, st, 'tb', n=S('#b')), symlist(it, st, 'qb', QKIND, n=S('#b')),
                           S('#ka'), S('pa'), S('#kb'), S('pb')]
    got = c.run('spec_c09', 'd_offset', full, opaque=op)
    want = c.run('spec_c09', 'r_offset', full, opaque=op)
    val = seqval({'#a': lambda r: r.randrange(4, 8), '#b': lambda r: r.randrange(4, 8),
                  '#ka': lambda r: r.randrange(1, 4), '#kb': lambda r: r.randrange(1, 4)},
                 {'ta': lambda r, x: stamps(r, x, '#a'), 'tb': lambda r, x: stamps(r, x, '#b'),
                  'qa': quats('#a'), 'qb': quats('#b')})
    c.equal('calculate_time_offset', 'common resampling step', w, got, want.value, gen=pct, val=val)
    c.assumptions.append('real arithmetic; strictly increasing stamps; library correlation and percentile by definition')
    return c.finish('other', 'summaries of the correlation, filtering and resampling steps compared with references',
                    minimum=8)
