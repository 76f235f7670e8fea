"""C13: pose errors and inlier flags"""
import math
import random
from vfa import terms as T
from vfa.terms import atom, num, band, TRUE
from vfa.core import *

SPEC = '''
import math
import numpy as np
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    compute_pose_error, evaluate_alignment, HandEyeConfig)

def d_error(a, b):
  return compute_pose_error(a, b)

def r_error(a, b):
  p = math.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + (a[2] - b[2]) ** 2)
  d = abs(a[3] * b[3] + a[4] * b[4] + a[5] * b[5] + a[6] * b[6])
  n = math.sqrt((a[3] ** 2 + a[4] ** 2 + a[5] ** 2 + a[6] ** 2) * (b[3] ** 2 + b[4] ** 2 + b[5] ** 2 + b[6] ** 2))
  return (p, 2.0 * np.arccos(np.clip(d / n, -1.0, 1.0)) * 180.0 / np.pi)

def cfg(tp, to):
  c = HandEyeConfig()
  c.ransac_position_error_threshold_m = tp
  c.ransac_orientation_error_threshold_deg = to
  return c

def d_eval(a, b, tp, to):
  return evaluate_alignment(a, b, cfg(tp, to))

def d_show(a, b, tp, to):
  return evaluate_alignment(a, b, cfg(tp, to), True)

def r_eval(a, b, tp, to):
  n = len(a)
  flags = []
  sp = 0.0
  so = 0.0
  for i in range(n):
    e = compute_pose_error(a[i], b[i])
    sp += e[0] * e[0]
    so += e[1] * e[1]
    flags.append(e[0] < tp and e[1] < to)
  return (math.sqrt(sp / n), math.sqrt(so / n), flags)
'''


def poseerr(it, st, args, kw):
    def f(s, a, b):
        x, y = it.freeze(s, a), it.freeze(s, b)
        return T.tup([atom(T.mk('app', 'poseerr', x, y, i)) for i in range(2)])
    return it.lift_st(st, f, *args[:2])


def _poseerr(a, b, i):
    import math
    a, b = nums(a), nums(b)
    if i == 0:
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a[:3], b[:3])))
    d = abs(sum(x * y for x, y in zip(a[3:7], b[3:7])))
    n = math.sqrt(sum(x * x for x in a[3:7]) * sum(x * x for x in b[3:7]))
    return math.degrees(2 * math.acos(min(1.0, d / n)))


FUNCS['poseerr'] = _poseerr


def rndpose(rng):
    return [rng.uniform(-1, 1) for _ in range(3)] + rndquat(rng)


def run(c):
    c.add_spec('spec_c13', SPEC)
    two = lambda it, st: [vec(it, st, 'a', 7), vec(it, st, 'b', 7)]
    w = c.where(HMOD, 'compute_pose_error')
    got = c.run('spec_c13', 'd_error', two, opaque=qprims('angle_between_quaternions'))
    want = c.run('spec_c13', 'r_error', two)
    sq = lambda n: T.radd(T.radd(T.rmul(S(n + '3'), S(n + '3')), T.rmul(S(n + '4'), S(n + '4'))),
                          T.radd(T.rmul(S(n + '5'), S(n + '5')), T.rmul(S(n + '6'), S(n + '6'))))
    ok = band(T.lt(num('0.001'), sq('a')), T.lt(num('0.001'), sq('b')))
    sp = []
    for a, b in ROT:
        for s in (1, -1, 3):
            d = {'a%d' % (i + 3): a[i] for i in range(4)}
            d.update({'b%d' % (i + 3): s * b[i] for i in range(4)})
            sp.append(d)
    c.equal('compute_pose_error', 'error of two poses', w, got, want.value, assume=ok, specials=sp,
            modulo=lambda a, b: same(a, b, 1e-6) or near_error(a, b))
    w = c.where(HMOD, 'evaluate_alignment')
    n = S('#p')
    lists = lambda it, st: [symarr(it, st, 'A', (7,), n), symarr(it, st, 'B', (7,), n), S('tp'), S('to')]
    op = {'compute_pose_error': poseerr}
    want = c.run('spec_c13', 'r_eval', lists, opaque=op)

    def other(rng, ctx):
        """errors around the thresholds, also exactly on them"""
        p = ctx['point']
        out = []
        for a in ctx['tab']['A']:
            r = rng.random()
            if r < 0.2:
                out.append(list(a))
            elif r < 0.35:
                b = list(a)
                b[rng.randrange(3)] += p['tp']
                out.append(b)
            elif r < 0.8:
                b = [x + rng.uniform(-1, 1) * p['tp'] for x in a[:3]]
                h = rng.uniform(0, 1.6) * p['to'] * math.pi / 360
                x, y, z, v = a[3:]
                s, k = math.sin(h), math.cos(h)
                out.append(b + [x * k + y * s, y * k - x * s, z * k + v * s, v * k - z * s])
            else:
                out.append(rndpose(rng))
            if rng.random() < 0.3:
                out[-1][3:] = [-x for x in out[-1][3:]]
        return out

    def thr(p):
        p['tp'] = 0.125 + abs(p['tp'])
        p['to'] = 1.0 + 40 * abs(p['to'])
        return p
    val = seqval({'#p': lambda r: r.randrange(1, 7)},
                 {'A': lambda rng, ctx: [rndpose(rng) for _ in range(ctx['lens']['#p'])], 'B': other})
    for d in ('d_eval', 'd_show'):
        got = c.run('spec_c13', d, lists, opaque=op)
        c.equal('evaluate_alignment[%s]' % d[2:], 'rms and inlier flags', w, got, want.value, val=val, gen=thr,
                points=150)
        if appnames(got.value) <= appnames(want.value):
            # errors on the thresholds: the pose error as an arbitrary function
            c.equal('evaluate_alignment[%s,thresholds]' % d[2:], 'rms and inlier flags', w, got, want.value, gen=thr,
                    val=seqval({'#p': lambda r: r.randrange(1, 7)}, {
                        'A': lambda rng, ctx: [rndpose(rng) for _ in range(ctx['lens']['#p'])],
                        'B': lambda rng, ctx: [rndpose(rng) for _ in range(ctx['lens']['#p'])]}, anyerr), points=150)
    c.assumptions.append('real arithmetic; quaternions of the poses are not zero; the orientation error of nearly equal '
                         'orientations may be reported as zero')
    return c.finish('other', 'value-flow summary of the pose error compared with the distance and angle formulas; '
                    'summary of the evaluation over lists of arbitrary length compared with a reference accumulation',
                    minimum=3)


def anyerr(rng, ctx):
    def f(v, a):
        k = random.Random(repr((v.seed, nums(a[0]), nums(a[1]), a[2]))).choice([0.0, 0.5, 1.0, 1.0, 1.5])
        return k * ctx['point'][('tp', 'to')[a[2]]]
    return {'poseerr': f}


def near_error(a, b):
    """orientations closer than the comparison tolerance may count as equal"""
    return same(a[0], b[0], 1e-6) and abs(a[1]) <= 2e-3 and abs(b[1]) <= 2e-3


ROT = [((0, 0, 0, 1), (0, 0, 0, 1)), ((0, 0, 0, 1), (1, 0, 0, 0)), ((0, 0, 0, 1), (0, 0, 0, -1)),
       ((1, 0, 0, 0), (0, 1, 0, 0)), ((.6, 0, 0, .8), (-.6, 0, 0, .8)), ((.6, 0, 0, .8), (.6, 0, 0, -.8)),
       ((.6, 0, 0, -.8), (.6, 0, 0, .8)), ((.8, 0, 0, .6), (-.8, 0, 0, .6)), ((.8, 0, 0, -.6), (.8, 0, 0, .6)),
       ((0, .96, 0, .28), (0, -.96, 0, .28)), ((.5, .5, .5, .5), (.5, .5, .5, -.5)), ((.5, .5, .5, .5), (-.5, .5, .5, .5))]
