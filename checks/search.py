"""shared parts of the checks of the two search procedures (C07, C11, C12)"""
import math
import random
from vfa import core
from vfa import terms as T
from vfa.terms import atom, num, mk
from vfa.core import *
from vfa.valuate import h01
from .c14 import rnddq

SPEC = '''
import copy
import itertools
import math
import random
import numpy as np
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    HandEyeConfig, align_paths_at_index, compute_hand_eye_calibration, evaluate_alignment, get_aligned_poses,
    prefilter_using_screw_axis, compute_hand_eye_calibration_BASELINE, compute_hand_eye_calibration_RANSAC)

def out(r):
  d = None
  if r[1] is not None:
    d = r[1].dq
  return (r[0], d, r[2], r[3], r[4], r[6], r[7])

def config(size, iters, least, exhaustive, prefilter, method, refine, inliers_only, abort):
  c = HandEyeConfig()
  c.algorithm_name = 'x'
  c.ransac_sample_size = size
  c.ransac_max_number_iterations = iters
  c.min_num_inliers = least
  c.enable_exhaustive_search = exhaustive
  c.prefilter_poses_enabled = prefilter
  c.prefilter_dot_product_threshold = 0.875
  c.ransac_sample_rejection_scalar_part_equality_tolerance = 0.02
  c.hand_eye_calibration_scalar_part_equality_tolerance = 0.04
  c.ransac_enable_early_abort = abort
  c.ransac_outlier_probability = 0.25
  c.ransac_success_probability_threshold = 0.9
  c.ransac_inlier_classification = method
  c.ransac_position_error_threshold_m = 0.03
  c.ransac_orientation_error_threshold_deg = 1.5
  c.ransac_model_refinement = refine
  c.ransac_evaluate_refined_model_on_inliers_only = inliers_only
  c.visualize = False
  return c

def d_ransac_found(h, e, *cfg):
  return out(compute_hand_eye_calibration_RANSAC(h, e, config(*cfg)))[1]

def r_ransac_found(h, e, *cfg):
  return r_ransac(h, e, *cfg)[1]

def d_baseline_found(h, e, *cfg):
  return out(compute_hand_eye_calibration_BASELINE(h, e, config(*cfg)))[1]

def r_baseline_found(h, e, *cfg):
  return r_baseline(h, e, *cfg)[1]

def d_ransac_paired(h, e, *cfg):
  r = out(compute_hand_eye_calibration_RANSAC(h, e, config(*cfg)))
  if not r[0]:
    return None
  return (r[1], r[2][0] < 0.0)

def r_ransac_paired(h, e, *cfg):
  r = r_ransac(h, e, *cfg)
  if not r[0]:
    return None
  return (r[1], False)

def d_baseline_paired(h, e, *cfg):
  r = out(compute_hand_eye_calibration_BASELINE(h, e, config(*cfg)))
  if not r[0]:
    return None
  return (r[1], r[2][0] < 0.0)

def r_baseline_paired(h, e, *cfg):
  r = r_baseline(h, e, *cfg)
  if not r[0]:
    return None
  return (r[1], False)

def d_ransac(h, e, *cfg):
  return out(compute_hand_eye_calibration_RANSAC(h, e, config(*cfg)))

def d_baseline(h, e, *cfg):
  return out(compute_hand_eye_calibration_BASELINE(h, e, config(*cfg)))

def match(a, b, tol):
  return np.allclose([a.dq[3], a.dq[7]], [b.dq[3], b.dq[7]], atol=tol)

def attempt(fh, fe, h, e, idx, c, method, refine, inliers_only):
  # (evaluated, inliers, calibration, singular values, status, errors) of one sample
  nothing = (False, 0, None, None, None, 0.0, 0.0)
  sh = align_paths_at_index([fh[i] for i in idx], 0)
  se = align_paths_at_index([fe[i] for i in idx], 0)
  if len(idx) > 1:
    for i in range(len(idx)):
      if not match(se[i], sh[i], 0.02):
        return nothing
  ah = align_paths_at_index(h, idx[0])
  ae = align_paths_at_index(e, idx[0])
  model = None
  if method == "rmse_threshold":
    try:
      model, sv, bad = compute_hand_eye_calibration(sh, se, 0.04)
    except:
      return nothing
    ph, pe = get_aligned_poses(ah, ae, model)
    p, o, flags = evaluate_alignment(ph, pe, c)
    for i in range(len(h)):
      if flags[i] and not match(ae[i], ah[i], 0.02):
        return nothing
  else:
    flags = [match(ae[i], ah[i], 0.02) for i in range(len(h))]
  ih = [ah[i] for i in range(len(h)) if flags[i]]
  ie = [ae[i] for i in range(len(h)) if flags[i]]
  if len(ih) < c.min_num_inliers:
    return nothing
  if refine or model is None:
    try:
      model, sv, bad = compute_hand_eye_calibration(ih, ie, 0.04)
    except:
      return nothing
  if inliers_only:
    ph, pe = get_aligned_poses(ih, ie, model)
  else:
    ph, pe = get_aligned_poses(ah, ae, model)
  p, o, flags = evaluate_alignment(ph, pe, c)
  return (True, len(ih), model, sv, bad, p, o)

def r_ransac(h, e, size, iters, least, exhaustive, prefilter, method, refine, inliers_only, abort):
  c = config(size, iters, least, exhaustive, prefilter, method, refine, inliers_only, abort)
  if prefilter:
    fh, fe = prefilter_using_screw_axis(h, e, 0.875)
  else:
    fh, fe = h, e
  n = len(fh)
  best = None
  p, o, count, sv, bad = np.inf, np.inf, 0, None, True
  done = 0
  drawn = 0
  if exhaustive:
    samples = list(itertools.combinations(range(n), size))
  while (drawn < len(samples)) if exhaustive else (done < iters):
    if exhaustive:
      idx = samples[drawn]
    else:
      idx = random.sample(range(n), size)
    drawn += 1
    r = attempt(fh, fe, h, e, idx, c, method, refine, inliers_only)
    if not r[0]:
      continue
    if r[5] < p and r[6] < o:
      p, o, count, best, sv, bad = r[5], r[6], r[1], r[2], r[3], r[4]
    done += 1
    if abort and not exhaustive:
      if done > math.log(1.0 - 0.9) / math.log(1.0 - (1.0 - 0.25) ** size):
        break
  if best is None:
    return (False, None, (p, o), count, n, None, True)
  return (True, best.dq, (p, o), count, n, sv, bad)

def opposite(a, b):
  return (a < 0.0 and b > 0.0) or (a > 0.0 and b < 0.0)

def inliers(h, e, j):
  ah = align_paths_at_index(h, j)
  ae = align_paths_at_index(e, j)
  return ([ah[i] for i in range(len(h)) if match(ae[i], ah[i], 1e-2)],
          [ae[i] for i in range(len(h)) if match(ae[i], ah[i], 1e-2)])

def r_baseline(h, e, size, iters, least, exhaustive, prefilter, method, refine, inliers_only, abort):
  c = config(size, iters, least, exhaustive, prefilter, method, refine, inliers_only, abort)
  e = [DualQuaternion.from_vector(-e[i].dq) if opposite(e[i].dq[3], h[i].dq[3]) else e[i] for i in range(len(e))]
  if prefilter:
    fh, fe = prefilter_using_screw_axis(h, e, 0.875)
  else:
    fh, fe = h, e
  n = len(fh)
  best = -1
  count = least - 1
  if exhaustive:
    for j in range(n):
      k = len(inliers(fh, fe, j)[0])
      if k > count:
        count = k
        best = j
  else:
    for j in range(n):
      k = len(inliers(fh, fe, j)[0])
      if k > least:
        best = j
        count = k
        break
  assert best >= 0
  ih, ie = inliers(fh, fe, best)
  try:
    model, sv, bad = compute_hand_eye_calibration(ih, ie, 0.04)
  except:
    return (False, None, (None, None), None, n, None, None)
  if inliers_only:
    ph, pe = get_aligned_poses(ih, ie, model)
  else:
    ph, pe = get_aligned_poses(align_paths_at_index(h, best), align_paths_at_index(e, best), model)
  p, o, flags = evaluate_alignment(ph, pe, c)
  return (True, model.dq, (p, o), count, n, sv, bad)
'''


def a_align(it, st, args, kw):
    v = it.freeze(st, it.as_seq(st, args[0]))
    i = args[1] if len(args) > 1 else T.ZERO
    pos = args[2] if len(args) > 2 else T.TRUE
    return it.new_list(st, mk('symseq', mk('app', 'alignpath', v, i, pos), T.seq_len(v), DKIND))


def _alignpath(v, i, pos):
    i = int(round(i))
    if not 0 <= i < len(v):
        raise ValueError
    v = [nums(x[2]['dq']) for x in v]
    inv = [core._fdqinv(('', '', v[i]), k) for k in range(8)]
    out = []
    for x in v[i:] + v[:i]:
        y = [core._fdqmul(('', '', inv), ('', '', x), k) for k in range(8)]
        if pos and y[3] < 0:
            y = [-z for z in y]
        out.append(('fobj', DCLS, {'dq': ('farr', (8,), y)}))
    return out


FUNCS['alignpath'] = _alignpath


def a_calib(it, st, args, kw):
    h, e = [it.freeze(st, it.as_seq(st, a)) for a in args[:2]]
    key = (h, e, args[2] if len(args) > 2 else num('0.01'), args[3] if len(args) > 3 else T.TRUE)
    it.raises.append((T.band(it.cur_pc(st), T.bool_atom(mk('app', 'calibfails', *key))), None, it.fname(), 'calibration'))
    b = mk('symseq', mk('app', 'calib', *key), num(8), 'num')
    d = newdq(it, st, [T.seq_get(b, num(i)) for i in range(8)])
    s = it.new_sarr(st, mk('symseq', mk('app', 'calibsv', *key), num(8), 'num'), ())
    return T.tup([d, s, T.bool_atom(mk('app', 'calibbad', *key))])


def a_poses(it, st, args, kw):
    h, e = [it.freeze(st, it.as_seq(st, a)) for a in args[:2]]
    x = it.freeze(st, args[2])
    return T.tup([it.new_sarr(st, mk('symseq', mk('app', 'poses', h, e, x, i), T.seq_len(h), ('arr', (7,))), (7,))
                  for i in range(2)])


def a_eval(it, st, args, kw):
    a, b = [it.freeze(st, x) for x in args[:2]]
    cfg = [it.getattr(st, args[2], n) for n in ('ransac_position_error_threshold_m',
                                                'ransac_orientation_error_threshold_deg')]
    n = T.seq_len(a.args[1]) if a.op == 'fsarr' else atom(mk('app', 'len', a))
    return T.tup([atom(mk('app', 'evalpos', a, b)), atom(mk('app', 'evalori', a, b)),
                  it.new_list(st, mk('symseq', mk('app', 'evalflags', a, b, *cfg), n, 'num'))])


def a_prefilter(it, st, args, kw):
    h, e = [it.freeze(st, it.as_seq(st, a)) for a in args[:2]]
    th = args[2] if len(args) > 2 else num('0.95')
    n = atom(mk('app', 'kept', h, e, th))
    return T.tup([it.new_list(st, mk('symseq', mk('app', 'prefilter', x, y, th), n, DKIND))
                  for x, y in ((h, e), (e, h))])


OPAQUE = {'align_paths_at_index': a_align, 'compute_hand_eye_calibration': a_calib, 'get_aligned_poses': a_poses,
          'evaluate_alignment': a_eval, 'prefilter_using_screw_axis': a_prefilter}


def h(v, what, args):
    return h01(v.seed, what, v.rnd(args))


def poses(v, args):
    # enough of the poses to tell matching pairs, marked by the calibration used
    m = h(v, 'poses', args[2])
    return [('farr', (7,), [m] + nums(x[2]['dq'])[1:7]) for x in args[int(args[3])]]


def flags(v, args):
    r = random.Random(repr((v.seed, 'flags', v.rnd(args))))
    r2 = r.choice([0.0, 0.0, 0.05])
    return [1] + [int(abs(x[2][3] - y[2][3]) < 0.015 and r.random() < 0.85 or r.random() < r2)
                  for x, y in zip(args[0][2][1:], args[1][2][1:])]


def kept(v, args):
    return max(1, len(args[0]) - int(h(v, 'kept', args[2]) * 3))


def prefilter(v, args):
    return args[0][:kept(v, args)]


def calib(v, args):
    r = random.Random(repr((v.seed, v.rnd(args))))
    return rnddq(r)['dq']


def calibsv(v, args):
    r = random.Random(repr((v.seed, 'sv', v.rnd(args))))
    return [r.choice([3.0, 1.0, 0.7, 0.1]) for _ in range(8)]


def functions(rng, ctx):
    """random interpretation of the building blocks of a search"""
    quality = rng.choice(['mixed', 'mixed', 'improving', 'ties'])
    failing = rng.choice([0.0, 0.15, 0.4])
    seen = {}

    def err(name):
        def f(v, args):
            if quality == 'improving':
                k = v.rnd(args)
                seen.setdefault(k, len(seen))
                return 100.0 - seen[k]
            x = h(v, name, args)
            return 1.0 + int(x * 4) if quality == 'ties' else 1.0 + int(x * 40) / 10.0
        return f
    return {'calib': calib, 'calibsv': calibsv, 'calibfails': lambda v, a: h(v, 'fails', a) < failing,
            'calibbad': lambda v, a: h(v, 'bad', a) < 0.5,
            'poses': poses, 'evalpos': err('evalpos'), 'evalori': err('evalori'), 'evalflags': flags,
            'kept': kept, 'prefilter': prefilter}


def ranked(rng, ctx):
    """interpretation in which the samples are totally ordered by both errors and nothing fails"""
    order = rng.choice(['first', 'last', 'random', 'random', 'random'])
    seen = {}

    def err(v, args):
        k = v.rnd(args)
        seen.setdefault(k, len(seen))
        if order == 'random':
            return 1.0 + h(v, 'err', args)
        return 1000.0 - seen[k] if order == 'last' else 1.0 + seen[k]
    no = lambda v, a: False
    return {'calib': calib, 'calibsv': calibsv, 'calibfails': no, 'calibbad': no, 'poses': poses,
            'evalpos': err, 'evalori': err, 'evalflags': flags, 'kept': kept, 'prefilter': prefilter}


def paired(rng, ctx):
    """interpretation that tells whether the pairs handed to the building blocks belong together"""
    x = ctx['x']
    lost = rng.choice([0.0, 0.2])

    def match(a, b):
        a, b = nums(a[2]['dq']), nums(b[2]['dq'])
        c = conj(x, a)
        return all(abs(p - q) < 1e-6 for p, q in zip(b, c)) or all(abs(p + q) < 1e-6 for p, q in zip(b, c))

    def pairs(args):
        return len(args[0]) == len(args[1]) and all(match(a, b) for a, b in zip(args[0], args[1]))

    def calib(v, args):
        return x if pairs(args) else [1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0]

    def poses(v, args):
        good = pairs(args) and all(abs(p - q) < 1e-6 for p, q in zip(nums(args[2][2]['dq']), x))
        return [('farr', (7,), [float(good)] + nums(y[2]['dq'])[1:7]) for y in args[int(args[3])]]

    def err(v, args):
        good = all(x[2][0] == 1.0 for y in args for x in y[2])
        return 1.0 + h(v, 'err', args) if good else -1.0

    def flags(v, args):
        r = random.Random(repr((v.seed, 'flags', v.rnd(args))))
        return [1] + [int(r.random() >= lost) for _ in args[0][2][1:]]

    def prefilter(v, args):
        r = random.Random(repr((v.seed, 'prefilter')))
        k = kept(v, args)
        return [args[0][i] for i in sorted(r.sample(range(len(args[0])), k))]
    no = lambda v, a: False
    return {'calib': calib, 'calibsv': calibsv, 'calibfails': no, 'calibbad': no, 'poses': poses,
            'evalpos': err, 'evalori': err, 'evalflags': flags, 'kept': kept, 'prefilter': prefilter}


def shifted(rng, ctx):
    """motions of one sensor that differ by translations only"""
    q = core.rndquat(rng)
    out = []
    for _ in range(ctx['lens']['#h']):
        t = [rng.uniform(-1, 1) for _ in range(3)]
        out.append({'dq': q + [0.5 * y for y in core._q(t + [0.], q)]})
    return out


def related(rng, ctx):
    x = ctx['x'] = rnddq(rng)['dq']
    b = rnddq(rng)['dq']
    if x[3] < 0:
        x = ctx['x'] = [-y for y in x]
    out = []
    for p in ctx['tab']['h']:
        e = [core._fdqmul(('', '', b), ('', '', p['dq']), k) for k in range(8)]
        e = [core._fdqmul(('', '', e), ('', '', x), k) for k in range(8)]
        out.append({'dq': [-y for y in e] if rng.random() < 0.3 else e})
    return out


def hands(rng, ctx):
    return [rnddq(rng) for _ in range(ctx['lens']['#h'])]


def conj(x, a):
    inv = ['', '', [core._fdqinv((0, 0, x), i) for i in range(8)]]
    t = [core._fdqmul(inv, ('', '', a), i) for i in range(8)]
    return [core._fdqmul(('', '', t), ('', '', x), i) for i in range(8)]


def eyes(rng, ctx):
    """the other sensor's poses: related by one transformation, except for outliers"""
    x = rnddq(rng)['dq']
    b = rnddq(rng)['dq']
    bad = rng.choice([0.0, 0.15, 0.3])
    out = []
    for i, h in enumerate(ctx['tab']['h']):
        p = h['dq'] if rng.random() >= bad else rnddq(rng)['dq']
        e = [core._fdqmul(('', '', b), ('', '', p), k) for k in range(8)]
        e = [core._fdqmul(('', '', e), ('', '', x), k) for k in range(8)]
        out.append({'dq': [-y for y in e] if rng.random() < 0.3 else e})
    return out


LENS = {'#h': lambda r: r.randrange(4, 7), '#more': lambda r: r.choice([0, 1]), '#iters': lambda r: r.randrange(1, 6),
        '#least': lambda r: r.randrange(1, 5)}


def args(flags):
    def build(it, st):
        it.explicit_raises = True
        n = S('#h')
        return [symlist(it, st, 'h', DKIND, n), symlist(it, st, 'e', DKIND, n), T.radd(S('#more'), num(2)), S('#iters'), S('#least')] + \
            [T.const(x) if isinstance(x, str) else (T.TRUE if x else T.FALSE) for x in flags]
    return build


def label(f):
    return ','.join([('random', 'exhaustive')[f[0]], f[2]] + [n for n, x in zip(
        ('prefilter', 'refine', 'inliers only', 'early abort'), (f[1],) + f[3:]) if x])
