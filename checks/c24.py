"""C24: evaluating a calibration on two recordings"""
import random
from vfa import core
from vfa.core import *
from vfa.terms import mk
from . import search as s
from .c14 import rnddq

CMOD = PKG + '.calibration_verification'
SPEC = '''
from hand_eye_calibration.calibration_verification import evaluate_calibration
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    HandEyeConfig, evaluate_alignment, align_paths_at_index, get_aligned_poses)
from hand_eye_calibration.time_alignment import compute_aligned_poses

def config(p, o):
  c = HandEyeConfig()
  c.ransac_position_error_threshold_m = p
  c.ransac_orientation_error_threshold_deg = o
  c.visualize = False
  return c

def d_eval(a, b, x, t, p, o):
  return evaluate_calibration(a, b, x, t, config(p, o))

def d_eval_kw(a, b, x, t, p, o):
  return evaluate_calibration(time_stamped_poses_W_E=b, time_stamped_poses_B_H=a, time_offset=t, dq_H_E=x, config=config(p, o))

def r_eval(a, b, x, t, p, o):
  h, e = compute_aligned_poses(a, b, t)
  if len(h) == 0:
    return ((float("inf"), float("inf")), 0)
  h = align_paths_at_index([DualQuaternion.from_pose_vector(r[1:]) for r in h], 0)
  e = align_paths_at_index([DualQuaternion.from_pose_vector(r[1:]) for r in e], 0)
  ph, pe = get_aligned_poses(h, e, x)
  p, o, flags = evaluate_alignment(ph, pe, config(p, o))
  n = 0
  for f in flags:
    n += f
  return ((p, o), n)
'''
F = 'evaluate_calibration'


def a_common(it, st, args, kw):
    a, b = [it.freeze(st, x) for x in args[:2]]
    n = atom(mk('app', 'ncommon', a, b, args[2]))
    return T.tup([it.new_sarr(st, mk('symseq', mk('app', 'common', a, b, args[2], i), n, ('arr', (8,))), (8,))
                  for i in range(2)])


def ncommon(v, args):
    return random.Random(repr((v.seed, v.rnd(args[:3])))).choice([0, 1, 2, 3, 4])


def common(v, args):
    r = random.Random(repr((v.seed, v.rnd(args))))
    out = []
    for k in range(ncommon(v, args)):
        p = core.rndquat(r)
        out.append(('farr', (8,), [float(k)] + [r.uniform(-1, 1) for _ in range(3)] + p))
    return out


def functions(rng, ctx):
    f = s.functions(rng, ctx)
    f.update({'ncommon': ncommon, 'common': common})
    return f


def run(c):
    c.add_spec('spec_c24', SPEC)
    w = c.where(CMOD, F)
    op = dict(s.OPAQUE, compute_aligned_poses=a_common, **dqprims())
    args = lambda it, st: [symarr(it, st, 'a', (8,)), symarr(it, st, 'b', (8,)), dquat(it, st, 'x'), S('t'), S('p'), S('o')]
    row = lambda n: lambda rng, ctx: [[float(i) + rng.random()] + [rng.uniform(-1, 1) for _ in range(3)] + core.rndquat(rng)
                                      for i in range(ctx['lens'][n])]
    val = seqval({'#a': lambda r: r.randrange(1, 4), '#b': lambda r: r.randrange(1, 4)}, {'a': row('#a'), 'b': row('#b')},
                 functions)
    for d in ('eval', 'eval_kw'):
        got = c.run('spec_c24', 'd_' + d, args, opaque=op)
        want = c.run('spec_c24', 'r_eval', args, opaque=op)
        c.equal('%s[%s]' % (F, d), 'errors and inlier count', w, got, want.value, val=val, assume=T.bnot(want.abort))
    c.assumptions.append('recordings with at least one pose; time alignment, path alignment, pose comparison and pose '
                         'conversion are those decided by C08, C14, C13 and C04')
    return c.finish('other', 'summary of the evaluation with its building blocks uninterpreted compared with a reference',
                    minimum=2)
