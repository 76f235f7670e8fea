"""C07: poses of the two sensors stay paired"""
from vfa import core
from vfa.core import *
from . import search as s
from .c14 import rnddq

SPEC = '''
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import prefilter_using_screw_axis

def d_filter(h, e, t):
  a, b = prefilter_using_screw_axis(h, e, t)
  return (len(b), [a[i].dq[0] - b[i].dq[0] for i in range(len(a))])

def r_filter(h, e, t):
  a, b = prefilter_using_screw_axis(h, e, t)
  return (len(a), [0.0 for i in range(len(a))])
'''
CONFIGS = [
    ('ransac', (False, False, 'scalar_part_equality', True, False, False)),
    ('ransac', (False, True, 'scalar_part_equality', True, True, False)),
    ('ransac', (False, False, 'rmse_threshold', True, True, False)),
    ('ransac', (False, True, 'rmse_threshold', False, False, False)),
    ('ransac', (True, True, 'scalar_part_equality', True, False, False)),
    ('ransac', (True, False, 'rmse_threshold', False, True, False)),
    ('baseline', (False, False, 'scalar_part_equality', True, False, False)),
    ('baseline', (False, True, 'scalar_part_equality', True, True, False)),
    ('baseline', (True, True, 'scalar_part_equality', True, False, False)),
    ('baseline', (True, False, 'scalar_part_equality', True, True, False)),
]
FUNC = {'ransac': 'compute_hand_eye_calibration_RANSAC', 'baseline': 'compute_hand_eye_calibration_BASELINE'}


def run(c):
    c.add_spec('spec_search', s.SPEC)
    c.add_spec('spec_c07', SPEC)
    val = seqval(dict(s.LENS, **{'#least': lambda r: r.randrange(1, 3)}), {'h': s.shifted, 'e': s.related}, s.paired, long=40)
    for d, cfg in CONFIGS:
        f = FUNC[d]
        w = c.where(HMOD, f)
        got = c.run('spec_search', 'd_%s_paired' % d, s.args(cfg), opaque=s.OPAQUE)
        want = c.run('spec_search', 'r_%s_paired' % d, s.args(cfg), opaque=s.OPAQUE)
        c.equal('%s[%s]' % (f, s.label(cfg)), 'pairs', w, got, want.value, val=val,
                assume=T.bnot(want.abort), points=20 if c.tier == 'quick' else 80)
    f = 'prefilter_using_screw_axis'
    n = S('#h')
    args = lambda it, st: [symlist(it, st, 'h', DKIND, n), symlist(it, st, 'e', DKIND, n), num('0.75')]
    op = dqprims('screw_axis')
    got = c.run('spec_c07', 'd_filter', args, opaque=op)
    want = c.run('spec_c07', 'r_filter', args, opaque=op)
    c.equal(f, 'pairs', c.where(HMOD, f), got, want.value, val=seqval({'#h': lambda r: r.randrange(2, 7)}, {
        'h': motions, 'e': labelled}), assume=T.bnot(want.abort))
    c.assumptions.append('the closed form, evaluation, path alignment and screw axes are uninterpreted building blocks here '
                         '(decided by C10, C13, C14, C04); at least two motions survive the pre-filter')
    return c.finish('other', 'summaries of the search and pre-filter loops, with the building blocks interpreted by '
                    'functions that tell whether the pairs handed to them belong together, compared with references '
                    'that select both lists with one index', minimum=len(CONFIGS) + 1)


def motions(rng, ctx):
    out = []
    for _ in range(ctx['lens']['#h']):
        if rng.random() < 0.2:
            out.append({'dq': [0., 0., 0., 1., 0., 0., 0., 0.]})
        elif out and rng.random() < 0.4:
            out.append({'dq': list(rng.choice(out)['dq'])})
        else:
            out.append(rnddq(rng))
    return out


def labelled(rng, ctx):
    """motions that share the first component with those of the other sensor"""
    out = []
    for m in ctx['tab']['h']:
        x = rnddq(rng)['dq']
        x[0] = m['dq'][0]
        out.append({'dq': x})
    return out
