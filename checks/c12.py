"""C12: samples visited by the calibration search"""
from vfa.core import *
from . import search as s

# exhaustive, prefilter, classification, refinement, evaluation on inliers only, early abort
CONFIGS = [
    (False, False, 'scalar_part_equality', True, False, False),
    (False, True, 'scalar_part_equality', True, False, True),
    (False, False, 'rmse_threshold', False, False, True),
    (False, True, 'rmse_threshold', True, False, False),
    (True, False, 'scalar_part_equality', True, False, False),
    (True, True, 'scalar_part_equality', True, False, True),
    (True, False, 'rmse_threshold', False, True, True),
]


def run(c):
    c.add_spec('spec_search', s.SPEC)
    val = seqval(s.LENS, {'h': s.hands, 'e': s.eyes}, s.ranked, long=40)
    f = 'compute_hand_eye_calibration_RANSAC'
    w = c.where(HMOD, f)
    for cfg in CONFIGS:
        got = c.run('spec_search', 'd_ransac_found', s.args(cfg), opaque=s.OPAQUE)
        want = c.run('spec_search', 'r_ransac_found', s.args(cfg), opaque=s.OPAQUE)
        c.equal('%s[%s]' % (f, s.label(cfg)), 'samples visited', w, got, want.value, val=val,
                assume=T.bnot(want.abort), points=40 if c.tier == 'quick' else 160)
    c.assumptions.append('no more than 40 samples per search, at most 6 poses, sample sizes 2 and 3; the building blocks '
                         'are arbitrary functions that rank the samples')
    return c.finish('other', 'the best sample of the search loop compared with that of a reference enumeration, under '
                    'interpretations of the building blocks that single out the first, the last or an arbitrary sample',
                    minimum=len(CONFIGS))
