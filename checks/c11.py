"""C11: bookkeeping of the calibration searches"""
from vfa.core import *
from . import search as s

# exhaustive, prefilter, classification, refinement, evaluation on inliers only, early abort
RANSAC = [
    (False, False, 'scalar_part_equality', True, False, False),
    (False, True, 'scalar_part_equality', True, True, True),
    (False, False, 'rmse_threshold', True, False, True),
    (False, True, 'rmse_threshold', False, True, False),
    (False, False, 'rmse_threshold', False, False, False),
    (True, False, 'scalar_part_equality', True, False, False),
    (True, True, 'rmse_threshold', True, False, True),
    (True, False, 'rmse_threshold', False, True, False),
]
BASELINE = [(x, p, 'scalar_part_equality', True, i, False) for x in (False, True) for p, i in
            ((False, False), (True, True), (False, True))]


def run(c):
    c.add_spec('spec_search', s.SPEC)
    val = seqval(s.LENS, {'h': s.hands, 'e': s.eyes}, s.functions, long=40)
    for f, d, cfgs in (('compute_hand_eye_calibration_RANSAC', 'ransac', RANSAC),
                       ('compute_hand_eye_calibration_BASELINE', 'baseline', BASELINE)):
        w = c.where(HMOD, f)
        for cfg in cfgs:
            got = c.run('spec_search', 'd_' + d, s.args(cfg), opaque=s.OPAQUE)
            want = c.run('spec_search', 'r_' + d, s.args(cfg), opaque=s.OPAQUE)
            c.equal('%s[%s]' % (f, s.label(cfg)), 'search result', w, got, want.value, val=val,
                    assume=T.bnot(want.abort), points=30 if c.tier == 'quick' else 120)
    c.assumptions.append('no more than 40 samples per search, at most 6 poses, sample sizes 2 and 3; calibration, '
                         'evaluation and pre-filter are arbitrary functions of their arguments, a calibration may fail')
    return c.finish('other', 'result of each search compared with that of a reference search that keeps one record per '
                    'sample', minimum=14)
