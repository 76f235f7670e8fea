"""Operations neither modify nor share storage with their arguments, and keep no state."""
import math
from vfa import core
from vfa.core import *
from .c13 import poseerr
from .c14 import rnddq

HEAD = '''
import numpy as np
from hand_eye_calibration.quaternion import *
from hand_eye_calibration.quaternion import Quaternion, quaternion_slerp, quaternion_lerp, quaternion_nlerp
from hand_eye_calibration.quaternion import quaternions_interpolate, angle_between_quaternions
from hand_eye_calibration.quaternion import angular_velocity_between_quaternions
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
import hand_eye_calibration.dual_quaternion_hand_eye_calibration as he
import hand_eye_calibration.time_alignment as ta
import hand_eye_calibration.calibration_verification as cv

def settings(a, b):
  c = ta.FilteringConfig()
  c.clipping_percentile_A = a
  c.clipping_percentile_B = b
  c.smoothing_kernel_size_A = 3
  c.smoothing_kernel_size_B = 3
  return c

def limits(a, b):
  c = he.HandEyeConfig()
  c.ransac_position_error_threshold_m = a
  c.ransac_orientation_error_threshold_deg = b
  return c

def poke(x):
  if isinstance(x, Quaternion):
    x.q[0:4] = 7.0
  elif isinstance(x, DualQuaternion):
    x.dq[0:8] = 7.0
  elif isinstance(x, ExtrinsicCalibration):
    x.time_offset = 7.0
  elif isinstance(x, (tuple, list)):
    for y in x:
      poke(y)
  elif isinstance(x, np.ndarray):
    x[0:] = 7.0
'''

# kinds: q quaternion, d dual quaternion, s scalar, f fraction in (0,1), v vector, p pose, m 3x3, M 4x4 rigid,
#        K, L list of two, three dual quaternions, P list of three poses, t times, Q list of quaternions, e calibration
OPS = [
    # name, expression, kinds, module, qualified name, result fresh
    ('Quaternion.__add__', 'a + b', 'qq', QMOD, 'Quaternion.__add__', 1),
    ('Quaternion.__sub__', 'a - b', 'qq', QMOD, 'Quaternion.__sub__', 1),
    ('Quaternion.__neg__', '-a', 'q', QMOD, 'Quaternion.__neg__', 1),
    ('Quaternion.__mul__', 'a * b', 'qq', QMOD, 'Quaternion.__mul__', 1),
    ('Quaternion.__mul__[scalar]', 'a * b', 'qs', QMOD, 'Quaternion.__mul__', 1),
    ('Quaternion.__rmul__', 'b * a', 'qs', QMOD, 'Quaternion.__rmul__', 1),
    ('Quaternion.__truediv__', 'a / b', 'qq', QMOD, 'Quaternion.__truediv__', 1),
    ('Quaternion.__truediv__[scalar]', 'a / b', 'qs', QMOD, 'Quaternion.__truediv__', 1),
    ('Quaternion.copy', 'a.copy()', 'q', QMOD, 'Quaternion.copy', 1),
    ('Quaternion.conjugate', 'a.conjugate()', 'q', QMOD, 'Quaternion.conjugate', 1),
    ('Quaternion.inverse', 'a.inverse()', 'q', QMOD, 'Quaternion.inverse', 1),
    ('Quaternion.norm', '(a.norm(), a.squared_norm())', 'q', QMOD, 'Quaternion.norm', 1),
    ('Quaternion.rotate_vector', 'a.rotate_vector(b)', 'qv', QMOD, 'Quaternion.rotate_vector', 1),
    ('Quaternion.to_rotation_matrix', 'a.to_rotation_matrix()', 'q', QMOD, 'Quaternion.to_rotation_matrix', 1),
    ('Quaternion.to_transformation_matrix', 'a.to_transformation_matrix()', 'q', QMOD,
     'Quaternion.to_transformation_matrix', 1),
    ('Quaternion.angle_axis', 'a.angle_axis()', 'q', QMOD, 'Quaternion.angle_axis', 1),
    ('Quaternion.from_rotation_matrix', 'Quaternion.from_rotation_matrix(a)', 'm', QMOD,
     'Quaternion.from_rotation_matrix', 1),
    ('Quaternion.from_angle_axis', 'Quaternion.from_angle_axis(a, b)', 'sv', QMOD, 'Quaternion.from_angle_axis', 1),
    ('Quaternion(q)', 'Quaternion(q=a)', '4', QMOD, 'Quaternion.__init__', 1),
    ('Quaternion()', 'Quaternion()', '', QMOD, 'Quaternion.__init__', 1),
    ('quaternion_slerp', 'quaternion_slerp(a, b, c)', 'qqf', QMOD, 'quaternion_slerp', 1),
    ('quaternion_slerp[0]', 'quaternion_slerp(a, b, 0.0)', 'qq', QMOD, 'quaternion_slerp', 1),
    ('quaternion_slerp[1]', 'quaternion_slerp(a, b, 1.0)', 'qq', QMOD, 'quaternion_slerp', 1),
    ('quaternion_lerp', 'quaternion_lerp(a, b, c)', 'qqf', QMOD, 'quaternion_lerp', 1),
    ('quaternion_lerp[0]', 'quaternion_lerp(a, b, 0.0)', 'qq', QMOD, 'quaternion_lerp', 1),
    ('quaternion_nlerp[1]', 'quaternion_nlerp(a, b, 1.0)', 'qq', QMOD, 'quaternion_nlerp', 1),
    ('quaternion_nlerp', 'quaternion_nlerp(a, b, c)', 'qqf', QMOD, 'quaternion_nlerp', 1),
    ('angle_between_quaternions', 'angle_between_quaternions(a, b)', 'qq', QMOD, 'angle_between_quaternions', 1),
    ('angular_velocity_between_quaternions', 'angular_velocity_between_quaternions(a, b, c)', 'qqs', QMOD,
     'angular_velocity_between_quaternions', 1),
    ('DualQuaternion.__add__', 'a + b', 'dd', DMOD, 'DualQuaternion.__add__', 1),
    ('DualQuaternion.__sub__', 'a - b', 'dd', DMOD, 'DualQuaternion.__sub__', 1),
    ('DualQuaternion.__mul__', 'a * b', 'dd', DMOD, 'DualQuaternion.__mul__', 1),
    ('DualQuaternion.__mul__[scalar]', 'a * b', 'ds', DMOD, 'DualQuaternion.__mul__', 1),
    ('DualQuaternion.__rmul__', 'b * a', 'ds', DMOD, 'DualQuaternion.__rmul__', 1),
    ('DualQuaternion.__truediv__', 'a / b', 'dd', DMOD, 'DualQuaternion.__truediv__', 1),
    ('DualQuaternion.__truediv__[scalar]', 'a / b', 'ds', DMOD, 'DualQuaternion.__truediv__', 1),
    ('DualQuaternion.copy', 'a.copy()', 'd', DMOD, 'DualQuaternion.copy', 1),
    ('DualQuaternion.conjugate', 'a.conjugate()', 'd', DMOD, 'DualQuaternion.conjugate', 1),
    ('DualQuaternion.inverse', 'a.inverse()', 'd', DMOD, 'DualQuaternion.inverse', 1),
    ('DualQuaternion.norm', 'a.norm()', 'd', DMOD, 'DualQuaternion.norm', 1),
    ('DualQuaternion.is_normalized', 'a.is_normalized()', 'd', DMOD, 'DualQuaternion.is_normalized', 1),
    ('DualQuaternion.scalar', 'a.scalar()', 'd', DMOD, 'DualQuaternion.scalar', 1),
    ('DualQuaternion.screw_axis', 'a.screw_axis()', 'd', DMOD, 'DualQuaternion.screw_axis', 1),
    ('DualQuaternion.q_rot', 'a.q_rot', 'd', DMOD, 'DualQuaternion.q_rot', 1),
    ('DualQuaternion.q_dual', 'a.q_dual', 'd', DMOD, 'DualQuaternion.q_dual', 1),
    ('DualQuaternion.to_pose', 'a.to_pose()', 'd', DMOD, 'DualQuaternion.to_pose', 1),
    ('DualQuaternion.to_matrix', 'a.to_matrix()', 'd', DMOD, 'DualQuaternion.to_matrix', 1),
    ('DualQuaternion.passive_transform_point', 'a.passive_transform_point(b)', 'dv', DMOD,
     'DualQuaternion.passive_transform_point', 1),
    ('DualQuaternion.active_transform_point', 'a.active_transform_point(b)', 'dv', DMOD,
     'DualQuaternion.active_transform_point', 1),
    ('DualQuaternion(q, q)', 'DualQuaternion(a, b)', 'qq', DMOD, 'DualQuaternion.__init__', 1),
    ('DualQuaternion.from_vector', 'DualQuaternion.from_vector(a)', '8', DMOD, 'DualQuaternion.from_vector', 1),
    ('DualQuaternion.from_pose_vector', 'DualQuaternion.from_pose_vector(a)', 'p', DMOD,
     'DualQuaternion.from_pose_vector', 1),
    ('DualQuaternion.from_transformation_matrix', 'DualQuaternion.from_transformation_matrix(a)', 'M', DMOD,
     'DualQuaternion.from_transformation_matrix', 1),
    ('DualQuaternion.identity', 'DualQuaternion.identity()', '', DMOD, 'DualQuaternion.identity', 1),
    ('compute_dual_quaternions_with_offset', 'he.compute_dual_quaternions_with_offset(a, b, c)', 'Ldd', HMOD,
     'compute_dual_quaternions_with_offset', 1),
    ('align_paths_at_index', 'he.align_paths_at_index(a)', 'L', HMOD, 'align_paths_at_index', 1),
    ('align_paths_at_index[1]', 'he.align_paths_at_index(a, 1, False)', 'L', HMOD, 'align_paths_at_index', 1),
    ('skew_from_vector', 'he.skew_from_vector(a)', 'v', HMOD, 'skew_from_vector', 1),
    ('setup_s_matrix', 'he.setup_s_matrix(a, b)', 'dd', HMOD, 'setup_s_matrix', 1),
    ('setup_t_matrix', 'he.setup_t_matrix(a, b)', 'LL', HMOD, 'setup_t_matrix', 1),
    ('compute_pose_error', 'he.compute_pose_error(a, b)', 'pp', HMOD, 'compute_pose_error', 1),
    ('get_aligned_poses', 'he.get_aligned_poses(a, b, c)', 'LLd', HMOD, 'get_aligned_poses', 1),
    ('prefilter_using_screw_axis[2]', 'he.prefilter_using_screw_axis(a, b, 0.5)', 'KK', HMOD,
     'prefilter_using_screw_axis', 1),
    ('ExtrinsicCalibration.__mul__', 'a * b', 'ee', 'hand_eye_calibration.extrinsic_calibration',
     'ExtrinsicCalibration.__mul__', 1),
]
CMOD = PKG + '.calibration_verification'
EKIND = 'hand_eye_calibration.extrinsic_calibration'

# recordings and lists of any length: kinds x numbers, y list of numbers, i orientations, j motions, r rows of 8, c rows of 7,
# w rows of 3, n and s scalars, d a motion, f filter settings, g evaluation settings
LONG = [
    ('quaternions_interpolate', 'quaternions_interpolate(a, 0.25, b, 0.75, c)', 'qqx', QMOD),
    ('resample_quaternions_from_samples', 'ta.resample_quaternions_from_samples(a, b, c)', 'xix', TMOD),
    ('resample_quaternions', 'ta.resample_quaternions(a, b, c)', 'xis', TMOD),
    ('calculate_time_offset_from_signals', 'ta.calculate_time_offset_from_signals(a, b, c, d)', 'xyxy', TMOD),
    ('filter_and_smooth_angular_velocity', 'ta.filter_and_smooth_angular_velocity(a, 3, b)', 'ws', TMOD),
    ('compute_angular_velocity_norms', 'ta.compute_angular_velocity_norms(a, b, 3, c)', 'ixs', TMOD),
    ('calculate_time_offset', 'ta.calculate_time_offset(a, b, c, d, settings(e, f))', 'xixiss', TMOD),
    ('interpolate_poses_from_samples', 'ta.interpolate_poses_from_samples(a, b)', 'rx', TMOD),
    ('compute_aligned_poses', 'ta.compute_aligned_poses(a, b, c)', 'rrs', TMOD),
    ('align_paths_at_index[any]', 'he.align_paths_at_index(a)', 'j', HMOD),
    ('compute_dual_quaternions_with_offset[any]', 'he.compute_dual_quaternions_with_offset(a, b, c)', 'jdd', HMOD),
    ('get_aligned_poses[any]', 'he.get_aligned_poses(a, b, c)', 'jjd', HMOD),
    ('setup_t_matrix[any]', 'he.setup_t_matrix(a, b)', 'jj', HMOD),
    ('prefilter_using_screw_axis[any]', 'he.prefilter_using_screw_axis(a, b, 0.5)', 'jj', HMOD),
    ('evaluate_alignment', 'he.evaluate_alignment(a, b, limits(c, d))', 'ccss', HMOD),
    ('evaluate_calibration', 'cv.evaluate_calibration(a, b, c, d, limits(e, f))', 'rrdsss', CMOD),
    ('compute_loop_error', 'cv.compute_loop_error(a, 3)', 'j', CMOD),
]
D8 = ('rx', 'ry', 'rz', 'rw', 'tx', 'ty', 'tz', 'tw')


def make(it, st, k, n):
    if k == 'q':
        return quat(it, st, n)
    if k == 'd':
        return dquat(it, st, n)
    if k in 'sf':
        return S(n)
    if k == 'v':
        return vec(it, st, n, 3)
    if k == '4':
        return it.new_arr(st, (4,), [S(n + x) for x in 'xyzw'])
    if k == '8':
        return it.new_arr(st, (8,), [S(n + x) for x in D8])
    if k == 'p':
        return it.new_arr(st, (7,), [S(n + x) for x in ('px', 'py', 'pz', 'x', 'y', 'z', 'w')])
    if k == 'm':
        return it.new_arr(st, (3, 3), rotmat(n))
    if k == 'M':
        r = rotmat(n)
        t = [S(n + x) for x in ('px', 'py', 'pz')]
        return it.new_arr(st, (4, 4), r[0:3] + [t[0]] + r[3:6] + [t[1]] + r[6:9] + [t[2]] + [T.ZERO] * 3 + [T.ONE])
    if k in 'KL':
        return it.new_list(st, T.flist([dquat(it, st, n + str(i)) for i in range(2 if k == 'K' else 3)]))
    if k == 'e':
        return it.alloc(st, Obj('inst', {'time_offset': S(n + 'off'), 'pose_dq': dquat(it, st, n)},
                                cls=(EKIND, 'ExtrinsicCalibration')))
    raise KeyError(k)


def make_long(it, st, k, n):
    size = {'a': S('#a'), 'b': S('#a'), 'c': S('#c'), 'd': S('#c')}.get(n)
    if k == 'x':
        return symarr(it, st, n, n=size)
    if k == 'y':
        return symlist(it, st, n, 'num', size)
    if k == 'i':
        return symlist(it, st, n, QKIND, size)
    if k == 'j':
        return symlist(it, st, n, DKIND, size)
    if k in 'rcw':
        return symarr(it, st, n, ({'r': 8, 'c': 7, 'w': 3}[k],), size)
    return make(it, st, k, n)


def contents(kinds):
    """recordings of a few samples"""
    def numbers(n):
        return lambda r, x: sorted(r.uniform(0, 1) for _ in range(x['lens'][n]))

    def rows(n, m):
        return lambda r, x: [[i + r.random() / 2] + [r.uniform(-1, 1) for _ in range(m - 1)] for i in range(x['lens'][n])]
    el = {}
    for k, n in zip(kinds, 'abcdef'):
        size = '#a' if n in 'ab' else '#c'
        if k in 'xy':
            el[n] = numbers(size)
        elif k == 'i':
            el[n] = lambda r, x, size=size: [{'q': core.rndquat(r)} for _ in range(x['lens'][size])]
        elif k == 'j':
            el[n] = lambda r, x, size=size: [rnddq(r) for _ in range(x['lens'][size])]
        elif k in 'rcw':
            el[n] = rows(size, {'r': 8, 'c': 7, 'w': 3}[k])
    size = lambda r: r.randrange(3, 6)
    return seqval({'#a': size, '#c': size}, el)


def rotmat(n):
    x, y, z, w = [S(n + c) for c in 'xyzw']
    m, a, s = T.rmul, T.radd, T.rsub
    two = num(2)
    return [s(T.ONE, m(two, a(m(y, y), m(z, z)))), m(two, s(m(x, y), m(z, w))), m(two, a(m(x, z), m(y, w))),
            m(two, a(m(x, y), m(z, w))), s(T.ONE, m(two, a(m(x, x), m(z, z)))), m(two, s(m(y, z), m(x, w))),
            m(two, s(m(x, z), m(y, w))), m(two, a(m(y, z), m(x, w))), s(T.ONE, m(two, a(m(x, x), m(y, y))))]


def points(p):
    """unit rotations, dual parts orthogonal to them, fractions inside (0, 1)"""
    pre = set()
    for k in p:
        if k.endswith('rw'):
            pre.add((k[:-2], 'd'))
        elif k.endswith('w') and k[:-1] + 'x' in p and not k.endswith('tw'):
            pre.add((k[:-1], 'q'))
    for n, k in sorted(pre):
        if k == 'q':
            p = unitq(n)(p)
        else:
            p = unitq(n + 'r')(p)
            r = [p.get(n + 'r' + c, 0.) for c in 'xyzw']
            t = [p.get(n + 't' + c, 0.) for c in 'xyzw']
            d = sum(x * y for x, y in zip(r, t))
            for c, x, y in zip('xyzw', r, t):
                p[n + 't' + c] = y - d * x
    for n in ('c', 'g'):
        if n in p:
            p[n] = 0.02 + 0.96 * abs(math.fmod(p[n] / 2.0, 1.0))
    return p


def motion(a, b):
    return same(a, b, 1e-6)


def run(c):
    names, other = 'abcd', 'efgh'
    text = [HEAD]
    for i, (nm, expr, kinds, mod, qual, fresh) in enumerate(OPS):
        args = list(names[:len(kinds)])
        oth = list(other[:len(kinds)])
        ex2 = expr
        import re
        for x, y in zip(args, oth):
            ex2 = re.sub(r'\b%s\b' % x, '%' + y, ex2)
        ex2 = ex2.replace('%', '')
        text.append('def once%d(%s): return %s' % (i, ', '.join(args), expr))
        text.append('def twice%d(%s):\n  r = %s\n  poke(r)\n  return %s' % (i, ', '.join(args + oth), ex2, expr))
        text.append('def after%d(%s):\n  r = %s\n  poke(r)\n  return (%s)' % (
            i, ', '.join(args), expr, ', '.join(args) + ',' if args else '()'))
        text.append('def before%d(%s):\n  %s\n  return (%s)' % (
            i, ', '.join(args), expr, ', '.join(args) + ',' if args else '()'))
        text.append('def late%d(%s):\n  r = %s\n%s  return r' % (
            i, ', '.join(args), expr, ''.join('  poke(%s)\n' % x for x in args)))
    for i, (nm, expr, kinds, mod) in enumerate(LONG):
        text.append('def any%d(%s): return %s' % (i, ', '.join('abcdef'[:len(kinds)]), expr))
    c.add_spec('spec_c05', '\n'.join(text))
    for i, (nm, expr, kinds, mod) in enumerate(LONG):
        args = lambda it, st: [make_long(it, st, k, n) for k, n in zip(kinds, 'abcdef')]
        prims = dict(dqprims(), compute_pose_error=poseerr,
                     **qprims('quaternion_slerp', 'angular_velocity_between_quaternions'))
        r = c.run('spec_c05', 'any%d' % i, args, prims)
        c.equal(nm, 'recordings unchanged', c.where(mod, nm.split('[')[0]), T.mk('tup', *r.after), T.mk('tup', *r.before),
                val=contents(kinds))
    for i, (nm, expr, kinds, mod, qual, fresh) in enumerate(OPS):
        w = c.where(mod, qual)
        args = lambda it, st: [make(it, st, k, n) for k, n in zip(kinds, names)]
        both = lambda it, st: args(it, st) + [make(it, st, k, n) for k, n in zip(kinds, other)]
        prims = dict(dqprims(), **qprims()) if mod == HMOD else None
        once = c.run('spec_c05', 'once%d' % i, args, prims)
        given = T.mk('tup', *once.before)
        # operations are only considered where they return
        ok = bnot(once.abort) if not once.abort.unk else TRUE
        kw = dict(gen=points, assume=ok, points=30 if c.tier == 'quick' else 150)
        if kinds and not all(k in 'sf' for k in kinds):
            c.equal(nm, 'arguments unchanged', w, T.mk('tup', *once.after), given, modulo=motion, **kw)
            if fresh:
                got = c.run('spec_c05', 'after%d' % i, args, prims)
                c.equal(nm, 'result does not share storage', w, got.value, T.mk('tup', *once.after),
                        modulo=motion, **kw)
        if once.value.unk:
            c.ob(nm, 'no hidden state', w, 'undecided', 'result not resolved')
            continue
        if kinds and fresh and not all(k in 'sf' for k in kinds):
            got = c.run('spec_c05', 'late%d' % i, args, prims)
            c.equal(nm, 'later change of arguments', w, got.value, once.value, **kw)
        got = c.run('spec_c05', 'twice%d' % i, both, prims)
        ok2 = bnot(got.abort) if not got.abort.unk else TRUE
        c.equal(nm, 'no hidden state', w, got.value, once.value, **dict(kw, assume=band(ok, ok2)))
    return c.finish('other', 'abstract heap after each operation compared with the heap before it; results and '
                    'arguments are overwritten afterwards in the abstract heap to expose shared storage; a second '
                    'call after the first is compared with a first call', minimum=170)
