"""Pose, matrix and dual quaternion conversions."""
import math
from vfa.core import *

SPEC = '''
import numpy as np
from hand_eye_calibration.quaternion import Quaternion
from hand_eye_calibration.dual_quaternion import DualQuaternion

def d_from_pose(p): return DualQuaternion.from_pose(p[0], p[1], p[2], p[3], p[4], p[5], p[6]).dq
def d_from_pose_vector(p): return DualQuaternion.from_pose_vector(p).dq
def d_to_pose(p): return unit(p).to_pose()
def d_to_matrix(p): return unit(p).to_matrix()
def d_round_pose(p): return DualQuaternion.from_pose_vector(p).to_pose()
def d_round_negated(p): return (DualQuaternion.from_pose_vector(p) * -1.0).to_pose()
def d_pose_matrix(p): return DualQuaternion.from_pose_vector(p).to_matrix()
def d_from_matrix_outer(p):
  dq = DualQuaternion.from_transformation_matrix(r_matrix(p)).dq
  return np.outer(dq, dq[0:4])
def d_from_matrix(p): return DualQuaternion.from_transformation_matrix(r_matrix(p)).dq
def d_round_matrix(p): return DualQuaternion.from_transformation_matrix(r_matrix(p)).to_matrix()
def d_passive(p, v): return unit(p).passive_transform_point(v)
def d_active(p, v): return unit(p).active_transform_point(v)
def d_screw(p): return unit(p).screw_axis()
def d_screw_shift(t):
  return DualQuaternion(Quaternion(0.0, 0.0, 0.0, 1.0),
                        Quaternion(0.5 * t[0], 0.5 * t[1], 0.5 * t[2], 0.0)).screw_axis()

def d_screw_shift_negated(t):
  return DualQuaternion(Quaternion(0.0, 0.0, 0.0, -1.0),
                        Quaternion(-0.5 * t[0], -0.5 * t[1], -0.5 * t[2], 0.0)).screw_axis()
def d_screw_still(s):
  a, r, t = DualQuaternion(Quaternion(0.0, 0.0, 0.0, s), Quaternion(0.0, 0.0, 0.0, 0.0)).screw_axis()
  return (r, t, a)
def r_still(s): return (0.0, 0.0, np.zeros(3))
def d_screw_round(t):
  return DualQuaternion(Quaternion(0.0, 0.0, 0.0, 1.0000001),
                        Quaternion(0.5 * t[0], 0.5 * t[1], 0.5 * t[2], 0.0)).screw_axis()[1]
def r_zero(t): return 0.0
def d_scaled_pose(p, k): return (unit(p) * k).to_pose()
def d_scaled_matrix(p, k): return (unit(p) * k).to_matrix()
def r_scaled_pose(p, k): return r_pose(p)
def r_scaled_matrix(p, k): return r_matrix(p)

def unit(p):
  u = r_dq(p)
  return DualQuaternion(Quaternion(u[0], u[1], u[2], u[3]), Quaternion(u[4], u[5], u[6], u[7]))
def r_dq(p):
  """unit dual quaternion of a pose with unit quaternion"""
  t = p[0:3]
  q = p[3:7]
  v = 0.5 * (q[3] * t + np.cross(t, q[0:3]))
  return np.array([q[0], q[1], q[2], q[3], v[0], v[1], v[2], -0.5 * np.dot(t, q[0:3])])
def unitpose(p):
  n = np.sqrt(np.dot(p[3:7], p[3:7]))
  return np.array([p[0], p[1], p[2], p[3] / n, p[4] / n, p[5] / n, p[6] / n])
def r_from_pose(p): return r_dq(unitpose(p))
def r_pose(p):
  if p[6] < 0:
    return np.array([p[0], p[1], p[2], -p[3], -p[4], -p[5], -p[6]])
  return np.array([p[0], p[1], p[2], p[3], p[4], p[5], p[6]])
def r_round_pose(p):
  return r_pose(unitpose(p))
def r_matrix(p):
  x = p[3]
  y = p[4]
  z = p[5]
  w = p[6]
  n = x * x + y * y + z * z + w * w
  return np.array([[(x * x - y * y - z * z + w * w) / n, 2 * (x * y - z * w) / n, 2 * (x * z + y * w) / n, p[0]],
                   [2 * (x * y + z * w) / n, (y * y - x * x - z * z + w * w) / n, 2 * (y * z - x * w) / n, p[1]],
                   [2 * (x * z - y * w) / n, 2 * (y * z + x * w) / n, (z * z + w * w - x * x - y * y) / n, p[2]],
                   [0.0, 0.0, 0.0, 1.0]])
def r_outer(p):
  dq = r_dq(unitpose(p))
  return np.outer(dq, dq[0:4])
def rot(p, v):
  u = p[3:6]
  t = 2.0 * np.cross(u, v)
  return v + p[6] * t + np.cross(u, t)
def r_passive(p, v): return rot(p, v) + p[0:3]
def r_active(p, v):
  c = np.array([0.0, 0.0, 0.0, -p[3], -p[4], -p[5], p[6]])
  return rot(c, v - p[0:3])
def r_screw(p):
  angle = 2.0 * np.arccos(p[6])
  s = np.sqrt(1.0 - p[6] * p[6])
  axis = p[3:6] / s
  return (axis, angle * 180.0 / np.pi, np.dot(axis, p[0:3]))
def r_screw_shift(t):
  n = np.sqrt(np.dot(t, t))
  return (t / n, 0.0, n)
'''

HALF = [dict(ax=x, ay=y, az=z, aw=w) for x, y, z, w in [
    (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 0, 0), (0, 1, 1, 0), (1, 0, -1, 0), (.3, -.5, .8, 0),
    (-.9, .1, .2, 0), (0, 0, 0, 1), (0, 0, 0, -1), (1, 1, 1, 1), (1, -1, 1, -1), (1e-3, 0, 0, 1),
    (1, .2, .3, 1e-3), (.1, 1, .3, -1e-3), (.2, .3, 1, 1e-2), (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, -1),
    (2e-4, 0, 0, 1), (1e-4, -2e-4, 1e-4, -1),
    (1, 2, 3, -.5), (3, 1, 2, .1), (2, 3, 1, .1), (1, 1, 1, 0), (-1, 1, 1, 0)]]

# short and long translations
SHORT = [{'t%d' % i: s * v for i, v in enumerate((.6, -.3, .7))} for s in (1e4, .1, 1e-2, 1e-3, 1e-4, 1e-5)]


def upto_sign(lo, hi):
    """equal up to the sign of the components lo:hi (at once)"""
    def f(a, b):
        if not (isinstance(a, tuple) and a[0] == 'farr'):
            return False
        neg = ('farr', a[1], [-x if lo <= i < hi else x for i, x in enumerate(a[2])])
        return same(a, b, 1e-6) or same(neg, b, 1e-6)
    return f


def posesign(a, b):
    """same pose, with either quaternion sign only for a vanishing scalar part"""
    if same(a, b, 1e-6):
        return True
    if isinstance(b, tuple) and b[0] == 'farr' and abs(b[2][6]) < 1e-7:
        return upto_sign(3, 7)(a, b)
    return False


def run(c):
    c.add_spec('spec_c04', SPEC)
    names = ['x', 'y', 'z', 'ax', 'ay', 'az', 'aw']
    pose = lambda it, st: [it.new_arr(st, (7,), [S(n) for n in names])]
    poselist = lambda it, st: [it.new_list(st, T.flist([S(n) for n in names]))]
    posep = lambda it, st: pose(it, st) + [vec(it, st, 'v', 3)]
    posepl = lambda it, st: pose(it, st) + [it.new_list(st, T.flist([S('v0'), S('v1'), S('v2')]))]
    n2 = T.ZERO
    for n in names[3:]:
        n2 = T.radd(n2, T.rpow(S(n), 2))
    big = T.lt(num('0.000001'), T.rsqrt(n2))
    rel = [(sym('aw'), T.rsub(T.ONE, T.rsub(n2, T.rpow(S('aw'), 2))))]
    unit = unitq('a')
    W = lambda m: c.where(DMOD, 'DualQuaternion.' + m)

    def go(oid, rule, meth, d, ref, args, refargs=None, **kw):
        got = c.run('spec_c04', 'd_' + d, args)
        want = c.run('spec_c04', 'r_' + ref, refargs or args)
        c.equal(oid, rule, W(meth), got, want.value, specials=HALF + SHORT, **kw)
    go('DualQuaternion.from_pose', 'pose', 'from_pose', 'from_pose', 'from_pose', pose, assume=big)
    go('DualQuaternion.from_pose_vector', 'pose', 'from_pose_vector', 'from_pose_vector', 'from_pose', pose, assume=big)
    go('DualQuaternion.from_pose_vector[list]', 'pose', 'from_pose_vector', 'from_pose_vector', 'from_pose', poselist,
       pose, assume=big)
    un = dict(gen=unit, rels=rel)
    go('DualQuaternion.to_pose', 'pose', 'to_pose', 'to_pose', 'pose', pose, modulo=posesign, **un)
    go('pose round trip', 'pose', 'to_pose', 'round_pose', 'round_pose', pose, assume=big, modulo=posesign)
    go('pose round trip[negated]', 'pose', 'to_pose', 'round_negated', 'round_pose', pose, assume=big, modulo=posesign)
    go('DualQuaternion.to_matrix', 'matrix', 'to_matrix', 'to_matrix', 'matrix', pose, **un)
    go('pose to matrix', 'matrix', 'to_matrix', 'pose_matrix', 'matrix', pose, assume=big)
    go('DualQuaternion.from_transformation_matrix[outer]', 'matrix', 'from_transformation_matrix', 'from_matrix_outer',
       'outer', pose, gen=unit)
    go('DualQuaternion.from_transformation_matrix', 'matrix', 'from_transformation_matrix', 'from_matrix',
       'from_pose', pose, gen=unit, modulo=upto_sign(0, 8))
    go('matrix round trip', 'matrix', 'from_transformation_matrix', 'round_matrix', 'matrix', pose, gen=unit)
    go('DualQuaternion.passive_transform_point', 'point', 'passive_transform_point', 'passive', 'passive', posep, **un)
    go('DualQuaternion.active_transform_point', 'point', 'active_transform_point', 'active', 'active', posep, **un)
    go('DualQuaternion.passive_transform_point[list]', 'point', 'passive_transform_point', 'passive', 'passive',
       posepl, posep, **un)
    go('DualQuaternion.active_transform_point[list]', 'point', 'active_transform_point', 'active', 'active',
       posepl, posep, **un)
    inside = T.lt(T.rabs(S('aw')), num('0.99999999'))
    go('DualQuaternion.screw_axis', 'screw', 'screw_axis', 'screw', 'screw', pose, assume=inside, **un)
    shift = lambda it, st: [vec(it, st, 't', 3)]
    t2 = T.ZERO
    for i in range(3):
        t2 = T.radd(t2, T.rpow(S('t%d' % i), 2))
    go('DualQuaternion.screw_axis[translation]', 'screw', 'screw_axis', 'screw_shift', 'screw_shift', shift,
       assume=T.lt(num('0.000001'), T.rsqrt(t2)))
    go('DualQuaternion.screw_axis[translation, negated]', 'screw', 'screw_axis', 'screw_shift_negated', 'screw_shift',
       shift, assume=T.lt(num('0.000001'), T.rsqrt(t2)))
    for nm, s in (('plus', 1), ('minus', -1)):
        go('DualQuaternion.screw_axis[no motion, %s]' % nm, 'screw', 'screw_axis', 'screw_still', 'still',
           lambda it, st: [num(s)], modulo=lambda a, b: not has_nan(a) and same(a[:2], b[:2]))
    go('DualQuaternion.screw_axis[rounding]', 'screw', 'screw_axis', 'screw_round', 'zero', shift)
    scaled = lambda it, st: pose(it, st) + [S('k')]
    pos = T.lt(num('0.01'), S('k'))
    go('DualQuaternion.to_pose[scaled]', 'pose', 'to_pose', 'scaled_pose', 'scaled_pose', scaled, assume=pos,
       modulo=posesign, **un)
    go('DualQuaternion.to_matrix[scaled]', 'matrix', 'to_matrix', 'scaled_matrix', 'scaled_matrix', scaled, assume=pos,
       **un)
    c.assumptions.append('real arithmetic; unit quaternions satisfy x^2+y^2+z^2+w^2=1 exactly')
    return c.finish('other', 'value-flow summaries of the pose, matrix, point and screw conversions compared with '
                    'reference formulas modulo the unit-norm relation, both quaternion signs and half turns included',
                    minimum=23)
