"""Rotation representations agree."""
import math
from vfa.core import *

SPEC = '''
import numpy as np
from hand_eye_calibration.quaternion import Quaternion, angle_between_quaternions

def d_rotate(q, v): return q.rotate_vector(v)
def d_matrix(q): return q.to_rotation_matrix()
def d_transform(q): return q.to_transformation_matrix()
def d_from_matrix(x, y, z, w):
  return Quaternion.from_rotation_matrix(r_matrix(x, y, z, w)).q
def d_from_matrix_outer(x, y, z, w):
  q = Quaternion.from_rotation_matrix(r_matrix(x, y, z, w)).q
  return np.outer(q, q)
def d_from_angle_axis(angle, axis): return Quaternion.from_angle_axis(angle, axis).q
def d_angle_axis(q): return q.angle_axis()
def d_round(angle, axis): return Quaternion.from_angle_axis(angle, axis).angle_axis()
def d_between(a, b): return angle_between_quaternions(a, b)
def d_read(q):
  r = q.angle_axis()
  return (np.sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]), np.cos(r[3]))
def r_read(q): return (1.0, 1.0)
def d_round_trip(q):
  return Quaternion.from_rotation_matrix(q.to_rotation_matrix()).q

def r_rotate(x, y, z, w, v):
  u = np.array([x, y, z])
  t = 2.0 * np.cross(u, v)
  return v + w * t + np.cross(u, t)
def r_matrix(x, y, z, w):
  n = x * x + y * y + z * z + w * w
  return np.array([[x * x - y * y - z * z + w * w, 2 * (x * y - z * w), 2 * (x * z + y * w)],
                   [2 * (x * y + z * w), y * y - x * x - z * z + w * w, 2 * (y * z - x * w)],
                   [2 * (x * z - y * w), 2 * (y * z + x * w), z * z + w * w - x * x - y * y]]) / n
def r_transform(x, y, z, w):
  m = np.identity(4)
  m[0:3, 0:3] = r_matrix(x, y, z, w)
  return m
def r_outer(x, y, z, w):
  q = np.array([x, y, z, w])
  return np.outer(q, q) / np.dot(q, q)
def r_q(x, y, z, w): return np.array([x, y, z, w])
def r_from_angle_axis(angle, axis):
  u = axis / np.linalg.norm(axis)
  return np.array([u[0] * np.sin(angle / 2), u[1] * np.sin(angle / 2), u[2] * np.sin(angle / 2),
                   np.cos(angle / 2)])
def r_angle_axis(x, y, z, w):
  s = np.sqrt(1 - w * w)
  return np.array([x / s, y / s, z / s, 2 * np.arccos(w)])
def r_round(angle, axis):
  u = axis / np.linalg.norm(axis)
  return np.array([u[0], u[1], u[2], angle])
def r_between(a, b):
  return 2 * np.arccos(np.clip(a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3], -1.0, 1.0))
'''

HALF = [dict(ax=x, ay=y, az=z, aw=w) for x, y, z, w in [
    (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 0, 0), (0, 1, 1, 0), (1, 0, -1, 0), (.3, -.5, .8, 0),
    (-.9, .1, .2, 0), (0, 0, 0, 1), (0, 0, 0, -1), (1, 1, 1, 1), (1, -1, 1, -1), (1e-3, 0, 0, 1),
    (1, .2, .3, 1e-3), (.1, 1, .3, -1e-3), (.2, .3, 1, 1e-2), (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, -1),
    (1, 2, 3, -.5), (3, 1, 2, .1), (2, 3, 1, .1), (1, 1, 1, 0), (-1, 1, 1, 0)]]


def upto_sign(a, b):
    if not (isinstance(a, tuple) and a[0] == 'farr'):
        return False
    neg = ('farr', a[1], [-x for x in a[2]])
    return same(a, b, 1e-6) or same(neg, b, 1e-6)


def same_angle(a, b):
    return same(a, b, 1e-4) or same(2 * math.pi - a, b, 1e-4)


def run(c):
    c.add_spec('spec_c02', SPEC)
    comps = lambda it, st: [S('ax'), S('ay'), S('az'), S('aw')]
    q = lambda it, st: [quat(it, st, 'a')]
    rel = [(sym('aw'), T.rsub(T.ONE, T.radd(T.rpow(S('ax'), 2), T.radd(T.rpow(S('ay'), 2), T.rpow(S('az'), 2)))))]
    unit = unitq('a')
    sp = HALF
    want = c.run('spec_c02', 'r_rotate', lambda it, st: comps(it, st) + [vec(it, st, 'v', 3)])
    got = c.run('spec_c02', 'd_rotate', lambda it, st: [quat(it, st, 'a'), vec(it, st, 'v', 3)])
    c.equal('Quaternion.rotate_vector', 'rotation', c.where(QMOD, 'Quaternion.rotate_vector'), got,
            want.value, gen=unit, rels=rel, specials=sp)
    got = c.run('spec_c02', 'd_rotate', lambda it, st: [
        quat(it, st, 'a'), it.new_list(st, T.flist([S('v0'), S('v1'), S('v2')]))])
    c.equal('Quaternion.rotate_vector[list]', 'rotation', c.where(QMOD, 'Quaternion.rotate_vector'), got,
            want.value, gen=unit, rels=rel, specials=sp)
    for d, m in (('matrix', 'to_rotation_matrix'), ('transform', 'to_transformation_matrix')):
        got = c.run('spec_c02', 'd_' + d, q)
        want = c.run('spec_c02', 'r_' + d, comps)
        c.equal('Quaternion.' + m, 'rotation', c.where(QMOD, 'Quaternion.' + m), got, want.value, gen=unit,
                rels=rel, specials=sp)
    w = c.where(QMOD, 'Quaternion.from_rotation_matrix')
    got = c.run('spec_c02', 'd_from_matrix_outer', comps)
    want = c.run('spec_c02', 'r_outer', comps)
    c.equal('Quaternion.from_rotation_matrix[outer]', 'inverse conversion', w, got, want.value, gen=unit, specials=sp)
    got = c.run('spec_c02', 'd_from_matrix', comps)
    want = c.run('spec_c02', 'r_q', comps)
    c.equal('Quaternion.from_rotation_matrix[up to sign]', 'inverse conversion', w, got, want.value, gen=unit,
            modulo=upto_sign, specials=sp)
    got = c.run('spec_c02', 'd_round_trip', q)
    c.equal('matrix round trip[up to sign]', 'inverse conversion', w, got, want.value, gen=unit,
            modulo=upto_sign, specials=sp)
    # angle / axis
    aa = lambda it, st: [S('angle'), vec(it, st, 'u', 3)]
    al = lambda it, st: [S('angle'), it.new_list(st, T.flist([S('u0'), S('u1'), S('u2')]))]
    n2 = T.radd(T.rpow(S('u0'), 2), T.radd(T.rpow(S('u1'), 2), T.rpow(S('u2'), 2)))
    big = T.lt(num('0.000001'), T.rsqrt(n2))
    want = c.run('spec_c02', 'r_from_angle_axis', aa)
    w = c.where(QMOD, 'Quaternion.from_angle_axis')
    usp = [dict(u0=1., u1=0., u2=0.), dict(u0=0., u1=0., u2=3.), dict(u0=0., u1=-.01, u2=0.),
           dict(u0=3e-4, u1=-2e-4, u2=1e-4), dict(u0=2e-5, u1=1e-5, u2=-1e-5), dict(u0=400., u1=-2e4, u2=0.),
           dict(angle=0.), dict(angle=math.pi), dict(angle=-1.5), dict(angle=1e-3)]
    for nm, b in (('array', aa), ('list', al)):
        got = c.run('spec_c02', 'd_from_angle_axis', b)
        c.equal('Quaternion.from_angle_axis[%s]' % nm, 'axis-angle', w, got, want.value, assume=big, specials=usp)
    w = c.where(QMOD, 'Quaternion.angle_axis')
    got = c.run('spec_c02', 'd_angle_axis', q)
    want = c.run('spec_c02', 'r_angle_axis', comps)
    inside = T.lt(T.rabs(S('aw')), num('0.999999999'))
    c.equal('Quaternion.angle_axis', 'axis-angle', w, got, want.value, gen=unit, assume=inside, specials=sp)
    ident = lambda it, st: [it.alloc(st, Obj('inst', {'q': it.new_arr(st, (4,), [T.ZERO] * 3 + [T.ONE])}, cls=QCLS))]
    got = c.run('spec_c02', 'd_angle_axis', ident)
    e = T.seq_get(T.flist(got.value.args[1]), num(3)) if got.value.op == 'farr' else T.unk('shape')
    c.equal('Quaternion.angle_axis[identity]', 'axis-angle', w, e, T.ZERO, abort=got.abort)

    for nm, s in (('plus', 1), ('minus', -1)):
        one = lambda it, st: [it.alloc(st, Obj('inst', {'q': it.new_arr(st, (4,), [T.ZERO] * 3 + [num(s)])}, cls=QCLS))]
        got = c.run('spec_c02', 'd_read', one)
        want = c.run('spec_c02', 'r_read', one)
        c.equal('Quaternion.angle_axis[%s identity]' % nm, 'axis-angle', w, got, want.value)

    def halfpos(p):
        p['angle'] = 0.002 + abs(math.fmod(p['angle'], 1.0)) * (math.pi - 0.002)
        return p
    got = c.run('spec_c02', 'd_round', aa)
    want = c.run('spec_c02', 'r_round', aa)
    rng = band(T.lt(num('0.001'), S('angle')), T.le(S('angle'), T.PI))
    c.equal('axis-angle round trip', 'axis-angle', w, got, want.value, gen=halfpos, assume=band(big, rng),
            specials=usp[:6], tol=1e-5)
    # angle between
    w = c.where(QMOD, 'angle_between_quaternions')
    two = lambda it, st: [quat(it, st, 'a'), quat(it, st, 'b')]
    arr = lambda it, st: [vec4(it, st, 'a'), vec4(it, st, 'b')]
    got = c.run('spec_c02', 'd_between', two)
    want = c.run('spec_c02', 'r_between', arr)
    bsp = [dict(h, bx=x, by=y, bz=z, bw=w2) for h in HALF[:12] for x, y, z, w2 in
           [(0, 0, 0, 1), (0, 0, 0, -1), (1, 0, 0, 0), (.3, -.5, .8, 0), (.1, .2, .3, -.4)]]
    # orientations that differ by a small angle
    bsp += [dict(ax=.1, ay=.2, az=.3, aw=.4, bx=.1 + d, by=.2 - d, bz=.3, bw=.4) for d in (1e-2, 1e-3, 3e-4, 1e-4)]
    c.equal('angle_between_quaternions', 'axis-angle', w, got, want.value, gen=unitq('a', 'b'), modulo=same_angle,
            specials=bsp)
    got = c.run('spec_c02', 'd_between', lambda it, st: [quat(it, st, 'a'), quat(it, st, 'a')])
    c.equal('angle_between_quaternions[equal]', 'axis-angle', w, got, T.ZERO, gen=unit, specials=sp, tol=1e-5)
    eps = num('1.0000001')
    for nm, s in (('over', 1), ('under', -1)):
        def near(it, st):
            b = [T.rmul(T.rmul(S('a' + k), eps), num(s)) for k in 'xyzw']
            b = it.alloc(st, Obj('inst', {'q': it.new_arr(st, (4,), b)}, cls=QCLS))
            return [b, quat(it, st, 'a')]
        got = c.run('spec_c02', 'd_between', near)
        c.equal('angle_between_quaternions[%s]' % nm, 'domain of the inverse cosine', w, got, T.ZERO, gen=unit,
                specials=sp, modulo=same_angle)
    c.assumptions.append('real arithmetic; unit quaternions satisfy x^2+y^2+z^2+w^2=1 exactly')
    return c.finish('other', 'value-flow summaries of the conversions compared with reference formulas modulo '
                    'the unit-norm relation; inverse conversions also interpreted at half turns and sign changes',
                    minimum=18)


def vec4(it, st, n):
    return it.new_arr(st, (4,), [S(n + k) for k in 'xyzw'])
