"""C15: calibration files round-trip and compose offset and pose"""
from vfa import core
from vfa.core import *
from vfa import sysmodel as sysm

EMOD = PKG + '.extrinsic_calibration'
CLS = 'ExtrinsicCalibration'
SPEC = '''
import json
import numpy as np
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
from hand_eye_calibration.dual_quaternion import DualQuaternion

def pose(x, y, z, i, j, k, w):
  return DualQuaternion.from_pose_vector(np.array([x, y, z, i, j, k, w]))

def stored(f):
  with open(f, 'r') as g:
    d = json.load(g)
  r, t = d['rotation'], d['translation']
  return (d['delay'], t['x'], t['y'], t['z'], r['i'], r['j'], r['k'], r['w'])

def d_write(f, o, x, y, z, i, j, k, w, s):
  c = ExtrinsicCalibration(o, pose(x, y, z, i, j, k, w))
  if s is None:
    c.writeJson(f)
  else:
    c.writeJson(f, s)
  return stored(f)

def d_write_kw(f, o, x, y, z, i, j, k, w, s):
  ExtrinsicCalibration(time_offset=o, pose_dual_quat=pose(x, y, z, i, j, k, w)).writeJson(out_file=f, switchConvention=s)
  return stored(f)

def r_write(f, o, x, y, z, i, j, k, w, s):
  p = pose(x, y, z, i, j, k, w).to_pose()
  v = -1.0 if s else 1.0
  return (o, p[0], p[1], p[2], v * p[3], v * p[4], v * p[5], p[6])

def put(f, o, x, y, z, i, j, k, w):
  with open(f, 'w') as g:
    json.dump({'delay': o, 'translation': {'x': x, 'y': y, 'z': z}, 'rotation': {'i': i, 'j': j, 'k': k, 'w': w}}, g)

def d_read(f, o, x, y, z, i, j, k, w, s):
  put(f, o, x, y, z, i, j, k, w)
  c = ExtrinsicCalibration.fromJson(f) if s is None else ExtrinsicCalibration.fromJson(f, s)
  return (isinstance(c, ExtrinsicCalibration), c.time_offset, c.pose_dq.dq)

def d_read_kw(f, o, x, y, z, i, j, k, w, s):
  put(f, o, x, y, z, i, j, k, w)
  c = ExtrinsicCalibration.fromJson(in_file=f, switchConvention=s)
  return (isinstance(c, ExtrinsicCalibration), c.time_offset, c.pose_dq.dq)

def r_read(f, o, x, y, z, i, j, k, w, s):
  v = -1.0 if s else 1.0
  return (True, o, pose(x, y, z, v * i, v * j, v * k, w).dq)

def d_round(f, o, x, y, z, i, j, k, w, s):
  c = ExtrinsicCalibration(o, pose(x, y, z, i, j, k, w))
  c.writeJson(f, s)
  r = ExtrinsicCalibration.fromJson(f, s)
  return (r.time_offset, r.pose_dq.dq)

def d_again(f, o, x, y, z, i, j, k, w, s):
  c = ExtrinsicCalibration(o, pose(x, y, z, i, j, k, w))
  c.writeJson(f, True)
  c.writeJson(f, s)
  return (c.time_offset, c.pose_dq.dq, stored(f))

def r_again(f, o, x, y, z, i, j, k, w, s):
  return (o, pose(x, y, z, i, j, k, w).dq, r_write(f, o, x, y, z, i, j, k, w, s))

def r_round(f, o, x, y, z, i, j, k, w, s):
  return (o, pose(x, y, z, i, j, k, w).dq)

def d_mul(o, p, a, b):
  r = ExtrinsicCalibration(o, a) * ExtrinsicCalibration(p, b)
  return (isinstance(r, ExtrinsicCalibration), r.time_offset, r.pose_dq)

def r_mul(o, p, a, b):
  return (True, o + p, a * b)

def d_chain(o, p, q, a, b, c):
  x, y, z = ExtrinsicCalibration(o, a), ExtrinsicCalibration(p, b), ExtrinsicCalibration(q, c)
  r = x * y * z
  return (r.time_offset, r.pose_dq, x.time_offset, x.pose_dq, y.time_offset, y.pose_dq)

def r_chain(o, p, q, a, b, c):
  return (o + p + q, a * b * c, o, a, p, b)
'''


def gen(pt):
    q = [pt.get(n, 0.5) for n in 'ijkw']
    n = sum(x * x for x in q) ** 0.5
    if n < 0.1:
        q, n = [0.5, -0.5, 0.5, 0.5], 1.0
    pt.update(zip('ijkw', [x / n for x in q]))
    return pt


def upto_sign(a, b):
    neg = [(b[0], (b[1][0], b[1][1], [-x for x in b[1][2]]))]
    return any(core.same(a, x, 1e-9) for x in [b] + neg)


def run(c):
    ms = c.system()
    c.add_spec('spec_c15', SPEC)
    prims = dqprims()
    sw = {'default': NONE, 'off': FALSE, 'on': TRUE}

    def args(s):
        return lambda it, st: [sysm.strsym('f')] + [S(n) for n in ('o',) + tuple('xyzijkw')] + [s]

    def go(oid, rule, meth, d, r, build, **k):
        got = c.run('spec_c15', d, build, opaque=k.pop('op', prims), models=ms)
        want = c.run('spec_c15', r, build, opaque=prims if 'op2' not in k else k.pop('op2'), models=ms)
        c.equal(oid, rule, c.where(EMOD, CLS + '.' + meth), got, want.value, gen=gen, tol=1e-9, assume=T.bnot(want.abort), **k)
    for n, s in sw.items():
        kw = [('', 'd_write', 'd_read')] + ([(' by keyword', 'd_write_kw', 'd_read_kw')] if s is not NONE else [])
        for t, dw, dr in kw:
            go('write[%s%s]' % (n, t), 'stored values', 'writeJson', dw, 'r_write', args(s))
            go('read[%s%s]' % (n, t), 'restored values', 'fromJson', dr, 'r_read', args(s))
        if s is not NONE:
            go('round trip[%s]' % n, 'round trip', 'fromJson', 'd_round', 'r_round', args(s), modulo=upto_sign)
            go('second write[%s]' % n, 'writing leaves the calibration as it is', 'writeJson', 'd_again', 'r_again', args(s))
    b2 = lambda it, st: [S('o'), S('p'), dquat(it, st, 'a'), dquat(it, st, 'b')]
    b3 = lambda it, st: [S('o'), S('p'), S('q')] + [dquat(it, st, x) for x in 'abc']
    go('compose', 'composition', '__mul__', 'd_mul', 'r_mul', b2)
    go('chain', 'composition', '__mul__', 'd_chain', 'r_chain', b3)
    return c.finish('other', 'values stored under each key, values restored from each key, round trips and compositions '
                    'compared with reference definitions', minimum=14)
