"""C16: pose files keep column order, unit quaternions and convention"""
import random
import re
from vfa import core
from vfa.core import *
from vfa.terms import mk
from vfa import cpp
from vfa.repo import REPO
from vfa import sysmodel as sysm

IO = PKG + '.csv_io'
BU = PKG + '.bash_utils'
R = 'read_time_stamped_poses_from_csv_file'
W = 'write_time_stamped_poses_to_csv_file'
SPEC = '''
import csv
import numpy as np
from hand_eye_calibration.csv_io import (read_time_stamped_poses_from_csv_file,
    write_time_stamped_poses_to_csv_file, write_double_numpy_array_to_csv_file)
from hand_eye_calibration.bash_utils import readArrayFromCsv

def lines(f):
  with open(f, 'r') as g:
    return np.array(list(csv.reader(g, delimiter=',')), dtype=float)

def out(r):
  return (r[0], r[1], [q.q for q in r[2]], len(r[0]), len(r[1]), len(r[2]))

def d_read(f):
  return out(read_time_stamped_poses_from_csv_file(f))

def d_read_p(f, j):
  return out(read_time_stamped_poses_from_csv_file(f, j))

def d_read_kw(f, j):
  return out(read_time_stamped_poses_from_csv_file(JPL_quaternion_format=j, csv_file=f))

def unit(r, s):
  n = (r[4] ** 2 + r[5] ** 2 + r[6] ** 2 + r[7] ** 2) ** 0.5
  return np.array([s * r[4] / n, s * r[5] / n, s * r[6] / n, r[7] / n])

def r_read(f, j):
  t = lines(f)
  s = -1.0 if j else 1.0
  q = [unit(r, s) for r in t]
  n = len(q)
  tab = np.array([[r[0], r[1], r[2], r[3], unit(r, s)[0], unit(r, s)[1], unit(r, s)[2], unit(r, s)[3]] for r in t])
  return (tab, np.array([r[0] for r in t]), q, n, n, n)

def d_write(t, f):
  write_time_stamped_poses_to_csv_file(t, f)
  return lines(f) - t

def d_write_kw(t, f):
  write_time_stamped_poses_to_csv_file(csv_file=f, time_stamped_poses=t)
  return lines(f) - t

def d_array(t, f):
  write_double_numpy_array_to_csv_file(t, f)
  return lines(f) - t

def r_zero(t, f):
  return t * 0.0

def d_vector(v, f):
  write_double_numpy_array_to_csv_file(v, f)
  return readArrayFromCsv(f).reshape((7,)) - v

def d_offset(o, f):
  write_double_numpy_array_to_csv_file(np.array((o, )), f)
  return float(readArrayFromCsv(f)[0, 0]) - o

def r_offset(o, f):
  return o * 0.0

def d_round(t, f, j):
  write_time_stamped_poses_to_csv_file(t, f)
  return out(read_time_stamped_poses_from_csv_file(f, j))

def r_round(t, f, j):
  with open(f, 'w') as g:
    pass
  np.savetxt(f, t, delimiter=',', fmt='%.18e')
  return r_read(f, j)

def d_cells(f):
  return readArrayFromCsv(f)

def r_cells(f):
  return lines(f)
'''


def table(rng, n):
    r = []
    for i in range(n):
        s = rng.choice([1.0, 1.0, 0.3, 2.5])
        r.append([rng.uniform(0, 5)] + [rng.uniform(-2, 2) for _ in range(3)] + [s * x for x in core.rndquat(rng)])
    return r


def functions(rng, ctx):
    n = rng.randrange(1, 5)
    return {'ncsv': lambda v, a: n,
            'csvrows': lambda v, a: [('farr', (8,), r) for r in table(random.Random(repr((v.seed, v.rnd(a)))), n)]}


def stamps(rng, ctx):
    """long recordings have large time stamps"""
    big = rng.choice([0.0, 1.0e6, 1.5e9])
    return [[round(big + x[0], 6)] + x[1:] for x in table(rng, ctx['lens']['#t'])]


ROS = {
    'rospy': """
import numpy as np

class Time(object):
  def __init__(self, secs=0.0, nsecs=0.0):
    self.all = secs + nsecs * 1e-9
  @property
  def secs(self):
    return np.floor(self.all)
  @property
  def nsecs(self):
    return (self.all - np.floor(self.all)) * 1e9
  def to_sec(self):
    return self.all
  def to_nsec(self):
    return self.all * 1e9
  def __sub__(self, o):
    return Duration(self.all - o.all)
  def __eq__(self, o):
    return self.all == o.all
  def __lt__(self, o):
    return self.all < o.all
  def __gt__(self, o):
    return self.all > o.all

class Duration(object):
  def __init__(self, secs=0.0):
    self.secs = secs
  def to_sec(self):
    return self.secs
  def to_nsec(self):
    return self.secs * 1e9
""",
    'rosbag': """
from rosdata import messages
class Bag(object):
  def __init__(self, name, mode='r'):
    self.name = name
  def read_messages(self, topics=None):
    return messages(self.name)
  def close(self):
    pass
  def __enter__(self):
    return self
""",
    'tf': """
from rosdata import lookup, known
from rosprim import missing
from vfasys import fail_if
class LookupException(Exception):
  pass
class ConnectivityException(Exception):
  pass
class ExtrapolationException(Exception):
  pass
class Transformer(object):
  def __init__(self, interpolate=True, cache=None):
    self.n = 0
  def setTransform(self, t, authority=None):
    self.n += 1
  def lookupTransform(self, target, source, stamp):
    fail_if(self.n < known() or missing(target, source, stamp.to_sec()))
    return lookup(target, source, stamp.to_sec())
""",
    'rosdata': """
from rospy import Time
from rosprim import word, number, missing
class Item(object):
  pass

def transform(n):
  t = Item()
  t.child_frame_id = word('child' + n)
  t.header = Item()
  t.header.frame_id = word('parent' + n)
  t.header.stamp = Time(number('t' + n))
  return t

def message(n, k):
  m = Item()
  m.transforms = [transform(n + i) for i in k]
  return (word('topic' + n), m, Time(number('r' + n)))

def messages(bag):
  return [message('a', ['0']), message('b', ['0', '1']), message('c', []), message('d', ['0'])]

def known():
  return sum([len(m.transforms) for topic, m, t in messages('') if topic == '/tf'])

def lookup(target, source, stamp):
  p = [number('p' + i, target, source, stamp) for i in '0123456']
  return ([p[0], p[1], p[2]], [p[3], p[4], p[5], p[6]])
"""}
TF = '''
import tfmain
from rosdata import messages, lookup
from rosprim import missing

def d_tf(bag, target, source, f):
  tfmain.write_transformation_to_csv_file(bag, target, source, f)

def r_tf(bag, target, source, f):
  last = -1.
  with open(f, 'w') as g:
    for topic, msg, t in messages(bag):
      if topic == '/tf':
        for m in msg.transforms:
          s = m.header.stamp.to_sec()
          if m.child_frame_id == source and not missing(target, source, s) and s > last:
            last = s
            p, q = lookup(target, source, s)
            g.write(','.join([str(x) for x in [s, p[0], p[1], p[2], q[0], q[1], q[2], q[3]]]) + '\\n')
'''


SCENE = [{}]
SCENES = [
    {},
    {'topicb': 'other', 'missinga0': True},
    {'childa0': 'other', 'childb1': 'other'},
    {'missingb0': True, 'childd0': 'other'},
    {'topicd': 'other', 'missingb1': True},
]


def p_word(it, st, args, kw, node):
    w = args[0].args[0]
    if w.startswith('topic'):
        return T.const('/imu' if w in SCENE[0] else '/tf')
    if w.startswith('child'):
        return sysm.strsym('other') if w in SCENE[0] else sysm.strsym('source')
    return sysm.strsym('word:' + w)


def p_number(it, st, args, kw, node):
    if len(args) == 1:
        return S(args[0].args[0])
    return T.napp('number', *[it.freeze(st, a) for a in args])


def p_missing(it, st, args, kw, node):
    return T.TRUE if any(args[2] is S('t' + k[7:]) for k in SCENE[0] if k.startswith('missing')) else T.FALSE


def files(events):
    """final content of every written file"""
    r = {}
    for e in events:
        if e[0] == 'open' and 'w' in e[2]:
            r[e[1]] = []
        if e[0] == 'write':
            r.setdefault(e[1], []).append(e[2])
    return r


def table_text(chunks):
    rows = []
    for l in ''.join(str(x) for x in chunks).split('\n'):
        if l.strip():
            try:
                rows.append([float(x) for x in l.split(',')])
            except ValueError:
                rows.append(l)
    return rows


def same_rows(a, b):
    return len(a) == len(b) and all(
        len(x) == len(y) and not isinstance(x, str) and all(abs(u - v) < 2e-6 for u, v in zip(x, y))
        for x, y in zip(a, b))


def same_tables(a, b):
    a, b = files(a), files(b)
    return a.keys() == b.keys() and all(same_rows(table_text(a[k]), table_text(b[k])) for k in a)


def formats(t):
    """number formats of the tables in a log"""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, T.Term) and id(x) not in seen:
            seen.add(id(x))
            if x.op == 'app' and x.args[0] == 'table' and x.args[2].op == 'const':
                out.add(x.args[2].args[0])
            todo.extend(x.args)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return out


def precise(fmt):
    """a number format that keeps nanoseconds of seconds since 1970, as far as doubles do"""
    for n, k in re.findall(r'%[-+ #0]*\d*(?:\.(\d+))?([feEgGdi])', fmt if isinstance(fmt, str) else ''):
        n = int(n or 6)
        if k in 'di' or k == 'f' and n < 6 or k in 'eE' and n < 15 or k in 'gG' and n < 16:
            return False
    return True


def tf_values(seed, pt):
    rng = random.Random(seed)
    t = rng.choice([0.5, 2000.0, 2000.763555])
    for n in ('a0', 'b0', 'b1', 'd0'):
        t += rng.choice([0.0, 0.05, 0.1, 0.125, 0.0501234])
        pt['t' + n] = t
    return Valuation(seed, pt)


def tf_tool(c, ms):
    try:
        m = c.repo.module('hand_eye_calibration/bin/tf_to_csv')
    except AnchorError:
        raise
    q = 'write_transformation_to_csv_file'
    c.repo.modules['tfmain'] = m
    for n, t in ROS.items():
        c.add_spec(n, t)
    c.add_spec('spec_tf', TF)
    ms = dict(ms, **{'rosprim.word': p_word, 'rosprim.number': p_number, 'rosprim.missing': p_missing})

    def build(it, st):
        it.explicit_raises = True
        return [sysm.strsym(x) for x in ('bag', 'target', 'source', 'out')]
    for i, scene in enumerate(SCENES):
        SCENE[0] = scene
        got = c.run('spec_tf', 'd_tf', build, models=ms)
        want = c.run('spec_tf', 'r_tf', build, models=ms)
        for r in (got, want):
            if r.value.op != 'unk':
                r.value = sysm.log(r.it, r.st)
        c.equal('tf_to_csv[%d]' % i, 'stamp and components of each transform', c.where(m.name, q), got, want.value,
                val=tf_values, modulo=same_tables)


WANTED = ['value', 'sep', 'x', 'sep', 'y', 'sep', 'z', 'sep', 'x', 'sep', 'y', 'sep', 'z', 'sep', 'w']


def cpp_tools(c):
    """stream statements of the C++ writers and the row reader of the batch estimator"""
    n = 0
    for f, line, stream, data in cpp.pose_chains(REPO):
        bases = [x[0] for x in data if isinstance(x, tuple)]
        cols = [x[1] if isinstance(x, tuple) else x for x in data]
        n += 1
        c.require('%s %s' % (f, stream), 'pose columns written in the common order', '%s:%d' % (f, line),
                  cols == WANTED and len(set(bases[:3])) == 1 and len(set(bases[3:])) == 1 and bases[0] != bases[3],
                  'writes %s' % ' '.join(str(x) for x in data))
    for f, line, size, cells in cpp.reader_indices(REPO):
        n += 1
        c.require('%s cells[%d]' % (f, size), 'pose columns read in the common order', '%s:%d' % (f, line),
                  cells == ([1, 2, 3] if size == 3 else [4, 5, 6, 7]), 'reads cells %s' % cells)
    c.notes.append('%d C++ pose writers and readers' % n)


def run(c):
    ms = c.system()
    c.own = {'fmtspec'}
    c.add_spec('spec_c16', SPEC)
    f = sysm.strsym('f')
    go = lambda d, b, **k: c.run('spec_c16', d, b, models=ms, **k)
    val = seqval({}, {}, functions)
    wr = c.where(IO, R)
    for d, js in (('d_read', [None]), ('d_read_p', [FALSE, TRUE]), ('d_read_kw', [FALSE, TRUE])):
        for j in js:
            got = go(d, lambda it, st: [f] if j is None else [f, j])
            want = go('r_read', lambda it, st: [f, FALSE if j is None else j])
            c.equal('%s[%s %s]' % (R, d[2:], T.show(j) if j is not None else 'default'), 'table, stamps and quaternions read',
                    wr, got, want.value, val=val, assume=T.bnot(want.abort))
    val2 = seqval({'#t': lambda r: r.randrange(1, 5)}, {'t': stamps}, functions)
    tab = lambda it, st: [symarr(it, st, 't', (8,)), f]
    zero = go('r_zero', tab)
    for d, q in (('d_write', W), ('d_write_kw', W), ('d_array', 'write_double_numpy_array_to_csv_file')):
        c.equal('%s[%s]' % (q, d[2:]), 'written numbers read back', c.where(IO, q), go(d, tab), zero.value, val=val2, tol=1e-6)
    got = c.run(IO, W, tab, models=ms)
    fs = formats(sysm.log(got.it, got.st)) if got.value.op != 'unk' and not got.raised else None
    if fs:
        lost = [x for x in fs if not precise(x)]
        c.require('digits', 'stamps keep their fraction of a second', c.where(IO, W), not lost, 'numbers are written as %s' % lost)
    vec = lambda it, st: [it.new_arr(st, (7,), [S('v%d' % i) for i in range(7)]), f]
    c.equal('vector', 'written numbers read back', c.where(IO, 'write_double_numpy_array_to_csv_file'),
            go('d_vector', vec), go('r_zero', vec).value, tol=1e-9)
    off = lambda it, st: [S('o'), f]
    c.equal('offset', 'written numbers read back', c.where(IO, 'write_double_numpy_array_to_csv_file'),
            go('d_offset', off), go('r_offset', off).value, tol=1e-9)
    c.equal('readArrayFromCsv', 'numbers read', c.where(BU, 'readArrayFromCsv'), go('d_cells', lambda it, st: [f]),
            go('r_cells', lambda it, st: [f]).value, val=val)
    small = seqval({'#t': lambda r: r.randrange(1, 5)}, {'t': lambda rng, ctx: table(rng, ctx['lens']['#t'])}, functions)
    for j in (FALSE, TRUE):
        b = lambda it, st: [symarr(it, st, 't', (8,)), f, j]
        want = go('r_round', b)
        c.equal('round trip[%s]' % T.show(j), 'round trip', wr, go('d_round', b), want.value, val=small, assume=T.bnot(want.abort))
    tf_tool(c, ms)
    cpp_tools(c)
    c.assumptions.append('pose files contain at least one row of eight numbers with a non-zero quaternion')
    return c.finish('other', 'tables read and written compared with reference definitions', minimum=22)
