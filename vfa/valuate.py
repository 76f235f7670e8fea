"""Random interpretation of value terms.

A mismatch of two normal forms may only mean that the normal form is not
complete (trigonometric identities, nested radicals ...).  Before a difference
is reported, both terms are interpreted at random points of their free symbols
(opaque functions as random but congruent functions, sequence lengths as small
numbers).  Terms are evaluated, never code.
"""
import itertools
import math
import random
import hashlib
import struct
import sys
from bisect import bisect_left, bisect_right
from . import terms as T
from .terms import TRUE, FALSE, NONE


class Unknown(Exception):
    """term contains an unknown value"""


class Ambiguous(Exception):
    """a comparison is too close to call at this point"""


SOFT = (Unknown, Ambiguous, ArithmeticError, TypeError, ValueError, LookupError, AttributeError)


class Deferred(object):
    def __init__(self, exc):
        self.exc = exc


NAN = float('nan')
LONG = 400


def h01(*parts):
    d = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return struct.unpack('>Q', d)[0] / 2.0 ** 64


def rnd(v):
    """rounded structure used as hash key of an opaque function"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        if v != v:
            return 'nan'
        if math.isinf(v):
            return 'inf' if v > 0 else '-inf'
        if v == 0:
            return 0.0
        return float('%.7g' % v) if abs(v) > 1e-9 else 0.0
    if isinstance(v, dict):
        return tuple(sorted((str(k), rnd(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(rnd(x) for x in v)
    return repr(v)


class Valuation(object):
    """point: {symbol name: value}; elem(name, i, path): generator of sequence elements"""

    def __init__(self, seed, point=None, elem=None, lens=None, funcs=None, bools=None):
        self.seed = seed
        self.point = point or {}
        self.elem = elem
        self.lens = lens or {}
        self.funcs = funcs or {}
        self.bools = bools
        self.memo = {}
        self.steps = 0
        self.used = {}
        self.recs = {}
        self.long = LONG
        self.free = {}
        self.ids = {}
        self.rounded = {}

    def symval(self, name):
        if name == 'pi':
            return math.pi
        if name in self.point:
            v = self.point[name]
        elif '%m' in name[:3]:
            raise Unknown('loop variable')
        elif name.startswith('#'):
            v = self.lens.get(name, 2 + int(h01(self.seed, name) * 4))
        else:
            v = h01(self.seed, name) * 4 - 2
        self.used[name] = v
        return v

    def seqelem(self, base, i, path):
        if self.elem is not None:
            r = self.elem(base, i, path)
            if r is not None:
                return r
        return h01(self.seed, base, i, path) * 4 - 2

    def ev(self, t, env=()):
        if isinstance(t, tuple):
            return tuple(self.ev(x, env) for x in t)
        if not isinstance(t, T.Term):
            return t
        key = t
        if env:
            fr = self.free.get(t)
            if fr is None:
                fr = self.free[t] = tuple(sorted(b.args[0] for b in T.symbols(t) if b.op == 'bv'))
            if fr:
                d = dict(env)
                key = (t,) + tuple([self.vid(d.get(b)) for b in fr])
        if key in self.memo:
            return self.memo[key]
        self.steps += 1
        if self.steps > 1000000:
            raise Unknown('evaluation too long')
        r = self.ev1(t, dict(env))
        self.memo[key] = r
        return r

    def defer(self, t, e):
        """value of a loop-carried cell; a failure matters only where the cell is used"""
        try:
            return self.ev(t, e)
        except SOFT as x:
            return Deferred(x)

    def either(self, branches, e):
        """value of a decision whose condition has no value: fine if it does not matter"""
        exc = sys.exc_info()[1]
        rs = []
        for x in dict.fromkeys(branches):
            try:
                rs.append(self.ev(x, e))
            except SOFT:
                raise exc
            if has_nan(rs[-1]) or not same(rs[-1], rs[0], 0):
                raise exc
        return rs[0]

    def vid(self, v):
        """identity of a bound value"""
        if v is None or isinstance(v, (int, str)):
            return v
        if isinstance(v, float):
            return rnd(v)
        return ('v', self.ids.setdefault(self.rnd(v), len(self.ids)))

    def rnd(self, v):
        if not isinstance(v, (list, tuple)):
            return rnd(v)
        r = self.rounded.get(id(v))
        if r is None:
            r = tuple(self.rnd(x) if not isinstance(x, dict) else
                      tuple(sorted((str(k), self.rnd(y)) for k, y in x.items())) for x in v)
            self.rounded[id(v)] = (r, v)
            return r
        return r[0]

    def ev1(self, t, env):
        e = tuple(env.items())
        op, a = t.op, t.args
        if t.op == 'unk':
            raise Unknown(str(a))
        if op == 'rat':
            s = 0.0
            mag = 0.0
            allint = True
            for m, c in a[0]:
                p = float(c) if c.denominator != 1 else int(c)
                for x, k in m:
                    v = self.num(self.ev(x, e))
                    p = mulp(p, v, k)
                s = s + p if not isinstance(s, float) or s else p + 0
                mag = max(mag, abs(p)) if p == p else mag
            for f, k in a[1]:
                v = self.num(self.ev(f, e))
                if v == 0:
                    return NAN if s == 0 or s != s else (math.inf if s > 0 else -math.inf)
                s = mulp(s, v, -k) if not (isinstance(s, int) and s == 0) else 0
            if not a[1] and isinstance(s, float) and s != 0 and abs(s) < mag * 1e-13:
                s = 0.0     # cancellation noise
            return s
        if op == 'const':
            return a[0]
        if op == 'sym':
            return self.symval(a[0])
        if op == 'bv':
            if a[0] not in env:
                raise Unknown('free index')
            if isinstance(env[a[0]], Deferred):
                raise env[a[0]].exc
            return env[a[0]]
        if op == 'dec':
            at = a[0]
            if at.op == 'sgn':
                try:
                    v = self.num(self.ev(at.args[0], e))
                except SOFT:
                    return self.either(a[1:], e)
                if v != v or v != 0 and abs(v) < 1e-13 * self.scale(at.args[0], e):
                    # undefined or too close to call: fine if it does not matter
                    rs = [self.ev(x, e) for x in dict.fromkeys(a[1:])]
                    if all(same(r, rs[0], 0) and not has_nan(r) for r in rs):
                        return rs[0]
                    if v != v and all(has_nan(r) for r in rs):
                        return rs[0]
                    raise Ambiguous('nan in comparison' if v != v else 'close comparison')
                return self.ev(a[1] if v < 0 else (a[2] if v == 0 else a[3]), e)
            try:
                v = self.truth(at, e)
            except SOFT:
                return self.either(a[1:], e)
            return self.ev(a[2] if v else a[1], e)
        if op == 'app':
            return self.app(t, env)
        if op == 'any':
            w = T.single_atom(a[0]) if a[0].op == 'rat' else a[0]
            if w is not None and w.op == 'first' and w.args[0] is T.num(float('inf')):
                # in step with the loop: what happens before it ends
                for i in range(self.long + 1):
                    if self.ev(w.args[2], tuple({**env, w.args[1].args[0]: i}.items())):
                        return False
                    if self.ev(a[2], tuple({**env, a[1].args[0]: i}.items())):
                        return True
                raise Ambiguous('long loop')
            n = self.count(self.ev(a[0], e))
            return any(self.ev(a[2], tuple({**env, a[1].args[0]: i}.items())) for i in range(n))
        if op == 'first':
            n = self.num(self.ev(a[0], e))
            n = self.count(n) if n != math.inf else n
            i = 0
            while i < n:
                if i > self.long:
                    raise Ambiguous('long loop')
                if self.ev(a[2], tuple({**env, a[1].args[0]: i}.items())):
                    return i
                i += 1
            return n
        if op == 'sum':
            n = self.count(self.ev(a[0], e))
            s = 0
            for i in range(n):
                s = s + self.num(self.ev(a[2], tuple({**env, a[1].args[0]: i}.items())))
            return s
        if op == 'map':
            n = self.count(self.ev(a[0], e))
            return [self.ev(a[2], tuple({**env, a[1].args[0]: i}.items())) for i in range(n)]
        if op == 'filt':
            n = self.count(self.ev(a[0], e))
            r = []
            for i in range(n):
                e2 = tuple({**env, a[1].args[0]: i}.items())
                if self.ev(a[2], e2):
                    r.append(self.ev(a[3], e2))
            return r
        if op == 'flist':
            return [self.ev(x, e) for x in a]
        if op == 'tup':
            return tuple(self.ev(x, e) for x in a)
        if op == 'cat':
            r = []
            for x in a:
                r = r + list(self.ev(x, e))
            return r
        if op == 'rep':
            return [self.ev(a[0], e)] * self.count(self.ev(a[1], e))
        if op == 'slc':
            s = self.ev(a[0], e)
            lo, hi = self.count(self.ev(a[1], e)), self.count(self.ev(a[2], e))
            return list(s)[lo:hi]
        if op == 'store':
            s = list(self.ev(a[0], e))
            i = self.count(self.ev(a[1], e))
            if 0 <= i < len(s):
                s[i] = self.ev(a[2], e)
            return s
        if op == 'del':
            s = list(self.ev(a[0], e))
            i = self.count(self.ev(a[1], e))
            return s[:i] + s[i + 1:]
        if op == 'blkstore':
            s = list(self.ev(a[0], e))
            i = self.count(self.ev(a[1], e))
            r = self.ev(a[2], e)
            s[i:i + len(r)] = r
            return s
        if op == 'flat':
            r = []
            for x in self.ev(a[0], e):
                r = r + list(x)
            return r
        if op == 'symseq':
            n = self.count(self.ev(a[1], e))
            base = a[0]
            if base.op not in ('sym', 'app') or (base.op == 'app'):
                v = self.ev(base, e)
                if isinstance(v, list):
                    return v
            return [self.ev(T.seq_get(t, T.num(i)), e) for i in range(n)]
        if op == 'farr':
            return ('farr', a[0], [self.ev(x, e) for x in a[1]])
        if op == 'fsarr':
            return ('fsarr', a[0], self.ev(a[1], e))
        if op == 'fobj':
            return ('fobj', a[0], {k: self.ev(x, e) for k, x in a[1]})
        if op == 'fdict':
            return ('fdict', {repr(self.ev(k, e)): self.ev(x, e) for k, x in a[0]})
        if op == 'rec':
            n = self.count(self.ev(a[0], e))
            hh, inits, bodies, j = a[1:]
            fr = {b.args[0] for x in inits + bodies for b in T.symbols(x) if b.op == 'bv'} if env else ()
            key = (hh, inits, bodies, self.rnd(tuple(sorted((b, v) for b, v in env.items() if b in fr))))
            states = self.recs.get(key)
            if states is None:
                states = self.recs[key] = [[self.ev(x, e) for x in inits]]
            while len(states) <= n:
                e2 = dict(env)
                e2[hh] = len(states) - 1
                for q, v in enumerate(states[-1]):
                    e2[hh + 1 + q] = v
                e2 = tuple(e2.items())
                states.append([self.defer(b, e2) for b in bodies])
            if isinstance(states[n][j], Deferred):
                raise states[n][j].exc
            return states[n][j]
        if op in ('fn', 'cls', 'mod', 'bi', 'clo', 'bound', 'partial'):
            return repr(t.dig)
        if op == 'slice':
            return ('slice',) + tuple(self.ev(x, e) for x in a)
        raise Unknown(op)

    def scale(self, p, e):
        m = 0.0
        for mono, c in p.args[0]:
            v = abs(float(c))
            for x, k in mono:
                y = self.num(self.ev(x, e))
                v = abs(mulp(v, y, k))
            if v == v and not math.isinf(v):
                m = max(m, v)
        return m

    def truth(self, at, e):
        if at.op == 'any':
            return bool(self.ev(at, e))
        if at.op == 'app':
            f = at.args[0]
            if f == 'attr' and (at.args[2] in T.RECORDS or isinstance(self.ev(at.args[1], e), tuple)):
                v = self.ev(at, e)
                return v if isinstance(v, bool) else bool(self.num(v))
            if f == 'recval':
                v = self.ev(at, e)
                return v if isinstance(v, bool) else bool(self.num(v))
            if f == 'eq' or f == 'seqeq':
                x, y = self.ev(at.args[1], e), self.ev(at.args[2], e)
                if self.rnd(x) == self.rnd(y):
                    return True
                if (f == 'eq' and all(isinstance(z, (list, tuple, str, bool, int)) or z is None for z in (x, y))):
                    return False
            if f == 'raised' and not at.args[1]:
                raise Unknown('failure of a block')
            if f == 'isnone':
                x = self.ev(at.args[1], e)
                if x is None or isinstance(x, (list, tuple, str)) or at.args[1].op == 'bv' or \
                        at.args[1].args[:1] == ('recval',):
                    return x is None
            if f == 'allclose':
                xs, ys, rt, at_ = [self.ev(x, e) for x in at.args[1:]]
                return all(abs(self.num(x) - self.num(y)) <= at_ + rt * abs(self.num(y)) for x, y in zip(xs, ys))
            args = self.rnd(tuple(self.ev(x, e) for x in at.args[1:]))
            if self.bools is not None:
                r = self.bools(f, args)
                if r is not None:
                    return r
            return h01(self.seed, 'bool', f, args) < 0.5
        v = self.ev(at, e)
        if isinstance(v, bool):
            return v
        if at.op == 'sym':
            return h01(self.seed, 'bool', at.args[0]) < 0.5
        return bool(v)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        # opaque non-numeric value used as a number
        return h01(self.seed, 'num', self.rnd(v)) * 4 - 2

    def count(self, v):
        v = self.num(v)
        if v != v:
            raise Ambiguous('nan length')
        if math.isinf(v) or v > 200:
            raise Ambiguous('long sequence')
        return max(0, int(round(v)))

    def app(self, t, env):
        e = tuple(env.items())
        f = t.args[0]
        if f == 'elt':
            base, i, path = t.args[1:]
            iv = self.ev(i, e)
            b = base.args[0]
            if base.op == 'symseq':
                if self.num(iv) < 0:
                    iv = self.num(iv) + self.count(self.ev(base.args[1], e))
                if b.op == 'sym':
                    return self.seqelem(b.args[0], self.num(iv), path)
                v = self.ev(b, e)
                if isinstance(v, list):
                    if self.num(iv) != self.num(iv):
                        return NAN
                    c = int(self.num(iv))
                    if 0 <= c < len(v):
                        return pick(v[c], path)
                    return NAN
                return self.seqelem(self.rnd(v), self.num(iv), path)
        if f == 'get':
            s, i = self.ev(t.args[1], e), self.num(self.ev(t.args[2], e))
            if i < 0 and isinstance(s, list):
                i += len(s)
            if isinstance(s, list) and 0 <= i < len(s) and i == int(i):
                return s[int(i)]
            return h01(self.seed, 'get', self.rnd(s), self.rnd(i)) * 4 - 2
        if f == 'index' and len(t.args) == 3:
            s, i = self.ev(t.args[1], e), self.ev(t.args[2], e)
            if s is None:
                raise Ambiguous('element of None')
            if isinstance(s, tuple) and s[:1] == ('fdict',):
                if repr(i) in s[1]:
                    return s[1][repr(i)]
                raise Unknown('dictionary entry')
            if isinstance(s, tuple) and s[:1] in (('farr',), ('fsarr',)) and len(s[1]) == 1:
                s = list(s[2])
            plain = isinstance(s, list) or isinstance(s, tuple) and s[:1] not in (
                ('farr',), ('fsarr',), ('fobj',), ('slice',))
            if plain and isinstance(i, (int, float)) and i == i and i == int(i):
                if -len(s) <= i < len(s):
                    return s[int(i)]
                raise Unknown('element outside')
        if f == 'proj':
            v = self.ev(t.args[1], e)
            try:
                return pick(v, t.args[2])
            except (TypeError, KeyError, IndexError):
                return self.hashval('proj', (self.rnd(v), t.args[2]))
        if f == 'recval':
            return self.ev(t.args[1], e)
        if f == 'attr':
            v = self.ev(t.args[1], e)
            if isinstance(v, tuple) and v and v[0] == 'fobj' and t.args[2] in v[2]:
                return v[2][t.args[2]]
            if isinstance(v, tuple) and v[:1] not in (('farr',), ('fsarr',), ('fobj',), ('fdict',), ('slice',)):
                k = T.field(t.args[2], len(v))
                if k is None:
                    raise Unknown('attribute %s' % t.args[2])
                return v[k]
            if v is None or t.args[2] in T.RECORDS:
                raise Unknown('attribute %s' % t.args[2])
        if f in TEXTS and f not in self.funcs:
            return TEXTS[f](self, [self.ev(x, e) if isinstance(x, (T.Term, tuple)) else x for x in t.args[1:]])
        if f in self.funcs:
            xs = [self.ev(x, e) for x in t.args[1:]]
            if '<undefined>' in xs:
                raise Ambiguous('variable without a value')
            r = self.funcs[f](self, xs)
            if r is not None:
                return r
        args = [self.ev(x, e) if isinstance(x, (T.Term, tuple)) else x for x in t.args[1:]]
        g = FUNCS.get(f)
        if g is not None:
            try:
                return g(*[self.num(x) if not isinstance(x, (list, tuple)) else x for x in args])
            except (ValueError, OverflowError, ZeroDivisionError, TypeError, IndexError):
                return NAN
        if f == 'positions':
            n, k = self.count(args[0]), self.count(args[1])
            if k > n:
                return [NAN] * k
            return random.Random(repr((self.seed, n, k, self.rnd(args[2])))).sample(range(n), k)
        if f == 'order':
            v = [self.num(x) for x in args[0]]
            if any(x != x for x in v):
                raise Ambiguous('nan in an order')
            w = sorted(v)
            if any(0 < abs(x - y) <= 1e-9 * max(abs(x), abs(y)) for x, y in zip(w, w[1:])):
                raise Ambiguous('close comparison')
            return sorted(range(len(v)), key=lambda i: v[i], reverse=bool(args[1]))
        if f == 'choices':
            n, k = self.count(args[0]), self.count(args[1])
            r = random.Random(repr((self.seed, n, k, rnd(args[2]))))
            return [r.randrange(n) if n else NAN for _ in range(k)]
        if f == 'len':
            if isinstance(args[0], list):
                return len(args[0])
            return 2 + int(h01(self.seed, 'len', self.rnd(args[0])) * 4)
        if f == 'inf':
            return math.inf
        if f == 'nan':
            return NAN
        if f == 'pi':
            return math.pi
        return self.hashval(f, self.rnd(tuple(args)))

    def hashval(self, f, args):
        return h01(self.seed, f, args) * 4 - 2


def pick(v, path):
    for p in path:
        if isinstance(v, tuple) and v and v[0] == 'farr':
            v = v[2][p]
        elif isinstance(v, tuple) and v and v[0] == 'fobj':
            v = v[2][p]
        else:
            v = v[p]
    return v


def mulp(p, v, k):
    if k == 1:
        return p * v
    if v == 0 and k < 0:
        return NAN
    try:
        return p * (v ** k)
    except OverflowError:
        return NAN


def _clampacos(f):
    def g(x):
        if 1 < abs(x) < 1 + 1e-9:
            x = math.copysign(1.0, x)
        return f(x)
    return g


def _sqrt(x):
    if -1e-12 < x < 0:
        x = 0.0
    return math.sqrt(x)


def _interp(x, xp, fp):
    if x <= xp[0]:
        return fp[0]
    if x >= xp[-1]:
        return fp[-1]
    i = bisect_right(xp, x) - 1
    return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])


def _clear(f):
    """a search whose outcome does not hinge on rounding noise"""
    def g(xs, x, *more):
        if any(y != x and abs(y - x) <= 1e-9 * max(1.0, abs(x)) for y in xs):
            raise Ambiguous('near tie')
        return f(xs, x, *more)
    return g


def _flatnum(s):
    r = []
    for x in s:
        if isinstance(x, tuple) and x and x[0] == 'farr':
            r += x[2]
        else:
            r.append(x)
    return r


def _median(s):
    s = sorted(_flatnum(s))
    n = len(s)
    if n == 0:
        return NAN
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def _percentile(s, q):
    s = sorted(_flatnum(s))
    if not s or not 0 <= q <= 100:
        return NAN
    p = (len(s) - 1) * q / 100.0
    i = min(int(p), len(s) - 1)
    j = min(i + 1, len(s) - 1)
    return s[i] + (p - i) * (s[j] - s[i])


def _grid(v):
    if v[0] == 'farr':
        m = v[1][1] if len(v[1]) > 1 else 1
        return [list(v[2][i * m:(i + 1) * m]) for i in range(v[1][0])]
    return [list(x[2]) if isinstance(x, tuple) else [x] for x in v[2]]


def _correlate(flip):
    def f(x, y, mode, lib):
        two = len(x[1]) == (2 if x[0] == 'farr' else 1)
        x, y = _grid(x), _grid(y)
        if not x or not y:
            return NAN
        if flip:
            y = [r[::-1] for r in y[::-1]]
        n, m, c, d = len(x), len(y), len(x[0]), len(y[0])
        full = [[0.0] * (c + d - 1) for _ in range(n + m - 1)]
        for i in range(n + m - 1):
            for j in range(c + d - 1):
                for k in range(max(0, i - m + 1), min(n, i + 1)):
                    for l in range(max(0, j - d + 1), min(c, j + 1)):
                        full[i][j] += x[k][l] * y[k - (i - m + 1)][l - (j - d + 1)]
        if mode == 'same':
            a = n if lib == 'scipy' else max(n, m)
            s, t = (n + m - 1 - a) // 2, (d - 1) // 2
            if lib == 'np' and flip is False and n < m:
                s = (n + m - 1 - a) - s
            full = [r[t:t + c] for r in full[s:s + a]]
        elif mode == 'valid':
            s = min(n, m) - 1
            full = [r[min(c, d) - 1:max(c, d)] for r in full[s:s + abs(n - m) + 1]]
        return [('farr', (len(r),), r) for r in full] if two else [r[0] for r in full]
    return f


def _mod(x, y):
    return math.fmod(x, y) if (x >= 0) == (y >= 0) or math.fmod(x, y) == 0 else math.fmod(x, y) + y


def _argbest(sign):
    def f(s):
        s = _flatnum(s)
        return max(range(len(s)), key=lambda i: (sign * s[i], -i))
    return f


def snap(x):
    """integers up to rounding noise"""
    r = round(x)
    return r if abs(x - r) <= 1e-11 * max(1.0, abs(x)) else x


_COMBS = {}


def combs(n, r):
    n, r = int(round(n)), int(round(r))
    if n > 12:
        raise Ambiguous('many combinations')
    if (n, r) not in _COMBS:
        _COMBS[n, r] = list(itertools.combinations(range(n), r)) if r >= 0 else []
    return _COMBS[n, r]


FUNCS = {
    'ncombinations': lambda n, r: len(combs(n, r)),
    'combination': lambda n, r, k, j: combs(n, r)[int(k)][int(j)] if k >= 0 and j >= 0 else NAN,
    'sqrt': _sqrt, 'abs': abs, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'arccos': _clampacos(math.acos), 'arcsin': _clampacos(math.asin), 'arctan': math.atan,
    'arctan2': math.atan2, 'log': math.log, 'exp': math.exp, 'pow': lambda a, b: a ** b,
    'mod': _mod, 'fmod': math.fmod, 'trunc': lambda x: int(snap(x)), 'floor': lambda x: math.floor(snap(x)),
    'ceil': lambda x: math.ceil(snap(x)), 'rint': round, 'round': lambda x, k: round(x, int(k)),
    'coarse': lambda x: math.ldexp(round(math.frexp(x)[0] * 2048.0), math.frexp(x)[1] - 11),
    'interp': _interp, 'bisect_left': _clear(bisect_left),
    'bisect_right': _clear(bisect_right), 'max': lambda s: max(_flatnum(s)), 'min': lambda s: min(_flatnum(s)),
    'percentile': _percentile, 'correlate': _correlate(False), 'convolve': _correlate(True),
    'let': lambda x: x, 'div0': lambda *a: NAN, 'median': _median, 'argmax': _argbest(1), 'argmin': _argbest(-1),
}


def _transpose(s):
    if not (isinstance(s, tuple) and s[:1] == ('fsarr',) and len(s[1]) == 1):
        raise Unknown('transpose')
    return ('fsarr', (len(s[2]),), [('farr', (len(s[2]),), [r[2][i] for r in s[2]]) for i in range(s[1][0])])


def text(v):
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        return repr(v)
    if isinstance(v, (str, bool, int, float)) or v is None:
        return str(v)
    return '<%r>' % (rnd(v),)


def _fmtspec(v, a):
    spec, x = a
    try:
        if spec[:1] in ':!':
            conv, _, sp = spec.partition(':')
            return format(text(x) if conv else x, sp)
        return ('%' + spec) % (x,)
    except (TypeError, ValueError):
        return '<%s %s>' % (spec, text(x))


def _fmtnum(v, a):
    try:
        return float(a[0] % a[1])
    except (TypeError, ValueError):
        return NAN


def _strmeth(v, a):
    r = getattr(text(a[1]), a[0])(*[int(x) if isinstance(x, float) else x for x in a[2:]])
    return r


def _float(v, a):
    if isinstance(a[0], str):
        try:
            return float(a[0])
        except ValueError:
            return NAN
    return v.num(a[0])


# functions on texts and file contents; contents are compared by structure
TEXTS = {
    'str': lambda v, a: ''.join(text(x) for x in a) if not any(isinstance(x, tuple) and x[:1] in (('json',), ('table',))
                                                              for x in a) else ('text',) + tuple(a),
    'tostr': lambda v, a: text(a[0]),
    'strsym': lambda v, a: '/d%d/%s' % (v.seed % 1000, a[0].split(':')[-1]),
    'fmtspec': _fmtspec, 'fmtnum': _fmtnum, 'strmeth': _strmeth, 'float': _float,
    'json': lambda v, a: ('json',) + tuple(a), 'table': lambda v, a: ('table',) + tuple(a),
    'dirname': lambda v, a: text(a[0]).rpartition('/')[0],
    'basename': lambda v, a: text(a[0]).rpartition('/')[2],
    'splitext': lambda v, a: (text(a[0]).rpartition('.')[0] or text(a[0]), text(a[0])[len(
        text(a[0]).rpartition('.')[0] or text(a[0])):])[int(a[1])],
    'file': lambda v, a: ('file', a[0]),
    'np.transpose': lambda v, a: _transpose(a[0]),
}


def same(a, b, tol=1e-6):
    """structural closeness of two evaluated values"""
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    return a == b


def has_nan(v):
    if isinstance(v, float):
        return v != v
    if isinstance(v, (list, tuple)):
        return any(has_nan(x) for x in v)
    if isinstance(v, dict):
        return any(has_nan(x) for x in v.values())
    return False
