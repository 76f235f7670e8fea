"""Hash-consed value numbers and their algebraic normal forms.

Every abstract value of the value-flow analysis is an interned term, so two
program expressions that are congruent after normalisation are the *same*
object.  Real-valued expressions are kept as rational functions in canonical
form (multivariate polynomials over value numbers, with denominators), and
control dependence is kept as ordered decision nodes (gated SSA: the phi
functions carry the predicate that selects them).
"""
import time
import hashlib
from fractions import Fraction

_table = {}


class Term(object):
    __slots__ = ('op', 'args', 'dig', 'unk', 'hgt', '_syms', 'tag')

    def __repr__(self):
        return show(self)


def _dig(op, parts):
    h = hashlib.md5(op.encode())
    for p in parts:
        h.update(b'|')
        h.update(p if isinstance(p, bytes) else p.encode())
    return h.digest()


def _argdig(a):
    if isinstance(a, Term):
        return a.dig
    if isinstance(a, tuple):
        return _dig('T', [_argdig(x) for x in a])
    return type(a).__name__ + ':' + repr(a)


def _walkflags(a, acc):
    if isinstance(a, Term):
        acc[0] |= a.unk
        if a.hgt > acc[1]:
            acc[1] = a.hgt
    elif isinstance(a, tuple):
        for x in a:
            _walkflags(x, acc)


class Raises(Exception):
    """internal: expression definitely raises"""

    def __init__(self, why, exc=None, state=None):
        Exception.__init__(self, why)
        self.why = why
        self.exc = exc          # (type name, value) if known
        self.state = state      # state reached when the failure is certain


class TooBig(Exception):
    pass


# work budget of one analysis (deterministic, unlike a time limit)
WORK = [0, None]
# backstop in seconds for work the budget does not count
LIMIT = [None, 0]


def tick(n=1):
    WORK[0] += n
    if WORK[1] is not None and WORK[0] > WORK[1]:
        raise TooBig()
    LIMIT[1] += 1
    if not LIMIT[1] & 511 and LIMIT[0] is not None and time.monotonic() > LIMIT[0]:
        raise TooBig()


def mk(op, *args):
    """Intern a raw term (no simplification)."""
    key = (op, args, tuple(type(a) for a in args) if op == 'const' else None)
    t = _table.get(key)
    if t is None:
        if op != 'unk':
            tick()
        t = Term()
        t.op = op
        t.args = args
        t.dig = _dig(op, [_argdig(a) for a in args])
        acc = [op == 'unk', 0]
        for a in args:
            _walkflags(a, acc)
        t.unk = acc[0]
        t.hgt = acc[1]
        if op == 'bv':
            t.hgt = args[0]
        t._syms = None
        t.tag = None
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk('const', v)
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if v is Ellipsis:
        return mk('const', '...')
    raise TypeError(v)


NONE = mk('const', None)
TRUE = mk('const', True)
FALSE = mk('const', False)


def unk(why):
    return mk('unk', why)


def sym(name):
    return mk('sym', name)


# ---------------------------------------------------------------- polynomials
# A polynomial is a dict {monomial: Fraction}; a monomial is a tuple of
# (atom, exponent) pairs ordered by the atom's digest.
_ONE = ()


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].dig))


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    if len(a) * len(b) > 250000:
        raise TooBig()
    tick(1 + len(a) * len(b) // 8)
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return _preduce(r)


def _reducible(m):
    for t, e in m:
        if e >= 2 and t.op == 'app' and t.args[0] in ('sqrt', 'sin', 'abs', 'rootsign'):
            return t, e
    return None


def _preduce(p):
    """sqrt(p)^2 = p, abs(p)^2 = p^2, sin^2 = 1 - cos^2."""
    todo = [m for m in p if _reducible(m)]
    if not todo:
        return p
    r = {m: c for m, c in p.items() if not _reducible(m)}
    for m in todo:
        t, e = _reducible(m)
        rest = tuple((a, x) for a, x in m if a is not t)
        if e % 2:
            rest = _mmul(rest, ((t, 1),))
        f = t.args[0]
        if f == 'sqrt':
            base = t.args[1]
            assert not base.args[1]
            sq = dict(base.args[0])
        elif f == 'abs':
            base = t.args[1]
            assert not base.args[1]
            sq = pmul(dict(base.args[0]), dict(base.args[0]))
        else:
            ca = app('cos', t.args[1])
            cp = dict(as_rat(ca).args[0])
            sq = padd({_ONE: Fraction(1)}, pscale(pmul(cp, cp), Fraction(-1)))
        q = {rest: p[m]}
        for _ in range(e // 2):
            q = pmul(q, sq)
        r = padd(r, q)
    return _preduce(r)


def _mdeg(m):
    return sum(e for _, e in m)


def _mkey(m):
    return (_mdeg(m), tuple((t.dig, e) for t, e in m))


def _lead(p):
    """Leading monomial in graded order (canonical choice only)."""
    return max(p, key=_mkey)


def _vars(p):
    s = {}
    for m in p:
        for t, _ in m:
            s[t] = 1
    return sorted(s, key=lambda t: t.dig)


def pdivexact(a, b):
    """a / b if b divides a exactly, else None (lexicographic division)."""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        db = dict(mb)
        r = {}
        for m, c in a.items():
            d = dict(m)
            for t, e in db.items():
                x = d.get(t, 0) - e
                if x < 0:
                    return None
                if x:
                    d[t] = x
                else:
                    d.pop(t, None)
            r[tuple(sorted(d.items(), key=lambda x: x[0].dig))] = c / cb
        return r
    vs = _vars(b)
    va = {t for m in a for t, _ in m}
    if any(v not in va for v in vs):
        return None
    order = _vars(padd_keys(a, b))
    idx = {t: i for i, t in enumerate(order)}

    def lexkey(m):
        v = [0] * len(order)
        for t, e in m:
            v[idx[t]] = e
        return tuple(v)
    lb = max(b, key=lexkey)
    lbk = lexkey(lb)
    rem = dict(a)
    q = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 4000:
            return None
        tick(1 + len(rem) // 16)
        la = max(rem, key=lexkey)
        lak = lexkey(la)
        if any(x < y for x, y in zip(lak, lbk)):
            return None
        m = tuple((order[i], x - y) for i, (x, y) in enumerate(zip(lak, lbk)) if x - y)
        c = rem[la] / b[lb]
        q[m] = q.get(m, 0) + c
        # no _preduce here: exact polynomial division over the free atoms
        for mb, cb in b.items():
            mm = _mmul(m, mb)
            v = rem.get(mm, 0) - c * cb
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
    return q


def padd_keys(a, b):
    r = dict.fromkeys(a, 1)
    r.update(dict.fromkeys(b, 1))
    return r


def psqrt(p):
    """r with r*r == p, else None."""
    if not p:
        return {}
    vs = _vars(p)
    if not vs:
        c = p[_ONE]
        s = _fsqrt(c)
        return None if s is None else {_ONE: s}
    order = {t: i for i, t in enumerate(vs)}

    def lexkey(m):
        v = [0] * len(vs)
        for t, e in m:
            v[order[t]] = e
        return tuple(v)
    lm = max(p, key=lexkey)
    if any(e % 2 for _, e in lm):
        return None
    s = _fsqrt(p[lm])
    if s is None:
        return None
    r = {tuple((t, e // 2) for t, e in lm): s}
    l0 = tuple((t, e // 2) for t, e in lm)
    k0 = lexkey(l0)
    for _ in range(60):
        rem = dict(p)
        for m1, c1 in r.items():
            for m2, c2 in r.items():
                mm = _mmul(m1, m2)
                v = rem.get(mm, 0) - c1 * c2
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
        if not rem:
            return r
        la = max(rem, key=lexkey)
        ka = lexkey(la)
        if any(x < y for x, y in zip(ka, k0)):
            return None
        m = tuple((vs[i], x - y) for i, (x, y) in enumerate(zip(ka, k0)) if x - y)
        if m in r:
            return None
        r[m] = rem[la] / (2 * s)
    return None


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def _fsqrt(c):
    if c < 0:
        return None
    a, b = _isqrt(c.numerator), _isqrt(c.denominator)
    return None if a is None or b is None else Fraction(a, b)


def _content(p):
    """(content, primitive part) with positive leading coefficient."""
    from math import gcd
    g = 0
    l = 1
    for c in p.values():
        g = gcd(g, c.numerator)
        l = l * c.denominator // gcd(l, c.denominator)
    k = Fraction(g, l)
    if p[_lead(p)] < 0:
        k = -k
    return k, {m: c / k for m, c in p.items()}


# ---------------------------------------------------------------- rationals
def mkrat(nump, den):
    """nump: dict; den: dict {polynomial-term: exponent}."""
    if not nump:
        den = {}
    d2 = {}
    for f, e in den.items():
        fp = dict(f.args[0])
        while e > 0:
            q = pdivexact(nump, fp)
            if q is None:
                break
            nump = q
            e -= 1
        if e:
            d2[f] = e
    items = tuple(sorted(nump.items(), key=lambda x: _mkey(x[0])))
    dens = tuple(sorted(d2.items(), key=lambda x: x[0].dig))
    return mk('rat', items, dens)


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v:
            return atom(mk('app', 'nan'))
        if v in (float('inf'), float('-inf')):
            a = atom(mk('app', 'inf'))
            return a if v > 0 else rneg(a)
        v = Fraction(repr(v))
    v = Fraction(v)
    return mk('rat', (((), v),) if v else (), ())


ZERO = num(0)
ONE = num(1)


def atom(t):
    """Rational term consisting of one opaque value number."""
    if t.op == 'rat':
        return t
    return mk('rat', ((((t, 1),), Fraction(1)),), ())


def as_rat(t):
    if t.op == 'rat':
        return t
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return atom(t)


def is_num(t):
    return t.op == 'rat'


def const_value(t):
    """Fraction if t is a numeric constant, else None."""
    if t.op == 'rat' and not t.args[1]:
        if not t.args[0]:
            return Fraction(0)
        if len(t.args[0]) == 1 and t.args[0][0][0] == ():
            return t.args[0][0][1]
    return None


def int_value(t):
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    c = const_value(t)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


# largest numerator kept expanded; a longer one is given a name ('let')
CUT = [None]


def _cut(a):
    if CUT[0] is None or a.op != 'rat':
        return a
    nump, den = a.args
    if len(nump) <= CUT[0] and all(len(f.args[0]) <= CUT[0] for f, _ in den):
        return a
    r = mk('rat', nump, ())
    if len(nump) > CUT[0]:
        r = atom(mk('app', 'let', r))
    d2 = {}
    for f, e in den:
        if len(f.args[0]) > CUT[0]:
            f = atom(mk('app', 'let', f))
        d2[f] = d2.get(f, 0) + e
    return mk('rat', r.args[0], tuple(sorted(d2.items(), key=lambda x: x[0].dig)))


def radd(a, b):
    return _cut(_radd(a, b))


def rmul(a, b):
    return _cut(_rmul(a, b))


def rinv(a):
    return _cut(_rinv(a))


def _radd(a, b):
    if not a.args[1] and not b.args[1]:
        return mkrat(padd(dict(a.args[0]), dict(b.args[0])), {})
    da, db = dict(a.args[1]), dict(b.args[1])
    den = dict(da)
    for f, e in db.items():
        den[f] = max(den.get(f, 0), e)

    def lift(x, dx):
        p = dict(x.args[0])
        for f, e in den.items():
            for _ in range(e - dx.get(f, 0)):
                p = pmul(p, dict(f.args[0]))
        return p
    return mkrat(padd(lift(a, da), lift(b, db)), den)


def rneg(a):
    return mk('rat', tuple((m, -c) for m, c in a.args[0]), a.args[1])


def rsub(a, b):
    return radd(a, rneg(b))


def _rmul(a, b):
    den = dict(a.args[1])
    for f, e in b.args[1]:
        den[f] = den.get(f, 0) + e
    return mkrat(pmul(dict(a.args[0]), dict(b.args[0])), den)


def _polyterm(p):
    return mk('rat', tuple(sorted(p.items(), key=lambda x: _mkey(x[0]))), ())


def factor_simple(p):
    """p = k * prod f^e with cheap factorisation (content, atoms, squares)."""
    k, q = _content(p)
    fac = {}
    # monomial content
    common = None
    for m in q:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {t: min(e, d[t]) for t, e in common.items() if t in d}
        if not common:
            break
    if common:
        for t, e in common.items():
            fac[atom(t)] = e
        mono = tuple(sorted(common.items(), key=lambda x: x[0].dig))
        q = pdivexact(q, {mono: Fraction(1)})
    if list(q.keys()) != [_ONE]:
        e = 1
        while True:
            s = psqrt(q)
            if s is None:
                break
            q = s
            e *= 2
        k2, q = _content(q)
        k = k * k2 ** e
        fac[_polyterm(q)] = fac.get(_polyterm(q), 0) + e
    else:
        k = k * q[_ONE]
    return k, fac


def _rinv(a):
    if not a.args[0]:
        return atom(mk('app', 'div0'))
    k, fac = factor_simple(dict(a.args[0]))
    nump = {_ONE: 1 / k}
    for f, e in a.args[1]:
        for _ in range(e):
            nump = pmul(nump, dict(f.args[0]))
    den = {}
    for f, e in fac.items():
        t = single_atom(f)
        if t is not None and t.op == 'app' and t.args[0] == 'sqrt':
            # 1/sqrt(p) = sqrt(p)/p
            base = t.args[1]
            if e % 2:
                nump = pmul(nump, {((t, 1),): Fraction(1)})
                e += 1
            kk, ff = factor_simple(dict(base.args[0]))
            nump = pscale(nump, 1 / kk ** (e // 2))
            for g, x in ff.items():
                den[g] = den.get(g, 0) + x * (e // 2)
            continue
        den[f] = den.get(f, 0) + e
    return mkrat(nump, den)


def single_atom(r):
    """The atom t if r is exactly t, else None."""
    if r.op == 'rat' and not r.args[1] and len(r.args[0]) == 1:
        m, c = r.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def rdiv(a, b):
    if not b.args[0]:
        return atom(mk('app', 'div0', a))
    return rmul(a, rinv(b))


def rpow(a, n):
    if n < 0:
        return rinv(rpow(a, -n))
    r = ONE
    for _ in range(n):
        r = rmul(r, a)
    return r


def rsqrt(a):
    c = const_value(a)
    if c is not None and c >= 0:
        s = _fsqrt(c)
        if s is not None:
            return num(s)
    if not a.args[0]:
        return ZERO
    if a.args[1]:
        # sqrt(n/d): make the denominator a perfect square
        extra = {_ONE: Fraction(1)}
        den = {}
        for f, e in a.args[1]:
            if e % 2:
                extra = pmul(extra, dict(f.args[0]))
                e += 1
            den[f] = e // 2
        n = rsqrt(mkrat(pmul(dict(a.args[0]), extra), {}))
        # sign of the (even) denominator: |f|
        r = n
        for f, e in den.items():
            d = rpow(f, e)
            if e % 2 and not _nonneg(f):
                d = rabs(d)
            r = rdiv(r, d)
        return r
    p = dict(a.args[0])
    k, q = _content(p)
    neg = k < 0
    if neg:
        k = -k
    # split k = s^2 * r with r squarefree rational
    s, r = _sqsplit(k)
    if neg:
        q = pscale(q, Fraction(-1))
    root = psqrt(q)
    if root is not None and root:
        base = rabs(mkrat(root, {}))
        inner = num(_fsqrt(r)) if _fsqrt(r) is not None else atom(mk('app', 'sqrt', num(r)))
        return rmul(rmul(num(s), base), inner)
    q = pscale(q, r)
    return rmul(num(s), atom(mk('app', 'sqrt', _polyterm(q))))


def _sqsplit(k):
    """k = s^2 * r, r integer squarefree."""
    n = k.numerator * k.denominator
    s = Fraction(1, k.denominator)
    i = 2
    while i * i <= n and i < 1000:
        while n % (i * i) == 0:
            n //= i * i
            s *= i
        i += 1
    return s, Fraction(n)


def _nonneg(f):
    """syntactically a sum of non-negative monomials"""
    return all(c > 0 and all(e % 2 == 0 or (t.op == 'app' and t.args[0] in ('sqrt', 'abs', 'exp'))
                             for t, e in m) for m, c in f.args[0])


def rabs(a):
    c = const_value(a)
    if c is not None:
        return num(abs(c))
    if not a.args[1]:
        if _nonneg(a):
            return a
        if _nonneg(rneg(a)):
            return rneg(a)
        k, q = _content(dict(a.args[0]))
        return rmul(num(abs(k)), atom(mk('app', 'abs', _polyterm(q))))
    n = rabs(mkrat(dict(a.args[0]), {}))
    for f, e in a.args[1]:
        d = rpow(f, e)
        n = rdiv(n, d if e % 2 == 0 else rabs(d))
    return n


def req(a, b):
    """Exact equality of two rational terms (cross multiplication)."""
    if a is b:
        return True
    return not rsub(a, b).args[0] or _cross(a, b)


def _cross(a, b):
    p = dict(a.args[0])
    q = dict(b.args[0])
    for f, e in b.args[1]:
        for _ in range(e):
            p = pmul(p, dict(f.args[0]))
    for f, e in a.args[1]:
        for _ in range(e):
            q = pmul(q, dict(f.args[0]))
    return padd(p, pscale(q, Fraction(-1))) == {}


# ---------------------------------------------------------------- decisions
# A decision atom is ('sgn', P) with branches (negative, zero, positive) or a
# boolean term with branches (false, true).
class _Sgn(object):
    pass


def dec_atom(t):
    return t.args[0]


def is_dec(t):
    return t.op == 'dec'


def _akey(a):
    return (0 if a.op == 'sgn' else 1, a.dig)


_cof_memo = {}


def cofactor(t, a, i):
    """t under the assumption that decision atom a takes branch i."""
    if t.op != 'dec':
        return t
    key = (t, a, i)
    r = _cof_memo.get(key)
    if r is None:
        b = t.args[0]
        if b is a:
            r = t.args[1 + i]
            r = cofactor(r, a, i)
        elif _akey(b) > _akey(a):
            r = t
        else:
            r = mkdec(b, [cofactor(x, a, i) for x in t.args[1:]])
        _cof_memo[key] = r
    return r


def mkdec(a, branches):
    """Ordered, reduced decision node."""
    branches = [cofactor(b, a, i) for i, b in enumerate(branches)]
    if all(b is branches[0] for b in branches):
        return branches[0]
    tops = [b.args[0] for b in branches if b.op == 'dec']
    best = min(tops, key=_akey) if tops else None
    if best is not None and _akey(best) < _akey(a):
        n = len(branches)
        arity = 3 if best.op == 'sgn' else 2
        return mkdec_raw(best, [mkdec(a, [cofactor(b, best, j) for b in branches])
                                for j in range(arity)])
    return mkdec_raw(a, branches)


def mkdec_raw(a, branches):
    if all(b is branches[0] for b in branches):
        return branches[0]
    t = mk('dec', a, *branches)
    n = 1
    for b in branches:
        n += _dsize.get(b, 1)
    _dsize[t] = n
    if n > 3000 and _dagsize(t) > 1500:
        raise TooBig()
    return t


def _dagsize(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'dec':
            st.extend(x.args[1:])
    return len(seen)


_dsize = {}


def lift(f, *ts):
    """Apply f to the leaves of gated values."""
    memo = {}

    def go(ts):
        r = memo.get(ts)
        if r is not None:
            return r
        tick()
        tops = [t.args[0] for t in ts if t.op == 'dec']
        if not tops:
            r = f(*ts)
        else:
            a = min(tops, key=_akey)
            arity = 3 if a.op == 'sgn' else 2
            r = mkdec(a, [go(tuple([cofactor(t, a, i) for t in ts])) for i in range(arity)])
        memo[ts] = r
        return r
    return go(tuple(ts))


def napp(f, *args):
    """Scalar valued opaque application."""
    return lift(lambda *a: atom(mk('app', f, *a)), *args)


def leaves(t):
    if t.op != 'dec':
        return [t]
    seen = set()
    acc = []

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'dec':
            for b in t.args[1:]:
                go(b)
        else:
            acc.append(t)
    go(t)
    return acc


def paths(t, path=()):
    """(list of (atom, branch)) / leaf pairs of a decision diagram."""
    if t.op == 'dec':
        for i, b in enumerate(t.args[1:]):
            for x in paths(b, path + ((t.args[0], i),)):
                yield x
    else:
        yield path, t


def ite(c, a, b):
    """Gated merge: c is a boolean valued term (TRUE/FALSE leaves)."""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'unk':
        return a if a is b else unk('branch on unknown: ' + str(c.args[0]))
    if c.op != 'dec':
        return mkdec(c, [b, a])
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is None:
        at = c.args[0]
        arity = 3 if at.op == 'sgn' else 2
        r = mkdec(at, [ite(cofactor(c, at, i), cofactor(a, at, i), cofactor(b, at, i))
                       for i in range(arity)])
        if len(_ite_memo) > 400000:
            _ite_memo.clear()
        _ite_memo[key] = r
    return r


_ite_memo = {}


def bnot(c):
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bool_atom(t):
    """Boolean value of an opaque predicate term."""
    return mkdec(t, [FALSE, TRUE])


def isnone(x):
    """whether a value is None"""
    if x.op == 'dec':
        return lift(isnone, x)
    if x is NONE:
        return TRUE
    if x.op == 'unk':
        return x
    if x.op == 'app' and (x.args[0] in ('str', 'fmt') or x.args[0] == 'elt' and x.args[1].op == 'symseq' and
                          x.args[1].args[2] == 'num' and not x.args[3]):
        return FALSE
    if x.op in ('app', 'sym', 'symseq', 'bv'):
        return bool_atom(mk('app', 'isnone', x))
    return FALSE


def sgn3(p, n, z, q):
    """decision on the sign of the rational term p"""
    c = const_value(p)
    if c is not None:
        return n if c < 0 else (q if c > 0 else z)
    if not p.args[0]:
        return z
    inf = _inf_sign(p)
    if inf is not None:
        return n if inf < 0 else q
    # normalise p up to a positive factor
    if not p.args[1]:
        k, prim = _content(dict(p.args[0]))
        P = _polyterm(prim)
    else:
        # multiply by squares of the denominators: sign(n/d) = sign(n*d)
        nump = dict(p.args[0])
        den = {}
        for f, e in p.args[1]:
            if e % 2 and not _nonneg(f):
                den[f] = 1
        k, prim = _content(nump)
        P = mkrat(prim, den)
    if k < 0:
        n, q = q, n
    if _nonneg(P) and not P.args[1]:
        if any(m == () for m, _ in P.args[0]):
            return q
        n = q  # a non-negative form is never negative
    # at P == 0 a linear occurrence of a plain symbol can be eliminated
    s = _solve_zero(P)
    if s is not None:
        z = subst(z, {s[0]: s[1]})
    if n is z and z is q:
        return n
    return mkdec(mk('sgn', P), [n, z, q])


def _inf_sign(p):
    """sign of a value that contains the symbol inf linearly"""
    if p.args[1]:
        return None
    coef = None
    for m, c in p.args[0]:
        for t, e in m:
            if t.op == 'app' and t.args[0] == 'inf':
                if len(m) != 1 or e != 1:
                    return None
                coef = c
    return coef


def _solve_zero(P):
    if P.args[1]:
        return None
    # P = c*s + const with s a plain symbol
    if len(P.args[0]) > 2:
        return None
    s = None
    k = Fraction(0)
    for m, c in P.args[0]:
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym' and s is None:
            s, cs = m[0][0], c
        else:
            return None
    if s is None:
        return None
    return s, num(-k / cs)


def lt(a, b):
    return sgn3(rsub(b, a), FALSE, FALSE, TRUE)


def le(a, b):
    return sgn3(rsub(b, a), FALSE, TRUE, TRUE)


def eq(a, b):
    return sgn3(rsub(b, a), FALSE, TRUE, FALSE)


# ---------------------------------------------------------------- applications
_rules = {}


def rule(name):
    def d(f):
        _rules[name] = f
        return f
    return d


def app(f, *args):
    """Application of an (interpreted or opaque) function, normalised."""
    for i, a in enumerate(args):
        if isinstance(a, Term) and a.op == 'dec' and f not in _nolift:
            n = i
            break
    else:
        r = _rules.get(f)
        if r is not None:
            x = r(*args)
            if x is not None:
                return x
        return mk('app', f, *args)
    idx = [i for i, a in enumerate(args) if isinstance(a, Term)]

    def g(*leaf):
        na = list(args)
        for i, l in zip(idx, leaf):
            na[i] = l
        return app(f, *na)
    return lift(g, *[args[i] for i in idx])


_nolift = set(['phi', 'loop', 'exc', 'guarded'])


@rule('sqrt')
def _r_sqrt(a):
    return rsqrt(as_rat(a))


@rule('abs')
def _r_abs(a):
    return rabs(as_rat(a))


def _halfpi(a):
    """k with a == k*pi/2 (integer k) else None"""
    c = const_value(a)
    if c == 0:
        return 0
    q = const_value(rdiv(a, PI))
    if q is not None and (2 * q).denominator == 1:
        return int(2 * q)
    return None


PI = atom(sym('pi'))


@rule('sin')
def _r_sin(a):
    a = as_rat(a)
    k = _halfpi(a)
    if k is not None:
        return num([0, 1, 0, -1][k % 4])
    if a.args[0] and a.args[0][-1][1] < 0:
        return rneg(app('sin', rneg(a)))
    t = single_atom(a)
    if t is not None and t.op == 'app' and t.args[0] == 'arccos':
        x = t.args[1]
        return rsqrt(rsub(ONE, rmul(x, x)))
    return atom(mk('app', 'sin', a))


@rule('cos')
def _r_cos(a):
    a = as_rat(a)
    k = _halfpi(a)
    if k is not None:
        return num([1, 0, -1, 0][k % 4])
    if a.args[0] and a.args[0][-1][1] < 0:
        return app('cos', rneg(a))
    t = single_atom(a)
    if t is not None and t.op == 'app' and t.args[0] == 'arccos':
        return t.args[1]
    return atom(mk('app', 'cos', a))


@rule('arccos')
def _r_arccos(a):
    a = as_rat(a)
    c = const_value(a)
    if c == 1:
        return ZERO
    if c == 0:
        return rdiv(PI, num(2))
    if c == -1:
        return PI
    return atom(mk('app', 'arccos', a))


# ---------------------------------------------------------------- containers
def tup(items):
    return mk('tup', *items)


def farr(shape, elems):
    return mk('farr', tuple(shape), tuple(elems))


# fields of the named tuples of the analysed modules: name -> {(number of fields, position)}
RECORDS = {}


def field(name, n):
    """position of a field in the named tuples with n fields, None if there is none or it differs"""
    r = {i for k, i in RECORDS.get(name, ()) if k == n}
    return r.pop() if len(r) == 1 else None


def fobj(cls, attrs):
    return mk('fobj', cls, tuple(sorted(attrs.items() if isinstance(attrs, dict) else attrs)))


def flist(items):
    return mk('flist', *items)


def bv(h):
    return mk('bv', h)


_fresh = [0]


def fresh_index():
    _fresh[0] += 1
    return mk('sym', '%%k%d' % _fresh[0])


def mkmap(n, k, body):
    """Sequence of length n with element body(k); alpha-canonical binder."""
    h = 1 + body.hgt
    if isinstance(n, Term) and n.op == 'rat':
        pass
    b = bv(h)
    nb = subst(body, {k: atom(b)})
    # eta: Map(len s, k -> s[k]) is s
    if nb.op in ('app',) and nb.args[0] == 'get' and nb.args[2] is atom(b) \
            and not occurs(nb.args[1], b) and seq_len(nb.args[1]) is n:
        return nb.args[1]
    return mk('map', n, b, nb)


def occurs(t, x):
    if t is x:
        return True
    if isinstance(t, Term):
        return x in symbols(t)
    return any(occurs(y, x) for y in t) if isinstance(t, tuple) else False


def symbols(t):
    """free leaf atoms (sym / bv) of a term"""
    if t._syms is None:
        acc = set()
        if t.op in ('sym', 'bv'):
            acc.add(t)
        else:
            _collect(t.args, acc)
        t._syms = frozenset(acc)
    return t._syms


def _collect(a, acc):
    if isinstance(a, Term):
        acc |= symbols(a)
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, acc)


# sequence terms:  map(n,b,e)  flist(items)  symseq(name,n,kind)  cat(seqs..)
#                  slc(seq,lo,hi)  rep(v,n)  filt(n,b,guard,elem)  store(seq,i,v)
#                  del(seq,i)  opaque
def seq_len(s):
    if s.op == 'map':
        return s.args[0]
    if s.op == 'flist':
        return num(len(s.args))
    if s.op == 'symseq':
        return s.args[1]
    if s.op == 'cat':
        r = ZERO
        for x in s.args:
            l = seq_len(x)
            if l.op != 'rat':
                return atom(mk('app', 'len', s))
            r = radd(r, l)
        return r
    if s.op == 'slc':
        if s.args[2].op == 'rat' and s.args[1].op == 'rat':
            return rsub(s.args[2], s.args[1])
    if s.op == 'rep':
        return s.args[1]
    if s.op in ('store', 'blkstore'):
        return seq_len(s.args[0])
    if s.op == 'slotseq':
        return seq_len(s.args[0])
    if s.op == 'flat' and s.args[0].op == 'map' and s.args[0].args[2].op == 'flist' \
            and s.args[0].args[0].op == 'rat':
        return rmul(s.args[0].args[0], num(len(s.args[0].args[2].args)))
    if s.op == 'del':
        l = seq_len(s.args[0])
        if l.op == 'rat':
            return rsub(l, ONE)
    if s.op == 'dec':
        return lift(seq_len, s)
    return atom(mk('app', 'len', s))


_elem_hook = []


def seq_get(s, i):
    """Element i (a non-negative rational term) of a sequence term."""
    if s.op == 'dec':
        return lift(lambda x, j: seq_get(x, j), s, i)
    if i.op == 'dec':
        return lift(lambda x, j: seq_get(x, j), s, i)
    if i.op != 'rat':
        return mk('app', 'get', s, i)
    if s.op == 'map':
        return subst(s.args[2], {s.args[1]: i})
    if s.op == 'rep':
        return s.args[0]
    if s.op == 'flist':
        c = int_value(i)
        if c is not None and -len(s.args) <= c < len(s.args):
            return s.args[c]
        if c is None:
            return typed_get(s, i)
    if s.op == 'slc':
        return seq_get(s.args[0], radd(i, s.args[1]))
    if s.op == 'store':
        d = const_value(rsub(i, s.args[1]))
        if d is not None:
            return s.args[2] if d == 0 else seq_get(s.args[0], i)
        return ite(eq(i, s.args[1]), s.args[2], seq_get(s.args[0], i))
    if s.op == 'cat':
        off = ZERO
        for x in s.args:
            l = seq_len(x)
            d = const_value(rsub(rsub(i, off), l)) if l.op == 'rat' else None
            d0 = const_value(rsub(i, off))
            if d0 is not None and d0 >= 0 and x.op == 'flist' and d0 < len(x.args):
                return seq_get(x, rsub(i, off))
            if d is not None and d < 0 and x is s.args[-1]:
                return seq_get(x, rsub(i, off))
            if l.op == 'rat' and const_value(l) is not None:
                lo = rsub(i, off)
                off2 = radd(off, l)
                # index a + k with constant prefix: decide when provable
                if _provably_ge(i, off2):
                    off = off2
                    continue
                return typed_get(s, i)
            d = rsub(i, off)
            if _provably_ge(d, l) if l.op == 'rat' else False:
                off = radd(off, l)
                continue
            if x is s.args[0] and _provably_lt(i, l):
                return seq_get(x, i)
            if l.op == 'rat' and len(s.args) <= 3 and x is not s.args[-1]:
                rest = s.args[s.args.index(x) + 1:]
                rest = rest[0] if len(rest) == 1 else mk('cat', *rest)
                return ite(lt(d, l), seq_get(x, d), seq_get(rest, rsub(d, l)))
            return seq_get(x, d) if x is s.args[-1] else typed_get(s, i)
        return typed_get(s, i)
    if s.op == 'symseq' and _elem_hook:
        return _elem_hook[0](s, i)
    if s.op == 'filt':
        return typed_get(s, i)
    return mk('app', 'get', s, i)


def seq_kind(s):
    """kind of the elements of a sequence term (None if not uniform)"""
    if s.op == 'symseq':
        return s.args[2]
    if s.op == 'map':
        return kind_of(s.args[2])
    if s.op == 'rep':
        return kind_of(s.args[0])
    if s.op == 'slc':
        return seq_kind(s.args[0])
    if s.op == 'filt':
        return kind_of(s.args[3]) if len(s.args) > 3 and isinstance(s.args[3], Term) else None
    if s.op == 'flist':
        ks = [kind_of(x) for x in s.args]
    elif s.op == 'cat':
        ks = [seq_kind(x) for x in s.args]
    else:
        return None
    return ks[0] if ks and all(k is not None and k == ks[0] for k in ks) else None


def typed_get(s, i):
    k = seq_kind(s)
    if k is None or isinstance(k, str):
        return mk('app', 'get', s, i)
    return _elem_hook[0](mk('symseq', s, seq_len(s), k), i)


def _provably_ge(a, b):
    d = rsub(a, b)
    if d.args[1]:
        return False
    # constant part >= 0 and everything else a non-negative index/length
    for m, c in d.args[0]:
        if c < 0:
            return False
        for t, e in m:
            if not (t.op == 'bv' or (t.op == 'sym' and t.args[0].startswith('%k'))
                    or (t.op == 'sym' and t.args[0].startswith('#'))
                    or (t.op == 'app' and t.args[0] == 'len')):
                return False
    return True


def nonpos(d):
    """certainly not positive: lengths and indices are non-negative"""
    return d.op == 'rat' and _provably_ge(ZERO, d)


def _provably_lt(a, b):
    return a.op == b.op == 'rat' and _provably_ge(rsub(b, ONE), a)


def seq_cat(*ss):
    out = []
    for s in ss:
        if s.op == 'cat':
            out.extend(s.args)
        elif s.op == 'flist' and not s.args or s.op == 'map' and s.args[0] is ZERO:
            continue
        elif s.op == 'flist' and out and out[-1].op == 'flist':
            out[-1] = flist(list(out[-1].args) + list(s.args))
        else:
            out.append(s)
    if not out:
        return flist([])
    # [s[0]] + Map(n-1, k -> s[k+1])  ==  s     (first element peeled off)
    i = 0
    while i + 1 < len(out):
        m = _merge_adjacent(out[i], out[i + 1])
        if m is not None:
            out[i:i + 2] = [m]
            i = max(i - 1, 0)
        else:
            i += 1
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def _merge_adjacent(a, b):
    """[e(0)] ++ Map(n, k -> e(k+1))  =>  Map(n+1, e)"""
    if b.op == 'map' and a.op == 'flist' and len(a.args) == 1:
        n, bb, body = b.args
        k = fresh_index()
        shifted = subst(body, {bb: rsub(atom(k), ONE)})
        if subst(shifted, {k: ZERO}) is a.args[0] and n.op == 'rat':
            return mkmap(radd(n, ONE), k, shifted)
    if a.op == 'map' and b.op == 'map' and a.args[0].op == 'rat' and b.args[0].op == 'rat':
        n1, b1, e1 = a.args
        n2, b2, e2 = b.args
        k = fresh_index()
        x = subst(e1, {b1: atom(k)})
        y = subst(e2, {b2: rsub(atom(k), n1)})
        if x is y:
            return mkmap(radd(n1, n2), k, x)
    if a.op == 'map' and b.op == 'flist' and len(b.args) == 1 and a.args[0].op == 'rat':
        n, bb, body = a.args
        if subst(body, {bb: n}) is b.args[0]:
            k = fresh_index()
            return mkmap(radd(n, ONE), k, subst(body, {bb: atom(k)}))
    return None


def seq_slice(s, lo, hi):
    """s[lo:hi] with non-negative rational terms lo <= hi <= len."""
    if s.op == 'dec':
        return lift(lambda x: seq_slice(x, lo, hi), s)
    if lo is ZERO and seq_len(s) is hi:
        return s
    if s.op == 'flist':
        a, b = int_value(lo), int_value(hi)
        if a is not None and b is not None:
            return flist(s.args[a:b])
    if s.op == 'map' and lo.op == 'rat' and hi.op == 'rat':
        k = fresh_index()
        return mkmap(rsub(hi, lo), k, seq_get(s, radd(atom(k), lo)))
    if s.op == 'slc':
        return seq_slice(s.args[0], radd(s.args[1], lo), radd(s.args[1], hi))
    if s.op == 'symseq':
        k = fresh_index()
        return mkmap(rsub(hi, lo), k, seq_get(s, radd(atom(k), lo)))
    return mk('slc', s, lo, hi)


def project(e, path):
    """component of a (frozen) element; path: tuple of ints / attribute names"""
    if e.op == 'dec':
        return lift(lambda x: project(x, path), e)
    for p in path:
        if e.op == 'dec':
            return lift(lambda x: project(x, path[path.index(p):]), e)
        if e.op == 'farr' and isinstance(p, int):
            e = e.args[1][p]
        elif e.op == 'fobj' and isinstance(p, str):
            e = dict(e.args[1]).get(p)
            if e is None:
                return unk('no attribute ' + p)
        elif e.op == 'tup' and isinstance(p, int) and p < len(e.args):
            e = e.args[p]
        else:
            return mk('app', 'proj', e, path)
    return e


# symbolic sequences: symseq(name, length, kind); element kinds:
#   'num'            scalar
#   ('arr', m)       vector of m scalars
#   ('obj', cls, attr, m)   instance with one vector attribute
#   ('tup', k1, k2..)       tuple of kinds
#   'any'            untyped
def elem_of_kind(kind, mkleaf, path=()):
    if kind == 'num':
        return mkleaf(path)
    if kind == 'any':
        return mkleaf(path)
    if kind[0] == 'arr':
        n = 1
        for d in kind[1]:
            n *= d
        return farr(kind[1], [mkleaf(path + (j,)) for j in range(n)])
    if kind[0] == 'obj':
        return fobj(kind[1], {a: elem_of_kind(k, mkleaf, path + (a,)) for a, k in kind[2]})
    if kind[0] == 'tup':
        return tup([elem_of_kind(k, mkleaf, path + (j,)) for j, k in enumerate(kind[1:])])
    raise ValueError(kind)


def _symseq_elem(s, i):
    kind = s.args[2]
    if kind == 'any':
        return mk('app', 'elt', s, i, ())
    if kind == 'str':
        return mk('app', 'str', mk('app', 'elt', s, i, ()))
    return elem_of_kind(kind, lambda p: atom(mk('app', 'elt', s, i, p)))


def kind_of(v):
    """element kind of a frozen value (None if it has no fixed shape)"""
    if v.op == 'rat':
        return 'num'
    if v.op == 'farr':
        return ('arr', v.args[0])
    if v.op == 'fobj':
        ks = []
        for a, x in v.args[1]:
            k = kind_of(x)
            if k is None:
                return None
            ks.append((a, k))
        return ('obj', v.args[0], tuple(ks))
    if v.op == 'tup':
        ks = [kind_of(x) for x in v.args]
        return None if None in ks else ('tup',) + tuple(ks)
    if v.op == 'dec':
        ks = [kind_of(x) for x in leaves(v)]
        if len(set(map(repr, ks))) == 1:
            return ks[0]
    return None


_elem_hook.append(_symseq_elem)


# ---------------------------------------------------------------- substitution
def subst(t, m):
    if not m:
        return t
    memo = {}
    keys = set(m)

    def s(t):
        if isinstance(t, tuple):
            return tuple(s(x) for x in t)
        if not isinstance(t, Term):
            return t
        if not (symbols(t) & keys):
            return t
        r = memo.get(t)
        if r is None:
            r = _s1(t)
            memo[t] = r
        return r

    def _s1(t):
        if t in m:
            return m[t]
        op = t.op
        if op == 'rat':
            r = ZERO
            for mono, c in t.args[0]:
                x = num(c)
                for a, e in mono:
                    b = s(a)
                    x = gmul(x, gpow(b, e))
                r = gadd(r, x)
            for f, e in t.args[1]:
                r = gdiv(r, gpow(s(f), e))
            return r
        if op == 'dec':
            a = t.args[0]
            br = [s(b) for b in t.args[1:]]
            if a.op == 'sgn':
                p = s(a.args[0])
                return lift_sgn(p, br)
            b = s(a)
            return ite(b, br[1], br[0])
        if op == 'app':
            args = [s(a) for a in t.args[1:]]
            if t.args[0] == 'isnone':
                return isnone(args[0])
            if t.args[0] == 'get':
                return seq_get(args[0], args[1])
            if t.args[0] == 'len':
                return seq_len(args[0])
            if t.args[0] == 'elt':
                if args[0].op == 'symseq' and args[1].op == 'rat':
                    return mk('app', 'elt', *args)
                if args[0].op == 'slotseq':
                    s0, ix, kind = args[0].args
                    if args[1] is not ix:
                        return mk('app', 'elt', *args)
                    return project(seq_get(s0, ix), args[2])
                e = seq_get(args[0], args[1])
                return project(e, args[2])
            return app(t.args[0], *args)
        if op == 'map':
            n, b, body = t.args
            k = fresh_index()
            nb = s(subst(body, {b: atom(k)}))
            return mkmap(s(n), k, nb)
        if op == 'filt':
            n, b, g, e = t.args
            k = fresh_index()
            return mkfilt(s(n), k, s(subst(g, {b: atom(k)})), s(subst(e, {b: atom(k)})))
        if op == 'sum':
            n, b, e = t.args
            k = fresh_index()
            return mksum(s(n), k, s(subst(e, {b: atom(k)})))
        if op == 'cat':
            return seq_cat(*[s(a) for a in t.args])
        if op == 'store':
            return seq_store(s(t.args[0]), s(t.args[1]), s(t.args[2]))
        if op == 'slc':
            return seq_slice(*[s(a) for a in t.args])
        if op == 'sgn':
            return mk('sgn', s(t.args[0]))
        if op == 'symseq':
            if t.args[0] in m:
                return m[t.args[0]]
            return mk('symseq', s(t.args[0]), s(t.args[1]), t.args[2])
        if op == 'any':
            n, b, e = t.args
            k = fresh_index()
            return mkany(s(n), k, s(subst(e, {b: atom(k)})))
        if op == 'first':
            n, b, e = t.args
            k = fresh_index()
            return mkfirst(s(n), k, s(subst(e, {b: atom(k)})))
        r = mk(op, *[s(a) for a in t.args])
        return r
    return s(t)


def lift_sgn(p, br):
    if p.op == 'dec':
        a = p.args[0]
        arity = 3 if a.op == 'sgn' else 2
        return mkdec(a, [lift_sgn(cofactor(p, a, i), [cofactor(b, a, i) for b in br])
                         for i in range(arity)])
    return sgn3(as_rat(p), br[0], br[1], br[2])


def gadd(a, b):
    return lift(lambda x, y: radd(as_rat(x), as_rat(y)), a, b)


def gmul(a, b):
    return lift(lambda x, y: rmul(as_rat(x), as_rat(y)), a, b)


def gdiv(a, b):
    return lift(lambda x, y: rdiv(as_rat(x), as_rat(y)), a, b)


def gpow(a, e):
    return lift(lambda x: rpow(as_rat(x), e), a)


def seq_store(s, i, v):
    if s.op == 'dec' or i.op == 'dec':
        return lift(lambda a, b: seq_store(a, b, v), s, i)
    if s.op == 'flist':
        c = int_value(i)
        if c is not None and -len(s.args) <= c < len(s.args):
            l = list(s.args)
            l[c] = v
            return flist(l)
    if s.op == 'store' and s.args[1] is i:
        return seq_store(s.args[0], i, v)
    if i.op == 'rat' and seq_get(s, i) is v:
        return s
    return mk('store', s, i, v)


def mkfilt(n, k, g, e):
    if g is TRUE:
        return mkmap(n, k, e)
    if g is FALSE:
        return flist([])
    h = 1 + max(g.hgt, e.hgt)
    b = bv(h)
    m = {k: atom(b)}
    return mk('filt', n, b, subst(g, m), subst(e, m))


def mksum(n, k, e):
    """sum over k < n of e(k)"""
    c = int_value(n) if n.op == 'rat' else None
    if e is ZERO:
        return ZERO
    if not occurs(e, k) and e.op == 'rat' and n.op == 'rat':
        return rmul(n, e)
    if c is not None and 0 <= c <= 64:
        r = ZERO
        for i in range(c):
            r = gadd(r, subst(e, {k: num(i)}))
        return r
    h = 1 + e.hgt
    b = bv(h)
    eb = subst(e, {k: atom(b)})
    if eb.op == 'rat' and not eb.args[1] and len(eb.args[0]) >= 1:
        # pull numeric content out, distribute over monomials
        r = ZERO
        for mono, cf in eb.args[0]:
            inside = tuple(x for x in mono if occurs(x[0], b))
            outside = tuple(x for x in mono if not occurs(x[0], b))
            if not inside:
                part = rmul(n, mkrat({mono: cf}, {})) if n.op == 'rat' else None
                if part is None:
                    return atom(mk('sum', n, b, eb))
            else:
                ib = mkrat({inside: Fraction(1)}, {})
                kk = fresh_index()
                ib2 = subst(ib, {b: atom(kk)})
                bb = bv(1 + ib2.hgt)
                part = rmul(mkrat({outside: cf}, {}),
                            atom(mk('sum', n, bb, subst(ib2, {kk: atom(bb)}))))
            r = radd(r, part)
        return r
    return atom(mk('sum', n, b, eb))


def mkany(n, k, g):
    """there is a k < n with g(k)"""
    if g is FALSE:
        return FALSE
    c = int_value(n) if n.op == 'rat' else None
    if c is not None and 0 <= c <= 16:
        r = FALSE
        for i in range(c):
            r = bor(r, subst(g, {k: num(i)}))
        return r
    if not occurs(g, k):
        return band(g, lt(ZERO, n)) if n.op == 'rat' else g
    b = bv(1 + g.hgt)
    return bool_atom(mk('any', n, b, subst(g, {k: atom(b)})))


def mkfirst(n, k, g):
    """smallest k < n with g(k) (n if there is none)"""
    if g is FALSE:
        return n
    if g is TRUE:
        return ZERO
    b = bv(1 + g.hgt)
    return atom(mk('first', n, b, subst(g, {k: atom(b)})))


# ---------------------------------------------------------------- printing
def show(t, budget=1500):
    return _show(t, 0, [budget])


def _show(t, d, left):
    left[0] -= 1
    if left[0] < 0:
        return '...'
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(_show(x, d + 1, left) for x in t) + ')'
        return repr(t)
    if d > 14:
        return '...'
    if t.op == 'rat':
        s = []
        for m, c in t.args[0]:
            f = [_show(a, d + 1, left) + ('' if e == 1 else '^%d' % e) for a, e in m]
            if c == 1 and f:
                s.append('*'.join(f))
            elif c == -1 and f:
                s.append('-' + '*'.join(f))
            else:
                s.append('*'.join([str(c)] + f))
        r = ' + '.join(s) if s else '0'
        if t.args[1]:
            r = '(' + r + ')/(' + ' * '.join(
                '(' + _show(f, d + 1, left) + ')' + ('' if e == 1 else '^%d' % e) for f, e in t.args[1]) + ')'
        return r
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'bv':
        return '$%d' % t.args[0]
    if t.op == 'const':
        return repr(t.args[0])
    if t.op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(_show(a, d + 1, left) for a in t.args[1:]))
    if t.op == 'sgn':
        return 'sgn[%s]' % _show(t.args[0], d + 1, left)
    if t.op == 'dec':
        a = t.args[0]
        if a.op == 'sgn':
            return '{%s <0: %s | =0: %s | >0: %s}' % ((_show(a.args[0], d + 1, left),) + tuple(
                _show(x, d + 1, left) for x in t.args[1:]))
        return '{%s ? %s : %s}' % (_show(a, d + 1, left), _show(t.args[2], d + 1, left), _show(t.args[1], d + 1, left))
    if t.op == 'map':
        return 'Map(%s<%s: %s)' % (_show(t.args[1], d, left), _show(t.args[0], d + 1, left), _show(t.args[2], d + 1, left))
    return '%s(%s)' % (t.op, ', '.join(_show(a, d + 1, left) for a in t.args))
