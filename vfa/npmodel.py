"""Models of builtins, numpy and the few library functions the tree uses."""
import ast
import itertools
from fractions import Fraction
from . import terms as T
from .terms import (mk, num, atom, unk, tup, ite, band, bor, bnot, TRUE, FALSE, NONE, ZERO, ONE,
                    as_rat, lift, int_value, const_value, Raises)

BUILTINS = {'len', 'range', 'list', 'tuple', 'zip', 'enumerate', 'reversed', 'sum', 'min', 'max',
            'abs', 'float', 'int', 'str', 'bool', 'isinstance', 'print', 'any', 'all', 'round',
            'map', 'filter', 'type', 'getattr', 'hasattr', 'setattr', 'sorted', 'set', 'dict',
            'open', 'repr', 'super', 'object', 'Exception', 'iter', 'next', 'divmod', 'pow',
            'NotImplemented', 'xrange', 'frozenset', 'format', 'id', 'callable'}

CONSTS = {'np.pi': T.PI, 'math.pi': T.PI, 'np.inf': T.num(float('inf')),
          'np.Inf': T.num(float('inf')), 'math.inf': T.num(float('inf')),
          'np.infty': T.num(float('inf')), 'np.newaxis': NONE,
          'np.nan': atom(mk('app', 'nan')), 'NotImplemented': mk('const', '<NotImplemented>')}

ALIASES = {'np.absolute': 'np.abs', 'np.fabs': 'np.abs', 'math.fabs': 'np.abs', 'abs': 'np.abs',
           'np.matmul': 'np.dot', 'np.math.sqrt': 'math.sqrt', 'math.sqrt': 'np.sqrt',
           'math.sin': 'np.sin', 'math.cos': 'np.cos', 'math.acos': 'np.arccos',
           'math.asin': 'np.arcsin', 'math.atan2': 'np.arctan2', 'math.tan': 'np.tan',
           'np.rad2deg': 'np.degrees', 'math.degrees': 'np.degrees',
           'np.deg2rad': 'np.radians', 'math.radians': 'np.radians', 'math.log': 'np.log',
           'math.exp': 'np.exp', 'math.floor': 'np.floor', 'math.ceil': 'np.ceil',
           'math.pow': 'np.power', 
           'math.atan': 'np.arctan',
           'np.fmin': 'np.minimum', 'np.fmax': 'np.maximum', 'np.float_': 'np.float64',
           'np.float': 'np.float64', 'np.row_stack': 'np.vstack', 'np.vdot': 'np.dot',
           'np.true_divide': 'np.divide', 'np.acos': 'np.arccos', 'np.amax': 'np.max',
           'np.amin': 'np.min', 'np.remainder': 'np.mod', 'math.isclose': 'math.isclose',
           'bisect.bisect_left': 'bisect_left', 'bisect.bisect_right': 'bisect_right',
           'bisect.bisect': 'bisect_right', 'np.sign': 'np.sign',
           'np.conjugate': 'np.conj', 'np.core.umath.sqrt': 'np.sqrt', 'math.hypot': 'np.hypot',
           'np.alltrue': 'np.all', 'np.sometrue': 'np.any', 'np.product': 'np.prod',
           'math.log1p': 'np.log1p', 'math.log2': 'np.log2', 'math.log10': 'np.log10', 'math.expm1': 'np.expm1',
           'math.copysign': 'np.copysign', 'math.fsum': 'sum', 'math.prod': 'np.prod',
           'builtins.print': 'print'}


def canonical(d):
    if d.startswith('numpy.'):
        d = 'np.' + d[6:]
    if d.startswith('np.math.'):
        d = 'math.' + d[8:]
    return d


# ---------------------------------------------------------------- scalars
def s_add(a, b):
    return T.gadd(a, b)


def s_sub(a, b):
    return lift(lambda x, y: T.rsub(as_rat(x), as_rat(y)), a, b)


def s_mul(a, b):
    return T.gmul(a, b)


def s_div(a, b):
    return T.gdiv(a, b)


def s_neg(a):
    return lift(lambda x: T.rneg(as_rat(x)), a)


def s_pow(a, b):
    def f(x, y):
        c = const_value(as_rat(y))
        if c is not None:
            if c.denominator == 1 and abs(c) <= 12:
                return T.rpow(as_rat(x), int(c))
            if c == Fraction(1, 2):
                return T.app('sqrt', as_rat(x))
            if c.denominator == 2 and abs(c) < 4:
                return T.rpow(as_rat(T.app('sqrt', as_rat(x))), int(2 * c))
        return atom(mk('app', 'pow', as_rat(x), as_rat(y)))
    return lift(f, a, b)


def s_mod(a, b):
    def f(x, y):
        x, y = as_rat(x), as_rat(y)
        cx, cy = const_value(x), const_value(y)
        if cx is not None and cy:
            return num(cx - cy * (cx // cy))
        return atom(mk('app', 'mod', x, y))
    return lift(f, a, b)


def s_floordiv(a, b):
    def f(x, y):
        x, y = as_rat(x), as_rat(y)
        cx, cy = const_value(x), const_value(y)
        if cx is not None and cy:
            return num(cx // cy)
        return atom(mk('app', 'floor', T.rdiv(x, y)))
    return lift(f, a, b)


def s_sqrt(a):
    return T.app('sqrt', a) if a.op == 'dec' else T.rsqrt(as_rat(a))


def s_fun(name):
    def f(*a):
        return lift(lambda *x: as_rat(T.app(name, *[as_rat(y) for y in x])), *a)
    return f


def s_min(a, b):
    return lift(lambda x, y: T.sgn3(T.rsub(as_rat(x), as_rat(y)), as_rat(x), as_rat(x), as_rat(y)), a, b)


def s_max(a, b):
    return lift(lambda x, y: T.sgn3(T.rsub(as_rat(x), as_rat(y)), as_rat(y), as_rat(x), as_rat(x)), a, b)


def s_lt(a, b):
    return lift(lambda x, y: T.lt(as_rat(x), as_rat(y)), a, b)


def s_le(a, b):
    return lift(lambda x, y: T.le(as_rat(x), as_rat(y)), a, b)


def s_eq(a, b):
    return lift(lambda x, y: T.eq(as_rat(x), as_rat(y)), a, b)


def s_isclose(a, b, rtol, atol):
    # |a - b| <= atol + rtol * |b|, as two one-sided comparisons
    def f(x, y, r, t):
        x, y, r, t = as_rat(x), as_rat(y), as_rat(r), as_rat(t)
        d = T.rsub(x, y)
        if const_value(d) is None:
            # |a-b| is written with a canonical orientation
            if T._content(dict(d.args[0]))[0] < 0:
                d = T.rneg(d)
        lim = T.radd(t, T.rmul(r, T.rabs(y)))
        return band(T.le(d, lim), T.le(T.rneg(d), lim))
    return lift(f, a, b, rtol, atol)


def truncate(v):
    def f(x):
        x = as_rat(x)
        c = const_value(x)
        if c is not None:
            return num(int(c))
        if is_int(x):
            return x
        return atom(mk('app', 'trunc', x))
    return lift(f, v)


def is_int(x):
    if x.args[1]:
        return False
    for m, c in x.args[0]:
        if c.denominator != 1:
            return False
        for t, e in m:
            if t.op == 'bv' or (t.op == 'sym' and t.args[0][:1] in ('#', '%') and
                                t.args[0][:2] != '%m'):
                continue
            if t.op == 'app' and t.args[0] in ('len', 'bisect_left', 'bisect_right', 'trunc', 'floor', 'ceil',
                                               'argmax', 'argmin'):
                continue
            if t.op == 'first':
                continue
            return False
    return True


# ---------------------------------------------------------------- array structures
# ('s', scalar) | ('a', shape, elems) | ('r', inner shape, row sequence) | None
def prod(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def A(it, st, v):
    if v.op == 'nd':
        return ('a', v.args[2], it.nd_elems(st, v))
    if v.op == 'nds':
        return ('r', v.args[2], it.nds_seq(st, v))
    if v.op == 'ref' and st.heap[v.args[0]].kind == 'list':
        return seq_to_A(it, st, st.heap[v.args[0]].data)
    if v.op == 'tup':
        return seq_to_A(it, st, T.flist(v.args))
    if v.op in ('flist', 'map', 'cat', 'symseq', 'slc', 'rep', 'filt', 'store'):
        return seq_to_A(it, st, v)
    if v.op == 'farr':
        return ('a', v.args[0], list(v.args[1]))
    if v.op == 'fsarr':
        return ('r', v.args[0], v.args[1])
    if v.op == 'it':
        return seq_to_A(it, st, it.as_seq(st, v))
    if v.op == 'rat' or v is TRUE or v is FALSE:
        return ('s', v)
    if v.op == 'dec':
        ls = T.leaves(v)
        if all(x.op == 'rat' or x in (TRUE, FALSE) or x.op in ('app', 'unk') for x in ls):
            return ('s', v)
        fz = it.freeze(st, v)
        k = T.kind_of(fz)
        if k is not None and k != 'num' and k[0] == 'arr':
            return A(it, st, it.push_in(fz, k))
        if all(x.op == 'fsarr' for x in T.leaves(fz)):
            inn = {x.args[0] for x in T.leaves(fz)}
            if len(inn) == 1:
                return ('r', inn.pop(), lift(lambda x: x.args[1], fz))
        return None
    if v.op in ('app', 'sym'):
        return ('s', atom(v))
    return None


def seq_to_A(it, st, s):
    if s.op == 'flist':
        rows = [A(it, st, x) for x in s.args]
        if not rows:
            return ('a', (0,), [])
        if any(r is None for r in rows):
            return None
        if all(r[0] == 's' for r in rows):
            return ('a', (len(rows),), [r[1] for r in rows])
        if all(r[0] == 'a' and r[1] == rows[0][1] for r in rows):
            return ('a', (len(rows),) + tuple(rows[0][1]), [e for r in rows for e in r[2]])
        return None
    if s.op == 'dec':
        parts = [seq_to_A(it, st, x) for x in T.leaves(s)]
        if any(p is None for p in parts):
            return None
        inn = {p[1] if p[0] == 'r' else p[1][1:] for p in parts if not (p[0] == 'a' and p[1] == (0,))}
        if len(inn) > 1:
            return None
        return ('r', inn.pop() if inn else (), lift(lambda x: rows_seq(seq_to_A(it, st, x)), s))
    k = T.fresh_index()
    if s.op == 'cat':
        parts = [seq_to_A(it, st, x) for x in s.args]
        if any(p is None for p in parts):
            return None
        inn = {p[1] if p[0] == 'r' else tuple(p[1][1:]) for p in parts}
        if len(inn) != 1:
            return None
        return ('r', inn.pop(), T.seq_cat(*[rows_seq(p) for p in parts]))
    if s.op == 'filt':
        n, b, g, e = s.args
        m = {b: atom(k)}
        r = A(it, st, it.freeze(st, T.subst(e, m)))
        if r is None or r[0] == 'r':
            return None
        el = r[1] if r[0] == 's' else T.farr(r[1], r[2])
        return ('r', () if r[0] == 's' else tuple(r[1]), T.mkfilt(n, k, T.subst(g, m), el))
    if s.op == 'flat':
        x = s.args[0]
        if x.op == 'map' and x.args[2].op == 'flist':
            r = seq_to_A(it, st, x.args[2])
            if r is not None and r[0] == 'a':
                return ('r', tuple(r[1][1:]), s)
        return None
    if s.op in ('map', 'symseq', 'slc', 'rep', 'store'):
        e = it.freeze(st, T.seq_get(s, atom(k)))
        r = A(it, st, e)
        if r is None or r[0] == 'r':
            return None
        el = r[1] if r[0] == 's' else T.farr(r[1], r[2])
        return ('r', () if r[0] == 's' else tuple(r[1]), T.mkmap(T.seq_len(s), k, el))
    return None


def rows_seq(a):
    """row sequence of an array structure"""
    if a[0] == 'r':
        return a[2]
    shape, el = a[1], a[2]
    inner = shape[1:]
    m = prod(inner)
    if inner == ():
        return T.flist(el)
    return T.flist([T.farr(inner, el[i * m:(i + 1) * m]) for i in range(shape[0])])


def out(it, st, a, dtype='f'):
    if a is None:
        return unk('array')
    if a[0] == 's':
        return a[1]
    if a[0] == 'a':
        if a[1] == ():
            return a[2][0]
        return it.new_arr(st, a[1], a[2], dtype)
    if a[2].op == 'flist' and len(a[2].args) > 0:
        rows = a[2].args
        if a[1] == ():
            return it.new_arr(st, (len(rows),), rows, dtype)
        if all(r.op == 'farr' for r in rows):
            return it.new_arr(st, (len(rows),) + tuple(a[1]), [x for r in rows for x in r.args[1]], dtype)
    return it.new_sarr(st, a[2], a[1])


def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    r = []
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            return None
        r.append(max(x, y) if x and y else 0)
    return tuple(r)


def bget(shape, elems, outshape):
    """elements of (shape, elems) broadcast to outshape"""
    if tuple(shape) == tuple(outshape):
        return elems
    pad = (1,) * (len(outshape) - len(shape)) + tuple(shape)
    res = []
    n = prod(outshape)
    for i in range(n):
        idx = []
        r = i
        for d in reversed(outshape):
            idx.append(r % d)
            r //= d
        idx.reverse()
        f = 0
        for d, x in zip(pad, idx):
            f = f * d + (x if d != 1 else 0)
        res.append(elems[f])
    return res


def zipmap(it, f, *As):
    """apply scalar function f with broadcasting"""
    if any(a is None for a in As):
        return None
    if all(a[0] == 's' for a in As):
        return ('s', f(*[a[1] for a in As]))
    if not any(a[0] == 'r' for a in As):
        sh = ()
        for a in As:
            if a[0] == 'a':
                sh = bshape(sh, a[1])
                if sh is None:
                    raise Raises('operands of different shapes')
        cols = [bget(a[1], a[2], sh) if a[0] == 'a' else [a[1]] * prod(sh) for a in As]
        return ('a', sh, [f(*x) for x in zip(*cols)])
    rs = [a for a in As if a[0] == 'r']
    n = T.seq_len(rs[0][2])
    if any(T.seq_len(r[2]) is not n for r in rs):
        one = [r for r in rs if T.seq_len(r[2]) is not n]
        return None
    inner = ()
    for a in As:
        if a[0] == 'r':
            inner = bshape(inner, a[1])
        elif a[0] == 'a':
            if len(a[1]) > max(len(r[1]) for r in rs):
                return None
            inner = bshape(inner, a[1])
        if inner is None:
            return None
    rank = {len(a[1]) for a in rs}
    if len(rank) > 1:
        return None
    same = len(set(r[2] for r in rs)) == 1

    def row(getters):
        cols = []
        for a, g in zip(As, getters):
            if a[0] == 's':
                cols.append([a[1]] * prod(inner))
            elif a[0] == 'a':
                cols.append(bget(a[1], a[2], inner))
            else:
                el = [g] if a[1] == () else [it.row_elem(g, i) for i in range(prod(a[1]))]
                cols.append(bget(a[1], el, inner))
        res = [f(*x) for x in zip(*cols)]
        return res[0] if inner == () else T.farr(inner, res)
    if same:
        return ('r', inner, it.seq_map(rs[0][2], lambda g: row([g] * len(As))))
    k = T.fresh_index()
    return ('r', inner, T.mkmap(n, k, row([T.seq_get(a[2], atom(k)) if a[0] == 'r' else None for a in As])))


def elementwise(it, st, f, *vals):
    r = zipmap(it, f, *[A(it, st, v) for v in vals])
    if r is None:
        return unk('elementwise')
    return out(it, st, r)


# ---------------------------------------------------------------- operators
SOPS = {ast.Add: s_add, ast.Sub: s_sub, ast.Mult: s_mul, ast.Div: s_div, ast.Pow: s_pow,
        ast.Mod: s_mod, ast.FloorDiv: s_floordiv}


def islist(st, v):
    return v.op == 'ref' and st.heap[v.args[0]].kind == 'list'


def binop(it, st, op, a, b, n):
    t = type(op)
    if a.op == 'unk' or b.op == 'unk':
        return a if a.op == 'unk' else b
    la, lb = islist(st, a), islist(st, b)
    if t is ast.Add:
        if la and lb:
            return it.new_list(st, T.seq_cat(st.heap[a.args[0]].data, st.heap[b.args[0]].data))
        if a.op == 'tup' and b.op == 'tup':
            return tup(a.args + b.args)
        if isstr(a) or isstr(b):
            return mkstr([it.freeze(st, a), it.freeze(st, b)])
    if t is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if x.op == 'tup':
                c = int_value(as_rat(y)) if y.op == 'rat' else None
                if c is not None:
                    return tup(list(x.args) * c)
            if islist(st, x) and (y.op == 'rat' or y.op == 'app'):
                d = st.heap[x.args[0]].data
                y = as_rat(y)
                c = int_value(y)
                if d.op == 'flist' and c is not None and c <= 64:
                    return it.new_list(st, T.flist(list(d.args) * max(c, 0)))
                if d.op == 'flist' and len(d.args) == 1:
                    return it.new_list(st, mk('rep', it.freeze(st, d.args[0]), y))
                if c is not None and 0 <= c <= 4 and d.op not in ('unk', 'dec'):
                    return it.new_list(st, T.seq_cat(*[d] * c) if c else T.flist([]))
                return it.new_list(st, T.unk('list repetition'))
            if x.op == 'const' and isinstance(x.args[0], str) and y.op == 'rat' and int_value(y) is not None:
                return T.const(x.args[0] * int_value(y))
            if isstr(x) and not isstr(y):
                return T.app('strrep', x, it.freeze(st, y))
    if t is ast.Mod and isstr(a):
        return strmod(it, st, a, b)
    if t in (ast.Sub, ast.Div) and isstr(a) and isstr(b):
        raise Raises('operands do not support %s' % t.__name__, ('TypeError', None))
    if t is ast.MatMult:
        return out(it, st, dot(it, A(it, st, a), A(it, st, b)))
    if t in BITS:
        r = zipmap(it, lambda x, y: bits(t, x, y), A(it, st, a), A(it, st, b))
        if r is not None and not any(x.unk for x in ([r[1]] if r[0] == 's' else r[2] if r[0] == 'a' else [r[2]])):
            return out(it, st, r)
        xs, ys = set_items(a), set_items(b)
        if xs is not None and ys is not None and t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            return mk('app', 'set', T.flist([x for x in xs if (x in ys) == (t is ast.BitAnd) or t is ast.BitOr] +
                                            [y for y in ys if y not in xs and t is not ast.BitAnd]))
    if t is ast.Sub and set_items(a) is not None and set_items(b) is not None:
        return mk('app', 'set', T.flist([x for x in set_items(a) if x not in set_items(b)]))
    f = SOPS.get(t)
    if f is None:
        return T.app(t.__name__, it.freeze(st, a), it.freeze(st, b))
    if a.op in ('app', 'sym') and b.op in ('app', 'sym', 'rat', 'const') or \
            b.op in ('app', 'sym') and a.op in ('app', 'sym', 'rat', 'const'):
        return f(as_rat(a), as_rat(b))
    if a.op == 'const' and a.args[0] is None or b.op == 'const' and b.args[0] is None:
        raise Raises('arithmetic with None', ('TypeError', None))
    r = zipmap(it, f, A(it, st, a), A(it, st, b))
    if r is None:
        return T.app('binop', t.__name__, it.freeze(st, a), it.freeze(st, b))
    return out(it, st, r)


BITS = {ast.BitAnd: lambda x, y: x & y, ast.BitOr: lambda x, y: x | y, ast.BitXor: lambda x, y: x ^ y,
        ast.LShift: lambda x, y: x << y, ast.RShift: lambda x, y: x >> y}


def isbool(x):
    return all(y in (TRUE, FALSE) for y in T.leaves(x))


def bits(t, x, y):
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor) and isbool(x) and isbool(y):
        return band(x, y) if t is ast.BitAnd else bor(x, y) if t is ast.BitOr else ite(x, bnot(y), y)
    c = [int_value(v) if v.op == 'rat' else None for v in (x, y)]
    if None in c or c[1] < 0 and t in (ast.LShift, ast.RShift):
        return unk('bits')
    return num(BITS[t](*c))


def invert(it, st, v):
    a = A(it, st, v)
    if a is not None and a[0] == 's':
        c = int_value(a[1]) if a[1].op == 'rat' else None
        if c is not None:
            return num(~c)
    elif a is not None:
        r = zipmap(it, lambda x: bnot(x) if isbool(x) else unk('bits'), a)
        if not any(x.unk for x in (r[2] if r[0] == 'a' else [r[2]])):
            return out(it, st, r)
    return T.app('invert', it.freeze(st, v))


def set_items(v):
    """elements of a set of constants, None if not known"""
    if v.op != 'app' or v.args[0] != 'set' or len(v.args) > 2:
        return None
    if len(v.args) == 1:
        return []
    s = v.args[1]
    if s.op != 'flist' or not all(fixed(x) for x in s.args):
        return None
    return list(dict.fromkeys(s.args))


def isstr(v):
    if v.op == 'const' and isinstance(v.args[0], str):
        return True
    return v.op == 'app' and v.args[0] in ('str', 'fmt')


def mkstr(parts):
    flat = []
    for p in parts:
        if p.op == 'app' and p.args[0] == 'str':
            flat += list(p.args[1:])
        else:
            flat.append(T.const(str(p is TRUE)) if p is TRUE or p is FALSE else T.const('None') if p is NONE else p)
    res = []
    for p in flat:
        if p.op == 'const' and isinstance(p.args[0], str) and res and \
                res[-1].op == 'const' and isinstance(res[-1].args[0], str):
            res[-1] = T.const(res[-1].args[0] + p.args[0])
        elif p.op == 'const' and p.args[0] == '':
            continue
        else:
            res.append(p)
    if not res:
        return T.const('')
    if len(res) == 1 and res[0].op == 'const' and isinstance(res[0].args[0], str):
        return res[0]
    return mk('app', 'str', *res)


def strmod(it, st, a, b):
    args = list(b.args) if b.op == 'tup' else [b]
    fz = [it.freeze(st, x) for x in args]
    if a.op != 'const':
        return T.app('fmt', a, *fz)
    return fmt_percent(a.args[0], fz)


def fmt_percent(s, args):
    import re
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', s):
        parts.append(T.const(s[pos:m.start()]))
        pos = m.end()
        if m.group(3) == '%':
            parts.append(T.const('%'))
            continue
        if i < len(args):
            parts.append(args[i] if m.group(3) == 's' or (m.group(3) in 'd' and not m.group(2)) else
                         mk('app', 'fmtspec', m.group(2) + m.group(3), args[i]))
        else:
            parts.append(unk('format'))
        i += 1
    parts.append(T.const(s[pos:]))
    if i != len(args):
        return mk('app', 'badfmt', T.const(s), *args)
    return mkstr(parts)


def fmt_braces(s, args, kwargs):
    import re
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(![rsa])?(:[^{}]*)?\}', s):
        parts.append(T.const(s[pos:m.start()]))
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            parts.append(T.const(m.group(0)[0]))
            continue
        key = m.group(1)
        if key == '':
            key = str(i)
            i += 1
        if key.isdigit():
            v = args[int(key)] if int(key) < len(args) else unk('format index')
        else:
            v = kwargs.get(key, unk('format key'))
        spec = (m.group(2) or '') + (m.group(3) or '')
        parts.append(v if not spec else mk('app', 'fmtspec', spec, v))
    parts.append(T.const(s[pos:]))
    return mkstr(parts)


def compare(it, st, op, a, b, n):
    t = type(op)
    if a.op == 'unk' or b.op == 'unk':
        return a if a.op == 'unk' else b
    if t in (ast.Is, ast.IsNot):
        r = identity(it, st, a, b)
        return r if t is ast.Is or r.op == 'unk' else bnot(r)
    if t in (ast.In, ast.NotIn):
        r = contains(it, st, b, a)
        return r if t is ast.In or r.op == 'unk' else bnot(r)
    if a.op == 'dec' and any(x.op != 'rat' for x in T.leaves(a)) or \
            b.op == 'dec' and any(x.op != 'rat' for x in T.leaves(b)):
        return it.lift_st(st, lambda s, x, y: compare(it, s, op, x, y, n), a, b)
    if it.is_frozen(a):
        a = it.thaw(st, a)
    if it.is_frozen(b):
        b = it.thaw(st, b)
    for x, y, nm in ((a, b, {ast.Eq: '__eq__', ast.NotEq: '__eq__', ast.Lt: '__lt__', ast.Gt: '__gt__'}.get(t)),):
        if x.op == 'ref' and st.heap[x.args[0]].kind == 'inst' and nm:
            if it.cls_find(st.heap[x.args[0]].cls, nm):
                r = it.truth(st, it.call(st, it.getattr(st, x, nm), [y], {}, n))
                return bnot(r) if t is ast.NotEq else r
    if a.op == b.op == 'tup' and t not in (ast.Eq, ast.NotEq):
        return lexical(it, st, t, list(a.args), list(b.args))
    if islist(st, a) and islist(st, b) and t not in (ast.Eq, ast.NotEq):
        xs, ys = it.items(st, a), it.items(st, b)
        return unk('comparison of lists') if xs is None or ys is None else lexical(it, st, t, xs, ys)
    num_ops = {ast.Lt: s_lt, ast.LtE: s_le, ast.Gt: lambda x, y: s_lt(y, x),
               ast.GtE: lambda x, y: s_le(y, x), ast.Eq: s_eq,
               ast.NotEq: lambda x, y: bnot(s_eq(x, y))}
    if t in (ast.Eq, ast.NotEq):
        r = equal(it, st, a, b)
        if r is not None:
            return r if t is ast.Eq else (r if r.op == 'unk' else bnot(r))
    f = num_ops[t]
    r = zipmap(it, f, A(it, st, a), A(it, st, b))
    if r is None:
        return T.bool_atom(T.app('cmp' + t.__name__, it.freeze(st, a), it.freeze(st, b)))
    return out(it, st, r)


def lexical(it, st, t, xs, ys):
    """comparison of two sequences by their first difference"""
    r = TRUE if (len(xs) < len(ys) if t in (ast.Lt, ast.LtE) else len(xs) > len(ys)) or \
        len(xs) == len(ys) and t in (ast.LtE, ast.GtE) else FALSE
    strict = ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt()
    for x, y in reversed(list(zip(xs, ys))):
        e = compare(it, st, ast.Eq(), x, y, None)
        c = compare(it, st, strict, x, y, None)
        if e.op == 'unk' or c.op == 'unk':
            return unk('comparison')
        r = ite(it.truth(st, e), r, it.truth(st, c))
    return r


def equal(it, st, a, b):
    """non-numeric equality (None: numeric)"""
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op == 'tup' and b.op == 'tup':
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            c = compare(it, st, ast.Eq(), x, y, None)
            r = c if r is TRUE else band(r, c)
        return r
    if islist(st, a) and islist(st, b):
        da, db = it.freeze(st, a), it.freeze(st, b)
        if da is db:
            return TRUE
        if da.op == 'flist' and db.op == 'flist':
            return equal(it, st, tup(da.args), tup(db.args))
        return T.bool_atom(T.app('seqeq', *sorted([da, db], key=lambda x: x.dig)))
    if a.op in ('rat', 'nd', 'nds') and b.op in ('rat', 'nd', 'nds'):
        return None
    if a.op in ('rat', 'app', 'sym') and b.op in ('rat', 'app', 'sym') and \
            ('rat' in (a.op, b.op)):
        return None
    if a.op == 'bool' or b.op == 'bool':
        return None
    if a in (TRUE, FALSE) and b.op in ('rat',) or b in (TRUE, FALSE) and a.op == 'rat':
        return None
    if a.op in ('const', 'app', 'sym', 'bi', 'cls', 'fn') or b.op in ('const', 'app', 'sym', 'bi', 'cls', 'fn'):
        if a.op == 'rat' and b.op == 'const' or a.op == 'const' and b.op == 'rat':
            return FALSE
        fa, fb = it.freeze(st, a), it.freeze(st, b)
        return T.bool_atom(mk('app', 'eq', *sorted([fa, fb], key=lambda x: x.dig)))
    return None


def identity(it, st, a, b):
    if a.op == 'dec' or b.op == 'dec':
        return lift(lambda x, y: identity(it, st, x, y), a, b)
    if a is b:
        return TRUE
    if a is NONE or b is NONE:
        x = b if a is NONE else a
        if x.op in ('app', 'sym', 'symseq'):
            if x.op == 'app' and x.args[0] in ('str', 'fmt'):
                return FALSE
            return T.bool_atom(mk('app', 'isnone', x))
        if x.op == 'unk':
            return x
        return FALSE
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        x, c = (b, a) if a in (TRUE, FALSE) else (a, b)
        if x.op == 'app':
            return T.bool_atom(x) if c is TRUE else bnot(T.bool_atom(x))
        return FALSE
    if a.op in ('app', 'sym') or b.op in ('app', 'sym'):
        return T.bool_atom(mk('app', 'is', *sorted([a, b], key=lambda x: x.dig)))
    return FALSE


def contains(it, st, c, x):
    if c.op == 'unk':
        return c
    if set_items(c) is not None:
        c = tup(set_items(c))
    if c.op == 'ref' and st.heap[c.args[0]].kind == 'dict':
        v = dict_find(it, st, c, it.freeze(st, x))
        if v is not None:
            return v if v.op == 'unk' else present(v)
    items = it.items(st, c)
    if c.op == 'const' and isinstance(c.args[0], str):
        if x.op == 'const':
            return TRUE if x.args[0] in c.args[0] else FALSE
        items = None
    if items is not None:
        r = FALSE
        for i in items:
            e = compare(it, st, ast.Eq(), x, i, None)
            if e.op == 'unk':
                return e
            r = e if r is FALSE else bor(r, it.truth(st, e))
        return r
    return T.bool_atom(T.app('in', it.freeze(st, x), it.freeze(st, c)))


# ---------------------------------------------------------------- linear algebra
def dot(it, a, b):
    if a is None or b is None:
        return None
    if a[0] == 's' or b[0] == 's':
        return zipmap(it, s_mul, a, b)
    if a[0] == 'r' and b[0] == 'a' and len(a[1]) == 1 and len(b[1]) in (1, 2) and a[1][0] == b[1][0]:
        m = a[1][0]
        if len(b[1]) == 1:
            return ('r', (), it.seq_map(a[2], lambda g: sumt([s_mul(it.row_elem(g, j), b[2][j]) for j in range(m)])))
        w = b[1][1]
        return ('r', (w,), it.seq_map(a[2], lambda g: T.farr((w,), [
            sumt([s_mul(it.row_elem(g, j), b[2][j * w + i]) for j in range(m)]) for i in range(w)])))
    if a[0] == 'a' and b[0] == 'a':
        sa, sb = a[1], b[1]
        if len(sa) == 1 and len(sb) == 1:
            if sa != sb:
                return None
            return ('s', sumt([s_mul(x, y) for x, y in zip(a[2], b[2])]))
        if len(sa) == 2 and len(sb) == 1:
            if sa[1] != sb[0]:
                return None
            return ('a', (sa[0],), [sumt([s_mul(a[2][i * sa[1] + j], b[2][j]) for j in range(sa[1])])
                                    for i in range(sa[0])])
        if len(sa) == 1 and len(sb) == 2:
            if sa[0] != sb[0]:
                return None
            return ('a', (sb[1],), [sumt([s_mul(a[2][j], b[2][j * sb[1] + i]) for j in range(sb[0])])
                                    for i in range(sb[1])])
        if len(sa) == 2 and len(sb) == 2:
            if sa[1] != sb[0]:
                return None
            return ('a', (sa[0], sb[1]),
                    [sumt([s_mul(a[2][i * sa[1] + k], b[2][k * sb[1] + j]) for k in range(sa[1])])
                     for i in range(sa[0]) for j in range(sb[1])])
        return None
    if a[0] == 'r' and b[0] == 'r' and a[1] == () and b[1] == ():
        n = T.seq_len(a[2])
        if n is not T.seq_len(b[2]):
            return None
        k = T.fresh_index()
        return ('s', T.mksum(n, k, s_mul(T.seq_get(a[2], atom(k)), T.seq_get(b[2], atom(k)))))
    return None


def sumt(ts):
    r = ZERO
    for t in ts:
        r = s_add(r, t)
    return r


def total(it, a):
    """sum of all elements"""
    if a is None:
        return None
    if a[0] == 's':
        return as_num(a[1])
    if a[0] == 'a':
        return sumt([as_num(x) for x in a[2]])
    s = a[2]

    def row(g):
        return as_num(g) if a[1] == () else sumt([it.row_elem(g, i) for i in range(prod(a[1]))])
    return seq_sum(it, s, row)


def as_num(x):
    return lift(as_rat, x)


def seq_sum(it, s, f):
    if s.op == 'dec':
        return lift(lambda x: seq_sum(it, x, f), s)
    if s.op == 'flist':
        return sumt([f(x) for x in s.args])
    if s.op == 'cat':
        return sumt([seq_sum(it, x, f) for x in s.args])
    k = T.fresh_index()
    if s.op == 'filt':
        m = {s.args[1]: atom(k)}
        return T.mksum(s.args[0], k, ite(T.subst(s.args[2], m), f(T.subst(s.args[3], m)), ZERO))
    return T.mksum(T.seq_len(s), k, f(T.seq_get(s, atom(k))))


def count(it, a):
    if a[0] == 's':
        return ONE
    if a[0] == 'a':
        return num(len(a[2]))
    return T.rmul(as_rat(T.seq_len(a[2])), num(prod(a[1])))


def axis_reduce(it, a, axis, f):
    """f: list of elements -> element, along one axis of a concrete array"""
    sh = a[1]
    if axis < 0:
        axis += len(sh)
    outer, d, inner = prod(sh[:axis]), sh[axis], prod(sh[axis + 1:])
    el = []
    for o in range(outer):
        for i in range(inner):
            el.append(f([a[2][(o * d + k) * inner + i] for k in range(d)]))
    return ('a', tuple(sh[:axis]) + tuple(sh[axis + 1:]), el)


def shape_of(it, a):
    if a is None:
        return None
    if a[0] == 's':
        return []
    if a[0] == 'a':
        return [num(d) for d in a[1]]
    return [T.seq_len(a[2])] + [num(d) for d in a[1]]


def arr_attr(it, st, v, name):
    a = A(it, st, v)
    if name == 'T':
        return transpose(it, st, v)
    if name == 'shape':
        return tup(shape_of(it, a))
    if name == 'ndim':
        return num(len(shape_of(it, a)))
    if name == 'size':
        return count(it, a)
    if name == 'dtype':
        return mk('app', 'dtype')
    if name == 'real':
        return v
    return mk('bound', mk('bi', 'ndarray.' + name), v)


def transpose(it, st, v):
    if v.op == 'nd':
        loc, row, shape, flat = v.args
        if len(shape) < 2:
            return v
        if len(shape) == 2:
            f = [flat[i * shape[1] + j] for j in range(shape[1]) for i in range(shape[0])]
            return mk('nd', loc, row, (shape[1], shape[0]), tuple(f))
    if v.op == 'nds' and v.args[2] == ():
        return v
    if v.op == 'app' and v.args[0] == 'np.transpose' and v.args[1].op == 'fsarr':
        return it.thaw(st, v.args[1])
    return mk('app', 'np.transpose', it.freeze(st, v))


def columns(it, st, v):
    """columns of the array of which this is the transpose"""
    x = it.thaw(st, v.args[1])
    if x.op != 'nds' or len(x.args[2]) != 1:
        return None
    return [arr_get(it, st, x, tup([mk('slice', NONE, NONE, NONE), num(i)]), None) for i in range(x.args[2][0])]


def side_by_side(it, st, rs):
    """array whose rows are these one-dimensional arrays of unknown length"""
    n = T.seq_len(rs[0][2])
    if n.op != 'rat' or any(T.seq_len(r[2]) is not n for r in rs):
        return unk('rows of an array')
    k = T.fresh_index()
    return mk('app', 'np.transpose', T.mk('fsarr', (len(rs),), T.mkmap(n, k, T.farr(
        (len(rs),), [T.seq_get(r[2], atom(k)) for r in rs]))))


# ---------------------------------------------------------------- subscripts
def norm_index(i, n):
    """index term with negative constants resolved against length n"""
    def f(x):
        x = as_rat(x)
        c = const_value(x)
        if c is not None and c < 0:
            return T.radd(as_rat(n), x) if n.op == 'rat' else lift(lambda m: T.radd(as_rat(m), x), n)
        # -1 written as len - n ... stays symbolic
        return x
    return lift(f, i)


def subscript(it, st, v, idx, node):
    if v.op == 'unk':
        return v
    if v.op == 'dec':
        return it.lift_st(st, lambda s, x: subscript(it, s, x, idx, node), v)
    if idx.op == 'dec':
        return it.lift_st(st, lambda s, x: subscript(it, s, v, x, node), idx)
    if v.op == 'tup':
        return tup_get(it, st, v, idx)
    if v.op == 'ref':
        o = st.heap[v.args[0]]
        if o.kind == 'list':
            return list_get(it, st, v, idx, node)
        if o.kind == 'dict':
            return dict_get(it, st, v, idx)
        if o.kind == 'inst':
            return it.call(st, it.getattr(st, v, '__getitem__', node), [idx], {}, node)
    if v.op in ('nd', 'nds'):
        return arr_get(it, st, v, idx, node)
    if it.is_frozen(v):
        return subscript(it, st, it.thaw(st, v), idx, node)
    if v.op == 'app' and v.args[0] == 'np.transpose' and v.args[1].op == 'fsarr':
        ix = list(idx.args) if idx.op == 'tup' else [idx]
        if len(v.args[1].args[0]) == 1 and len(ix) <= 2 and all(x.op in ('rat', 'slice') for x in ix):
            ix = ix + [mk('slice', NONE, NONE, NONE)] * (2 - len(ix))
            r = arr_get(it, st, it.thaw(st, v.args[1]), tup(ix[::-1]), node)
            return transpose(it, st, r) if all(x.op == 'slice' for x in ix) else r
        return unk('part of a transposed array')
    if v.op == 'it':
        n, get = it.iters[v.args[0]]
        if idx.op != 'slice':
            return get(st, norm_index(idx, n))
        return subscript(it, st, it.new_list(st, it.as_seq(st, v)), idx, node)
    if v.op == 'const' and isinstance(v.args[0], str):
        c = int_value(idx) if idx.op == 'rat' else None
        if c is not None:
            try:
                return T.const(v.args[0][c])
            except IndexError:
                raise Raises('index out of range', ('IndexError', None))
        if idx.op == 'slice':
            ix = [None if a is NONE else int_value(a) if a.op == 'rat' else '' for a in idx.args]
            if not any(i == '' or i is None and a is not NONE for i, a in zip(ix, idx.args)):
                return T.const(v.args[0][slice(*ix)])
        if idx.op == 'const' and isinstance(idx.args[0], str):
            raise Raises('text indexed by a text', ('TypeError', None))
    if v is NONE or v in (TRUE, FALSE) or v.op == 'rat' and int_value(v) is not None:
        raise Raises('%s has no entries' % (v.args[0] if v is NONE else 'a number'), ('TypeError', None))
    fi = it.freeze(st, idx)
    if fi.unk:
        return unk('index')
    return T.app('index', v, fi)


def tup_get(it, st, v, idx):
    if idx.op == 'slice':
        lo, hi, step = [None if x is NONE else int_value(x) for x in idx.args]
        if any(x is not NONE and int_value(x) is None for x in idx.args):
            return unk('tuple slice')
        return tup(v.args[lo:hi:step])
    c = int_value(idx) if idx.op == 'rat' or idx in (TRUE, FALSE) else None
    if c is None:
        if idx.op == 'rat':
            return T.seq_get(T.flist(v.args), idx)
        return T.app('index', it.freeze(st, v), idx)
    if not -len(v.args) <= c < len(v.args):
        raise Raises('tuple index out of range')
    return v.args[c]


def list_get(it, st, v, idx, node):
    from .interp import Raises, Obj
    loc = v.args[0]
    s = st.heap[loc].data
    if s.op == 'unk':
        return s
    if idx.op == 'slice':
        return it.new_list(st, slice_seq(it, s, idx))
    if idx.op in ('app', 'sym'):
        idx = atom(idx)
    if idx in (TRUE, FALSE):
        idx = as_rat(idx)
    if idx.op != 'rat':
        return unk('list index')
    n = T.seq_len(s)
    i = norm_index(idx, n)
    c = int_value(i) if i.op == 'rat' else None
    if s.op == 'flist':
        if c is not None and not 0 <= c < len(s.args):
            raise Raises('list index out of range')
        if c is None and i.op == 'rat' and len(s.args) <= 16 and len(s.args) > 0:
            # symbolic index into a fixed list: keep as an opaque selection
            return T.seq_get(it.freeze(st, s), i)
    if i.op == 'dec':
        return it.lift_st(st, lambda t, x: list_get(it, t, v, x, node), i)
    it.range_check(st, i, n, node)
    if s.op == 'dec':
        e0 = T.seq_get(s, i)
        if not any(it.is_frozen(x) or x.op == 'ref' for x in T.leaves(e0)):
            return e0
    e = T.seq_get(s, i)
    if e.op == 'app' and e.args[0] == 'get' and s.op == 'cat':
        # elements of one kind: a selection by component
        e = T.seq_get(it.freeze(st, s), i)
    if e.op in ('ref', 'nd', 'nds'):
        return e
    if e.op == 'dec' and all(x.op in ('ref', 'nd', 'nds') for x in T.leaves(e)):
        return e
    if e.op == 'dec' and any(x.op in ('ref', 'nd', 'nds') for x in T.leaves(e)):
        e = it.freeze(st, e)
    if it.is_frozen(e) or (e.op == 'dec' and any(it.is_frozen(x) for x in T.leaves(e))):
        key = ('elem', loc, i)
        box = st.heap.get(key)
        if box is not None and box.data.op in ('ref', 'nd'):
            l = box.data.args[0]
            if l in st.heap and it.freeze(st, box.data) is it.freeze(st, e):
                return box.data
        r = it.thaw(st, e, origin=('list', loc, i))
        if r.op in ('ref', 'nd'):
            st.heap[key] = Obj('box', r)
        return r
    return e


def clamp(i, n):
    """bound of a slice that may lie beyond the end of a sequence of unknown length"""
    if i is n or i.op != 'rat' or n.op != 'rat' or const_value(n) is not None:
        return i
    c = const_value(i)
    return i if c is None or c <= 3 else s_min(i, n)


def slice_bounds(n, idx):
    lo, hi, step = idx.args
    lo = ZERO if lo is NONE else norm_index(lo, n)
    hi = n if hi is NONE else norm_index(hi, n)
    # clamp constants against constant lengths
    cn = int_value(n) if n.op == 'rat' else None
    lo, hi = clamp(lo, n), clamp(hi, n)
    if lo.op == hi.op == 'rat':
        c = const_value(T.rsub(hi, lo))
        if c is not None and c < 0:
            hi = lo
    if cn is not None:
        cl, ch = int_value(lo), int_value(hi)
        if cl is not None:
            lo = num(min(max(cl, 0), cn))
        if ch is not None:
            hi = num(min(max(ch, 0), cn))
    return lo, hi, step


def slice_seq(it, s, idx):
    n = T.seq_len(s)
    lo, hi, step = slice_bounds(n, idx)
    if step is not NONE and int_value(step) != 1:
        if s.op == 'flist' and int_value(step) is not None:
            b = [None if x is NONE else int_value(x) for x in idx.args]
            if all(x is NONE or int_value(x) is not None for x in idx.args):
                return T.flist(s.args[b[0]:b[1]:b[2]])
        if int_value(step) == -1 and idx.args[0] is NONE and idx.args[1] is NONE:
            k = T.fresh_index()
            return T.mkmap(n, k, T.seq_get(s, T.rsub(T.rsub(as_rat(n), ONE), atom(k))))
        c = int_value(step) if step.op == 'rat' else None
        if c and lo.op == hi.op == 'rat':
            k = T.fresh_index()
            if c < 0:
                # from the last one backwards
                lo = T.rsub(as_rat(n), ONE) if idx.args[0] is NONE else lo
                hi = num(-1) if idx.args[1] is NONE else hi
            m = s_floordiv(T.radd(T.rsub(hi, lo), num(c - (1 if c > 0 else -1))), num(c))
            return T.mkmap(m, k, T.seq_get(s, T.radd(lo, T.rmul(num(c), atom(k)))))
        return mk('symseq', mk('app', 'stride', s, lo, hi, step), atom(mk('app', 'len', mk('app', 'stride', s, lo, hi, step))), 'any')
    if lo.op == 'dec' or hi.op == 'dec':
        return lift(lambda a, b: T.seq_slice(s, a, b), lo, hi)
    return T.seq_slice(s, lo, hi)


UNKEY = T.const('<unknown>')


def maybe_undef(v, seen=None):
    from .interp import UNDEF
    if v is UNDEF:
        return True
    if v.op == 'dec':
        seen = set() if seen is None else seen
        if v in seen:
            return False
        seen.add(v)
        return any(maybe_undef(x, seen) for x in v.args if isinstance(x, T.Term))
    return False


def dict_keys(o):
    """keys of a dictionary, None if not known"""
    if any(k is UNKEY or maybe_undef(v) for k, v in o.data):
        return None
    return [k for k, _ in o.data]


def dict_default(it, st, v, f):
    """value of a missing key (defaultdict), else None"""
    o = st.heap[v.args[0]]
    if o.cls is None or dict_keys(o) is None:
        return None
    x = it.call(st, o.cls[1], [], {}, None)
    o = st.heap[v.args[0]]
    it.write(st, v.args[0], o.w(o.data + ((f, x),)))
    it.link(st, x, v.args[0])
    return x


def fixed(k):
    """key that differs from every other one of this kind"""
    return k.op == 'const' and k is not UNKEY or k.op == 'rat' and T.const_value(k) is not None or \
        k.op == 'tup' and all(fixed(x) for x in k.args)


def present(v):
    """condition for an entry to be there"""
    from .interp import UNDEF
    return lift(lambda x: FALSE if x is UNDEF else TRUE, v)


def or_else(v, x):
    """entry, or the other value where it is missing"""
    from .interp import UNDEF
    return lift(lambda y: x if y is UNDEF else y, v)


def dict_find(it, st, v, f):
    """entry of a dictionary (UNDEF where missing), None if not known"""
    from .interp import UNDEF
    d = st.heap[v.args[0]].data
    for k, x in reversed(d):
        if k is f:
            return x
        if k is UNKEY:
            return unk('dict entry')
    if fixed(f) and all(fixed(k) for k, _ in d):
        return UNDEF
    return None


def dict_get(it, st, v, idx):
    from .interp import UNDEF
    f = it.freeze(st, idx)
    x = dict_find(it, st, v, f)
    if x is UNDEF:
        x = dict_default(it, st, v, f)
        if x is not None:
            return x
        raise Raises('missing key %s' % T.show(f)[:80], ('KeyError', None))
    if x is None:
        d = st.heap[v.args[0]].data
        if f.op == 'rat' and all(k.op == 'const' for k, _ in d) and not any(k in (TRUE, FALSE) for k, _ in d):
            raise Raises('missing key: a number', ('KeyError', None))
        return T.app('index', it.freeze(st, v), f)
    if maybe_undef(x):
        o = st.heap[v.args[0]]
        if o.cls is not None:
            y = or_else(x, it.call(st, o.cls[1], [], {}, None))
            o = st.heap[v.args[0]]
            it.write(st, v.args[0], o.w(tuple((k, y if k is f else z) for k, z in o.data)))
            it.link(st, y, v.args[0])
            return y
        c = band(it.cur_pc(st), bnot(present(x)))
        if c is not FALSE and not c.unk:
            from .interp import Raised
            it.raises.append(Raised((c, None, it.fname(), 'missing key'), ('KeyError', None)))
    return x


def arr_get(it, st, v, idx, node):
    ix = list(idx.args) if idx.op == 'tup' else [idx]
    ix = [x for x in ix]
    if any(x.op == 'const' and x.args[0] == '...' for x in ix):
        e = [i for i, x in enumerate(ix) if x.op == 'const' and x.args[0] == '...'][0]
        rank = len(v.args[2]) + (1 if v.op == 'nds' else 0)
        ix[e:e + 1] = [mk('slice', NONE, NONE, NONE)] * (rank - len(ix) + 1)
    for j, x in enumerate(ix):
        if x.op == 'dec':
            return it.lift_st(st, lambda s, y: arr_get(
                it, s, v, tup(ix[:j] + [y] + ix[j + 1:]), node), x)
        if x.op in ('app', 'sym'):
            ix[j] = atom(x)
    lists = [j for j, x in enumerate(ix) if x.op in ('ref', 'nd', 'flist')]
    if len(ix) > 1 and len(lists) == 1 and lists[0] > 0:
        j = lists[0]
        items = it.items(st, ix[j])
        if items is not None and all(x.op == 'rat' and int_value(x) is not None for x in items) and \
                all(x.op in ('slice', 'rat') for i, x in enumerate(ix) if i != j):
            ix[j] = mk('pick', *items)
    if v.op == 'nd':
        return nd_get(it, st, v, ix, node)
    # symbolic outer axis
    loc, rng, inner, flat = v.args
    s = it.nds_seq(st, v)
    n = T.seq_len(s)
    x = ix[0] if ix else mk('slice', NONE, NONE, NONE)
    rest = ix[1:]
    off = rng[0] if rng is not None else ZERO
    if x.op == 'slice':
        lo, hi, step = slice_bounds(n, x)
        if step is not NONE and int_value(step) != 1:
            r = slice_seq(it, s, x)
            if r.op == 'symseq' or r.unk:
                return unk('array slice')
            r = it.new_sarr(st, r, inner)
            return arr_get(it, st, r, tup([mk('slice', NONE, NONE, NONE)] + rest), node) if rest else r
        sub = inner_index(inner, flat, [y for y in rest if y is not NONE])
        if sub is None:
            return T.app('index', it.freeze(st, v), it.freeze(st, tup(ix)))

        def part(lo, hi):
            if lo.op != 'rat' or hi.op != 'rat':
                return unk('array slice')
            nr = rng if lo is ZERO and hi is n else (T.radd(off, lo), T.radd(off, hi))
            return mk('nds', loc, nr, new_axes(sub[0], rest), sub[1])
        return lift(part, lo, hi)
    if x.op == 'rat':
        i = norm_index(x, n)
        if i.op == 'dec':
            return it.lift_st(st, lambda s2, y: arr_get(it, s2, v, tup([y] + rest), node), i)
        it.range_check(st, i, n, node)
        i = T.radd(off, i)
        sub = inner_index(inner, flat, rest)
        if sub is None:
            return T.app('index', it.freeze(st, v), it.freeze(st, tup(ix)))
        sh, fl = sub
        r = mk('nd', loc, i, sh, fl)
        if sh == ():
            return it.nd_elems(st, r)[0]
        return r
    if x is NONE:
        return unk('newaxis')
    # boolean / fancy index
    r = choose(it, st, s, n, x)
    if r is None:
        return T.app('index', it.freeze(st, v), it.freeze(st, tup(ix)))
    r = it.new_sarr(st, r, v.args[2])
    return arr_get(it, st, r, tup([mk('slice', NONE, NONE, NONE)] + rest), node) if rest else r


def new_axes(sh, ix):
    """shape of a view with the new axes of an index"""
    sh = list(sh)
    pos = 0
    for x in ix:
        if x is NONE:
            sh.insert(pos, 1)
            pos += 1
        elif x.op == 'slice':
            pos += 1
    return tuple(sh)


def choose(it, st, s, n, x):
    """rows of a sequence at a mask or at a list of positions, None if not known"""
    if x.op == 'nd' and len(x.args[2]) != 1 or x.op == 'nds' and x.args[2]:
        return None
    m = it.as_seq(st, x)
    if m.op == 'unk' or m.op == 'dec' or n.op != 'rat':
        return None
    if m.op == 'flist':
        if any(y.op != 'rat' for y in m.args):
            return None
        return T.flist([T.seq_get(s, norm_index(y, n)) for y in m.args])
    k = T.fresh_index()
    e = T.seq_get(m, atom(k))
    ls = T.leaves(e)
    if all(y in (TRUE, FALSE) for y in ls):
        return T.mkfilt(n, k, e, T.seq_get(s, atom(k)))
    if all(y.op == 'rat' for y in ls):
        l = T.seq_len(m)
        return T.mkmap(l, k, lift(lambda i: T.seq_get(s, norm_index(i, n)), e)) if l.op == 'rat' else None
    return None


def inner_index(shape, flat, ix):
    """basic indexing of a concrete (shape, flat) view"""
    out_shape = []
    sel = []
    for d, x in zip(shape, list(ix) + [mk('slice', NONE, NONE, NONE)] * (len(shape) - len(ix))):
        if x.op == 'slice':
            b = []
            for y in x.args:
                if y is NONE:
                    b.append(None)
                else:
                    c = int_value(y)
                    if c is None:
                        return None
                    b.append(c)
            r = list(range(d))[slice(*b)]
            out_shape.append(len(r))
            sel.append(r)
        elif x.op == 'rat' and int_value(x) is not None:
            c = int_value(x)
            if not -d <= c < d:
                raise Raises('array index out of range')
            sel.append([c % d])
        elif x.op == 'pick':
            cs = [int_value(y) for y in x.args]
            if any(not -d <= c < d for c in cs):
                raise Raises('array index out of range')
            out_shape.append(len(cs))
            sel.append([c % d for c in cs])
        else:
            return None
    if len(ix) > len(shape):
        raise Raises('too many indices')
    res = []

    def go(k, base):
        if k == len(sel):
            res.append(flat[base])
            return
        for i in sel[k]:
            go(k + 1, base * shape[k] + i)
    go(0, 0)
    return tuple(out_shape), tuple(res)


def nd_get(it, st, v, ix, node):
    loc, row, shape, flat = v.args
    # fancy index: list of constants along the first axis
    if len(ix) == 1 and ix[0].op in ('ref', 'tup', 'nd') and ix[0].op != 'slice':
        items = it.items(st, ix[0])
        if items is not None and all(x.op == 'rat' and int_value(x) is not None for x in items):
            m = prod(shape[1:])
            el = it.nd_elems(st, v)
            r = []
            for x in items:
                c = int_value(x) % shape[0]
                r += el[c * m:(c + 1) * m]
            return it.new_arr(st, (len(items),) + tuple(shape[1:]), r)
        return T.app('index', it.freeze(st, v), it.freeze(st, ix[0]))
    if any(x is NONE for x in ix):
        sh = []
        rest = []
        base = [x for x in ix if x is not NONE]
        sub = inner_index(shape, flat, base)
        if sub is None:
            return unk('newaxis')
        return mk('nd', loc, row, new_axes(sub[0], ix), sub[1])
    sub = inner_index(shape, flat, ix)
    if sub is None:
        # symbolic index into a concrete array: opaque selection
        if len(ix) == 1 and ix[0].op == 'rat' and len(shape) == 1:
            return T.seq_get(T.flist(it.nd_elems(st, v)), norm_index(ix[0], num(shape[0])))
        if ix[0].op == 'rat' and len(ix) == 1 and len(shape) == 2:
            el = it.nd_elems(st, v)
            m = shape[1]
            return it.thaw(st, T.seq_get(T.flist([T.farr((m,), el[i * m:(i + 1) * m])
                                                  for i in range(shape[0])]), ix[0]))
        fi = it.freeze(st, tup(ix))
        return T.app('index', it.freeze(st, v), fi)
    sh, fl = sub
    if sh == ():
        return it.nd_elems(st, mk('nd', loc, row, (), fl))[0]
    return mk('nd', loc, row, sh, fl)


# ---------------------------------------------------------------- stores
def store(it, st, v, idx, val, node, guard=TRUE):
    if v.op == 'unk':
        return
    if v.op == 'dec':
        for p, leaf in T.paths(v):
            g = guard
            for a, i in p:
                g = band(g, it.branch_cond(a, i))
            store(it, st, leaf, idx, val, node, g)
        return
    if idx.op == 'dec' and idx.op != 'tup':
        for p, leaf in T.paths(idx):
            g = guard
            for a, i in p:
                g = band(g, it.branch_cond(a, i))
            store(it, st, v, leaf, val, node, g)
        return
    if v.op == 'ref':
        o = st.heap[v.args[0]]
        if o.kind == 'list':
            if idx.op == 'slice':
                lo, hi, step = slice_bounds(T.seq_len(o.data), idx)
                s = T.seq_cat(T.seq_slice(o.data, ZERO, lo), it.as_seq(st, val),
                              T.seq_slice(o.data, hi, T.seq_len(o.data)))
                it.write(st, v.args[0], o.w(s if guard is TRUE else ite(guard, s, o.data)))
                return
            n = T.seq_len(o.data)
            i = norm_index(as_rat(idx) if idx.op in ('app', 'sym') else idx, n)
            c = int_value(i) if i.op == 'rat' else None
            if o.data.op == 'flist' and c is not None:
                if not 0 <= c < len(o.data.args):
                    raise Raises('assignment index out of range')
                x = val
            else:
                x = it.freeze(st, val)
            s = T.seq_store(o.data, i, x)
            it.write(st, v.args[0], o.w(s if guard is TRUE else ite(guard, s, o.data)))
            return
        if o.kind == 'dict':
            f = it.freeze(st, idx)
            d = dict(o.data)
            if guard is not TRUE:
                from .interp import UNDEF
                val = ite(guard, val, d.get(f, UNDEF))
            if f not in d and not (fixed(f) and all(fixed(k) for k in d)):
                d = {k: unk('dict updated at unknown key') for k in d} if not all(
                    k.op == f.op for k in d) else d
            d[f] = val
            it.write(st, v.args[0], o.w(tuple(d.items())))
            return
        if o.kind == 'inst':
            it.call(st, it.getattr(st, v, '__setitem__', node), [idx, val], {}, node)
            return
    if v.op in ('nd', 'nds'):
        tgt = arr_view(it, st, v, idx, node)
        if tgt is None and masked(it, st, v, idx, val, guard):
            return
        if tgt is None:
            o = st.heap[v.args[0]]
            it.note('array store at unknown index', node)
            if o.kind == 'arr':
                it.write(st, v.args[0], o.w(tuple(unk('store') for _ in o.data)))
            else:
                it.write(st, v.args[0], o.w(unk('store')))
            return
        arr_assign(it, st, tgt, val, guard)
        return
    it.effects.append((it.cur_pc(st), 'store', (it.freeze(st, v), it.freeze(st, idx),
                                                it.freeze(st, val)), node, it.fname()))


def masked(it, st, v, idx, val, guard):
    """assignment of one value to the elements chosen by a mask"""
    if v.op != 'nds' or v.args[2] != () or v.args[1] is not None or guard is not TRUE or st.heap[v.args[0]].shape != ():
        return False
    m, a, s = A(it, st, idx), A(it, st, val), st.heap[v.args[0]].data
    n = T.seq_len(s)
    if m is None or m[0] != 'r' or m[1] != () or a is None or a[0] != 's' or n.op != 'rat' or T.seq_len(m[2]) is not n:
        return False
    k = T.fresh_index()
    c = T.seq_get(m[2], atom(k))
    if not isbool(c):
        return False
    o = st.heap[v.args[0]]
    it.write(st, v.args[0], o.w(T.mkmap(n, k, ite(c, as_num(a[1]), T.seq_get(s, atom(k))))))
    return True


def arr_view(it, st, v, idx, node):
    """like arr_get but always returns a view (also for single elements)"""
    ix = list(idx.args) if idx.op == 'tup' else [idx]
    ix = [atom(x) if x.op in ('app', 'sym') else x for x in ix]
    if any(x.op == 'const' and x.args[0] == '...' for x in ix):
        e = [i for i, x in enumerate(ix) if x.op == 'const' and x.args[0] == '...'][0]
        rank = len(v.args[2]) + (1 if v.op == 'nds' else 0)
        ix[e:e + 1] = [mk('slice', NONE, NONE, NONE)] * (rank - len(ix) + 1)
    if v.op == 'nd':
        loc, row, shape, flat = v.args
        if any(x.op == 'dec' for x in ix):
            return None
        sub = inner_index(shape, flat, ix)
        if sub is None:
            return None
        return mk('nd', loc, row, sub[0], sub[1])
    loc, rng, inner, flat = v.args
    n = T.seq_len(it.nds_seq(st, v))
    off = rng[0] if rng is not None else ZERO
    x = ix[0]
    sub = inner_index(inner, flat, ix[1:])
    if sub is None:
        return None
    if x.op == 'slice':
        lo, hi, step = slice_bounds(n, x)
        if step is not NONE or lo.op != 'rat' or hi.op != 'rat':
            return None
        nr = rng if lo is ZERO and hi is n else (T.radd(off, lo), T.radd(off, hi))
        return mk('nds', loc, nr, sub[0], sub[1])
    if x.op == 'rat':
        i = norm_index(x, n)
        if i.op != 'rat':
            return None
        return mk('nd', loc, T.radd(off, i), sub[0], sub[1])
    return None


def arr_assign(it, st, tgt, val, guard=TRUE):
    """write val (broadcast) into the view tgt"""
    a = A(it, st, val)
    if tgt.op == 'nd':
        shape = tgt.args[2]
        n = prod(shape)
        if a is None:
            vals = [unk('assigned value')] * n
        elif a[0] == 's':
            vals = [as_num(a[1])] * n if a[1].op != 'unk' else [a[1]] * n
        elif a[0] == 'a':
            if bshape(a[1], shape) == tuple(shape) or prod(a[1]) == n and len(a[1]) <= 1:
                vals = bget(a[1], a[2], shape) if bshape(a[1], shape) == tuple(shape) else a[2]
            elif prod(a[1]) == n:
                sq = tuple(d for d in a[1] if d != 1)
                if sq == tuple(d for d in shape if d != 1):
                    vals = a[2]
                else:
                    raise Raises('shape mismatch in array assignment')
            else:
                raise Raises('shape mismatch in array assignment')
        else:
            vals = [unk('assigned rows')] * n
        it.nd_write(st, tgt, vals, guard)
        return
    loc, rng, inner, flat = tgt.args
    o = st.heap[loc]
    n = T.seq_len(o.data)
    width = prod(o.shape)
    full = flat == tuple(range(width)) and inner == o.shape
    cnt = T.rsub(rng[1], rng[0]) if rng is not None else n
    lo = rng[0] if rng is not None else ZERO
    c = int_value(cnt)
    if c is not None and c <= 64 and a is not None and a[0] in ('a', 's') and guard is TRUE:
        # fixed number of rows at a symbolic position
        rows = []
        sh = (c,) + tuple(inner)
        el = [a[1]] * prod(sh) if a[0] == 's' else (
            bget(a[1], a[2], sh) if bshape(a[1], sh) == sh else None)
        if el is None:
            raise Raises('shape mismatch in array assignment')
        m = prod(inner)
        for i in range(c):
            part = el[i * m:(i + 1) * m]
            if full:
                rows.append(T.farr(inner, part) if inner != () else part[0])
            else:
                old = T.seq_get(o.data, T.radd(lo, num(i)))
                d = [it.row_elem(old, j) for j in range(width)]
                for j, x in zip(flat, part):
                    d[j] = x
                rows.append(T.farr(o.shape, d))
        it.write(st, loc, o.w(mk('blkstore', o.data, lo, T.flist(rows))))
        return

    def newrow(old, k):
        if a is None:
            part = [unk('assigned value')] * prod(inner)
        elif a[0] == 's':
            part = [as_num(a[1])] * prod(inner)
        elif a[0] == 'a':
            if len(a[1]) <= len(inner) and bshape(a[1], inner) == tuple(inner):
                part = bget(a[1], a[2], inner)
            else:
                part = [unk('assigned value')] * prod(inner)
        else:
            if T.seq_len(a[2]) is not cnt:
                part = [unk('row count')] * prod(inner)
            else:
                g = T.seq_get(a[2], k)
                el = [g] if a[1] == () else [it.row_elem(g, i) for i in range(prod(a[1]))]
                sh = bshape(a[1], inner)
                part = bget(a[1], el, inner) if sh == tuple(inner) else [unk('row shape')] * prod(inner)
        if o.shape == ():
            nw = part[0]
            return ite(guard, nw, old)
        d = [it.row_elem(old, j) for j in range(width)]
        for j, x in zip(flat, part):
            d[j] = ite(guard, x, d[j])
        return T.farr(o.shape, d)
    k = T.fresh_index()
    kk = atom(k)
    if rng is None:
        s = T.mkmap(n, k, newrow(T.seq_get(o.data, kk), kk))
    else:
        mid = T.mkmap(cnt, k, newrow(T.seq_get(o.data, T.radd(kk, lo)), kk))
        s = T.seq_cat(T.seq_slice(o.data, ZERO, lo), mid, T.seq_slice(o.data, rng[1], n))
    it.write(st, loc, o.w(s))


# ---------------------------------------------------------------- lists
def list_append(it, st, l, v):
    o = st.heap[l.args[0]]
    it.write(st, l.args[0], o.w(app_elem(it, o.data, v)))


def app_elem(it, s, v):
    if s.op == 'dec':
        return lift(lambda x: T.seq_cat(x, T.flist([v])), s)
    if s.op == 'unk':
        return s
    return T.seq_cat(s, T.flist([v]))


def list_extend(it, st, l, v):
    o = st.heap[l.args[0]]
    s = it.as_seq(st, v)
    it.write(st, l.args[0], o.w(lift(lambda a, b: T.seq_cat(a, b) if a.op != 'unk' and b.op != 'unk' else unk('extend'), o.data, s)))


def list_pop(it, st, l, idx, dflt=None):
    if l.op != 'ref':
        return
    o = st.heap[l.args[0]]
    if o.kind == 'dict':
        f = it.freeze(st, idx)
        v = dict_find(it, st, l, f)
        if v is None or v.unk:
            it.write(st, l.args[0], o.w(((UNKEY, unk('dict pop')),)))
            return unk('dict pop')
        it.write(st, l.args[0], o.w(tuple((k, x) for k, x in o.data if k is not f)))
        if dflt is not None:
            return or_else(v, dflt)
        c = bnot(present(v))
        if c is TRUE:
            raise Raises('missing key', ('KeyError', None))
        c = band(it.cur_pc(st), c)
        if c is not FALSE and not c.unk:
            from .interp import Raised
            it.raises.append(Raised((c, None, it.fname(), 'missing key'), ('KeyError', None)))
        return v
    s = o.data
    if idx is None:
        idx = num(-1)
    if idx.op == 'slice':
        n = T.seq_len(s)
        lo, hi, step = slice_bounds(n, idx)
        it.write(st, l.args[0], o.w(T.seq_cat(T.seq_slice(s, ZERO, lo), T.seq_slice(s, hi, n))))
        return NONE
    n = T.seq_len(s)
    i = norm_index(as_rat(idx) if idx.op in ('app', 'sym') else idx, n)
    if s.op == 'flist':
        c = int_value(i)
        if c is not None:
            if not 0 <= c < len(s.args):
                raise Raises('pop index out of range')
            it.write(st, l.args[0], o.w(T.flist(s.args[:c] + s.args[c + 1:])))
            return s.args[c]
    e = list_get(it, st, l, idx, None)
    it.write(st, l.args[0], o.w(lift(without, s, i)))
    return e


def without(s, i):
    c = int_value(i)
    if s.op == 'flist' and c is not None and 0 <= c < len(s.args):
        return T.flist(s.args[:c] + s.args[c + 1:])
    return mk('del', s, i)


# ---------------------------------------------------------------- calls
PURE = {'timeit.default_timer', 'time.time'}


def kwget(kw, name, args, pos, default):
    if name in kw:
        return kw[name]
    if pos is not None and pos < len(args):
        return args[pos]
    return default


def call(it, st, name, args, kw, node):
    name = ALIASES.get(name, name)
    # gated arguments of model functions
    for i, a in enumerate(args):
        if a.op == 'unk' and not name.startswith('list.') and name not in ('print', 'isinstance'):
            return a
    if name.startswith(('np.', 'ndarray.')) and kw.get('out', NONE).op in ('nd', 'nds'):
        # the result is written into an existing array
        r = call(it, st, name, args, {k: v for k, v in kw.items() if k != 'out'}, node)
        store(it, st, kw['out'], mk('slice', NONE, NONE, NONE), r, node)
        return kw['out']
    f = MODELS.get(name)
    if f is not None:
        r = f(it, st, args, kw, node)
        if r is not NotImplemented:
            return r
        pos = [i for i, a in enumerate(args) if a.op == 'dec']
        if pos:
            def g(s, *vs):
                xs = list(args)
                for i, v in zip(pos, vs):
                    xs[i] = v
                return call(it, s, name, xs, kw, node)
            return it.lift_st(st, g, *[args[i] for i in pos])
    return opaque(it, st, name, args, kw, node)


def opaque(it, st, name, args, kw, node):
    fa = [it.freeze(st, a) for a in args]
    fk = [tup([T.const(k), it.freeze(st, a)]) for k, a in sorted(kw.items())]
    if name.startswith('list.') or name.startswith('dict.') or name.startswith('ndarray.'):
        # unmodelled method: assume it may change the receiver
        if name.split('.')[1] in MUTATORS and args and args[0].op in ('ref', 'nd', 'nds'):
            o = st.heap[args[0].args[0]]
            if o.kind in ('list', 'sarr'):
                it.write(st, args[0].args[0], o.w(unk('mutated by ' + name)))
            elif o.kind == 'dict':
                it.write(st, args[0].args[0], o.w(((UNKEY, unk('mutated by ' + name)),)))
    if not name.startswith('np.') and not name.startswith('math.') and not name.startswith('str.') \
            and name not in PURE:
        it.effects.append((it.cur_pc(st), 'lib', (name, tuple(fa), tuple(fk)), node, it.fname()))
    return T.app(name, *(fa + fk))


MUTATORS = {'sort', 'reverse', 'clear', 'remove', 'fill', 'resize', 'itemset', 'put', 'update',
            'setdefault', 'popitem'}

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def s_sum(xs):
    r = ZERO
    for x in xs:
        r = s_add(r, x)
    return r


def scalar_fun(name, f):
    def g(it, st, args, kw, node):
        if set(kw) - {'dtype', 'casting'}:
            return NotImplemented
        r = zipmap(it, f, *[A(it, st, a) for a in args])
        if r is None:
            return NotImplemented
        return out(it, st, r)
    MODELS[name] = g


scalar_fun('np.sqrt', lambda x: s_sqrt(x))
scalar_fun('np.abs', s_fun('abs'))
scalar_fun('np.sin', s_fun('sin'))
scalar_fun('np.cos', s_fun('cos'))
scalar_fun('np.tan', s_fun('tan'))
scalar_fun('np.arccos', s_fun('arccos'))
scalar_fun('np.arcsin', s_fun('arcsin'))
scalar_fun('np.arctan', s_fun('arctan'))
scalar_fun('np.arctan2', s_fun('arctan2'))
scalar_fun('np.log', lambda x, b=None: s_fun('log')(x) if b is None else s_div(s_fun('log')(x), s_fun('log')(b)))
scalar_fun('np.log1p', lambda x: s_fun('log')(s_add(ONE, x)))
scalar_fun('np.log2', lambda x: s_div(s_fun('log')(x), s_fun('log')(num(2))))
scalar_fun('np.log10', lambda x: s_div(s_fun('log')(x), s_fun('log')(num(10))))
scalar_fun('np.expm1', lambda x: s_sub(s_fun('exp')(x), ONE))
scalar_fun('np.reciprocal', lambda x: s_div(ONE, x))
scalar_fun('np.positive', lambda x: x)
scalar_fun('np.exp', s_fun('exp'))
scalar_fun('np.square', lambda x: s_mul(x, x))
scalar_fun('np.degrees', lambda x: s_div(s_mul(x, num(180)), T.PI))
scalar_fun('np.radians', lambda x: s_div(s_mul(x, T.PI), num(180)))
scalar_fun('np.power', s_pow)
scalar_fun('pow', s_pow)
scalar_fun('np.mod', s_mod)
scalar_fun('np.fmod', s_fun('fmod'))
scalar_fun('math.fmod', s_fun('fmod'))
scalar_fun('np.add', s_add)
scalar_fun('np.subtract', s_sub)
scalar_fun('np.multiply', s_mul)
scalar_fun('np.divide', s_div)
scalar_fun('np.negative', s_neg)
scalar_fun('np.minimum', s_min)
scalar_fun('np.maximum', s_max)
scalar_fun('np.floor', lambda x: intfun('floor', x))
scalar_fun('np.ceil', lambda x: intfun('ceil', x))
scalar_fun('np.sign', lambda x: lift(lambda y: T.sgn3(as_rat(y), num(-1), ZERO, ONE), x))
scalar_fun('np.hypot', lambda *xs: s_sqrt(s_sum([s_mul(x, x) for x in xs])))
scalar_fun('np.isnan', lambda x: FALSE)
scalar_fun('math.isnan', lambda x: FALSE)
scalar_fun('np.isfinite', lambda x: TRUE)
scalar_fun('np.isinf', lambda x: FALSE)
scalar_fun('np.reciprocal', lambda x: s_div(ONE, x))
scalar_fun('np.rint', lambda x: intfun('rint', x))
scalar_fun('np.copysign', lambda x, y: lift(lambda a, b: T.sgn3(
    as_rat(b), T.rneg(T.rabs(as_rat(a))), T.rabs(as_rat(a)), T.rabs(as_rat(a))), x, y))
scalar_fun('math.copysign', lambda x, y: lift(lambda a, b: T.sgn3(
    as_rat(b), T.rneg(T.rabs(as_rat(a))), T.rabs(as_rat(a)), T.rabs(as_rat(a))), x, y))
scalar_fun('np.logical_and', lambda x, y: band(tb(x), tb(y)))
scalar_fun('np.logical_or', lambda x, y: bor(tb(x), tb(y)))
scalar_fun('np.logical_not', lambda x: bnot(tb(x)))
scalar_fun('np.equal', s_eq)
scalar_fun('np.less', s_lt)
scalar_fun('np.less_equal', s_le)
scalar_fun('np.greater', lambda x, y: s_lt(y, x))
scalar_fun('np.greater_equal', lambda x, y: s_le(y, x))


def tb(x):
    def f(y):
        if y in (TRUE, FALSE):
            return y
        if y.op == 'rat':
            return T.sgn3(y, TRUE, FALSE, TRUE)
        return T.bool_atom(y)
    return lift(f, x)


def intfun(name, x):
    import math

    def f(y):
        y = as_rat(y)
        c = const_value(y)
        if c is not None:
            return num({'floor': math.floor, 'ceil': math.ceil, 'rint': round}[name](c))
        if is_int(y):
            return y
        return atom(mk('app', name, y))
    return lift(f, x)


@model('np.where')
def m_where(it, st, args, kw, node):
    if len(args) == 1 and not kw:
        return m_nonzero(it, st, args, kw, node)
    if len(args) != 3:
        return NotImplemented
    r = zipmap(it, lambda c, a, b: ite(tb(c), as_num(a), as_num(b)), *[A(it, st, a) for a in args])
    return NotImplemented if r is None else out(it, st, r)


@model('np.nonzero', 'ndarray.nonzero')
def m_nonzero(it, st, args, kw, node):
    r = positions(it, st, args[0])
    return NotImplemented if r is None else tup([r])


@model('np.flatnonzero')
def m_flatnonzero(it, st, args, kw, node):
    r = positions(it, st, args[0])
    return NotImplemented if r is None else r


def positions(it, st, v):
    """where a one-dimensional array is not zero"""
    a = A(it, st, v)
    if a is None or a[0] == 's' or len(a[1]) + (a[0] == 'r') != 1:
        return None
    if a[0] == 'a':
        cs = [tb(x) for x in a[2]]
        if any(c not in (TRUE, FALSE) for c in cs):
            return None
        return it.new_arr(st, (cs.count(TRUE),), [num(i) for i, c in enumerate(cs) if c is TRUE])
    n = T.seq_len(a[2])
    if n.op != 'rat':
        return None
    k = T.fresh_index()
    c = tb(T.seq_get(a[2], atom(k)))
    return None if c.unk else it.new_sarr(st, T.mkfilt(n, k, c, atom(k)), ())


@model('np.clip')
def m_clip(it, st, args, kw, node):
    a = args[0]
    lo = kwget(kw, 'a_min', args, 1, NONE)
    hi = kwget(kw, 'a_max', args, 2, NONE)
    v = A(it, st, a)
    if lo is not NONE:
        v = zipmap(it, s_max, v, A(it, st, lo))
    if hi is not NONE:
        v = zipmap(it, s_min, v, A(it, st, hi))
    return NotImplemented if v is None else out(it, st, v)


def shape_arg(it, st, v):
    if v.op == 'rat':
        return [v]
    items = it.items(st, v)
    if items is None:
        return None
    return [as_rat(x) if x.op in ('app', 'sym') else x for x in items]


def filled(it, st, sh, val, dtype='f'):
    if sh is None:
        return unk('shape')
    if any(x.op != 'rat' for x in sh):
        return unk('shape')
    cs = [int_value(x) for x in sh]
    if all(c is not None for c in cs):
        if prod(cs) > 4096:
            return unk('large array')
        return it.new_arr(st, cs, [val] * prod(cs), dtype)
    if any(c is None for c in cs[1:]):
        return unk('array with several symbolic dimensions')
    inner = tuple(cs[1:])
    return it.new_sarr(st, mk('rep', val if inner == () else T.farr(inner, [val] * prod(inner)), sh[0]), inner)


def dtype_of(it, kw, args, pos):
    d = kwget(kw, 'dtype', args, pos, NONE)
    if d.op == 'bi' and d.args[0] in ('int', 'np.int64', 'np.int32', 'np.int', 'np.int_', 'np.uint8'):
        return 'i'
    return 'f'


@model('np.zeros', 'np.empty')
def m_zeros(it, st, args, kw, node):
    return filled(it, st, shape_arg(it, st, kwget(kw, 'shape', args, 0, NONE)), ZERO, dtype_of(it, kw, args, 1))


@model('np.ones')
def m_ones(it, st, args, kw, node):
    return filled(it, st, shape_arg(it, st, args[0]), ONE, dtype_of(it, kw, args, 1))


@model('np.full')
def m_full(it, st, args, kw, node):
    v = args[1] if len(args) > 1 else kw.get('fill_value', unk('fill'))
    return filled(it, st, shape_arg(it, st, args[0]), v)


@model('np.zeros_like', 'np.empty_like')
def m_zeros_like(it, st, args, kw, node):
    a = A(it, st, args[0])
    return NotImplemented if a is None else filled(it, st, shape_of(it, a), ZERO)


@model('np.ones_like')
def m_ones_like(it, st, args, kw, node):
    a = A(it, st, args[0])
    return NotImplemented if a is None else filled(it, st, shape_of(it, a), ONE)


@model('np.identity', 'np.eye')
def m_eye(it, st, args, kw, node):
    c = int_value(args[0]) if args[0].op == 'rat' else None
    if c is None or c > 20 or len(args) > 1:
        return NotImplemented
    return it.new_arr(st, (c, c), [ONE if i == j else ZERO for i in range(c) for j in range(c)])


@model('np.diag')
def m_diag(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is None or a[0] != 'a':
        return NotImplemented
    if len(a[1]) == 2:
        m = min(a[1])
        return it.new_arr(st, (m,), [a[2][i * a[1][1] + i] for i in range(m)])
    n = a[1][0]
    return it.new_arr(st, (n, n), [a[2][i] if i == j else ZERO for i in range(n) for j in range(n)])


@model('np.diagonal', 'ndarray.diagonal')
def m_diagonal(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is None or a[0] != 'a' or len(a[1]) != 2:
        return NotImplemented
    return m_diag(it, st, args[:1], {}, node)


@model('np.trace', 'ndarray.trace')
def m_trace(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is None or a[0] != 'a' or len(a[1]) != 2:
        return NotImplemented
    return sumt([a[2][i * a[1][1] + i] for i in range(min(a[1]))])


@model('np.asarray', 'np.asanyarray', 'np.ascontiguousarray')
def m_asarray(it, st, args, kw, node):
    if len(args) == 1 and args[0].op in ('nd', 'nds') and (not kw or set(kw) == {'dtype'} and same_type(it, st, args[0], kw['dtype'])):
        return args[0]
    return MODELS['np.array'](it, st, args, {k: v for k, v in kw.items() if k != 'order'}, node)


def same_type(it, st, v, d):
    """conversion to this type leaves the array as it is"""
    o = st.heap[v.args[0]]
    return o.dtype != 'i' and d.op == 'bi' and d.args[0] in ('float', 'np.float64', 'np.double')


@model('np.array')
def m_array(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is None and (islist(st, args[0]) or args[0].op == 'tup') and not kw and len(args) == 1:
        rows = [A(it, st, x) for x in it.items(st, args[0]) or []]
        if rows and all(x is not None and x[0] == 'r' and x[1] == () for x in rows):
            r = side_by_side(it, st, rows)
            return NotImplemented if r.op == 'unk' else r
    if a is None:
        return NotImplemented
    if a[0] == 's':
        if args[0].op in ('app', 'sym'):
            return NotImplemented
        return a[1]
    if short(kw.get('dtype', args[1] if len(args) > 1 else None)):
        a = zipmap(it, coarse, a)
    ints = dtype_of(it, kw, args, 1) == 'i'
    if not ints and 'dtype' not in kw and len(args) < 2 and a[0] == 'a' and node is not None and \
            isinstance(node, ast.Call) and node.args and all_int_literals(node.args[0]):
        ints = True
    return out(it, st, a, 'i' if ints else 'f')


def all_int_literals(n):
    found = [0]

    def go(x):
        if isinstance(x, (ast.List, ast.Tuple)):
            return all(go(e) for e in x.elts)
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.UAdd)):
            return go(x.operand)
        if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
            found[0] += 1
            return True
        return False
    return go(n) and found[0] > 0


@model('np.copy', 'ndarray.copy')
def m_copy(it, st, args, kw, node):
    a = A(it, st, args[0])
    return NotImplemented if a is None else out(it, st, a)


@model('ndarray.astype')
def m_astype(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is None:
        return NotImplemented
    if args[1].op == 'bi' and args[1].args[0] in ('int', 'np.int64', 'np.int32', 'np.int'):
        a = zipmap(it, truncate, a)
        return out(it, st, a, 'i')
    if short(args[1]):
        a = zipmap(it, coarse, a)
    return out(it, st, a)


@model('ndarray.tolist')
def m_tolist(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is None:
        return NotImplemented
    if a[0] == 'a':
        def nest(sh, el):
            if len(sh) == 1:
                return it.new_list(st, T.flist(el))
            m = prod(sh[1:])
            return it.new_list(st, T.flist([nest(sh[1:], el[i * m:(i + 1) * m]) for i in range(sh[0])]))
        return nest(a[1], a[2])
    if a[1] == ():
        return it.new_list(st, a[2])
    return NotImplemented


@model('ndarray.item')
def m_item(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is None or a[0] != 'a':
        return NotImplemented
    if len(args) == 1 and len(a[2]) == 1:
        return a[2][0]
    if len(args) == 2 and int_value(args[1]) is not None:
        return a[2][int_value(args[1])]
    return NotImplemented


@model('np.reshape', 'ndarray.reshape')
def m_reshape(it, st, args, kw, node):
    v = args[0]
    dims = args[1:]
    if len(dims) == 1:
        dims = shape_arg(it, st, dims[0])
    if dims is None or v.op != 'nd':
        a = A(it, st, v)
        if a is not None and a[0] == 'r' and dims and all(int_value(x) is not None for x in dims):
            ds = [int_value(x) for x in dims]
            if ds == [-1]:
                return m_ravel(it, st, [v], {}, node)
            if ds[0] == -1 and prod(ds[1:]) == prod(a[1]):
                inner = tuple(ds[1:])
                return it.new_sarr(st, it.seq_map(a[2], lambda g: T.farr(inner, [
                    g if a[1] == () else it.row_elem(g, i) for i in range(prod(a[1]))])), inner)
        return NotImplemented
    ds = [int_value(x) for x in dims]
    if any(d is None for d in ds):
        return NotImplemented
    loc, row, shape, flat = v.args
    n = len(flat)
    if -1 in ds:
        k = prod([d for d in ds if d != -1])
        ds = [n // k if d == -1 else d for d in ds]
    if prod(ds) != n:
        raise Raises('cannot reshape')
    return mk('nd', loc, row, tuple(ds), flat)


@model('np.ravel', 'ndarray.ravel', 'ndarray.flatten', 'np.squeeze', 'ndarray.squeeze')
def m_ravel(it, st, args, kw, node):
    v = args[0]
    a = A(it, st, v)
    if a is None or a[0] == 's':
        return NotImplemented
    if a[0] == 'a':
        return it.new_arr(st, (len(a[2]),), a[2])
    if a[1] == ():
        return v
    if prod(a[1]) == 1:
        return it.new_sarr(st, it.seq_map(a[2], lambda g: it.row_elem(g, 0)), ())
    return NotImplemented


@model('np.transpose', 'ndarray.transpose')
def m_transpose(it, st, args, kw, node):
    if args[0].op in ('nd', 'nds'):
        return transpose(it, st, args[0])
    return NotImplemented


@model('np.dot', 'ndarray.dot')
def m_dot(it, st, args, kw, node):
    r = dot(it, A(it, st, args[0]), A(it, st, args[1]))
    return NotImplemented if r is None else out(it, st, r)


@model('np.inner')
def m_inner(it, st, args, kw, node):
    a, b = A(it, st, args[0]), A(it, st, args[1])
    if a is None or b is None or a[0] != 'a' or b[0] != 'a' or len(a[1]) != 1 or len(b[1]) != 1:
        return NotImplemented
    r = dot(it, a, b)
    return NotImplemented if r is None else out(it, st, r)


@model('np.cross')
def m_cross(it, st, args, kw, node):
    a, b = A(it, st, args[0]), A(it, st, args[1])
    if a is None or b is None or a[0] != 'a' or b[0] != 'a' or a[1] != (3,) or b[1] != (3,):
        return NotImplemented
    a, b = a[2], b[2]

    def c(i, j):
        return s_sub(s_mul(a[i], b[j]), s_mul(a[j], b[i]))
    return it.new_arr(st, (3,), [c(1, 2), c(2, 0), c(0, 1)])


@model('np.outer')
def m_outer(it, st, args, kw, node):
    a, b = A(it, st, args[0]), A(it, st, args[1])
    if a is None or b is None or a[0] != 'a' or b[0] != 'a':
        return NotImplemented
    return it.new_arr(st, (len(a[2]), len(b[2])), [s_mul(x, y) for x in a[2] for y in b[2]])


def kept(it, st, f, args, kw, a, ax, node):
    """reduction along an axis that stays in the result with length one"""
    c = int_value(ax) if ax is not NONE else None
    if kw.get('keepdims') is not TRUE or c is None or a[0] == 's':
        return NotImplemented
    r = f(it, st, args, {k: v for k, v in kw.items() if k != 'keepdims'}, node)
    if r is NotImplemented:
        return r
    b = A(it, st, r)
    if a[0] == 'a' and b is not None and b[0] != 'r':
        c = c + len(a[1]) if c < 0 else c
        return it.new_arr(st, tuple(a[1][:c]) + (1,) + tuple(a[1][c + 1:]), [b[1]] if b[0] == 's' else b[2])
    if a[0] == 'r' and b is not None and len(a[1]) == 1:
        if b[0] == 'r' and b[1] == () and c in (1, -1):
            return it.new_sarr(st, it.seq_map(b[2], lambda g: T.farr((1,), [g])), (1,))
        if b[0] == 'a' and c == 0:
            return it.new_arr(st, (1,) + tuple(b[1]), b[2])
    return NotImplemented


@model('np.linalg.norm')
def m_norm(it, st, args, kw, node):
    a = A(it, st, args[0])
    o = kwget(kw, 'ord', args, 1, NONE)
    ax = kwget(kw, 'axis', args, 2, NONE)
    if a is None:
        return NotImplemented
    if kwget(kw, 'keepdims', args, 3, FALSE) is not FALSE:
        return kept(it, st, m_norm, args[:1], dict(kw, ord=o), a, ax, node)
    if o is not NONE and const_value(o) != 2:
        if a[0] == 'a' and len(a[1]) == 1 and ax is NONE:
            c = const_value(o)
            if c == 1:
                return sumt([s_fun('abs')(x) for x in a[2]])
            if o is T.num(float('inf')):
                r = ZERO
                for x in a[2]:
                    r = s_max(r, s_fun('abs')(x))
                return r
            if isinstance(c, (int, Fraction)) and c > 2:
                return s_pow(sumt([s_pow(s_fun('abs')(x), num(c)) for x in a[2]]), num(Fraction(1) / Fraction(c)))
        return NotImplemented
    if ax is NONE:
        if a[0] == 'a' and (len(a[1]) == 1 or o is NONE):
            return s_sqrt(sumt([s_mul(x, x) for x in a[2]]))
        if a[0] == 'a' and len(a[1]) == 2 and 1 in a[1]:
            return s_sqrt(sumt([s_mul(x, x) for x in a[2]]))
        if a[0] == 's':
            return s_fun('abs')(a[1])
        if a[0] == 'r' and a[1] == ():
            return s_sqrt(total(it, zipmap(it, lambda x: s_mul(x, x), a)))
        return NotImplemented
    c = int_value(ax)
    if c is None:
        return NotImplemented
    if a[0] == 'r' and c in (1, -1) and len(a[1]) == 1:
        m = prod(a[1])
        return it.new_sarr(st, it.seq_map(a[2], lambda g: s_sqrt(sumt(
            [s_mul(it.row_elem(g, i), it.row_elem(g, i)) for i in range(m)]))), ())
    if a[0] == 'a' and c is not None:
        r = axis_reduce(it, a, c, lambda xs: s_sqrt(sumt([s_mul(x, x) for x in xs])))
        return out(it, st, r)
    return NotImplemented


@model('np.linalg.svd')
def m_svd(it, st, args, kw, node):
    m = it.freeze(st, args[0])
    a = A(it, st, args[0])
    if a is None or a[0] == 's':
        return NotImplemented
    cols = (a[1] if a[0] == 'r' else a[1][1:])
    if len(cols) != 1:
        return NotImplemented
    c = cols[0]
    if kw.get('compute_uv') is FALSE:
        return it.new_arr(st, (c,), [atom(mk('app', 'proj', mk('app', 'svd_s', m), (i,))) for i in range(c)])
    u = mk('app', 'svd_u', m)
    s = it.new_arr(st, (c,), [atom(mk('app', 'proj', mk('app', 'svd_s', m), (i,))) for i in range(c)])
    v = it.new_arr(st, (c, c), [atom(mk('app', 'proj', mk('app', 'svd_v', m), (i,))) for i in range(c * c)])
    return tup([u, s, v])


def reduce_model(name, allf):
    def g(it, st, args, kw, node):
        a = A(it, st, args[0])
        ax = kwget(kw, 'axis', args, 1, NONE)
        if a is not None and kw.get('keepdims', FALSE) is not FALSE:
            return kept(it, st, g, args, kw, a, ax, node)
        if a is None or set(kw) - {'axis', 'dtype', 'keepdims'} or len(args) > 2:
            return NotImplemented
        if ax is NONE:
            r = allf(it, a)
            return NotImplemented if r is None else r
        c = int_value(ax)
        if c is None:
            return NotImplemented
        if a[0] == 'a':
            rank = len(a[1])
            return out(it, st, axis_reduce(it, a, c, lambda xs: allf(it, ('a', (len(xs),), xs))))
        if a[0] == 'r' and len(a[1]) == 1 and c in (1, -1):
            m = prod(a[1])
            return it.new_sarr(st, it.seq_map(a[2], lambda gg: allf(it, ('a', (m,), [it.row_elem(gg, i) for i in range(m)]))), ())
        if a[0] == 'r' and len(a[1]) == 1 and c == 0:
            return it.new_arr(st, a[1], [allf(it, ('r', (), it.seq_map(a[2], lambda gg: it.row_elem(gg, i)))) for i in range(prod(a[1]))])
        if a[0] == 'r' and a[1] == () and c in (0, -1):
            return allf(it, a)
        return NotImplemented
    for n in name:
        MODELS[n] = g


reduce_model(['np.sum', 'ndarray.sum', 'np.nansum'], total)
reduce_model(['np.mean', 'ndarray.mean', 'np.average'],
             lambda it, a: s_div(total(it, a), count(it, a)))


def seqterm(it, a):
    if a[0] == 'a':
        return T.flist(a[2])
    return a[2]


def minmax(it, a, f, name):
    if a[0] == 's':
        return a[1]
    if a[0] == 'a':
        if not a[2] or len(a[2]) > 6:
            return atom(mk('app', name, T.flist(a[2])))
        r = a[2][0]
        for x in a[2][1:]:
            r = f(r, x)
        return r
    return T.napp(name, a[2])


reduce_model(['np.max', 'ndarray.max'], lambda it, a: minmax(it, a, s_max, 'max'))
reduce_model(['np.min', 'ndarray.min'], lambda it, a: minmax(it, a, s_min, 'min'))
reduce_model(['np.median'], lambda it, a: T.napp('median', seqterm(it, a)) if a[0] != 's' else a[1])


def variance(it, a):
    if a[0] == 's':
        return ZERO
    m = s_div(total(it, a), count(it, a))
    r = zipmap(it, lambda x: s_pow(s_sub(as_num(x), m), num(2)), a)
    return s_div(total(it, r), count(it, a))


reduce_model(['np.var', 'ndarray.var'], variance)
reduce_model(['np.std', 'ndarray.std'], lambda it, a: s_sqrt(variance(it, a)))
reduce_model(['np.prod', 'ndarray.prod'], lambda it, a: prodt(a))


def prodt(a):
    c = int_value(T.seq_len(a[2])) if a[0] == 'r' and a[1] == () and T.seq_len(a[2]).op == 'rat' else None
    if c is not None and c <= 64:
        a = ('a', (c,), [T.seq_get(a[2], num(i)) for i in range(c)])
    if a[0] != 'a':
        return None
    r = ONE
    for x in a[2]:
        r = s_mul(r, x)
    return r


def argbest(it, a, better, name):
    if a[0] != 'a' or len(a[1]) != 1 or len(a[2]) > 5:
        return T.napp(name, seqterm(it, a)) if a[0] != 's' else ZERO
    best, bi = a[2][0], num(0)
    for i, x in enumerate(a[2][1:], 1):
        c = better(x, best)
        best, bi = ite(c, x, best), ite(c, num(i), bi)
    return bi


reduce_model(['np.argmax', 'ndarray.argmax'], lambda it, a: argbest(it, a, lambda x, b: s_lt(b, x), 'argmax'))
reduce_model(['np.argmin', 'ndarray.argmin'], lambda it, a: argbest(it, a, lambda x, b: s_lt(x, b), 'argmin'))


def all_any(it, a, isall):
    if a[0] == 's':
        return tb(a[1])
    if a[0] == 'a':
        r = TRUE if isall else FALSE
        for x in a[2]:
            r = band(r, tb(x)) if isall else bor(r, tb(x))
        return r
    s = a[2]

    def row(g):
        el = [g] if a[1] == () else [it.row_elem(g, i) for i in range(prod(a[1]))]
        r = TRUE if isall else FALSE
        for x in el:
            r = band(r, tb(x)) if isall else bor(r, tb(x))
        return r
    return seq_any(it, s, row, isall)


def seq_any(it, s, row, isall):
    if s.op == 'dec':
        return lift(lambda x: seq_any(it, x, row, isall), s)
    if s.op == 'flist':
        r = TRUE if isall else FALSE
        for x in s.args:
            r = band(r, row(x)) if isall else bor(r, row(x))
        return r
    if s.op == 'cat':
        r = TRUE if isall else FALSE
        for x in s.args:
            c = seq_any(it, x, row, isall)
            r = band(r, c) if isall else bor(r, c)
        return r
    k = T.fresh_index()
    if s.op == 'filt':
        m = {s.args[1]: atom(k)}
        g = T.subst(s.args[2], m)
        e = row(T.subst(s.args[3], m))
        if isall:
            return bnot(T.mkany(s.args[0], k, band(g, bnot(e))))
        return T.mkany(s.args[0], k, band(g, e))
    e = row(T.seq_get(s, atom(k)))
    if isall:
        return bnot(T.mkany(T.seq_len(s), k, bnot(e)))
    return T.mkany(T.seq_len(s), k, e)


reduce_model(['np.all', 'ndarray.all'], lambda it, a: all_any(it, a, True))
reduce_model(['np.any', 'ndarray.any'], lambda it, a: all_any(it, a, False))


@model('all', 'any')
def m_all(it, st, args, kw, node):
    raise NotImplementedError


def _mk_allany(isall):
    def g(it, st, args, kw, node):
        s = it.as_seq(st, args[0])
        if s.op == 'unk':
            return s
        return seq_any(it, s, lambda x: it.truth(st, x), isall)
    return g


MODELS['all'] = _mk_allany(True)
MODELS['any'] = _mk_allany(False)


@model('np.isclose', 'np.allclose')
def m_isclose(it, st, args, kw, node):
    raise NotImplementedError


def _mk_close(alls):
    def g(it, st, args, kw, node):
        a, b = A(it, st, args[0]), A(it, st, args[1])
        rt = kwget(kw, 'rtol', args, 2, num(1e-5))
        at = kwget(kw, 'atol', args, 3, num(1e-8))
        rt, at = as_num(rt), as_num(at)
        if alls:
            return allclose(it, a, b, rt, at)
        r = zipmap(it, lambda x, y: s_isclose(x, y, rt, at), a, b)
        if r is None:
            return NotImplemented
        return out(it, st, r)
    return g


def allclose(it, a, b, rt, at):
    if a is None or b is None:
        return NotImplemented
    if (a[0] == 'a' or b[0] == 'a') and a[0] != 'r' and b[0] != 'r':
        ps = zipmap(it, lambda x, y: tup([x, y]), a, b)
        if ps is None:
            return NotImplemented
        keep = []
        for x, y in [p.args for p in ps[2]]:
            if x is y:
                continue
            if x.op == 'rat' and y.op == 'rat':
                r = s_isclose(x, y, rt, at)
                if r is TRUE:
                    continue
                if r is FALSE:
                    return FALSE
            keep.append((x, y))
        if not keep:
            return TRUE
        if len(keep) > 1:
            if any(x.unk or y.unk for x, y in keep):
                return unk('allclose')
            return T.bool_atom(mk('app', 'allclose', tuple(x for x, _ in keep), tuple(y for _, y in keep), rt, at))
    r = zipmap(it, lambda x, y: s_isclose(x, y, rt, at), a, b)
    if r is None:
        return NotImplemented
    return all_any(it, r, True)


MODELS['np.isclose'] = _mk_close(False)
MODELS['np.allclose'] = _mk_close(True)


@model('math.isclose')
def m_misclose(it, st, args, kw, node):
    rt = kw.get('rel_tol', num(1e-9))
    at = kw.get('abs_tol', ZERO)

    def f(x, y):
        d = T.rabs(T.rsub(x, y))
        lim = s_max(s_mul(rt, s_max(T.rabs(x), T.rabs(y))), at)
        return s_le(d, lim)
    return lift(lambda x, y: f(as_rat(x), as_rat(y)), args[0], args[1])


@model('np.array_equal')
def m_array_equal(it, st, args, kw, node):
    a, b = A(it, st, args[0]), A(it, st, args[1])
    r = zipmap(it, s_eq, a, b)
    if r is None:
        return NotImplemented
    return all_any(it, r, True)


@model('np.float64', 'float')
def m_float(it, st, args, kw, node):
    if not args:
        return ZERO
    v = args[0]
    if v.op == 'const' and isinstance(v.args[0], str):
        try:
            return num(float(v.args[0]))
        except ValueError:
            return NotImplemented
    if v.op in ('rat',):
        return v
    if v.op == 'dec' and all(x.op == 'rat' for x in T.leaves(v)):
        return v
    if v in (TRUE, FALSE):
        return as_rat(v)
    if v.op == 'app':
        return atom(v) if v.args[0] not in ('str', 'fmt') else T.napp('float', v)
    if v.op == 'nd' and len(v.args[3]) == 1:
        return it.nd_elems(st, v)[0]
    return NotImplemented


@model('int', 'np.int64', 'np.int32', 'math.trunc')
def m_int(it, st, args, kw, node):
    if not args:
        return ZERO
    v = args[0]
    if v.op == 'const' and isinstance(v.args[0], str):
        try:
            return num(int(v.args[0]))
        except ValueError:
            return NotImplemented
    if v.op in ('rat', 'dec', 'app') or v in (TRUE, FALSE):
        if v.op == 'app' and v.args[0] in ('str', 'fmt'):
            return NotImplemented
        return truncate(v)
    return NotImplemented


@model('round')
def m_round(it, st, args, kw, node):
    if len(args) == 1 and args[0].op == 'rat':
        return intfun('rint', args[0])
    k = T.int_value(args[1]) if len(args) == 2 else None
    if k is not None and args[0].op == 'rat':
        return T.napp('round', args[0], num(k))
    return NotImplemented


@model('np.round', 'np.around', 'np.round_', 'ndarray.round')
def m_npround(it, st, args, kw, node):
    d = args[1] if len(args) > 1 else kw.get('decimals', T.ZERO)
    k = T.int_value(d)
    a = A(it, st, args[0])
    if k is None or a is None:
        return NotImplemented
    return out(it, st, zipmap(it, lambda x: intfun('rint', x) if k == 0 else T.napp('round', x, num(k)), a))


@model('np.float32', 'np.float16', 'np.single', 'np.half')
def m_coarse(it, st, args, kw, node):
    a = A(it, st, args[0]) if args else None
    return NotImplemented if a is None else out(it, st, zipmap(it, coarse, a))


def short(d):
    return d is not None and (d.op == 'bi' and d.args[0] in ('np.float32', 'np.float16', 'np.single', 'np.half') or
                              d.op == 'const' and d.args[0] in ('float32', 'float16', 'f4', 'f2', 'f'))


def coarse(x):
    """the value with the digits of a shorter number type"""
    return T.napp('coarse', x)


@model('bool', 'np.bool_')
def m_bool(it, st, args, kw, node):
    return it.truth(st, args[0])


@model('str')
def m_str(it, st, args, kw, node):
    v = args[0]
    if isstr(v):
        return v
    if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst' and it.cls_find(st.heap[v.args[0]].cls, '__str__'):
        return it.call(st, it.getattr(st, v, '__str__', node), [], {}, node)
    v = it.freeze(st, v)
    return mkstr([v if v is TRUE or v is FALSE or v is NONE else mk('app', 'tostr', v)])


@model('str.format')
def m_format(it, st, args, kw, node):
    fz = [it.freeze(st, a) for a in args[1:]]
    if args[0].op != 'const':
        return T.app('fmt', *([args[0]] + fz))
    return fmt_braces(args[0].args[0], fz, {k: it.freeze(st, v) for k, v in kw.items()})


@model('str.join')
def m_join(it, st, args, kw, node):
    s = it.as_seq(st, args[1])
    if s.op == 'flist' and args[0].op == 'const':
        parts = []
        for i, x in enumerate(s.args):
            if i:
                parts.append(args[0])
            parts.append(it.freeze(st, x))
        return mkstr(parts)
    return T.app('join', args[0], it.freeze(st, s))


@model('str.lower', 'str.upper', 'str.strip', 'str.split', 'str.replace', 'str.startswith', 'str.endswith')
def m_strmeth(it, st, args, kw, node):
    return NotImplemented


def _mk_str(name):
    def g(it, st, args, kw, node):
        if args[0].op == 'const' and all(a.op == 'const' or a.op == 'rat' and int_value(a) is not None for a in args) \
                and not kw:
            try:
                r = getattr(args[0].args[0], name)(*[int_value(a) if a.op == 'rat' else a.args[0] for a in args[1:]])
            except Exception:
                return NotImplemented
            if isinstance(r, list):
                return it.new_list(st, T.flist([T.const(x) for x in r]))
            if isinstance(r, tuple):
                return tup([T.const(x) for x in r])
            return num(r) if isinstance(r, int) and not isinstance(r, bool) else T.const(r)
        return NotImplemented
    return g


for _n in ('lower', 'upper', 'strip', 'split', 'replace', 'startswith', 'endswith', 'lstrip', 'rstrip', 'title',
           'find', 'rfind', 'count', 'isdigit', 'isalpha', 'isspace', 'partition', 'rpartition', 'rsplit', 'capitalize',
           'zfill', 'ljust', 'rjust', 'splitlines'):
    MODELS['str.' + _n] = _mk_str(_n)


@model('print')
def m_print(it, st, args, kw, node):
    return NONE


@model('isinstance')
def m_isinstance(it, st, args, kw, node):
    v, c = args
    if v.op == 'dec':
        return it.lift_st(st, lambda s, x: m_isinstance(it, s, [x, c], kw, node), v)
    cs = it.items(st, c) if c.op == 'tup' else [c]
    r = FALSE
    for x in cs:
        y = inst1(it, st, v, x)
        r = y if r is FALSE else bor(r, y)
        if y.op == 'unk':
            return y
    return r


def inst1(it, st, v, c):
    if it.is_frozen(v):
        v = it.thaw(st, v)
    if v.op == 'ref':
        o = st.heap[v.args[0]]
        if o.kind == 'inst':
            if c.op == 'cls':
                return TRUE if it.issub(o.cls, (c.args[0], c.args[1])) else FALSE
            return TRUE if c.op == 'bi' and c.args[0] == 'object' else FALSE
        if o.kind == 'list':
            return TRUE if c.op == 'bi' and c.args[0] in ('list', 'object') else FALSE
        if o.kind == 'dict':
            return TRUE if c.op == 'bi' and c.args[0] in ('dict', 'object') else FALSE
    name = c.args[0] if c.op == 'bi' else ''
    if v.op in ('nd', 'nds'):
        return TRUE if name in ('np.ndarray', 'object') else FALSE
    if v in (TRUE, FALSE):
        return TRUE if name in ('bool', 'int', 'numbers.Number', 'object') else FALSE
    if v.op == 'rat':
        if name in ('numbers.Number', 'numbers.Real', 'float', 'np.float64', 'np.floating', 'object', 'np.number'):
            return TRUE
        if name in ('int', 'np.integer', 'numbers.Integral'):
            return TRUE if is_int(v) else T.bool_atom(mk('app', 'isinstance', v, c))
        return FALSE
    if v.op == 'tup':
        return TRUE if name in ('tuple', 'object') else FALSE
    if v.op == 'const':
        if v.args[0] is None:
            return FALSE
        if isinstance(v.args[0], str):
            return TRUE if name in ('str', 'object') else FALSE
    if v.op == 'unk':
        return v
    return T.bool_atom(mk('app', 'isinstance', v, c))


@model('len')
def m_len(it, st, args, kw, node):
    v = args[0]
    if v.op == 'dec':
        return it.lift_st(st, lambda s, x: m_len(it, s, [x], kw, node), v)
    if v.op == 'unk':
        return v
    if v.op == 'tup':
        return num(len(v.args))
    if v.op == 'const' and isinstance(v.args[0], str):
        return num(len(v.args[0]))
    if v is NONE:
        raise Raises('length of None', ('TypeError', None))
    if set_items(v) is not None:
        return num(len(set_items(v)))
    if v.op == 'app' and v.args[0] == 'np.transpose' and v.args[1].op == 'fsarr':
        return num(v.args[1].args[0][0])
    if v.op == 'ref':
        o = st.heap[v.args[0]]
        if o.kind == 'list':
            if o.data.op == 'unk':
                return o.data
            return T.seq_len(o.data)
        if o.kind == 'dict':
            return unk('entries of a dictionary') if dict_keys(o) is None else num(len(o.data))
        if o.kind == 'inst':
            return it.call(st, it.getattr(st, v, '__len__', node), [], {}, node)
    if v.op == 'nd':
        return num(v.args[2][0])
    if v.op == 'nds':
        return T.seq_len(it.nds_seq(st, v))
    if v.op == 'it':
        return it.iters[v.args[0]][0]
    if it.is_frozen(v):
        return T.seq_len(v) if v.op not in ('farr', 'fsarr') else (
            num(v.args[0][0]) if v.op == 'farr' else T.seq_len(v.args[1]))
    return atom(mk('app', 'len', v))


@model('range', 'xrange')
def m_range(it, st, args, kw, node):
    if any(a.op == 'unk' for a in args):
        return unk('range')
    args = [as_num(a) for a in args]
    if len(args) == 1:
        lo, hi, step = ZERO, args[0], ONE
    else:
        lo, hi = args[:2]
        step = args[2] if len(args) > 2 else ONE
    if step.op != 'rat' or lo.op != 'rat' and step is not ONE:
        return unk('range')
    c = int_value(step)
    if c is None or c == 0:
        return T.app('range', lo, hi, step)
    if c == 1:
        n = s_sub(hi, lo)
        return it.new_iter(cl0(n), lambda s, k: s_add(lo, k))
    if c == -1:
        n = s_sub(lo, hi)
        return it.new_iter(cl0(n), lambda s, k: s_sub(lo, k))
    d = s_sub(hi, lo)
    if const_value(d) is not None:
        n = len(range(0, int(const_value(d)), c))
        return it.new_iter(num(n), lambda s, k: s_add(lo, s_mul(step, k)))
    # number of steps: exact when the span is a multiple of the step
    q = T.rdiv(d, step)
    if all(cf.denominator == 1 for _, cf in q.args[0]) and is_int(q):
        return it.new_iter(q, lambda s, k: s_add(lo, s_mul(step, k)))
    n = intfun('ceil', q)
    return it.new_iter(n, lambda s, k: s_add(lo, s_mul(step, k)))


def cl0(n):
    c = const_value(n) if n.op == 'rat' else None
    if c is not None and c < 0:
        return ZERO
    return n


@model('list', 'tuple')
def m_list(it, st, args, kw, node):
    raise NotImplementedError


def _mk_list(istup):
    def g(it, st, args, kw, node):
        if not args:
            return tup([]) if istup else it.new_list(st, T.flist([]))
        s = it.as_seq(st, args[0])
        if s.op == 'unk':
            return s
        if istup and s.op == 'flist':
            return tup(s.args)
        return it.new_list(st, s)
    return g


MODELS['list'] = _mk_list(False)
MODELS['tuple'] = _mk_list(True)


@model('zip')
def m_zip(it, st, args, kw, node):
    if len(args) == 1 and args[0].op == 'app' and args[0].args[0] == 'star':
        return unzip(it, st, args[0].args[1])
    if len(args) > len(set(args)) and any(islist(st, a) and st.heap[a.args[0]].dtype == 'iter' for a in args):
        return unk('elements of one iterator in turn')
    its = [endless(it, a) or it.iterable(st, a, node) for a in args]
    if any(i is None for i in its):
        return unk('zip')
    n = shortest(its)
    if n is None:
        return unk('zip')
    return it.new_iter(n, lambda s, k: tup([i[1](s, k) for i in its]))


def endless(it, v):
    """elements of an iterator without an end"""
    if v.op == 'app' and v.args[0] == 'itertools.count' and len(v.args) == 3:
        return ENDLESS, lambda s, k: s_add(v.args[1], s_mul(k, v.args[2]))
    if v.op == 'app' and v.args[0] == 'itertools.repeat':
        return ENDLESS, lambda s, k: v.args[1]
    return None


ENDLESS = object()


def shortest(its):
    ns = [i[0] for i in its if i[0] is not ENDLESS]
    if not ns or any(x is None for x in ns):
        return None
    n = ns[0]
    for x in ns[1:]:
        if x is not n:
            n = s_min(n, x)
    return n


def unzip(it, st, s):
    """the components of a sequence of tuples, each as a sequence"""
    def part(x, i):
        if x.op == 'dec':
            return lift(lambda y: part(y, i), x)
        return x.args[i] if x.op == 'tup' else x.args[1][i]
    s = it.freeze(st, s)
    if s.op in ('unk', 'dec', 'app') or T.seq_len(s).op != 'rat':
        return unk('zip')
    ls = T.leaves(T.seq_get(s, atom(T.fresh_index())))
    w = {len(x.args) if x.op == 'tup' else x.args[0][0] if x.op == 'farr' and len(x.args[0]) == 1 else None for x in ls}
    if len(w) != 1 or None in w:
        return unk('zip')
    return tup([it.new_list(st, it.seq_map(s, lambda g: part(g, i))) for i in range(w.pop())])


@model('enumerate')
def m_enumerate(it, st, args, kw, node):
    i = it.iterable(st, args[0], node)
    if i is None or i[0] is None:
        return unk('enumerate')
    start = kwget(kw, 'start', args, 1, ZERO)
    return it.new_iter(i[0], lambda s, k: tup([s_add(k, start), i[1](s, k)]))


@model('reversed')
def m_reversed(it, st, args, kw, node):
    i = it.iterable(st, args[0], node)
    if i is None or i[0] is None or i[0].op != 'rat':
        return unk('reversed')
    return it.new_iter(i[0], lambda s, k: i[1](s, s_sub(T.rsub(i[0], ONE), k)))


@model('iter')
def m_iter(it, st, args, kw, node):
    v = args[0]
    if len(args) == 1 and (v.op in ('tup', 'nd', 'nds', 'it') or islist(st, v) and st.heap[v.args[0]].dtype != 'iter'):
        s = it.as_seq(st, v)
        return v if s.unk else as_iter(it, st, it.new_list(st, s))
    return v


def as_iter(it, st, v):
    """list of the elements that an iterator has still to give"""
    from .interp import Obj
    o = st.heap[v.args[0]]
    st.heap[v.args[0]] = Obj('list', o.data, o.cls, o.shape, 'iter')
    return v


@model('next')
def m_next(it, st, args, kw, node):
    v = args[0]
    if islist(st, v) and st.heap[v.args[0]].dtype == 'iter':
        n = T.seq_len(st.heap[v.args[0]].data)
        c = int_value(n) if n.op == 'rat' else None
        if c == 0 and len(args) == 1:
            raise Raises('no further element', ('StopIteration', None))
        if c == 0:
            return args[1]
        if n.op == 'rat' and (c or len(args) == 1):
            return list_pop(it, st, v, ZERO)
    # only iterators made on the spot: others have a position
    if not isinstance(node, ast.Call) or not isinstance(node.args[0], (ast.GeneratorExp, ast.Call)):
        return unk('position of an iterator')
    s = it.as_seq(st, args[0])
    n = T.seq_len(s) if s.op != 'unk' else None
    if n is None or n.op != 'rat':
        return unk('next')
    c = T.int_value(n)
    if c is not None:
        if c > 0:
            return it.thaw(st, T.seq_get(s, ZERO))
        if len(args) > 1:
            return args[1]
        raise Raises('no element', ('StopIteration', None))
    if len(args) < 2:
        return it.thaw(st, T.seq_get(s, ZERO))
    return it.thaw(st, T.sgn3(n, args[1], args[1], T.seq_get(s, ZERO)) if it.freeze(st, args[1]) is args[1] else unk('next'))


@model('operator.itemgetter')
def m_itemgetter(it, st, args, kw, node):
    return mk('partial', mk('bi', '%itemgetter'), tuple(args), ())


@model('%itemgetter')
def m_itemget(it, st, args, kw, node):
    r = [subscript(it, st, args[-1], i, node) for i in args[:-1]]
    return r[0] if len(r) == 1 else tup(r)


@model('operator.attrgetter')
def m_attrgetter(it, st, args, kw, node):
    return mk('partial', mk('bi', '%attrgetter'), tuple(args), ())


@model('%attrgetter')
def m_attrget(it, st, args, kw, node):
    r = []
    for a in args[:-1]:
        v = args[-1]
        if const_str(a) is None:
            return unk('attribute')
        for p in const_str(a).split('.'):
            v = it.getattr(st, v, p, node)
        r.append(v)
    return r[0] if len(r) == 1 else tup(r)


@model('divmod')
def m_divmod(it, st, args, kw, node):
    return tup([it.binop(st, ast.FloorDiv(), args[0], args[1], node), it.binop(st, ast.Mod(), args[0], args[1], node)])


@model('itertools.chain.from_iterable')
def m_chain_from(it, st, args, kw, node):
    items = it.items(st, args[0])
    if items is None:
        return unk('chain')
    ss = [it.as_seq(st, a) for a in items]
    if any(s.op == 'unk' for s in ss):
        return unk('chain')
    return it.new_list(st, T.seq_cat(*ss) if ss else T.flist([]))


@model('itertools.islice')
def m_islice(it, st, args, kw, node):
    s = it.as_seq(st, args[0])
    if s.op == 'unk' or not isinstance(node, ast.Call) or \
            any(a.op == 'rat' and (T.int_value(a) is None or T.int_value(a) < 0) for a in args[1:]):
        return unk('islice')
    b = list(args[1:])
    b = [NONE] + b if len(b) == 1 else b
    return it.new_list(st, slice_seq(it, s, mk('slice', *(b + [NONE])[:3])))


@model('itertools.starmap')
def m_starmap(it, st, args, kw, node):
    items = it.items(st, args[1])
    if items is None:
        i = it.iterable(st, args[1], node)
        if i is None or i[0] is None:
            return unk('starmap')

        def one(s, k):
            r = it.items(s, i[1](s, k))
            return unk('starmap') if r is None else it.call(s, args[0], r, {}, node)
        return it.new_iter(i[0], one)
    rows = [it.items(st, x) for x in items]
    if any(r is None for r in rows):
        return unk('starmap')
    return it.new_list(st, T.flist([it.call(st, args[0], r, {}, node) for r in rows]))


@model('itertools.repeat')
def m_repeat(it, st, args, kw, node):
    if len(args) == 1 and not kw and not it.has_ref(args[0]):
        return mk('app', 'itertools.repeat', args[0])
    if len(args) != 2:
        return unk('repeat')
    return it.binop(st, ast.Mult(), it.new_list(st, T.flist([args[0]])), args[1], node)


@model('itertools.count')
def m_count_from(it, st, args, kw, node):
    a = as_rat(kwget(kw, 'start', args, 0, ZERO)), as_rat(kwget(kw, 'step', args, 1, ONE))
    return mk('app', 'itertools.count', *a)


@model('itertools.accumulate')
def m_accumulate(it, st, args, kw, node):
    items = it.items(st, args[0])
    if items is None or kw or len(args) > 2:
        return unk('accumulate')
    r = []
    for x in items:
        r.append(x if not r else it.binop(st, ast.Add(), r[-1], x, node) if len(args) == 1
                 else it.call(st, args[1], [r[-1], x], {}, node))
    return it.new_list(st, T.flist(r))


@model('itertools.pairwise')
def m_pairwise(it, st, args, kw, node):
    s = it.as_seq(st, args[0])
    if s.op == 'flist':
        return it.new_list(st, T.flist([tup([a, b]) for a, b in zip(s.args, s.args[1:])]))
    return unk('pairwise')


@model('map')
def m_map(it, st, args, kw, node):
    its = [endless(it, a) or it.iterable(st, a, node) for a in args[1:]]
    if any(i is None for i in its):
        return unk('map')
    n = shortest(its)
    if n is None:
        return unk('map')
    return it.new_iter(n, lambda s, k: it.call(s, args[0], [i[1](s, k) for i in its], {}, node))


@model('filter', 'itertools.compress')
def m_filter(it, st, args, kw, node):
    raise NotImplementedError


def _filtered(it, st, n, cond, elem):
    c = int_value(n) if n.op == 'rat' else None
    if c is not None and c <= it.unroll:
        seq = T.flist([])
        for i in range(c):
            g = cond(st, num(i))
            e = elem(st, num(i))
            if g.op == 'unk':
                return unk('filter')
            seq = lift(lambda a: ite(g, T.seq_cat(a, T.flist([e])), a), seq)
        return it.new_list(st, seq)
    k = T.fresh_index()
    s = st.fork(TRUE)
    g = cond(s, atom(k))
    if g.op == 'unk':
        return unk('filter')
    e = it.freeze_new(st, s, elem(s, atom(k)))
    return it.new_list(st, T.mkfilt(n, k, g, it.under(g, e)))


def m_pyfilter(it, st, args, kw, node):
    i = it.iterable(st, args[1], node)
    if i is None:
        return unk('filter')
    f = args[0]
    return _filtered(it, st, i[0],
                     lambda s, k: it.truth(s, i[1](s, k) if f is NONE else it.call(s, f, [i[1](s, k)], {}, node)),
                     lambda s, k: i[1](s, k))


def m_compress(it, st, args, kw, node):
    i, j = it.iterable(st, args[0], node), it.iterable(st, args[1], node)
    if i is None or j is None:
        return unk('compress')
    n = i[0] if i[0] is j[0] else s_min(i[0], j[0])
    return _filtered(it, st, n, lambda s, k: it.truth(s, j[1](s, k)), lambda s, k: i[1](s, k))


MODELS['filter'] = m_pyfilter
MODELS['itertools.compress'] = m_compress


@model('itertools.chain')
def m_chain(it, st, args, kw, node):
    ss = [it.as_seq(st, a) for a in args]
    if any(s.op == 'unk' for s in ss):
        return unk('chain')
    return it.new_list(st, T.seq_cat(*ss))


@model('itertools.product')
def m_product(it, st, args, kw, node):
    ss = [it.as_seq(st, a) for a in args]
    k = T.int_value(as_rat(kw['repeat'])) if 'repeat' in kw else 1
    if any(s.op != 'flist' for s in ss) or k is None:
        return NotImplemented
    out = list(itertools.product(*[s.args for s in ss] * k))
    if len(out) > 4096:
        return NotImplemented
    return it.new_list(st, T.flist([tup(x) for x in out]))


@model('sum')
def m_sum(it, st, args, kw, node):
    s = it.as_seq(st, args[0])
    if s.op == 'unk':
        return s
    start = kwget(kw, 'start', args, 1, ZERO)
    fz = it.freeze(st, s)
    if fz.op != 'flist':
        a = seq_to_A(it, st, fz)
        if a is None or a[0] != 'r':
            ls = T.leaves(T.seq_get(fz, atom(T.fresh_index()))) if fz.op == 'map' else []
            if any(x.op not in ('rat', 'app', 'const') for x in ls):
                return unk('sum')
        elif a[1] != ():
            r = it.new_arr(st, a[1], [seq_sum(it, it.seq_map(a[2], lambda g: it.row_elem(g, i)), as_num)
                                      for i in range(prod(a[1]))])
            return r if start is ZERO else it.binop(st, ast.Add(), start, r, node)
    if fz.op == 'flist' and any(x.op not in ('rat', 'dec', 'app', 'const') for x in fz.args):
        r = start
        for x in s.args:
            r = it.binop(st, ast.Add(), r, x, node)
        return r
    return s_add(start, seq_sum(it, fz, as_num))


def _mk_minmax(f, name):
    def g(it, st, args, kw, node):
        if set(kw) - {'key'}:
            return unk('smallest or largest element with a default')
        key = kw.get('key', NONE)
        if len(args) == 1:
            s = it.as_seq(st, args[0])
            if key is not NONE and s.op not in ('flist', 'unk'):
                n = T.seq_len(s)
                if n.op != 'rat' or it.has_ref(s):
                    return unk('largest or smallest by a key')
                ks = it.as_seq(st, it.new_iter(n, lambda s2, k: it.call(s2, key, [it.thaw(s2, T.seq_get(s, k))], {}, node)))
                k = T.fresh_index()
                if ks.unk or not all(x.op in ('rat', 'app') for x in T.leaves(T.seq_get(ks, atom(k)))):
                    return unk('largest or smallest by a key')
                return it.thaw(st, T.seq_get(s, T.napp('arg' + name, ks)))
            if s.op == 'unk':
                return s
            if s.op == 'flist':
                items = list(s.args)
            else:
                return T.napp(name, it.freeze(st, s))
        else:
            items = list(args)
        if not items:
            return NotImplemented
        r = items[0]
        if key is NONE and all(x.op in ('rat', 'app', 'sym', 'dec', 'unk') for x in items):
            for x in items[1:]:
                r = f(as_num(r), as_num(x))
            return r
        ks = [x if key is NONE else it.call(st, key, [x], {}, node) for x in items]
        r, rk = items[0], ks[0]
        for x, k in zip(items[1:], ks[1:]):
            a, b = (rk, k) if name == 'min' else (k, rk)
            c = less(it, st, b, a)
            if c is None or c.op == 'unk':
                return unk('largest or smallest')
            r, rk = it.merge_val(st, st, st, c, x, r), ite(c, k, rk)
        return r
    return g


def less(it, st, a, b):
    """a < b for numbers and tuples of numbers"""
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        r = FALSE
        for x, y in reversed(list(zip(a.args, b.args))):
            l, g = less(it, st, x, y), less(it, st, y, x)
            if l is None or g is None:
                return None
            r = ite(l, TRUE, ite(g, FALSE, r))
        return r
    if any(x.op not in ('rat', 'app', 'sym', 'dec') for x in (a, b)):
        return None
    return it.truth(st, compare(it, st, ast.Lt(), a, b, None))


MODELS['min'] = _mk_minmax(s_min, 'min')
MODELS['max'] = _mk_minmax(s_max, 'max')


@model('bisect_left', 'np.searchsorted')
def m_bisect(it, st, args, kw, node):
    if kw and const_str(kw.get('side')) == 'right':
        return m_bisect_r(it, st, args, {}, node)
    if len(args) > 2 and const_str(args[2]) == 'right':
        return m_bisect_r(it, st, args[:2], {}, node)
    if len(args) > 2 or (kw and const_str(kw.get('side')) != 'left'):
        return NotImplemented
    a = A(it, st, args[0])
    if a is None or a[0] == 's':
        return NotImplemented
    x = A(it, st, args[1])
    if x is None:
        return NotImplemented
    r = zipmap(it, lambda y: T.napp('bisect_left', seqterm(it, a), as_num(y)), x)
    return out(it, st, r)


def const_str(t):
    return t.args[0] if t is not None and t.op == 'const' else None


@model('bisect_right')
def m_bisect_r(it, st, args, kw, node):
    if len(args) > 2 or kw:
        return NotImplemented
    a = A(it, st, args[0])
    if a is None or a[0] == 's':
        return NotImplemented
    r = zipmap(it, lambda y: T.napp('bisect_right', seqterm(it, a), as_num(y)), A(it, st, args[1]))
    return out(it, st, r)


@model('np.interp')
def m_interp(it, st, args, kw, node):
    if kw or len(args) != 3:
        return NotImplemented
    xp, fp = A(it, st, args[1]), A(it, st, args[2])
    if xp is None or fp is None:
        return NotImplemented
    r = zipmap(it, lambda x: T.napp('interp', as_num(x), seqterm(it, xp), seqterm(it, fp)), A(it, st, args[0]))
    return NotImplemented if r is None else out(it, st, r)


@model('np.diff')
def m_diff(it, st, args, kw, node):
    n = kwget(kw, 'n', args, 1, ONE)
    if set(kw) - {'n', 'axis'} or len(args) > 2 or n is not ONE or kw.get('axis', ZERO) not in (ZERO, num(-1)):
        return NotImplemented
    a = A(it, st, args[0])
    if a is None or a[0] == 's':
        return NotImplemented
    if a[0] == 'a':
        if len(a[1]) != 1:
            return NotImplemented
        return it.new_arr(st, (a[1][0] - 1,), [s_sub(y, x) for x, y in zip(a[2], a[2][1:])])
    if a[1] != ():
        return NotImplemented
    k = T.fresh_index()
    n = T.seq_len(a[2])
    if n.op != 'rat':
        return NotImplemented
    return it.new_sarr(st, T.mkmap(T.rsub(n, ONE), k, s_sub(T.seq_get(a[2], T.radd(atom(k), ONE)),
                                                           T.seq_get(a[2], atom(k)))), ())


def _mk_correlate(lib, default, flip):
    """full definition left to the valuation: correlate(x, y, mode)"""
    def g(it, st, args, kw, node):
        names = {'scipy': ('in1', 'in2'), 'np': ('a', 'v')}[lib]
        x, y = [kwget(kw, n, args, i, None) for i, n in enumerate(names)]
        mode = kwget(kw, 'mode', args, 2, T.const(default))
        if set(kw) - {'mode', 'method'} - set(names) or x is None or y is None or mode.op != 'const':
            return NotImplemented
        x, y, mode = A(it, st, x), A(it, st, y), mode.args[0]
        if x is None or y is None or 's' in (x[0], y[0]) or mode not in ('full', 'same', 'valid'):
            return NotImplemented
        inner = [v[1][1:] if v[0] == 'a' else v[1] for v in (x, y)]
        if len(inner[0]) != len(inner[1]) or len(inner[0]) > 1 or len(inner[0]) == 1 and lib == 'np':
            return NotImplemented
        n, m = [num(v[1][0]) if v[0] == 'a' else T.seq_len(v[2]) for v in (x, y)]
        if n.unk or m.unk:
            return NotImplemented
        if mode == 'full':
            size, inn = s_sub(s_add(n, m), ONE), tuple(a + b - 1 for a, b in zip(*inner))
        elif mode == 'same':
            size, inn = n if lib == 'scipy' else s_max(n, m), tuple(inner[0])
        else:
            size, inn = s_add(lift(s_fun('abs'), s_sub(n, m)), ONE), tuple(abs(a - b) + 1 for a, b in zip(*inner))
        fx, fy = [mk('farr', v[1], tuple(v[2])) if v[0] == 'a' else mk('fsarr', v[1], v[2]) for v in (x, y)]
        t = mk('app', 'convolve' if flip else 'correlate', fx, fy, mode, lib)
        return it.new_sarr(st, mk('symseq', t, size, ('arr', inn) if inn else 'num'), inn)
    return g


MODELS['scipy.signal.correlate'] = _mk_correlate('scipy', 'full', False)
MODELS['np.correlate'] = _mk_correlate('np', 'valid', False)
MODELS['np.convolve'] = _mk_correlate('np', 'full', True)
for _n in ('convolve', 'fftconvolve', 'convolve2d'):
    MODELS['scipy.signal.' + _n] = _mk_correlate('scipy', 'full', True)
MODELS['scipy.signal.correlate2d'] = MODELS['scipy.signal.correlate']


def _mk_percentile(scale):
    def g(it, st, args, kw, node):
        a, q = A(it, st, args[0]), kwget(kw, 'q', args, 1, None)
        if a is None or a[0] == 's' or q is None or set(kw) - {'q'} or len(args) > 2:
            return NotImplemented
        q = as_num(q)
        if q.op not in ('rat', 'dec'):
            return NotImplemented
        return T.napp('percentile', seqterm(it, a), s_mul(q, num(scale)))
    return g


MODELS['np.percentile'] = _mk_percentile(1)
MODELS['np.quantile'] = _mk_percentile(100)


@model('np.linspace')
def m_linspace(it, st, args, kw, node):
    n = kwget(kw, 'num', args, 2, num(50))
    if set(kw) - {'num'} or len(args) > 3:
        return NotImplemented
    a, b = as_num(args[0]), as_num(args[1])
    n = as_num(n)
    if n.op != 'rat':
        return NotImplemented
    k = T.fresh_index()
    e = s_add(a, s_div(s_mul(s_sub(b, a), atom(k)), T.rsub(n, ONE)))
    return it.new_sarr(st, T.mkmap(n, k, e), ())


@model('np.arange')
def m_arange(it, st, args, kw, node):
    if set(kw) - {'dtype'}:
        return NotImplemented
    cs = [const_value(a) if a.op == 'rat' else None for a in args]
    if None not in cs and any(c.denominator != 1 for c in map(Fraction, cs)):
        lo, hi, step = {1: lambda: (0, cs[0], 1), 2: lambda: (cs[0], cs[1], 1), 3: lambda: cs}[len(cs)]()
        m = max(0, -((Fraction(lo) - hi) // Fraction(step))) if step else 0
        return it.new_arr(st, (m,), [num(lo + i * Fraction(step)) for i in range(m)]) if m <= 64 else NotImplemented
    r = m_range(it, st, args, {}, node)
    if r.op != 'it':
        return NotImplemented
    return it.new_sarr(st, it.as_seq(st, r), ()) if int_value(as_rat(it.iters[r.args[0]][0])) is None else \
        it.new_arr(st, (int_value(it.iters[r.args[0]][0]),), it.as_seq(st, r).args)


def _concat(it, st, parts, axis):
    ps = [A(it, st, p) for p in parts]
    if any(p is None or p[0] == 's' for p in ps):
        return None
    if axis == 0:
        if all(p[0] == 'a' for p in ps):
            inner = {p[1][1:] for p in ps if p[1] != (0,)}
            if len(inner) > 1:
                raise Raises('concatenation of different shapes')
            inn = inner.pop() if inner else ()
            return ('a', (sum(p[1][0] for p in ps),) + tuple(inn), [e for p in ps for e in p[2]])
        inner = {p[1] if p[0] == 'r' else tuple(p[1][1:]) for p in ps if p[1] != (0,)}
        if len(inner) != 1:
            return None
        return ('r', inner.pop(), T.seq_cat(*[rows_seq(p) for p in ps if p[1] != (0,)]))
    if axis == 1:
        if all(p[0] == 'a' and len(p[1]) == 2 for p in ps) and len({p[1][0] for p in ps}) == 1:
            rows = ps[0][1][0]
            w = sum(p[1][1] for p in ps)
            el = []
            for i in range(rows):
                for p in ps:
                    c = p[1][1]
                    el += p[2][i * c:(i + 1) * c]
            return ('a', (rows, w), el)
        if all(p[0] == 'r' and len(p[1]) == 1 for p in ps):
            n = T.seq_len(ps[0][2])
            if any(T.seq_len(p[2]) is not n for p in ps):
                return None
            k = T.fresh_index()
            el = []
            for p in ps:
                g = T.seq_get(p[2], atom(k))
                el += [it.row_elem(g, i) for i in range(p[1][0])]
            return ('r', (len(el),), T.mkmap(n, k, T.farr((len(el),), el)))
    return None


def parts_of(it, st, v):
    if v.op == 'nds':
        return None
    return it.items(st, v)


@model('np.concatenate', 'np.vstack', 'np.hstack', 'np.stack', 'np.column_stack')
def m_cat(it, st, args, kw, node):
    raise NotImplementedError


def stack_seq(it, st, v):
    """rows of a symbolic-length list of matrices stacked on top of each other"""
    s = it.freeze(st, it.as_seq(st, v))
    if s.op == 'unk':
        return None
    k = T.fresh_index()
    if s.op in ('map', 'symseq', 'rep', 'slc'):
        e = T.seq_get(s, atom(k))
        a = A(it, st, e)
        if a is None or a[0] != 'a':
            return None
        if len(a[1]) == 1:
            return ('r', a[1], T.mkmap(T.seq_len(s), k, e))
        from .interp import flatten_seq
        return ('r', tuple(a[1][1:]), flatten_seq(T.mkmap(T.seq_len(s), k, rows_seq(a))))
    return None


def _mk_cat(name):
    def g(it, st, args, kw, node):
        parts = parts_of(it, st, args[0])
        ax = kwget(kw, 'axis', args, 1, ZERO)
        c = int_value(ax) if ax is not NONE else None
        if parts is None:
            if name in ('np.vstack', 'np.concatenate', 'np.stack') and c == 0:
                r = stack_seq(it, st, args[0])
                if r is not None and not (name == 'np.stack' and len(r[1]) == 0):
                    return out(it, st, r)
            return NotImplemented
        r = None
        if name == 'np.concatenate':
            r = _concat(it, st, parts, c)
        elif name == 'np.hstack':
            As = [A(it, st, p) for p in parts]
            if all(a is not None and (a[0] == 's' or len(a[1]) == 1 and a[0] == 'a') for a in As):
                r = ('a', (sum(1 if a[0] == 's' else a[1][0] for a in As),),
                     [e for a in As for e in ([a[1]] if a[0] == 's' else a[2])])
            elif all(a is not None and a[0] == 'r' and a[1] == () for a in As):
                r = _concat(it, st, parts, 0)
            else:
                r = _concat(it, st, parts, 1)
        elif name in ('np.vstack', 'np.stack'):
            As = [A(it, st, p) for p in parts]
            if c in (1, -1) and name == 'np.stack' and all(a is not None and a[0] != 's' and len(a[1]) + (a[0] == 'r') == 1
                                                           for a in As):
                return MODELS['np.column_stack'](it, st, args[:1], {}, node)
            if c != 0:
                return NotImplemented
            if any(a is None or a[0] == 's' for a in As):
                return NotImplemented
            rows = []
            if all(a[0] == 'r' and a[1] == () for a in As):
                return side_by_side(it, st, As)
            if name == 'np.stack' and any(a[0] == 'r' for a in As):
                return NotImplemented
            if name == 'np.vstack' and any(a[0] == 'r' or len(a[1]) == 2 for a in As):
                ps = [it.new_arr(st, (1,) + tuple(a[1]), a[2]) if a[0] == 'a' and len(a[1]) == 1 else p
                      for a, p in zip(As, parts)]
                r = _concat(it, st, ps, 0)
            elif all(a[0] == 'a' and a[1] == As[0][1] for a in As):
                r = ('a', (len(As),) + tuple(As[0][1]), [e for a in As for e in a[2]])
        elif name == 'np.column_stack':
            As = [A(it, st, p) for p in parts]
            if all(a is not None and a[0] == 'a' and len(a[1]) == 1 for a in As):
                rows = As[0][1][0]
                r = ('a', (rows, len(As)), [a[2][i] for i in range(rows) for a in As])
            elif all(a is not None and a[0] == 'a' and len(a[1]) in (1, 2) for a in As):
                ps = [p if len(a[1]) == 2 else it.new_arr(st, (a[1][0], 1), a[2]) for a, p in zip(As, parts)]
                r = _concat(it, st, ps, 1)
            elif all(a is not None and a[0] == 'r' for a in As):
                ps = [p if a[1] != () else it.new_sarr(st, it.seq_map(a[2], lambda x: T.farr((1,), [x])), (1,))
                      for a, p in zip(As, parts)]
                r = _concat(it, st, ps, 1)
        return NotImplemented if r is None else out(it, st, r)
    return g


for _n in ('np.concatenate', 'np.vstack', 'np.hstack', 'np.stack', 'np.column_stack'):
    MODELS[_n] = _mk_cat(_n)


@model('np.block')
def m_block(it, st, args, kw, node):
    rows = parts_of(it, st, args[0])
    if rows is None or kw or not rows:
        return NotImplemented
    inner = [parts_of(it, st, r) if r.op in ('ref', 'tup', 'flist') and A(it, st, r) is None or
             r.op in ('ref', 'tup', 'flist') and is_list(st, r) else None for r in rows]
    if all(i is None for i in inner):
        return MODELS['np.hstack'](it, st, args, kw, node)
    if any(i is None for i in inner):
        return NotImplemented
    lines = []
    for i in inner:
        v = MODELS['np.hstack'](it, st, [it.new_list(st, T.flist(i))], {}, node)
        if v is NotImplemented:
            return v
        lines.append(v)
    return MODELS['np.vstack'](it, st, [it.new_list(st, T.flist(lines))], {}, node)


def is_list(st, v):
    return v.op in ('tup', 'flist') or v.op == 'ref' and st.heap[v.args[0]].kind == 'list'


def concat_index(it, st, name, idx, node):
    """np.r_[...] and np.c_[...] of plain items"""
    items = list(idx.args) if idx.op == 'tup' else [idx]
    if any(x.op in ('slice', 'const') for x in items):
        return unk('np.' + name)
    r = MODELS['np.hstack' if name == 'r_' else 'np.column_stack'](it, st, [it.new_list(st, T.flist(items))], {}, node)
    return unk('np.' + name) if r is NotImplemented else r


@model('np.einsum')
def m_einsum(it, st, args, kw, node):
    if kw or args[0].op != 'const' or not isinstance(args[0].args[0], str):
        return NotImplemented
    spec = args[0].args[0].replace(' ', '')
    As = [A(it, st, x) for x in args[1:]]
    if any(a is None or a[0] != 'a' for a in As) or '.' in spec:
        return NotImplemented
    if '->' in spec:
        left, right = spec.split('->')
    else:
        left = spec
        right = ''.join(c for c in sorted(set(left) - {','}) if left.count(c) == 1)
    subs = left.split(',')
    dims = {}
    if len(subs) != len(As):
        return NotImplemented
    for sub, a in zip(subs, As):
        if len(sub) != len(a[1]) or len(set(sub)) != len(sub):
            return NotImplemented
        for c, n in zip(sub, a[1]):
            if dims.setdefault(c, n) != n:
                return NotImplemented
    inner = [c for c in dims if c not in right]
    import itertools

    def term(e):
        t = ONE
        for sub, a in zip(subs, As):
            k = 0
            for c, n in zip(sub, a[1]):
                k = k * n + e[c]
            t = s_mul(t, a[2][k])
        return t
    res = []
    for o in itertools.product(*[range(dims[c]) for c in right]):
        e = dict(zip(right, o))
        v = ZERO
        for i in itertools.product(*[range(dims[c]) for c in inner]):
            v = s_add(v, term({**e, **dict(zip(inner, i))}))
        res.append(v)
    return out(it, st, ('a', tuple(dims[c] for c in right), res))


@model('np.atleast_2d')
def m_atleast_2d(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is None or len(args) != 1:
        return NotImplemented
    if a[0] == 'a' and len(a[1]) == 1:
        return it.new_arr(st, (1,) + tuple(a[1]), a[2])
    if a[0] == 'a' and len(a[1]) == 2 or a[0] == 'r' and len(a[1]) == 1:
        return args[0] if args[0].op in ('nd', 'nds') else NotImplemented
    return NotImplemented


@model('np.count_nonzero')
def m_count_nonzero(it, st, args, kw, node):
    if kw or len(args) != 1:
        return NotImplemented
    a = A(it, st, args[0])
    if a is None or a[0] == 's':
        return NotImplemented
    one = lambda x: lift(lambda y: ONE if y is TRUE else ZERO, tb(x))
    if a[0] == 'a':
        r = ZERO
        for x in a[2]:
            r = s_add(r, one(x))
        return r
    if a[1] != ():
        return NotImplemented
    return total(it, ('r', (), it.seq_map(a[2], one)))


@model('np.cumsum', 'ndarray.cumsum')
def m_cumsum(it, st, args, kw, node):
    a = A(it, st, args[0])
    if len(args) > 1 or kw or a is None or a[0] == 's' or len(a[1]) + (a[0] == 'r') != 1:
        return NotImplemented
    if a[0] == 'a':
        r = []
        for x in a[2]:
            r.append(s_add(r[-1], as_num(x)) if r else as_num(x))
        return it.new_arr(st, a[1], r)
    n = T.seq_len(a[2])
    if n.op != 'rat':
        return NotImplemented
    k, j = T.fresh_index(), T.fresh_index()
    return it.new_sarr(st, T.mkmap(n, k, T.mksum(T.radd(atom(k), ONE), j, as_num(T.seq_get(a[2], atom(j))))), ())


def flat_seq(it, st, v):
    """elements of a number or of a one-dimensional array"""
    a = A(it, st, v)
    if a is None or a[0] != 's' and len(a[1]) + (a[0] == 'r') != 1:
        return None
    return T.flist([a[1]]) if a[0] == 's' else T.flist(a[2]) if a[0] == 'a' else a[2]


@model('np.insert')
def m_insert(it, st, args, kw, node):
    if len(args) != 3 or kw:
        return NotImplemented
    s, x = flat_seq(it, st, args[0]), flat_seq(it, st, args[2])
    if s is None or x is None or args[1].op != 'rat' or T.seq_len(s).op != 'rat':
        return NotImplemented
    n = T.seq_len(s)
    i = norm_index(args[1], n)
    return out(it, st, rowseq(T.seq_cat(T.seq_slice(s, ZERO, i), x, T.seq_slice(s, i, n))))


def rowseq(s):
    return ('a', (len(s.args),), list(s.args)) if s.op == 'flist' else ('r', (), s)


@model('np.tile')
def m_tile(it, st, args, kw, node):
    a = A(it, st, args[0])
    c = int_value(args[1]) if len(args) == 2 and args[1].op == 'rat' else None
    if a is None or a[0] != 'a' or len(a[1]) != 1:
        return NotImplemented
    if c is not None and 0 <= c <= 64:
        return it.new_arr(st, (a[1][0] * c,), list(a[2]) * c)
    cs = [int_value(x) if x.op == 'rat' else None for x in args[1].args] if len(args) == 2 and args[1].op == 'tup' else []
    if len(cs) == 2 and cs[0] is not None and cs[1] is not None and 0 <= cs[0] * cs[1] <= 64:
        return it.new_arr(st, (cs[0], a[1][0] * cs[1]), list(a[2]) * (cs[0] * cs[1]))
    return NotImplemented


@model('np.repeat')
def m_repeat(it, st, args, kw, node):
    a = A(it, st, args[0])
    c = int_value(args[1]) if len(args) == 2 and not kw and args[1].op == 'rat' else None
    if a is None or a[0] == 'r' or c is None or not 0 <= c <= 64:
        return NotImplemented
    el = [a[1]] if a[0] == 's' else a[2]
    return it.new_arr(st, (len(el) * c,), [x for x in el for _ in range(c)])


@model('np.fliplr')
def m_fliplr(it, st, args, kw, node):
    if args[0].op not in ('nd', 'nds') or len(args) > 1:
        return NotImplemented
    every = mk('slice', NONE, NONE, NONE)
    return arr_get(it, st, args[0], tup([every, mk('slice', NONE, NONE, num(-1))]), node)


@model('tuple._replace')
def m_treplace(it, st, args, kw, node):
    v = list(args[0].args)
    for a, x in kw.items():
        i = T.field(a, len(v))
        if i is None:
            return NotImplemented
        v[i] = x
    return tup(v)


@model('callable')
def m_callable(it, st, args, kw, node):
    return TRUE if args[0].op in ('fn', 'bi', 'cls', 'bound', 'partial', 'lambda') else \
        FALSE if args[0].op in ('rat', 'const', 'nd', 'nds', 'tup') else NotImplemented


@model('repr')
def m_repr(it, st, args, kw, node):
    v = args[0]
    return T.const(repr(v.args[0])) if v.op == 'const' and isinstance(v.args[0], (str, bool, type(None))) else NotImplemented


@model('np.append')
def m_append(it, st, args, kw, node):
    ax = kwget(kw, 'axis', args, 2, NONE)
    a, b = args[0], args[1]
    if ax is NONE:
        As = [A(it, st, a), A(it, st, b)]
        if any(x is None for x in As):
            return NotImplemented
        if all(x[0] in ('a', 's') for x in As):
            return it.new_arr(st, (sum(1 if x[0] == 's' else len(x[2]) for x in As),),
                              [e for x in As for e in ([x[1]] if x[0] == 's' else x[2])])
        ss = [flat_seq(it, st, a), flat_seq(it, st, b)]
        return NotImplemented if None in ss else it.new_sarr(st, T.seq_cat(*ss), ())
    r = _concat(it, st, [a, b], int_value(ax))
    return NotImplemented if r is None else out(it, st, r)


@model('np.delete')
def m_delete(it, st, args, kw, node):
    a = A(it, st, args[0])
    ax = kwget(kw, 'axis', args, 2, NONE)
    if a is not None and a[0] == 'r' and a[1] == () and args[1].op == 'rat' and T.seq_len(a[2]).op == 'rat':
        n = T.seq_len(a[2])
        i = norm_index(args[1], n)
        return it.new_sarr(st, T.seq_cat(T.seq_slice(a[2], ZERO, i), T.seq_slice(a[2], T.radd(i, ONE), n)), ())
    if a is None or a[0] != 'a' or len(a[1]) != 1:
        return NotImplemented
    c = int_value(args[1]) if args[1].op == 'rat' else None
    if c is None:
        return NotImplemented
    el = list(a[2])
    del el[c]
    return it.new_arr(st, (len(el),), el)


@model('np.roll')
def m_roll(it, st, args, kw, node):
    a = A(it, st, args[0])
    c = int_value(args[1]) if args[1].op == 'rat' else None
    if a is None or a[0] != 'a' or len(a[1]) != 1 or c is None:
        return NotImplemented
    n = a[1][0]
    return it.new_arr(st, (n,), [a[2][(i - c) % n] for i in range(n)])


@model('np.flip', 'np.flipud')
def m_flip(it, st, args, kw, node):
    a = A(it, st, args[0])
    if a is not None and a[0] == 'r' and a[1] == ():
        n = T.seq_len(a[2])
        if n.op == 'rat':
            k = T.fresh_index()
            return it.new_sarr(st, T.mkmap(n, k, T.seq_get(a[2], T.rsub(T.rsub(n, ONE), atom(k)))), a[1])
    if a is None or a[0] != 'a' or len(a[1]) != 1:
        return NotImplemented
    return it.new_arr(st, a[1], list(reversed(a[2])))


@model('copy.deepcopy', 'copy.copy')
def m_deepcopy(it, st, args, kw, node):
    v = args[0]
    if v.op in ('nd', 'nds'):
        return out(it, st, A(it, st, v))
    if islist(st, v) and st.heap[v.args[0]].data.op == 'flist' and st.heap[v.args[0]].dtype != 'iter':
        # objects of a known list stay separate objects
        new = {x: it.thaw(st, it.freeze(st, x)) for x in dict.fromkeys(st.heap[v.args[0]].data.args)}
        return it.new_list(st, T.flist([new[x] for x in st.heap[v.args[0]].data.args]))
    return it.thaw(st, it.freeze(st, v))


def m_shallow(it, st, args, kw, node):
    from .interp import Obj
    v = args[0]
    if v.op == 'ref':
        o = st.heap[v.args[0]]
        if o.kind in ('inst',):
            return it.alloc(st, Obj('inst', dict(o.data), cls=o.cls))
        if o.kind in ('list', 'dict'):
            return it.alloc(st, o.w(o.data))
    return m_deepcopy(it, st, args, kw, node)


MODELS['copy.copy'] = m_shallow
MODELS['list.copy'] = m_shallow
MODELS['dict.copy'] = m_shallow


@model('list.append')
def m_lappend(it, st, args, kw, node):
    if args[0].op == 'ref':
        list_append(it, st, args[0], args[1])
    return NONE


@model('list.extend')
def m_lextend(it, st, args, kw, node):
    list_extend(it, st, args[0], args[1])
    return NONE


@model('list.insert')
def m_linsert(it, st, args, kw, node):
    l, i, v = args
    o = st.heap[l.args[0]]
    s = o.data
    n = T.seq_len(s)
    i = norm_index(i, n)
    if i.op != 'rat' or s.op in ('dec', 'unk'):
        it.write(st, l.args[0], o.w(unk('insert')))
        return NONE
    it.write(st, l.args[0], o.w(T.seq_cat(T.seq_slice(s, ZERO, i), T.flist([v]), T.seq_slice(s, i, n))))
    return NONE


@model('list.pop', 'dict.pop')
def m_lpop(it, st, args, kw, node):
    return list_pop(it, st, args[0], args[1] if len(args) > 1 else None, args[2] if len(args) > 2 else None)


@model('list.reverse')
def m_lreverse(it, st, args, kw, node):
    o = st.heap[args[0].args[0]]
    s = o.data
    n = T.seq_len(s)
    if s.op == 'flist':
        r = T.flist(list(reversed(s.args)))
    elif n.op == 'rat':
        k = T.fresh_index()
        r = T.mkmap(n, k, T.seq_get(s, T.rsub(T.rsub(n, ONE), atom(k))))
    else:
        r = unk('reverse')
    it.write(st, args[0].args[0], o.w(r))
    return NONE


@model('list.clear')
def m_lclear(it, st, args, kw, node):
    o = st.heap[args[0].args[0]]
    it.write(st, args[0].args[0], o.w(T.flist([])))
    return NONE


@model('list.index', 'tuple.index')
def m_lindex(it, st, args, kw, node):
    items = it.items(st, args[0])
    if items is None or len(args) != 2:
        return NotImplemented
    es = []
    for i in items:
        e = compare(it, st, ast.Eq(), args[1], i, None)
        if e.op == 'unk':
            return e
        es.append(it.truth(st, e))
    if all(e is FALSE for e in es):
        from .interp import Raises
        raise Raises('value not in the list')
    r = num(len(es) - 1)
    for i in range(len(es) - 1, -1, -1):
        r = ite(es[i], num(i), r)
    return r


@model('list.count', 'tuple.count')
def m_lcount(it, st, args, kw, node):
    items = it.items(st, args[0])
    if items is None:
        return NotImplemented
    r = ZERO
    for i in items:
        e = compare(it, st, ast.Eq(), args[1], i, None)
        if e.op == 'unk':
            return e
        r = s_add(r, ite(it.truth(st, e), ONE, ZERO))
    return r


@model('dict.keys')
def m_dkeys(it, st, args, kw, node):
    return it.new_list(st, T.flist([k for k, _ in st.heap[args[0].args[0]].data]))


@model('dict.values')
def m_dvalues(it, st, args, kw, node):
    return it.new_list(st, T.flist([v for _, v in st.heap[args[0].args[0]].data]))


@model('dict.items')
def m_ditems(it, st, args, kw, node):
    return it.new_list(st, T.flist([tup([k, v]) for k, v in st.heap[args[0].args[0]].data]))


def m_dview(f):
    def g(it, st, args, kw, node):
        if dict_keys(st.heap[args[0].args[0]]) is None:
            return unk('entries of a dictionary')
        return f(it, st, args, kw, node)
    return g


for _n in ('dict.keys', 'dict.values', 'dict.items'):
    MODELS[_n] = m_dview(MODELS[_n])
    MODELS['dict.iter' + _n[5:]] = MODELS[_n]


@model('dict.setdefault')
def m_dsetdefault(it, st, args, kw, node):
    l = args[0].args[0]
    o = st.heap[l]
    f = it.freeze(st, args[1])
    x = args[2] if len(args) > 2 else NONE
    v = dict_find(it, st, args[0], f)
    if v is None or v.unk:
        return NotImplemented
    if not maybe_undef(v):
        return v
    x = or_else(v, x)
    d = dict(o.data)
    d[f] = x
    it.write(st, l, o.w(tuple(d.items())))
    it.link(st, x, l)
    return x


@model('dict.update')
def m_dupdate(it, st, args, kw, node):
    l = args[0].args[0]
    o = st.heap[l]
    d = dict(o.data)
    for a in args[1:]:
        a = it.thaw(st, a) if a.op == 'fdict' else a
        if a.op == 'ref' and st.heap[a.args[0]].kind == 'dict':
            if dict_keys(st.heap[a.args[0]]) is None:
                return NotImplemented
            d.update(dict(st.heap[a.args[0]].data))
        else:
            s = it.as_seq(st, a)
            if s.op != 'flist' or not all(x.op == 'tup' and len(x.args) == 2 for x in s.args):
                return NotImplemented
            d.update((it.freeze(st, x.args[0]), x.args[1]) for x in s.args)
    for k, v in kw.items():
        d[T.const(k)] = v
    if len(d) > len(o.data) and not all(fixed(k) for k in d):
        return NotImplemented
    it.write(st, l, o.w(tuple(d.items())))
    return NONE


@model('collections.defaultdict')
def m_defaultdict(it, st, args, kw, node):
    from .interp import Obj
    if len(args) != 1 or kw:
        return NotImplemented
    return it.alloc(st, Obj('dict', (), cls=('default', args[0])))


@model('dict.get')
def m_dget(it, st, args, kw, node):
    f = it.freeze(st, args[1])
    dflt = args[2] if len(args) > 2 else NONE
    v = dict_find(it, st, args[0], f)
    if v is not None:
        return or_else(v, dflt) if maybe_undef(v) else v
    return T.app('dictget', it.freeze(st, args[0]), f, it.freeze(st, dflt))


@model('dict', 'collections.OrderedDict')
def m_dict(it, st, args, kw, node):
    from .interp import Obj
    if args:
        if args[0].op == 'ref' and st.heap[args[0].args[0]].kind == 'dict':
            d = dict(st.heap[args[0].args[0]].data)
        else:
            s = it.as_seq(st, args[0])
            if s.op == 'flist' and all(x.op == 'tup' and len(x.args) == 2 for x in s.args):
                d = dict((it.freeze(st, x.args[0]), x.args[1]) for x in s.args)
            else:
                return NotImplemented
    else:
        d = {}
    for k, v in kw.items():
        d[T.const(k)] = v
    return it.alloc(st, Obj('dict', tuple(d.items())))


@model('type')
def m_type(it, st, args, kw, node):
    v = args[0]
    if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst':
        c = st.heap[v.args[0]].cls
        return mk('cls', c[0], c[1])
    if v.op == 'dec':
        return it.lift_st(st, lambda s, x: m_type(it, s, [x], kw, node), v)
    if v.op in ('nd', 'nds'):
        return mk('bi', 'np.ndarray')
    if v.op == 'rat':
        return mk('bi', 'float')
    return T.app('type', it.freeze(st, v))


@model('getattr')
def m_getattr(it, st, args, kw, node):
    if args[1].op == 'const':
        r = it.getattr(st, args[0], args[1].args[0], node)
        if r.op == 'unk' and len(args) > 2:
            return args[2]
        return r
    return NotImplemented


@model('setattr')
def m_setattr(it, st, args, kw, node):
    if args[1].op == 'const':
        it.setattr(st, args[0], args[1].args[0], args[2], node=node)
        return NONE
    return NotImplemented


@model('hasattr')
def m_hasattr(it, st, args, kw, node):
    if args[1].op == 'const' and args[0].op in ('ref', 'nd', 'nds', 'cls'):
        r = it.getattr(st, args[0], args[1].args[0], node)
        return FALSE if r.op == 'unk' else TRUE
    return NotImplemented


def order(it, st, s, key=None, reverse=False, node=None):
    """positions of the elements of a sequence of numbers in increasing order"""
    n = T.seq_len(s)
    if n.op != 'rat':
        return None
    c = int_value(n)
    k = T.fresh_index()
    keys = s
    if key is not None:
        if c is not None and c <= it.unroll:
            keys = T.flist([it.freeze(st, it.call(st, key, [T.seq_get(s, num(i))], {}, node)) for i in range(c)])
        else:
            v = it.freeze(st, it.call(st, key, [T.seq_get(s, atom(k))], {}, node))
            if v.op == 'unk':
                return None
            keys = T.mkmap(n, k, v)
    probe = [T.seq_get(keys, num(i)) for i in range(c)] if c is not None and c <= it.unroll else \
        [T.seq_get(keys, atom(k))]
    if not all(x.op in ('rat', 'dec') for x in probe):
        return None
    return mk('symseq', mk('app', 'order', keys, TRUE if reverse else FALSE), n, 'num'), n


def in_order(it, st, s, key=None, reverse=False, node=None):
    if s.op == 'flist' and key is None and all(x.op == 'rat' and const_value(x) is not None for x in s.args):
        return T.flist(sorted(s.args, key=const_value, reverse=reverse))
    if s.op == 'flist' and key is None and all(x.op == 'const' and isinstance(x.args[0], str) for x in s.args):
        return T.flist(sorted(s.args, key=lambda x: x.args[0], reverse=reverse))
    if s.op == 'flist' and len(s.args) < 2:
        return s
    if s.op == 'map' and key is None and not reverse and s.args[2] is atom(s.args[1]):
        return s
    r = order(it, st, s, key, reverse, node)
    if r is None:
        return None
    c = int_value(r[1])
    if c is not None and c <= it.unroll:
        return T.flist([T.seq_get(s, T.seq_get(r[0], num(i))) for i in range(c)])
    k = T.fresh_index()
    return T.mkmap(r[1], k, T.seq_get(s, T.seq_get(r[0], atom(k))))


def _order_options(kw):
    key, rev = kw.get('key', NONE), kw.get('reverse', FALSE)
    if set(kw) - {'key', 'reverse'} or rev not in (TRUE, FALSE):
        return None
    return (None if key is NONE else key), rev is TRUE


@model('sorted')
def m_sorted(it, st, args, kw, node):
    v = args[0]
    if set_items(v) is not None:
        v = tup(set_items(v))
    elif v.op == 'app' and v.args[0] == 'set' and len(v.args) == 2 and not kw and v.args[1].op not in ('flist', 'cat'):
        v = v.args[1]
    o = _order_options(kw)
    if o is None or v.op in ('app', 'unk'):
        return NotImplemented
    s = it.freeze(st, it.as_seq(st, v))
    if s.op in ('app', 'unk'):
        return NotImplemented
    r = in_order(it, st, s, o[0], o[1], node)
    return NotImplemented if r is None else it.new_list(st, r)


@model('list.sort')
def m_lsort(it, st, args, kw, node):
    o = _order_options(kw)
    ob = st.heap[args[0].args[0]]
    r = None if o is None or len(args) > 1 else in_order(it, st, ob.data, o[0], o[1], node)
    it.write(st, args[0].args[0], ob.w(unk('sort') if r is None else r))
    return NONE


def _one_row(it, st, args, kw):
    a = A(it, st, args[0])
    if a is None or len(args) > 1 or kw or a[0] == 's' or (a[0] == 'a' and len(a[1]) != 1) or \
            (a[0] == 'r' and a[1] != ()):
        return None
    return seqterm(it, a)


@model('np.sort')
def m_npsort(it, st, args, kw, node):
    a = _one_row(it, st, args, kw)
    if a is None:
        return NotImplemented
    r = in_order(it, st, a, node=node)
    return NotImplemented if r is None else out(it, st, ('r', (), r))


@model('np.argsort', 'ndarray.argsort')
def m_argsort(it, st, args, kw, node):
    a = _one_row(it, st, args, kw)
    if a is None:
        return NotImplemented
    r = order(it, st, a, node=node)
    return NotImplemented if r is None else it.new_sarr(st, r[0], ())


@model('set', 'frozenset')
def m_set(it, st, args, kw, node):
    if not args:
        return mk('app', 'set')
    s = it.freeze(st, it.as_seq(st, args[0]))
    return T.app('set', s)


@model('functools.partial')
def m_partial(it, st, args, kw, node):
    return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))


@model('functools.reduce', 'reduce')
def m_reduce(it, st, args, kw, node):
    items = it.items(st, args[1])
    if items is None:
        return NotImplemented
    items = list(items)
    if len(args) > 2:
        r = args[2]
    else:
        r = items.pop(0)
    for x in items:
        r = it.call(st, args[0], [r, x], {}, node)
    return r


@model('numpy.testing.assert_allclose', 'np.testing.assert_allclose', 'np.testing.assert_equal')
def m_assert_allclose(it, st, args, kw, node):
    from .interp import Assertion
    a, b = A(it, st, args[0]), A(it, st, args[1])
    rt = as_num(kwget(kw, 'rtol', args, 2, num(1e-7)))
    at = as_num(kwget(kw, 'atol', args, 3, ZERO))
    r = allclose(it, a, b, rt, at)
    if r is not NotImplemented:
        it.asserts.append(Assertion(r, it.cur_pc(st), node, it.fname(), True))
    return NONE


@model('operator.mul')
def m_opmul(it, st, args, kw, node):
    return it.binop(st, ast.Mult(), args[0], args[1], node)


@model('operator.add')
def m_opadd(it, st, args, kw, node):
    return it.binop(st, ast.Add(), args[0], args[1], node)


@model('object.__init__', 'plt.close')
def m_none(it, st, args, kw, node):
    return NONE


def _population(it, st, v):
    """sequence a sample or combination is drawn from"""
    if v.op == 'app' and v.args[0] == 'set' and len(v.args) == 2:
        v = v.args[1]
    if v.op in ('app', 'unk', 'sym'):
        return None
    s = it.freeze(st, it.as_seq(st, v))
    return None if s.unk else s


def _draw(it, st):
    """number of draws taken from the generator so far"""
    o = st.heap.get(0)
    if o is None:
        return None
    n = o.data['n']
    st.heap[0] = o.w({'n': s_add(n, T.ONE)})
    return n


def _sample(it, st, s, k, name='positions'):
    d = _draw(it, st)
    if s is None or d is None or k.op != 'rat':
        return unk('random sample')
    pos = mk('symseq', mk('app', name, T.seq_len(s), k, d), k, 'num')
    j = T.fresh_index()
    c = int_value(k)
    if c is not None and c <= it.unroll:
        return it.new_list(st, T.flist([T.seq_get(s, T.seq_get(pos, num(i))) for i in range(c)]))
    return it.new_list(st, T.mkmap(k, j, T.seq_get(s, T.seq_get(pos, atom(j)))))


@model('random.sample')
def m_random_sample(it, st, args, kw, node):
    k = as_rat(kwget(kw, 'k', args, 1, ZERO))
    return _sample(it, st, _population(it, st, args[0]), k)


@model('random.choices')
def m_random_choices(it, st, args, kw, node):
    if 'weights' in kw or 'cum_weights' in kw or len(args) > 1:
        return NotImplemented
    return _sample(it, st, _population(it, st, args[0]), as_rat(kw.get('k', T.ONE)), 'choices')


@model('random.randrange', 'random.randint')
def m_randrange(it, st, args, kw, node):
    return unk('random number')


@model('np.random.choice')
def m_random_choice(it, st, args, kw, node):
    k = kwget(kw, 'size', args, 1, None)
    rep = kwget(kw, 'replace', args, 2, TRUE)
    if k is None or rep not in (TRUE, FALSE) or 'p' in kw or len(args) > 3:
        return NotImplemented
    s = args[0]
    if s.op == 'rat':
        j = T.fresh_index()
        s = T.mkmap(s, j, atom(j))
    else:
        s = _population(it, st, s)
    return _sample(it, st, s, as_rat(k), 'choices' if rep is TRUE else 'positions')


@model('itertools.combinations')
def m_combinations(it, st, args, kw, node):
    s = _population(it, st, args[0])
    r = as_rat(kwget(kw, 'r', args, 1, ZERO))
    if s is None or r.op != 'rat':
        return unk('combinations')
    n = T.seq_len(s)
    if s.op == 'flist' and T.int_value(r) is not None and len(s.args) <= 8:
        return it.new_list(st, T.flist([tup(x) for x in itertools.combinations(s.args, T.int_value(r))]))
    def get(s2, k):
        j = T.fresh_index()
        e = T.seq_get(s, atom(mk('app', 'combination', n, r, k, atom(j))))
        return it.new_list(s2, T.mkmap(r, j, e))
    return it.new_iter(atom(mk('app', 'ncombinations', n, r)), get)
