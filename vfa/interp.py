"""Gated value-flow analysis of Python functions.

One forward pass over the structured control flow of a function computes, for
every variable and heap cell, its value number (see terms.py).  Branches are
joined with gated phi functions, loops are summarised once (sequence maps,
filters, reductions, recurrences), calls to functions of the analysed tree are
inlined, calls to the outside are uninterpreted (congruent) applications or
modelled (npmodel.py).  Nothing is executed.
"""
import ast
import builtins
import errno
from . import terms as T
from .repo import desugar, fields_of
from .terms import (mk, num, sym, atom, unk, tup, ite, band, bor, bnot, TRUE, FALSE, NONE,
                    ZERO, ONE, as_rat, lift, Term, TooBig, int_value, const_value, Raises)

UNDEF = mk('const', '<undefined>')


class Obj(object):
    """Immutable heap record."""
    __slots__ = ('kind', 'cls', 'data', 'shape', 'dtype')

    def __init__(self, kind, data, cls=None, shape=None, dtype='f'):
        self.kind = kind      # inst | list | arr | sarr | dict
        self.data = data
        self.cls = cls
        self.shape = shape    # arr: full shape, sarr: inner shape
        self.dtype = dtype

    def w(self, data):
        return Obj(self.kind, data, self.cls, self.shape, self.dtype)


class Frame(object):
    """variables of a running (or finished) function as its inner functions see them"""
    __slots__ = ('env', 'parent', 'cells', 'fallback')

    def __init__(self, env, parent, fallback=None):
        self.env = env
        self.parent = parent
        self.cells = {}
        self.fallback = fallback

    def cell(self, name):
        f = self
        while f is not None:
            if name in f.cells:
                return f.cells[name]
            f = f.parent
        return None


class State(object):
    __slots__ = ('env', 'heap', 'pc', 'origin')

    def __init__(self, env, heap, pc=TRUE, origin=None):
        self.env = env
        self.heap = heap
        self.pc = pc
        self.origin = {} if origin is None else origin

    def fork(self, cond):
        return State(dict(self.env), dict(self.heap), band(self.pc, cond), dict(self.origin))


class Flow(object):
    """Outcomes of a block: fallthrough state and abrupt exits."""
    __slots__ = ('next', 'ret', 'brk', 'cont')

    def __init__(self, nxt=None):
        self.next = nxt
        self.ret = []     # (state, value)
        self.brk = []
        self.cont = []

    def absorb(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont


def stored_names(tree, outer=False):
    """names bound anywhere in a function (or, with outer, at module level), in any order"""
    r = set()
    todo = [tree]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            r.add(n.name)
        elif isinstance(n, ast.arg):
            r.add(n.arg)
        elif isinstance(n, ast.alias):
            if n.name == '*':
                return Everything()
            r.add(n.asname or n.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            r.update(n.names)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            todo.append(n.value)
            continue
        for ch in ast.iter_child_nodes(n):
            if outer and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                # only names declared global inside functions reach the module
                for g in ast.walk(ch):
                    if isinstance(g, ast.Global):
                        r.update(g.names)
                continue
            todo.append(ch)
    return r


def module_part(m, name):
    """top level statements that define the name, None if a single assignment does"""
    out, plain = [], True
    for n in m.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(n, ast.If) and '__main__' in ast.dump(n.test):
            continue
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            continue
        target = isinstance(n, (ast.Assign, ast.AnnAssign)) and any(
            isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))
        if target:
            out.append(n)
        elif isinstance(n, (ast.For, ast.While, ast.If, ast.With, ast.AugAssign, ast.Assign, ast.Expr, ast.Try)) and \
                any(isinstance(x, ast.Name) and x.id == name and changed_by(n, x) for x in ast.walk(n)):
            out.append(n)
            plain = False
    if plain and len(out) <= 1:
        return None
    return out


def changed_by(n, x):
    """the statement may change the variable or the object it names"""
    for y in ast.walk(n):
        if y is x and isinstance(x.ctx, ast.Store):
            return True
        if isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, ast.Store):
            b = y
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if b is x:
                return True
        if isinstance(y, ast.AugAssign) and y.target is x:
            return True
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in CHANGERS:
            b = y.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if b is x:
                return True
    return False


CHANGERS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'add',
            'discard', 'fill', 'setflags'}


class Everything(object):
    def __contains__(self, x):
        return True


class Loop(object):
    """Summary of one analysed loop (used by relational rules)."""

    def __init__(self):
        self.cells = {}     # name -> (init, mu, end)
        self.trip = None
        self.k = None
        self.node = None
        self.func = None
        self.exits = []
        self.final = {}


class Assertion(object):
    def __init__(self, cond, pc, node, func, explicit):
        self.cond = cond
        self.pc = pc
        self.node = node
        self.func = func
        self.explicit = explicit


def pure_call(n):
    f = n.func
    return isinstance(f, ast.Name) and f.id in ('print', 'len', 'abs', 'min', 'max', 'float', 'int', 'sum', 'str') or \
        isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'math')


class Raised(tuple):
    """failure noted at (condition, node, function, reason), with its exception if known"""

    def __new__(cls, t, exc=None, at=None):
        r = tuple.__new__(cls, t)
        r.exc = exc
        r.at = at           # (depth of the frame, state) there
        return r


# library exceptions: direct builtin base
LIBEXC = {'subprocess.CalledProcessError': Exception, 'subprocess.TimeoutExpired': Exception,
          'subprocess.SubprocessError': Exception, 'argparse.ArgumentTypeError': Exception, 'yaml.YAMLError': Exception,
          'select.error': OSError, 'socket.error': OSError, 'os.error': OSError, 'json.JSONDecodeError': ValueError,
          'np.linalg.LinAlgError': ValueError, 'numpy.linalg.LinAlgError': ValueError}


def exc_base(name):
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return c
    for k, v in LIBEXC.items():
        if name in (k, k.split('.', 1)[1]):
            return v
    return None


ITEMS = ast.parse('[x for x in it]', mode='eval').body
for _x in ast.walk(ITEMS):
    if isinstance(_x, ast.Name):
        _x.id = '%' + _x.id


def catches(h, exc):
    """whether an exception handler takes this exception (None: not known)"""
    if h.type is None:
        return True
    if exc is None:
        return None
    r = False
    for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
        n = ast.unparse(t)
        if n == exc[0] or n in ('Exception', 'BaseException') and exc[0].split('.')[-1] not in (
                'SystemExit', 'KeyboardInterrupt', 'GeneratorExit'):
            return True
        b, e = exc_base(n), exc_base(exc[0])
        if b is None or e is None:
            r = None
        elif hasattr(builtins, n):
            if issubclass(e, b):
                return True
        elif n.split('.')[-1] == exc[0].split('.')[-1]:
            return True
        elif n.endswith('SubprocessError') and exc[0].split('.')[-1] in ('CalledProcessError', 'TimeoutExpired'):
            return True
    return r


def changes(node):
    """method call that changes its receiver"""
    return isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in (
        'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'add', 'discard')


NUMBER = set(dir(0.0)) | set(dir(0)) | set('''all any argmax argmin argsort astype base byteswap choose clip compress
copy cumprod cumsum data diagonal dtype dump dumps fill flags flat flatten getfield item itemset itemsize max mean min nbytes
ndim newbyteorder nonzero prod ptp put ravel repeat reshape resize round searchsorted setfield setflags shape size sort
squeeze std strides sum swapaxes T take tobytes tofile tolist tostring trace transpose var view'''.split())


class Interp(object):
    MAXDEPTH = 24

    def __init__(self, repo, opaque=None, models=None):
        self.repo = repo
        self.opaque = dict(opaque or {})    # function name -> model(interp, state, args, kwargs)
        self.nloc = 0
        self.closures = []
        self.iters = []
        self.effects = []       # (pc, kind, data, node, func)
        self.asserts = []
        self.loops = []
        self.raises = []        # (pc, node, func)
        self.stack = []         # (module, funcname, state-pc)
        self.gpc = [TRUE]
        self.trips = {}         # loop index -> number of iterations
        self.modcache = {}
        self.notes = []
        self.calls = 0
        self.funcs = {}
        self.stmts = 0
        self.callsites = []
        self.unroll = 64
        self.raised_at = None
        self.handling = []
        self.explicit_raises = False    # handlers are entered for known failures only
        self.gnames = []        # names declared global in the functions on the stack
        from . import npmodel
        self.np = npmodel
        self.models = dict(models or {})

    # ------------------------------------------------------------ heap
    def alloc(self, st, obj):
        self.nloc += 1
        st.heap[self.nloc] = obj
        return mk('ref', self.nloc)

    def new_arr(self, st, shape, elems, dtype='f'):
        shape = tuple(shape)
        self.nloc += 1
        st.heap[self.nloc] = Obj('arr', tuple(elems), shape=shape, dtype=dtype)
        n = 1
        for d in shape:
            n *= d
        return mk('nd', self.nloc, None, shape, tuple(range(n)))

    def new_sarr(self, st, seq, inner):
        self.nloc += 1
        inner = tuple(inner)
        st.heap[self.nloc] = Obj('sarr', seq, shape=inner)
        n = 1
        for d in inner:
            n *= d
        return mk('nds', self.nloc, None, inner, tuple(range(n)))

    def new_list(self, st, seq):
        return self.alloc(st, Obj('list', seq))

    def write(self, st, loc, obj):
        """Update a heap record and write through to the list it came from."""
        st.heap[loc] = obj
        self.writeback(st, loc)

    def writeback(self, st, loc):
        o = st.origin.get(loc)
        if o is None:
            return
        kind, owner, where = o
        own = st.heap.get(owner)
        if own is None:
            return
        if kind == 'list' and own.kind in ('list', 'sarr'):
            v = self.freeze_loc(st, loc)
            st.heap[owner] = own.w(T.seq_store(own.data, where, v))
            self.writeback(st, owner)
        elif kind == 'attr':
            self.writeback(st, owner)

    def record(self, o):
        """fields of an object of a named tuple type, else None"""
        k = self._records.get(o.cls)
        if k is None and o.cls is not None:
            f = self.cls_find(o.cls, '_vfa_tuple') if o.cls[0] in self.repo.modules else None
            k = self._records[o.cls] = ast.literal_eval(f[1]) if f else ()
        return k if k and all(a in o.data for a in k) else None

    _records = {}

    # ------------------------------------------------------------ freeze / thaw
    def freeze_loc(self, st, loc, seen=()):
        o = st.heap[loc]
        if loc in seen:
            return unk('cyclic object')
        seen = seen + (loc,)
        if o.kind == 'inst':
            t = self.record(o)
            if t is not None:
                return tup([self.freeze(st, o.data[a], seen) for a in t])
            return T.fobj(o.cls, {a: self.freeze(st, v, seen) for a, v in o.data.items()})
        if o.kind == 'list':
            return self.freeze(st, o.data, seen)
        if o.kind == 'arr':
            return T.farr(o.shape, [self.freeze(st, x, seen) for x in o.data])
        if o.kind == 'sarr':
            return mk('fsarr', o.shape, o.data)
        if o.kind == 'dict':
            return mk('fdict', tuple((k, self.freeze(st, v, seen)) for k, v in o.data))
        if o.kind == 'box':
            return self.freeze(st, o.data, seen)
        return unk('object')

    def freeze(self, st, t, seen=()):
        op = t.op
        if op == 'ref':
            if t.args[0] not in st.heap:
                return unk('dangling')
            return self.freeze_loc(st, t.args[0], seen)
        if op == 'nd':
            return T.farr(t.args[2], [self.freeze(st, x, seen) for x in self.nd_elems(st, t)])
        if op == 'nds':
            return mk('fsarr', t.args[2], self.nds_seq(st, t))
        if op == 'dec':
            r = lift(lambda x: self.freeze(st, x, seen), t)
            if r.op == 'dec':
                k = T.kind_of(r)
                if k is not None:
                    r = self.push_in(r, k)
            return r
        if op in ('tup', 'flist'):
            return mk(op, *[self.freeze(st, x, seen) for x in t.args])
        if op == 'it':
            n, get = self.iters[t.args[0]]
            k = T.fresh_index()
            return T.mkmap(n, k, self.freeze(st, get(st, atom(k)), seen))
        if op in ('map', 'cat', 'store', 'slc', 'rep', 'filt') and self.has_ref(t):
            if op == 'map':
                k = T.fresh_index()
                b = T.subst(t.args[2], {t.args[1]: atom(k)})
                return T.mkmap(t.args[0], k, self.freeze(st, b, seen))
            if op == 'cat':
                return T.seq_cat(*[self.freeze(st, x, seen) for x in t.args])
            if op == 'store':
                return T.seq_store(self.freeze(st, t.args[0], seen), t.args[1],
                                   self.freeze(st, t.args[2], seen))
            if op == 'slc':
                return T.seq_slice(self.freeze(st, t.args[0], seen), t.args[1], t.args[2])
            if op == 'rep':
                return mk('rep', self.freeze(st, t.args[0], seen), t.args[1])
            k = T.fresh_index()
            m = {t.args[1]: atom(k)}
            return T.mkfilt(t.args[0], k, T.subst(t.args[2], m),
                            self.freeze(st, T.subst(t.args[3], m), seen))
        return t

    def has_ref(self, t, memo=None):
        if memo is None:
            memo = {}
        if isinstance(t, tuple):
            return any(self.has_ref(x, memo) for x in t)
        if not isinstance(t, Term):
            return False
        r = memo.get(t)
        if r is None:
            r = t.op in ('ref', 'nd', 'nds') or any(self.has_ref(a, memo) for a in t.args)
            memo[t] = r
        return r

    def thaw(self, st, v, origin=None):
        """Materialise a frozen value as (fresh) heap objects."""
        op = v.op
        if op == 'fobj':
            data = {}
            r = self.alloc(st, Obj('inst', data, cls=v.args[0]))
            for a, x in v.args[1]:
                data[a] = self.thaw(st, x)
                self.link(st, data[a], r.args[0])
            if origin:
                st.origin[r.args[0]] = origin
            return r
        if op == 'farr':
            r = self.new_arr(st, v.args[0], v.args[1])
            if origin:
                st.origin[r.args[0]] = origin
            return r
        if op == 'fsarr':
            return self.new_sarr(st, v.args[1], v.args[0])
        if op in ('flist', 'map', 'cat', 'symseq', 'slc', 'rep', 'filt', 'store'):
            return self.new_list(st, v)
        if op == 'fdict':
            return self.alloc(st, Obj('dict', tuple((k, self.thaw(st, x)) for k, x in v.args[0])))
        if op == 'dec':
            if any(self.is_frozen(x) for x in T.leaves(v)):
                k = T.kind_of(v)
                if k is not None and v.op == 'dec':
                    return self.thaw(st, self.push_in(v, k), origin)
                return lift(lambda x: self.thaw(st, x, origin), v)
            return v
        if op == 'tup':
            return mk('tup', *[self.thaw(st, x) for x in v.args])
        return v

    def push_in(self, v, kind):
        """decision over same-shaped aggregates -> aggregate of decisions"""
        if kind == 'num':
            return v
        if kind[0] == 'arr':
            n = 1
            for d in kind[1]:
                n *= d
            return T.farr(kind[1], [lift(lambda x: x.args[1][i], v) for i in range(n)])
        if kind[0] == 'obj':
            return T.fobj(kind[1], {a: self.push_in(lift(lambda x: dict(x.args[1])[a], v), k)
                                    for a, k in kind[2]})
        if kind[0] == 'tup':
            return tup([self.push_in(lift(lambda x: x.args[i], v), k)
                        for i, k in enumerate(kind[1:])])
        return v

    def link(self, st, val, owner):
        if val.op in ('ref', 'nd') and val.args[0] not in st.origin:
            st.origin[val.args[0]] = ('attr', owner, None)

    def is_frozen(self, v):
        return v.op in ('fobj', 'farr', 'fsarr', 'flist', 'map', 'cat', 'symseq', 'slc', 'rep',
                        'filt', 'store', 'fdict')

    # ------------------------------------------------------------ arrays
    def nd_elems(self, st, t):
        loc, row, shape, flat = t.args
        o = st.heap[loc]
        if o.kind == 'arr':
            return [o.data[i] for i in flat]
        # a row of a symbolic array
        r = T.seq_get(o.data, row)
        if not o.shape:
            return [r for _ in flat]
        return [self.row_elem(r, i) for i in flat]

    def row_elem(self, r, i):
        if r.op == 'dec':
            return lift(lambda x: self.row_elem(x, i), r)
        if r.op == 'farr':
            return r.args[1][i]
        return atom(mk('app', 'proj', r, (i,)))

    def nd_write(self, st, t, vals, guard=TRUE):
        loc, row, shape, flat = t.args
        o = st.heap[loc]
        if o.kind == 'arr':
            d = list(o.data)
            for i, v in zip(flat, vals):
                if o.dtype == 'i':
                    v = self.np.truncate(v)
                d[i] = ite(guard, v, d[i])
            self.write(st, loc, o.w(tuple(d)))
            return
        old = T.seq_get(o.data, row)
        if not o.shape:
            new = ite(guard, vals[0], old)
        else:
            n = 1
            for x in o.shape:
                n *= x
            d = [self.row_elem(old, i) for i in range(n)]
            for i, v in zip(flat, vals):
                d[i] = ite(guard, v, d[i])
            new = T.farr(o.shape, d)
        self.write(st, loc, o.w(T.seq_store(o.data, row, new)))

    def nds_seq(self, st, t):
        """sequence of rows seen through a symbolic array view"""
        loc, rng, inner, flat = t.args
        o = st.heap[loc]
        s = o.data
        if rng is not None:
            s = T.seq_slice(s, rng[0], rng[1])
        n = 1
        for d in o.shape:
            n *= d
        if flat == tuple(range(n)) and inner == o.shape:
            return s
        get = self.row_elem if o.shape else lambda r, i: r
        return self.seq_map(s, lambda r: (get(r, flat[0]) if inner == () else
                                          T.farr(inner, [get(r, i) for i in flat])))

    def seq_map(self, s, f):
        if s.op == 'dec':
            return lift(lambda x: self.seq_map(x, f), s)
        if s.op == 'flist':
            return T.flist([f(x) for x in s.args])
        if s.op == 'cat':
            return T.seq_cat(*[self.seq_map(x, f) for x in s.args])
        if s.op == 'filt':
            k = T.fresh_index()
            m = {s.args[1]: atom(k)}
            return T.mkfilt(s.args[0], k, T.subst(s.args[2], m), f(T.subst(s.args[3], m)))
        k = T.fresh_index()
        return T.mkmap(T.seq_len(s), k, f(T.seq_get(s, atom(k))))

    # ------------------------------------------------------------ entry points
    def function(self, modname, qual):
        m, n = self.repo.find(modname, qual)
        return mk('fn', m.name, qual)

    def call_function(self, modname, qual, args, kwargs=None, st=None):
        st = st or State({}, {})
        return self.call(st, self.function(modname, qual), list(args), dict(kwargs or {}), None), st

    # ------------------------------------------------------------ names
    def lookup(self, st, name, node=None):
        if self.gnames and name in self.gnames[-1]:
            k = self.gnames[-1][name]
            if k[0] == 'cell':
                return st.heap[k].data if k in st.heap else unk('variable of an outer function')
            v = self.global_name(self.stack[-1][0], name, st)
            return v if v is not None else unk('undefined name %s' % name)
        if name in st.env:
            v = st.env[name]
            return v
        mod = self.stack[-1][0] if self.stack else None
        clo = self.stack[-1][3] if self.stack else None
        while clo is not None:
            if name in clo.cells:
                k = clo.cells[name]
                return st.heap[k].data if k in st.heap else unk('variable of an outer function')
            for e in (clo.env, clo.fallback):
                if e is not None and name in e:
                    return e[name]
            clo = clo.parent
        if mod is not None:
            v = self.global_name(mod, name, st)
            if v is not None:
                return v
        if name in self.np.BUILTINS:
            return mk('bi', name)
        if name in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
        import builtins
        if hasattr(builtins, name):
            return mk('bi', name)
        if self.nowhere(name):
            raise Raises('name %s is not assigned here' % name)
        return unk('undefined name %s' % name)

    def nowhere(self, name):
        """no assignment in the current function or its module can define the name"""
        if not self.stack or name.startswith('%'):
            return False
        mod, qual = self.stack[-1][:2]
        m = self.repo.modules.get(mod)
        if m is None or '<' in qual:
            return False
        if ('.' in qual and qual.split('.')[0] not in m.classes) or self.stack[-1][3]:
            return False
        try:
            fn = self.repo.find(mod, qual)[1]
        except Exception:
            return False
        key = ('stores', mod, qual)
        if key not in self.modcache:
            plain = not any(isinstance(x, (ast.Try, ast.NamedExpr, ast.Global, ast.Nonlocal, ast.Delete, ast.Lambda,
                                           ast.FunctionDef)) or type(x).__name__ in ('Match', 'TryStar')
                            for x in ast.walk(fn) if x is not fn)
            self.modcache[key] = () if plain else stored_names(fn), stored_names(m.tree, True)
        return all(name not in x for x in self.modcache[key])

    def global_name(self, modname, name, st):
        m = self.repo.modules.get(modname)
        if m is None:
            return None
        if ('global', modname, name) in st.heap:
            return st.heap[('global', modname, name)].data
        if name in m.defs:
            return mk('fn', modname, name)
        if name in m.classes:
            return mk('cls', modname, name)
        if name in m.assigns:
            key = (modname, name)
            if key not in self.modcache:
                self.modcache[key] = unk('recursive global')
                s = State({}, {})
                self.stack.append((modname, '<module>', TRUE, None, None, None))
                try:
                    b = module_part(m, name)
                    if b is None:
                        v = self.eval(s, m.assigns[name])
                    else:
                        self.gnames.append({})
                        try:
                            f = self.block(b, s)
                        finally:
                            self.gnames.pop()
                        s = f.next or s
                        v = s.env.get(name, unk('global'))
                    self.modcache[key] = self.freeze(s, v)
                except (Raises, TooBig):
                    self.modcache[key] = unk('global')
                finally:
                    self.stack.pop()
            lk = ('global', modname, name)
            if lk not in st.heap:
                v = self.modcache[key]
                if not self.is_frozen(v) and v.op != 'tup':
                    return self.thaw(st, v)
                st.heap[lk] = Obj('box', self.thaw(st, v))
            return st.heap[lk].data
        if name in m.imports:
            mod, nm = m.imports[name]
            return self.imported(mod, nm)
        if name == '__name__':
            return T.const(modname)
        return None

    def imported(self, mod, nm):
        if nm is None:
            return mk('mod', mod)
        if mod in self.repo.modules:
            mm = self.repo.modules[mod]
            if nm in mm.defs:
                return mk('fn', mod, nm)
            if nm in mm.classes:
                return mk('cls', mod, nm)
            if nm in mm.imports:
                return self.imported(*mm.imports[nm])
            if nm in mm.assigns:
                return self.global_name(mod, nm, State({}, {}))
        return self.lib(mod + '.' + nm)

    def lib(self, dotted):
        d = self.np.canonical(dotted)
        if d in self.np.CONSTS:
            return self.np.CONSTS[d]
        if d.startswith('errno.') and isinstance(getattr(errno, d[6:], None), int):
            return num(getattr(errno, d[6:]))
        return mk('bi', d)

    # ------------------------------------------------------------ classes
    def cls_node(self, cls):
        m = self.repo.modules[cls[0]]
        return m, m.classes[cls[1]]

    def cls_find(self, cls, name):
        """(module, FunctionDef | value expr, kind) along the inheritance chain"""
        m, c = self.cls_node(cls)
        for b in c.body:
            if isinstance(b, ast.FunctionDef) and b.name == name:
                kind = 'method'
                for d in b.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '')
                    if dn in ('property', 'cached_property', 'classmethod', 'staticmethod'):
                        kind = dn.replace('cached_', '')
                    elif dn == 'setter':
                        kind = 'setter'
                if kind == 'setter':
                    continue
                return cls, b, kind
            if isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return cls, b.value, 'value'
        for base in c.bases:
            if isinstance(base, ast.Name):
                v = self.global_name(cls[0], base.id, State({}, {}))
                if v is not None and v.op == 'cls':
                    r = self.cls_find((v.args[0], v.args[1]), name)
                    if r:
                        return r
        return None

    def issub(self, cls, other):
        if cls == other:
            return True
        m, c = self.cls_node(cls)
        for base in c.bases:
            if isinstance(base, ast.Name):
                v = self.global_name(cls[0], base.id, State({}, {}))
                if v is not None and v.op == 'cls' and self.issub((v.args[0], v.args[1]), other):
                    return True
        return False

    # ------------------------------------------------------------ attributes
    def getattr(self, st, v, name, node=None):
        if v.op == 'dec':
            return self.lift_st(st, lambda s, x: self.getattr(s, x, name, node), v)
        if v.op == 'unk':
            return v
        if v.op == 'ref':
            o = st.heap[v.args[0]]
            if o.kind == 'inst':
                if name in o.data:
                    return o.data[name]
                f = self.cls_find(o.cls, name)
                if f:
                    cls, n, kind = f
                    qual = cls[1] + '.' + name
                    if kind == 'property':
                        return self.call(st, mk('fn', cls[0], qual), [v], {}, node)
                    if kind == 'method':
                        return mk('bound', mk('fn', cls[0], qual), v)
                    if kind == 'classmethod':
                        return mk('bound', mk('fn', cls[0], qual), mk('cls', o.cls[0], o.cls[1]))
                    if kind == 'staticmethod':
                        return mk('fn', cls[0], qual)
                    return self.class_value(st, cls, name, n)
                if name == '__class__':
                    return mk('cls', o.cls[0], o.cls[1])
                if self.unset(o.cls, name):
                    raise Raises('no attribute %s in %s' % (name, o.cls[1]))
                return unk('no attribute %s' % name)
            return mk('bound', mk('bi', o.kind + '.' + name), v)
        if v.op in ('nd', 'nds'):
            return self.np.arr_attr(self, st, v, name)
        if v.op == 'cls':
            f = self.cls_find((v.args[0], v.args[1]), name)
            if f:
                cls, n, kind = f
                qual = cls[1] + '.' + name
                if kind == 'classmethod':
                    return mk('bound', mk('fn', cls[0], qual), v)
                if kind in ('method', 'staticmethod'):
                    return mk('fn', cls[0], qual)
                if kind == 'value':
                    return self.class_value(st, cls, name, n)
            if name == '__name__':
                return T.const(v.args[1])
            return mk('app', 'attr', v, name)
        if v.op == 'fn' and ('fnattr', v.args[0], v.args[1], name) in st.heap:
            return st.heap[('fnattr', v.args[0], v.args[1], name)].data
        if v.op == 'mod':
            dotted = v.args[0] + '.' + name
            if v.args[0] in self.repo.modules:
                r = self.global_name(v.args[0], name, st)
                if r is not None:
                    return r
            if dotted in self.repo.modules:
                return mk('mod', dotted)
            return self.lib(dotted)
        if v.op == 'bi':
            return self.lib(v.args[0] + '.' + name)
        if self.is_frozen(v):
            return self.getattr(st, self.thaw(st, v), name, node)
        if v.op == 'const' and isinstance(v.args[0], str):
            return mk('bound', mk('bi', 'str.' + name), v)
        if v is T.NONE and not name.startswith('__'):
            raise Raises('None has no attribute %s' % name, ('AttributeError', None))
        if v.op == 'rat':
            if name in ('real', 'T'):
                return v
            if name == 'shape':
                return tup([])
            if name not in NUMBER:
                raise Raises('a number has no attribute %s' % name, ('AttributeError', None))
            return mk('bound', mk('bi', 'num.' + name), v)
        if v.op == 'tup':
            k = T.field(name, len(v.args))
            if k is not None:
                return v.args[k]
            if name == '_replace':
                return mk('bound', mk('bi', 'tuple._replace'), v)
            if name not in ('count', 'index') and not name.startswith('__'):
                return unk('attribute %s of a tuple' % name)
            return mk('bound', mk('bi', 'tuple.' + name), v)
        if v.op == 'parser':
            return mk('bound', mk('bi', 'parser.' + name), v)
        if self.np.isstr(v) and ('text.' + name in self.models or 'str.' + name in self.np.MODELS):
            return mk('bound', mk('bi', ('text.' if 'text.' + name in self.models else 'str.') + name), v)
        if v.op == 'super':
            cls = v.args[0]
            m, c = self.cls_node(cls)
            for base in c.bases:
                if isinstance(base, ast.Name):
                    b = self.global_name(cls[0], base.id, st)
                    if b is not None and b.op == 'cls':
                        f = self.cls_find((b.args[0], b.args[1]), name)
                        if f:
                            return mk('bound', mk('fn', f[0][0], f[0][1] + '.' + name), v.args[1])
            return mk('bi', 'object.' + name)
        if v.op == 'app' and v.args[0] == 'np.transpose' and v.args[1].op == 'fsarr' and \
                name in ('T', 'shape', 'ndim', 'size', 'transpose'):
            x = self.thaw(st, v.args[1])
            if name == 'transpose':
                return mk('bound', mk('bi', 'np.transpose'), v)
            r = x if name == 'T' else self.getattr(st, x, name, node)
            return tup(r.args[::-1]) if name == 'shape' else r
        return mk('app', 'attr', v, name)

    def unset(self, cls, name):
        """nothing in the repository sets an attribute of this name"""
        if cls[0] not in self.repo.modules or not self.cls_closed(cls):
            return False
        if '%attrs' not in self.modcache:
            s = set()
            for m in self.repo.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                        s.add(x.attr)
                    if isinstance(x, (ast.Name, ast.Attribute)) and getattr(x, 'id', getattr(x, 'attr', '')) in (
                            'setattr', '__dict__', '__getattr__', '__getattribute__', '__setattr__', '__slots__'):
                        s.add('*')
                    if isinstance(x, ast.FunctionDef) and x.name.startswith('__getattr'):
                        s.add('*')
            self.modcache['%attrs'] = s
        return name not in self.modcache['%attrs'] and '*' not in self.modcache['%attrs']

    def class_value(self, st, cls, name, node):
        key = (cls, name)
        if key not in self.modcache:
            s = State({}, {})
            self.stack.append((cls[0], '<class>', TRUE, None, None, None))
            try:
                self.modcache[key] = self.freeze(s, self.eval(s, node))
            except Raises:
                self.modcache[key] = unk('class attribute')
            finally:
                self.stack.pop()
        # one shared object per class attribute
        lk = ('clsattr', cls, name)
        if lk not in st.heap:
            r = self.thaw(st, self.modcache[key])
            st.heap[lk] = Obj('box', r)
        return st.heap[lk].data

    def setattr(self, st, v, name, val, guard=TRUE, node=None):
        if v.op == 'dec':
            for p, leaf in T.paths(v):
                g = guard
                for a, i in p:
                    g = band(g, self.branch_cond(a, i))
                self.setattr(st, leaf, name, val, g, node)
            return
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst':
            o = st.heap[v.args[0]]
            f = self.prop_setter(o.cls, name)
            if f is not None:
                self.call_node(st, f[0], f[1], f[2], [v, val], {}, node)
                return
            d = dict(o.data)
            if guard is TRUE:
                d[name] = val
            else:
                old = d.get(name, UNDEF)
                d[name] = self.merge_val(st, st, st, guard, val, old)
            self.link(st, d[name], v.args[0])
            self.write(st, v.args[0], o.w(d))
            return
        if v.op == 'cls':
            # write to a class attribute: shared by all instances
            self.effects.append((self.cur_pc(st), 'classattr', (v, name), node, self.fname()))
            st.heap[('clsattr', (v.args[0], v.args[1]), name)] = Obj('box', val)
            return
        if v.op == 'fn':
            st.heap[('fnattr', v.args[0], v.args[1], name)] = Obj('box', val)
            return
        if v.op == 'app' or v.op == 'sym':
            self.effects.append((self.cur_pc(st), 'setattr', (v, name, self.freeze(st, val)), node, self.fname()))
            return
        self.note('write to attribute of unmodelled value', node)

    def prop_setter(self, cls, name):
        m, c = self.cls_node(cls)
        for b in c.body:
            if isinstance(b, ast.FunctionDef) and b.name == name:
                for d in b.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == 'setter':
                        return cls[0], cls[1] + '.' + name, b
        return None

    def branch_cond(self, a, i):
        if a.op == 'sgn':
            br = [FALSE, FALSE, FALSE]
            br[i] = TRUE
            return T.mkdec(a, br)
        return T.mkdec(a, [TRUE if i == 0 else FALSE, TRUE if i == 1 else FALSE])

    # ------------------------------------------------------------ bookkeeping
    def fname(self):
        return (self.stack[-1][0], self.stack[-1][1]) if self.stack else ('', '')

    def cur_pc(self, st):
        return band(self.gpc[-1], st.pc)

    def note(self, why, node=None):
        self.notes.append((why, self.fname(), getattr(node, 'lineno', 0)))

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kwargs, node, star=None):
        if f.op == 'dec':
            return self.lift_st(st, lambda s, x: self.call(s, x, args, kwargs, node), f)
        if f.op == 'unk':
            if changes(node):
                raise TooBig('changes an unknown object')
            return f
        if f.op == 'bound':
            return self.call(st, f.args[0], [f.args[1]] + list(args), kwargs, node)
        if f.op == 'fn':
            name = f.args[1]
            mod = f.args[0]
            h = self.opaque.get(name) or self.opaque.get(mod + ':' + name)
            if h is not None:
                self.callsites.append((mod, name, [self.freeze(st, a) for a in args],
                                       {k: self.freeze(st, a) for k, a in kwargs.items()},
                                       self.cur_pc(st), node, self.fname()))
                m, n = self.repo.find(mod, name)
                names = [x.arg for x in n.args.posonlyargs + n.args.args]
                args, kwargs = list(args), dict(kwargs)
                if names[:1] in (['cls'], ['self']) and args and args[0].op != 'cls' and '.' in name and \
                        any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in n.decorator_list):
                    names = names[1:]
                while len(args) < len(names) and names[len(args)] in kwargs:
                    args.append(kwargs.pop(names[len(args)]))
                return h(self, st, args, kwargs)
            m, n = self.repo.find(mod, name)
            return self.call_node(st, m.name, name, n, args, kwargs, node)
        if f.op == 'cls':
            return self.construct(st, f, args, kwargs, node)
        if f.op == 'clo':
            fn, env, mod, qual, frame, dflt = self.closures[f.args[0]]
            if frame is None:
                frame = Frame(env, None)
            elif env is not frame.env:
                frame = Frame({}, frame) if env is None else self.seen_from(frame, env)
            return self.call_node(st, mod, qual, fn, args, kwargs, node, closure=frame, dflt=dflt)
        if f.op == 'partial':
            return self.call(st, f.args[0], list(f.args[1]) + list(args),
                             dict(f.args[2], **kwargs), node)
        if f.op == 'bi':
            h = self.models.get(f.args[0])
            if h is not None:
                r = h(self, st, args, kwargs, node)
                if r is not NotImplemented:
                    return r
            return self.np.call(self, st, f.args[0], args, kwargs, node)
        if f.op == 'ref' and st.heap[f.args[0]].kind == 'inst':
            m = self.getattr(st, f, '__call__', node)
            if m.op != 'unk':
                return self.call(st, m, args, kwargs, node)
        # call through an opaque value
        fa = [self.freeze(st, a) for a in args] + \
             [tup([T.const(k), self.freeze(st, a)]) for k, a in sorted(kwargs.items())]
        fv = self.freeze(st, f)
        if changes(node) and f.op == 'app' and f.args[0] == 'attr' and f.args[1].op == 'app' and \
                f.args[1].args[0] in ('get', 'index', 'elt', 'dictget'):
            raise TooBig('changes an unknown object')
        self.effects.append((self.cur_pc(st), 'opaque call', (fv, tuple(fa)), node, self.fname()))
        return T.app('call', fv, *fa)

    def inner_defaults(self, st, n):
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        return {nm: self.eval(st, d) for nm, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) +
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]}

    def seen_from(self, frame, env):
        f = Frame(frame.env, frame.parent, env)
        f.cells = frame.cells
        return f

    def construct(self, st, c, args, kwargs, node):
        cls = (c.args[0], c.args[1])
        m, cn = self.cls_node(cls)
        h = self.opaque.get(cls[1])
        if h is not None:
            return h(self, st, args, kwargs)
        r = self.alloc(st, Obj('inst', {}, cls=cls))
        f = self.cls_find(cls, '__init__')
        if f:
            self.call_node(st, f[0][0], f[0][1] + '.__init__', f[1], [r] + list(args), kwargs, node)
        elif args or kwargs:
            self.note('constructor without __init__', node)
        return r

    def call_node(self, st, mod, qual, fn, args, kwargs, node, closure=None, dflt=None):
        if len(self.stack) > self.MAXDEPTH:
            self.note('call depth', node)
            return unk('call depth')
        if sum(1 for s in self.stack if s[0] == mod and s[1] == qual) >= (
                20 if args and all(a.op == 'rat' and T.const_value(a) is not None for a in args) else
                6 if args and all(a.op in ('ref', 'tup', 'nd', 'nds') for a in args) else 2):
            self.note('recursion', node)
            if any(a.op in ('ref', 'nd', 'nds') for a in args):
                raise TooBig('recursion')
            return unk('recursion in %s' % qual)
        self.calls += 1
        self.funcs[(mod, qual)] = self.funcs.get((mod, qual), 0) + 1
        env = {}
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            raise Raises('too many arguments for %s' % qual)
        for nm, v in zip(names, args):
            env[nm] = v
        if a.vararg:
            env[a.vararg.arg] = tup(args[len(names):])
        kw = dict(kwargs)
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise Raises('argument %s of %s given twice' % (k, qual))
                env[k] = kw.pop(k)
        if kw and not a.kwarg:
            raise Raises('unexpected argument %s of %s' % (sorted(kw)[0], qual))
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, Obj('dict', tuple(
                (T.const(k), v) for k, v in sorted(kw.items()))))
        # defaults are evaluated once per function: one shared object
        dn = names[len(names) - len(a.defaults):]
        for nm, d in list(zip(dn, a.defaults)) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if nm not in env:
                env[nm] = dflt[nm] if dflt is not None else self.default(st, mod, qual, nm, d)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                raise Raises('missing argument %s of %s' % (nm, qual))
        if isinstance(fn, ast.Lambda):
            body = [ast.copy_location(ast.Return(value=fn.body), fn.body)]
        else:
            body = fn.body
        if self.stack and self.stack[-1][5] is not None and (closure is None or closure.env is not st.env):
            self.stack[-1][5].env = st.env
            if closure is not None and closure.fallback is not None and closure.parent is self.stack[-1][5].parent and \
                    closure.cells is self.stack[-1][5].cells:
                closure.env = st.env
        callee = State(env, dict(st.heap), TRUE, dict(st.origin))
        clsname = qual.split('.')[0] if '.' in qual else None
        frame = Frame(env, closure)
        g = {x: ('global', mod, x) for b in self.walk_fn(body) if isinstance(b, ast.Global) for x in b.names}
        for b in self.walk_fn(body):
            if isinstance(b, ast.Nonlocal):
                for x in b.names:
                    k = closure.cell(x) if closure is not None else None
                    if k is None:
                        raise TooBig('variable of an outer function')
                    g[x] = k
        shared = self.shared_names(fn)
        for x in shared - set(g):
            frame.cells[x] = g[x] = ('cell', mod, qual, x)
            callee.heap[g[x]] = Obj('box', env.pop(x, UNDEF))
        self.stack.append((mod, qual, st.pc, closure, (mod, clsname), frame))
        self.gpc.append(band(self.gpc[-1], st.pc))
        self.gnames.append(g)
        for x, k in g.items():
            if k[0] == 'global' and k not in callee.heap:
                v = self.global_name(mod, x, callee)
                callee.heap[k] = Obj('box', UNDEF if v is None else v)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.walk_fn(body))
        nraise = len(self.raises)
        self.raised_at = None
        try:
            if gen:
                callee.env['%yield'] = self.new_list(callee, T.flist([]))
            fl = self.block(body, callee)
        finally:
            self.stack.pop()
            self.gpc.pop()
            self.gnames.pop()
        outs = list(fl.ret)
        if fl.next is not None:
            outs.append((fl.next, NONE))
        if not outs:
            rs = self.raises[nraise:]
            at = self.raised_at
            if rs and rs[-1][0] is TRUE and at is not None and at[0] == len(self.stack) + 1:
                raise Raises('%s always raises here: %s' % (qual, rs[-1][3]), getattr(rs[-1], 'exc', None), at[1])
            raise Raises('%s always raises here' % qual)
        for r in self.raises[nraise:]:
            at = getattr(r, 'at', None)
            if at is not None and at[0] == len(self.stack) + 1:
                # what the caller sees of it
                s = st.fork(TRUE)
                s.heap, s.origin = at[1].heap, at[1].origin
                r.at = (len(self.stack), s)
        if gen:
            outs = [(s, callee_y) for s, callee_y in [(s, s.env['%yield']) for s, _ in outs]]
        s, v = outs[-1]
        if len(outs) == 1:
            frame.env = s.env
        for s2, v2 in reversed(outs[:-1]):
            s, v = self.merge_ret(s2.pc, s2, v2, s, v)
        st.heap = s.heap
        st.origin = s.origin
        return v

    def shared_names(self, fn):
        """variables of the function that an inner function assigns"""
        if fn not in self._shared:
            inner = [x for b in (fn.body if isinstance(fn.body, list) else [fn.body]) for x in ast.walk(b)
                     if isinstance(x, ast.Nonlocal)]
            own = {y for x in self.walk_fn(fn.body if isinstance(fn.body, list) else [fn.body])
                   if isinstance(x, ast.Nonlocal) for y in x.names}
            self._shared[fn] = {y for x in inner for y in x.names} - own
        return self._shared[fn]

    _shared = {}

    def walk_fn(self, body):
        todo = list(body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def default(self, st, mod, qual, nm, d):
        if isinstance(d, ast.Constant):
            return T.const(d.value)
        lk = ('default', mod, qual, nm)
        if lk not in st.heap:
            s = State({}, st.heap, TRUE, st.origin)
            self.stack.append((mod, '<default>', TRUE, None, None, None))
            try:
                st.heap[lk] = Obj('box', self.eval(s, d))
            finally:
                self.stack.pop()
        return st.heap[lk].data

    def fill(self, st, l, made):
        """make sure the shared variable is there, with its first value if it was not used so far"""
        if l in st.heap:
            return
        if l[0] == 'global':
            v = self.global_name(l[1], l[2], st)
            if l not in st.heap:
                st.heap[l] = Obj('box', UNDEF if v is None else v)
        elif l[0] == 'clsattr':
            f = self.cls_find(l[1], l[2])
            if f and f[2] == 'value':
                v = self.class_value(st, f[0], l[2], f[1])
                if l not in st.heap:
                    st.heap[l] = Obj('box', v)
            else:
                st.heap[l] = Obj('box', UNDEF)
        elif l[0] == 'default':
            fn = self.repo.find(l[1], l[2])[1]
            a = fn.args
            names = [x.arg for x in a.posonlyargs + a.args]
            d = dict(list(zip(names[len(names) - len(a.defaults):], a.defaults)) +
                     [(x.arg, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None])
            self.default(st, l[1], l[2], l[3], d[l[3]])
        elif l[0] == 'fnattr':
            st.heap[l] = Obj('box', UNDEF)
        else:
            st.heap[l] = made

    def touched(self, st, l):
        """the shared variable does not have its first value any more"""
        v = st.heap[l].data
        if l[0] in ('global', 'clsattr'):
            return (l[1], l[2]) not in self.modcache or self.freeze(st, v) is not self.modcache[(l[1], l[2])]
        if l[0] == 'default':
            s = State({}, {})
            self.fill(s, l, None)
            return self.freeze(st, v) is not self.freeze(s, s.heap[l].data)
        return l[0] == 'fnattr'

    # ------------------------------------------------------------ merging
    def merge_ret(self, c, s1, v1, s2, v2):
        """if c: (s1, v1) else (s2, v2)"""
        s = State({}, {}, bor(s1.pc, s2.pc))
        v = self.merge_val(s, s1, s2, c, v1, v2)
        self.merge_heap(s, c, s1, s2)
        return s, v

    def merge(self, c, s1, s2):
        s = State({}, {}, bor(s1.pc, s2.pc))
        for k in dict.fromkeys([*s1.env, *s2.env]):
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            s.env[k] = a if a is b else self.merge_val(s, s1, s2, c, a, b)
        self.merge_heap(s, c, s1, s2)
        return s

    def merge_val(self, s, s1, s2, c, a, b):
        if a is b:
            return a
        # same-shaped immutable aggregates: merge component-wise
        if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
            return tup([self.merge_val(s, s1, s2, c, x, y) for x, y in zip(a.args, b.args)])
        return ite(c, a, b)

    def merge_heap(self, s, c, s1, s2):
        h1, h2 = s1.heap, s2.heap
        s.origin = dict(s1.origin)
        s.origin.update(s2.origin)
        for l in dict.fromkeys([*h1, *h2]):
            o1, o2 = h1.get(l), h2.get(l)
            if (o1 is None or o2 is None) and (o1 or o2).kind == 'box' and self.touched(s1 if o1 else s2, l):
                for x in (s1, s2):
                    self.fill(x, l, o1 or o2)
                o1, o2 = h1[l], h2[l]
                for x in (h1, h2):
                    for y in x:
                        if y not in h1 or y not in h2:
                            s.heap.setdefault(y, x[y])
            if o1 is None or o2 is None:
                s.heap[l] = o1 or o2
            elif o1 is o2:
                s.heap[l] = o1
            else:
                s.heap[l] = self.merge_obj(s, s1, s2, c, o1, o2)

    def merge_obj(self, s, s1, s2, c, o1, o2):
        if o1.kind == 'inst':
            d = {}
            for k in dict.fromkeys([*o1.data, *o2.data]):
                a, b = o1.data.get(k, UNDEF), o2.data.get(k, UNDEF)
                d[k] = self.merge_val(s, s1, s2, c, a, b)
            return o1.w(d)
        if o1.kind == 'arr':
            return o1.w(tuple(ite(c, a, b) for a, b in zip(o1.data, o2.data)))
        if o1.kind in ('list', 'sarr'):
            a, b = o1.data, o2.data
            if o1 is s1.heap.get(-1):
                return o1.w(self.merge_log(c, a, b))
            if a.op == 'flist' and b.op == 'flist' and len(a.args) == len(b.args):
                return o1.w(T.flist([ite(c, x, y) for x, y in zip(a.args, b.args)]))
            return o1.w(ite(c, a, b))
        if o1.kind == 'dict':
            d1, d2 = dict(o1.data), dict(o2.data)
            ks = list(d1) + [k for k in d2 if k not in d1]
            return o1.w(tuple((k, ite(c, d1.get(k, UNDEF), d2.get(k, UNDEF))) for k in ks))
        if o1.kind == 'box':
            return Obj('box', ite(c, o1.data, o2.data))
        return o1

    def merge_log(self, c, a, b):
        """joined event log: the common beginning stays shared"""
        pa, pb = [[y for x in (t.args if t.op == 'cat' else [t])
                   for y in ([T.flist([z]) for z in x.args] if x.op == 'flist' else [x])] for t in (a, b)]
        i = 0
        while i < min(len(pa), len(pb)) and pa[i] is pb[i]:
            i += 1
        return T.seq_cat(*(pa[:i] + [ite(c, T.seq_cat(*pa[i:]), T.seq_cat(*pb[i:]))]))

    def lift_st(self, st, f, *ts):
        """Lift a state transforming operation over the leaves of gated values."""
        tops = [t.args[0] for t in ts if t.op == 'dec']
        if not tops:
            return f(st, *ts)
        a = min(tops, key=T._akey)
        arity = 3 if a.op == 'sgn' else 2
        outs = []
        for i in range(arity):
            c = self.branch_cond(a, i)
            s = st.fork(c)
            try:
                v = self.lift_st(s, f, *[T.cofactor(t, a, i) for t in ts])
            except Raises as e:
                self.raises.append(Raised((self.cur_pc(s), None, self.fname(), e.why), e.exc))
                continue
            outs.append((c, s, v))
        if not outs:
            raise Raises('all alternatives raise')
        c, s, v = outs[-1]
        for c2, s2, v2 in reversed(outs[:-1]):
            m = State(st.env, {}, st.pc)
            nv = self.merge_val(m, s2, s, c2, v2, v)
            self.merge_heap(m, c2, s2, s)
            s, v = m, nv
        st.heap = s.heap
        st.origin = s.origin
        return v

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        fl = Flow(st)
        for n in stmts:
            if fl.next is None:
                break
            f = self.stmt(n, fl.next)
            fl.absorb(f)
            fl.next = f.next
        return fl

    def stmt(self, n, st):
        self.stmts += 1
        try:
            m = getattr(self, 's_' + type(n).__name__, None)
            if m is None:
                self.note('unsupported statement ' + type(n).__name__, n)
                raise TooBig('statement ' + type(n).__name__)
            return m(n, st)
        except Raises as e:
            if e.state is not None:
                st.heap = e.state.heap
                st.origin = e.state.origin
            self.raises.append(Raised((self.cur_pc(st), n, self.fname(), e.why), e.exc, (len(self.stack), st)))
            self.raised_at = (len(self.stack), st, e.exc)
            return Flow(None)
        except TooBig:
            self.note('value too large', n)
            # effects on objects may be lost: recover only where there are none
            if not isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) or not all(
                    isinstance(t, (ast.Name, ast.Tuple)) for t in ast.walk(n) if isinstance(getattr(t, 'ctx', None), ast.Store)) or \
                    any(isinstance(t, ast.Call) and not pure_call(t) for t in ast.walk(n)):
                raise
            for t in ast.walk(n):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    st.env[t.id] = unk('too large')
            return Flow(st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return Flow(st)
        if isinstance(n.value, (ast.Yield,)):
            v = self.eval(st, n.value.value) if n.value.value else NONE
            self.np.list_append(self, st, st.env['%yield'], v)
            return Flow(st)
        if isinstance(n.value, ast.YieldFrom):
            v = self.eval(st, n.value.value)
            self.np.list_extend(self, st, st.env['%yield'], v)
            return Flow(st)
        self.eval(st, n.value)
        return Flow(st)

    def s_Pass(self, n, st):
        return Flow(st)

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, n, st):
        for a in n.names:
            if a.asname:
                st.env[a.asname] = mk('mod', a.name)
            else:
                st.env[a.name.split('.')[0]] = mk('mod', a.name.split('.')[0])
        return Flow(st)

    def s_ImportFrom(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name] = self.imported(n.module or '', a.name)
        return Flow(st)

    def s_FunctionDef(self, n, st):
        mod = self.stack[-1][0]
        self.closures.append((n, st.env, mod, n.name, self.stack[-1][5], self.inner_defaults(st, n)))
        st.env[n.name] = mk('clo', len(self.closures) - 1)
        return Flow(st)

    def s_ClassDef(self, n, st):
        st.env[n.name] = self.local_class(st, n, n.name)
        return Flow(st)

    def local_class(self, st, n, name):
        """class defined in a function: like one of the module unless it uses variables of the function"""
        mod, closure = self.stack[-1][0], self.stack[-1][3]
        m = self.repo.modules.get(mod)
        own = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - own - {name}
        params = {a.arg for f in ast.walk(n) if isinstance(f, (ast.FunctionDef, ast.Lambda))
                  for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [
                      y for y in (f.args.vararg, f.args.kwarg) if y]}
        used = used - params
        if m is None or closure or any(
                x in st.env or self.global_name(mod, x, st) is None and not hasattr(builtins, x) for x in used) or name in m.defs or name in m.assigns:
            return unk('local class')
        if (mod, name) not in self.local_classes:
            if name in m.classes:
                return unk('local class')
            m.classes[name] = desugar([n])[0]
            self.local_classes[(mod, name)] = n
        return mk('cls', mod, name) if self.local_classes[(mod, name)] is n else unk('local class')

    local_classes = {}

    def s_Assign(self, n, st):
        if isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                self.stack[-1][1] != '<module>' and fields_of(n.value):
            st.env[n.targets[0].id] = self.local_class(st, n, n.targets[0].id)
            return Flow(st)
        v = self.eval(st, n.value)
        for t in n.targets:
            self.assign(st, t, v, n)
        return Flow(st)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(st, n.target, self.eval(st, n.value), n)
        return Flow(st)

    def s_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(st, t.id, t)
            if old.op in ('nd', 'nds'):
                v = self.eval(st, n.value)
                r = self.binop(st, n.op, old, v, n)
                self.np.arr_assign(self, st, old, r)
                return Flow(st)
            if old.op == 'ref' and st.heap[old.args[0]].kind == 'list' and isinstance(n.op, ast.Add):
                v = self.eval(st, n.value)
                self.np.list_extend(self, st, old, v)
                return Flow(st)
            v = self.eval(st, n.value)
            self.bind(st, t.id, self.inplace(st, n.op, old, v, n), n)
            return Flow(st)
        if isinstance(t, ast.Attribute):
            base = self.eval(st, t.value)
            old = self.getattr(st, base, t.attr, t)
            v = self.eval(st, n.value)
            if old.op in ('nd', 'nds'):
                r = self.binop(st, n.op, old, v, n)
                self.np.arr_assign(self, st, old, r)
            elif old.op == 'ref' and st.heap[old.args[0]].kind == 'list' and isinstance(n.op, ast.Add):
                self.np.list_extend(self, st, old, v)
            else:
                self.setattr(st, base, t.attr, self.inplace(st, n.op, old, v, n), node=n)
            return Flow(st)
        if isinstance(t, ast.Subscript):
            base = self.eval(st, t.value)
            idx = self.index(st, t.slice)
            old = self.np.subscript(self, st, base, idx, t)
            v = self.eval(st, n.value)
            if old.op == 'ref' and st.heap[old.args[0]].kind == 'list' and isinstance(n.op, ast.Add):
                self.np.list_extend(self, st, old, v)
                return Flow(st)
            r = self.inplace(st, n.op, old, v, n)
            self.np.store(self, st, base, idx, r, n)
            return Flow(st)
        self.note('augmented assignment', n)
        return Flow(st)

    def inplace(self, st, op, a, b, n):
        if a.op == 'ref' and st.heap[a.args[0]].kind == 'inst':
            nm = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__',
                  ast.Div: '__itruediv__'}.get(type(op))
            if nm and self.cls_find(st.heap[a.args[0]].cls, nm):
                return self.call(st, self.getattr(st, a, nm, n), [b], {}, n)
        return self.binop(st, op, a, b, n)

    def assign(self, st, t, v, n):
        if isinstance(t, ast.Name):
            self.bind(st, t.id, v, n)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                items = self.items(st, v)
                i = stars[0]
                rest = len(t.elts) - i - 1
                if items is None and v.op == 'ref' and st.heap[v.args[0]].kind == 'list' and \
                        T.seq_len(st.heap[v.args[0]].data).op == 'rat':
                    for j, e in enumerate(t.elts):
                        x = mk('slice', num(i), NONE if not rest else num(-rest), NONE) if j == i else \
                            num(j if j < i else j - len(t.elts))
                        self.assign(st, e.value if j == i else e, self.np.subscript(self, st, v, x, n), n)
                    return
                if items is None:
                    for e in t.elts:
                        self.assign(st, e.value if isinstance(e, ast.Starred) else e, unk('star'), n)
                    return
                i = stars[0]
                rest = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(st, e, x, n)
                self.assign(st, t.elts[i].value,
                            self.new_list(st, T.flist(items[i:len(items) - rest])), n)
                for e, x in zip(t.elts[i + 1:], items[len(items) - rest:]):
                    self.assign(st, e, x, n)
                return
            for i, e in enumerate(t.elts):
                self.assign(st, e, self.unpack(st, v, i, len(t.elts), n), n)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.eval(st, t.value), t.attr, v, node=n)
        elif isinstance(t, ast.Subscript):
            base = self.eval(st, t.value)
            idx = self.index(st, t.slice)
            self.np.store(self, st, base, idx, v, n)
        else:
            self.note('assignment target', n)

    def bind(self, st, name, v, n=None):
        if self.gnames and name in self.gnames[-1]:
            mod = self.stack[-1][0]
            k = self.gnames[-1][name]
            if k[0] == 'cell':
                st.heap[k] = Obj('box', v)
                return
            self.effects.append((self.cur_pc(st), 'global', (mod, name), n, self.fname()))
            st.heap[('global', mod, name)] = Obj('box', v)
            return
        st.env[name] = v

    def unpack(self, st, v, i, n, node):
        if v.op == 'dec':
            return self.lift_st(st, lambda s, x: self.unpack(s, x, i, n, node), v)
        items = self.items(st, v)
        if items is not None:
            if len(items) != n:
                raise Raises('cannot unpack %d values into %d' % (len(items), n))
            return items[i]
        if v.op == 'unk':
            return v
        if v.op in ('ref', 'nd', 'nds', 'it') or self.is_frozen(v):
            return self.np.subscript(self, st, v, num(i), node)
        return mk('app', 'item', v, i)

    def items(self, st, v):
        """elements of a fixed-length iterable, else None"""
        if v.op == 'tup':
            return list(v.args)
        if v.op == 'flist':
            return list(v.args)
        if v.op == 'const' and isinstance(v.args[0], str):
            return [T.const(c) for c in v.args[0]]
        if v.op == 'ref':
            o = st.heap[v.args[0]]
            if o.kind == 'list' and o.data.op == 'flist':
                return [self.list_elem(st, v, i) for i in range(len(o.data.args))]
            if o.kind == 'dict':
                return self.np.dict_keys(o)
            if o.kind == 'inst' and self.record(o):
                return [o.data[a] for a in self.record(o)]
        if v.op == 'nd':
            shape = v.args[2]
            if not shape:
                return None
            return [self.np.subscript(self, st, v, num(i), None) for i in range(shape[0])]
        if v.op == 'app' and v.args[0] == 'np.transpose' and v.args[1].op == 'fsarr':
            return self.np.columns(self, st, v)
        if v.op == 'it':
            n, get = self.iters[v.args[0]]
            c = int_value(n) if n.op == 'rat' else None
            if c is not None and c <= self.unroll:
                return [get(st, num(i)) for i in range(c)]
        if v.op == 'app' and v.args[0] == 'flat':
            return None
        return None

    def list_elem(self, st, ref, i):
        return self.np.subscript(self, st, ref, num(i), None)

    def s_Return(self, n, st):
        v = self.eval(st, n.value) if n.value is not None else NONE
        f = Flow(None)
        f.ret.append((st, v))
        return f

    def s_Break(self, n, st):
        f = Flow(None)
        f.brk.append(st)
        return f

    def s_Continue(self, n, st):
        f = Flow(None)
        f.cont.append(st)
        return f

    def s_Raise(self, n, st):
        exc = None
        if n.exc is None:
            exc = self.handling[-1] if self.handling else None
        elif isinstance(n.exc, ast.Name) and n.exc.id in st.env:
            exc = self.handling[-1] if self.handling and self.handling[-1] and self.handling[-1][1] is st.env[n.exc.id] else None
        else:
            f = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            exc = (ast.unparse(f), None)
        self.raises.append(Raised((self.cur_pc(st), n, self.fname(), 'raise'), exc, (len(self.stack), st)))
        self.raised_at = (len(self.stack), st, exc)
        return Flow(None)

    def s_Assert(self, n, st):
        if n.msg is not None and False:
            self.eval(st, n.msg)
        s2 = st.fork(TRUE)
        c = self.truth(s2, self.eval(s2, n.test))
        st.heap = s2.heap
        st.origin = s2.origin
        if c is FALSE:
            exc = ('AssertionError', None)
            self.raises.append(Raised((self.cur_pc(st), n, self.fname(), 'assert'), exc))
            self.raised_at = (len(self.stack), st, exc)
            return Flow(None)
        self.asserts.append(Assertion(c, self.cur_pc(st), n, self.fname(), False))
        return Flow(st)

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                base = self.eval(st, t.value)
                self.np.list_pop(self, st, base, self.index(st, t.slice))
        return Flow(st)

    def s_With(self, n, st):
        exits = []
        for i in n.items:
            v = self.eval(st, i.context_expr)
            if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst' and self.cls_find(st.heap[v.args[0]].cls, '__enter__'):
                exits.append(v)
                v = self.call(st, self.getattr(st, v, '__enter__'), [], {}, n)
            elif self.manager(st, i.context_expr):
                v = self.items(st, v)
                if v is None or len(v) != 1:
                    raise TooBig('context manager')
                v = v[0]
            if i.optional_vars is not None:
                self.assign(st, i.optional_vars, v, n)
        f = self.block(n.body, st)
        for v in reversed(exits):
            for s in ([f.next] if f.next is not None else []) + [s for s, _ in f.ret + f.brk + f.cont
                                                                  if isinstance(s, State)]:
                self.call(s, self.getattr(s, v, '__exit__'), [NONE, NONE, NONE], {}, n)
        for i in n.items:
            if f.next is not None:
                self.effects.append((self.cur_pc(f.next), 'exit', (), n, self.fname()))
        return f

    def manager(self, st, e):
        """call of a generator function used as context manager (nothing may follow its yield)"""
        if not isinstance(e, ast.Call):
            return False
        f = self.eval(st, e.func)
        if f.op == 'fn':
            fn = self.repo.find(f.args[0], f.args[1])[1]
        elif f.op == 'clo':
            fn = self.closures[f.args[0]][0]
        else:
            return False
        if not any('contextmanager' in ast.dump(d) for d in getattr(fn, 'decorator_list', ())):
            return False
        b = fn.body
        while isinstance(b[-1], ast.With):
            b = b[-1].body
        if not isinstance(b[-1], ast.Expr) or not isinstance(b[-1].value, ast.Yield):
            raise TooBig('context manager')
        return True

    def s_If(self, n, st):
        c = self.truth(st, self.eval(st, n.test))
        return self.branch(st, c, lambda s: self.block(n.body, s),
                           lambda s: self.block(n.orelse, s))

    def branch(self, st, c, then, els):
        if c is TRUE:
            return then(st)
        if c is FALSE:
            return els(st)
        if c.op == 'unk':
            # undecidable branch: both sides, values that differ become unknown
            c = mk('app', 'unkcond', c)
            c = T.bool_atom(c)
        s1, s2 = st.fork(c), st.fork(bnot(c))
        # values under the branch condition: decisions already taken are resolved
        f1 = then(s1)
        f2 = els(s2)
        f = Flow(None)
        f.absorb(f1)
        f.absorb(f2)
        if f1.next is not None and f2.next is not None:
            f.next = self.merge(c, f1.next, f2.next)
        else:
            f.next = f1.next or f2.next
        return f

    def s_Try(self, n, st):
        entry = st.fork(TRUE)
        neff = len(self.effects)
        nraise = len(self.raises)
        ncall = len(self.callsites)
        nassert = len(self.asserts)
        f = self.block(n.body, st)
        if f.next is not None and n.orelse:
            g = self.block(n.orelse, f.next)
            f.next = g.next
            f.absorb(g)
        # gate: something in the protected block raised
        key = [self.effkey(e) for e in self.effects[neff:]] + \
              [mk('app', 'callkey', c[0], c[1], tuple(c[2])) for c in self.callsites[ncall:]]
        explicit = FALSE
        known = []
        if n.handlers:
            for r in self.raises[nraise:]:
                explicit = bor(explicit, r[0])
                at = getattr(r, 'at', None)
                known.append((r[0], at[1] if at and at[0] == len(self.stack) else entry, getattr(r, 'exc', None)))
            for a in self.asserts[nassert:]:
                c = a.cond if a.cond.unk else band(a.pc, bnot(a.cond))
                explicit = bor(explicit, c)
                known.append((c, entry, ('AssertionError', None)))
            self.raises[nraise:] = []
            self.asserts[nassert:] = []
        x = FALSE
        if not self.explicit_raises and (key or explicit is FALSE):
            x = T.bool_atom(mk('app', 'raised', tuple(key)))
            known.append((x, entry, None))
        x = bor(x, explicit) if explicit is not FALSE else x
        if n.handlers:
            if x is TRUE and f.next is None and self.raised_at is not None and self.raised_at[0] == len(self.stack) and \
                    not (f.ret or f.brk or f.cont):
                # certain to fail: the handler sees what was done before
                s = self.raised_at[1].fork(TRUE)
                s.pc = entry.pc
                known = [(TRUE, s, self.raised_at[2])]
            # not raised
            if f.next is not None:
                f.next.pc = band(f.next.pc, bnot(x))
            for s in f.brk + f.cont:
                s.pc = band(s.pc, bnot(x))
            for s, v in f.ret:
                s.pc = band(s.pc, bnot(x))
            # the ways to fail, by the state they leave and the handler that takes them
            ways = {}
            for c, s, exc in known:
                hs = []
                for i, h in enumerate(n.handlers):
                    m = catches(h, exc)
                    if m is not False:
                        hs.append(i)
                    if m:
                        break
                else:
                    hs = hs or [None]
                k = (id(s), tuple(hs), exc if exc and exc[1] is not None else None)
                c0, _, excs = ways.get(k, (FALSE, None, []))
                ways[k] = (bor(c0, c) if c0 is not FALSE else c, s, excs + [exc])
            hf = Flow(None)
            nxt = None
            for (_, hs, _), (c, s, excs) in ways.items():
                exc = excs[0] if all(e == excs[0] for e in excs) else None
                if hs == (None,):
                    self.raises.append(Raised((band(self.cur_pc(entry), c), n, self.fname(), 'raise'), exc,
                                              (len(self.stack), s)))
                    continue
                b = None
                for i in hs:
                    h = n.handlers[i]
                    s1 = s.fork(TRUE)
                    s1.pc = entry.pc if c is TRUE else band(entry.pc, c)
                    if len(hs) > 1:
                        s1.pc = band(s1.pc, T.bool_atom(mk('app', 'handler', i, tuple(key))))
                    if h.name:
                        s1.env[h.name] = exc[1] if exc and exc[1] is not None else mk('app', 'exception', tuple(key))
                    self.handling.append((exc[0], s1.env[h.name]) if exc and h.name else exc)
                    try:
                        b1 = self.block(h.body, s1)
                    finally:
                        self.handling.pop()
                    hf.absorb(b1)
                    if b1.next is not None:
                        b = b1.next if b is None else self.merge(
                            T.bool_atom(mk('app', 'handler', i, tuple(key))), b1.next, b)
                if b is not None:
                    nxt = b if nxt is None else self.merge(c, b, nxt)
            f.absorb(hf)
            if x is FALSE:
                nxt = None
            if nxt is not None and f.next is not None:
                f.next = self.merge(x, nxt, f.next)
            elif nxt is not None:
                f.next = nxt
        if n.finalbody and f.next is not None:
            g = self.block(n.finalbody, f.next)
            f.next = g.next
            f.absorb(g)
        return f

    def effkey(self, e):
        return mk('app', 'eff', e[1], tuple(x if isinstance(x, (Term, str, int, tuple)) else str(x)
                                            for x in e[2]))

    # ------------------------------------------------------------ loops
    def iterable(self, st, v, node=None):
        """(n, getter) of an iterable value; getter(state, k) -> element"""
        if v.op == 'it':
            return self.iters[v.args[0]]
        if v.op == 'dec':
            fs = [self.iterable(st, x, node) for x in T.leaves(v)]
            if any(f is None for f in fs):
                return None
            n = lift(lambda x: self.iterable(st, x, node)[0], v)
            return n, lambda s, k: self.lift_st(s, lambda s2, x: self.iterable(s2, x)[1](s2, k), v)
        if v.op == 'ref':
            o = st.heap[v.args[0]]
            if o.kind == 'list':
                return T.seq_len(o.data), lambda s, k: self.np.subscript(self, s, v, k, node)
            if o.kind == 'dict':
                ks = self.np.dict_keys(o)
                if ks is None:
                    return None, None
                return num(len(ks)), lambda s, k: T.seq_get(T.flist(ks), k)
            if o.kind == 'inst' and self.record(o):
                return self.iterable(st, tup([o.data[a] for a in self.record(o)]), node)
        if v.op == 'nd':
            return num(v.args[2][0]) if v.args[2] else None, \
                lambda s, k: self.np.subscript(self, s, v, k, node)
        if v.op == 'nds':
            return T.seq_len(self.nds_seq(st, v)), lambda s, k: self.np.subscript(self, s, v, k, node)
        if v.op == 'tup':
            return num(len(v.args)), lambda s, k: T.seq_get(T.flist(v.args), k)
        if v.op == 'app' and v.args[0] == 'np.transpose' and v.args[1].op == 'fsarr':
            cs = self.np.columns(self, st, v)
            if cs is not None:
                return num(len(cs)), lambda s, k: T.seq_get(T.flist(cs), k)
        if self.is_frozen(v):
            return self.iterable(st, self.thaw(st, v), node)
        if v.op == 'const' and isinstance(v.args[0], str):
            s0 = v.args[0]
            return num(len(s0)), lambda s, k: T.seq_get(T.flist([T.const(c) for c in s0]), k)
        if v.op == 'unk':
            return None
        s0 = mk('symseq', v, atom(mk('app', 'len', v)), 'any')
        return T.seq_len(s0), lambda s, k: T.seq_get(s0, k)

    def new_iter(self, n, get):
        self.iters.append((n, get))
        return mk('it', len(self.iters) - 1)

    def s_For(self, n, st):
        v = self.eval(st, n.iter)
        it = self.iterable(st, v, n)
        if it is None or it[0] is None:
            self.note('iteration over unknown value', n)
            self.havoc(st, n.body + [n.target])
            return Flow(st)
        cnt, get = it
        c = int_value(cnt) if cnt.op == 'rat' else None
        if cnt.op == 'dec' and v.op == 'ref' and self.few_objects(st, v):
            return self.each_case(n, st, v)
        if c is not None and c <= self.unroll:
            return self.unrolled(n, st, [lambda s, i=i: get(s, num(i)) for i in range(max(c, 0))])
        return self.loop(n, st, cnt, lambda s, k: self.assign(s, n.target, get(s, k), n), n.body, n.orelse)

    def unrolled(self, n, st, getters):
        out = Flow(st)
        brk = []
        for g in getters:
            if out.next is None:
                break
            s = out.next
            self.assign(s, n.target, g(s), n)
            f = self.block(n.body, s)
            out.ret += f.ret
            brk += f.brk
            nxt = f.next
            for cs in f.cont:
                nxt = cs if nxt is None else self.merge(cs.pc, cs, nxt)
            out.next = nxt
        if out.next is not None and n.orelse:
            f = self.block(n.orelse, out.next)
            out.absorb(f)
            out.next = f.next
        for b in brk:
            out.next = b if out.next is None else self.merge(b.pc, b, out.next)
        return out

    def few_objects(self, st, v):
        """one of a few lists of known mutable objects, whose identity matters"""
        if v.op != 'ref' or st.heap[v.args[0]].kind != 'list':
            return False
        ls = T.leaves(st.heap[v.args[0]].data)
        return len(ls) <= 12 and all(x.op == 'flist' and len(x.args) <= 4 for x in ls) and \
            any(x.args for x in ls) and all(y.op == 'ref' for x in ls for y in x.args)

    def each_case(self, n, st, v):
        """a for loop over one of several lists, one after another"""
        o = st.heap[v.args[0]]
        if o.data.op != 'dec':
            return self.unrolled(n, st, [lambda s, i=i: self.np.subscript(self, s, v, num(i), n)
                                         for i in range(len(o.data.args))])
        a = o.data.args[0]
        fs = []
        for i in range(3 if a.op == 'sgn' else 2):
            s = st.fork(self.branch_cond(a, i))
            s.heap[v.args[0]] = o.w(T.cofactor(o.data, a, i))
            if s.pc is not FALSE:
                fs.append(self.each_case(n, s, v))
        out = Flow(None)
        for f in fs:
            out.absorb(f)
            if f.next is not None:
                out.next = f.next if out.next is None else self.merge(f.next.pc, f.next, out.next)
        return out

    def havoc(self, st, nodes):
        for b in nodes:
            for t in ast.walk(b):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    st.env[t.id] = unk('havoc')

    def s_While(self, n, st):
        if any(isinstance(x, ast.Name) and self.few_objects(st, st.env.get(x.id, NONE)) for x in ast.walk(n.test)):
            f = self.few_rounds(n, st)
            if f is not None:
                return f
        # constant-trip while loops are handled by the general summary
        return self.loop(n, st, None, None, n.body, n.orelse, cond=n.test)

    def few_rounds(self, n, st, limit=10):
        """a while loop that provably ends after a few rounds"""
        lists = (self.effects, self.asserts, self.loops, self.raises, self.callsites, self.notes)
        marks = [len(x) for x in lists]
        out, ends, cur = Flow(None), [], st.fork(TRUE)
        for _ in range(limit):
            c = self.truth(cur, self.eval(cur, n.test))
            if c.op == 'unk':
                break
            if band(cur.pc, bnot(c)) is not FALSE:
                ends.append(cur.fork(bnot(c)))
            if band(cur.pc, c) is FALSE:
                cur = None
                break
            f = self.block(n.body, cur.fork(c))
            out.ret += f.ret
            out.brk += f.brk
            cur = f.next
            for cs in f.cont:
                cur = cs if cur is None else self.merge(cs.pc, cs, cur)
            if cur is None:
                break
        if cur is not None:
            for x, m in zip(lists, marks):
                del x[m:]
            return None
        for e in ends:
            out.next = e if out.next is None else self.merge(e.pc, e, out.next)
        if out.next is not None and n.orelse:
            f = self.block(n.orelse, out.next)
            out.ret += f.ret
            out.next = f.next
        for b in out.brk:
            out.next = b if out.next is None else self.merge(b.pc, b, out.next)
        out.brk = []
        return out

    # A loop is summarised from one symbolic pass over its body.
    def loop(self, node, st, n, bind, body, orelse, cond=None):
        k = T.fresh_index()
        kk = atom(k)
        if n is not None and n.op == 'rat':
            self.trips[k] = n
        carried = {}        # cell -> (init frozen, mu frozen)
        mu_id = [0]
        marks = (len(self.effects), len(self.asserts), len(self.loops), len(self.raises),
                 len(self.callsites), len(self.notes))
        for rnd in range(6):
            del self.effects[marks[0]:], self.asserts[marks[1]:], self.loops[marks[2]:]
            del self.raises[marks[3]:], self.callsites[marks[4]:], self.notes[marks[5]:]
            s = st.fork(TRUE)
            s.pc = TRUE
            mus = []
            # heap cells first (so that env refs see the new content)
            for cell, (init, mu) in carried.items():
                if cell[0] == 'heap':
                    self.set_content(s, cell[1], mu)
            for cell, (init, mu) in carried.items():
                if cell[0] == 'env':
                    s.env[cell[1]] = self.thaw(s, mu)
            start_env = dict(s.env)
            start_heap = dict(s.heap)
            c0 = TRUE
            self.gpc.append(band(self.gpc[-1], st.pc))
            try:
                if cond is not None:
                    c0 = self.truth(s, self.eval(s, cond))
                    if not (c0 is TRUE):
                        s.pc = TRUE
                if bind is not None:
                    bind(s, kk)
                fl = self.block(body, s)
            finally:
                self.gpc.pop()
            end = fl.next
            for cs in fl.cont:
                end = cs if end is None else self.merge(cs.pc, cs, end)
            new = False
            pool = ([end] if end is not None else []) + fl.brk + [x for x, _ in fl.ret]
            sstart = State(start_env, start_heap)
            for e in pool:
                for l in [l for l, o in e.heap.items() if o.kind == 'box' and l not in st.heap]:
                    if self.touched(e, l):
                        self.fill(st, l, UNDEF)
                        new = True
                for v in e.env:
                    cell = ('env', v)
                    if cell in carried:
                        continue
                    a = start_env.get(v, UNDEF)
                    b = e.env[v]
                    if a is b:
                        continue
                    if a.op in ('ref', 'nd', 'nds') and b.op == a.op and a.args == b.args:
                        continue
                    init = self.freeze(State(st.env, st.heap), st.env[v]) if v in st.env else UNDEF
                    init = self.regrow(init, e, b)
                    carried[cell] = (init, self.mu_like(init, e, b, v))
                    new = True
                for l in start_heap:
                    cell = ('heap', l)
                    if cell in carried or l not in st.heap:
                        continue
                    o1, o2 = start_heap[l], e.heap.get(l)
                    if o2 is o1 or o2 is None:
                        continue
                    if o1.kind == 'box' and (o1.data is o2.data or o1.data.op in ('ref', 'nd', 'nds') and
                                             o1.data.op == o2.data.op and o1.data.args == o2.data.args):
                        continue
                    try:
                        a, b = self.freeze_loc(sstart, l), self.freeze_loc(e, l)
                    except KeyError:
                        continue
                    if a is b:
                        continue
                    init = self.freeze_loc(st, l)
                    carried[cell] = (init, self.mu_like(init, e, b, 'heap%s' % (l,), o2))
                    new = True
            if not new:
                break
        L = Loop()
        L.node = node
        L.func = self.fname()
        L.k = kk
        names = {}
        for v, t in st.env.items():
            if t.op in ('ref', 'nd', 'nds'):
                names.setdefault(t.args[0], v)
        L.names = names
        self.loops.append(L)
        L.inner = self.loops[marks[2]:-1]
        L.effects = self.effects[marks[0]:]
        L.callsites = self.callsites[marks[4]:]
        L.asserts = self.asserts[marks[1]:]
        L.cond = c0

        # end-of-body value of every cell, flattened into scalar / sequence leaves
        def body_end(end):
            ends = {}
            for cell, (init, mu) in carried.items():
                if end is None:
                    ends[cell] = mu
                elif cell[0] == 'env':
                    ends[cell] = self.freeze(end, end.env.get(cell[1], UNDEF))
                else:
                    ends[cell] = self.freeze_loc(end, cell[1])
            leafs = []      # (cell, path, init, mu, end)
            for cell, (init, mu) in carried.items():
                self.flatten(cell, (), init, mu, ends[cell], leafs)
            return ends, leafs
        ends, leafs = body_end(end)
        trip = n
        stop = None
        # while loops: find the induction variable that bounds the loop
        if cond is not None:
            trip = self.while_trip(c0, leafs, k)
            if trip is not None:
                iv = trip[1]
                L.induction = iv
                trip = trip[0]
            else:
                trip = atom(sym('#trip%s' % k.args[0]))
                L.generic = True
                if fl.brk and not fl.ret and not orelse:
                    # an iteration that breaks is the last one
                    c1 = FALSE
                    for s2 in fl.brk:
                        c1 = bor(c1, s2.pc)
                        end = s2 if end is None else self.merge(s2.pc, s2, end)
                    fl.brk = []
                    ends, leafs = body_end(end)
                    stop = mk('sym', '%%stop%s' % k.args[0])
                    leafs.append((('stop', ''), (), FALSE, stop, c1))
        L.raw = {self.cellname(c, names): (carried[c][0], carried[c][1], ends[c]) for c in carried}
        L.cells = L.raw
        L.end = end
        L.flow = fl
        L.trip = trip
        # exits (break / return)
        X = FALSE
        for s2 in fl.brk:
            X = bor(X, s2.pc)
        for s2, _ in fl.ret:
            X = bor(X, s2.pc)
        L.exit = X
        # resolve cells to closed forms at the start of iteration k
        at = {}         # mu symbol/term -> closed form at iteration k
        fin = {}        # leaf index -> final value (after N iterations)
        pend = list(range(len(leafs)))
        N = trip
        if X is not FALSE:
            N = None    # decided below, once X is expressed in k
        progress = True
        forms = {}
        while progress and pend:
            progress = False
            for i in list(pend):
                cell, path, init, mu, e = leafs[i]
                e2 = self.sub_mu(e, at)
                f = self.classify(init, mu, e2, k, leafs, pend)
                if f is not None:
                    forms[i] = f
                    at[self.mu_key(mu)] = f[0]
                    ln = self.mu_len(mu)
                    if ln is not None:
                        at[ln] = T.seq_len(f[0])
                    pend.remove(i)
                    progress = True
        # recurrences
        if pend:
            mukey = {self.mu_key(leafs[i][3]): i for i in pend}
            mukey.update({self.mu_len(leafs[i][3]): i for i in pend if self.mu_len(leafs[i][3]) is not None})
            ends2 = {i: self.sub_mu(leafs[i][4], at) for i in pend}
            uses = {i: [mukey[x] for x in T.symbols(ends2[i]) if x in mukey] for i in pend}
            recat = {}
            blank = {x: (atom(mk('bv', 0)) if leafs[q][3].op == 'rat' or x is self.mu_len(leafs[q][3]) else mk('bv', 0))
                     for x, q in mukey.items()}
            blank[k] = atom(mk('bv', 0))
            shape = {i: (T.subst(ends2[i], blank).dig, leafs[i][2].dig) for i in pend} if len(pend) > 1 else {}
            for i in pend:
                # the cells this one depends on, in order of first use
                grp = [i]
                for q in grp:
                    for x in self.use_order(ends2[q], mukey, uses[q]):
                        if x not in grp:
                            grp.append(x)
                if shape:
                    grp.sort(key=lambda q: shape[q])
                hh = 1 + max([0] + [ends2[q].hgt for q in grp])
                inits = tuple(leafs[q][2] for q in grp)
                kb = mk('bv', hh)
                ren = {k: atom(kb)}
                for j, q in enumerate(grp):
                    mu, b = leafs[q][3], mk('bv', hh + 1 + j)
                    ren[self.mu_key(mu)] = atom(b) if mu.op == 'rat' else \
                        mk('symseq', b, atom(mk('app', 'len', b)), 'any') if mu.op == 'symseq' else b
                    if self.mu_len(mu) is not None:
                        ren[self.mu_len(mu)] = atom(mk('app', 'len', b))
                bodies = tuple(T.subst(ends2[q], ren) for q in grp)
                cell, path, init, mu, e = leafs[i]

                def rec(cnt, init=init, mu=mu, e=e, hh=hh, inits=inits, bodies=bodies, j=grp.index(i)):
                    r = mk('rec', cnt, hh, inits, bodies, j)
                    if mu.op == 'rat':
                        return atom(r)
                    if mu.op == 'symseq':
                        return mk('symseq', r, T.seq_len(init) if self.same_len(mu, e, init)
                                  else atom(mk('app', 'len', r)), mu.args[2])
                    return mk('app', 'recval', r)
                forms[i] = (rec(kk), rec)
                recat[self.mu_key(mu)] = rec(kk)
                if self.mu_len(mu) is not None:
                    recat[self.mu_len(mu)] = T.seq_len(rec(kk))
            # sequences fed by recurrences but not part of one
            for i in pend:
                cell, path, init, mu, e = leafs[i]
                if mu.op != 'symseq' or path == 'stop':
                    continue
                back, todo = set(), [q for q in uses[i] if q != i]
                while todo:
                    q = todo.pop()
                    if q not in back:
                        back.add(q)
                        todo.extend(uses[q])
                if i in back:
                    continue
                own = (self.mu_key(mu), self.mu_len(mu))
                try:
                    e2 = self.sub_mu(ends2[i], {x: y for x, y in recat.items() if x not in own})
                    f = self.classify(init, mu, e2, k, leafs, [i])
                except TooBig:
                    f = None
                if f is not None:
                    forms[i] = f
                    recat[own[0]] = f[0]
                    if own[1] is not None:
                        recat[own[1]] = T.seq_len(f[0])
            at.update(recat)
        # X in terms of k
        anyx = FALSE
        Xk = FALSE
        if X is not FALSE:
            Xk = self.sub_mu(X, at)
        if cond is not None and getattr(L, 'generic', False):
            ck = self.sub_mu(c0, at)
            if stop is not None:
                ck = band(ck, bnot(T.bool_atom(at[stop])))
            if not ck.unk and not Xk.unk:
                N = T.mkfirst(num(float('inf')), k, bor(bnot(ck), Xk))
                if X is not FALSE:
                    anyx = band(T.subst(ck, {k: N}), T.subst(Xk, {k: N}))
                trip = N
                L.trip = trip
            else:
                N = unk('loop condition')
                anyx = N if X is not FALSE else FALSE
        elif X is not FALSE:
            N = T.mkfirst(trip, k, Xk)
            anyx = T.mkany(trip, k, Xk)
        L.exit_k = Xk
        L.forms = {}
        finals = {}
        for i, (cell, path, init, mu, e) in enumerate(leafs):
            finals.setdefault(cell, {})[path] = forms[i][1](N if N is not None else trip)
        L.at = at
        self.loop_aborts(marks, at, k, N if N is not None else trip)

        # state after normal termination
        out = st
        post = st.fork(TRUE)
        for cell, (init, mu) in carried.items():
            v = self.rebuild(mu, (), finals[cell], ends[cell])
            if cell[0] == 'heap':
                self.set_content(post, cell[1], v)
        for cell, (init, mu) in carried.items():
            if cell[0] == 'env':
                v = self.rebuild(mu, (), finals[cell], ends[cell])
                post.env[cell[1]] = self.thaw(post, v)
            L.final[self.cellname(cell, names)] = self.rebuild(mu, (), finals[cell], ends[cell])
        flow = Flow(post)
        if orelse:
            g = self.block(orelse, post)
            flow.absorb(g)
            flow.next = g.next
        if X is not FALSE:
            m = dict(at)

            def at_exit(t):
                return T.subst(self.sub_mu(t, m), {k: N})
            for s2 in fl.brk:
                b = post.fork(TRUE)
                for cell, (init, mu) in carried.items():
                    if cell[0] == 'heap':
                        self.set_content(b, cell[1], at_exit(self.freeze_loc(s2, cell[1])))
                for cell in carried:
                    if cell[0] == 'env':
                        b.env[cell[1]] = self.thaw(b, at_exit(self.freeze(s2, s2.env.get(cell[1], UNDEF))))
                g = band(anyx, at_exit(s2.pc)) if len(fl.brk) + len(fl.ret) > 1 else anyx
                if flow.next is None:
                    flow.next = b
                else:
                    flow.next = self.merge(g, b, flow.next)
            for s2, v in fl.ret:
                b = post.fork(TRUE)
                for cell, (init, mu) in carried.items():
                    if cell[0] == 'heap':
                        self.set_content(b, cell[1], at_exit(self.freeze_loc(s2, cell[1])))
                g = band(anyx, at_exit(s2.pc)) if len(fl.brk) + len(fl.ret) > 1 else anyx
                b.pc = band(st.pc, g)
                vv = self.thaw(b, at_exit(self.freeze(s2, v)))
                flow.ret.append((b, vv))
                if flow.next is not None:
                    flow.next.pc = band(flow.next.pc, bnot(g))
        return flow

    def range_check(self, st, i, n, node):
        """reading element i of a sequence of length n fails for i >= n"""
        if i.op != 'rat' or n.op != 'rat' or i.unk or n.unk:
            return
        d = T.rsub(i, n)
        if d.args[1]:
            return
        for k, t in self.trips.items():
            if T.occurs(d, k):
                c = T.rsub(T.subst(d, {k: T.radd(atom(k), T.ONE)}), d)
                c = T.const_value(c)
                if c is None:
                    continue
                if c > 0:
                    d2 = T.subst(d, {k: T.rsub(t, T.ONE)})
                elif c < 0:
                    d2 = T.subst(d, {k: T.ZERO})
                else:
                    continue
                if T.nonpos(T.radd(d2, T.ONE)):
                    return
        if T.nonpos(T.radd(d, T.ONE)):
            return
        c = T.le(T.ZERO, d)
        if c is FALSE:
            return
        pc = band(self.cur_pc(st), c)
        if pc is FALSE or pc.unk:
            return
        self.raises.append((pc, node, self.fname(), 'index out of range'))

    def use_order(self, t, mukey, cells):
        """cells in the order in which a term refers to them"""
        if len(cells) < 2:
            return cells
        out, seen, todo = [], set(), [t]
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo.extend(reversed(x))
                continue
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            if x in mukey:
                if mukey[x] not in out:
                    out.append(mukey[x])
                continue
            todo.extend(reversed(x.args))
        return out

    def loop_aborts(self, marks, at, k, n):
        """assertions and raises of the body, quantified over the iterations"""
        def over(c):
            try:
                c = self.sub_mu(c, at)
                if c.unk:
                    return None
                return T.mkany(n, k, c)
            except TooBig:
                return None
        keep = []
        for a in self.asserts[marks[1]:]:
            if a.cond.unk or a.pc.unk:
                continue
            c = over(band(a.pc, bnot(a.cond)))
            if c is not None and c is not FALSE:
                keep.append(Assertion(bnot(c), TRUE, a.node, a.func, a.explicit))
        self.asserts[marks[1]:] = keep
        rs = []
        for r in self.raises[marks[3]:]:
            c = over(r[0]) if not r[0].unk else None
            if c is not None and c is not FALSE:
                rs.append(Raised((c,) + tuple(r[1:]), getattr(r, 'exc', None)))
        self.raises[marks[3]:] = rs

    def cellname(self, cell, names):
        if cell[0] == 'env':
            return cell[1]
        return '*' + names.get(cell[1], str(cell[1]))

    def set_content(self, st, l, v):
        o = st.heap[l]
        if v.op == 'dec':
            kd = T.kind_of(v)
            if kd is not None:
                v = self.push_in(v, kd)
        if o.kind == 'list':
            st.heap[l] = o.w(v)
        elif o.kind == 'arr':
            if v.op == 'farr':
                st.heap[l] = o.w(v.args[1])
            else:
                st.heap[l] = o.w(tuple(unk('array') for _ in o.data))
        elif o.kind == 'sarr':
            st.heap[l] = o.w(v.args[1] if v.op == 'fsarr' else lift(
                lambda x: x.args[1] if x.op == 'fsarr' else unk('array'), v))
        elif o.kind == 'inst':
            if v.op == 'fobj':
                d = {}
                for a, x in v.args[1]:
                    old = o.data.get(a)
                    if old is not None and old.op in ('nd', 'nds', 'ref') and self.is_frozen(x) \
                            and old.op != 'nds':
                        # keep the identity of the attribute object if it has one
                        d[a] = self.thaw(st, x)
                        self.link(st, d[a], l)
                    else:
                        d[a] = self.thaw(st, x)
                        self.link(st, d[a], l)
                st.heap[l] = o.w(d)
            elif v.op == 'tup' and self.record(o) and len(self.record(o)) == len(v.args):
                st.heap[l] = o.w(dict(o.data, **{a: self.thaw(st, x) for a, x in zip(self.record(o), v.args)}))
            else:
                st.heap[l] = o.w({a: unk('object') for a in o.data})
        elif o.kind == 'box':
            st.heap[l] = Obj('box', self.thaw(st, v))
        elif o.kind == 'dict':
            if v.op == 'fdict':
                st.heap[l] = o.w(tuple((k2, self.thaw(st, x)) for k2, x in v.args[0]))
            else:
                st.heap[l] = o.w(((mk('const', '<unknown>'), v),))

    _mu = [0]

    def fresh_mu(self, hint):
        Interp._mu[0] += 1
        return sym('%%m%d:%s' % (Interp._mu[0], hint))

    def regrow(self, init, st, endval):
        """an array that gains rows in a loop is carried as a sequence of rows"""
        if init.op != 'farr' or not init.args[0]:
            return init
        e = self.freeze(st, endval)
        if all(x.op == 'farr' and x.args[0] == init.args[0] for x in T.leaves(e)):
            return init
        inner = tuple(init.args[0][1:])
        m = 1
        for d in inner:
            m *= d
        el = init.args[1]
        rows = list(el) if inner == () else [T.farr(inner, el[i * m:(i + 1) * m]) for i in range(init.args[0][0])]
        return mk('fsarr', inner, T.flist(rows))

    def mu_like(self, init, st, endval, hint, obj=None):
        """symbolic start-of-iteration value with the shape of init"""
        if init is UNDEF:
            return self.fresh_mu(hint)
        if init.op == 'rat':
            e = self.freeze(st, endval) if obj is None else endval
            if all(x.op == 'rat' or x.unk for x in T.leaves(e)) or True:
                return atom(self.fresh_mu(hint))
        if init.op == 'farr':
            return T.farr(init.args[0], [atom(self.fresh_mu(hint)) for _ in init.args[1]])
        if init.op == 'fobj':
            return T.fobj(init.args[0], {a: self.mu_like(x, st, NONE, hint, 1) for a, x in init.args[1]})
        if init.op == 'fsarr':
            s = init.args[1]
            m = self.fresh_mu(hint)
            ln = T.seq_len(s)
            e = endval if obj is not None else self.freeze(st, endval)
            if any(x.op != 'fsarr' or not self.len_preserved(x.args[1], s) for x in T.leaves(e)):
                ln = atom(sym('#' + m.args[0]))
            return mk('fsarr', init.args[0], mk('symseq', m, ln, 'num' if not init.args[0] else ('arr', init.args[0])))
        if init.op in ('flist', 'map', 'cat', 'symseq', 'slc', 'rep', 'filt', 'store'):
            kind = None
            if not (init.op == 'flist' and not init.args):
                k = T.fresh_index()
                if init.op == 'flist':
                    kind = T.kind_of(init.args[0])
                elif init.op == 'rep' and init.args[0] is NONE:
                    kind = None
                else:
                    kind = T.kind_of(T.seq_get(init, atom(k)))
            m = self.fresh_mu(hint)
            # same length throughout the loop when only elements are replaced
            e = endval if obj is not None else self.freeze(st, endval)
            if init.op == 'flist' and not init.args:
                kind = self.grown_kind(e)
            ln = T.seq_len(init)
            if not self.len_preserved(e, init):
                ln = atom(sym('#' + m.args[0]))
            return mk('symseq', m, ln, kind or 'any')
        if init.op == 'tup':
            return tup([self.mu_like(x, st, NONE, hint, 1) for x in init.args])
        if init.op == 'fdict':
            return mk('fdict', tuple((k2, self.mu_like(x, st, NONE, hint, 1)) for k2, x in init.args[0]))
        return self.fresh_mu(hint)

    def grown_kind(self, e):
        """kind of the arrays and objects appended to an empty list"""
        kinds = set()
        for x in T.leaves(e):
            if x.op != 'flist':
                return None
            for y in x.args:
                kinds.add(T.kind_of(y))
        k = kinds.pop() if len(kinds) == 1 else None
        return k if isinstance(k, tuple) else None

    def len_preserved(self, e, init):
        l0 = T.seq_len(init)
        for x in T.leaves(e):
            y = x
            while y.op == 'store':
                y = y.args[0]
            if y.op == 'flist' and init.op == 'flist' and len(y.args) != len(init.args):
                return False
            if y is not init and T.seq_len(y) is not l0:
                return False
        return True

    def same_len(self, mu, e, init):
        return True if T.seq_len(mu) is T.seq_len(init) else False

    def mu_key(self, mu):
        if mu.op == 'rat':
            return T.single_atom(mu)
        if mu.op == 'symseq':
            return mu.args[0]
        return mu

    def mu_len(self, mu):
        """symbol of the length of a sequence that changes its length"""
        if mu.op == 'symseq' and mu.args[1].op == 'rat':
            a = T.single_atom(mu.args[1])
            if a is not None and a.op == 'sym' and a.args[0] == '#' + str(mu.args[0].args[0]):
                return a
        return None

    def sub_mu(self, t, at):
        return T.subst(t, at) if at else t

    def flatten(self, cell, path, init, mu, e, out):
        if mu.op in ('farr', 'fobj', 'tup', 'fsarr', 'fdict'):
            if e.op == 'dec':
                kd = T.kind_of(e)
                if kd is not None:
                    e = self.push_in(e, kd)
            if mu.op == 'farr':
                if any(x.op == 'farr' and x.args[0] != mu.args[0] or x.op == 'fsarr' for x in T.leaves(e)):
                    e = unk('array changing shape')
                for i, (a, b) in enumerate(zip(init.args[1], mu.args[1])):
                    x = e.args[1][i] if e.op == 'farr' and len(e.args[1]) > i else self.proj(e, i)
                    self.flatten(cell, path + (i,), a, b, x, out)
                return
            if mu.op == 'fobj':
                di, de = dict(init.args[1]), dict(e.args[1]) if e.op == 'fobj' else {}
                for a, b in mu.args[1]:
                    x = de.get(a)
                    if x is None:
                        x = unk('attribute')
                    self.flatten(cell, path + (a,), di[a], b, x, out)
                return
            if mu.op == 'tup':
                for i, (a, b) in enumerate(zip(init.args, mu.args)):
                    x = e.args[i] if e.op == 'tup' and len(e.args) > i else self.proj(e, i)
                    self.flatten(cell, path + (i,), a, b, x, out)
                return
            if mu.op == 'fsarr':
                x = lift(lambda y: y.args[1] if y.op == 'fsarr' else unk('array'), e)
                self.flatten(cell, path + ('rows',), init.args[1], mu.args[1], x, out)
                return
            if mu.op == 'fdict':
                di = dict(init.args[0])
                de = dict(e.args[0]) if e.op == 'fdict' else {}
                for kx, b in mu.args[0]:
                    self.flatten(cell, path + (kx,), di[kx], b, de.get(kx, unk('dict')), out)
                return
        out.append((cell, path, init, mu, e))

    def proj(self, e, i):
        def f(x):
            if x.op == 'farr':
                return x.args[1][i]
            if x.op == 'tup':
                return x.args[i]
            return x if x.unk else mk('app', 'proj', x, (i,))
        return lift(f, e)

    def rebuild(self, mu, path, vals, e):
        if mu.op == 'farr':
            return T.farr(mu.args[0], [self.rebuild(b, path + (i,), vals, None) for i, b in enumerate(mu.args[1])])
        if mu.op == 'fobj':
            return T.fobj(mu.args[0], {a: self.rebuild(b, path + (a,), vals, None) for a, b in mu.args[1]})
        if mu.op == 'tup':
            return tup([self.rebuild(b, path + (i,), vals, None) for i, b in enumerate(mu.args)])
        if mu.op == 'fsarr':
            return mk('fsarr', mu.args[0], vals[path + ('rows',)])
        if mu.op == 'fdict':
            d = [(kx, self.rebuild(b, path + (kx,), vals, None)) for kx, b in mu.args[0]]
            if e is not None and e.op == 'fdict':
                have = {kx for kx, _ in d}
                d += [(kx, unk('dict entry set in loop')) for kx, _ in e.args[0] if kx not in have]
            return mk('fdict', tuple(d))
        return vals[path]

    # closed form of one loop-carried leaf:
    #   (value at start of iteration k, function count -> value after count iterations)
    def classify(self, init, mu, e, k, leafs, pend):
        key = self.mu_key(mu)
        others = {x for j in pend for x in (self.mu_key(leafs[j][3]), self.mu_len(leafs[j][3]))} - {
            key, self.mu_len(mu), None}
        syms = T.symbols(e)
        if syms & others:
            return None
        kk = atom(k)
        if e is mu:
            return (init, lambda c: init)
        if key not in syms and self.mu_len(mu) in syms:
            return None
        if key not in syms:
            # last value
            def final(c, e=e):
                v = T.subst(e, {k: T.gadd(c, num(-1)) if c.op != 'rat' else T.rsub(c, ONE)})
                if init is UNDEF:
                    return v
                cv = const_value(c) if c.op == 'rat' else None
                if cv is not None:
                    return v if cv > 0 else init
                return self.join0(c, init, v)
            return (final(kk), final)
        if mu.op == 'rat':
            if all(x.op == 'rat' for x in T.leaves(e)):
                d = T.gadd(e, T.rneg(mu))
                if key not in T.symbols(d):
                    def final(c, d=d):
                        return T.gadd(init, self.sum_over(c, k, d))
                    return (final(kk), final)
            f = self.classify_bool(init, mu, e, k, key)
            if f is not None:
                return f
            return None
        if mu.op == 'symseq':
            return self.classify_seq(init, mu, e, k, key)
        return self.classify_bool(init, mu, e, k, key)

    def sum_over(self, c, k, d):
        return lift(lambda n: T.mksum(n, k, d), c) if c.op == 'dec' else T.mksum(c, k, d)

    def join0(self, c, init, v):
        """value v if at least one iteration ran"""
        if c.op == 'rat':
            return T.sgn3(c, init, init, v)
        return T.lift_sgn(c, [init, init, v])

    def classify_bool(self, init, mu, e, k, key):
        """flag := g(k) ? const : flag"""
        # e = ite(g, c, mu) with c constant and g free of mu
        ls = T.leaves(e)
        consts = [x for x in ls if x is not mu]
        if mu not in ls or len(consts) != 1:
            return None
        c = consts[0]
        if key in T.symbols(c) or k in T.symbols(c):
            return None
        g = lift(lambda x: TRUE if x is c else FALSE, e)
        if key in T.symbols(g):
            return None

        def final(cnt):
            a = T.mkany(cnt, k, g)
            return ite(a, c, init)
        return (final(atom(k)), final)

    def classify_seq(self, init, mu, e, k, key):
        kk = atom(k)
        ls = T.leaves(e)
        # append / filter
        app_ok = True
        for x in ls:
            if x is mu:
                continue
            if x.op == 'cat' and x.args[0] is mu and not any(key in T.symbols(y) for y in x.args[1:]):
                continue
            app_ok = False
        if app_ok:
            g = lift(lambda x: FALSE if x is mu else TRUE, e)
            ln = self.mu_len(mu)
            if key in T.symbols(g) or ln in T.symbols(g):
                return None
            if ln in T.symbols(e):
                # the length so far
                if not all(x is mu or len(x.args) == 2 and x.args[1].op == 'flist' and len(x.args[1].args) == 1
                           for x in ls):
                    return None
                sofar = T.gadd(T.seq_len(init), T.seq_len(T.mkfilt(kk, k, g, ZERO)))
                e = lift(lambda x: x if x is mu else mk('cat', mu, T.subst(x.args[1], {ln: sofar})), e)
                ls = T.leaves(e)
            tail = lambda x: x.args[1] if len(x.args) == 2 else mk('cat', *x.args[1:])
            tails = [tail(x) for x in ls if x is not mu]
            if all(t.op == 'flist' and len(t.args) == 1 for t in tails):
                elem = lift(lambda x: tail(x).args[0] if x is not mu else tails[0].args[0], e)
                # the element only matters where the guard holds
                elem = self.under(g, elem)

                def final(c):
                    return T.seq_cat(init, T.mkfilt(c, k, g, elem))
                return (final(kk), final)
            # several elements per iteration
            block = lift(lambda x: T.flist([]) if x is mu else tail(x), e)

            def final(c):
                return T.seq_cat(init, flatten_seq(T.mkmap(c, k, block)))
            return (final(kk), final)
        # element stores  mu[k] := v
        slot = self.slot(e, mu)
        if slot is None:
            return self.block_store(init, mu, e, k, key)
        idx, val = slot        # val may read mu only at idx
        d = const_value(T.rsub(idx, kk))
        if d is None:
            return None
        own = T.seq_get(mu, idx)
        v = val
        if key in T.symbols(v):
            m = T.subst(v, {key: self.only_slot(init, mu, idx)})
            if T.symbols(m) & {key} or self.bad_slot(m):
                return None
            v = m
        if mu.args[2] != 'any' and False:
            pass

        def final(c, v=v, d=d):
            n = T.seq_len(init)
            off = num(d)
            if c is n and d == 0:
                return T.mkmap(n, k, v)
            j = T.fresh_index()
            inside = T.subst(v, {k: T.rsub(atom(j), off)})
            cond = T.TRUE
            if c.op == 'dec':
                return lift(lambda x: final(x), c)
            hi = T.radd(c, off)
            if d == 0:
                return T.seq_cat(T.mkmap(c, k, v), T.seq_slice(init, c, n))
            if hi is n:
                return T.seq_cat(T.seq_slice(init, ZERO, off), T.mkmap(c, k, v))
            return T.seq_cat(T.seq_slice(init, ZERO, off), T.mkmap(c, k, v), T.seq_slice(init, hi, n))
        return (final(kk), final)

    def slot(self, e, mu):
        """e == store(mu, idx, val) on every leaf (or mu) -> (idx, gated val)"""
        idx = None
        for x in T.leaves(e):
            if x is mu:
                continue
            if x.op == 'store' and x.args[0] is mu:
                if idx is None:
                    idx = x.args[1]
                elif idx is not x.args[1]:
                    return None
            else:
                return None
        if idx is None or idx.op != 'rat':
            return None
        own = T.seq_get(mu, idx)
        return idx, lift(lambda x: own if x is mu else x.args[2], e)

    def only_slot(self, init, mu, idx):
        """init if it is only read at idx"""
        return mk('slotseq', init, idx, mu.args[2])

    def bad_slot(self, t):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, Term):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'slotseq':
                    return True
                st.extend(x.args)
        return False

    def block_store(self, init, mu, e, k, key):
        """mu[b*k : b*k+b] := rows   (b constant)"""
        if e.op != 'blkstore' or e.args[0] is not mu:
            return None
        lo, rows = e.args[1], e.args[2]
        if rows.op != 'flist' or key in T.symbols(rows):
            return None
        b = len(rows.args)
        if T.rsub(lo, T.rmul(num(b), atom(k))) is not ZERO:
            return None

        def final(c):
            n = T.seq_len(init)
            full = flatten_seq(T.mkmap(c, k, rows))
            tot = T.rmul(num(b), c) if c.op == 'rat' else None
            if tot is n:
                return full
            if tot is None:
                return unk('block store')
            return T.seq_cat(full, T.seq_slice(init, tot, n))
        return (final(atom(k)), final)

    def under(self, g, v):
        """simplify v where g is TRUE (don't care elsewhere)"""
        if g is TRUE or v.op != 'dec':
            return v
        if g.op != 'dec':
            return v
        a = min([g.args[0], v.args[0]], key=T._akey)
        ar = 3 if a.op == 'sgn' else 2
        br = []
        for i in range(ar):
            gi = T.cofactor(g, a, i)
            br.append(None if gi is FALSE else self.under(gi, T.cofactor(v, a, i)))
        live = [b for b in br if b is not None]
        if not live:
            return v
        if all(b is live[0] for b in live):
            return live[0]
        return T.mkdec(a, [live[0] if b is None else b for b in br])

    def while_trip(self, c0, leafs, k):
        """trip count of  while i < N  with  i += step"""
        if c0.op != 'dec' or c0.args[0].op != 'sgn':
            return None
        P = c0.args[0].args[0]
        if P.args[1]:
            return None
        for cell, path, init, mu, e in leafs:
            if mu.op != 'rat':
                continue
            key = self.mu_key(mu)
            if key not in T.symbols(P):
                continue
            if e.op != 'rat':
                continue
            step = const_value(T.rsub(e, mu))
            if step is None or step == 0:
                continue
            # P = a*mu + rest
            z = T.subst(P, {key: ZERO})
            a = const_value(T.rsub(T.subst(P, {key: ONE}), z))
            if a is None or a == 0 or T.subst(P, {key: num(2)}) is not T.radd(z, num(2 * a)):
                continue
            N = T.rdiv(T.rneg(z), num(a))
            mus = {self.mu_key(l[3]) for l in leafs}
            if T.symbols(N) & mus:
                continue
            if abs(step) != 1:
                continue
            if step == 1:
                if T.lt(mu, N) is c0:
                    return T.rsub(N, init), cell
                if T.le(mu, N) is c0:
                    return T.radd(T.rsub(N, init), ONE), cell
            else:
                if T.lt(N, mu) is c0:
                    return T.rsub(init, N), cell
                if T.le(N, mu) is c0:
                    return T.radd(T.rsub(init, N), ONE), cell
        return None

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        if v.op == 'dec':
            if not any(x.op == 'ref' for x in T.leaves(v)):
                return T.lift(lambda x: self.truth(st, x), v)
            return self.lift_st(st, lambda s, x: self.truth(s, x), v)
        if v is TRUE or v is FALSE:
            return v
        if v.op == 'const':
            return TRUE if v.args[0] else FALSE
        if v.op == 'rat':
            return T.sgn3(v, TRUE, FALSE, TRUE)
        if v.op == 'ref':
            o = st.heap[v.args[0]]
            if o.kind == 'list':
                return self.truth(st, T.seq_len(o.data))
            if o.kind == 'dict':
                if o.data and self.np.dict_keys(o) is None:
                    return unk('entries of a dictionary')
                return TRUE if o.data else FALSE
            if o.kind == 'inst':
                if self.cls_find(o.cls, '__bool__'):
                    return self.truth(st, self.call(st, self.getattr(st, v, '__bool__'), [], {}, None))
                return TRUE
        if v.op == 'nd' and len(v.args[3]) == 1:
            return self.truth(st, self.nd_elems(st, v)[0])
        if v.op in ('nd', 'nds'):
            return unk('truth value of an array')
        if v.op in ('tup', 'flist'):
            return TRUE if v.args else FALSE
        if v.op in ('fn', 'cls', 'mod', 'bi', 'bound', 'clo', 'fobj'):
            return TRUE
        if v.op == 'unk':
            return v
        return T.bool_atom(v)

    # ------------------------------------------------------------ expressions
    def eval(self, st, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note('unsupported expression ' + type(n).__name__, n)
            return unk('expression ' + type(n).__name__)
        v = m(st, n)
        return v

    def e_Constant(self, st, n):
        if isinstance(n.value, complex):
            return unk('complex')
        return T.const(n.value)

    def e_Name(self, st, n):
        v = self.lookup(st, n.id, n)
        if v is UNDEF:
            return unk('undefined %s' % n.id)
        return v

    def e_NamedExpr(self, st, n):
        v = self.eval(st, n.value)
        self.bind(st, n.target.id, v, n)
        return v

    def e_Attribute(self, st, n):
        return self.getattr(st, self.eval(st, n.value), n.attr, n)

    def e_Tuple(self, st, n):
        return tup(self.elts(st, n.elts))

    def elts(self, st, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.eval(st, e.value)
                it = self.items(st, v)
                if it is None:
                    out.append(unk('star'))
                else:
                    out += it
            else:
                out.append(self.eval(st, e))
        return out

    def e_List(self, st, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            seq = T.flist([])
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    seq = T.seq_cat(seq, self.as_seq(st, self.eval(st, e.value)))
                else:
                    seq = T.seq_cat(seq, T.flist([self.eval(st, e)]))
            return self.new_list(st, seq)
        return self.new_list(st, T.flist([self.eval(st, e) for e in n.elts]))

    def as_seq(self, st, v):
        """sequence term of an iterable value"""
        if v.op == 'dec':
            return lift(lambda x: self.as_seq(st, x), v)
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'list':
            return st.heap[v.args[0]].data
        if v.op == 'tup':
            return T.flist(v.args)
        if v.op == 'nds':
            return self.nds_seq(st, v)
        if v.op == 'nd':
            it = self.items(st, v)
            return T.flist([self.freeze(st, x) for x in it]) if it is not None else unk('seq')
        if v.op == 'it':
            n, get = self.iters[v.args[0]]
            c = int_value(n) if n.op == 'rat' else None
            if c is not None and c <= self.unroll:
                return T.flist([get(st, num(i)) for i in range(c)])
            st.env['%it'] = v
            r = self.comp(st, ITEMS.generators, lambda s: s.env['%x'], ITEMS)
            del st.env['%it']
            return r
        if self.is_frozen(v):
            return v
        if v.op == 'const' and isinstance(v.args[0], str):
            return T.flist([T.const(c) for c in v.args[0]])
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'dict':
            ks = self.np.dict_keys(st.heap[v.args[0]])
            return unk('entries of a dictionary') if ks is None else T.flist(ks)
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst' and self.record(st.heap[v.args[0]]):
            return T.flist(self.items(st, v))
        if v.unk:
            return unk('seq')
        return mk('symseq', v, atom(mk('app', 'len', v)), 'any')

    def e_Set(self, st, n):
        return T.app('set', T.flist([self.freeze(st, self.eval(st, e)) for e in n.elts]))

    def e_Dict(self, st, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(st, v)
                x = self.thaw(st, x) if x.op == 'fdict' else x
                if x.op == 'ref' and st.heap[x.args[0]].kind == 'dict':
                    items.extend(st.heap[x.args[0]].data)
                else:
                    items.append((mk('const', '<unknown>'), unk('dict splat')))
            else:
                items.append((self.freeze(st, self.eval(st, k)), self.eval(st, v)))
        d = {}
        for k, v in items:
            d[k] = v
        return self.alloc(st, Obj('dict', tuple(d.items())))

    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(T.const(v.value))
            else:
                parts.append(self.freeze(st, self.eval(st, v.value)))
        return self.np.mkstr(parts)

    def e_UnaryOp(self, st, n):
        v = self.eval(st, n.operand)
        if isinstance(n.op, ast.Not):
            return self.neg(self.truth(st, v))
        if isinstance(n.op, ast.USub):
            return self.lift_st(st, lambda s, x: self.usub(s, x, n), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return self.np.invert(self, st, v)

    def neg(self, c):
        return c if c.op == 'unk' else bnot(c)

    def usub(self, st, v, n):
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst':
            return self.call(st, self.getattr(st, v, '__neg__', n), [], {}, n)
        if v.op in ('nd', 'nds'):
            return self.np.elementwise(self, st, lambda x: T.lift(lambda y: T.rneg(as_rat(y)), x), v)
        if v.unk:
            return v
        return T.rneg(as_rat(v))

    def e_BinOp(self, st, n):
        a = self.eval(st, n.left)
        b = self.eval(st, n.right)
        return self.binop(st, n.op, a, b, n)

    OPS = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'),
           ast.Mult: ('__mul__', '__rmul__'), ast.Div: ('__truediv__', '__rtruediv__'),
           ast.MatMult: ('__matmul__', '__rmatmul__'), ast.Pow: ('__pow__', '__rpow__'),
           ast.FloorDiv: ('__floordiv__', '__rfloordiv__'), ast.Mod: ('__mod__', '__rmod__')}

    def binop(self, st, op, a, b, n):
        if a.op == 'dec' and any(not x.op == 'rat' for x in T.leaves(a)) or \
           b.op == 'dec' and any(not x.op == 'rat' for x in T.leaves(b)):
            return self.lift_st(st, lambda s, x, y: self.binop(s, op, x, y, n), a, b)
        if self.is_frozen(a):
            a = self.thaw(st, a)
        if self.is_frozen(b):
            b = self.thaw(st, b)
        ia = a.op == 'ref' and st.heap[a.args[0]].kind == 'inst'
        ib = b.op == 'ref' and st.heap[b.args[0]].kind == 'inst'
        if ia or ib:
            names = self.OPS.get(type(op))
            if ia and names and self.cls_find(st.heap[a.args[0]].cls, names[0]):
                r = self.call(st, self.getattr(st, a, names[0], n), [b], {}, n)
                if r not in (T.const('<NotImplemented>'), mk('bi', 'NotImplemented')):
                    return r
                if not ib or st.heap[a.args[0]].cls == st.heap[b.args[0]].cls or not self.cls_find(
                        st.heap[b.args[0]].cls, names[1]):
                    raise Raises('operands do not support %s' % type(op).__name__)
            if ib and names and self.cls_find(st.heap[b.args[0]].cls, names[1]):
                return self.call(st, self.getattr(st, b, names[1], n), [a], {}, n)
            if names and all(x.op == 'rat' or (i and self.cls_closed(st.heap[x.args[0]].cls))
                             for x, i in ((a, ia), (b, ib))):
                raise Raises('operands do not support %s' % type(op).__name__)
            return unk('operator on object')
        return self.np.binop(self, st, op, a, b, n)

    def cls_closed(self, cls):
        """all bases are classes of the repository (or object)"""
        m, c = self.cls_node(cls)
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            return False
        return True

    def e_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)
        v = self.eval(st, n.values[0])
        for e in n.values[1:]:
            c = self.truth(st, v)
            if c.op == 'unk':
                return c
            if (c is TRUE) == isand and c in (TRUE, FALSE):
                v = self.eval(st, e)
                continue
            if c in (TRUE, FALSE):
                return v
            s2 = st.fork(c if isand else bnot(c))
            w = self.eval(s2, e)
            s1 = st.fork(bnot(c) if isand else c)
            m = State(st.env, {}, st.pc)
            self.merge_heap(m, c, s2 if isand else s1, s1 if isand else s2)
            # boolean-valued when used as a condition
            if all(x in (TRUE, FALSE) for x in T.leaves(v)):
                if all(x in (TRUE, FALSE) for x in T.leaves(w)):
                    v = band(v, w) if isand else bor(v, w)
                else:
                    v = ite(c, w, FALSE) if isand else ite(c, TRUE, w)
            else:
                v = ite(c, w, v) if isand else ite(c, v, w)
            st.heap, st.origin = m.heap, m.origin
        return v

    def e_Compare(self, st, n):
        left = self.eval(st, n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(st, r)
            c = self.np.compare(self, st, op, left, right, n)
            if res is None:
                res = c
            else:
                res = c if res is TRUE else (res if res.op == 'unk' else band(res, self.truth(st, c)))
            left = right
        return res

    def e_IfExp(self, st, n):
        c = self.truth(st, self.eval(st, n.test))
        if c is TRUE:
            return self.eval(st, n.body)
        if c is FALSE:
            return self.eval(st, n.orelse)
        if c.op == 'unk':
            c = T.bool_atom(mk('app', 'unkcond', c))
        s1, s2 = st.fork(c), st.fork(bnot(c))
        a = self.eval(s1, n.body)
        b = self.eval(s2, n.orelse)
        m = State(st.env, {}, st.pc)
        v = self.merge_val(m, s1, s2, c, a, b)
        self.merge_heap(m, c, s1, s2)
        st.heap, st.origin = m.heap, m.origin
        return v

    def e_Lambda(self, st, n):
        self.closures.append((n, dict(st.env), self.stack[-1][0] if self.stack else '', '<lambda>',
                              self.stack[-1][5] if self.stack else None, self.inner_defaults(st, n)))
        return mk('clo', len(self.closures) - 1)

    def e_Starred(self, st, n):
        return self.eval(st, n.value)

    def e_Call(self, st, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.stack:
            mod, cls = self.stack[-1][4] or (None, None)
            selfv = st.env.get('self')
            if cls and selfv is not None:
                return mk('super', (mod, cls), selfv)
        f = self.eval(st, n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value)
                it = self.items(st, v)
                if it is None:
                    if f.op == 'bi':
                        args.append(mk('app', 'star', self.as_seq(st, v)))
                        continue
                    it = self.star_fit(st, f, v, len(args))
                if it is None:
                    self.note('star arguments', n)
                    return unk('star arguments')
                args += it
            else:
                args.append(self.eval(st, a))
        kw = {}
        for k in n.keywords:
            v = self.eval(st, k.value)
            if k.arg is None:
                if v.op == 'fdict':
                    v = self.thaw(st, v)
                if v.op == 'ref' and st.heap[v.args[0]].kind == 'dict' and \
                        all(kk.op == 'const' for kk, vv in st.heap[v.args[0]].data):
                    for kk, vv in st.heap[v.args[0]].data:
                        kw[kk.args[0]] = vv
                else:
                    self.note('keyword splat', n)
                    return unk('keyword splat')
            else:
                kw[k.arg] = v
        return self.call(st, f, args, kw, n)

    def star_fit(self, st, f, v, have):
        """*v for a symbolic-length v: as many elements as there are parameters"""
        g = f
        extra = 0
        if g.op == 'bound':
            g = g.args[0]
            extra = 1
        if g.op != 'fn':
            return None
        m, node = self.repo.find(g.args[0], g.args[1])
        want = len(node.args.args) - have - extra
        it = self.iterable(st, v)
        if it is None:
            return None
        return [it[1](st, num(i)) for i in range(want)]

    def index(self, st, s):
        if isinstance(s, ast.Slice):
            return mk('slice', self.eval(st, s.lower) if s.lower else NONE,
                      self.eval(st, s.upper) if s.upper else NONE,
                      self.eval(st, s.step) if s.step else NONE)
        if isinstance(s, ast.Tuple):
            return mk('tup', *[self.index(st, e) for e in s.elts])
        if isinstance(s, ast.Index):        # pragma: no cover (old trees)
            return self.index(st, s.value)
        return self.eval(st, s)

    def e_Subscript(self, st, n):
        base = self.eval(st, n.value)
        idx = self.index(st, n.slice)
        if base.op == 'bi' and base.args[0] in ('np.r_', 'np.c_', 'numpy.r_', 'numpy.c_'):
            return self.np.concat_index(self, st, base.args[0].split('.')[1], idx, n)
        return self.np.subscript(self, st, base, idx, n)

    # comprehensions
    def e_ListComp(self, st, n):
        return self.new_list(st, self.comp(st, n.generators, lambda s: self.eval(s, n.elt), n))

    def e_GeneratorExp(self, st, n):
        return self.np.as_iter(self, st, self.new_list(st, self.comp(st, n.generators, lambda s: self.eval(s, n.elt), n)))

    def e_SetComp(self, st, n):
        return T.app('set', self.freeze(st, self.comp(st, n.generators, lambda s: self.eval(s, n.elt), n)))

    def e_DictComp(self, st, n):
        q = self.comp(st, n.generators,
                      lambda s: tup([self.freeze(s, self.eval(s, n.key)), self.eval(s, n.value)]), n)
        if q.op == 'flist':
            d = {}
            for x in q.args:
                d[x.args[0]] = x.args[1]
            return self.alloc(st, Obj('dict', tuple(d.items())))
        return mk('app', 'dict', self.freeze(st, q))

    def comp(self, st, gens, elt, node):
        saved = dict(st.env)
        try:
            return self.comp1(st, gens, elt, node)
        finally:
            keep = {k: v for k, v in st.env.items() if k in saved}
            st.env = dict(saved)
            del keep

    def comp1(self, st, gens, elt, node):
        g = gens[0]
        v = self.eval(st, g.iter)
        it = self.iterable(st, v, node)
        if it is None or it[0] is None:
            return unk('comprehension over unknown value')
        n, get = it
        c = int_value(n) if n.op == 'rat' else None
        if c is not None and c <= self.unroll:
            seq = T.flist([])
            for i in range(max(c, 0)):
                self.assign(st, g.target, get(st, num(i)), node)
                cond = TRUE
                for f in g.ifs:
                    x = self.truth(st, self.eval(st, f))
                    cond = x if cond is TRUE else band(cond, x)
                if cond is FALSE:
                    continue
                if cond.unk:
                    return unk('filter')
                sub = self.comp1(st, gens[1:], elt, node) if len(gens) > 1 else T.flist([elt(st)])
                if cond is TRUE:
                    seq = T.seq_cat(seq, sub)
                else:
                    s0 = seq
                    seq = ite(cond, lift(lambda a, b: T.seq_cat(a, b), seq, sub), seq) \
                        if seq.op != 'dec' else lift(
                            lambda a: ite(cond, T.seq_cat(a, sub), a), seq)
            return seq
        k = T.fresh_index()
        kk = atom(k)
        s = st.fork(TRUE)
        cond = TRUE
        marks = [len(x) for x in (self.effects, self.asserts, self.loops, self.raises, self.callsites, self.notes)]
        q = st.heap[v.args[0]].data if v.op == 'ref' and st.heap[v.args[0]].kind == 'list' else v
        if q.op == 'filt' and not self.has_ref(q):
            # the elements of a filtered list: those of the list filtered by both conditions
            m = {q.args[1]: kk}
            n, cond = q.args[0], T.subst(q.args[2], m)
            self.assign(s, g.target, self.thaw(s, T.subst(q.args[3], m)), node)
        else:
            self.assign(s, g.target, get(s, kk), node)
        for f in g.ifs:
            x = self.truth(s, self.eval(s, f))
            cond = x if cond is TRUE else band(cond, x)
        if cond.unk and cond.op == 'unk':
            return unk('filter')
        if len(gens) > 1:
            inner = self.freeze(s, self.comp1(s, gens[1:], elt, node))
            if cond is not TRUE:
                inner = ite(cond, inner, T.flist([]))
            r = flatten_seq(T.mkmap(n, k, inner))
        else:
            e = elt(s)
            # elements that are existing objects keep their identity
            e = self.freeze_new(st, s, e)
            r = T.mkfilt(n, k, cond, self.under(cond, e))
        changed = []
        for l in [l for l, o in s.heap.items() if o.kind == 'box' and l not in st.heap]:
            if self.touched(s, l):
                self.fill(st, l, UNDEF)
        for l, o in st.heap.items():
            o2 = s.heap.get(l)
            if o2 is None:
                continue
            if o2 is not o and not (o.kind == 'box' and o2 is not None and o.data is o2.data):
                a, b = self.freeze_loc(st, l), self.freeze_loc(s, l)
                if a is not b:
                    changed.append((l, a, b))
        if any(not (b.op == 'store' and b.args[0] is a and b.args[1] is kk) for l, a, b in changed):
            # not independent of each other: as a loop
            for x, m in zip((self.effects, self.asserts, self.loops, self.raises, self.callsites, self.notes), marks):
                del x[m:]
            return self.comp_loop(st, gens, node, n, get)
        for l, a, b in changed:
            self.comp_effect(st, s, l, n, k, a, b)
        return r

    def comp_loop(self, st, gens, node, n, get):
        key = (node, len(gens))
        if key not in self._comp:
            elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()) if isinstance(node, ast.DictComp) else node.elt
            b = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id='%acc', ctx=ast.Load()), attr='append',
                                                           ctx=ast.Load()), args=[elt], keywords=[]))
            for i, g in enumerate(reversed(gens)):
                for c in reversed(g.ifs):
                    b = ast.If(test=c, body=[b], orelse=[])
                if i < len(gens) - 1:
                    b = ast.For(target=g.target, iter=g.iter, body=[b], orelse=[])
            self._comp[key] = ast.fix_missing_locations(ast.copy_location(b, node))
        st.env['%acc'] = self.new_list(st, T.flist([]))
        f = self.loop(node, st, n, lambda s, k: self.assign(s, gens[0].target, get(s, k), node), [self._comp[key]], [])
        if f.next is None or f.ret or f.brk:
            raise TooBig('comprehension')
        st.env, st.heap, st.origin = f.next.env, f.next.heap, f.next.origin
        return st.heap[st.env['%acc'].args[0]].data

    _comp = {}

    def comp_effect(self, st, s, l, n, k, a, b):
        """in-place update of element k of a pre-existing list"""
        if b.op == 'store' and b.args[0] is a and b.args[1] is atom(k):
            st.heap[l] = st.heap[l].w(T.mkmap(n, k, b.args[2]))
            return
        self.note('side effect in comprehension')
        self.set_content(st, l, unk('comprehension side effect'))

    def freeze_new(self, st, s, e):
        """freeze objects allocated inside an iteration; keep outer refs"""
        if e.op in ('ref', 'nd', 'nds') and e.args[0] in st.heap:
            return e
        return self.freeze(s, e)

    def e_Await(self, st, n):
        return unk('await')

    def e_Yield(self, st, n):
        self.note('yield expression', n)
        return NONE


def leafs_is_num(leafs, key, it):
    for cell, path, init, mu, e in leafs:
        if it.mu_key(mu) is key:
            return mu.op == 'rat'
    return False


def leafs_is_seq(leafs, key, it):
    for cell, path, init, mu, e in leafs:
        if it.mu_key(mu) is key:
            return mu.op == 'symseq'
    return False


def flatten_seq(m):
    """concatenation of the sequences in a sequence"""
    if m.op == 'flist':
        r = T.flist([])
        for x in m.args:
            r = T.seq_cat(r, x)
        return r
    if m.op == 'map' and m.args[2].op == 'flist' and len(m.args[2].args) == 1:
        n, b, e = m.args
        k = T.fresh_index()
        return T.mkmap(n, k, T.subst(e.args[0], {b: atom(k)}))
    if m.op == 'map':
        # one element where a guard holds, nothing elsewhere: a filter
        n, b, e = m.args
        ls = T.leaves(e)
        if ls and all(x.op == 'flist' and len(x.args) <= 1 for x in ls):
            g = lift(lambda x: TRUE if x.args else FALSE, e)
            d = [x for x in ls if x.args][0].args[0]
            el = lift(lambda x: x.args[0] if x.args else d, e)
            k = T.fresh_index()
            mm = {b: atom(k)}
            return T.mkfilt(n, k, T.subst(g, mm), T.subst(el, mm))
    return mk('flat', m)
