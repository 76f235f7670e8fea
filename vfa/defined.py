"""Definite assignment: forward dataflow with guarded joins.

Every variable carries the condition under which it is bound, as a decision diagram over
branch conditions (conditions on unchanged values are the same atom everywhere).  At a use
the path condition must imply the binding condition.  Loops are taken to run at least once;
the body is analysed for the first and for a later iteration."""
import ast
import builtins

from .bdd import Bdd

PURE_TERMINATORS = {'exit', 'quit'}
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', 'unicode', 'xrange', 'raw_input', 'basestring', 'long'}


class State(object):
    def __init__(self, pc, bound, vals):
        self.pc = pc
        self.bound = bound      # name -> bdd
        self.vals = vals        # name -> gated value (tree)

    def copy(self):
        return State(self.pc, dict(self.bound), dict(self.vals))


class Analysis(object):
    """definite assignment of one scope"""

    def __init__(self, local, report):
        self.b = Bdd()
        self.local = local
        self.report = report
        self.n = 0
        self.cmp = {}
        self.breaks = []
        self.conts = []
        self.maybe = False
        self.uses = 0
        self.returns = []

    # ---- values: ('k', const) | ('v', id) | ('ite', bdd, a, b)
    def fresh(self):
        self.n += 1
        return ('v', self.n)

    def vite(self, c, a, b):
        if c is True or a == b:
            return a
        if c is False:
            return b
        return ('ite', c, a, b)

    def vsize(self, v):
        return 1 if v[0] != 'ite' else self.vsize(v[2]) + self.vsize(v[3])

    def value(self, st, e):
        if isinstance(e, ast.Constant):
            return ('k', e.value)
        if isinstance(e, ast.Name) and e.id in self.local:
            return st.vals.get(e.id) or ('v', 'init ' + e.id)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and \
                isinstance(e.operand.value, (int, float)):
            return ('k', -e.operand.value)
        if isinstance(e, ast.IfExp):
            c = self.cond(st, e.test)
            return self.vite(c, self.value(st, e.body), self.value(st, e.orelse))
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.cond(st, e)
            return self.vite(c, ('k', True), ('k', False))
        if isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.ListComp, ast.JoinedStr)):
            return self.fresh() + ('object',)
        return self.fresh()

    def text(self, st, e):
        """text of an expression with the versions of the variables in it"""
        t = ast.unparse(e)
        vs = sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and n.id in self.local})
        return (t,) + tuple((v, repr_val(st.vals.get(v))) for v in vs)

    def cond(self, st, e):
        b = self.b
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return b.neg(self.cond(st, e.operand))
        if isinstance(e, ast.BoolOp):
            r = self.cond(st, e.values[0])
            for x in e.values[1:]:
                y = self.cond(st, x)
                r = b.conj(r, y) if isinstance(e.op, ast.And) else b.disj(r, y)
            return r
        if isinstance(e, ast.Name) and e.id in self.local:
            return self.over(st.vals.get(e.id), lambda v: bool(v[1]) if v[0] == 'k' else b.atom(('truth', v)))
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            r = True
            l = e.left
            for op, x in zip(e.ops, e.comparators):
                r = b.conj(r, self.cond(st, ast.copy_location(ast.Compare(l, [op], [x]), e)))
                l = x
            return r
        if isinstance(e, ast.Compare):
            return self.compare(st, e.left, e.ops[0], e.comparators[0])
        return b.atom(('truth', self.text(st, e)))

    def over(self, v, f):
        if v is None:
            return self.b.atom(('any', self.fresh()))
        if v[0] == 'ite':
            return self.b.ite(v[1], self.over(v[2], f), self.over(v[3], f))
        return f(v)

    def compare(self, st, l, op, r):
        b = self.b
        t = type(op)
        if t in (ast.NotEq, ast.IsNot, ast.NotIn):
            return b.neg(self.compare(st, l, {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[t](), r))
        if t in (ast.Gt, ast.GtE):
            return b.neg(self.compare(st, l, (ast.LtE if t is ast.Gt else ast.Lt)(), r))
        kl, kr = konst(l), konst(r)
        if kl is not None and kr is None and t in (ast.Eq, ast.Is):
            l, r, kl, kr = r, l, kr, kl
        if kl is not None and kr is None and t in (ast.Lt, ast.LtE):
            return b.neg(self.compare(st, r, (ast.LtE if t is ast.Lt else ast.Lt)(), l))
        if kr is not None:
            k = kr[0]

            def leaf(v):
                if v[0] == 'k':
                    try:
                        return {ast.Eq: lambda: v[1] == k, ast.Is: lambda: v[1] is k or v[1] == k,
                                ast.Lt: lambda: v[1] < k, ast.LtE: lambda: v[1] <= k,
                                ast.In: lambda: v[1] in k}[t]()
                    except TypeError:
                        return b.atom(('any', self.fresh()))
                if k is None and v[-1] == 'object':
                    return False
                return self.ordered(('val', v), t, k)
            if isinstance(l, ast.Name) and l.id in self.local:
                return self.over(st.vals.get(l.id), leaf)
            return self.ordered(self.text(st, l), t, k)
        return b.atom(('cmp', t.__name__, self.text(st, l), self.text(st, r)))

    def ordered(self, key, t, k):
        a = ('cmp', t.__name__, key, k if k is None or isinstance(k, (int, float, str, bool)) else repr(k))
        if isinstance(k, (int, float)) and t in (ast.Lt, ast.LtE) or t in (ast.Eq, ast.Is):
            self.cmp.setdefault(key, set()).add(a)
        return self.b.atom(a)

    def theory(self, f):
        """f restricted to consistent comparisons of one value with constants"""
        b = self.b
        names = b.support(f)
        by = {}
        for a in names:
            if a[0] == 'cmp' and a[2] in self.cmp and a in self.cmp[a[2]]:
                by.setdefault(a[2], []).append(a)
        for key, atoms in by.items():
            for x in atoms:
                for y in atoms:
                    if x is y:
                        continue
                    tx, ty, kx, ky = x[1], y[1], x[3], y[3]
                    if tx in ('Lt', 'LtE') and ty in ('Lt', 'LtE'):
                        if kx < ky or kx == ky and (tx == 'Lt' or ty == 'LtE'):
                            f = b.conj(f, b.ite(b.atom(x), b.atom(y), True))
                    elif tx in ('Eq', 'Is') and ty in ('Eq', 'Is'):
                        if type(kx) is not type(ky) or kx != ky:
                            f = b.conj(f, b.neg(b.conj(b.atom(x), b.atom(y))))
                    elif tx in ('Eq', 'Is') and isinstance(kx, (int, float)) and ty in ('Lt', 'LtE'):
                        v = kx < ky if ty == 'Lt' else kx <= ky
                        f = b.conj(f, b.ite(b.atom(x), b.atom(y) if v else b.neg(b.atom(y)), True))
        return f

    # ---- uses and definitions
    def use(self, st, name, node):
        self.uses += 1
        bad = self.b.conj(st.pc, self.b.neg(st.bound.get(name, False)))
        if bad is False:
            return
        bad = self.theory(bad)
        if bad is False:
            return
        w = self.b.witness(bad)
        self.report(name, node, w)
        st.bound[name] = True

    def define(self, st, name, v=None):
        st.bound[name] = True
        st.vals[name] = v if v is not None and self.vsize(v) < 30 else self.fresh()

    def expr(self, st, e):
        """uses of an expression in evaluation order (short circuits refine the path)"""
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local:
                self.use(st, e.id, e)
            return
        if isinstance(e, ast.BoolOp):
            keep = st.pc
            for x in e.values:
                self.expr(st, x)
                c = self.cond(st, x)
                st.pc = self.b.conj(st.pc, c if isinstance(e.op, ast.And) else self.b.neg(c))
            st.pc = keep
            return
        if isinstance(e, ast.IfExp):
            self.expr(st, e.test)
            c = self.cond(st, e.test)
            keep = st.pc
            st.pc = self.b.conj(keep, c)
            self.expr(st, e.body)
            st.pc = self.b.conj(keep, self.b.neg(c))
            self.expr(st, e.orelse)
            st.pc = keep
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(st, d)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            saved = self.local
            self.expr(st, e.generators[0].iter)
            self.local = saved - inner
            for g in e.generators[1:]:
                self.expr(st, g.iter)
            for g in e.generators:
                for x in g.ifs:
                    self.expr(st, x)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(st, x)
            self.local = saved
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(st, e.value)
            if e.target.id in self.local:
                self.define(st, e.target.id)
            return
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(st, x)
            elif isinstance(x, ast.keyword):
                self.expr(st, x.value)

    def target(self, st, t, v=None):
        if isinstance(t, ast.Name):
            if t.id in self.local:
                self.define(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(st, x)
        elif isinstance(t, ast.Starred):
            self.target(st, t.value)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.expr(st, t.value)
            if isinstance(t, ast.Subscript):
                self.expr(st, t.slice)
            r = t
            while isinstance(r, (ast.Attribute, ast.Subscript)):
                r = r.value
            if isinstance(r, ast.Name) and r.id in self.local and isinstance(t, ast.Attribute):
                st.vals[r.id] = self.fresh()

    # ---- statements: return the following state or None
    def merge(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = State(self.b.ite(c, a.pc, b.pc), {}, {})
        for n in set(a.bound) | set(b.bound):
            r.bound[n] = self.b.ite(c, a.bound.get(n, False), b.bound.get(n, False))
        for n in set(a.vals) | set(b.vals):
            x, y = a.vals.get(n), b.vals.get(n)
            if x is None or y is None:
                r.vals[n] = x or y
            else:
                v = self.vite(c, x, y)
                r.vals[n] = v if self.vsize(v) < 30 else self.fresh()
        return r

    def block(self, stmts, st):
        for s in stmts:
            if st is None or st.pc is False:
                return None
            st = self.stmt(s, st)
        return st

    def terminates(self, e):
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in PURE_TERMINATORS:
                return True
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                return (f.value.id, f.attr) in (('sys', 'exit'), ('os', '_exit'), ('os', 'abort')) or \
                    f.attr in ('error', 'exit') and 'parser' in f.value.id
        return False

    def stmt(self, s, st):
        t = type(s)
        if t is ast.Expr:
            self.expr(st, s.value)
            return None if self.terminates(s.value) else st
        if t is ast.Assign:
            self.expr(st, s.value)
            v = self.value(st, s.value)
            for x in s.targets:
                if isinstance(x, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and \
                        len(x.elts) == len(s.value.elts):
                    vs = [self.value(st, y) for y in s.value.elts]
                    for y, w in zip(x.elts, vs):
                        self.target(st, y, w)
                else:
                    self.target(st, x, v)
            return st
        if t is ast.AugAssign:
            self.expr(st, s.value)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local:
                    self.use(st, s.target.id, s.target)
                    self.define(st, s.target.id)
            else:
                self.target(st, s.target)
            return st
        if t is ast.AnnAssign:
            if s.value is not None:
                self.expr(st, s.value)
                self.target(st, s.target, self.value(st, s.value))
            return st
        if t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Name):
                    if x.id in self.local:
                        self.use(st, x.id, x)
                        st.bound[x.id] = False
                else:
                    self.expr(st, x)
            return st
        if t in (ast.Return,):
            self.expr(st, s.value)
            return None
        if t is ast.Raise:
            self.expr(st, s.exc)
            return None
        if t is ast.Assert:
            self.expr(st, s.test)
            c = self.cond(st, s.test)
            if s.msg is not None:
                f = st.copy()
                f.pc = self.b.conj(st.pc, self.b.neg(c))
                if f.pc is not False:
                    self.expr(f, s.msg)
            st.pc = self.b.conj(st.pc, c)
            return None if st.pc is False else st
        if t is ast.If:
            self.expr(st, s.test)
            c = self.cond(st, s.test)
            a, b = st.copy(), st.copy()
            a.pc, b.pc = self.b.conj(st.pc, c), self.b.conj(st.pc, self.b.neg(c))
            a = self.block(s.body, a) if a.pc is not False else None
            b = self.block(s.orelse, b) if b.pc is not False else None
            return self.merge(c, a, b)
        if t in (ast.For, ast.AsyncFor):
            self.expr(st, s.iter)
            return self.loop(s, st, lambda x: self.target(x, s.target))
        if t is ast.While:
            inf = isinstance(s.test, ast.Constant) and bool(s.test.value)

            def head(x):
                self.expr(x, s.test)
                if not inf:
                    x.pc = self.b.conj(x.pc, self.cond(x, s.test))
            return self.loop(s, st, head, inf)
        if t is ast.Try or t.__name__ == 'TryStar':
            return self.trystmt(s, st)
        if t in (ast.With, ast.AsyncWith):
            for i in s.items:
                self.expr(st, i.context_expr)
                if i.optional_vars is not None:
                    self.target(st, i.optional_vars)
            return self.block(s.body, st)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            for d in s.decorator_list:
                self.expr(st, d)
            if t is not ast.ClassDef:
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    self.expr(st, d)
            if s.name in self.local:
                self.define(st, s.name)
            return st
        if t in (ast.Import, ast.ImportFrom):
            for a in s.names:
                n = a.asname or a.name.split('.')[0]
                if n in self.local:
                    self.define(st, n)
            return st
        if t is ast.Break:
            if self.breaks:
                self.breaks[-1].append(st)
            return None
        if t is ast.Continue:
            if self.conts:
                self.conts[-1].append(st)
            return None
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(st, e)
        return st

    def joins(self, states):
        r = None
        for x in states:
            if x is None:
                continue
            if r is None:
                r = x
            else:
                # which of the exits was taken is unknown here: both must be fine
                c = self.b.atom(('exit', self.fresh()))
                r = self.merge(c, x, r)
        return r

    def loop(self, s, st, head, inf=False):
        entry = st.copy()
        keep = st.pc
        self.breaks.append([])
        self.conts.append([])
        # first iteration
        x = st.copy()
        head(x)
        end = self.block(s.body, x) if x.pc is not False else None
        end = self.joins([end] + self.conts[-1])
        outs = []
        if end is not None:
            # a later iteration: bindings stay, values are unknown
            self.conts[-1] = []
            y = end.copy()
            for n in assigned(s.body):
                if n in self.local and n in y.vals:
                    y.vals[n] = self.fresh()
            y.pc = keep
            z = y.copy()
            head(z)
            end2 = self.block(s.body, z) if z.pc is not False else None
            end2 = self.joins([end2] + self.conts[-1])
            after = end2 or end
            after = after.copy()
            # bindings as after the first iteration at least
            for n in after.bound:
                after.bound[n] = self.b.disj(after.bound[n], end.bound.get(n, False))
            for n in assigned(s.body):
                if n in self.local and n in after.vals:
                    after.vals[n] = self.fresh()
            after.pc = keep
            if not inf:
                if s.orelse:
                    after = self.block(s.orelse, after)
                outs.append(after)
        breaks = self.breaks.pop()
        self.conts.pop()
        for b in breaks:
            b.pc = keep if b.pc is not False else False
        r = self.joins(outs + breaks)
        if r is None and not breaks and not inf:
            return None
        if r is not None:
            r.pc = keep
        return r

    def trystmt(self, s, st):
        entry = st.copy()
        # bindings made before anything can fail
        safe = st.copy()
        for x in s.body:
            if isinstance(x, ast.Assign) and harmless(x.value):
                for y in x.targets:
                    self.target(safe, y)
            elif isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            else:
                break
        for n in assigned(s.body):
            if n in self.local and n not in safe.vals:
                safe.vals[n] = self.fresh()
            elif n in self.local and not safe.bound.get(n, False) is True:
                safe.vals[n] = self.fresh()
        end = self.block(s.body, st)
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        outs = [end]
        for h in s.handlers:
            x = safe.copy()
            a = self.b.atom(('raised', self.fresh()))
            x.pc = self.b.conj(entry.pc, a)
            if h.type is not None:
                self.expr(x, h.type)
            if h.name and h.name in self.local:
                self.define(x, h.name)
            x = self.block(h.body, x)
            if x is not None:
                if h.name and h.name in self.local:
                    x.bound[h.name] = False
                r = outs[0]
                outs[0] = self.merge(a, x, r)
        end = outs[0]
        if s.finalbody:
            if end is None:
                self.block(s.finalbody, safe.copy())
                return None
            keep = dict(end.bound)
            f = end.copy()
            return self.block(s.finalbody, f)
        return end


def harmless(e):
    return all(isinstance(x, (ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.expr_context, ast.UnaryOp, ast.USub))
               for x in ast.walk(e))


def konst(e):
    if isinstance(e, ast.Constant):
        return (e.value,)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and \
            isinstance(e.operand.value, (int, float)):
        return (-e.operand.value,)
    return None


def repr_val(v):
    if v is None:
        return None
    if v[0] == 'ite':
        return ('ite', id(v[1]) if not isinstance(v[1], bool) else v[1], repr_val(v[2]), repr_val(v[3]))
    return v


def scope_nodes(body):
    """nodes of a scope without those of nested scopes"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # targets belong to the comprehension
            for g in n.generators:
                todo.append(g.iter)
            continue
        todo.extend(ast.iter_child_nodes(n))


def assigned(body):
    out = set()
    for n in scope_nodes(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def declared_global(body):
    return {x for n in scope_nodes(body) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}


def params(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def check_scope(body, args, report):
    """uses of local variables that may be unbound; returns the number of uses looked at"""
    ps = params(args) if args is not None else []
    local = (assigned(body) | set(ps)) - declared_global(body)
    a = Analysis(local, report)
    st = State(True, {p: True for p in ps}, {p: ('v', 'param ' + p) for p in ps})
    a.block(body, st)
    return a.uses
