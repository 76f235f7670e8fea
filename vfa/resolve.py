"""Whole-program name, attribute, call and tuple length resolution (flow-insensitive types)."""
import ast
import glob
import importlib
import os
import pkgutil
import string
import sys

from . import defined, library
from .defined import scope_nodes, assigned, params

ANY = ('any',)
NONE = ('none',)
DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
          ast.Mod: 'mod', ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitOr: 'or', ast.BitAnd: 'and',
          ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}
TOP = frozenset([ANY])
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__', '__weakref__', '__slots__'}


def join(*ts):
    r = frozenset().union(*ts) if ts else frozenset()
    if ANY in r:
        return TOP
    if len(r) > 12:
        return TOP
    return r


def depth(t):
    if t[0] == 'list':
        return 1 + max([depth(x) for x in t[1]] or [0])
    if t[0] == 'tuple':
        return 1 + max([depth(x) for s in t[1] for x in s] or [0])
    return 0


def mklist(el):
    t = ('list', el)
    return frozenset([t]) if depth(t) < 5 else frozenset([('list', TOP)])


def mktuple(els):
    t = ('tuple', tuple(els))
    return frozenset([t]) if depth(t) < 5 else frozenset([('tuple', tuple(TOP for e in els))])


class Cls(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.attrs = {}, set()
        for n in node.body:
            if isinstance(n, SCOPES):
                self.methods[n.name] = n
        self.attrs |= {x for x in assigned(node.body)}


class Scope(object):
    """a module, function or class body"""
    def __init__(self, mod, node, parent, cls=None, qual=''):
        self.mod, self.node, self.parent, self.cls, self.qual = mod, node, parent, cls, qual
        body = node.body
        self.body = body if isinstance(body, list) else [ast.Expr(body)]
        self.globals = defined.declared_global(self.body)
        self.args = getattr(node, 'args', None)
        self.names = (assigned(self.body) | set(params(self.args) if self.args else [])) - self.globals
        self.key = id(node)


class Program(object):
    def __init__(self, repo):
        self.repo = repo
        self.scopes = []
        self.classes = {}       # id(node) -> Cls
        self.fscope = {}        # id(function node) -> Scope
        self.modscope = {}
        self.T = {}             # type table
        self.extern = {}
        self.argparse = {}
        self.methods = {}
        for m in repo.modules.values():
            self.collect(m)
        for c in self.classes.values():
            for n in c.methods:
                self.methods.setdefault(n, []).append(c)
        self.changed = True
        rounds = 0
        while self.changed and rounds < 60:
            self.changed = False
            rounds += 1
            for s in self.scopes:
                self.flow(s)
        self.stable = not self.changed

    # ---- scopes
    def collect(self, m):
        top = Scope(m, m.tree, None)
        self.modscope[m.name] = top
        self.scopes.append(top)
        top.names |= {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names}
        self.nest(top, m.tree.body, '')

    def nest(self, scope, body, qual):
        for n in scope_nodes(body):
            if isinstance(n, SCOPES):
                q = qual + n.name
                s = Scope(scope.mod, n, scope, qual=q)
                if isinstance(scope.node, ast.ClassDef):
                    s.cls = self.classes[id(scope.node)]
                else:
                    s.cls = None
                self.scopes.append(s)
                self.fscope[id(n)] = s
                self.nest(s, n.body, q + '.')
            elif isinstance(n, ast.ClassDef):
                c = Cls(scope.mod, n)
                self.classes[id(n)] = c
                s = Scope(scope.mod, n, scope, qual=qual + n.name)
                self.scopes.append(s)
                self.nest(s, n.body, qual + n.name + '.')

    # ---- lookup
    def owner(self, scope, name):
        """scope that binds a name (class bodies are invisible from their functions)"""
        s = scope
        first = True
        while s is not None:
            if (first or not isinstance(s.node, ast.ClassDef)) and name in s.names:
                return s
            if name in s.globals:
                return self.modscope[s.mod.name]
            s = s.parent
            first = False
        return None

    def var(self, scope, name):
        s = self.owner(scope, name)
        if s is None:
            return TOP
        return self.T.get(('var', s.key, name), frozenset())

    def put(self, key, t):
        if not t:
            return
        old = self.T.get(key, frozenset())
        if isinstance(key[0], str) and ANY in old:
            return
        new = join(old, t)
        lists = [x for x in new if x[0] == 'list']
        if len(lists) > 1:
            new = join(frozenset(x for x in new if x[0] != 'list'), mklist(join(*[x[1] for x in lists])))
        if new != old:
            self.T[key] = new
            self.changed = True

    def bind(self, scope, name, t):
        s = self.owner(scope, name)
        if s is not None:
            self.put(('var', s.key, name), t)

    # ---- classes
    def mro(self, c, seen=()):
        """the class and its own bases; None if a base is not known"""
        out = [c]
        for b in c.node.bases:
            ts = self.expr(self.fscope.get(id(c.node)) or self.modscope[c.mod.name], b)
            k = [t for t in ts if t[0] == 'class']
            if isinstance(b, ast.Name) and b.id == 'object' and not k:
                continue
            if len(k) != 1 or len(ts) != 1:
                return None
            d = self.classes[k[0][1]]
            if d in seen:
                return None
            r = self.mro(d, seen + (c,))
            if r is None:
                return None
            out += r
        return out

    def member(self, c, name):
        """types of an attribute of an instance; None: does not exist"""
        ms = self.mro(c)
        if ms is None:
            return TOP
        if name in OBJECT:
            return TOP
        r = frozenset()
        found = False
        for d in ms:
            f = d.methods.get(name)
            if f is not None:
                decos = [ast.unparse(x) for x in f.decorator_list]
                if any(x == 'property' or x.endswith('.setter') for x in decos):
                    return self.T.get(('ret', id(f)), frozenset())
                if 'staticmethod' in decos:
                    return frozenset([('func', id(f))])
                if [x for x in decos if x != 'classmethod']:
                    return TOP
                return frozenset([('bound', id(f), id(d.node))])
            if name in d.attrs:
                found = True
                r = join(r, self.T.get(('attr', id(d.node), name), frozenset()),
                         self.T.get(('var', id(d.node), name), frozenset()))
        if any('__getattr__' in d.methods for d in ms):
            return TOP
        return r if found else None

    # ---- external modules
    def external(self, name):
        """top-level names of a module outside the repository; None if not known"""
        if name in self.extern:
            return self.extern[name]
        r = None
        top = name.split('.')[0]
        try:
            if top in ('numpy', 'scipy', 'matplotlib', 'yaml'):
                r = self.stub(name)
            elif top in sys.stdlib_module_names and top not in ('antigravity', 'this', 'distutils'):
                m = importlib.import_module(name)
                r = set(dir(m)) | {x.name for x in pkgutil.iter_modules(getattr(m, '__path__', None) or [])}
        except Exception:
            r = None
        self.extern[name] = r
        return r

    def stub(self, name):
        for base in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')):
            p = os.path.join(base, *name.split('.'))
            for f in (p + '.pyi', os.path.join(p, '__init__.pyi'), p + '.py', os.path.join(p, '__init__.py')):
                if os.path.exists(f):
                    tree = ast.parse(open(f, encoding='utf-8').read())
                    stars = [library.public(library.absolute(name, f, n)) for n in ast.walk(tree)
                             if isinstance(n, ast.ImportFrom) and n.names[0].name == '*']
                    if any(x is None for x in stars):
                        return None
                    out = assigned(tree.body).union(*stars)
                    if any(isinstance(n, ast.FunctionDef) and n.name == '__getattr__' for n in tree.body) and \
                            not f.endswith('.pyi'):
                        return None
                    d = os.path.dirname(f)
                    if os.path.basename(f).startswith('__init__'):
                        out |= {x.split('.')[0] for x in os.listdir(d)}
                    return out | {'__version__', '__file__', '__name__', '__path__', '__doc__'}
        return None

    def module_type(self, name):
        if name in self.repo.modules:
            return frozenset([('mod', name)])
        if any(x.startswith(name + '.') for x in self.repo.modules):
            return frozenset([('mod', name)])
        return frozenset([('ext', name)])

    def modattr(self, name, attr):
        """types of module.attr; None: does not exist"""
        if name in self.modscope:
            s = self.modscope[name]
            if attr in s.names:
                return self.T.get(('var', s.key, attr), frozenset())
            if name + '.' + attr in self.repo.modules:
                return self.module_type(name + '.' + attr)
            if attr in ('__file__', '__name__', '__doc__'):
                return TOP
            return None
        full = name + '.' + attr
        if full in self.repo.modules or any(x.startswith(full + '.') for x in self.repo.modules):
            return self.module_type(full)
        if any(x.startswith(name + '.') for x in self.repo.modules):
            return None
        return TOP

    # ---- argument parsers
    def parser_names(self, mod):
        """destinations of the options a module declares; None if some are not literal"""
        if mod.name in self.argparse:
            return self.argparse[mod.name]
        out = set()
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
                kw = {k.arg: k.value for k in n.keywords}
                if 'dest' in kw:
                    d = kw['dest']
                    if not isinstance(d, ast.Constant):
                        out = None
                        break
                    out.add(d.value)
                    continue
                if not n.args or not all(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in n.args):
                    out = None
                    break
                long = [a.value for a in n.args if a.value.startswith('--')]
                out.add((long or [n.args[0].value])[0].lstrip('-').replace('-', '_'))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'set_defaults':
                if any(k.arg is None for k in n.keywords):
                    out = None
                    break
                out |= {k.arg for k in n.keywords}
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ('add_subparsers', 'Namespace') or \
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                out = None
                break
            elif isinstance(n, ast.Call) and any(k.arg == 'parents' for k in n.keywords):
                out = None
                break
        self.argparse[mod.name] = out
        return out

    # ---- types of expressions
    def expr(self, scope, e, local=None):
        t = type(e)
        if t is ast.Constant:
            return frozenset([NONE]) if e.value is None else TOP
        if t is ast.Name:
            if local and e.id in local:
                return local[e.id]
            if e.id == 'NotImplemented':
                return frozenset([NONE])
            return self.var(scope, e.id)
        if t is ast.Attribute:
            return self.attribute(scope, e, local)[0]
        if t is ast.Call:
            return self.call(scope, e, local)
        if t is ast.BinOp:
            l = self.expr(scope, e.left, local)
            r = self.expr(scope, e.right, local)
            return self.binop(e.op, l, r)
        if t is ast.UnaryOp:
            if isinstance(e.op, ast.Not):
                return TOP
            out = []
            for x in self.expr(scope, e.operand, local):
                if x[0] == 'inst':
                    m = self.member(self.classes[x[1]], {ast.USub: '__neg__', ast.UAdd: '__pos__',
                                                        ast.Invert: '__invert__'}[type(e.op)])
                    out.append(TOP if m is None else self.returns(m))
                elif x != NONE:
                    return TOP
            return join(*out)
        if t is ast.BoolOp:
            return join(*[self.expr(scope, x, local) for x in e.values])
        if t is ast.IfExp:
            return join(self.expr(scope, e.body, local), self.expr(scope, e.orelse, local))
        if t in (ast.List, ast.Set):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return mklist(TOP)
            return mklist(join(*[self.expr(scope, x, local) for x in e.elts]))
        if t is ast.Tuple:
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return TOP
            return mktuple([self.expr(scope, x, local) or frozenset() for x in e.elts])
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            loc = dict(local or {})
            for g in e.generators:
                self.targets(scope, g.target, self.elem(self.expr(scope, g.iter, loc)), loc)
            return mklist(self.expr(scope, e.elt, loc))
        if t is ast.Subscript:
            b = self.expr(scope, e.value, local)
            out = []
            for x in b:
                if x[0] == 'list':
                    out.append(frozenset([x]) if isinstance(e.slice, ast.Slice) else x[1])
                elif x[0] == 'tuple' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                        -len(x[1]) <= e.slice.value < len(x[1]):
                    out.append(x[1][e.slice.value])
                elif x == NONE:
                    continue
                elif x[0] == 'tuple':
                    out.append(TOP if isinstance(e.slice, ast.Slice) else join(*x[1]))
                else:
                    return TOP
            return join(*out)
        if t is ast.NamedExpr:
            return self.expr(scope, e.value, local)
        if t is ast.Starred:
            return TOP
        return TOP

    def elem(self, ts):
        out = []
        for x in ts:
            if x[0] == 'list':
                out.append(x[1])
            elif x[0] == 'tuple':
                out.append(join(*x[1]))
            elif x != NONE:
                return TOP
        return join(*out)

    def binop(self, op, l, r):
        if not l or not r:
            return frozenset()
        d = DUNDER.get(type(op))
        out = []
        l, r = l - {NONE}, r - {NONE}
        if not l:
            return l
        for x in l:
            if x[0] == 'inst':
                m = self.member(self.classes[x[1]], '__%s__' % d)
                if m is None:
                    return TOP
                for y in m:
                    if y[0] == 'bound':
                        fs = self.fscope[y[1]]
                        ps = [q.arg for q in fs.args.args]
                        if len(ps) == 2:
                            self.bind(fs, ps[1], r)
                out.append(self.returns(m))
            elif x[0] == 'list' and d == 'add':
                for y in r:
                    if y[0] == 'list':
                        out.append(mklist(join(x[1], y[1])))
                    else:
                        return TOP
            elif x[0] == 'list' and d == 'mul':
                out.append(frozenset([x]))
            elif x[0] == 'tuple' and d == 'add':
                for y in r:
                    if y[0] == 'tuple':
                        out.append(mktuple(x[1] + y[1]))
                    else:
                        return TOP
            elif x == ANY:
                for y in r:
                    if y[0] == 'inst':
                        m = self.member(self.classes[y[1]], '__r%s__' % d)
                        out.append(TOP)
                    else:
                        return TOP
            else:
                return TOP
        return join(*out)

    def returns(self, ts):
        out = []
        for x in ts or ():
            if x[0] in ('func', 'bound'):
                out.append(self.T.get(('ret', x[1]), frozenset()))
            elif x[0] == 'class':
                out.append(frozenset([('inst', x[1])]))
            else:
                return TOP
        return join(*out)

    def call(self, scope, e, local):
        f = e.func
        # containers and copies
        name = None
        if isinstance(f, ast.Name) and self.owner(scope, f.id) is None and not (local and f.id in local):
            name = f.id
        fts = None
        if name is None:
            fts = self.expr(scope, f, local)
            ext = [x for x in fts if x[0] == 'extattr']
            if len(fts) == 1 and ext:
                name = ext[0][1]
        if name is not None:
            a = [self.expr(scope, x, local) for x in e.args]
            star = any(isinstance(x, ast.Starred) for x in e.args)
            if name in ('copy.copy', 'copy.deepcopy') and len(a) == 1:
                return a[0]
            if name in ('list', 'sorted', 'reversed', 'tuple', 'set', 'iter') and len(a) >= 1 and not star:
                return mklist(self.elem(a[0])) if a[0] else frozenset()
            if name == 'list':
                return mklist(frozenset())
            if name in ('zip', 'itertools.izip') and a and not star:
                return mklist(mktuple([self.elem(x) for x in a]))
            if name == 'enumerate' and a:
                return mklist(mktuple([TOP, self.elem(a[0])]))
            if name in ('range', 'xrange'):
                return mklist(TOP)
            if name in ('itertools.combinations', 'itertools.permutations') and len(e.args) == 2 and \
                    isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, int):
                return mklist(mktuple([self.elem(a[0])] * e.args[1].value))
            if name == 'itertools.compress' and a:
                return mklist(self.elem(a[0])) if a[0] else frozenset()
            return TOP
        if isinstance(f, ast.Attribute) and f.attr in ('copy', 'pop') and not e.args:
            b = self.expr(scope, f.value, local)
            ls = [x for x in b if x[0] == 'list']
            if ls and len(ls) == len(b - {NONE}):
                return b if f.attr == 'copy' else self.elem(b)
        if isinstance(f, ast.Attribute) and f.attr in ('parse_args',) and ANY in fts:
            return frozenset([('args', scope.mod.name)])
        return self.returns(fts)

    def attribute(self, scope, e, local):
        """(types, receivers without the attribute, receivers)"""
        b = self.expr(scope, e.value, local)
        out, missing, known = [], [], []
        for x in b:
            if x[0] == 'inst':
                m = self.member(self.classes[x[1]], e.attr)
                known.append(x)
                if m is None:
                    missing.append(x)
                else:
                    out.append(m)
            elif x[0] == 'class':
                c = self.classes[x[1]]
                m = self.member(c, e.attr)
                known.append(x)
                if m is None:
                    missing.append(x)
                else:
                    # a plain method taken from the class needs its instance
                    out.append(frozenset(('unbound', y[1], y[2]) if y[0] == 'bound' and
                                         not any(ast.unparse(d) == 'classmethod'
                                                 for d in self.fscope[y[1]].node.decorator_list)
                                         else y for y in m))
            elif x[0] == 'mod':
                m = self.modattr(x[1], e.attr)
                known.append(x)
                if m is None:
                    missing.append(x)
                else:
                    out.append(m)
            elif x[0] == 'ext':
                names = self.external(x[1])
                known.append(x)
                if names is not None and e.attr not in names:
                    missing.append(x)
                sub = x[1] + '.' + e.attr
                if names is not None and (x[1].split('.')[0] in ('numpy', 'scipy', 'matplotlib') or sub == 'os.path') and \
                        sub in ('numpy.linalg', 'numpy.random', 'numpy.fft', 'os.path', 'matplotlib.pyplot',
                                'numpy.testing', 'numpy.ma', 'scipy.signal', 'scipy.linalg'):
                    out.append(frozenset([('ext', sub)]))
                else:
                    out.append(frozenset([('extattr', sub)]))
            elif x[0] == 'args':
                names = self.parser_names(self.repo.modules[x[1]])
                known.append(x)
                if names is not None and e.attr not in names and not e.attr.startswith('_'):
                    missing.append(x)
                out.append(TOP)
            elif x == NONE:
                continue
            else:
                out.append(TOP)
        return join(*out), missing, known

    # ---- flow of types through one scope
    def targets(self, scope, t, ts, local=None):
        if isinstance(t, ast.Name):
            if local is not None:
                local[t.id] = ts
            else:
                self.bind(scope, t.id, ts)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                out = []
                for y in ts:
                    if y[0] == 'tuple' and len(y[1]) == len(t.elts):
                        out.append(y[1][i])
                    elif y[0] == 'list':
                        out.append(y[1])
                    elif y[0] in ('tuple', 'none'):
                        continue
                    else:
                        out.append(TOP)
                if isinstance(x, ast.Starred):
                    self.targets(scope, x.value, TOP, local)
                else:
                    self.targets(scope, x, join(*out), local)
        elif isinstance(t, ast.Attribute):
            for y in self.expr(scope, t.value, local):
                if y[0] in ('inst', 'class'):
                    c = self.classes[y[1]]
                    ms = self.mro(c) or [c]
                    own = [d for d in ms if t.attr in d.attrs]
                    d = own[0] if own else c
                    if t.attr not in d.attrs and t.attr not in d.methods:
                        d.attrs.add(t.attr)
                        self.changed = True
                    self.put(('attr', id(d.node), t.attr), ts)
        elif isinstance(t, ast.Subscript):
            self.grow(scope, t.value, ts)
        elif isinstance(t, ast.Starred):
            self.targets(scope, t.value, TOP, local)

    def grow(self, scope, e, ts):
        """a list expression gets further elements"""
        if isinstance(e, ast.Name):
            b = self.var(scope, e.id)
            if any(x[0] == 'list' for x in b):
                self.bind(scope, e.id, mklist(ts))
        elif isinstance(e, ast.Attribute):
            for y in self.expr(scope, e.value):
                if y[0] in ('inst', 'class'):
                    k = ('attr', y[1], e.attr)
                    if any(x[0] == 'list' for x in self.T.get(k, ())):
                        self.put(k, mklist(ts))

    def flow(self, s):
        node = s.node
        if isinstance(node, SCOPES):
            self.parameters(s)
        for n in scope_nodes(s.body):
            t = type(n)
            if t is ast.Assign:
                ts = self.expr(s, n.value)
                for x in n.targets:
                    self.targets(s, x, ts)
            elif t is ast.AnnAssign and n.value is not None:
                self.targets(s, n.target, self.expr(s, n.value))
            elif t is ast.AugAssign:
                l = self.expr(s, n.target)
                r = self.expr(s, n.value)
                self.targets(s, n.target, self.binop(n.op, l, r))
            elif t in (ast.For, ast.AsyncFor):
                self.targets(s, n.target, self.elem(self.expr(s, n.iter)))
            elif t in (ast.With, ast.AsyncWith):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.targets(s, i.optional_vars, TOP)
            elif t is ast.NamedExpr:
                self.targets(s, n.target, self.expr(s, n.value))
            elif t is ast.ExceptHandler and n.name:
                self.bind(s, n.name, TOP)
            elif t in SCOPES:
                if not isinstance(s.node, ast.ClassDef):
                    self.bind(s, n.name, TOP if n.decorator_list else frozenset([('func', id(n))]))
            elif t is ast.ClassDef:
                self.bind(s, n.name, frozenset([('class', id(n))]))
            elif t is ast.Import:
                for a in n.names:
                    if a.asname:
                        self.bind(s, a.asname, self.module_type(a.name))
                    else:
                        top = a.name.split('.')[0]
                        self.bind(s, top, self.module_type(top))
            elif t is ast.ImportFrom:
                for a in n.names:
                    if a.name == '*':
                        continue
                    t2 = self.imported(n.module or '', a.name)
                    self.bind(s, a.asname or a.name, TOP if t2 is None else t2)
            elif t is ast.Return and isinstance(node, SCOPES):
                self.put(('ret', id(node)), self.expr(s, n.value) if n.value is not None else frozenset([NONE]))
            elif t in (ast.Yield, ast.YieldFrom) and isinstance(node, SCOPES):
                self.put(('ret', id(node)), TOP)
            elif t is ast.Call:
                self.arguments(s, n)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'insert', 'extend') and n.args:
                    v = self.expr(s, n.args[-1])
                    self.grow(s, n.func.value, self.elem(v) if n.func.attr == 'extend' else v)
            if t in COMPS or t is ast.Lambda:
                for c in ast.walk(n):
                    if isinstance(c, ast.Call):
                        self.unknown_arguments(s, c)
        if isinstance(node, SCOPES) and not any(isinstance(n, ast.Return) and n.value is not None
                                                for n in scope_nodes(s.body)):
            self.put(('ret', id(node)), frozenset([NONE]))

    def imported(self, mod, name):
        """types of "from mod import name"; None: does not exist"""
        if mod in self.repo.modules or any(x.startswith(mod + '.') for x in self.repo.modules):
            return self.modattr(mod, name)
        names = self.external(mod)
        if names is not None and name not in names:
            return None
        if mod in ('matplotlib', 'numpy', 'scipy', 'os') and name in ('pyplot', 'pylab', 'linalg', 'path', 'signal'):
            return frozenset([('ext', mod + '.' + name)])
        return frozenset([('extattr', mod + '.' + name)])

    def parameters(self, s):
        a = s.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if s.cls is not None and ps:
            decos = [ast.unparse(d) for d in s.node.decorator_list]
            if 'staticmethod' not in decos:
                kind = 'class' if 'classmethod' in decos or s.node.name == '__new__' else 'inst'
                self.bind(s, ps[0], frozenset([(kind, id(s.cls.node))]))
        if a.vararg:
            self.bind(s, a.vararg.arg, TOP)
        if a.kwarg:
            self.bind(s, a.kwarg.arg, TOP)
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + \
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            self.bind(s, p, self.expr(s.parent, d))

    def callees(self, scope, fts):
        """[(function node, number of leading parameters already given)]"""
        out = []
        for x in fts:
            if x[0] == 'func':
                out.append((self.fscope[x[1]].node, 0))
            elif x[0] == 'bound':
                out.append((self.fscope[x[1]].node, 1))
            elif x[0] == 'unbound':
                out.append((self.fscope[x[1]].node, 0))
            elif x[0] == 'class':
                ms = self.mro(self.classes[x[1]])
                if ms is None:
                    return None
                for d in ms:
                    if '__init__' in d.methods:
                        out.append((d.methods['__init__'], 1))
                        break
                else:
                    if any('__new__' in d.methods for d in ms):
                        return None
                    out.append((None, 0))
            elif x == NONE:
                continue
            else:
                return None
        return out

    def arguments(self, s, n, local=None):
        """types of arguments flow into the parameters"""
        fts = self.expr(s, n.func, local)
        if any(x[0] == 'extattr' for x in fts) or ANY in fts:
            # a function passed on (partial, map, Pool.map): its parameters are not known
            if isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass', 'type', 'print', 'str'):
                return
            for x in list(n.args) + [k.value for k in n.keywords]:
                for y in self.expr(s, x, local):
                    if y[0] in ('func', 'bound', 'unbound'):
                        self.escape(y)
                    if y[0] == 'class':
                        ini = self.classes[y[1]].methods.get('__init__')
                        if ini is not None:
                            self.escape(('bound', id(ini)))
            if isinstance(n.func, ast.Attribute) and ANY in fts and not n.func.attr.startswith('__'):
                # unknown receiver: every method of that name may be meant
                for c in self.methods.get(n.func.attr, ()):
                    self.feed(s, n, c.methods[n.func.attr], 1, local)
            return
        for f, k in self.callees(s, fts) or ():
            if f is not None:
                self.feed(s, n, f, k, local)

    def feed(self, s, n, f, k, local=None):
        fs = self.fscope[id(f)]
        ps = [x.arg for x in f.args.posonlyargs + f.args.args][k:]
        if any(isinstance(x, ast.Starred) for x in n.args) or any(x.arg is None for x in n.keywords):
            for p in ps:
                self.bind(fs, p, TOP)
            return
        for p, x in zip(ps, n.args):
            self.bind(fs, p, self.expr(s, x, local))
        for kw in n.keywords:
            if kw.arg in fs.names:
                self.bind(fs, kw.arg, self.expr(s, kw.value, local))

    def unknown_arguments(self, s, n):
        """calls inside comprehensions and lambdas: argument types are not tracked"""
        fts = self.expr(s, n.func) if not isinstance(n.func, ast.Name) or self.owner(s, n.func.id) else frozenset()
        for f, k in self.callees(s, fts) or ():
            if f is not None:
                self.escape(('bound' if k else 'func', id(f)))
        if isinstance(n.func, ast.Attribute) and not n.func.attr.startswith('__'):
            for c in self.methods.get(n.func.attr, ()):
                self.escape(('bound', id(c.methods[n.func.attr])))

    def escape(self, y):
        fs = self.fscope[y[1]]
        for p in [x.arg for x in fs.args.posonlyargs + fs.args.args][1 if y[0] == 'bound' else 0:]:
            self.bind(fs, p, TOP)

    # ---- the checks
    def unresolved(self, s):
        """names of a scope that nothing binds: [(name, node)], number of names looked at"""
        bad, n = [], [0]

        def go(e, inner):
            if isinstance(e, ast.Name):
                if isinstance(e.ctx, ast.Load) and e.id not in inner:
                    n[0] += 1
                    if self.owner(s, e.id) is None and e.id not in defined.BUILTINS:
                        bad.append((e.id, e))
                return
            if isinstance(e, COMPS):
                inn = set(inner)
                for g in e.generators:
                    go(g.iter, inn)
                    inn |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for c in g.ifs:
                        go(c, inn)
                for c in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    go(c, inn)
                return
            if isinstance(e, ast.Lambda):
                for d in e.args.defaults:
                    go(d, inner)
                go(e.body, inner | set(params(e.args)))
                return
            if isinstance(e, SCOPES):
                for d in e.decorator_list + e.args.defaults + [x for x in e.args.kw_defaults if x]:
                    go(d, inner)
                return
            if isinstance(e, ast.ClassDef):
                for d in e.decorator_list + e.bases + [k.value for k in e.keywords]:
                    go(d, inner)
                return
            for c in ast.iter_child_nodes(e):
                go(c, inner)
        star = any(isinstance(x, ast.ImportFrom) and x.names[0].name == '*' for x in ast.walk(s.mod.tree))
        for x in s.body:
            go(x, set())
        return ([] if star else bad), n[0]

    def sites(self, s):
        """expression nodes of a scope with the types of comprehension variables"""
        def go(e, local):
            if isinstance(e, COMPS):
                loc = dict(local)
                for g in e.generators:
                    yield from go(g.iter, loc)
                    self.targets(s, g.target, self.elem(self.expr(s, g.iter, loc)), loc)
                    for c in g.ifs:
                        yield from go(c, loc)
                for c in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    yield from go(c, loc)
                return
            if isinstance(e, ast.Lambda):
                loc = dict(local)
                for p in params(e.args):
                    loc[p] = TOP
                yield from go(e.body, loc)
                return
            if isinstance(e, SCOPES + (ast.ClassDef,)):
                for d in e.decorator_list:
                    yield from go(d, local)
                return
            yield e, local
            for c in ast.iter_child_nodes(e):
                yield from go(c, local)
        for x in s.body:
            yield from go(x, {})

    def mismatch(self, f, k, n):
        """why a call does not fit a function; None if it does"""
        if f is None:
            return 'takes no arguments' if n.args or n.keywords else None
        a = f.args
        if any(isinstance(x, ast.Starred) for x in n.args) or any(x.arg is None for x in n.keywords):
            return None
        pos = [x.arg for x in a.posonlyargs + a.args][k:]
        kwo = [x.arg for x in a.kwonlyargs]
        need = pos[:max(0, len(pos) - len(a.defaults))]
        if len(n.args) > len(pos) and not a.vararg:
            return 'takes %d positional arguments, %d given' % (len(pos), len(n.args))
        given = set(pos[:len(n.args)])
        for kw in n.keywords:
            if kw.arg not in pos + kwo and not a.kwarg:
                return 'has no parameter %s' % kw.arg
            if kw.arg in given:
                return 'gets %s twice' % kw.arg
            given.add(kw.arg)
        miss = [p for p in need if p not in given] + \
            [p for p, d in zip(kwo, a.kw_defaults) if d is None and p not in given]
        return 'misses the argument %s' % ', '.join(miss) if miss else None

    def lengths(self, s, e, local):
        """known tuple lengths of a value: [(length or None for no tuple, where)], direct"""
        if isinstance(e, ast.Call):
            fts = self.expr(s, e.func, local)
            fs = [x for x in fts if x[0] in ('func', 'bound', 'unbound')]
            if fs and len(fs) == len(fts):
                out = []
                for x in fs:
                    f = self.fscope[x[1]]
                    for r in scope_nodes(f.body):
                        if isinstance(r, ast.Return):
                            if r.value is None or isinstance(r.value, ast.Constant):
                                out.append((0 if r.value is None or r.value.value is None else 1, r, f))
                            elif isinstance(r.value, ast.Tuple) and \
                                    not any(isinstance(y, ast.Starred) for y in r.value.elts):
                                out.append((len(r.value.elts), r, f))
                            else:
                                ls = {len(y[1]) if y[0] == 'tuple' else None for y in self.expr(f, r.value)}
                                if len(ls) == 1 and None not in ls:
                                    out.append((ls.pop(), r, f))
                return out
        ts = self.expr(s, e, local)
        ls = {len(y[1]) if y[0] == 'tuple' else None for y in ts}
        if len(ls) == 1 and None not in ls:
            return [(ls.pop(), e, s)]
        return []


def fields(text):
    """(number of automatic fields, highest explicit index, names) of a format string"""
    auto, top, names = 0, -1, set()
    for lit, name, spec, conv in string.Formatter().parse(text):
        if name is None:
            continue
        for x in [name]:
            head = x.split('.')[0].split('[')[0]
            if head == '':
                auto += 1
            elif head.isdigit():
                top = max(top, int(head))
            else:
                names.add(head)
        if spec:
            a, t, n = fields(spec)
            auto += a
            top = max(top, t)
            names |= n
    return auto, top, names
