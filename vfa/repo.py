"""Loads the analysed source tree (parsing only; nothing is imported or run)."""
import ast
import os
import warnings

from . import terms as T

REPO = os.environ.get('VFA_REPO', '/repo')


class AnchorError(Exception):
    """A construct a property is anchored to is no longer there."""


class Cases(ast.NodeTransformer):
    """match statements as chains of conditions"""
    count = 0

    def visit_Match(self, n):
        self.generic_visit(n)
        Cases.count += 1
        name = '_subject%d' % Cases.count
        first = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=n.subject)
        out = last = None
        for c in n.cases:
            binds = []
            test = self.pattern(c.pattern, ast.Name(id=name, ctx=ast.Load()), binds)
            if c.guard is not None:
                test = ast.BoolOp(op=ast.And(), values=[test, Replace(dict(binds)).visit(c.guard)])
            body = [ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=v) for k, v in binds] + c.body
            if isinstance(test, ast.Constant) and last is not None:
                last.orelse = body
                break
            i = ast.If(test=test, body=body, orelse=[])
            if last is None:
                out = i
            else:
                last.orelse = [i]
            last = i
        for x in (first, out):
            for y in ast.walk(x):
                if not hasattr(y, 'lineno') and isinstance(y, (ast.stmt, ast.expr)):
                    ast.copy_location(y, n)
        return [first, out]

    def pattern(self, p, v, binds):
        """condition under which the value v has the shape p"""
        t = type(p)
        if t is ast.MatchValue:
            return ast.Compare(left=v, ops=[ast.Eq()], comparators=[p.value])
        if t is ast.MatchSingleton:
            return ast.Compare(left=v, ops=[ast.Is()], comparators=[ast.Constant(value=p.value)])
        if t is ast.MatchAs:
            r = ast.Constant(value=True) if p.pattern is None else self.pattern(p.pattern, v, binds)
            if p.name:
                binds.append((p.name, v))
            return r
        if t is ast.MatchOr:
            return ast.BoolOp(op=ast.Or(), values=[self.pattern(x, v, binds) for x in p.patterns])
        item = lambda k: ast.Subscript(value=v, slice=k, ctx=ast.Load())
        length = ast.Call(func=ast.Name(id='len', ctx=ast.Load()), args=[v], keywords=[])
        if t is ast.MatchSequence:
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            k = len(p.patterns)
            tests = [ast.Compare(left=length, ops=[ast.GtE() if star else ast.Eq()],
                                 comparators=[ast.Constant(value=k - len(star))])]
            for i, x in enumerate(p.patterns):
                if star and i == star[0]:
                    if x.name:
                        end = ast.Constant(value=i + 1 - k) if i + 1 < k else None
                        binds.append((x.name, ast.Call(func=ast.Name(id='list', ctx=ast.Load()), args=[
                            item(ast.Slice(lower=ast.Constant(value=i), upper=end))], keywords=[])))
                    continue
                tests.append(self.pattern(x, item(ast.Constant(value=i - k if star and i > star[0] else i)), binds))
        elif t is ast.MatchMapping:
            tests = []
            for k, x in zip(p.keys, p.patterns):
                tests.append(ast.Compare(left=k, ops=[ast.In()], comparators=[v]))
                tests.append(self.pattern(x, item(k), binds))
            if p.rest:
                binds.append((p.rest, ast.Call(func=ast.Name(id='dict', ctx=ast.Load()), args=[v], keywords=[])))
        else:
            tests = [ast.Call(func=ast.Name(id='isinstance', ctx=ast.Load()), args=[v, p.cls], keywords=[])]
            for i, x in enumerate(p.patterns):
                tests.append(self.pattern(x, v if len(p.patterns) == 1 else item(ast.Constant(value=i)), binds))
            for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                tests.append(self.pattern(x, ast.Attribute(value=v, attr=k, ctx=ast.Load()), binds))
        tests = [x for x in tests if not isinstance(x, ast.Constant)]
        return tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests) if tests else ast.Constant(value=True)


class Replace(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return self.m.get(n.id, n) if isinstance(n.ctx, ast.Load) else n


def fields_of(call):
    """field names of a namedtuple(...) call, else None"""
    if not isinstance(call, ast.Call) or len(call.args) < 2:
        return None
    f = call.func
    if (f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')) != 'namedtuple':
        return None
    v = call.args[1]
    if isinstance(v, ast.Constant) and isinstance(v.value, str):
        ns = v.value.replace(',', ' ').split()
    elif isinstance(v, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in v.elts):
        ns = [e.value for e in v.elts]
    else:
        return None
    dflt = []
    for k in call.keywords:
        if k.arg != 'defaults' or not isinstance(k.value, (ast.List, ast.Tuple)):
            return None
        dflt = k.value.elts
    return ns, [None] * (len(ns) - len(dflt)) + [ast.unparse(d) for d in dflt]


def record_class(name, spec, node, tuple_like):
    """class with the given fields"""
    ns, dflt = spec
    text = 'class %s(object):\n' % name
    text += '  def __init__(self%s):\n' % ''.join(
        ', ' + n + ('' if d is None else '=' + d) for n, d in zip(ns, dflt))
    text += ''.join('    self.%s = %s\n' % (n, n) for n in ns) or '    pass\n'
    if tuple_like:
        for i, n in enumerate(ns):
            T.RECORDS.setdefault(n, set()).add((len(ns), i))
        t = '(' + ''.join('self.%s, ' % n for n in ns) + ')'
        text += '  _vfa_tuple = %r\n' % (tuple(ns),)
        text += '  _fields = %r\n' % (tuple(ns),)
        text += '  def __iter__(self):\n    return iter(%s)\n' % t
        text += '  def __getitem__(self, k):\n    return %s[k]\n' % t
        text += '  def __len__(self):\n    return %d\n' % len(ns)
        text += '  def __eq__(self, other):\n    return %s == tuple(other)\n' % t
        text += '  def _replace(self, %s):\n    return %s(%s)\n' % (
            ', '.join('%s=None' % n for n in ns), name,
            ', '.join('self.%s if %s is None else %s' % (n, n, n) for n in ns))
        text += '  def _asdict(self):\n    return {%s}\n' % ', '.join('%r: self.%s' % (n, n) for n in ns)
        text += '  @classmethod\n  def _make(cls, values):\n    return %s(*values)\n' % name
    c = ast.parse(text).body[0]
    for n in ast.walk(c):
        if hasattr(n, 'lineno'):
            n.lineno = n.end_lineno = node.lineno
            n.col_offset = n.end_col_offset = node.col_offset
    return c


def desugar(body):
    """record types written with namedtuple, NamedTuple or dataclass as plain classes"""
    out = []
    for n in body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            f = fields_of(n.value)
            if f:
                out.append(record_class(n.targets[0].id, f, n, True))
                continue
        if isinstance(n, ast.ClassDef):
            f, own = None, n.body
            tl = True
            for b in n.bases:
                f = f or fields_of(b)
                if (b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '')) == 'NamedTuple':
                    f = ([], [])
            for d in n.decorator_list:
                d = d.func if isinstance(d, ast.Call) else d
                if (d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '')) == 'dataclass':
                    f, tl = ([], []), False
            if f is not None:
                if not f[0]:
                    fs = [x for x in own if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                    own = [x for x in own if x not in fs]
                    f = [x.target.id for x in fs], [None if x.value is None else ast.unparse(x.value) for x in fs]
                c = record_class(n.name, f, n, tl)
                names = {x.name for x in own if isinstance(x, ast.FunctionDef)}
                c.body = own + [x for x in c.body if getattr(x, 'name', None) not in names]
                c.end_lineno = n.end_lineno
                out.append(c)
                continue
        out.append(n)
    return out


class Module(object):
    def __init__(self, name, path, tree, text):
        self.name = name
        self.path = path
        self.tree = tree
        self.text = text
        self.rel = os.path.relpath(path, REPO)
        self.defs = {}
        self.classes = {}
        self.assigns = {}
        self.imports = {}
        tree.body = desugar(tree.body)
        self._index(tree.body)

    def _index(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.defs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                self.assigns[n.target.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = (a.name, None)
                    else:
                        self.imports[a.name.split('.')[0]] = (a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module or '', a.name)
            elif isinstance(n, (ast.If, ast.Try)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._index(getattr(n, f, []) or [])
                for h in getattr(n, 'handlers', []):
                    self._index(h.body)


def source_files():
    """Python files of the working tree (tracked or not, ignoring caches)."""
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', '__pycache__', '.pytest_cache'))
        for f in sorted(fs):
            if f.endswith('.py'):
                out.append(os.path.join(d, f))
    return out


def module_name(path):
    rel = os.path.relpath(path, REPO)
    parts = rel[:-3].split(os.sep)
    if 'python' in parts:
        parts = parts[parts.index('python') + 1:]
        if parts[-1] == '__init__':
            parts = parts[:-1]
        return '.'.join(parts)
    return '/'.join(parts)


class Repo(object):
    def __init__(self):
        self.modules = {}
        self.parsed = 0
        for p in source_files():
            rel = os.path.relpath(p, REPO)
            if '/test/' in '/' + rel or rel.startswith('test'):
                continue
            with open(p, encoding='utf-8') as f:
                text = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = Cases().visit(ast.parse(text, p))
            m = Module(module_name(p), p, tree, text)
            self.modules[m.name] = m
            self.parsed += 1

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            # moved file: accept a unique module with the same last component
            c = [x for x in self.modules.values()
                 if x.name.replace('/', '.').split('.')[-1] == name.replace('/', '.').split('.')[-1]]
            if len(c) == 1:
                return c[0]
            raise AnchorError('module %s not found' % name)
        return m

    def find(self, modname, qual):
        """(module, node) of a function / class / method."""
        m = self.module(modname)
        parts = qual.split('.')
        if len(parts) == 1:
            n = m.defs.get(qual) or m.classes.get(qual)
            if n is None and qual in m.imports:
                mod, nm = m.imports[qual]
                if mod in self.modules and nm:
                    return self.find(mod, nm)
            if n is None:
                raise AnchorError('%s not found in %s' % (qual, m.rel))
            return m, n
        c = m.classes.get(parts[0])
        if c is None:
            raise AnchorError('class %s not found in %s' % (parts[0], m.rel))
        for b in c.body:
            if isinstance(b, ast.FunctionDef) and b.name == parts[1]:
                return m, b
        for base in c.bases:
            if isinstance(base, ast.Name):
                try:
                    mm, cc = self.find(m.name, base.id)
                    return self.find(mm.name, base.id + '.' + parts[1])
                except AnchorError:
                    pass
        raise AnchorError('method %s not found in %s' % (qual, m.rel))
