"""What the libraries offer, read from their source text and stubs."""
import ast
import glob
import importlib
import inspect
import os
import re
import sys

TEXT = ('numpy', 'scipy', 'matplotlib', 'yaml', 'mpl_toolkits')
NAMED = [re.compile(r'(?:[\w)\]]\.|\bdef |\bclass )([A-Za-z_]\w*)'), re.compile(r'^[ \t]*([A-Za-z_]\w*)[ \t]*[:=]', re.M)]
WORD = re.compile(r'[A-Za-z_]\w*')
CSV = {'dialect', 'delimiter', 'quotechar', 'escapechar', 'doublequote', 'skipinitialspace', 'lineterminator', 'quoting', 'strict'}
trees = {}
vocabularies = {}


def standard(top):
    return top in sys.stdlib_module_names and top not in ('antigravity', 'this', 'distutils', 'idlelib', 'turtledemo')


def sources(name):
    """files of a module: stub first"""
    out = []
    for base in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')):
        p = os.path.join(base, *name.split('.'))
        for f in (p + '.pyi', os.path.join(p, '__init__.pyi'), p + '.py', os.path.join(p, '__init__.py')):
            if os.path.exists(f):
                out.append(f)
    return out


def tree(f):
    if f not in trees:
        try:
            trees[f] = ast.parse(open(f, encoding='utf-8').read())
        except (OSError, SyntaxError, ValueError):
            trees[f] = None
    return trees[f]


def absolute(mod, f, n):
    """module an import refers to"""
    if not n.level:
        return n.module or ''
    parts = mod.split('.')
    drop = n.level - (1 if os.path.basename(f).startswith('__init__') else 0)
    parts = parts[:len(parts) - drop] if drop else parts
    return '.'.join(parts + ([n.module] if n.module else []))


def statements(body):
    for n in body:
        yield n
        for part in ('body', 'orelse', 'finalbody'):
            if isinstance(n, (ast.If, ast.Try)):
                for x in statements(getattr(n, part, [])):
                    yield x


def public(mod, depth=0):
    """names a module offers to a star import; None if not known"""
    if depth > 4:
        return None
    for f in sources(mod):
        t = tree(f)
        if t is None:
            return None
        for n in statements(t.body):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == '__all__' for x in n.targets):
                if isinstance(n.value, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in n.value.elts):
                    return {x.value for x in n.value.elts}
                return None
        return None
    return None


def definitions(mod, name, depth=0):
    """function definitions behind a name of a library module; None if there may be others"""
    out = []
    if depth > 5:
        return None
    for f in sources(mod):
        t = tree(f)
        if t is None:
            return None
        for n in statements(t.body):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                if not f.endswith('.pyi') and any(not plain(d) for d in n.decorator_list):
                    return None
                out.append(n)
            elif isinstance(n, ast.ClassDef) and n.name == name:
                return None
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(x, ast.Name) and x.id == name for x in ts):
                    return None
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m = absolute(mod, f, n)
                    if (a.asname or a.name) == name:
                        ds = definitions(m, a.name, depth + 1)
                    elif a.name == '*' and name in (public(m) or ()):
                        ds = definitions(m, name, depth + 1)
                    else:
                        continue
                    if ds is None:
                        return None
                    out += ds
    return out


def plain(d):
    """decorators that keep the parameters"""
    s = ast.unparse(d)
    return 'dispatch' in s or s.startswith('set_module') or s in ('overload', 'staticmethod')


def parameters(mod, name):
    """(positional parameters or None for any number, keywords) of a library function; None if not known"""
    top = mod.split('.')[0]
    if mod == 'csv' and name in ('reader', 'writer'):
        return None, CSV
    if standard(top):
        try:
            f = getattr(importlib.import_module(mod), name)
            if not inspect.isfunction(f):
                return None
            ps = inspect.signature(f).parameters.values()
        except Exception:
            return None
        if any(x.kind == x.VAR_KEYWORD for x in ps):
            return None
        n = None if any(x.kind == x.VAR_POSITIONAL for x in ps) else \
            sum(x.kind in (x.POSITIONAL_ONLY, x.POSITIONAL_OR_KEYWORD) for x in ps)
        return n, {x.name for x in ps if x.kind in (x.POSITIONAL_OR_KEYWORD, x.KEYWORD_ONLY)}
    if top not in TEXT:
        return None
    ds = definitions(mod, name)
    if not ds:
        return None
    n, kws = 0, set()
    for d in ds:
        a = d.args
        if a.kwarg:
            return None
        n = None if n is None or a.vararg else max(n, len(a.posonlyargs) + len(a.args))
        kws |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    return n, kws


def words(mods):
    """what the libraries define or use as an attribute, for those and the parts of scipy that are imported"""
    tops = ['numpy', 'matplotlib', 'mpl_toolkits', 'yaml'] + sorted({'/'.join(m.split('.')[:2]) for m in mods if m.startswith('scipy')})
    if tuple(tops) in vocabularies:
        return vocabularies[tuple(tops)]
    out = vocabularies[tuple(tops)] = set()
    for base in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')):
        for top in tops:
            for d, ds, fs in os.walk(os.path.join(base, top)):
                ds[:] = [x for x in ds if x not in ('tests', 'testing', '__pycache__', 'mpl-data', 'distutils', 'f2py')]
                for f in fs:
                    if f.endswith(('.py', '.pyi', '.pyx')):
                        with open(os.path.join(d, f), encoding='utf-8', errors='replace') as g:
                            text = g.read()
                            for r in NAMED:
                                out.update(r.findall(text))
    return out


def members(name):
    """names of a standard module, its classes and their instances"""
    out = set()
    try:
        m = importlib.import_module(name)
    except Exception:
        return None
    for k in dir(m):
        out.add(k)
        v = getattr(m, k, None)
        if isinstance(v, type):
            out.update(dir(v))
    try:
        out.update(WORD.findall(inspect.getsource(m)))
    except Exception:
        pass
    return out


def builtin():
    import builtins
    import types
    out = set()
    for m in (builtins, types):
        for v in vars(m).values():
            out.update(dir(v))
    for n in ('io', 'os', 'argparse', 'subprocess', 'collections', 'csv', 're', 'datetime'):
        out |= members(n) or set()
    return out
