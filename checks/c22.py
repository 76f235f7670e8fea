"""C22: no execution path uses undefined names or mismatched calls"""
import ast
import os
import re

from vfa.core import *
from vfa import defined, library
from vfa.repo import Module, REPO
from vfa.resolve import Program, fields, SCOPES


def atom(a):
    if a[0] == 'raised':
        return 'the guarded statements fail'
    if a[0] == 'exit':
        return 'one way out of the loop'
    if a[0] == 'truth':
        k = a[1]
        return str(k[0]) if k and k[0] != 'v' else str(k[1])
    if a[0] == 'cmp':
        k = a[2]
        k = k[1][1] if k[0] == 'val' else k[0]
        o = a[3][0] if isinstance(a[3], tuple) else a[3]
        return '%s %s %r' % (k, {'Eq': '==', 'Is': 'is', 'Lt': '<', 'LtE': '<=', 'In': 'in'}.get(a[1], a[1]), o)
    return 'some condition'


def values(p, s, e):
    """number of values the right side of a text template gives; None if not known"""
    if isinstance(e, ast.Tuple):
        return None if any(isinstance(x, ast.Starred) for x in e.elts) else len(e.elts)
    return 1 if single(p, s, e, 4) else None


def single(p, s, e, depth):
    """certainly neither a tuple nor a mapping"""
    if depth == 0:
        return False
    t = type(e)
    if t in (ast.Constant, ast.JoinedStr, ast.Compare, ast.List, ast.ListComp, ast.UnaryOp):
        return True
    if t is ast.BinOp:
        return isinstance(e.op, (ast.Sub, ast.Div, ast.Mult, ast.Mod, ast.Pow)) and single(p, s, e.left, depth - 1) or \
            single(p, s, e.left, depth - 1) and single(p, s, e.right, depth - 1)
    if t is ast.Call:
        if isinstance(e.func, ast.Attribute):
            return e.func.attr in ('format', 'join', 'wait', 'poll', 'strip', 'lower', 'upper', 'replace', 'group')
        return isinstance(e.func, ast.Name) and e.func.id in ('str', 'len', 'int', 'float', 'repr', 'abs', 'round', 'list')
    if t is ast.IfExp:
        return single(p, s, e.body, depth - 1) and single(p, s, e.orelse, depth - 1)
    if t is ast.Name and isinstance(s.node, SCOPES):
        got = []
        for n in ast.walk(s.node):
            if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store):
                got.append(None)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    n.targets[0].id == e.id:
                got.append(single(p, s, n.value, depth - 1))
        if got:
            return got.count(None) * 2 == len(got) and all(x is not False for x in got)
        ps = [x.arg for x in s.node.args.args]
        if e.id not in ps or s.parent is None or isinstance(s.parent.node, SCOPES + (ast.ClassDef,)):
            return False
        calls = [(o, n) for o in p.scopes for n in ast.walk(o.node) if isinstance(n, ast.Call) and
                 (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')) == s.node.name]
        k = ps.index(e.id)
        given = [(o, n.args[k]) if k < len(n.args) else (o, dict((x.arg, x.value) for x in n.keywords).get(e.id)) for o, n in calls]
        return bool(given) and all(x is not None and single(p, o, x, depth - 1) for o, x in given)
    return False


def vocabulary(c, p):
    """words that can name an attribute; modules that use other libraries"""
    own, tops, libs, unknown = set(), set(), set(), {}
    mods = {s.mod for s in p.scopes}
    home = {x.split('.')[0] for x in c.repo.modules if '/' not in x}
    for m in mods:
        for n in ast.walk(m.tree):
            t = type(n)
            if t in (ast.Import, ast.ImportFrom):
                for x in [a.name for a in n.names] if t is ast.Import else \
                        [n.module or ''] + ['%s.%s' % (n.module, a.name) for a in n.names]:
                    libs.add(x)
                    top = x.split('.')[0]
                    if library.standard(top):
                        tops.add(x)
                    elif top not in library.TEXT and top not in home and not getattr(n, 'level', 0):
                        unknown[m] = x
                own.update(a.asname or a.name for a in n.names)
            elif t is ast.Attribute and not isinstance(n.ctx, ast.Load):
                own.add(n.attr)
            elif t in SCOPES + (ast.ClassDef,):
                own.add(n.name)
            elif t is ast.Name and not isinstance(n.ctx, ast.Load):
                own.add(n.id)
            elif t in (ast.arg, ast.keyword):
                own.add(n.arg)
            elif t is ast.Constant and isinstance(n.value, str):
                own.update(library.WORD.findall(n.value.replace('-', '_')))
                own.update(library.WORD.findall(n.value))
    for x in tops:
        own |= library.members(x) or set()
    own |= library.words(libs) | library.builtin()
    return own, unknown


def made(p, s, e):
    """a local variable that only holds results of calls into the known libraries"""
    if not isinstance(e, ast.Name) or not isinstance(s.node, SCOPES):
        return False
    stores = [n for n in ast.walk(s.node) if isinstance(n, ast.Name) and n.id == e.id and not isinstance(n.ctx, ast.Load)]
    vs = [n.value for n in ast.walk(s.node) if isinstance(n, ast.Assign) and
          any(isinstance(x, ast.Name) and x.id == e.id for x in n.targets)]
    return bool(vs) and len(vs) == len(stores) and all(isinstance(v, ast.Call) and all(
        x[0] == 'extattr' and x[1].split('.')[0] in library.TEXT for x in p.expr(s, v.func)) and p.expr(s, v.func) for v in vs)


def scan(c, p):
    vocab, foreign = vocabulary(c, p)
    count = dict.fromkeys(('uses', 'names', 'attributes', 'calls', 'tuples', 'templates', 'imports'), 0)
    for s in p.scopes:
        qual = s.qual or 'module level'
        where = '%s:%d %s' % (s.mod.rel, getattr(s.node, 'lineno', 1), qual)
        key = '%s %s' % (s.mod.rel, qual)
        found = {}

        def bad(rule, what, node, detail):
            found.setdefault((rule, what), '%s:%d in %s: %s' % (s.mod.rel, node.lineno, qual, detail))

        # variables are assigned before use
        def unbound(name, node, w):
            cond = ', '.join(('' if v else 'not ') + '(%s)' % atom(a) for a, v in w.items())
            bad('assigned', name, node, '%s may be used before it is assigned%s' % (name, ' if ' + cond if cond else ''))
        n = 0
        if not isinstance(s.node, ast.ClassDef):
            n = defined.check_scope(s.body, s.args, unbound)
            count['uses'] += n
        # names resolve
        un, m = p.unresolved(s)
        count['names'] += m
        for name, node in un:
            bad('resolves', name, node, 'nothing defines the name %s' % name)
        seen = dict.fromkeys(('imports', 'attributes', 'calls', 'tuples', 'templates'), 0)
        for e, local in p.sites(s):
            t = type(e)
            if t is ast.ImportFrom:
                for a in e.names:
                    if a.name != '*' and not e.level:
                        seen['imports'] += 1
                        if p.imported(e.module or '', a.name) is None:
                            bad('imports', a.name, e, '%s has no %s' % (e.module, a.name))
                        own = {x.split('.')[0] for x in c.repo.modules if '/' not in x}
                        if (e.module or '').split('.')[0] in own and e.module not in c.repo.modules and \
                                not any(x.startswith(e.module + '.') for x in c.repo.modules):
                            bad('imports', e.module, e, 'there is no module %s' % e.module)
            elif t is ast.Import:
                own = {x.split('.')[0] for x in c.repo.modules if '/' not in x}
                for a in e.names:
                    if a.name.split('.')[0] in own:
                        seen['imports'] += 1
                        if a.name not in c.repo.modules and not any(x.startswith(a.name + '.') for x in c.repo.modules):
                            bad('imports', a.name, e, 'there is no module %s' % a.name)
            elif t is ast.Attribute and isinstance(e.ctx, ast.Load):
                ts, missing, known = p.attribute(s, e, local)
                if known:
                    seen['attributes'] += 1
                recv = [x for x in p.expr(s, e.value, local) if x[0] != 'none']
                if missing and len(missing) == len(recv):
                    x = missing[0]
                    what = {'inst': lambda: 'instances of ' + p.classes[x[1]].name,
                            'class': lambda: 'the class ' + p.classes[x[1]].name,
                            'args': lambda: 'the options of ' + x[1]}.get(x[0], lambda: 'the module ' + str(x[1]))()
                    bad('attributes', ast.unparse(e), e, '%s: %s have no %s' % (ast.unparse(e), what, e.attr))
                elif not missing and (not recv or any(x[0] == 'any' or x[0] == 'extattr' and
                                                      x[1].split('.')[0] in library.TEXT for x in recv)) and \
                        (s.mod not in foreign or made(p, s, e.value)):
                    seen['attributes'] += 1
                    if e.attr not in vocab:
                        bad('attributes', ast.unparse(e), e, '%s: neither this repository nor a library it uses has an '
                            'attribute %s' % (ast.unparse(e), e.attr))
            elif t is ast.Call:
                fts = p.expr(s, e.func, local)
                cs = p.callees(s, fts)
                if cs:
                    seen['calls'] += 1
                    why = [p.mismatch(f, k, e) for f, k in cs]
                    if all(why):
                        bad('calls', ast.unparse(e.func), e, 'call of %s: it %s' % (ast.unparse(e.func), why[0]))
                if len(fts) == 1 and min(fts)[0] == 'extattr' and '.' in min(fts)[1]:
                    ps = library.parameters(*min(fts)[1].rsplit('.', 1))
                    if ps is not None:
                        seen['calls'] += 1
                        more = [x.arg for x in e.keywords if x.arg and x.arg not in ps[1]]
                        if more:
                            bad('calls', ast.unparse(e.func), e, 'call of %s: it has no parameter %s' % (
                                ast.unparse(e.func), more[0]))
                        elif ps[0] is not None and len(e.args) > ps[0]:
                            bad('calls', ast.unparse(e.func), e, 'call of %s: it takes %d positional arguments, %d given' % (
                                ast.unparse(e.func), ps[0], len(e.args)))
                if fts == frozenset([('extattr', 'functools.partial')]) and e.args:
                    cs = p.callees(s, p.expr(s, e.args[0], local))
                    for f, k in cs or ():
                        if f is not None:
                            seen['calls'] += 1
                            ps = [x.arg for x in f.args.args][k:]
                            if len(e.args) - 1 > len(ps) and not f.args.vararg or \
                                    any(x.arg and x.arg not in ps + [y.arg for y in f.args.kwonlyargs]
                                        for x in e.keywords) and not f.args.kwarg:
                                bad('calls', ast.unparse(e.args[0]), e, 'partial call of %s does not fit' % f.name)
                if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and \
                        isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str) and \
                        not any(isinstance(x, ast.Starred) for x in e.args) and all(k.arg for k in e.keywords):
                    seen['templates'] += 1
                    try:
                        auto, top, names = fields(e.func.value.value)
                        if max(auto, top + 1) > len(e.args) or names - {k.arg for k in e.keywords}:
                            bad('templates', e.func.value.value, e, 'the text %r lacks a value for a placeholder' %
                                e.func.value.value[:60])
                    except ValueError:
                        bad('templates', e.func.value.value, e, 'the text %r is no valid template' % e.func.value.value[:60])
            elif t is ast.BinOp and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and \
                    isinstance(e.left.value, str) and values(p, s, e.right) is not None:
                seen['templates'] += 1
                given = values(p, s, e.right)
                fs = re.findall(r'%(?:\((\w+)\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])', e.left.value)
                need = sum((1 if x[3] != '%' else 0) + (x[1] == '*') + (x[2] == '*') for x in fs)
                if not any(x[0] for x in fs) and need != given:
                    bad('templates', e.left.value, e, 'the text %r has %d placeholders for %d values' %
                        (e.left.value[:60], need, given))
            unpack = []
            if t is ast.Assign:
                unpack = [(x, e.value, None) for x in e.targets if isinstance(x, (ast.Tuple, ast.List))]
            elif t in (ast.For, ast.comprehension) and isinstance(e.target, (ast.Tuple, ast.List)):
                unpack = [(e.target, None, p.elem(p.expr(s, e.iter, local)))]
            for x, v, ts in unpack:
                star = any(isinstance(y, ast.Starred) for y in x.elts)
                k = len(x.elts)
                if v is not None:
                    ls = p.lengths(s, v, local)
                else:
                    known = {len(y[1]) if y[0] == 'tuple' else None for y in ts}
                    ls = [(known.pop(), x, s)] if len(known) == 1 and None not in known else []
                if ls:
                    seen['tuples'] += 1
                for l, r, f in ls:
                    if l != k and not star or star and l < k - 1:
                        bad('tuples', ast.unparse(x), x, '%d values expected, line %d (%s) gives %d' %
                            (k, r.lineno, f.qual or 'module level', l))
            if t is ast.Subscript and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                    isinstance(e.value, ast.Call):
                ls = p.lengths(s, e.value, local)
                for l, r, f in ls:
                    seen['tuples'] += 1
                    if not -l <= e.slice.value < l:
                        bad('tuples', ast.unparse(e), e, 'element %d of %d values from line %d' % (e.slice.value, l, r.lineno))
        for k, v in seen.items():
            count[k] += v
        for rule, k in (('assigned', n), ('resolves', m)) + tuple(seen.items()):
            fs = [(w, d) for (r, w), d in found.items() if r == rule]
            if fs:
                for w, d in fs:
                    c.ob('%s %s %s' % (rule, key, w), rule, d.split(' in ')[0], 'violated', d)
            elif k:
                c.ob('%s %s' % (rule, key), rule, where, 'proved', '%d instances' % k)
    return count


def run(c):
    p = Program(c.repo)
    count = scan(c, p)
    c.ob('types', 'analysis', '', 'proved' if p.stable else 'undecided', 'type propagation %s' %
         ('reached a fixed point' if p.stable else 'did not settle'))
    examples(c)
    return c.finish('other', 'definite assignment with guarded joins, name/attribute/import resolution, call and tuple '
             'length agreement over every scope: ' + ', '.join('%d %s' % (v, k) for k, v in count.items()), minimum=150)


EXAMPLE = '''
import argparse
import numpy as np
from numpy import missing_function


class Thing(object):
  def __init__(self):
    self.size = 1

  def grow(self, n):
    return (self.size, n)


def assigned(flag):
  if flag:
    x = 1
  return x


def calls():
  print(undefined_name)
  t = Thing()
  print(t.width, np.no_such_function(1))
  t.grow(1, 2)
  (a, b, c) = t.grow(1)
  print('{} {}'.format(a))
  print('%d' % (a, b))
  print('%s to %s' % str(a))
  np.savetxt('f', [], delimeter=',')


def figure(axes):
  axes.set_titel('x')
  axes.set_title('x')


if __name__ == '__main__':
  parser = argparse.ArgumentParser()
  parser.add_argument('--one')
  args = parser.parse_args()
  print(args.two)
'''
EXPECTED = {
    'assigned x', 'resolves undefined_name', 'imports missing_function', 'attributes t.width',
    'attributes np.no_such_function', 'calls t.grow', 'tuples (a, b, c)', 'templates {} {}', 'templates %d',
    'attributes args.two', 'templates %s to %s', 'calls np.savetxt', 'attributes axes.set_titel'}


class Sink(object):
    def __init__(self):
        m = Module('example', os.path.join(REPO, 'example.py'), ast.parse(EXAMPLE), EXAMPLE)
        self.repo = type('One', (), {'modules': {'example': m}, 'module': lambda s, n: m})()
        self.hits = set()

    def ob(self, oid, rule, where, status, detail):
        if status == 'violated':
            self.hits.add(re.sub(r'example\.py (module level|\w+) ', '', oid))


def examples(c):
    """every rule fires on a small defective text"""
    k = Sink()
    scan(k, Program(k.repo))
    assert k.hits == EXPECTED, sorted(k.hits ^ EXPECTED)
    c.ob('example', 'self check', '', 'proved', '%d defects of the built-in example reported' % len(k.hits))
