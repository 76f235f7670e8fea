"""Measure what the checks notice: small source changes, one at a time, in a scratch copy of the repository.

usage: mutate.py <file relative to the repository> <function regex> <check ids, comma separated> [max]
Prints the changes no check reported (survivors) and those that broke a check (exit other than 0/1).
"""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OPS = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*')}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


def seg(src, offs, n):
    return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset


def mutants(text, want):
    b = text.encode()
    offs, o = [], 0
    for l in b.split(b'\n'):
        offs.append(o)
        o += len(l) + 1
    tree = ast.parse(text)

    def src(n):
        s, e = seg(b, offs, n)
        return b[s:e].decode()

    def rep(n, new):
        s, e = seg(b, offs, n)
        return (b[:s] + new.encode() + b[e:]).decode(), n.lineno, '%s -> %s' % (src(n)[:60].replace('\n', ' '), new[:60].replace('\n', ' '))

    def visit(node, qual):
        for ch in ast.iter_child_nodes(node):
            q = qual
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + '.' if qual else '') + ch.name
            if isinstance(ch, ast.Assert):
                continue
            if re.search(want, q or '<module>'):
                yield from one(ch, q)
            yield from visit(ch, q)

    def one(n, q):
        if isinstance(n, ast.Assert):
            return
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            l, r = src(n.left), src(n.right)
            yield rep(n, '(%s) %s (%s)' % (l, OPS[type(n.op)][1], r))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.Mult)) and not isinstance(n.left, ast.Constant):
                yield rep(n, '(%s) %s (%s)' % (r, OPS[type(n.op)][0], l))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield rep(n, '(%s)' % src(n.operand))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o2 in CMP.get(type(n.ops[0]), []):
                yield rep(n, '(%s) %s (%s)' % (src(n.left), o2, src(n.comparators[0])))
        if isinstance(n, ast.BoolOp):
            o2 = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield rep(n, o2.join('(%s)' % src(v) for v in n.values))
            for v in n.values:
                yield rep(n, '(%s)' % src(v))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield rep(n, repr(n.value + 1))
            if n.value not in (0, 1):
                yield rep(n, repr(n.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield rep(n, repr(not n.value))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                a, c2 = n.args[0], n.args[1]
                s1, e1 = seg(b, offs, a)
                s2, e2 = seg(b, offs, c2)
                if b[s1:e1] != b[s2:e2]:
                    yield ((b[:s1] + b[s2:e2] + b[e1:s2] + b[s1:e1] + b[e2:]).decode(), n.lineno,
                           'swap arguments of %s' % src(n)[:60])
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'conjugate', 'inverse') and not n.args:
                yield rep(n, '(%s)' % src(n.func.value))
            if src(n.func) in ('copy.deepcopy', 'copy.copy', 'abs', 'np.abs', 'min', 'max', 'np.clip'):
                if n.args:
                    yield rep(n, '(%s)' % src(n.args[0]))
        if isinstance(n, ast.Slice):
            pass
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for x, y in (('A', 'B'), ('B', 'A'), ('_1', '_2'), ('_2', '_1'), ('_W_E', '_B_H'), ('_B_H', '_W_E')):
                if n.id.endswith(x):
                    yield rep(n, n.id[:-len(x)] + y)
                    break
        if isinstance(n, (ast.AugAssign,)):
            o2 = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
            if o2:
                yield rep(n, '%s %s %s' % (src(n.target), o2, src(n.value)))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and src(n.value.func) == 'print':
                return
            yield rep(n, 'pass')
        if isinstance(n, (ast.Continue, ast.Break)):
            yield rep(n, 'break' if isinstance(n, ast.Continue) else 'continue')
            yield rep(n, 'pass')
    seen = set()
    for t, ln, what in visit(tree, ''):
        if t in seen or t == text:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        yield t, ln, what


def main():
    rel, want, ids = sys.argv[1:4]
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 9
    text = open(os.path.join(REPO, rel)).read()
    ms = list(mutants(text, want))
    if len(ms) > mx:
        ms = random.Random(5).sample(ms, mx)
        ms.sort(key=lambda m: m[1])
    root = tempfile.mkdtemp(prefix='vfamut')
    tool = os.path.join(root, 'tool')
    shutil.copytree(HERE, tool, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
    res = {'caught': 0, 'survived': 0, 'broken': 0}

    def job(k):
        t, ln, what = ms[k]
        d = os.path.join(root, str(k))
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git'))
        open(os.path.join(d, rel), 'w').write(t)
        out = []
        st = 'survived'
        for i in ids.split(','):
            env = dict(os.environ, VFA_REPO=d, VFA_EVIDENCE=os.path.join(root, 'ev%d' % k))
            try:
                p = subprocess.run([sys.executable, os.path.join(tool, 'check.py'), i], env=env, capture_output=True,
                                   text=True, timeout=800)
            except subprocess.TimeoutExpired:
                st, out = 'broken', ['timeout']
                break
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                st = 'caught'
                break
            if p.returncode != 0:
                st = 'broken'
                out.append((p.stdout + p.stderr)[-400:])
            elif 'undecided' in p.stdout:
                out.append(p.stdout.strip().split('\n')[-1])
        shutil.rmtree(d, ignore_errors=True)
        return st, ln, what, out
    try:
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
            for st, ln, what, out in ex.map(job, range(len(ms))):
                res[st] += 1
                if st != 'caught':
                    print('%s %d: %s %s' % (st, ln, what, ' | '.join(out)))
                    sys.stdout.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(res)


if __name__ == '__main__':
    main()
