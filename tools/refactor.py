"""Behaviour-preserving rewrites of the analysed functions: the checks must stay quiet on them.

usage: refactor.py [ids]        run the rewrites (all) on scratch copies
"""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'hand_eye_calibration/python/hand_eye_calibration/'
ALL = []


def rewrite(rid, checks, path, functions=None, edits=(), remove=()):
    ALL.append((rid, checks.split(), path, functions or {}, edits, remove))


def span(node):
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    return first - 1, node.end_lineno


def find(tree, qual):
    body = tree.body
    for part in qual.split('.'):
        node = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part][0]
        body = node.body
    return node


def apply(root, entry):
    rid, checks, path, functions, edits, remove = entry
    p = os.path.join(root, path)
    text = open(p).read()
    for qual, new in functions.items():
        lines = text.split('\n')
        a, b = span(find(ast.parse(text), qual))
        pad = '  ' * qual.count('.')
        lines[a:b] = [(pad + l if l.strip() else l) for l in new.strip('\n').split('\n')]
        text = '\n'.join(lines)
    for old, new in edits:
        assert old in text, (rid, old)
        text = text.replace(old, new)
    if path.endswith('.py'):
        ast.parse(text)
    open(p, 'w').write(text)


def one(entry):
    rid = entry[0]
    d = tempfile.mkdtemp(prefix='refactor_')
    out = []
    try:
        root = os.path.join(d, 'r')
        shutil.copytree('/repo', root, ignore=shutil.ignore_patterns('.git'))
        apply(root, entry)
        for c in entry[1]:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c], capture_output=True, text=True,
                               env=dict(os.environ, VFA_REPO=root, VFA_EVIDENCE=os.path.join(d, 'e')))
            lines = [l[:400] for l in r.stdout.split('\n') if ': [' in l or 'obligations' in l]
            out.append('%s %-4s exit %d %s' % (rid, c, r.returncode, lines[0] if lines else r.stderr[-300:]))
            if r.returncode:
                out.extend('      ' + l for l in lines[1:4])
    except Exception as e:
        out.append('%s FAILED %r' % (rid, e))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return '\n'.join(out)


def main():
    import refactorings  # noqa: F401 (fills ALL)
    ids = sys.argv[1:]
    todo = [e for e in refactorings.ALL if not ids or any(e[0].startswith(i) for i in ids)]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
        for r in ex.map(one, todo):
            print(r, flush=True)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
