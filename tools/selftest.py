"""Compares what the engine says about small programs with what they do.

usage: selftest.py [names]       needs an interpreter with numpy; the programs are those of toys.py

The programs exercise language constructs and library functions; none of them comes from the analysed repository.
Parameters are symbolic for the engine: n, m (sizes), x, y, z (numbers), xs, ys (lists of numbers), a, b (arrays of
numbers), M (array of rows of three numbers).
"""
import inspect
import math
import os
import sys
import threading
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
from vfa import core, valuate, terms as T  # noqa: E402
from vfa.core import Check, S, symlist, symarr  # noqa: E402
import toys  # noqa: E402

LENS = {'#n': (3, 9), '#m': (1, 5), '#xs': (3, 8), '#a': (4, 8), '#M': (3, 6)}


def build(names):
    def f(it, st):
        out = []
        for p in names:
            if p in ('n', 'm'):
                out.append(S('#' + p))
            elif p in ('xs', 'ys'):
                out.append(symlist(it, st, p, 'num', S('#xs')))
            elif p in ('a', 'b'):
                out.append(symarr(it, st, p, (), S('#a')))
            elif p == 'M':
                out.append(symarr(it, st, p, (3,)))
            else:
                out.append(S(p))
        return out
    return f


def point(seed, names):
    import random
    r = random.Random(seed)
    ls = {k: r.randrange(*v) for k, v in LENS.items()}
    tab, args, pt = {}, [], {}
    for p in names:
        if p in ('n', 'm'):
            args.append(ls['#' + p])
        elif p in ('xs', 'ys'):
            tab[p] = [r.choice([r.uniform(-2, 2), r.randrange(-3, 4)]) for _ in range(ls['#xs'])]
            args.append(list(tab[p]))
        elif p in ('a', 'b'):
            tab[p] = [r.uniform(-2, 2) for _ in range(ls['#a'])]
            args.append(np.array(tab[p]))
        elif p == 'M':
            tab[p] = [[r.uniform(-2, 2) for _ in range(3)] for _ in range(ls['#M'])]
            args.append(np.array(tab[p]))
        else:
            pt[p] = r.uniform(-2, 2)
            args.append(pt[p])

    def elem(base, i, path):
        v = tab[base]
        if not 0 <= i < len(v):
            return math.nan
        v = v[int(i)]
        for q in path:
            v = v[q]
        return v
    v = valuate.Valuation(seed, pt)
    v.lens.update(ls)
    v.elem = elem
    v.long = 500
    return v, args


def plain(x):
    """comparable form of a result of the program"""
    if isinstance(x, np.ndarray):
        return [plain(y) for y in x]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {'dict': sorted((repr(plain(k)), plain(y)) for k, y in x.items())}
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    if x is None or isinstance(x, str):
        return x
    if hasattr(x, '__dict__'):
        return {'obj': sorted((k, plain(y)) for k, y in vars(x).items())}
    raise ValueError(type(x))


def rows(shape, e):
    if not shape:
        return e[0]
    m = len(e) // shape[0] if shape[0] else 0
    return [rows(shape[1:], e[i * m:(i + 1) * m]) for i in range(shape[0])]


def mine(x):
    """comparable form of a value of the engine"""
    if isinstance(x, tuple) and x[:1] == ('farr',):
        return rows(x[1], [mine(y) for y in x[2]])
    if isinstance(x, tuple) and x[:1] == ('fsarr',):
        return [mine(y) for y in x[2]]
    if isinstance(x, tuple) and x[:1] == ('fobj',):
        return {'obj': sorted((k, mine(y)) for k, y in x[2].items())}
    if isinstance(x, tuple) and x[:1] == ('fdict',):
        return {'dict': sorted((repr(mine(eval(k))), mine(y)) for k, y in x[1].items())}
    if isinstance(x, (list, tuple)):
        return [mine(y) for y in x]
    if x is None or isinstance(x, str):
        return x
    return float(x)


def near(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b)) or a != a and b != b
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    return a == b


def one(c, name):
    f = getattr(toys, name)
    names = list(inspect.signature(f).parameters)
    r = c.run('toys', name, build(names))
    if r.value.unk and not r.raised:
        return 'unknown', T.show(r.value)[:200]
    used, bad = 0, None
    for seed in range(12):
        v, args = point(seed, names)
        try:
            want = plain(f(*args))
            fails = False
        except Exception as e:
            want, fails = e, True
        if r.raised:
            if not fails:
                return 'WRONG', 'engine: always fails (%s), python: %s' % (r.raised, str(want)[:200])
            used += 1
            continue
        try:
            stops = any(core.truth(v, x) for x in r.aborts)
            got = None if stops else mine(v.ev(r.value))
        except (valuate.Unknown, valuate.Ambiguous) as e:
            bad = repr(e)
            continue
        except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError) as e:
            bad = repr(e)
            continue
        used += 1
        if stops != fails:
            if fails and not stops:
                bad = 'failure not seen: %r' % want
                continue
            return 'WRONG', 'engine: fails %s, python: %s' % (stops, str(want)[:300])
        if not fails and not near(got, want):
            odd = core.appnames(r.value) - set(valuate.FUNCS) - core.KNOWN
            if odd:
                return 'no model', ' '.join(sorted(odd))
            return 'WRONG', 'engine: %s\n      python: %s\n      term: %s' % (str(got)[:300], str(want)[:300],
                                                                         T.show(r.value)[:300])
    if bad:
        return 'partly', bad
    return 'ok', '%d points' % used


def main():
    c = Check('SELF', 'quick', 1)
    c.add_spec('toys', open(os.path.join(HERE, 'toys.py')).read())
    sel = sys.argv[1:]
    tot = {}
    for name, f in vars(toys).items():
        if not inspect.isfunction(f) or f.__module__ != 'toys' or name.startswith('_') or sel and name not in sel:
            continue
        s, d = one(c, name)
        tot[s] = tot.get(s, 0) + 1
        if s != 'ok' or sel:
            print('%-8s %-22s %s' % (s, name, d))
    print(tot)
    return 1 if tot.get('WRONG') else 0


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    os._exit(out[0] if out else 4)
