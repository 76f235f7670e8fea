"""Obligations, verdicts, evidence."""
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction
from . import terms as T
from .terms import atom, sym, num, TRUE, FALSE, NONE, band, bor, bnot
from .repo import Repo, Module, AnchorError, REPO
from .interp import Interp, State, Obj, Raises
from .valuate import Valuation, Unknown, Ambiguous, same, has_nan, FUNCS, h01
import ast

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'hand_eye_calibration'
QMOD = PKG + '.quaternion'
DMOD = PKG + '.dual_quaternion'
HMOD = PKG + '.dual_quaternion_hand_eye_calibration'
TMOD = PKG + '.time_alignment'
QCLS = (QMOD, 'Quaternion')
DCLS = (DMOD, 'DualQuaternion')
QKIND = ('obj', QCLS, (('q', ('arr', (4,))),))
DKIND = ('obj', DCLS, (('dq', ('arr', (8,))),))


class Result(object):
    """summary of one analysed call"""


class Check(object):
    SECONDS = {'quick': 60, 'thorough': 240}
    BUDGET = {'quick': 1500000, 'thorough': 6000000}

    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obs = []           # obligations
        self.findings = []      # violations
        self.repo = Repo()
        self.funcs = set()
        self.stats = {'statements': 0, 'calls_inlined': 0, 'call_sites': 0, 'loops': 0, 'points': 0}
        self.assumptions = []
        self.minimum = 0
        self.rules = {}
        self.extra = {}
        self.notes = []
        self.own = set()        # building blocks the check itself introduces

    # ------------------------------------------------------------ set-up
    def add_spec(self, name, text):
        """reference definitions, analysed with the same engine"""
        import textwrap
        text = textwrap.dedent(text)
        m = Module(name, os.path.join(HERE, 'checks', name + '.spec'), ast.parse(text), text)
        self.repo.modules[name] = m
        return name

    def system(self):
        """analyse with summaries of file, process and command line calls"""
        from . import sysmodel
        self.add_spec('vfasysmod', sysmodel.TEXT)
        return sysmodel.MODELS

    def main(self, mod):
        """the code a script runs when started, as a function of its module"""
        m = self.repo.module(mod)
        for n in m.tree.body:
            if isinstance(n, ast.If) and '__main__' in ast.dump(n.test):
                f = ast.parse('def %s(): pass' % '__main__').body[0]
                f.body = n.body
                # names of the script's main part that its functions use
                used = set()
                for d in m.tree.body:
                    if d is not n:
                        ns = [x for x in ast.walk(d) if isinstance(x, ast.Name)]
                        used |= {x.id for x in ns if isinstance(x.ctx, ast.Load)} - \
                            {x.id for x in ns if isinstance(x.ctx, ast.Store)} - \
                            {x.arg for x in ast.walk(d) if isinstance(x, ast.arg)}
                names = sorted({x.id for b in n.body for x in ast.walk(b)
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & used)
                if names:
                    f.body = [ast.Global(names=names)] + n.body
                ast.copy_location(f, n)
                m.defs['__main__'] = f
                return m.name
        raise AnchorError('%s has no main part' % m.rel)

    def where(self, mod, qual):
        m, n = self.repo.find(mod, qual)
        return '%s:%d %s' % (m.rel, n.lineno, qual)

    def interp(self, opaque=None, models=None):
        it = Interp(self.repo, opaque, models)
        return it

    def run(self, mod, qual, build, opaque=None, models=None, budget=None, cut=None):
        """Analyse one function with the arguments made by build(it, st)."""
        it = self.interp(opaque, models)
        st = State({}, {})
        r = Result()
        r.it, r.st = it, st
        st.heap[0] = Obj('inst', {'n': T.ZERO}, ('random', 'state'))
        r.qual = qual
        r.mod = mod
        r.where = self.where(mod, qual) if mod in self.repo.modules else qual
        args = build(it, st)
        kw = {}
        if isinstance(args, tuple):
            args, kw = args
        r.args = args
        r.kw = kw
        r.before = [it.freeze(st, a) for a in args]
        r.kwbefore = {k: it.freeze(st, a) for k, a in kw.items()}
        r.raised = r.exc = None
        T.WORK[:] = [0, budget or self.BUDGET[self.tier]]
        T.CUT[0] = cut
        T.LIMIT[0] = time.monotonic() + self.SECONDS[self.tier]
        try:
            f = it.function(mod, qual)
            v = it.call(st, f, list(args), dict(kw), None)
            r.raw = v
            r.value = it.freeze(st, v)
        except Raises as e:
            r.raised = e.why
            r.exc = e.exc
            if e.state is not None:
                st.heap, st.origin = e.state.heap, e.state.origin
            r.raw = r.value = T.unk('raises: ' + e.why)
        except T.TooBig:
            r.raw = r.value = T.unk('too large')
        except (RuntimeError, AnchorError):
            raise
        except Exception as e:
            # a construct the analysis does not handle: no verdict for this instance
            r.raw = r.value = T.unk('not analysed: %s %s' % (type(e).__name__, e))
            self.notes.append('%s: %s' % (qual, traceback.format_exc()[-600:]))
        r.work = T.WORK[0]
        T.WORK[:] = [0, None]
        T.CUT[0] = None
        T.LIMIT[0] = None
        r.after = [it.freeze(st, a) for a in args]
        r.aborts = self.abort(it)
        r.abort = FALSE
        try:
            for c in r.aborts:
                r.abort = bor(r.abort, c)
        except T.TooBig:
            r.abort = T.unk('abort condition')
        self.account(it)
        return r

    def account(self, it):
        for m, q in it.funcs:
            if not m.startswith('spec'):
                self.funcs.add(m + ':' + q)
        self.stats['statements'] += it.stmts
        self.stats['calls_inlined'] += it.calls
        self.stats['call_sites'] += len(it.callsites)
        self.stats['loops'] += len(it.loops)

    def abort(self, it):
        """conditions under which the call does not return normally (disjuncts)"""
        r = []
        for a in it.asserts:
            c = band(a.pc, bnot(a.cond)) if a.cond.op != 'unk' else FALSE
            r.append(c)
        r.extend(x[0] for x in it.raises)
        out = []
        for c in r:
            if c is not FALSE and c not in out and not c.unk and not indexed(c):
                out.append(c)
        return out

    # ------------------------------------------------------------ obligations
    def ob(self, oid, rule, where, status, detail='', witness=None):
        self.rules[rule] = self.rules.get(rule, 0) + 1
        o = {'id': oid, 'rule': rule, 'where': where, 'status': status}
        if detail:
            o['detail'] = detail[:1500]
        self.obs.append(o)
        if status == 'violated':
            self.findings.append({'key': rule + '|' + oid, 'id': oid, 'rule': rule, 'where': where,
                                  'detail': detail[:4000], 'witness': witness})
        return status

    def require(self, oid, rule, where, cond, detail='', undecided=False):
        """a structural obligation decided directly"""
        if undecided:
            return self.ob(oid, rule, where, 'undecided', detail)
        return self.ob(oid, rule, where, 'proved' if cond else 'violated', detail if not cond else '')

    def equal(self, oid, rule, where, got, want, gen=None, assume=TRUE, abort=FALSE, rels=(),
              opaque=(), points=None, val=None, modulo=None, tol=1e-6, specials=()):
        """got and want denote the same value wherever assume holds"""
        aborts = [abort]
        if isinstance(got, Result):
            abort = got.abort
            aborts = got.aborts
            if got.raised:
                return self.ob(oid, rule, where, 'violated', 'always fails: ' + got.raised)
            got = got.value
        if want.unk:
            return self.ob(oid, rule, where, 'undecided', 'reference not resolved: ' + T.show(want)[:300])
        if got.unk and allunk(got):
            return self.ob(oid, rule, where, 'undecided', 'value not resolved: ' + T.show(got)[:300])
        if not got.unk and (abort is FALSE or implies_not(assume, abort)):
            if got is want or sameunder(assume, got, want):
                return self.ob(oid, rule, where, 'proved')
            try:
                if rels and self.equal_mod(got, want, rels, assume):
                    return self.ob(oid, rule, where, 'proved')
            except T.TooBig:
                pass
        # random interpretation
        have = appnames(want)
        names = appnames(got) - have - set(FUNCS) - set(opaque) - KNOWN - self.own
        strange = {c: {x for x in appnames(c) - set(FUNCS) - set(opaque) - KNOWN - self.own
                       if x == 'call' or '.' in x or x not in have} for c in aborts}
        cnt = {'used': 0, 'unknown': 0}

        def probe(v):
            """None: not usable / agrees;  (status, detail)"""
            self.stats['points'] += 1
            try:
                if assume is not TRUE and not v.ev(assume):
                    return None
                b = v.ev(want)
            except Unknown as e:
                return 'undecided', 'reference cannot be evaluated: %s' % e
            except (Ambiguous, ZeroDivisionError, OverflowError):
                return None
            except (TypeError, ValueError, LookupError, AttributeError):
                cnt['unknown'] += 1
                return None
            if has_nan(b):
                return None
            try:
                for c in aborts:
                    if truth(v, c):
                        if strange[c]:
                            return 'undecided', 'aborts, but through functions without a model: %s' % (
                                sorted(strange[c])[:8])
                        return 'violated', ('the call is aborted (assertion or exception) for valid arguments: %s'
                                            % T.show(c)[:600])
                a = v.ev(got)
            except Unknown:
                cnt['unknown'] += 1
                return None
            except (Ambiguous, ZeroDivisionError, OverflowError):
                return None
            except (TypeError, ValueError, IndexError, KeyError, AttributeError, RecursionError):
                cnt['unknown'] += 1
                return None
            cnt['used'] += 1
            if modulo(a, b) if modulo else same(a, b, tol):
                return None
            if names:
                return 'undecided', 'differs, but through functions without a model: %s' % sorted(names)[:8]
            return 'violated', 'value %s instead of %s\n  computed: %s\n  required: %s' % (
                short(a), short(b), T.show(got)[:700], T.show(want)[:700])

        stop = time.monotonic() + self.SECONDS[self.tier]
        for v in self.valuations([got, want, assume] + aborts, gen, val, points, specials):
            if time.monotonic() > stop and cnt['used'] >= 5:
                break
            r = probe(v)
            if r is not None:
                return self.ob(oid, rule, where, r[0], r[1], witness=show_point(v))
        if cnt['unknown'] and cnt['unknown'] >= cnt['used']:
            return self.ob(oid, rule, where, 'undecided', 'value only partly resolved')
        if cnt['used'] < 5:
            return self.ob(oid, rule, where, 'undecided', 'only %d usable points' % cnt['used'])
        return self.ob(oid, rule, where, 'consistent',
                       'normal forms differ, equal at %d random points' % cnt['used'])

    def valuations(self, ts, gen=None, val=None, points=None, specials=()):
        """random points, then points near the boundaries of the decisions in ts"""
        names = sorted({s.args[0] for t in ts for s in T.symbols(t)
                        if s.op == 'sym' and s.args[0][:1] not in '%' and s.args[0] != 'pi'})
        nums = [n for n in names if n[:1] != '#']
        mk = val or (lambda seed, pt: Valuation(seed, pt))

        def point(raw):
            pt = dict(raw)
            if gen is not None:
                pt = gen(pt)
            return pt
        n = points or (60 if self.tier == 'quick' else 400)
        for i, sp in enumerate(specials):
            rng = random.Random(self.seed * 31 + i)
            raw = {x: rng.uniform(-2, 2) for x in nums}
            raw.update(sp)
            yield mk(self.seed * 1000 + i, point(raw))
        raws = []
        for i in range(n):
            rng = random.Random(self.seed * 7919 + i)
            raw = {x: rng.uniform(-2, 2) for x in nums}
            if i % 3 == 2:
                for x in nums:
                    if rng.random() < 0.3:
                        raw[x] = rng.choice([0.0, 1.0, -1.0, 0.5])
            raws.append(raw)
            yield mk(self.seed * 1000 + i, point(raw))
        # boundary-directed points
        ats = []
        for t in ts:
            for a in sgn_atoms(t):
                if a not in ats and not local(a):
                    ats.append(a)
        cap = 24 if self.tier == 'quick' else 60
        for ai, a in enumerate(ats[:cap]):
            P = a.args[0]
            here = [x.args[0] for x in T.symbols(P) if x.op == 'sym' and x.args[0] in nums]
            for j in range(3 if self.tier == 'quick' else 8):
                rng = random.Random(self.seed * 104729 + ai * 17 + j)
                base = dict(raws[rng.randrange(len(raws))]) if raws else {}
                x = rng.choice(here) if here else None
                if x is None:
                    # the decision depends on sequence elements only
                    continue
                seed = self.seed * 1000 + 500 + j

                def f(y):
                    raw = dict(base)
                    raw[x] = y
                    try:
                        r = mk(seed, point(raw)).ev(P)
                        r = float(r)
                        return r if r == r else None
                    except (Unknown, Ambiguous, ZeroDivisionError, OverflowError, TypeError, ValueError):
                        return None
                root = find_root(f)
                if root is None:
                    continue
                for y in near(root, f):
                    raw = dict(base)
                    raw[x] = y
                    yield mk(seed, point(raw))

    def equal_mod(self, got, want, rels, assume=TRUE):
        """equality modulo polynomial side relations  var^2 = poly"""
        bad = []

        def cmp(a, b):
            if a is b:
                return TRUE
            if a.op != b.op:
                return FALSE
            if a.op == 'rat':
                return TRUE if zero_mod(T.rsub(a, b), rels) else FALSE
            if a.op == 'app' and a.args[0] != b.args[0]:
                return FALSE
            if a.op in ('farr', 'fobj', 'tup', 'flist', 'app', 'map', 'filt'):
                return TRUE if alleq(a.args, b.args, cmp) else FALSE
            if a.op == 'dec':
                return TRUE if alleq(a.args, b.args, cmp) else FALSE
            return FALSE
        r = T.lift(cmp, under(assume, got), under(assume, want))
        return all(x is TRUE for x in T.leaves(r))

    # ------------------------------------------------------------ verdict
    def finish(self, level, explanation, minimum=0):
        counts = {}
        for o in self.obs:
            counts[o['status']] = counts.get(o['status'], 0) + 1
        known = load_known(self.pid)
        new = []
        for f in self.findings:
            k = known.get(f['key'])
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
            else:
                new.append(f)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'explanation': explanation,
                'obligations': len(self.obs), 'discharged': counts.get('proved', 0) + counts.get('consistent', 0),
                'status_counts': counts, 'rules': self.rules,
                'functions_analysed': sorted(self.funcs), 'engine': self.stats,
                'files_parsed': self.repo.parsed, 'details': self.obs,
            },
            'assumptions': self.assumptions,
            'violations': len(new),
            'wall_s': round(time.time() - self.t0, 3),
        }
        ev['coverage'].update(self.extra)
        d = os.environ.get('VFA_EVIDENCE') or os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(d, self.pid + '.violations.txt')
        if os.path.exists(rp):
            os.remove(rp)
        summary = '%s: %d obligations, %s, %.1fs' % (
            self.pid, len(self.obs), ', '.join('%d %s' % (v, k) for k, v in sorted(counts.items())),
            time.time() - self.t0)
        print(summary)
        if new:
            with open(rp, 'w') as f:
                for x in new:
                    f.write('%s\n  rule: %s\n  at: %s\n  %s\n' % (x['id'], x['rule'], x['where'], x['detail']))
                    if x['witness']:
                        f.write('  at point: %s\n' % x['witness'])
                    f.write('\n')
                f.write('re-run: python3 %s %s\n' % (os.path.join(HERE, 'check.py'), self.pid))
            for x in new:
                print('%s: [%s] %s: %s' % (x['where'], x['rule'], x['id'], x['detail'].split('\n')[0]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if len(self.obs) < minimum:
            print('only %d obligations generated, %d expected: anchors changed' % (len(self.obs), minimum))
            return 3
        return 0


def seqval(lens, elems, funcs=None, long=None):
    """valuation factory: lens {#name: f(rng)}, elems {base: f(rng, ctx) -> list of values},
    funcs(rng, ctx) -> interpretation of opaque functions {name: f(valuation, arguments)}"""
    def make(seed, pt):
        rng = random.Random(seed)
        ls = {}
        tab = {}
        for k in lens:
            ls[k] = lens[k](rng) if callable(lens[k]) else lens[k]
        ctx = {'lens': ls, 'tab': tab, 'point': pt}
        for b, f in elems.items():
            tab[b] = f(rng, ctx)

        def elem(base, i, path):
            t = tab.get(base)
            if t is None:
                return None
            if not (0 <= i < len(t)) or i != int(i):
                return float('nan')
            v = t[int(i)]
            for p in path:
                v = v[p]
            return v
        v = Valuation(seed, pt, elem=elem, lens=ls, funcs=funcs(rng, ctx) if funcs else None)
        v.tab = tab
        v.long = long or v.long
        return v
    return make


def nums(v):
    """flat numbers of an evaluated vector"""
    if isinstance(v, tuple) and v and v[0] == 'farr':
        v = v[2]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in nums(x)]
    return [v]


def rndquat(rng):
    q = [rng.gauss(0, 1) for _ in range(4)]
    n = sum(x * x for x in q) ** 0.5
    return [x / n for x in q]


def find_root(f):
    """zero of f on [-3, 3] by sampling and bisection"""
    grid = [-3 + 0.25 * i for i in range(25)]
    prev = None
    best = None
    for x in grid:
        v = f(x)
        if v is None:
            prev = None
            continue
        if v == 0:
            return x
        if prev is not None and (prev[1] < 0) != (v < 0):
            lo, hi, flo = prev[0], x, prev[1]
            for _ in range(60):
                m = (lo + hi) / 2
                fm = f(m)
                if fm is None:
                    break
                if fm == 0:
                    return m
                if (fm < 0) == (flo < 0):
                    lo, flo = m, fm
                else:
                    hi = m
            return (lo + hi) / 2
        prev = (x, v)
        if best is None or abs(v) < best[1]:
            best = (x, abs(v))
    return best[0] if best is not None else None


def near(r, f):
    out = []
    for d in range(0, 10):
        y = round(r, d)
        if f(y) == 0:
            out.append(y)
            break
    else:
        out.append(r)
    for d in (1e-10, 1e-7, 1e-4, 1e-2, 0.1):
        out += [r - d, r + d]
    return out


def sgn_atoms(t):
    acc = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T.Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'sgn':
                acc.append(x)
            st.extend(x.args)
    return sorted(acc, key=lambda a: a.dig)


def unitq(*names):
    """mapping that normalises the quaternions with these symbol prefixes"""
    def m(p):
        for n in names:
            ks = [n + c for c in 'xyzw']
            if n.endswith('r'):
                ks = [n + c for c in 'xyzw']
            v = [p.get(k, 0.0) for k in ks]
            s = sum(y * y for y in v) ** .5
            if s < 1e-9:
                v, s = [0., 0., 0., 1.], 1.
            for k, y in zip(ks, v):
                p[k] = y / s
        return p
    return m


KNOWN = {'allclose', 'elt', 'get', 'proj', 'len', 'inf', 'pi', 'raised', 'str', 'tostr', 'fmt', 'isnone', 'index',
         'svd_s', 'svd_v', 'svd_u', 'eq', 'nan', 'choices', 'positions', 'order', 'recval'}


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    r = {}
    if os.path.exists(p):
        for e in json.load(open(p))['known']:
            if e['property'] == pid:
                r[e['key']] = e['what']
    return r


def truth(v, c):
    try:
        return not c.unk and bool(v.ev(c))
    except (Ambiguous, Unknown, ZeroDivisionError, OverflowError):
        return False


def indexed(t):
    """mentions the index of an enclosing loop"""
    return any(s.op == 'sym' and s.args[0].startswith('%') for s in T.symbols(t))


def local(t):
    return any(s.op == 'sym' and s.args[0].startswith('%') or s.op == 'bv' for s in T.symbols(t))


def allunk(t):
    return all(x.unk for x in T.leaves(t))


def appnames(t):
    acc = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T.Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'app' and isinstance(x.args[0], str):
                if x.args[0] != 'attr':
                    acc.add(x.args[0])
                elif x.args[2] not in T.RECORDS:
                    acc.add('attr ' + x.args[2])
            st.extend(x.args)
    return acc


def under(g, v):
    return Interp.under(None, g, v) if g is not TRUE else v


# Interp.under only calls itself; bind it as a plain function
def _under(self, g, v):
    if g is TRUE or v.op != 'dec' or g.op != 'dec':
        return v
    a = min([g.args[0], v.args[0]], key=T._akey)
    ar = 3 if a.op == 'sgn' else 2
    br = []
    for i in range(ar):
        gi = T.cofactor(g, a, i)
        br.append(None if gi is FALSE else _under(None, gi, T.cofactor(v, a, i)))
    live = [b for b in br if b is not None]
    if not live:
        return v
    if all(b is live[0] for b in live):
        return live[0]
    return T.mkdec(a, [live[0] if b is None else b for b in br])


Interp.under = _under


def _affine(P):
    """(normalised non-constant part, scale, constant) of a polynomial term"""
    if P.args[1]:
        return None
    k = Fraction(0)
    d = {}
    for m, c in P.args[0]:
        if m == ():
            k = c
        else:
            d[m] = c
    if not d:
        return None
    lead = min(d, key=lambda m: tuple((a.dig, e) for a, e in m))
    l = d[lead]
    key = tuple(sorted(((tuple((a.dig, e) for a, e in m), c / l) for m, c in d.items())))
    return key, l, k


def decide(Q, facts):
    """sign set of Q implied by facts: tuple of possible branch indices"""
    poss = {0, 1, 2}
    q = _affine(Q)
    for P, i in facts:
        if P is Q:
            return (i,)
        if q is None:
            continue
        p = _affine(P)
        if p is None or p[0] != q[0]:
            continue
        lam = q[1] / p[1]           # Q = lam * P + c
        c = q[2] - lam * p[2]
        s = i - 1 if lam > 0 else 1 - i     # sign of lam * P
        if s == 0:
            poss &= {1 + (c > 0) - (c < 0)}
        elif s > 0:
            if c >= 0:
                poss &= {2}
        else:
            if c <= 0:
                poss &= {0}
    return tuple(sorted(poss))


def prune(v, facts=(), budget=None):
    """resolve decisions of v that follow from decisions already taken"""
    budget = budget or [4000]

    def go(v, facts):
        if v.op != 'dec':
            return v
        budget[0] -= 1
        if budget[0] < 0:
            raise T.TooBig()
        a = v.args[0]
        if a.op != 'sgn':
            return T.mkdec(a, [go(x, facts) for x in v.args[1:]])
        ps = decide(a.args[0], facts)
        if len(ps) == 1:
            return go(v.args[1 + ps[0]], facts)
        br = [go(v.args[1 + i], facts + ((a.args[0], i),)) if i in ps else None for i in range(3)]
        live = [x for x in br if x is not None]
        if all(x is live[0] for x in live):
            return live[0]
        return T.mkdec(a, [live[0] if x is None else x for x in br])
    return go(v, tuple(facts))


def eqcond(a, b):
    """condition under which the normal forms of a and b coincide"""
    def leaf(x, y):
        if x is y:
            return TRUE
        if x.op != y.op or x.op not in ('farr', 'fobj', 'tup', 'flist') or len(x.args) != len(y.args):
            return FALSE
        if x.op in ('farr', 'fobj'):
            if x.args[0] != y.args[0] or len(x.args[1]) != len(y.args[1]):
                return FALSE
            ps = list(zip(x.args[1], y.args[1]))
            if x.op == 'fobj':
                if any(p[0] != q[0] for p, q in ps):
                    return FALSE
                ps = [(p[1], q[1]) for p, q in ps]
        else:
            ps = list(zip(x.args, y.args))
        r = TRUE
        for p, q in ps:
            r = band(r, eqcond(p, q))
            if r is FALSE:
                break
        return r
    return T.lift(leaf, a, b)


def sameunder(g, a, b):
    try:
        r = eqcond(a, b)
        if g is not TRUE:
            r = bor(bnot(g), r)
        return prune(r) is TRUE
    except T.TooBig:
        return False


def implies_not(g, ab):
    try:
        return prune(band(g, ab)) is FALSE
    except T.TooBig:
        return False


def alleq(a, b, cmp):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alleq(x, y, cmp) for x, y in zip(a, b))
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        r = T.lift(cmp, a, b) if not (a.op == 'dec' and b.op == 'dec' and a.args[0] is b.args[0]) \
            else T.lift(cmp, a, b)
        return all(x is TRUE for x in T.leaves(r))
    return a == b


def zero_mod(r, rels):
    """numerator of r reduced by the relations  sym^2 = poly"""
    p = dict(r.args[0])
    for s, repl in rels:
        rp = dict(repl.args[0])
        for _ in range(40):
            out = {}
            changed = False
            for m, c in p.items():
                d = dict(m)
                if d.get(s, 0) >= 2:
                    d[s] -= 2
                    if d[s] == 0:
                        del d[s]
                    m2 = {tuple(sorted(d.items(), key=lambda x: x[0].dig)): c}
                    out = T.padd(out, T.pmul(m2, rp))
                    changed = True
                else:
                    out = T.padd(out, {m: c})
            p = out
            if not changed:
                break
    return not p


def show_point(v):
    return ', '.join('%s=%s' % (k, short(x)) for k, x in sorted(v.used.items())[:40])


def short(v):
    if isinstance(v, float):
        return '%.9g' % v
    if isinstance(v, (list, tuple)):
        s = '[' + ', '.join(short(x) for x in v[:24]) + (', ...' if len(v) > 24 else '') + ']'
        return s
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (k, short(x)) for k, x in v.items()) + '}'
    return str(v)


# ---------------------------------------------------------------- argument builders
def S(name):
    return atom(sym(name))


def quat(it, st, n):
    a = it.new_arr(st, (4,), [S(n + c) for c in 'xyzw'])
    return it.alloc(st, Obj('inst', {'q': a}, cls=QCLS))


def dquat(it, st, n):
    a = it.new_arr(st, (8,), [S(n + c) for c in ('rx', 'ry', 'rz', 'rw', 'tx', 'ty', 'tz', 'tw')])
    return it.alloc(st, Obj('inst', {'dq': a}, cls=DCLS))


def vec(it, st, n, m):
    return it.new_arr(st, (m,), [S('%s%d' % (n, i)) for i in range(m)])


def mat(it, st, n, r, c):
    return it.new_arr(st, (r, c), [S('%s%d%d' % (n, i, j)) for i in range(r) for j in range(c)])


def symlist(it, st, name, kind, n=None):
    return it.new_list(st, T.mk('symseq', sym(name), n if n is not None else S('#' + name), kind))


def symarr(it, st, name, inner=(), n=None):
    return it.new_sarr(st, T.mk('symseq', sym(name), n if n is not None else S('#' + name),
                               'num' if inner == () else ('arr', inner)), inner)


# ---------------------------------------------------------------- opaque dual quaternion primitives
def _isdq(st, v):
    return v.op == 'ref' and st.heap[v.args[0]].kind == 'inst' and st.heap[v.args[0]].cls == DCLS


def _dqvec(it, st, v):
    return it.freeze(st, st.heap[v.args[0]].data['dq'])


def newdq(it, st, elems):
    return it.alloc(st, Obj('inst', {'dq': it.new_arr(st, (8,), elems)}, cls=DCLS))


def comps(name, n, *args):
    return [atom(T.mk('app', name, *(args + (i,)))) for i in range(n)]


def _real(it, st, qual, args, kwargs):
    m, n = it.repo.find(DMOD, qual)
    return it.call_node(st, m.name, qual, n, args, kwargs, None)


def dqprims(*which):
    """summaries of dual quaternion primitives (their own bodies are decided by C03/C04), kept uninterpreted so that
    rules about lists and loops compare the structure of the computation"""
    def mul(it, st, args, kw):
        def f(s, a, b):
            if _isdq(s, a) and _isdq(s, b):
                return newdq(it, s, comps('dqmul', 8, _dqvec(it, s, a), _dqvec(it, s, b)))
            return _real(it, s, 'DualQuaternion.__mul__', [a, b], {})
        return it.lift_st(st, f, *args)

    def inv(it, st, args, kw):
        return it.lift_st(st, lambda s, a: newdq(it, s, comps('dqinv', 8, _dqvec(it, s, a))), *args)

    def pose(it, st, args, kw):
        return it.lift_st(st, lambda s, a: it.new_arr(s, (7,), comps('dqpose', 7, _dqvec(it, s, a))), *args)

    def screw(it, st, args, kw):
        def f(s, a):
            c = comps('dqscrew', 5, _dqvec(it, s, a))
            return T.tup([it.new_arr(s, (3,), c[:3]), c[3], c[4]])
        return it.lift_st(st, f, *args)

    def frompose(it, st, args, kw):
        if args and args[0].op == 'cls':
            args = args[1:]

        def f(s, p):
            v = it.freeze(s, p)
            if v.op not in ('farr', 'flist'):
                return _real(it, s, 'DualQuaternion.from_pose_vector', [T.mk('cls', *DCLS), p], {})
            e = v.args[1] if v.op == 'farr' else v.args
            return newdq(it, s, comps('dqfrompose', 8, T.farr((7,), list(e)[:7])))
        return it.lift_st(st, f, *args)

    def from7(it, st, args, kw):
        if args and args[0].op == 'cls':
            args = args[1:]
        return newdq(it, st, comps('dqfrompose', 8, T.farr((7,), list(args))))
    d = {'DualQuaternion.__mul__': mul, 'DualQuaternion.inverse': inv, 'DualQuaternion.to_pose': pose,
         'DualQuaternion.screw_axis': screw, 'DualQuaternion.from_pose_vector': frompose,
         'DualQuaternion.from_pose': from7}
    if which:
        d = {k: v for k, v in d.items() if k.split('.')[1] in which}
    return d


def _q(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return [aw * bx + bw * ax + ay * bz - az * by, aw * by + bw * ay + az * bx - ax * bz,
            aw * bz + bw * az + ax * by - ay * bx, aw * bw - ax * bx - ay * by - az * bz]


def _fdqmul(a, b, i):
    a, b = a[2], b[2]
    if i < 4:
        return _q(a[:4], b[:4])[i]
    return _q(a[:4], b[4:])[i - 4] + _q(a[4:], b[:4])[i - 4]


def _fdqinv(a, i):
    a = a[2]
    n = sum(x * x for x in a[:4])
    r = [-a[0] / n, -a[1] / n, -a[2] / n, a[3] / n]
    if i < 4:
        return r[i]
    return -_q(_q(r, a[4:]), r)[i - 4]


def _fdqpose(a, i):
    a = a[2]
    n = sum(x * x for x in a[:4]) ** .5
    a = [x / n for x in a]
    if i >= 3:
        return a[i - 3] if a[3] >= 0 else -a[i - 3]
    return 2 * _q(a[4:], [-a[0], -a[1], -a[2], a[3]])[i]


def _fdqscrew(a, i):
    import math
    a = a[2]
    rot = 2 * math.degrees(math.acos(max(-1., min(1., a[3])))) % 360.
    if rot > 1e-12:
        s = math.sin(math.radians(rot / 2))
        r = [a[0] / s, a[1] / s, a[2] / s, rot, -2 * a[7] / s]
    else:
        t = 2 * sum(x * x for x in a[4:7]) ** .5
        r = ([2 * x / t for x in a[4:7]] if t > 1e-12 else [0., 0., 0.]) + [rot, t]
    return r[i]


def _fdqfrompose(p, i):
    p = p[2]
    n = sum(x * x for x in p[3:7]) ** .5
    r = [x / n for x in p[3:7]] if n > 1e-8 else list(p[3:7])
    if i < 4:
        return r[i]
    return 0.5 * _q([p[0], p[1], p[2], 0.], r)[i - 4]


FUNCS.update({'dqmul': _fdqmul, 'dqinv': _fdqinv, 'dqpose': _fdqpose, 'dqscrew': _fdqscrew,
              'dqfrompose': _fdqfrompose})


def qprims(*which):
    """summaries of quaternion primitives (decided by C01/C02/C06)"""
    def isq(s, v):
        return v.op == 'ref' and s.heap[v.args[0]].kind == 'inst' and s.heap[v.args[0]].cls == QCLS

    def vec(it, s, v):
        return it.freeze(s, s.heap[v.args[0]].data['q'])

    def angle(it, st, args, kw):
        return it.lift_st(st, lambda s, a, b: atom(T.mk('app', 'qangle', vec(it, s, a), vec(it, s, b))), *args)

    def slerp(it, st, args, kw):
        def f(s, a, b):
            fr = it.freeze(s, args[2])
            return it.alloc(s, Obj('inst', {'q': it.new_arr(s, (4,), comps(
                'qslerp', 4, vec(it, s, a), vec(it, s, b), fr))}, cls=QCLS))
        return it.lift_st(st, f, args[0], args[1])

    def angvel(it, st, args, kw):
        return it.lift_st(st, lambda s, a, b: it.new_arr(s, (3,), comps(
            'qangvel', 3, vec(it, s, a), vec(it, s, b), it.freeze(s, args[2]))), args[0], args[1])
    d = {'angle_between_quaternions': angle, 'quaternion_slerp': slerp,
         'angular_velocity_between_quaternions': angvel}
    return {k: v for k, v in d.items() if k in which} if which else d


def _fqangle(a, b):
    import math
    a, b = a[2], b[2]
    if all(abs(x - y) <= 1e-12 + 1e-5 * abs(y) for x, y in zip(a, b)):
        return 0.0
    n = sum(x * x for x in b)
    return 2 * math.acos(max(-1., min(1., sum(x * y for x, y in zip(a, b)) / n)))


def _fqslerp(a, b, f, i):
    import math
    a, b = a[2], b[2]
    if f == 0:
        return a[i]
    if f == 1:
        return b[i]
    d = sum(x * y for x, y in zip(a, b))
    if d < 0:
        d, a = -d, [-x for x in a]
    d = max(-1., min(1., d))
    th = math.acos(d) * f
    c = [y - x * d for x, y in zip(a, b)]
    n = sum(x * x for x in c) ** .5
    if n > 1e-8:
        c = [x / n for x in c]
    return a[i] * math.cos(th) + c[i] * math.sin(th)


def _fqangvel(a, b, t, i):
    import math
    a, b = a[2], b[2]
    n = sum(x * x for x in b)
    r = _q(a, [-b[0] / n, -b[1] / n, -b[2] / n, b[3] / n])
    if r[3] < 0:
        r = [-x for x in r]
    s = sum(x * x for x in r[:3]) ** .5
    ang = 2 * math.acos(max(-1., min(1., r[3])))
    return 0.5 / t * ang * (r[i] / s if s > 1e-12 else 0.)


FUNCS.update({'qangle': _fqangle, 'qslerp': _fqslerp, 'qangvel': _fqangvel})
