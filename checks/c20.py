"""C20: failed external steps stop the pipeline, stale outputs are redone"""
import os
from vfa.core import *
from vfa import shell
from vfa.repo import REPO
from vfa import sysmodel as sysm
from vfa.terms import mk
from vfa.npmodel import isstr, mkstr
from vfa.interp import Raises, exc_base
from vfa import npmodel
from checks import c18
from checks.tools import TOOLS, CIRCLE, SCRIPT, launches

BASH = PKG + '.bash_utils'
SPEC = '''
from hand_eye_calibration.bash_utils import run, create_path
from world import broken

class Error(object):
  def __init__(self, errno, name):
    self.errno = errno
    self.strerror = 'failed'
    self.filename = name
    self.args = (errno, 'failed')

def d_run(cmd):
  run(cmd)

def d_dry(cmd):
  run(cmd, True)

def d_create(path):
  create_path(path)
'''
UPDATE = '''
import os
from hand_eye_calibration.bash_utils import run

def r_update(inputs, outputs):
  for o in outputs:
    if not os.path.exists(o):
      return True
  for i in inputs:
    if os.path.exists(i):
      for o in outputs:
        if os.path.getmtime(i) > os.path.getmtime(o):
          return True
  return False
'''
ERRNO = {'FileExistsError': 17, 'PermissionError': 13, 'FileNotFoundError': 2, 'NotADirectoryError': 20, 'OSError': 28}


def stopped(r):
    """whether the run ends by reporting a failure; None if unknown"""
    if r.raised:
        return not (r.exc and r.exc[0] == 'SystemExit' and r.exc[1] in (T.ZERO, NONE))
    return None if r.value.op == 'unk' else False


def runner(c):
    w = c.where(BASH, 'run')
    cmd = "tool --in 'a b' --out=c -v"
    words = [T.const(x) for x in ('tool', '--in', 'a b', '--out=c', '-v')]
    for what, fn, code in (('exit code 0', 'd_run', 0), ('exit code 1', 'd_run', 1), ('exit code 3', 'd_run', 3),
                           ('killed by a signal', 'd_run', -9), ('dry run', 'd_dry', 1)):
        def build(it, st):
            it.explicit_raises = True
            it.exits = lambda argv: num(code)
            return [T.const(cmd)]
        r = c.run('spec_c20', fn, build, models=c.system())
        s = stopped(r)
        fails = fn == 'd_run' and code != 0
        c.ob('run[%s] outcome' % what, 'a failing process is reported', w,
             'undecided' if s is None else 'proved' if s == fails else 'violated',
             '%s with %s' % ('an error is raised' if s else 'no error is raised', what))
        l = launches(r)
        want = [T.flist(words)] if fn == 'd_run' else []
        c.ob('run[%s] started' % what, 'exactly the command is started', w,
             'undecided' if l is None or any(x.unk for x in l) else 'proved' if l == want else 'violated',
             'started: %s' % [T.show(x)[:200] for x in l or []])


def directories(c):
    w = c.where(BASH, 'create_path')
    path = mkstr([sysm.strsym('dir'), T.const('/sub/file.csv')])
    there = mkstr([sysm.strsym('dir'), T.const('/sub')])
    # (name, directory exists at first look, parent exists, failure of creating it)
    for name, exists, parent, fault in (
            ('directory exists', True, True, None), ('directory missing', False, True, None),
            ('parent missing', False, False, None), ('created meanwhile', False, True, 'FileExistsError'),
            ('not permitted', False, True, 'PermissionError'), ('parent is a file', False, True, 'NotADirectoryError'),
            ('no space left', False, True, 'OSError')):
        def m_exists(it, st, args, kw, node):
            p = it.freeze(st, args[0])
            if p is there:
                return TRUE if exists or it.made else FALSE
            return FALSE if p is path else unk('other path')

        def m_make(deep):
            def m(it, st, args, kw, node):
                p = it.freeze(st, args[0] if args else kw['name'])
                it.asked.append(p)
                if p is not there:
                    return NONE
                f = fault or ('FileExistsError' if exists else None if parent or deep else 'FileNotFoundError')
                ok = kw.get('exist_ok', args[2] if deep and len(args) > 2 else FALSE)
                if f == 'FileExistsError' and ok is TRUE:
                    f = None
                if f == 'FileExistsError':
                    it.made = True
                if f:
                    raise Raises(f, (f, it.construct(st, mk('cls', 'spec_c20', 'Error'), [num(ERRNO[f]), p], {}, None)))
                it.made = True
                return NONE
            return m

        def m_isinstance(it, st, args, kw, node):
            v, n = args[0], args[1].args[0] if args[1].op == 'bi' else None
            if fault and exc_base(str(n)) and v.op == 'ref' and st.heap[v.args[0]].kind == 'inst':
                return TRUE if issubclass(exc_base(fault), exc_base(n)) else FALSE
            return npmodel.m_isinstance(it, st, args, kw, node)

        def build(it, st):
            it.explicit_raises = True
            it.made = False
            it.asked = []
            return [path]
        ms = dict(c.system(), **{'os.path.exists': m_exists, 'os.path.isdir': m_exists, 'os.makedirs': m_make(True),
                                 'os.mkdir': m_make(False), 'isinstance': m_isinstance})
        r = c.run('spec_c20', 'd_create', build, models=ms)
        s = stopped(r)
        if s is None or any(p.unk for p in r.it.asked):
            c.ob('create_path[%s]' % name, 'directories are created', w, 'undecided', 'not determined')
            continue
        if fault not in (None, 'FileExistsError'):
            ok, d = s, 'the failure to create the directory is not reported'
        else:
            ok = not s and (exists or r.it.made or fault == 'FileExistsError')
            d = 'fails: %s' % r.raised if s else 'the directory of the file is not created'
        c.require('create_path[%s]' % name, 'directories are created', w, ok, '' if ok else d)


def tools(c):
    for t in TOOLS:
        r = t.run(c)
        w = c.where(t.mod, '__main__')
        all_ = launches(r)
        if not all_:
            c.ob('%s steps' % t.name, 'failing steps stop the tool', w, 'undecided' if all_ is None else 'violated',
                 'started processes are not determined' if all_ is None else 'nothing is started')
            continue
        for k in range(len(all_)):
            f = t.run(c, k)
            s, l = stopped(f), launches(f)
            what = '%s step %d of %d fails' % (t.name, k + 1, len(all_))
            c.ob(what, 'failing steps stop the tool', w,
                 'undecided' if s is None or l is None else 'proved' if s and len(l) == k + 1 else 'violated',
                 'the tool finishes without an error' if s is False else
                 '%d further steps are started' % (len(l) - k - 1) if l and len(l) != k + 1 else '')


def script(c):
    p = os.path.join(REPO, SCRIPT)
    if not os.path.exists(p):
        raise AnchorError(SCRIPT + ' not found')
    sh = shell.parse(open(p).read())
    if sh is None:
        c.ob('script', 'failing steps stop the script', SCRIPT, 'undecided', 'uses more than plain commands')
        return
    if not sh.cmds:
        raise AnchorError('no steps in ' + SCRIPT)
    for i, x in enumerate(sh.cmds):
        ok = sh.stops(i)
        what = ' '.join(x or '?' for x in x.text[1:3])
        c.ob('script step %s' % what, 'failing steps stop the script', '%s:%d %s' % (SCRIPT, x.line, what),
             'proved' if ok else 'violated', '' if ok else 'later steps run or success is reported although this one failed')


def experiments(c):
    base = c.system()
    for mod, scenes in ((c18.SET, [c18.Scene('new result directory', 3, 1),
                                   c18.Scene('a refinement fails', 3, 2, exit=[('fa', 'fb'), ('fb', 'fc')], exists=True)]),
                        (c18.OPT, [c18.Scene('new result directory', 2, 1),
                                   c18.Scene('a refinement fails', 3, 1, exit=[('fa', 'fc')], exists=True)])):
        name = mod.split('/')[-1]
        c.main(mod)
        w = c.where(mod, '__main__')
        for sc in scenes:
            ms = c18.models(sc, base)
            op = c18.opaques(sc)
            del op['create_path']

            def known(it, st, v):
                v = it.freeze(st, v)
                d = sysm.m_dirname(it, st, [v], {}, None)
                return d, d is T.const('') or d in it.dirs

            def use(it, st, v, what):
                d, ok = known(it, st, v)
                it.uses.setdefault((d, what), ok)
                if not ok:
                    it.uses[d, what] = False

            def exists(it, st, args, kw, node):
                if sc.exists:
                    return TRUE
                return TRUE if it.freeze(st, args[0]) in it.dirs else FALSE

            def make(it, st, args, kw, node):
                it.dirs.add(it.freeze(st, args[0] if args else kw['name']))
                return NONE

            def m_open(it, st, args, kw, node):
                mode = kw.get('mode', args[1] if len(args) > 1 else T.const('r'))
                if mode.op == 'const' and set(mode.args[0]) & set('wax'):
                    use(it, st, args[0], 'file')
                return sysm.m_open(it, st, args, kw, node)

            def to_json(it, st, args, kw):
                use(it, st, args[-1] if len(args) > 1 or not kw else kw['out_file'], 'calibration file')
                return NONE

            def from_json(it, st, args, kw, real=op['ExtrinsicCalibration.fromJson']):
                f = it.freeze(st, args[-1] if args else kw['in_file'])
                it.reads += 1
                if f not in it.done:
                    it.stale.append(f)
                return real(it, st, args, kw)
            for n in ('os.path.exists', 'os.path.isfile', 'os.path.isdir'):
                ms[n] = exists
            ms['os.makedirs'] = ms['os.mkdir'] = make
            ms['open'] = ms['io.open'] = m_open
            op['ExtrinsicCalibration.writeJson'] = to_json
            op['ExtrinsicCalibration.fromJson'] = from_json

            def build(it, st):
                a = c18.build(sc)(it, st)
                it.dirs, it.uses, it.stale, it.reads, it.failed = set(), {}, [], 0, 0
                inner = it.exits

                def exits(argv):
                    o = c18.options(it, st, argv)
                    out = o.get('output_file')
                    it.done.pop(out, None)
                    if out is not None:
                        use(it, st, out, 'refined calibration')
                    r = inner(argv)
                    it.failed += r is T.ONE
                    return r
                it.exits = exits
                return a
            r = c.run(mod, '__main__', build, opaque=op, models=ms)
            oid = '%s[%s] ' % (name, sc.name)
            if r.value.op == 'unk' and not r.raised:
                c.ob(oid + 'runs', 'old results are not used', w, 'undecided', T.show(r.value)[:200])
                continue
            if sc.exit:
                if not r.it.failed:
                    c.ob(oid + 'failed refinement', 'old results are not used', w, 'undecided', 'no refinement fails')
                else:
                    c.require(oid + 'failed refinement', 'old results are not used', w, not r.it.stale,
                              'reads %s although the refinement that writes it failed' % T.show(r.it.stale[0])[:200]
                              if r.it.stale else '')
            else:
                c.require(oid + 'own results', 'old results are not used', w, not r.it.stale,
                          'reads %s which this run did not write' % T.show(r.it.stale[0])[:200] if r.it.stale else '')
                for (d, what), ok in sorted(r.it.uses.items(), key=lambda x: (T.show(x[0][0]), x[0][1])):
                    txt = ''.join(p if isinstance(p, str) else '<%s>' % T.show(p)[:40] for p in sysm.pieces(d)) if isstr(d) else T.show(d)[:80]
                    c.ob('%sdirectory %s of %s' % (oid, txt, what), 'directories are created', w,
                         'proved' if ok else 'undecided' if not isstr(d) or 'dirname' in T.show(d) else 'violated',
                         '' if ok else 'is not created before the file is written')


def circle(c):
    try:
        w = c.where(CIRCLE, 'requiresUpdate')
    except AnchorError:
        return
    ins, outs = ['in0', 'in1'], ['out0', 'out1']
    names = ins + outs
    partial = []
    for mask in range(16):
        have = {sysm.strsym(n) for i, n in enumerate(names) if mask >> i & 1}

        def exists(it, st, args, kw, node):
            return TRUE if it.freeze(st, args[0]) in have else FALSE

        def mtime(it, st, args, kw, node):
            return atom(T.sym('time of ' + it.freeze(st, args[0]).args[1].args[1]))

        def build(it, st):
            return [it.new_list(st, T.flist([sysm.strsym(n) for n in l])) for l in (ins, outs)]
        ms = dict(c.system(), **{'os.path.exists': exists, 'os.path.isfile': exists, 'os.path.getmtime': mtime})
        got = c.run(CIRCLE, 'requiresUpdate', build, models=ms)
        there = ' '.join(n for i, n in enumerate(names) if mask >> i & 1) or 'none'
        if mask >> 2 in (1, 2):
            partial.append((there, got.value))
            continue
        want = c.run('spec_c20u', 'r_update', build, models=ms)
        c.equal('requiresUpdate with existing files: ' + there, 'a step is skipped only if its outputs are complete', w, got,
                want.value)
    bad = [t for t, v in partial if v is not TRUE]
    c.ob('requiresUpdate with some outputs missing', 'a step is skipped only if its outputs are complete', w,
         'proved' if not bad else 'undecided' if any(v.unk for _, v in partial) else 'violated',
         'the step can be skipped if only these files exist: ' + bad[0] if bad else '')


def run(c):
    c.add_spec('spec_c20', SPEC)
    c.add_spec('spec_c20u', UPDATE)
    runner(c)
    directories(c)
    tools(c)
    script(c)
    experiments(c)
    circle(c)
    return c.finish('other', 'outcomes of starting a process and creating a directory for every kind of failure, each started '
                    'step of the tools failing in turn, reads and writes of the experiments around a failed refinement', minimum=15)
