"""C17: every launched tool is called with options it accepts"""
import glob
import os
from vfa import core, cpp, shell
from vfa.core import *
from vfa.repo import REPO
from vfa import sysmodel as sysm
from vfa.terms import mk
from vfa.npmodel import isstr, mkstr
from vfa.interp import Raises
from checks import c18
from checks.tools import TOOLS, BAG, EXTRACT, CIRCLE, SCRIPT, CONFIG, TARGET, launches

# options every tool using the flags library has
LIBFLAGS = {'v': 'int32', 'alsologtostderr': 'bool', 'logtostderr': 'bool', 'colorlogtostderr': 'bool', 'minloglevel': 'int32',
            'stderrthreshold': 'int32', 'log_dir': 'string', 'vmodule': 'string', 'flagfile': 'string', 'helpshort': 'bool'}
TRUTH = {'True': True, 'true': True, '1': True, 'yes': True, 'TRUE': True,
         'False': False, 'false': False, '0': False, 'no': False, 'FALSE': False}
SPEC = '''
import itertools
from scene import scene_files, scene_iterations, scene_ranges, flag
from hand_eye_calibration_experiments.all_algorithm_configs import (
    get_all_configs, get_optimization_with_spoiled_initial_calibration_config)
from spec_c18 import search, spoil_initial_guess

def d_convert(f, text):
  return f(text)

def r_set():
  files = scene_files()
  r = []
  for (name, filtering, config, refinement) in get_all_configs():
    once = config.enable_exhaustive_search or config.use_baseline_approach
    for k in range(1 if once else scene_iterations()):
      for (a, b) in itertools.combinations(range(len(files)), 2):
        (pa, pb, t, n, result) = search(files[a], files[b], filtering, config)
        if refinement.enable_optimization:
          r.append((files[a], files[b], flag(a), flag(b), t, result[1].dq))
  return r

def r_opt():
  files = scene_files()
  r = []
  (name, filtering, config, refinement) = get_optimization_with_spoiled_initial_calibration_config()
  guesses = [search(a, b, filtering, config) for (a, b) in itertools.combinations(files, 2)]
  for i in range(scene_ranges()):
    for k in range(scene_iterations()):
      j = 0
      for (a, b) in itertools.combinations(range(len(files)), 2):
        (ts, dqs, offsets) = spoil_initial_guess(guesses[j][2], guesses[j][4][1], None, None, None)
        r.append((files[a], files[b], flag(a), flag(b), ts, dqs.dq))
        j += 1
  return r
'''


# ------------------------------------------------------------------ callees
class Callee:
    """options a tool declares: name -> (needs value, required, kind)"""
    def __init__(self, name, options, flags):
        self.name, self.options, self.flags = name, options, flags

    def find(self, n):
        if n in self.options:
            return n
        if not self.flags:
            m = [o for o in self.options if o.startswith(n)]
            return m[0] if len(m) == 1 else None
        return n[2:] if n.startswith('no') and self.options.get(n[2:], (0, 0, ''))[2] == 'bool' else None


def parser_table(c, mod):
    """options of a Python tool"""
    c.main(mod)

    def parsed(it, st, args, kw, node):
        raise Raises('parsed', ('SystemExit', T.ZERO))
    ms = dict(c.system(), **{'parser.parse_args': parsed, 'parser.parse_known_args': parsed})

    def build(it, st):
        it.explicit_raises = True
        return []
    r = c.run(mod, '__main__', build, models=ms)
    ps = [x for x in getattr(r.it, 'parsers', []) if x]
    if len(ps) != 1 or not r.raised:
        return None, None
    return ps[0], r


def python_callee(c, mod):
    ps, r = parser_table(c, mod)
    if ps is None:
        return None
    opts = {}
    for o in ps:
        act = o['kw'].get('action')
        value = not (act is not None and act.op == 'const' and str(act.args[0]).startswith('store_'))
        for n in o['names']:
            opts[n.lstrip('-')] = (value, o['kw'].get('required') is TRUE, o['kw'].get('type'))
    return Callee(mod.split('/')[-1], opts, False)


def callee(c, pkg, exe, cache={}):
    k = (pkg, exe, REPO)
    if k not in cache:
        r = None
        if exe.endswith('.py'):
            for d in ('bin', 'scripts'):
                if os.path.exists(os.path.join(REPO, pkg, d, exe)):
                    r = python_callee(c, '%s/%s/%s' % (pkg, d, exe[:-3])) or 'unknown'
        else:
            for f, fl in cpp.flags(REPO).items():
                if f.split('/')[0] == pkg and os.path.splitext(os.path.basename(f))[0] == exe:
                    o = dict(LIBFLAGS, **fl)
                    r = Callee(exe, {n: (t != 'bool', False, t) for n, t in o.items()}, True)
        cache[k] = r
    return cache[k]


def text(w):
    return w.args[0] if w.op == 'const' and isinstance(w.args[0], str) else None


def parse(words):
    """[(option, has '=', [values])] of the words after the tool's name"""
    out = []
    for w in words:
        ps = sysm.pieces(w) if isstr(w) else [w]
        h = ps[0] if isinstance(ps[0], str) else ''
        if h.startswith('-') and len(h.lstrip('-')) and not h.lstrip('-')[0].isdigit():
            k, eq, rest = h.lstrip('-').partition('=')
            v = ([T.const(rest)] if rest else []) + [T.const(p) if isinstance(p, str) else p for p in ps[1:]]
            if not eq and ps[1:]:
                return None
            out.append((k, bool(eq), [mkstr(v)] if eq else []))
        elif out:
            out[-1][2].append(w)
        else:
            out.append((None, False, [w]))
    return out


def accepts(c, oid, w, words, cache):
    """rules every launch has to obey; returns its options"""
    t = [text(x) for x in words[:3]]
    rule = 'options are accepted by the started tool'
    if len(t) < 3 or t[0] != 'rosrun' or None in t:
        c.ob(oid + ' tool', rule, w, 'undecided', 'started tool is not determined')
        return None
    tool = callee(c, t[1], t[2])
    if tool is None:
        c.ob(oid + ' tool', rule, w, 'violated', 'there is no tool %s in %s' % (t[2], t[1]))
        return None
    if tool == 'unknown':
        c.ob(oid + ' tool', rule, w, 'undecided', 'options of %s are not determined' % t[2])
        return None
    os_ = parse(words[3:])
    if os_ is None:
        c.ob(oid + ' options', rule, w, 'undecided', 'words are not determined')
        return None
    bad = []
    opts = {}
    for n, eq, vs in os_:
        d = tool.find(n) if n is not None else None
        if d is None:
            bad.append('%s is not an option of %s' % ('--' + n if n else T.show(vs[0])[:60], t[2]))
            continue
        value, req, kind = tool.options[d]
        if value and not vs:
            bad.append('--%s needs a value' % n)
        if len(vs) > 1 and tool.flags or not value and vs and not (tool.flags and eq):
            bad.append('--%s takes no separate value' % n)
        if tool.flags and vs and text(vs[0]) is not None and not fits(kind, text(vs[0])):
            bad.append('--%s=%s is not a %s' % (n, text(vs[0]), kind))
        if d in opts:
            bad.append('--%s is given twice' % n)
        opts[d] = vs[0] if vs else TRUE if n == d or not tool.flags else FALSE
    for n, (value, req, kind) in tool.options.items():
        if req and n not in opts:
            bad.append('--%s is required by %s' % (n, t[2]))
    c.require(oid + ' options', rule, w, not bad, '; '.join(bad))
    return t[2], opts


def fits(kind, s):
    try:
        if kind == 'bool':
            return s.lower() in ('1', '0', 't', 'f', 'true', 'false', 'y', 'n', 'yes', 'no')
        if kind in ('int32', 'int64', 'uint32', 'uint64'):
            int(s)
        elif kind == 'double':
            float(s)
    except ValueError:
        return False
    return True


def compare(c, oid, w, opts, want):
    """options carry the values they stand for"""
    for k, v in want.items():
        g = opts.get(k)
        v = T.const(v) if isinstance(v, str) else v
        st = 'violated' if g is None else 'proved' if same(g, v) else 'undecided' if g.unk else 'violated'
        c.ob('%s --%s' % (oid, k), 'options carry the value of their meaning', w, st,
             '' if st == 'proved' else 'given %s, meant is %s' % (T.show(g)[:120] if g is not None else 'nothing', T.show(v)[:120]))


def same(a, b):
    if a is b:
        return True
    ps = [[p for p in (sysm.pieces(x) if isstr(x) else [x])] for x in (a, b)]
    return ps[0] == ps[1] or [strip(p) for p in ps[0]] == [strip(p) for p in ps[1]]


def strip(p):
    """inserted value without its conversion to text"""
    while isinstance(p, T.Term) and p.op == 'app' and p.args[0] in ('tostr', 'str', 'fmt') and len(p.args) == 2:
        p = p.args[1]
    return p


def distinct(c, oid, w, vals, what):
    vals = [v for v in vals if v is not None]
    dup = [v for i, v in enumerate(vals) if v in vals[:i]]
    c.require(oid, 'every result has its own file', w, not dup, '%s %s is used twice' % (what, T.show(dup[0])[:160]) if dup else '')


# ------------------------------------------------------------------ launching tools
def exports(c, cache):
    want = []
    for b in CONFIG['bags']:
        bag = b['bag_path'] + b['name']
        if b['tf_frames']:
            for s, t in zip(b['tf_frames']['source'], b['tf_frames']['target']):
                want.append(('tf_to_csv.py', {'bag': bag, 'tf_source_frame': s, 'tf_target_frame': t}))
        if b['cameras']:
            for t, i in zip(b['cameras']['cam_topics'], b['cameras']['cam_intrinsics']):
                want.append(('target_extractor_interface.py', {
                    'bag': bag, 'image_topic': t, 'calib_file_camera': b['intrinsics_path'] + i,
                    'calib_file_target': b['target_config_path'] + b['target']}))
    s = sysm.strsym
    ext = [('target_extractor', dict({
        'bag': s('bag'), 'topic': s('image_topic'), 'eval_camera_yaml': s('calib_file_camera'),
        'camera_pose_T_C_G_output_file_timestamped': s('output_file')},
        **{('april_tag_pixel_boarder' if 'pixel' in k else k): atom(T.sym(k)) for k in TARGET}))]
    for t, ws in zip(TOOLS, (want, ext)):
        r = t.run(c)
        w = c.where(t.mod, '__main__')
        l = launches(r)
        if r.raised or l is None:
            c.ob(t.name + ' starts', 'every configured export is started', w, 'violated' if r.raised else 'undecided',
                 r.raised or 'started processes are not determined')
            continue
        outs = []
        todo = list(ws)
        for i, a in enumerate(l):
            oid = '%s process %d' % (t.name, i + 1)
            x = accepts(c, oid, w, list(a.args), cache)
            if x is None:
                continue
            tool, o = x
            m = [y for y in todo if y[0] == tool]
            if not m:
                c.ob(oid, 'every configured export is started', w, 'violated', 'unexpected start of ' + tool)
                continue
            best = max(m, key=lambda y: sum(same(o[k], T.const(v) if isinstance(v, str) else v) for k, v in y[1].items() if k in o))
            todo.remove(best)
            compare(c, oid, w, o, best[1])
            if tool == 'target_extractor':
                heading(c, oid, w, o)
            outs += [o.get(k) for k in ('csv_output_file', 'output_file', 'camera_pose_T_C_G_output_file',
                                        'camera_pose_T_C_G_output_file_timestamped')]
        c.require(t.name + ' starts', 'every configured export is started', w, not todo,
                  'not started: %s' % [(y[0], {k: v for k, v in y[1].items() if isinstance(v, str)}) for y in todo] if todo else '')
        distinct(c, t.name + ' outputs', w, outs, 'output file')


def heading(c, oid, w, o):
    """the pose files are read as plain numbers"""
    on = [s['write_csv_header'] for s in cpp.switches(REPO).values() if 'write_csv_header' in s]
    if not on:
        return
    v = o.get('write_csv_header')
    t = 'true' if v is TRUE else 'false' if v is FALSE else str(on[0]).lower() if v is None else text(v)
    c.require(oid + ' heading', 'exported pose files have no heading line', w,
              t is not None and t.lower() in ('false', 'f', 'no', 'n', '0'), 'the pose file starts with a heading line',
              undecided=t is None)


def term(word):
    """a word of the script as a value"""
    def one(p):
        if isinstance(p, str):
            return T.const(p)
        if p[0] in ('arg', 'env'):
            return mk('app', 'strsym', '$%s' % p[1])
        return mk('app', p[0], tuple(one(x) for x in p[1]))
    return mkstr([one(p) for p in word]) if word else T.const('')


def plain(t, args):
    """the file a word names for these arguments of the script, None if it is not determined"""
    if t.op == 'const':
        return str(t.args[0])
    if t.op != 'app':
        return None
    if t.args[0] == 'strsym':
        return args.get(t.args[1])
    ps = [plain(x, args) for x in (t.args[1:] if t.args[0] == 'str' else t.args[1] if t.args[0] in ('basename', 'dirname') else ())]
    if not ps or None in ps:
        return None
    s = ''.join(ps)
    return os.path.basename(s) if t.args[0] == 'basename' else os.path.dirname(s) or '.' if t.args[0] == 'dirname' else s


def pipeline(c, name, w, ls, a, b, ab, cache):
    """two recordings a, b: align, calibrate, refine, each step with the files of the one before"""
    kinds = {}
    for i, words in enumerate(ls):
        oid = '%s step %d' % (name, i + 1)
        x = accepts(c, oid, w[i] if isinstance(w, list) else w, words, cache)
        if x is None:
            continue
        kinds.setdefault(x[0], []).append((i, x[1]))
    order = ['compute_aligned_poses.py', 'compute_hand_eye_calibration.py', 'batch_estimator']
    rule = 'steps use the files of the steps before'
    pos = [kinds[k][0][0] for k in order if k in kinds]
    ww = w[0] if isinstance(w, list) else w
    if any(len(kinds.get(k, ())) != 1 for k in order) or pos != sorted(pos):
        c.ob(name + ' steps', rule, ww, 'violated' if len(kinds) == len(ls) else 'undecided', 'steps are %s' % sorted(kinds))
        return
    al, he, be = [kinds[k][0][1] for k in order]
    compare(c, name + ' alignment', ww, al, {'poses_B_H_csv_file': a, 'poses_W_E_csv_file': b})
    for k in ('aligned_poses_B_H_csv_file', 'aligned_poses_W_E_csv_file'):
        compare(c, name + ' calibration', ww, he, {k: al.get(k, NONE)})
    compare(c, name + ' refinement', ww, be, {'pose1_csv': a, 'pose2_csv': b})
    if 'calibration_output_json_file' in he:
        compare(c, name + ' calibration', ww, he, {'time_offset_input_csv_file': al.get('time_offset_output_csv_file', NONE)})
        compare(c, name + ' refinement', ww, be, {'init_guess_file': he['calibration_output_json_file']})
    ab(al, he, be)
    fs = [al.get(k) for k in ('aligned_poses_B_H_csv_file', 'aligned_poses_W_E_csv_file', 'time_offset_output_csv_file')] + [
        he.get(k) for k in ('extrinsics_output_csv_file', 'calibration_output_json_file')] + [be.get('output_file')]
    fs += [a, b]
    distinct(c, name + ' outputs', ww, fs, 'file')
    for what, x, y in (('in one directory', 'd/a.csv', 'd/b.csv'), ('of the same name', 'd/a.csv', 'e/a.csv')):
        ps = [plain(f, {'$1': x, '$2': y}) if f is not None else None for f in fs]
        if any(p is not None and not p.startswith(('d/', 'e/')) for p in ps[-2:]) or None in ps[-2:]:
            continue
        ps = [p and T.const(os.path.normpath(p)) for p in ps]
        distinct(c, '%s outputs %s' % (name, what), ww, ps, 'for two recordings %s the file' % what)


def script(c, cache):
    p = os.path.join(REPO, SCRIPT)
    if not os.path.exists(p):
        raise AnchorError(SCRIPT + ' not found')
    sh = shell.parse(open(p).read())
    if sh is None:
        c.ob('script', 'steps use the files of the steps before', SCRIPT, 'undecided', 'uses more than plain commands')
        return
    cmds = sh.cmds
    if not cmds:
        raise AnchorError('no steps in ' + SCRIPT)
    pipeline(c, 'script', ['%s:%d' % (SCRIPT, x.line) for x in cmds], [[term(y) for y in x.words] for x in cmds],
             sysm.strsym('$1'), sysm.strsym('$2'), lambda *a: None, cache)


def circle(c, cache):
    try:
        w = c.where(CIRCLE, 'calibrateTwo')
    except AnchorError:
        return
    op = dict(dqprims())
    op['requiresUpdate'] = lambda it, st, args, kw: TRUE

    def read(it, st, args, kw):
        f = it.freeze(st, args[0])
        it.arrays.append(f)
        r = [atom(mk('app', 'cell', f, num(i))) for i in range(7)]
        return it.new_arr(st, (1, 7), r)

    def to_json(it, st, args, kw):
        s = st.heap[args[0].args[0]].data
        it.json[it.freeze(st, args[1])] = (it.freeze(st, s['time_offset']), it.freeze(st, s['pose_dq']), list(it.arrays))
        return NONE

    def from_json(it, st, args, kw):
        f = it.freeze(st, args[-1])
        it.reads.append(f)
        return c18.calibration(it, st, f)
    op.update({'readArrayFromCsv': read, 'ExtrinsicCalibration.writeJson': to_json, 'ExtrinsicCalibration.fromJson': from_json})

    def build(it, st):
        it.explicit_raises = True
        it.exits = lambda argv: T.ZERO
        it.arrays, it.json, it.reads = [], {}, []
        return [T.const('group')] + [sysm.strsym(x) for x in ('in_a', 'in_b')] + [T.const(x) for x in ('a', 'b')]
    ms = dict(c.system(), **{'os.path.exists': lambda it, st, args, kw, node: FALSE, 'os.mkdir': lambda it, st, args, kw, node: NONE})
    r = c.run(CIRCLE, 'calibrateTwo', build, opaque=op, models=ms)
    l = launches(r)
    if l is None or r.raised:
        c.ob('circle', 'steps use the files of the steps before', w, 'undecided', r.raised or 'not determined')
        return

    def rest(al, he, be):
        j = r.it.json.get(be.get('init_guess_file'))
        rule = 'steps use the files of the steps before'
        if j is None:
            c.ob('circle initial guess', rule, w, 'violated', 'the initial guess passed to the refinement is not written')
            return
        to, po = al.get('time_offset_output_csv_file'), he.get('extrinsics_output_csv_file')
        ok = j[0] is atom(mk('app', 'cell', to, num(0)))
        c.require('circle initial time offset', rule, w, ok, 'is ' + T.show(j[0])[:120] if not ok else '')
        ok = po in names_of(j[1]) and to not in names_of(j[1])
        c.require('circle initial pose', rule, w, ok, 'is not taken from the result of the calibration')
        c.require('circle result', rule, w, be.get('output_file') in r.it.reads, 'the result of the refinement is not read')
    pipeline(c, 'circle', w, [list(x.args) for x in l], sysm.strsym('in_a'), sysm.strsym('in_b'), rest, cache)


def names_of(t):
    acc, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, T.Term):
            if x.op == 'app' and x.args and x.args[0] == 'cell':
                acc.add(x.args[1])
            todo.extend(x.args)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(list(x) + list(x.values()))
    return acc


def experiments(c, cache):
    base = c.system()
    for mod, ref, files, its, absolute in ((c18.SET, 'r_set', 3, 1, [0, 1, 0]), (c18.SET, 'r_set', 2, 2, None),
                                           (c18.OPT, 'r_opt', 3, 1, [1, 0, 1])):
        name = '%s[%d files, %d iterations, absolute %s]' % (mod.split('/')[-1], files, its, absolute)
        c.main(mod)
        w = c.where(mod, '__main__')
        sc = c18.Scene('run', files, its)
        ms = dict(c18.models(sc, base))
        ms['scene.flag'] = lambda it, st, args, kw, node: TRUE if absolute and absolute[T.int_value(args[0])] else FALSE
        op = c18.opaques(sc)

        def to_json(it, st, args, kw):
            s = st.heap[args[0].args[0]].data
            f = it.freeze(st, args[1] if len(args) > 1 else kw['out_file'])
            it.json[f] = (it.freeze(st, s['time_offset']), it.freeze(st, it.getattr(st, s['pose_dq'], 'dq', None)))
            return NONE

        def from_json(it, st, args, kw, real=op['ExtrinsicCalibration.fromJson']):
            it.seen.append(('read', it.freeze(st, args[-1] if args else kw['in_file'])))
            return real(it, st, args, kw)
        op['ExtrinsicCalibration.writeJson'] = to_json
        op['ExtrinsicCalibration.fromJson'] = from_json

        def build(it, st):
            a = c18.build(sc)(it, st)
            it.json, it.seen = {}, []
            inner = it.exits

            def exits(argv):
                o = c18.options(it, st, argv)
                it.seen.append(('launch', argv, it.json.get(o.get('init_guess_file'))))
                return inner(argv)
            it.exits = exits
            if absolute:
                it.argvals['is_absolute_pose_sensor'] = lambda it, st: it.new_list(st, T.flist([num(x) for x in absolute]))
            return a
        got = c.run(mod, '__main__', build, opaque=op, models=ms)
        sc.ranges = max(1, got.it.spoilt // (its * files * (files - 1) // 2))
        want = c.run('spec_c17', ref, build, opaque=op, models=ms)
        if want.value.op != 'flist':
            raise AnchorError('reference of %s not determined: %s' % (name, T.show(want.value)[:300]))
        if got.raised or got.value.op == 'unk':
            c.ob(name, 'every refinement is started', w, 'undecided', got.raised or T.show(got.value)[:200])
            continue
        seen = got.it.seen
        ls = [i for i, e in enumerate(seen) if e[0] == 'launch']
        c.require(name + ' refinements', 'every refinement is started', w, len(ls) == len(want.value.args),
                  '%d refinements are started instead of %d' % (len(ls), len(want.value.args)))
        outs, inits = [], []
        for n, (i, ref_) in enumerate(zip(ls, want.value.args)):
            a, b, fa, fb, t, dq = ref_.args
            oid = '%s refinement %d' % (name, n + 1)
            if n >= 40:
                break
            x = accepts(c, oid, w, list(seen[i][1].args), cache)
            if x is None:
                continue
            o = x[1]
            flags = 'pose1/absoluteMeasurements=%s,pose2/absoluteMeasurements=%s' % tuple('true' if f is TRUE else 'false' for f in (fa, fb))
            compare(c, oid, w, o, {'pose1_csv': a, 'pose2_csv': b, 'model_config': flags})
            guess = seen[i][2]
            rule = 'the refinement starts from the guess of its pair'
            if guess is None:
                c.ob(oid + ' guess', rule, w, 'violated', 'the initial guess file is not written before')
            else:
                c.equal(oid + ' guess offset', rule, w, c18.copy_result(got, guess[0]), t, val=c18.VAL)
                c.equal(oid + ' guess calibration', rule, w, c18.copy_result(got, guess[1]), dq, val=c18.VAL)
            nxt = seen[i + 1] if i + 1 < len(seen) else ('none', None)
            c.require(oid + ' result', 'the result of the refinement is read back', w,
                      nxt[0] == 'read' and same(nxt[1], o.get('output_file', NONE)), 'next is %s %s' % (
                          nxt[0], T.show(nxt[1])[:160] if isinstance(nxt[1], T.Term) else ''))
            outs.append(o.get('output_file'))
            inits.append(o.get('init_guess_file'))
        distinct(c, name + ' outputs', w, outs + inits, 'file')


def names_in_config(c):
    """settings overridden by the experiments exist in the configuration of the refinement"""
    p = 'hand_eye_calibration_batch_estimation/conf/config.info'
    if not os.path.exists(os.path.join(REPO, p)):
        raise AnchorError(p + ' not found')
    keys, stack, last = set(), [], None
    for line in open(os.path.join(REPO, p)):
        for tok in shell_words(line.split(';')[0]):
            if tok == '{':
                stack.append(last)
            elif tok == '}':
                stack.pop()
            else:
                last = tok
                keys.add('/'.join(stack[1:] + [tok]))
    for k in ('pose1/absoluteMeasurements', 'pose2/absoluteMeasurements'):
        c.require('setting ' + k, 'settings of the refinement exist', p, k in keys, 'the configuration of the refinement has no ' + k)


def shell_words(line):
    """first word of an entry and braces of a configuration line"""
    out, first = [], True
    for t in line.replace('{', ' { ').replace('}', ' } ').split():
        if t in '{}':
            out.append(t)
            first = True
        elif first:
            out.append(t)
            first = False
    return out


def booleans(c):
    """options that are true or false understand their texts"""
    for p in sorted(glob.glob(os.path.join(REPO, '*', 'bin', '*.py')) + glob.glob(os.path.join(REPO, '*', 'scripts', '*.py'))):
        mod = os.path.relpath(p, REPO)[:-3]
        if mod.endswith('__init__') or mod not in c.repo.modules:
            continue
        if 'add_argument' not in c.repo.modules[mod].text:
            continue
        ps, r = parser_table(c, mod)
        if ps is None:
            c.ob(mod + ' options', 'boolean options understand their texts', mod, 'undecided', 'options are not determined')
            continue
        w = c.where(mod, '__main__')
        for o in ps:
            d, ty, act = o['kw'].get('default'), o['kw'].get('type'), o['kw'].get('action')
            if d not in (TRUE, FALSE) and ty is not mk('bi', 'bool'):
                continue
            oid = '%s --%s' % (mod.split('/')[-1], o['dest'])
            if act is not None:
                c.ob(oid, 'boolean options understand their texts', w, 'proved' if act.op == 'const' else 'undecided', '')
                continue
            bad, unknown = [], ty is None
            for s, v in TRUTH.items() if ty is not None else ():
                if ty is mk('bi', 'bool'):
                    g = TRUE
                else:
                    x = c.run('spec_c17', 'd_convert', lambda it, st: [ty, T.const(s)], models=c.system())
                    g = x.value if not x.raised else None
                if g is not None and g not in (TRUE, FALSE):
                    unknown = True
                elif g is None and s not in ('True', 'true', 'False', 'false', '1', '0'):
                    pass
                elif g is not (TRUE if v else FALSE):
                    bad.append('%r is taken as %s' % (s, 'an error' if g is None else g is TRUE))
            if ty is None:
                bad, unknown = ["every text counts as true, 'False' too"], False
            c.ob(oid, 'boolean options understand their texts', w, 'violated' if bad else 'undecided' if unknown else 'proved',
                 '; '.join(bad[:3]))


def run(c):
    c.add_spec('spec_c18', c18.SPEC)
    c.add_spec('spec_c17', SPEC)
    cache = {}
    booleans(c)
    exports(c, cache)
    names_in_config(c)
    script(c, cache)
    circle(c, cache)
    experiments(c, cache)
    return c.finish('other', 'options of every process started by the tools in configured scenes, against the option tables of the '
                    'started tools and the meaning of the options', minimum=30)
