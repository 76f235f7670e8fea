"""C18: result tables keep values under their own column headings"""
import random
from vfa import core
from vfa.core import *
from vfa import npmodel as npm, sysmodel as sysm
from vfa.terms import mk
from vfa.npmodel import isstr, mkstr
from vfa.interp import Raises

XP = 'hand_eye_calibration_experiments.'
RMOD = XP + 'experiment_results'
SET = 'hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations'
OPT = 'hand_eye_calibration_experiments/bin/optimization_experiments'
FILES = ['fa', 'fb', 'fc', 'fd']

SPEC = '''
import itertools
import numpy as np
from scene import scene_files, scene_iterations, scene_ranges, now, launches, refined
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
    compute_hand_eye_calibration_RANSAC, compute_hand_eye_calibration_BASELINE, align_paths_at_index)
from hand_eye_calibration.csv_io import read_time_stamped_poses_from_csv_file
from hand_eye_calibration.time_alignment import calculate_time_offset, compute_aligned_poses
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
from hand_eye_calibration.calibration_verification import evaluate_calibration, compute_loop_error
from hand_eye_calibration.bash_utils import run
from hand_eye_calibration_experiments.all_algorithm_configs import (
    get_all_configs, get_optimization_with_spoiled_initial_calibration_config)
from hand_eye_calibration_experiments.experiment_results import ResultEntry

def spoil_initial_guess(time_offset, calibration, angles, translations, times):
  return None

def d_header():
  return ResultEntry().get_header()

def text(v):
  return "{}".format(v)

def vector(v, missing):
  return missing if v is None else text(np.array_str(v, max_line_width=1000000))

def row(name, pair, iteration, filtered, files, found, rmse, inliers, poses, kept, seconds, loop, values, bad, refine,
        refined, refine_seconds, angle, translation, time):
  return {
      'algorithmname': text(name), 'numposepairs': text(pair), 'iterationnum': text(iteration),
      'prefiltering': text(filtered), 'posesBHcsvfile': text(files[0]), 'posesWEcsvfile': text(files[1]),
      'success': text(found), 'positionrmse': text(rmse[0]), 'orientationrmse': text(rmse[1]),
      'numinliers': text(inliers), 'numinputposes': text(poses), 'numposesafterfiltering': text(kept),
      'runtimes': text(seconds), 'looperrorpositionm': text(loop[0]), 'looperrororientationdeg': text(loop[1]),
      'singularvalues': vector(values, ""), 'badsingularvalues': text(bad), 'optimizationenabled': text(refine),
      'optimizationsuccess': text(refined), 'optimizationruntimes': text(refine_seconds),
      'spoiledinitialguessangleoffset': text(angle),
      'spoiledinitialguesstranslationoffset': vector(translation, text(None)),
      'spoiledinitialguesstimeoffset': text(time)}

def search(a, b, filtering, config):
  pa, ta, qa = read_time_stamped_poses_from_csv_file(a)
  pb, tb, qb = read_time_stamped_poses_from_csv_file(b)
  t = calculate_time_offset(ta, qa, tb, qb, filtering, False)
  ea, eb = compute_aligned_poses(pa, pb, t, False)
  da = align_paths_at_index([DualQuaternion.from_pose_vector(p) for p in ea[:, 1:]])
  db = align_paths_at_index([DualQuaternion.from_pose_vector(p) for p in eb[:, 1:]])
  f = compute_hand_eye_calibration_BASELINE if config.use_baseline_approach else compute_hand_eye_calibration_RANSAC
  return (pa, pb, t, len(da), f(da, db, config))

def refine(config, pa, pb, a, b):
  start = now()
  if not launches(a, b):
    return (False, None, (-1, -1), 0, 0.)
  r = refined()
  e, n = evaluate_calibration(pa, pb, r.pose_dq, r.time_offset, config)
  return (n != 0, r.pose_dq, e, n, now() - start)

def r_set():
  files = scene_files()
  rows = []
  for (name, filtering, config, refinement) in get_all_configs():
    once = config.enable_exhaustive_search or config.use_baseline_approach
    for k in range(1 if once else scene_iterations()):
      done = []
      for (a, b) in itertools.combinations(files, 2):
        (pa, pb, t, n, (found, dq, rmse, inliers, kept, seconds, values, bad)) = search(a, b, filtering, config)
        refined = True
        duration = 0.
        if refinement.enable_optimization:
          if found:
            (refined, dq, rmse, inliers, duration) = refine(config, pa, pb, a, b)
          else:
            (refined, dq, rmse, inliers, duration) = (False, None, (-1, -1), 0, 0.)
        done.append((a, b, found, rmse, inliers, n, kept, seconds, values, bad, refined, duration, dq))
      loop = (-1, -1)
      if all([d[2] and d[10] for d in done]):
        loop = compute_loop_error([d[12] for d in done], len(files), False)
      i = 0
      for (a, b, found, rmse, inliers, n, kept, seconds, values, bad, refined, duration, dq) in done:
        rows.append(row(name, i, k, config.prefilter_poses_enabled, (a, b), found, rmse, inliers, n, kept, seconds, loop,
                        values, bad, refinement.enable_optimization, refined, duration, None, None, None))
        i += 1
  return rows

def r_opt():
  files = scene_files()
  rows = []
  (name, filtering, config, refinement) = get_optimization_with_spoiled_initial_calibration_config()
  guesses = [search(a, b, filtering, config) for (a, b) in itertools.combinations(files, 2)]
  for r in range(scene_ranges()):
    for k in range(scene_iterations()):
      done = []
      j = 0
      for (a, b) in itertools.combinations(files, 2):
        (pa, pb, t, n, (found, dq, rmse, inliers, kept, seconds, values, bad)) = guesses[j]
        (ts, dqs, (dt, da, do)) = spoil_initial_guess(t, dq, None, None, None)
        done.append(((a, b), found, n, kept, seconds, values, bad, dt, da, do, refine(config, pa, pb, a, b)))
        j += 1
      loop = (-1, -1)
      if all([d[10][0] for d in done]):
        loop = compute_loop_error([d[10][1] for d in done], len(files), False)
      i = 0
      for (f, found, n, kept, seconds, values, bad, dt, da, do, (refined, dq, rmse, inliers, duration)) in done:
        rows.append(row(name, i, k, config.prefilter_poses_enabled, f, found, rmse, inliers, n, kept, seconds, loop,
                        values, bad, refinement.enable_optimization, refined, duration, da, dt, do))
        i += 1
  return rows
'''
READ = '''
import numpy as np
from scene import entry, norm_of
from hand_eye_calibration_experiments.experiment_plotting_tools import collect_data_from_csv

class Record(object):
  def __init__(self, names, values):
    self.names = names
    self.values = values
  def __getitem__(self, k):
    if isinstance(k, str):
      return self.values[self.names.index(k)]
    return self.values[k]
  def __len__(self):
    return len(self.values)
  def __iter__(self):
    return iter(self.values)

def d_collect(files):
  return collect_data_from_csv(files)

LABEL = {%(labels)s}

def r_collect(rows):
  methods = []
  datasets = []
  tables = [{}, {}, {}]
  lists = [[], [], []]
  extra = [[], [], [], [], []]
  for k in rows:
    if not entry(k, 'success') or entry(k, 'badsingularvalues'):
      continue
    m = LABEL[entry(k, 'algorithmname')]
    d = entry(k, 'dataset')
    if d not in datasets:
      datasets.append(d)
    if m not in methods:
      methods.append(m)
      for l in lists:
        l.append([])
    v = [entry(k, 'positionrmse'), entry(k, 'orientationrmse'), entry(k, 'runtimes') + entry(k, 'optimizationruntimes')]
    for i in range(3):
      if d not in tables[i]:
        tables[i][d] = {}
      if m not in tables[i][d]:
        tables[i][d][m] = []
      tables[i][d][m].append(v[i])
      lists[i][methods.index(m)].append(v[i])
    extra[0].append(entry(k, 'looperrorpositionm'))
    extra[1].append(entry(k, 'looperrororientationdeg'))
    extra[2].append(entry(k, 'spoiledinitialguessangleoffset'))
    extra[3].append(norm_of(k))
    extra[4].append(entry(k, 'spoiledinitialguesstimeoffset'))
  return [methods, datasets, tables[0], tables[1], lists[0], lists[1], lists[2], tables[2], extra]
'''
HEAD = ['algorithmname', 'numposepairs', 'iterationnum', 'prefiltering', 'posesBHcsvfile', 'posesWEcsvfile', 'success',
        'positionrmse', 'orientationrmse', 'numinliers', 'numinputposes', 'numposesafterfiltering', 'runtimes',
        'looperrorpositionm', 'looperrororientationdeg', 'singularvalues', 'badsingularvalues', 'optimizationenabled',
        'optimizationsuccess', 'optimizationruntimes', 'spoiledinitialguessangleoffset',
        'spoiledinitialguesstranslationoffset', 'spoiledinitialguesstimeoffset']



class Scene:
    """what happens outside the code of the experiment"""
    def __init__(self, name, files, iterations, fails=(), exit=(), zero=(), exists=False):
        self.name, self.files, self.iterations = name, FILES[:files], iterations
        self.fails, self.exit, self.zero, self.exists = set(fails), set(exit), set(zero), exists


# building blocks standing for one call on given recordings
OWN = set('badsv calib common dangle dtime dtrans einliers ermse evaluation inliers kept loop ncommon now nposes offset '
          'paths poses quats refined result rmse roffset seconds settings spoilt stale started stime strsym sv times'.split())

SCENES = [
    Scene('all succeed', 3, 2),
    Scene('one calibration fails', 3, 1, fails=[('fa', 'fc')], exists=True),
    Scene('refinement fails', 3, 1, exit=[('fb', 'fc')], zero=[('fa', 'fb')]),
    Scene('no calibration succeeds', 2, 2, fails=[('fa', 'fb')]),
    Scene('four sensors', 4, 1, exists=True),
]
OPTSCENES = [
    Scene('all succeed', 2, 2),
    Scene('refinement fails', 3, 1, exit=[('fa', 'fb')], zero=[('fb', 'fc')], exists=True),
]


def names(t):
    """recordings a value depends on"""
    acc = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, T.Term):
            if x.op == 'app' and x.args and x.args[0] == 'strsym':
                acc.add(x.args[1])
            todo.extend(x.args)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x)
            todo.extend(x.values())
    return tuple(sorted(n for n in acc if n in FILES))


def settings(it, st, v):
    """a configuration without what only concerns plots"""
    if v.op != 'ref' or st.heap[v.args[0]].kind != 'inst':
        return it.freeze(st, v)
    d = st.heap[v.args[0]].data
    return mk('app', 'settings', tuple((k, it.freeze(st, d[k])) for k in sorted(d) if 'visualize' not in k and 'plot' not in k))


def params(*ps):
    """positional view of a call"""
    return lambda args, kw: [args[i] if i < len(args) else kw.get(p, NONE) for i, p in enumerate(ps)]


def options(it, st, argv):
    """--name=value or --name value words of a command"""
    r = {}
    last = None
    for w in argv.args if argv.op == 'flist' else ():
        ps = sysm.pieces(w) if isstr(w) else [w]
        h = ps[0] if isinstance(ps[0], str) else ''
        if h.startswith('-'):
            k, eq, rest = h.lstrip('-').partition('=')
            v = ([T.const(rest)] if rest else []) + [T.const(p) if isinstance(p, str) else p for p in ps[1:]]
            r[k] = mkstr(v) if eq else None
            last = None if eq else k
        elif last:
            r[last] = w
            last = None
    return r


def opaques(sc):
    def frz(it, st, args):
        return [it.freeze(st, a) for a in args]

    def read(it, st, args, kw):
        p, jpl = params('csv_file', 'JPL_quaternion_format')(args, kw)
        key = [it.freeze(st, p)] + [it.freeze(st, a) for a in (jpl,) if a is not FALSE and a is not NONE]
        n = atom(mk('app', 'nposes', *key))
        return T.tup([it.new_sarr(st, mk('symseq', mk('app', 'poses', *key), n, ('arr', (8,))), (8,)),
                      it.new_sarr(st, mk('symseq', mk('app', 'times', *key), n, 'num'), ()),
                      it.new_list(st, mk('symseq', mk('app', 'quats', *key), n, QKIND))])

    def offset(it, st, args, kw):
        a = params('times_A', 'quaternions_A', 'times_B', 'quaternions_B', 'filtering_config')(args, kw)
        return T.napp('offset', settings(it, st, a[4]), *frz(it, st, a[:4]))

    def aligned(it, st, args, kw):
        a = frz(it, st, params('time_stamped_poses_A', 'time_stamped_poses_B', 'time_offset')(args, kw))
        n = atom(mk('app', 'ncommon', *a))
        return T.tup([it.new_sarr(st, mk('symseq', mk('app', 'common', num(i), *a), n, ('arr', (8,))), (8,)) for i in range(2)])

    def start(it, st, args, kw):
        l = it.freeze(st, args[0] if args else kw['paths_I_K'])
        return it.new_list(st, mk('symseq', mk('app', 'started', l), T.seq_len(l), DKIND))

    def search(name):
        def g(it, st, args, kw):
            args = params('dq_B_H_vec', 'dq_W_E_vec', 'config')(args, kw)
            a = [mk('app', 'paths', name, settings(it, st, args[2]), *frz(it, st, args[:2]))]
            if names(a[0]) in sc.fails:
                return T.tup([FALSE, NONE, T.tup([NONE, NONE]), NONE, T.napp('kept', *a), T.napp('seconds', *a), NONE, NONE])
            return T.tup([TRUE, newdq(it, st, comps('calib', 8, *a)), T.tup([T.napp('rmse', num(i), *a) for i in range(2)]),
                          T.napp('inliers', *a), T.napp('kept', *a), T.napp('seconds', *a),
                          it.new_arr(st, (8,), comps('sv', 8, *a)), T.bool_atom(mk('app', 'badsv', *a))])
        return g

    def from_json(it, st, args, kw):
        f = it.freeze(st, args[-1] if args else kw['in_file'])
        return calibration(it, st, it.done.get(f, mk('app', 'stale', f)))

    def evaluate(it, st, args, kw):
        args = params('time_stamped_poses_B_H', 'time_stamped_poses_W_E', 'dq_H_E', 'time_offset', 'config')(args, kw)
        a = [mk('app', 'evaluation', settings(it, st, args[4]), *frz(it, st, args[:4]))]
        n = T.ZERO if names(a[0]) in sc.zero else T.radd(T.napp('einliers', *a), num(1))
        return T.tup([T.tup([T.napp('ermse', num(i), *a) for i in range(2)]), n])

    def loop(it, st, args, kw):
        a = frz(it, st, params('calibrations', 'num_poses_sets')(args, kw))
        return T.tup([T.napp('loop', num(i), *a) for i in range(2)])

    def spoil(it, st, args, kw):
        it.spoilt += 1
        a = [mk('app', 'spoilt', it.spoilt, *frz(it, st, params('time_offset_initial_guess', 'dq_H_E_initial_guess')(args, kw)))]
        return T.tup([T.napp('stime', *a), newdq(it, st, comps('spoilt', 8, *a)),
                      T.tup([it.new_arr(st, (3,), comps('dtrans', 3, *a)), T.napp('dangle', *a), T.napp('dtime', *a)])])

    nothing = lambda it, st, args, kw: NONE
    return dict(dqprims(), **{
        'read_time_stamped_poses_from_csv_file': read, 'calculate_time_offset': offset, 'compute_aligned_poses': aligned,
        'align_paths_at_index': start, 'compute_hand_eye_calibration_RANSAC': search('ransac'),
        'compute_hand_eye_calibration_BASELINE': search('baseline'), 'ExtrinsicCalibration.fromJson': from_json,
        'ExtrinsicCalibration.writeJson': nothing, 'evaluate_calibration': evaluate, 'compute_loop_error': loop,
        'create_path': nothing, 'spoil_initial_guess': spoil})


def functions(rng, ctx):
    """random interpretation of the building blocks"""
    def count(v, args):
        return random.Random(repr((v.seed, v.rnd(args)))).choice([1, 2, 3])

    def rows(v, args):
        r = random.Random(repr((v.seed, 'rows', v.rnd(args))))
        t = r.choice([0.0, 50.0, -3.0]) + r.random()
        return [('farr', (8,), [t + 0.5 * k] + [r.uniform(-1, 1) for _ in range(3)] + core.rndquat(r)) for k in range(3)]
    return {
        'nposes': count, 'poses': lambda v, a: rows(v, a)[:count(v, a)],
        'times': lambda v, a: [x[2][0] for x in rows(v, a)[:count(v, a)]],
        'quats': lambda v, a: [('fobj', QCLS, {'q': ('farr', (4,), x[2][4:])}) for x in rows(v, a)[:count(v, a)]],
        'ncommon': count, 'common': lambda v, a: rows(v, a)[:count(v, a[1:])], 'started': lambda v, a: a[0]}


VAL = seqval({}, {}, functions)


def calibration(it, st, key):
    return it.construct(st, mk('cls', PKG + '.extrinsic_calibration', 'ExtrinsicCalibration'),
                        [T.napp('roffset', key), newdq(it, st, comps('refined', 8, key))], {}, None)


def started(it, sc, a, b, out=None):
    """exit code of the refinement of the recordings a and b"""
    it.ran += 1
    if names((a, b)) in sc.exit:
        return T.ONE
    it.last = mk('app', 'result', it.ran, a, b)
    if out is not None:
        it.done[out] = it.last
    return T.ZERO


def models(sc, base):
    ms = dict(base)
    now = lambda it, st, args, kw, node: T.napp('now', num(it.ran))
    for n in ('timeit.default_timer', 'time.time', 'time.perf_counter', 'time.monotonic', 'scene.now'):
        ms[n] = now
    ms['scene.scene_files'] = lambda it, st, args, kw, node: it.new_list(st, T.flist([sysm.strsym(f) for f in sc.files]))
    ms['scene.scene_iterations'] = lambda it, st, args, kw, node: num(sc.iterations)
    ms['scene.scene_ranges'] = lambda it, st, args, kw, node: num(sc.ranges)
    ms['scene.launches'] = lambda it, st, args, kw, node: T.eq(started(it, sc, *args), T.ZERO)
    ms['scene.refined'] = lambda it, st, args, kw, node: calibration(it, st, it.last)
    e = TRUE if sc.exists else FALSE
    for n in ('os.path.exists', 'os.path.isfile', 'os.path.isdir'):
        ms[n] = lambda it, st, args, kw, node: e
    return ms


def build(sc):
    def b(it, st):
        def exits(argv):
            o = options(it, st, argv)
            if not o.get('pose1_csv') or not o.get('pose2_csv'):
                return T.napp('exit', argv)
            return started(it, sc, o['pose1_csv'], o['pose2_csv'], o.get('output_file'))
        it.explicit_raises = True
        it.ran = it.spoilt = 0
        it.unroll = 1000
        it.done = {}
        it.exits = exits
        it.argvals = {
            'aligned_poses_B_H_csv_files': lambda it, st: it.new_list(st, T.flist([sysm.strsym(f) for f in sc.files])),
            'is_absolute_pose_sensor': lambda it, st: NONE,
            'result_directory': lambda it, st: sysm.strsym('results'),
            'visualize': lambda it, st: FALSE,
            'plot_every_nth_pose': lambda it, st: num(10),
            'num_iterations': lambda it, st: num(sc.iterations)}
        return []
    return b


def heading(s):
    return s.replace('_', '').strip()


def written(log, exists):
    """final text of every file as a list of pieces; None if the events are not all known"""
    if log.op != 'flist':
        return None
    r = {}
    for e in log.args:
        if e.op != 'tup' or e.args[0].op != 'const':
            return None
        k = e.args[0].args[0]
        if k == 'open':
            m = e.args[2]
            if m.op != 'const':
                return None
            if 'w' in m.args[0]:
                r[e.args[1]] = []
            elif 'a' in m.args[0] and e.args[1] not in r:
                r[e.args[1]] = [OLD] if exists else []
        elif k == 'write':
            if not isstr(e.args[2]):
                return None
            r.setdefault(e.args[1], []).extend(sysm.pieces(e.args[2]))
    return r


OLD = T.sym('previous content')


def table(ps):
    """rows of fields, each a list of pieces"""
    rows = [[[]]]
    for p in ps:
        if not isinstance(p, str):
            rows[-1][-1].append(p)
            continue
        for i, line in enumerate(p.split('\n')):
            if i:
                rows.append([[]])
            for j, f in enumerate(line.split(',')):
                if j:
                    rows[-1].append([])
                if f:
                    rows[-1][-1].append(T.const(f))
    return rows


def plain(row):
    return [f[0].args[0] if len(f) == 1 and f[0].op == 'const' and isinstance(f[0].args[0], str) else '' for f in row]


def value(f):
    return mkstr(f)


def experiment(c, mod, ref, scenes, base, head):
    name = mod.split('/')[-1]
    c.main(mod)
    w = c.where(mod, '__main__')
    for sc in scenes:
        kw = dict(opaque=opaques(sc), models=models(sc, base))
        got = c.run(mod, '__main__', build(sc), **kw)
        sc.ranges = max(1, got.it.spoilt // (sc.iterations * len(sc.files) * (len(sc.files) - 1) // 2))
        want = c.run('spec_c18', ref, build(sc), **kw)
        oid = lambda x: '%s[%s] %s' % (name, sc.name, x)
        if want.value.op != 'flist':
            raise AnchorError('reference of %s not determined: %s' % (name, T.show(want.value)[:300]))
        if got.raised:
            c.ob(oid('finishes'), 'experiment writes its results', w, 'violated', 'stops: ' + got.raised)
            continue
        files = written(sysm.log(got.it, got.st), sc.exists) if got.value.op != 'unk' else None
        ts = {p: table(x) for p, x in (files or {}).items()}
        full = {p: t for p, t in ts.items() if any(len(r) > 10 for r in t)}
        if len(full) != 1:
            c.ob(oid('table'), 'experiment writes its results', w, 'undecided', 'files written are not determined')
            continue
        (path, t), = full.items()
        if sc.exists:
            ok = t[0] and t[0][0][:1] == [OLD]
            t[0][0] = t[0][0][1:]
            ok = ok and not any([heading(x) for x in plain(r)] == head for r in t)
            c.require(oid('headings'), 'headings once at the start of the file', w, ok,
                      'an existing file is not continued' if not ok else '')
        else:
            ok = [heading(x) for x in plain(t[0])] == head
            c.require(oid('headings'), 'headings once at the start of the file', w, ok, 'first line is not the headings')
            t = t[1:] if ok else t
        ok = t and t[-1] == [[]]
        c.require(oid('lines'), 'every row ends its line', w, ok, 'last line is not terminated')
        t = t[:-1] if ok else t
        c.require(oid('rows'), 'one row per algorithm, iteration and pair', w, len(t) == len(want.value.args),
                  '%d rows instead of %d' % (len(t), len(want.value.args)))
        bad = [i for i, r in enumerate(t) if len(r) != len(head)]
        c.require(oid('fields'), 'one value per heading', w, not bad,
                  'row %s has %d values for %d headings' % (bad and bad[0], len(t[bad[0]]) if bad else 0, len(head)))
        if bad or len(t) != len(want.value.args):
            continue
        rows = [dict((k.args[0] if isinstance(k, T.Term) else k, v) for k, v in r.args[0]) for r in want.value.args]
        for j, h in enumerate(head):
            if h not in rows[0]:
                c.ob(oid(h), 'value under its heading', w, 'undecided', 'unknown heading')
                continue
            r = copy_result(got, T.tup([value(x[j]) for x in t]))
            c.equal(oid(h), 'value under its heading', w, r, T.tup([x[h] for x in rows]), val=VAL)


def copy_result(r, v):
    import copy
    q = copy.copy(r)
    q.value = v
    q.abort = FALSE
    q.aborts = []
    return q


# rows of two result files: algorithm, data set, success, bad singular values, spoiled translation
ROWS = [
    [('RC_filter_opt', 'd0', True, False, 'None'), ('ES_opt', 'd0', True, False, 'None'), ('RC_filter_opt', 'd1', False, False, 'None'),
     ('ES_opt', 'd2', True, True, 'None')],
    [('ES_opt', 'd1', True, False, '[ 3.0   4.0 12.0]'), ('RC_filter_opt', 'd0', True, False, '[0.0 -4.0  -3.0]'),
     ('EC_no_opt', 'd1', True, False, '[ 8. 0.  6. ]')],
]
KIND = dict([(h, 'text') for h in ('algorithmname', 'posesBHcsvfile', 'posesWEcsvfile', 'singularvalues',
                                   'spoiledinitialguesstranslationoffset', 'dataset')] +
            [(h, 'bool') for h in ('prefiltering', 'success', 'badsingularvalues', 'optimizationenabled', 'optimizationsuccess')] +
            [(h, 'integer') for h in ('numposepairs', 'iterationnum', 'numinliers', 'numinputposes', 'numposesafterfiltering')])
TYPES = {'str': 'text', 'str_': 'text', 'unicode_': 'text', 'bool': 'bool', 'bool_': 'bool', 'float': 'float', 'float64': 'float',
         'double': 'float', 'uint': 'integer', 'int': 'integer', 'int_': 'integer', 'int64': 'integer', 'uint64': 'integer',
         'int32': 'integer', 'uint32': 'integer', 'intp': 'integer'}
FITS = {'text': ('text',), 'bool': ('bool',), 'integer': ('integer', 'float'), 'float': ('float',)}


def entry(k, h):
    f, i = divmod(k, 10)
    r = ROWS[f][i]
    if h == 'algorithmname':
        return T.const(r[0])
    if h == 'dataset':
        return T.const(r[1])
    if h in ('success', 'badsingularvalues'):
        return TRUE if r[2 if h == 'success' else 3] else FALSE
    if h == 'spoiledinitialguesstranslationoffset':
        return T.const(r[4])
    kind = KIND.get(h, 'float')
    if kind == 'text':
        return T.const('%s_%d' % (h, k))
    if kind == 'bool':
        return TRUE if (k + len(h)) % 2 else FALSE
    if kind == 'integer':
        return num(k + len(h))
    return S('%s_%d' % (h, k))


def reader(c, base, head):
    """the reading side: columns are assigned to the record fields by position"""
    c.add_spec('spec_c18r', READ.replace('%(labels)s', "'RC_filter_opt': 'm0', 'ES_opt': 'm1', 'EC_no_opt': 'm2'"))
    w = c.where(XP + 'experiment_plotting_tools', 'collect_data_from_csv')
    cols = head + ['dataset']
    tables = []

    def dtype(it, st, args, kw, node):
        l = it.freeze(st, args[0])
        if l.op != 'flist' or not all(x.op == 'tup' and len(x.args) >= 2 and x.args[0].op == 'const' for x in l.args):
            return NotImplemented
        tables.append([(x.args[0].args[0], T.show(x.args[1])) for x in l.args])
        return mk('app', 'dtype', len(tables) - 1)

    def isdt(d):
        return d is not None and d.op == 'app' and d.args[0] == 'dtype'

    def genfromtxt(it, st, args, kw, node):
        d = kw.get('dtype')
        f = it.freeze(st, args[0])
        fs = [sysm.strsym('file0'), sysm.strsym('file1')]
        if not isdt(d):
            return mk('app', 'header', f)
        skip = kw.get('skip_header', kw.get('skip_rows', T.ZERO))
        if f not in fs or kw.get('delimiter') is not T.const(','):
            raise Raises('not the columns of the file')
        i = fs.index(f)
        ns = [n for n, _ in tables[d.args[1]]]
        if len(ns) not in (len(cols), len(cols) - 1):
            raise Raises('%d columns read from a table of %d' % (len(ns), len(cols)))
        if skip is not T.ONE:
            raise Raises('heading read as a row' if skip is T.ZERO else 'rows skipped')
        out = []
        for k in range(len(ROWS[i])):
            v = it.new_list(st, T.flist([entry(10 * i + k, h) for h in cols[:len(ns)]]))
            out.append(it.construct(st, mk('cls', 'spec_c18r', 'Record'),
                                    [it.new_list(st, T.flist([T.const(n) for n in ns])), v], {}, None))
        return it.new_list(st, T.flist(out))

    def append(it, st, args, kw, node):
        ls = [it.freeze(st, a) for a in args[:2]]
        if any(l.op != 'flist' for l in ls):
            return NotImplemented
        return it.new_list(st, T.flist([it.thaw(st, x) for l in ls for x in l.args]))

    def concatenate(it, st, args, kw, node):
        l = it.freeze(st, args[0])
        if l.op not in ('flist', 'tup') or any(x.op != 'flist' for x in l.args):
            return NotImplemented
        return it.new_list(st, T.flist([it.thaw(st, y) for x in l.args for y in x.args]))

    def empty(it, st, args, kw, node):
        if isdt(kw.get('dtype', args[1] if len(args) > 1 else None)):
            return it.new_list(st, T.flist([]))
        return npm.MODELS['np.empty'](it, st, args, kw, node)

    def literal(it, st, args, kw, node):
        import ast
        if args[0].op != 'const':
            return NotImplemented
        try:
            v = ast.literal_eval(args[0].args[0])
        except (SyntaxError, ValueError):
            raise Raises('text of a vector not understood')
        if v is None:
            return NONE
        return it.new_list(st, T.flist([T.const(x) if not isinstance(x, (int, float)) else num(x) for x in v]))

    def array(it, st, args, kw, node):
        return NONE if args and args[0] is NONE else npm.MODELS['np.array'](it, st, args, kw, node)

    def norm(it, st, args, kw, node):
        if args and args[0] is NONE:
            raise Raises('length of a vector that is not given')
        return npm.MODELS['np.linalg.norm'](it, st, args, kw, node)

    def p_entry(it, st, args, kw, node):
        return entry(T.int_value(args[0]), args[1].args[0])

    def p_norm(it, st, args, kw, node):
        s = entry(T.int_value(args[0]), 'spoiledinitialguesstranslationoffset').args[0]
        if s == 'None':
            return T.ZERO
        return num(sum(float(x) ** 2 for x in s.strip('[] ').split()) ** 0.5)
    ms = dict(base, **{'np.dtype': dtype, 'np.genfromtxt': genfromtxt, 'np.append': append, 'np.empty': empty,
                       'np.concatenate': concatenate, 'np.hstack': concatenate, 'ast.literal_eval': literal, 'np.array': array, 'np.linalg.norm': norm,
                       'scene.entry': p_entry, 'scene.norm_of': p_norm})
    files = lambda it, st: [it.new_list(st, T.flist([sysm.strsym('file%d' % i) for i in range(2)]))]
    got = c.run('spec_c18r', 'd_collect', files, models=ms)
    want = c.run('spec_c18r', 'r_collect', lambda it, st: [it.new_list(st, T.flist(
        [num(10 * f + i) for f, r in enumerate(ROWS) for i in range(len(r))]))], models=ms)
    parts = ['methods', 'data sets', 'position errors per data set', 'orientation errors per data set', 'position errors',
             'orientation errors', 'durations', 'durations per data set', 'loop and initial errors']
    for t in tables[:1]:
        for (n, ty), h in zip(t, cols):
            k = TYPES.get(ty.replace("'", '').split('.')[-1].rstrip(')'))
            c.ob('column ' + h, 'column type holds its values', w, 'undecided' if k is None else
                 'proved' if k in FITS[KIND.get(h, 'float')] else 'violated', '%s read as %s' % (h, ty))
    if got.raised:
        c.ob('read', 'columns are read', w, 'violated', got.raised)
        return
    v = got.value
    if v.op not in ('flist', 'tup') or len(v.args) != len(parts) or v.args[0].op != 'flist':
        c.ob('read', 'columns are read', w, 'undecided', 'result is not determined')
        return
    # labels are named by the algorithm they stand for
    ren = {l: T.const('m%d' % i) for i, l in enumerate(v.args[0].args)}
    for i, p in enumerate(parts):
        c.equal('collected ' + p, 'quantity read from its column', w, copy_result(got, rename(v.args[i], ren)),
                want.value.args[i])


def rename(t, m):
    if t in m:
        return m[t]
    if t.op in ('flist', 'tup'):
        return mk(t.op, *[rename(x, m) for x in t.args])
    if t.op == 'fdict':
        return mk('fdict', tuple((rename(k, m), rename(v, m)) for k, v in t.args[0]))
    return t


SPOIL = '''
from optexp import spoil_initial_guess

def d_spoil(t, dq, angles, translations, times):
  ts, dqs, (dt, da, do) = spoil_initial_guess(t, dq, angles, translations, times)
  p = dqs.to_pose()
  q = dq.to_pose()
  return (ts - t, p[0] - q[0], p[1] - q[1], p[2] - q[2])

def r_spoil(t, dq, angles, translations, times):
  ts, dqs, (dt, da, do) = spoil_initial_guess(t, dq, angles, translations, times)
  return (do, dt[0], dt[1], dt[2])

def d_spoil_angle(t, dq, angles, translations, times):
  ts, dqs, (dt, da, do) = spoil_initial_guess(t, dq, angles, translations, times)
  return da

def r_spoil_angle(t, dq, angles, translations, times):
  ts, dqs, (dt, da, do) = spoil_initial_guess(t, dq, angles, translations, times)
  from hand_eye_calibration.quaternion import angle_between_quaternions
  return angle_between_quaternions(dq.q_rot, dqs.q_rot)
'''


def spoiling(c, base):
    m = c.repo.module(OPT)
    if 'spoil_initial_guess' not in m.defs:
        return
    c.repo.modules['optexp'] = m
    c.add_spec('spec_c18s', SPOIL)
    w = c.where(OPT, 'spoil_initial_guess')
    pair = lambda it, st, n: it.new_list(st, T.flist([S(n + '0'), S(n + '1')]))

    def args(it, st):
        it.draws = 0
        return [S('t'), dquat(it, st, 'x'), pair(it, st, 'a'), pair(it, st, 's'), pair(it, st, 'd')]

    def uniform(it, st, args, kw, node):
        it.draws += 1
        n = kw.get('size', args[2] if len(args) > 2 else None)
        if n is None:
            return S('u%d' % it.draws)
        c = T.int_value(n) if n.op == 'rat' else None
        return NotImplemented if c is None else it.new_arr(st, (c,), [S('u%d_%d' % (it.draws, i)) for i in range(c)])

    def choice(it, st, args, kw, node):
        it.draws += 1
        return S('u%d' % it.draws)

    def rotation(it, st, args, kw):
        it.draws += 1
        return quat(it, st, 'r%d' % it.draws)

    def values(seed, pt):
        rng = random.Random(seed)
        for k in range(1, 8):
            for i, v in zip('xyzw', core.rndquat(rng)):
                pt['r%d%s' % (k, i)] = v
        r, d = core.rndquat(rng), core.rndquat(rng)
        k = sum(x * y for x, y in zip(r, d))
        for n, v in (('r', r), ('t', [y - k * x for x, y in zip(r, d)])):
            for i, x in zip('xyzw', v):
                pt['x%s%s' % (n, i)] = x
        return Valuation(seed, pt)
    ms = dict(base, **{'np.random.uniform': uniform, 'random.uniform': uniform, 'random.choice': choice,
                       'np.random.choice': choice})
    op = dict(dqprims(), **qprims('angle_between_quaternions'))
    op['Quaternion.get_random'] = rotation
    for n, what in (('spoil', 'time and translation offset'), ('spoil_angle', 'angle offset')):
        got = c.run('spec_c18s', 'd_' + n, args, opaque=op, models=ms)
        want = c.run('spec_c18s', 'r_' + n, args, opaque=op, models=ms)
        c.equal('spoil_initial_guess ' + what, 'reported offset of the initial guess', w, copy_result(got, got.value),
                want.value, val=values)


def run(c):
    base = c.system()
    c.own = OWN
    c.add_spec('spec_c18', SPEC)
    h = c.run('spec_c18', 'd_header', lambda it, st: [])
    if h.value.op != 'const':
        return c.finish('other', 'headings not determined', minimum=0)
    text = h.value.args[0]
    head = [heading(x) for x in text.strip().split(',')]
    w = c.where(RMOD, 'ResultEntry.get_header')
    c.require('headings', 'headings are distinct and end a line', w, len(set(head)) == len(head) and text.endswith('\n') and
              text.count('\n') == 1, text.strip())
    for x in HEAD:
        c.require('heading ' + x, 'every quantity has a heading', w, x in head, 'no heading ' + x)
    reader(c, base, head)
    spoiling(c, base)
    experiment(c, SET, 'r_set', SCENES, base, head)
    experiment(c, OPT, 'r_opt', OPTSCENES, base, head)
    c.assumptions.append('inserted texts contain no comma or line break; reading files, time offset, pose alignment, searches, '
                         'evaluation and loop error are fixed functions of their arguments (decided by C06 to C16, C21, C24)')
    return c.finish('other', 'summaries of the experiment programs over all configurations, with outcomes of calibration and '
                    'refinement partitioned, compared field by field with a reference table; summary of the table reader '
                    'compared with a reference by column name', minimum=40)
