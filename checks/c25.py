"""C25: command line tools process the files their options name"""
from vfa.core import *
from vfa import sysmodel as sysm
from vfa.terms import mk
from checks import c16, c18

ALIGN = 'hand_eye_calibration/bin/compute_aligned_poses'
CALIB = 'hand_eye_calibration/bin/compute_hand_eye_calibration'
EXPORT = 'hand_eye_calibration/bin/tf_to_csv'
SPEC = '''
import csv
import numpy as np
from hand_eye_calibration.dual_quaternion import DualQuaternion
from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
from hand_eye_calibration.time_alignment import calculate_time_offset, compute_aligned_poses, FilteringConfig
from hand_eye_calibration.csv_io import (read_time_stamped_poses_from_csv_file,
    write_time_stamped_poses_to_csv_file, write_double_numpy_array_to_csv_file)
from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (align_paths_at_index,
    compute_hand_eye_calibration_RANSAC)
from hand_eye_calibration.algorithm_config import get_exhaustive_search_scalar_part_inliers_config

def r_align(first, second, out1, out2, jpl, offset):
  (p1, t1, q1) = read_time_stamped_poses_from_csv_file(first, jpl)
  (p2, t2, q2) = read_time_stamped_poses_from_csv_file(second, jpl)
  d = calculate_time_offset(t1, q1, t2, q2, FilteringConfig(), False)
  (a1, a2) = compute_aligned_poses(p1, p2, d)
  write_time_stamped_poses_to_csv_file(a1, out1)
  write_time_stamped_poses_to_csv_file(a2, out2)
  if offset is not None:
    write_double_numpy_array_to_csv_file(np.array((d, )), offset)

def rows(f):
  with open(f, 'r') as g:
    return np.array(list(csv.reader(g, delimiter=','))).astype(float)

def path(f, inverse):
  l = [DualQuaternion.from_pose_vector(r[1:]) for r in rows(f)]
  if inverse:
    l = [x.inverse() for x in l]
  return align_paths_at_index(l)

def r_calib(first, inverse1, second, inverse2, extrinsics, offset, out):
  (n, config) = get_exhaustive_search_scalar_part_inliers_config()
  a = path(first, inverse1)
  b = path(second, inverse2)
  assert len(a) == len(b)
  r = compute_hand_eye_calibration_RANSAC(a, b, config)
  if extrinsics is not None:
    write_double_numpy_array_to_csv_file(r[1].to_pose(), extrinsics)
  if out is not None:
    c = ExtrinsicCalibration(float(rows(offset)[0, 0]), DualQuaternion.from_pose_vector(r[1].to_pose()))
    c.writeJson(out)
'''


class Always:
    def __contains__(self, x):
        return True


class Scene:
    def __init__(self, fails=False):
        self.fails = Always() if fails else ()
        self.zero = ()
        self.exit = ()


def opaques(fails=False):
    r = c18.opaques(Scene(fails))
    for n in ('ExtrinsicCalibration.writeJson', 'ExtrinsicCalibration.fromJson', 'create_path', 'spoil_initial_guess',
              'align_paths_at_index'):
        del r[n]
    ransac = r['compute_hand_eye_calibration_RANSAC']

    def found(it, st, args, kw):
        # which of the searches is used, and with which settings, is left open
        args = c18.params('dq_B_H_vec', 'dq_W_E_vec', 'config')(args, kw)
        return ransac(it, st, args[:2] + [NONE], {})
    r['compute_hand_eye_calibration_RANSAC'] = r['compute_hand_eye_calibration_BASELINE'] = found
    return r


def functions(rng, ctx):
    return dict(c18.functions(rng, ctx), **c16.functions(rng, ctx))


VAL = seqval({}, {}, functions)


NOTHING, EMPTY = T.const('nothing'), T.const('empty')


def content(r):
    """what each file finally holds, {} for none, None if not determined"""
    if r.value.op == 'unk' and not r.raised:
        return None
    log = sysm.log(r.it, r.st)
    if log.op == 'cat' and all(l.op == 'flist' for x in log.args for l in T.leaves(x)):
        log = T.lift(lambda *xs: T.flist([e for x in xs for e in x.args]), *log.args)
    cases = {l: files(l) for l in T.leaves(log)}
    if any(x is None for x in cases.values()):
        return None
    return {f: T.lift(lambda l: cases[l].get(f, NOTHING), log) for x in cases.values() for f in x}


def files(log):
    """what each file holds after these effects"""
    if log.op != 'flist':
        return None
    r = {}
    for e in log.args:
        if e.op != 'tup' or e.args[0].op != 'const':
            return None
        k = e.args[0].args[0]
        if k == 'open' and (e.args[2].op != 'const' or set(e.args[2].args[0]) & set('wax')):
            r[e.args[1]] = []
        elif k == 'write':
            r.setdefault(e.args[1], []).append(e.args[2])
    return {f: payload(x) for f, x in r.items()}


def payload(chunks):
    """numbers of a table or entries of a JSON file without their formatting"""
    if len(chunks) == 1:
        for n in ('table', 'json'):
            p = sysm.part(chunks[0], n)
            if p is not None:
                return p.args[1]
    return T.flist(chunks) if chunks else EMPTY


def compare(c, oid, where, got, want, outputs):
    rule = 'every output file holds the result it is named for'
    if got.raised:
        c.ob(oid, rule, where, 'violated', 'always fails: ' + got.raised)
        return
    g, w = content(got), content(want)
    if w is None or set(w) != set(outputs.values()):
        raise RuntimeError('reference of %s is not determined: %s' % (oid, T.show(want.value)[:200]))
    for name, f in outputs.items():
        i = '%s: %s' % (oid, name)
        if g is None:
            c.ob(i, rule, where, 'undecided', 'effects not resolved')
        elif g.get(f, NOTHING) in (NOTHING, EMPTY):
            c.ob(i, rule, where, 'violated', 'nothing is written to this file')
        else:
            got.value = g[f]
            c.equal(i, rule, where, got, w[f], val=VAL, assume=T.bnot(want.abort))


def refuses(c, oid, where, r, why):
    rule = 'unusable options are refused'
    g = content(r)
    if not r.raised and r.abort is not T.TRUE:
        und = g is None or r.value.unk
        c.ob(oid, rule, where, 'undecided' if und else 'violated', why + ' is accepted')
    else:
        g = {f: v for f, v in (g or {}).items() if NOTHING not in T.leaves(v)}
        c.require(oid, rule, where, not g, 'writes %s before refusing %s' % (', '.join(T.show(f) for f in g), why))


def runner(c, mod, opaque, ms):
    c.main(mod)
    names = declared(c, mod, ms)

    def go(**vals):
        def build(it, st):
            it.explicit_raises = True
            it.argvals = {k: (lambda it, st, v=v: v) for k, v in vals.items()}
            return []
        return c.run(mod, '__main__', build, opaque=opaque, models=ms)
    return go, names


def declared(c, mod, ms):
    from checks.c17 import parser_table
    ps, r = parser_table(c, mod)
    if not ps:
        return None
    return {o['dest']: o for o in ps}


def default(names, k):
    """value of an option that is not given"""
    return names[k]['kw'].get('default', NONE) if names and k in names else NONE


def alignment(c, ms):
    go, names = runner(c, ALIGN, opaques(), ms)
    w = c.where(ALIGN, '__main__')
    f = {k: sysm.strsym(k) for k in ('first', 'second', 'aligned first', 'aligned second', 'time offset')}
    base = dict(poses_B_H_csv_file=f['first'], poses_W_E_csv_file=f['second'],
                aligned_poses_B_H_csv_file=f['aligned first'], aligned_poses_W_E_csv_file=f['aligned second'])
    fmt = default(names, 'quaternion_format')
    for form, jpl in (('Hamilton', FALSE), ('JPL', TRUE), (None, FALSE)):
        for vis in (FALSE, TRUE):
            for off in (f['time offset'], NONE):
                if form != 'JPL' and vis is TRUE:
                    continue
                got = go(quaternion_format=fmt if form is None else T.const(form), visualize=vis,
                         time_offset_output_csv_file=off, **base)
                want = c.run('spec_c25', 'r_align', lambda it, st: [
                    f['first'], f['second'], f['aligned first'], f['aligned second'], jpl, off], opaque=opaques(), models=ms)
                outs = {k: f[k] for k in ('aligned first', 'aligned second')}
                if off is not NONE:
                    outs['time offset'] = off
                compare(c, 'compute_aligned_poses[%s%s%s]' % (form or 'default', ', plots' if vis is TRUE else '',
                                                              '' if off is not NONE else ', no offset file'),
                        w, got, want, outs)
    r = go(quaternion_format=T.const('Other'), visualize=FALSE, time_offset_output_csv_file=NONE, **base)
    refuses(c, 'compute_aligned_poses[unknown convention]', w, r, 'an unknown quaternion convention')


def calibration(c, ms):
    go, names = runner(c, CALIB, opaques(), ms)
    w = c.where(CALIB, '__main__')
    f = {k: sysm.strsym(k) for k in ('first', 'second', 'extrinsics', 'offset', 'calibration')}
    sysm.COLUMNS['offset'] = 1
    opt = {(1, 0): 'aligned_poses_B_H_csv_file', (1, 1): 'aligned_poses_H_B_csv_file',
           (2, 0): 'aligned_poses_W_E_csv_file', (2, 1): 'aligned_poses_E_W_csv_file'}
    none = dict({v: NONE for v in opt.values()}, visualize=FALSE, plot_every_nth_pose=num(10))
    outs = lambda e, o, j: dict(extrinsics_output_csv_file=f['extrinsics'] if e else NONE,
                                time_offset_input_csv_file=f['offset'] if o else NONE,
                                calibration_output_json_file=f['calibration'] if j else NONE)
    B = {0: FALSE, 1: TRUE}
    for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
        for e, o, k in ((1, 1, 1), (1, 0, 0), (0, 1, 1), (1, 1, 0)):
            if (i, j) != (0, 0) and not (e and k):
                continue
            got = go(**dict(none, **{opt[1, i]: f['first'], opt[2, j]: f['second']}, **outs(e, o, k)))
            want = c.run('spec_c25', 'r_calib', lambda it, st: [
                f['first'], B[i], f['second'], B[j], f['extrinsics'] if e else NONE, f['offset'], f['calibration'] if k else NONE],
                opaque=opaques(), models=ms)
            compare(c, 'compute_hand_eye_calibration[%s %s%s%s%s]' % (
                'inverse' if i else 'direct', 'inverse' if j else 'direct', ' extrinsics' if e else '',
                ' offset' if o else '', ' calibration' if k else ''), w, got, want,
                {n: f[n] for n, x in (('extrinsics', e), ('calibration', k)) if x})
    for g1, g2 in (((), (0,)), ((0, 1), (0,)), ((0,), ()), ((0,), (0, 1)), ((), ()), ((1,), (0, 1)), ((0, 1), (1,))):
        v = dict(none, **outs(1, 1, 1))
        v.update({opt[1, x]: f['first'] for x in g1})
        v.update({opt[2, x]: f['second'] for x in g2})
        refuses(c, 'compute_hand_eye_calibration[%d and %d files]' % (len(g1), len(g2)) + ('' if 1 not in g1[:1] and 1 not in g2[:1] else ' inverse'),
                w, go(**v), '%d files for the first and %d files for the second path' % (len(g1), len(g2)))
    v = dict(none, **outs(0, 0, 1))
    v.update({opt[1, 0]: f['first'], opt[2, 0]: f['second']})
    refuses(c, 'compute_hand_eye_calibration[no offset]', w, go(**v), 'a calibration file without time offset')
    # a search without result
    lost, _ = runner(c, CALIB, opaques(True), ms)
    for e, k in ((1, 1), (1, 0), (0, 1)):
        v = dict(none, **outs(e, 1, k))
        v.update({opt[1, 0]: f['first'], opt[2, 0]: f['second']})
        r = lost(**v)
        g = content(r)
        oid = 'compute_hand_eye_calibration[failed search%s%s]' % (' extrinsics' if e else '', ' calibration' if k else '')
        rule = 'a failed search writes no calibration'
        held = [set(T.leaves(g[x])) for x in (f['extrinsics'], f['calibration']) if g and x in g]
        if g is None or any(NOTHING in x and len(x) > 1 for x in held):
            c.ob(oid, rule, w, 'undecided', 'effects not resolved')
        else:
            c.require(oid, rule, w, all(x <= {NOTHING, EMPTY} for x in held),
                      'writes %s although the search found nothing' % ', '.join(T.show(x) for x in g))


def export(c, ms):
    m = c.repo.module(EXPORT)
    c.main(EXPORT)
    c.repo.modules['tfmain'] = m
    for n, t in c16.ROS.items():
        c.add_spec(n, t)
    c.add_spec('spec_tf', c16.TF)
    ms = dict(ms, **{'rosprim.word': c16.p_word, 'rosprim.number': c16.p_number, 'rosprim.missing': c16.p_missing})
    f = {k: sysm.strsym(k) for k in ('bag', 'target', 'source', 'out')}

    def build(it, st):
        it.explicit_raises = True
        it.argvals = {k: (lambda it, st, v=v: v) for k, v in (
            ('bag', f['bag']), ('tf_target_frame', f['target']), ('tf_source_frame', f['source']), ('csv_output_file', f['out']))}
        return []

    def ref(it, st):
        it.explicit_raises = True
        return [f[x] for x in ('bag', 'target', 'source', 'out')]
    for i in (0, 2):
        c16.SCENE[0] = c16.SCENES[i]
        got = c.run(EXPORT, '__main__', build, models=ms)
        want = c.run('spec_tf', 'r_tf', ref, models=ms)
        for r in (got, want):
            if r.value.op != 'unk':
                r.value = sysm.log(r.it, r.st)
        c.equal('tf_to_csv[%d]' % i, 'every output file holds the result it is named for', c.where(EXPORT, '__main__'), got,
                want.value, val=c16.tf_values, modulo=c16.same_tables)


def run(c):
    ms = c.system()
    c.add_spec('spec_c25', SPEC)
    alignment(c, ms)
    calibration(c, ms)
    export(c, ms)
    c.assumptions.append('reading, time alignment, search and conversions are those decided by the other properties')
    return c.finish('other', 'files written by the tools compared with reference definitions for every use of their options',
                    minimum=15)
