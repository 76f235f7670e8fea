"""C19: named algorithm configurations select the algorithm they name"""
import ast
from vfa import core
from vfa.core import *
from vfa import terms as T

ALL = 'hand_eye_calibration_experiments.all_algorithm_configs'
CFG = PKG + '.algorithm_config'
PLOT = 'hand_eye_calibration_experiments.experiment_plotting_tools'
SPEC = '''
from hand_eye_calibration_experiments.all_algorithm_configs import (
    get_all_configs, get_optimization_with_spoiled_initial_calibration_config)
from hand_eye_calibration.algorithm_config import (get_basic_config,
    get_RANSAC_classic_config, get_RANSAC_scalar_part_inliers_config,
    get_exhaustive_search_pose_inliers_config,
    get_exhaustive_search_scalar_part_inliers_config, get_baseline_config)

def d_all():
  return get_all_configs()

def d_basic():
  return get_basic_config()

def d_spoiled():
  return get_optimization_with_spoiled_initial_calibration_config()

def d_user():
  return [get_RANSAC_classic_config(True), get_RANSAC_classic_config(False),
          get_RANSAC_scalar_part_inliers_config(True),
          get_RANSAC_scalar_part_inliers_config(False),
          get_exhaustive_search_pose_inliers_config(),
          get_exhaustive_search_scalar_part_inliers_config(),
          get_baseline_config(True), get_baseline_config(False)]

def spoil(c):
  c.ransac_sample_size = 7
  c.prefilter_poses_enabled = 7
  c.enable_exhaustive_search = 7
  c.algorithm_name = 'changed'
  c.ransac_inlier_classification = 'changed'
  c.use_baseline_approach = 7
  c.visualize = 7

def d_again():
  for (n, f, h, o) in get_all_configs():
    spoil(h)
    f.smoothing_kernel_size_A = 7
    o.enable_optimization = 7
  for (f, h) in d_user():
    spoil(h)
    f.smoothing_kernel_size_A = 7
  return get_all_configs()

def d_user_again():
  for (n, f, h, o) in get_all_configs():
    spoil(h)
    f.smoothing_kernel_size_A = 7
  for (f, h) in d_user():
    spoil(h)
    f.smoothing_kernel_size_A = 7
  return d_user()
'''
# search strategy: (exhaustive, baseline, sample size, inlier rule)
KINDS = {
    'RC': (False, False, 3, 'rmse_threshold'),
    'RS': (False, False, 1, 'scalar_part_equality'),
    'EC': (True, False, 3, 'rmse_threshold'),
    'ES': (True, False, 1, 'scalar_part_equality'),
    'baseline': (False, True, None, None),
}
STRATEGY = ('enable_exhaustive_search', 'use_baseline_approach', 'ransac_sample_size', 'ransac_inlier_classification')
OWN = STRATEGY + ('algorithm_name', 'prefilter_poses_enabled')


class Opaque(Exception):
    pass


def plain(t):
    """python value of a fully known term"""
    if t.op == 'const':
        return t.args[0]
    v = T.const_value(t) if t.op == 'rat' else None
    if v is not None:
        return v
    if t.op in ('tup', 'flist'):
        return [plain(x) for x in t.args]
    if t.op == 'fobj':
        d = {k: plain(x) for k, x in t.args[1]}
        return Config(t.args[0][-1], d)
    raise Opaque(str(t)[:80])


class Config(object):
    def __init__(self, cls, d):
        self.cls = cls
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Config) and self.cls == o.cls and self.d == o.d


RANGES = {
    'min_num_inliers': lambda v: v >= 1,
    'prefilter_dot_product_threshold': lambda v: 0 < v <= 1,
    'ransac_sample_size': lambda v: v >= 1,
    'ransac_sample_rejection_scalar_part_equality_tolerance': lambda v: 0 < v < 1,
    'ransac_max_number_iterations': lambda v: v >= 1,
    'ransac_outlier_probability': lambda v: 0 < v < 1,
    'ransac_success_probability_threshold': lambda v: 0 < v < 1,
    'ransac_position_error_threshold_m': lambda v: v > 0,
    'ransac_orientation_error_threshold_deg': lambda v: 0 < v < 180,
    'hand_eye_calibration_scalar_part_equality_tolerance': lambda v: 0 < v < 1,
    'visualize_plot_every_nth_pose': lambda v: v >= 1,
    'smoothing_kernel_size_A': lambda v: v >= 1,
    'smoothing_kernel_size_B': lambda v: v >= 1,
    'clipping_percentile_A': lambda v: 0 < v <= 100,
    'clipping_percentile_B': lambda v: 0 < v <= 100,
}


def truth(v):
    return v if v is None else bool(v)


def strategy(h):
    return tuple(h.d.get(k) if i > 1 else truth(h.d.get(k)) for i, k in enumerate(STRATEGY))


def check_search(c, oid, where, name, h, basic):
    """the part of a name that describes the search"""
    kind = name.split('_')[0]
    rest = name.split('_')[1:]
    c.require(oid + ' strategy known', 'the name tells the algorithm', where, kind in KINDS, 'name %r' % name)
    if kind not in KINDS:
        return
    want = KINDS[kind]
    got = strategy(h)
    for i, k in enumerate(STRATEGY):
        if want[i] is not None:
            c.require('%s %s' % (oid, k), 'the named search strategy is selected', where, got[i] == want[i],
                      'configuration %r has %s = %r, its name says %r' % (name, k, got[i], want[i]))
    pf = truth(h.d.get('prefilter_poses_enabled'))
    if rest[:1] == ['filter']:
        ok = pf is True
    elif rest[:2] == ['no', 'filter']:
        ok = pf is False
    else:
        ok = pf is True if kind in ('EC', 'ES') else False
    c.require(oid + ' prefilter', 'the named pre-filtering is selected', where, ok,
              'configuration %r has prefilter_poses_enabled = %r' % (name, pf))
    if h.d.get('ransac_inlier_classification') == 'rmse_threshold' and not h.d.get('use_baseline_approach'):
        c.require(oid + ' samples', 'pose inliers need at least two samples', where,
                  h.d.get('ransac_sample_size', 0) >= 2, 'sample size %r' % h.d.get('ransac_sample_size'))
    diff = sorted(k for k in set(h.d) | set(basic.d) if k not in OWN and h.d.get(k) != basic.d.get(k))
    c.require(oid + ' common', 'all other settings are the common ones', where, not diff,
              '%r differs from the basic configuration in %s' % (name, ', '.join(diff)))


def attr_reads(c):
    names = set()
    for m in c.repo.modules.values():
        if m.name.startswith(('spec', 'vfa')):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                names.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    names.add(n.args[1].value)
                else:
                    return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'vars' or \
                    isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return None
    return names


def labels(c, names):
    """the table from names to plot labels: a dictionary literal keyed by several of the names"""
    best = None
    for m in c.repo.modules.values():
        if not m.name.startswith('hand_eye_calibration_experiments'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict):
                d = [(k.value, v.value) for k, v in zip(n.keys, n.values)
                     if isinstance(k, ast.Constant) and isinstance(v, ast.Constant)]
                hit = sum(k in names for k, v in d)
                if hit >= 3 and (best is None or hit > best[0]):
                    best = (hit, m, n, d)
    return best


def run(c):
    c.add_spec('spec_cfg', SPEC)
    where_all = c.where(ALL, 'get_all_configs')
    vals, raws = {}, {}
    for q in ('d_all', 'd_basic', 'd_spoiled', 'd_user', 'd_again', 'd_user_again'):
        r = c.run('spec_cfg', q, lambda it, st: [])
        raws[q] = r
        try:
            vals[q] = plain(r.value)
            c.ob('configurations[%s]' % q, 'configurations are fully known', where_all, 'proved', '')
        except Opaque as e:
            vals[q] = None
            c.ob('configurations[%s]' % q, 'configurations are fully known', where_all, 'undecided', str(e))
    if all(vals[q] is not None for q in ('d_all', 'd_basic')):
        basic = vals['d_basic'][1]
        confs = vals['d_all']
        names = [x[0] for x in confs]
        for i, (name, f, h, o) in enumerate(confs):
            oid = 'offered[%s]' % name
            c.require(oid + ' unique', 'names are unique', where_all, names.count(name) == 1, 'name %r used twice' % name)
            parts = name.split('_')
            search = '_'.join(parts[:-2] if parts[-2:] == ['no', 'opt'] else parts[:-1])
            c.require(oid + ' optimization', 'the named refinement is selected', where_all,
                      parts[-1] == 'opt' and truth(o.d.get('enable_optimization')) is (parts[-2] != 'no') and
                      truth(o.d.get('optimization_only')) is False,
                      '%r has enable_optimization=%r optimization_only=%r' % (
                          name, o.d.get('enable_optimization'), o.d.get('optimization_only')))
            c.require(oid + ' own name', 'the configuration carries the name of its search', where_all,
                      h.d.get('algorithm_name') == search, '%r carries %r' % (name, h.d.get('algorithm_name')))
            check_search(c, oid, where_all, search, h, basic)
            c.require(oid + ' time alignment', 'all other settings are the common ones', where_all,
                      f == vals['d_basic'][0], 'time alignment settings of %r differ' % name)
        have = {x[0] for x in confs}
        for k in KINDS:
            pre = [k] if k in ('EC', 'ES') else [k + '_filter', k + '_no_filter']
            for n in pre:
                for s in ('_opt', '_no_opt'):
                    c.require('offer %s' % (n + s), 'every combination is offered', where_all, n + s in have,
                              'no configuration %s' % (n + s))
        # one object per configuration
        st, raw = raws['d_all'].st, raws['d_all'].raw
        lst = st.heap[raw.args[0]].data if raw.op == 'ref' else raw
        locs = [x for e in (lst.args if lst.op in ('flist', 'tup') else ()) if e.op == 'tup' for x in e.args[1:]]
        if locs and all(x.op == 'ref' for x in locs):
            c.require('separate objects', 'configurations share no settings object', where_all,
                      len({x.args[0] for x in locs}) == len(locs), 'two configurations share one settings object')
        if vals['d_again'] is not None:
            c.require('no leakage', 'changing a configuration changes no other one', where_all,
                      vals['d_again'] == vals['d_all'], 'configurations obtained later differ')
        # labels
        t = labels(c, have)
        if t is None:
            c.ob('labels', 'plot labels', PLOT, 'undecided', 'no table of labels found')
        else:
            d = dict(t[3])
            at = '%s:%d' % (t[1].rel, t[2].lineno)
            extra = [vals['d_spoiled'][0]] if vals['d_spoiled'] else []
            for n in sorted(have) + extra:
                c.require('label[%s]' % n, 'every offered name has a plot label', at, n in d, 'no label for %r' % n)
            dup = [v for v in d.values() if list(d.values()).count(v) > 1]
            c.require('labels distinct', 'labels keep configurations apart', at, not dup, 'label used twice: %s' % dup)
            for (name, f, h, o) in confs:
                l = d.get(name)
                if isinstance(l, str):
                    p = l.split('_')
                    c.require('label meaning[%s]' % name, 'the label tells pre-filtering, algorithm and refinement', at,
                              ('PF' in p) == truth(h.d.get('prefilter_poses_enabled')) and
                              ('O' in p) == truth(o.d.get('enable_optimization')) and
                              [x for x in p if x not in ('PF', 'O')] == [{'baseline': 'B'}.get(name.split('_')[0],
                                                                                          name.split('_')[0])],
                              '%r is labelled %r' % (name, l))
        # settings
        for cls in (basic, vals['d_basic'][0]):
            for s in sorted(cls.d):
                if s in RANGES and not isinstance(cls.d[s], str):
                    c.require('range[%s.%s]' % (cls.cls, s), 'settings lie in their valid range', where_all,
                              cls.d[s] is not None and RANGES[s](cls.d[s]), '%s = %s' % (s, cls.d[s]))
        for cls in (basic, vals['d_basic'][0]):
            reads = attr_reads(c)
            known = class_settings(c, cls.cls)
            for s in sorted(cls.d):
                c.require('setting[%s.%s]' % (cls.cls, s), 'every setting is declared and read', where_all,
                          (reads is None or s in reads) and (known is None or s in known), 'setting %s of %s is %s' % (
                              s, cls.cls, 'never read' if reads is not None and s not in reads else 'not declared'))
    if vals['d_user'] is not None and vals['d_basic'] is not None:
        basic = vals['d_basic'][1]
        where = c.where(CFG, 'get_basic_config')
        want = ['RC_filter', 'RC_no_filter', 'RS_filter', 'RS_no_filter', 'EC', 'ES', 'baseline_filter',
                'baseline_no_filter']
        for n, (f, h) in zip(want, vals['d_user']):
            c.require('factory[%s] name' % n, 'the factory names its algorithm', where, h.d.get('algorithm_name') == n,
                      'named %r' % h.d.get('algorithm_name'))
            check_search(c, 'factory[%s]' % n, where, n, h, basic)
        if vals['d_user_again'] is not None:
            c.require('factories no leakage', 'changing a configuration changes no other one', where,
                      vals['d_user_again'] == vals['d_user'], 'configurations obtained later differ')
    if vals['d_spoiled'] is not None:
        (n, f, h, o) = vals['d_spoiled']
        c.require('spoiled', 'refinement from a given start only refines', c.where(
            ALL, 'get_optimization_with_spoiled_initial_calibration_config'),
            truth(o.d.get('enable_optimization')) is True and truth(o.d.get('optimization_only')) is True,
            'refinement settings %s' % sorted(o.d.items()))
    return c.finish('other', 'every offered configuration, factory, label and setting', minimum=6)


def class_settings(c, name):
    for m in c.repo.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == name:
                return {t.attr for t in ast.walk(n) if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store)} | \
                    {t.id for s in n.body for t in ast.walk(s) if isinstance(s, (ast.Assign, ast.AnnAssign))
                     and isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
    return None
