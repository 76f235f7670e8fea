"""Small programs for selftest.py."""
import bisect
import copy
import functools
import itertools
import math
from collections import defaultdict, namedtuple, OrderedDict

import numpy as np

COUNT = 0
TABLE = {'one': 1, 'two': 2}
TABLE['three'] = 3
SQUARES = []
for _i in range(5):
  SQUARES.append(_i * _i)
Pair = namedtuple('Pair', 'left right')


class _Box(object):
  shared = 0

  def __init__(self, v):
    self.v = v
    self.log = []

  def add(self, x):
    self.v += x
    self.log.append(x)
    return self

  @property
  def double(self):
    return 2 * self.v

  @staticmethod
  def twice(x):
    return 2 * x

  @classmethod
  def make(cls, x):
    return cls(x + 1)

  def __getitem__(self, k):
    return self.log[k]

  def __len__(self):
    return len(self.log)

  def __iter__(self):
    return iter(self.log)

  def __eq__(self, other):
    return self.v == other.v

  def __lt__(self, other):
    return self.v < other.v

  def __mul__(self, k):
    return _Box(self.v * k)

  def __neg__(self):
    return _Box(-self.v)


class _Sub(_Box):

  def add(self, x):
    super(_Sub, self).add(2 * x)
    return self

  @property
  def double(self):
    return 20 * self.v


def _tick():
  global COUNT
  COUNT += 1
  return COUNT


def _grow(x, acc=[]):
  acc.append(x)
  return len(acc)


# ---- loops
def loop_sum(xs):
  s = 0
  for x in xs:
    s += x
  return s


def loop_index(xs):
  s = 0
  for i in range(len(xs)):
    s += i * xs[i]
  return s


def loop_break(xs):
  k = 0
  for x in xs:
    if x > 1:
      break
    k += 1
  return k


def loop_else(xs):
  for i, x in enumerate(xs):
    if x > 1.5:
      r = i
      break
  else:
    r = -1
  return r


def loop_continue(xs):
  out = []
  for x in xs:
    if x < 0:
      continue
    out.append(x * 2)
  return out


def loop_return(xs):
  for x in xs:
    if x > 0.5:
      return x
  return None


def loop_while(n):
  i = 0
  s = 0
  while i < n:
    s += i * i
    i += 2
  return s, i


def loop_while_len(n):
  acc = []
  while len(acc) < n:
    acc.append(len(acc) * 3)
  return acc


def loop_while_true(xs):
  i = 0
  while True:
    if i >= len(xs) or xs[i] < 0:
      break
    i += 1
  return i


def loop_nested(n, m):
  out = []
  for i in range(n):
    for j in range(m):
      out.append(i * 10 + j)
  return out


def loop_nested_break(xs, n):
  hits = 0
  for i in range(n):
    for x in xs:
      if x > i:
        hits += 1
        break
  return hits


def loop_len_last(n):
  acc = []
  t = 0
  for i in range(n):
    acc.append(i)
    t = len(acc)
  return t


def loop_len_own(n):
  acc = []
  for i in range(n):
    acc.append(len(acc))
  return acc


def loop_len_limit(n):
  acc = []
  rest = []
  for i in range(n):
    if len(acc) < 4:
      acc.append(i)
    else:
      rest.append(len(acc) + i)
  return acc, rest


def loop_len_filter(xs):
  acc = []
  for x in xs:
    if x > 0:
      acc.append((x, len(acc)))
  return acc


def loop_last(xs):
  acc = [0.]
  for x in xs:
    acc.append(acc[-1] + x)
  return acc


def loop_previous(xs):
  prev = None
  out = []
  for x in xs:
    if prev is not None:
      out.append(x - prev)
    prev = x
  return out


def loop_spaced(xs):
  kept = []
  last = None
  for i, x in enumerate(xs):
    if last is None or x > last + 0.3:
      kept.append(i)
      last = x
  return kept


def loop_best(xs):
  best = None
  where = -1
  for i, x in enumerate(xs):
    if best is None or x > best:
      best = x
      where = i
  return best, where


def loop_swap(n):
  a, b = 0, 1
  for _ in range(n):
    a, b = b, a + b
  return a


def loop_flags(xs):
  any_neg = False
  all_small = True
  for x in xs:
    if x < 0:
      any_neg = True
    if abs(x) > 1.9:
      all_small = False
  return any_neg, all_small


def loop_two_lists(xs, ys):
  out = []
  for x, y in zip(xs, ys):
    if x > y:
      out.append(x)
    else:
      out.append(y)
  return out


def loop_store(xs):
  out = [0.] * len(xs)
  for i in range(len(xs)):
    out[i] = xs[i] * 2
  return out


def loop_store_if(xs):
  out = list(xs)
  for i in range(len(out)):
    if out[i] < 0:
      out[i] = 0
  return out


def loop_store_rev(xs):
  n = len(xs)
  out = [0.] * n
  for i in range(n):
    out[n - 1 - i] = xs[i]
  return out


def loop_backwards(xs):
  out = []
  for i in range(len(xs) - 1, -1, -1):
    out.append(xs[i])
  return out


def loop_step(xs):
  return [xs[i] for i in range(0, len(xs), 2)]


def loop_object(xs):
  b = _Box(0)
  for x in xs:
    b.add(x)
  return b.v, b.log, b.double


def loop_objects(xs):
  bs = [_Box(x) for x in xs]
  for b in bs:
    b.add(1)
  return [b.v for b in bs]


def loop_object_best(xs):
  best = None
  for x in xs:
    b = _Box(x)
    if best is None or best < b:
      best = b
  return best.v


def loop_record_best(xs):
  best = None
  for i, x in enumerate(xs):
    if best is None or x > best.right:
      best = Pair(i, x)
  return best.left, best.right


def loop_record(xs):
  p = Pair(0, 0.)
  for x in xs:
    p = p._replace(left=p.left + 1, right=p.right + x)
  return p.left, p.right


def loop_tuple(xs):
  p = (0, 0.)
  for x in xs:
    p = (p[0] + 1, p[1] + x)
  return p


def loop_dict(xs):
  d = {'n': 0, 's': 0.}
  for x in xs:
    d['n'] += 1
    d['s'] += x
  return d


def loop_lists_pair(xs):
  pos, neg = [], []
  for x in xs:
    (pos if x > 0 else neg).append(x)
  return pos, neg


def loop_rows(M):
  out = np.zeros(len(M))
  for i, row in enumerate(M):
    out[i] = row[0] * row[1] - row[2]
  return out


def loop_rows_cols(M):
  out = np.zeros((len(M), 3))
  for i in range(len(M)):
    for j in range(3):
      out[i, j] = M[i, j] * (j + 1)
  return out


def loop_rows_store(M):
  out = np.zeros((len(M), 3))
  for i in range(len(M)):
    out[i, :] = M[i] * 2
    out[i, 1] = 7
  return out


def loop_counter_call(n):
  r = []
  for i in range(n):
    r.append(i + _Box.twice(i))
  return r


def loop_pop(xs):
  stack = list(xs)
  s = 0.
  while stack:
    s = 2 * s + stack.pop()
  return s


# ---- shared state
def global_loop(n):
  global COUNT
  COUNT = 0
  for i in range(n):
    COUNT += 2
  return COUNT


def global_call(n):
  global COUNT
  COUNT = 5
  r = 0
  for i in range(n):
    r += _tick()
  return r


def global_comp(n):
  global COUNT
  COUNT = 5
  return [_tick() for i in range(n)], COUNT


def global_comp_if(n):
  global COUNT
  COUNT = 5
  return [_tick() for i in range(n) if i % 2], COUNT


def global_map(n):
  global COUNT
  COUNT = 5
  return list(map(lambda i: _tick(), range(n)))


def global_branch(x):
  global COUNT
  COUNT = 0
  if x > 0:
    _tick()
  return COUNT


def class_attr(n):
  _Box.shared = 3
  for i in range(n):
    _Box.shared += 1
  return _Box.shared, _Box(1).shared


def default_list(n):
  k = _grow(0) - 1
  r = [_grow(i) - k for i in range(n)]
  return r


def nonlocal_loop(n):
  c = 0

  def inc():
    nonlocal c
    c += 2
    return c
  for i in range(n):
    inc()
  return c


def nonlocal_comp(n):
  c = 0

  def inc():
    nonlocal c
    c += 2
    return c
  return [inc() for i in range(n)]


def nonlocal_branch(x):
  c = 1

  def put():
    nonlocal c
    c = 7
  if x > 0:
    put()
  return c


def closure_late(x):
  k = 1
  f = lambda: k + x
  k = 5
  return f()


def closure_list(n):
  fs = [lambda y, i=i: y + i for i in range(3)]
  return [f(10) for f in fs]


def closure_append(xs):
  out = []

  def put(v):
    out.append(v * 2)
  for x in xs:
    put(x)
  return out


def module_table(x):
  return TABLE['three'] + SQUARES[3], len(TABLE), sum(SQUARES)


def alias_list(xs):
  ys = xs
  ys.append(1)
  return xs


def alias_copy(xs):
  ys = list(xs)
  ys.append(1)
  return len(xs), len(ys)


def alias_slice_copy(xs):
  ys = xs[:]
  ys[0] = 100
  return xs[0], ys[0]


def alias_rows(M):
  r = M[0]
  r[1] = 9
  return M


def alias_view(a):
  v = a[1:3]
  v[0] = 50
  return a


def alias_nested(n):
  rows = [[0] * 3] * 2
  rows[0][1] = 5
  return rows


def alias_arg(xs):
  def fill(v):
    v[0] = 42
  fill(xs)
  return xs


def alias_object(x):
  b = _Box(x)
  c = b
  c.add(3)
  return b.v


def alias_deepcopy(x):
  b = _Box(x)
  c = copy.deepcopy(b)
  c.add(3)
  return b.v, c.v, b.log, c.log


def alias_shallow(x):
  b = _Box(x)
  c = copy.copy(b)
  c.add(3)
  return b.v, c.v, b.log, c.log


def alias_inplace_add(xs):
  ys = xs
  ys += [1]
  return len(xs), len(ys)


def alias_plus(xs):
  ys = xs
  ys = ys + [1]
  return len(xs), len(ys)


def alias_array_inplace(a):
  b = a
  b *= 2
  return a


def alias_array_new(a):
  b = a
  b = b * 2
  return a[0], b[0]


# ---- sequences
def seq_slices(xs):
  return xs[1:], xs[:-1], xs[-2:], xs[::-1], xs[::2]


def seq_slices_far(xs):
  return xs[:100], xs[100:], xs[2:1]


def seq_negative(xs):
  return xs[-1], xs[-2]


def seq_concat(xs, ys):
  return xs + ys, xs * 2


def seq_insert(xs):
  xs.insert(0, 7)
  xs.insert(2, 8)
  return xs


def seq_pop(xs):
  a = xs.pop()
  b = xs.pop(0)
  return a, b, xs


def seq_remove_reverse(xs):
  xs.reverse()
  del xs[0]
  return xs


def seq_extend(xs, ys):
  xs.extend(ys)
  return xs


def seq_sorted(xs):
  return sorted(xs), sorted(xs, reverse=True)


def seq_sorted_key(xs):
  return sorted(range(len(xs)), key=lambda i: xs[i])


def seq_sort_pairs(xs):
  p = sorted((x, i) for i, x in enumerate(xs))
  return [i for _, i in p]


def seq_sort_inplace(xs):
  xs.sort(key=lambda v: -v)
  return xs


def seq_minmax(xs):
  return min(xs), max(xs), min(xs[0], xs[1]), max(xs[0], 0)


def seq_min_key(xs):
  return min(range(len(xs)), key=lambda i: abs(xs[i]))


def seq_any_all(xs):
  return any(x > 1 for x in xs), all(x > -1 for x in xs)


def seq_sum(xs):
  return sum(xs), sum(x * x for x in xs), sum([1 for x in xs if x > 0])


def seq_in(x):
  return x in (1, 2), 2 in [1, 2, 3], 'two' in TABLE, 5 not in [1]


def seq_index_count(n):
  v = [3, 1, 3, 2]
  return v.index(1), v.count(3)


def seq_enumerate(xs):
  return [(i, x) for i, x in enumerate(xs, 1)]


def seq_zip3(xs, ys):
  return [x + y + i for x, y, i in zip(xs, ys, range(100))]


def seq_zip_short(xs):
  return [(p, q) for p, q in zip(xs, xs[1:])]


def seq_zip_star(xs, ys):
  u, v = zip(*[(x, 2 * x) for x in xs])
  return list(u), list(v)


def seq_unpack(xs):
  first, *rest = xs
  return first, rest


def seq_unpack_mid(n):
  a, *b, c = [1, 2, 3, 4]
  return a, b, c


def seq_nested_comp(n, m):
  return [[i * j for j in range(m)] for i in range(n)]


def seq_flat_comp(n, m):
  return [i * 10 + j for i in range(n) for j in range(m)]


def seq_flat_dep(n):
  return [i * 10 + j for i in range(n) for j in range(i)]


def seq_comp_two_if(xs):
  return [x for x in xs if x > -1 if x < 1]


def seq_filter_len(xs):
  v = [x for x in xs if x > 0]
  return len(v), v[:1], v[1:]


def seq_filter_filter(xs):
  v = [x for x in xs if x > -1]
  return [2 * x for x in v if x < 1]


def seq_filter_zip(xs, ys):
  flags = [x > 0 for x in xs]
  return [y for y, f in zip(ys, flags) if f]


def seq_compress(xs, ys):
  return list(itertools.compress(ys, [x > 0 for x in xs]))


def seq_filter_fn(xs):
  return list(filter(lambda v: v > 0, xs)), list(map(lambda v: v + 1, xs))


def seq_reversed(xs):
  return list(reversed(xs))


def seq_range(n):
  return list(range(n)), list(range(1, n)), list(range(n, 0, -1)), len(range(2, n))


def seq_index_list(xs):
  idx = [2, 0, 1]
  return [xs[i] for i in idx]


def seq_tuple(xs):
  return tuple(xs), tuple(x for x in xs if x > 0)


def seq_cond_list(x):
  v = [1, 2]
  if x > 0:
    v.append(3)
  else:
    v = v + [4, 5]
  return v, len(v)


def seq_chain(xs, ys):
  return list(itertools.chain(xs, ys)), list(itertools.islice(xs, 2))


def seq_product(n):
  return list(itertools.product([1, 2], [3, 4])), list(itertools.combinations(range(3), 2))


def seq_permutations(n):
  return list(itertools.permutations([1, 2, 3], 2))


def seq_accumulate(n):
  return list(itertools.accumulate([1, 2, 3, 4]))


def seq_reduce(xs):
  return functools.reduce(lambda u, v: u * 2 + v, [1, 2, 3])


def seq_bisect(n):
  v = [1, 3, 5, 7]
  return bisect.bisect_left(v, 3), bisect.bisect_right(v, 3), bisect.bisect(v, 4)


def seq_set(n):
  return len(set([1, 2, 2, 3])), 2 in {1, 2}


def seq_set_ops(n):
  a, b = {1, 2, 3}, {2, 3, 4}
  return sorted(a & b), sorted(a | b), sorted(a - b)


def seq_next(xs):
  return next(x for x in [3, 4, 5] if x > 3), next((x for x in [1] if x > 3), None)


def seq_iter(n):
  i = iter([1, 2, 3])
  return next(i), next(i), list(i)


def seq_gen(n):
  def g(k):
    for i in range(k):
      if i % 2:
        yield i
      yield -i
  return list(g(n))


def seq_gen_from(n):
  def g(k):
    yield 0
    yield from range(k)
  return list(g(n)), sum(g(n))


def seq_compare(n):
  return [1, 2] == [1, 2], (1, 2) < (1, 3), [1] != [2]


def seq_star_call(xs):
  def f(p, q, *r):
    return p + q + len(r)
  return f(*[1, 2, 3, 4])


# ---- dictionaries
def dict_basic(x):
  d = {'a': x, 'b': 2}
  d['c'] = d['a'] + 1
  del d['b']
  return d, len(d), 'b' in d, d.get('b', 9), list(d)


def dict_items(x):
  d = {'a': x, 'b': 2}
  return [(k, v) for k, v in d.items()], sum(d.values()), sorted(d.keys())


def dict_comp(n):
  d = {i: i * i for i in range(4)}
  return d[3], len(d)


def dict_update(x):
  d = dict(a=1, b=2)
  d.update({'b': x, 'c': 4})
  e = dict(d)
  e['a'] = 100
  return d, e


def dict_setdefault(n):
  d = {}
  for i in range(6):
    d.setdefault(i % 2, []).append(i)
  return d


def dict_defaultdict(n):
  d = defaultdict(list)
  for i in range(6):
    d[i % 3].append(i)
  return d[0], d[1], d[2]


def dict_counts(n):
  d = defaultdict(int)
  for w in ['p', 'q', 'p']:
    d[w] += 1
  return d['p'], d['q'], d['r']


def dict_ordered(n):
  d = OrderedDict()
  d['z'] = 1
  d['a'] = 2
  return list(d.keys()), list(d.values())


def dict_splat(x):
  a = {'p': 1}
  b = {**a, 'q': x}
  return b


def dict_kwargs(x):
  def f(p, q=2, **rest):
    return p + 10 * q + 100 * rest.get('r', 0)
  return f(1), f(1, r=3), f(**{'p': 1, 'q': 5})


def dict_pop(x):
  d = {'a': 1, 'b': x}
  v = d.pop('b')
  w = d.pop('zz', 4)
  return v, w, d


def dict_loop_conditional(xs):
  d = {}
  if xs[0] > 0:
    d['a'] = 1
  return d.get('a', 2)


def dict_tuple_keys(n):
  d = {(0, 1): 'u', (1, 0): 'v'}
  return d[(1, 0)], (0, 1) in d


def dict_dispatch(x):
  ops = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q}
  return ops['add'](x, 1), ops['sub'](x, 1)


# ---- control
def ctl_chain(x):
  return -1 < x < 1, 0 < x <= 2 < 3


def ctl_short(x):
  return (x > 0 and 5) or 7, x or 3, None or 4, not x > 0


def ctl_ternary(x, y):
  return x if x > y else y


def ctl_try(n):
  try:
    v = {'a': 1}['b']
  except KeyError:
    v = -1
  return v


def ctl_try_else(x):
  log = []
  try:
    log.append(1)
    if x > 0:
      raise ValueError('no')
    log.append(2)
  except ValueError:
    log.append(3)
  else:
    log.append(4)
  finally:
    log.append(5)
  return log


def ctl_try_return(x):
  try:
    if x > 0:
      return 1
    return 2
  finally:
    x = 9


def ctl_try_nested(x):
  def f(v):
    if v > 0:
      raise KeyError('k')
    return v
  try:
    return f(x)
  except (ValueError, KeyError):
    return 100


def ctl_try_loop(xs):
  bad = 0
  good = []
  for x in xs:
    try:
      if x < 0:
        raise ValueError('negative')
      good.append(x)
    except ValueError:
      bad += 1
  return good, bad


def ctl_try_index(xs):
  try:
    return xs[50]
  except IndexError:
    return -7


def ctl_try_zero(n):
  try:
    return 1 / 0
  except ZeroDivisionError:
    return 3


def ctl_custom(x):
  class Stop(Exception):
    pass
  try:
    if x > 0:
      raise Stop()
  except Stop:
    return 'stopped'
  return 'done'


def ctl_assert(x):
  assert x < 1.5, 'too large'
  return x


def ctl_raise(x):
  if x > 1.5:
    raise ValueError('too large')
  return x


def ctl_recursion(n):
  def fact(k):
    return 1 if k <= 1 else k * fact(k - 1)
  return fact(5)


def ctl_walrus(x):
  if (y := x * 2) > 1:
    return y
  return -y


def ctl_is(x):
  v = None
  w = v is None
  v = x
  return w, v is None, v is not None


def ctl_with(x):
  class M(object):
    def __enter__(self):
      log.append('in')
      return 5

    def __exit__(self, *a):
      log.append('out')
  log = []
  with M() as m:
    log.append(m)
  return log


def ctl_del(x):
  y = x
  del y
  y = 2
  return y


def ctl_unpack_swap(x, y):
  x, y = y, x
  (p, q), r = (x, y), 3
  return x, y, p, q, r


def ctl_global_const(x):
  return SQUARES[-1] * x


def ctl_isinstance(x):
  return isinstance([], list), isinstance(_Sub(1), _Box), isinstance(3, str), callable(len)


def ctl_getattr(x):
  b = _Box(x)
  setattr(b, 'extra', 5)
  return getattr(b, 'v'), getattr(b, 'nope', 8), hasattr(b, 'extra'), b.extra


def ctl_match_str(x):
  s = 'b'
  if s == 'a':
    return 1
  elif s in ('b', 'c'):
    return 2
  return 3


# ---- classes
def cls_inherit(x):
  s = _Sub(x)
  s.add(1)
  return s.v, s.double, s.log


def cls_operators(x):
  b = -(_Box(x) * 3)
  return b.v, _Box(1) == _Box(1), _Box(1) < _Box(2)


def cls_container(xs):
  b = _Box(0)
  for x in xs:
    b.add(x)
  return b[0], len(b), [v for v in b]


def cls_make(x):
  return _Box.make(x).v, _Box.twice(x), _Sub.make(x).double


def cls_method_value(x):
  b = _Box(x)
  f = b.add
  f(1)
  f(2)
  return b.v


def cls_namedtuple(x):
  p = Pair(x, 2)
  q = p._replace(right=5)
  l, r = q
  return p.left, p[1], l, r, len(p), p == (x, 2)


def cls_chain(x):
  return _Box(x).add(1).add(2).v


def cls_attr_default(x):
  class C(object):
    k = 4

    def __init__(self):
      self.j = self.k + 1
  c = C()
  c.k = 10
  return c.k, C.k, c.j


def cls_call(x):
  class F(object):
    def __call__(self, v):
      return v + 1
  return F()(x)


def cls_str(n):
  class F(object):
    def __str__(self):
      return 'F!'
  return str(F()), '{}'.format(F()), '%s' % F()


# ---- numbers and text
def num_div(x):
  return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 7 / 2, 2 ** 3, int(-2.7), round(2.6)


def num_divmod(n):
  return divmod(n, 3), n // 2, n % 2


def num_float(x):
  return int(x), abs(x), x // 1, math.floor(x), math.ceil(x), round(x), math.trunc(x)


def num_math(x):
  return math.sqrt(x * x + 1), math.atan2(x, 1.), math.exp(x), math.hypot(x, 1.), math.copysign(2., x), math.pi


def num_bool(x):
  return True + True, bool(0), bool([]), bool('a'), int(x > 0)


def num_compare(x, y):
  return x < y, x <= y, x == y, x != y, (x > y) == (y < x)


def num_minmax(x, y):
  return min(x, y), max(x, y, 0), min([x, y]), sorted([x, y])[0]


def num_clamp(x):
  return max(-1, min(1, x)), np.clip(x, -1, 1)


def num_bits(n):
  return 6 & 3, 6 | 1, 5 ^ 1, 1 << 3, 8 >> 1, ~0


def num_inf(x):
  return x < float('inf'), -math.inf < x, min(math.inf, x)


def str_format(n):
  return '{} {}'.format(1, 'a'), '%d-%s' % (3, 'b'), 'x' + str(4), f'{5}:{6}', '{a}{b}'.format(a=1, b=2)


def str_format_width(n):
  return '{:.3f}'.format(1.5), '%.2f' % 0.125, '{:03d}'.format(7), '%5.1f' % 2.25, '{:>4}'.format('a')


def str_ops(n):
  s = ' a,b ,c '
  return s.strip(), s.split(','), '-'.join(['p', 'q']), 'abc'[1:], 'abc'.upper(), 'a' in 'abc', s.replace('a', 'z')


def str_tests(n):
  return 'abc'.startswith('ab'), 'abc'.endswith('c'), 'abc'.find('c'), len('abc'), 'ab' * 2, 'b' > 'a'


def str_numbers(n):
  return float('1.5'), int('7'), str(2), str(True), repr('a')


def str_rsplit(n):
  return 'a/b/c'.rsplit('/', 1), 'a.b'.partition('.'), '12'.isdigit(), 'a b  c'.split()


# ---- numpy
def np_build(x):
  return np.array([1., x]), np.zeros((2, 2)), np.ones(3), np.eye(2), np.full(2, x), np.arange(4), np.arange(1, 3, 0.5)


def np_linspace(n):
  return np.linspace(0., 1., 5), np.linspace(0, 10, n)


def np_ops(a, b):
  return a + b, a * 2 - b, a / 2, -a, a ** 2, np.abs(a), a > b


def np_reduce(a):
  return np.sum(a), a.mean(), np.max(a), a.min(), np.argmax(a), a.argmin(), np.prod(a[:2])


def np_reduce_axis(M):
  return np.sum(M, axis=0), np.sum(M, axis=1), np.mean(M, axis=0), M.max(axis=1), M.sum()


def np_norms(M):
  return np.linalg.norm(M[0]), np.linalg.norm(M, axis=1), [np.linalg.norm(r) for r in M]


def np_dot(M):
  return np.dot(M[0], M[1]), M.dot(np.array([1., 2., 3.])), np.cross(M[0], M[1]), np.outer(M[0][:2], M[1][:2])


def np_matmul(n):
  A = np.array([[1., 2.], [3., 4.]])
  return A.dot(A), A @ np.array([1., 1.]), A.T, np.trace(A), np.linalg.det(A), np.linalg.inv(A)


def np_slices(a):
  return a[1:], a[:-1], a[::-1], a[::2], a[-1], a[1:-1]


def np_slices2(M):
  return M[:, 0], M[0, :], M[1:, 1:], M[:, [0, 2]], M[-1, -1], M[:, ::-1]


def np_mask(a):
  return a[a > 0], np.where(a > 0, a, 0), np.nonzero(a > 0)[0], np.count_nonzero(a > 0)


def np_mask_rows(M):
  return M[M[:, 0] > 0], M[:, 1][M[:, 0] > 0]


def np_mask_store(a):
  a[a < 0] = 0
  return a


def np_store_slice(a):
  a[1:3] = 5
  a[-1] = 7
  return a


def np_store_col(M):
  M[:, 1] = 4
  M[0] = np.array([1., 2., 3.])
  return M


def np_index_arr(a):
  return a[[2, 0]], a[np.array([1, 1])]


def np_argsort(a):
  i = np.argsort(a)
  return i, a[i], np.sort(a)


def np_stack(a, b):
  return np.vstack((a, b)), np.hstack((a, b)), np.column_stack((a, b)), np.concatenate([a, b]), np.stack([a, b], axis=1)


def np_append(a):
  return np.append(a, 1.), np.append([0.], a), np.insert(a, 0, 9.), np.delete(a, 0)


def np_shape(M):
  return M.shape[0], M.shape[1], M.ndim, M.size, len(M), M.T.shape[0]


def np_reshape(n):
  v = np.arange(6)
  return v.reshape(2, 3), v.reshape((3, 2)).T, v.reshape(-1, 2), np.ravel(v.reshape(2, 3)), v[:, np.newaxis]


def np_cum(a):
  return np.cumsum(a), np.diff(a), np.diff(a, n=1)


def np_logic(a):
  return np.all(a > -3), np.any(a > 1), np.logical_and(a > 0, a < 1), ~(a > 0), (a > 0) & (a < 1), (a > 1) | (a < -1)


def np_close(a):
  return np.isclose(a[0], a[0] + 1e-12), np.allclose(a, a + 1e-12), np.isclose(a, 0.), np.array_equal(a, a)


def np_search(n):
  v = np.array([1., 3., 5.])
  return np.searchsorted(v, 3.), np.searchsorted(v, 3., side='right'), np.searchsorted(v, [0., 4., 9.])


def np_interp(x):
  return np.interp(x, [-2., 0., 2.], [0., 1., 5.]), np.interp([0., 1.], [0., 2.], [0., 4.])


def np_stats(a):
  return np.std(a), np.var(a), np.median(np.array([3., 1., 2.])), np.percentile(np.array([1., 2., 3., 4.]), 50)


def np_round(x):
  return np.floor(x), np.ceil(x), np.sign(x), np.sqrt(x * x), np.round(2.567, 1)


def np_minmax(a, b):
  return np.maximum(a, b), np.minimum(a, 0), np.maximum(a[0], b[0]), np.clip(a, -1, 1)


def np_tile(n):
  v = np.array([1., 2.])
  return np.tile(v, 2), np.repeat(v, 2), np.tile(v, (2, 1)), np.roll(v, 1), np.flipud(v), np.fliplr(np.eye(2) * v)


def np_copy(a):
  b = a.copy()
  b[0] = 99
  return a[0], b[0]


def np_view_reshape(n):
  v = np.zeros(4)
  w = v.reshape(2, 2)
  w[0, 1] = 3
  return v


def np_asarray(xs):
  v = np.asarray(xs)
  return v * 2, np.array(xs)[::-1], list(np.array(xs))


def np_asarray_alias(a):
  v = np.asarray(a)
  v[0] = 3.
  return a[0]


def np_tolist(a):
  return a.tolist(), [float(v) for v in a], a.astype(int)


def np_iter(M):
  return [r[0] for r in M], [v for r in M for v in r], [list(c) for c in M.T]


def np_broadcast(M):
  return M - M[0], M * np.array([1., 2., 3.]), M / np.linalg.norm(M, axis=1)[:, None], M - np.mean(M, axis=0)


def np_unpack(M):
  x, y, z = M[0]
  return x + 2 * y + 3 * z


def np_zeros_like(a):
  v = np.zeros_like(a)
  v[0] = 1
  return v, np.ones_like(a)


def np_where_index(a):
  i = np.where(a > 0)[0]
  return len(i), i


def np_argmax_rows(M):
  return np.argmax(M, axis=1), np.argmin(np.abs(M[:, 0]))


def np_bool_index(a):
  keep = np.array([v > 0 for v in a])
  return a[keep], np.sum(keep)


def np_vector_norm(M):
  v = M[0] / np.linalg.norm(M[0])
  return v, np.sum(v ** 2)


def np_einsum(M):
  return np.sum(M * M, axis=1), np.multiply(M, 2), np.inner(M[0], M[1]), np.vdot(M[0], M[1])


def np_grow(xs):
  v = np.zeros((0, 2))
  for x in xs:
    v = np.vstack((v, np.array([x, 2 * x])))
  return v


def np_list_rows(M):
  rows = []
  for r in M:
    rows.append(r * 2)
  return np.array(rows), np.vstack(rows), np.asarray(rows)[:, 0]


def np_nan(a):
  return np.isnan(a), np.isfinite(a), np.nansum(a), np.isinf(a).any()


def np_unique(n):
  return np.unique(np.array([3, 1, 3])), np.bincount(np.array([0, 1, 1]))


# ---------------------------------------------------------------- mixed
def mix_pairs(xs):
  return [(b - a) for a, b in zip(xs[:-1], xs[1:])], [xs[i + 1] - xs[i] for i in range(len(xs) - 1)]


def mix_pairs_iter(xs):
  i = iter(xs)
  last = next(i)
  out = []
  for x in i:
    out.append(x - last)
    last = x
  return out


def mix_two_pointer(xs):
  i, j = 0, len(xs) - 1
  n = 0
  while i < j:
    if xs[i] > xs[j]:
      n += 1
    i += 1
    j -= 1
  return n


def mix_best_index(xs):
  best, at = -10., -1
  for i, x in enumerate(xs):
    if x > best:
      best, at = x, i
  return best, at, xs[at]


def mix_best_pair(xs, ys):
  best = None
  for x, y in zip(xs, ys):
    if best is None or x + y < best[0]:
      best = (x + y, x)
  return best


def mix_best_min(xs, ys):
  return min(zip(xs, ys), key=lambda p: p[0] * p[0] + p[1])


def mix_max_enumerate(xs):
  return max(enumerate(xs), key=lambda p: p[1])


def mix_sorted_desc(xs):
  return sorted(xs, reverse=True), sorted(xs, key=lambda v: -v)


def mix_argsort_list(xs):
  return sorted(range(len(xs)), key=lambda i: xs[i])


def mix_argsort_list2(xs):
  return sorted(range(len(xs)), key=xs.__getitem__)


def mix_sorted_pairs_key(xs, ys):
  return [y for _, y in sorted(zip(xs, ys), key=lambda p: p[0])]


def mix_while_not(xs):
  k = 0
  done = False
  while not done:
    k += 1
    if k >= len(xs) or xs[k] > 1:
      done = True
  return k


def mix_while_pop(xs):
  out = []
  work = list(xs)
  while work:
    v = work.pop()
    if v > 0:
      out.append(v)
  return out


def mix_while_pop0(xs):
  out = 0.
  work = list(xs)
  while len(work) > 1:
    out = out * 0.5 + work.pop(0)
  return out


def mix_for_range_len(xs):
  for i in range(len(xs)):
    xs[i] = xs[i] * 2
  return xs


def mix_enumerate_store(xs):
  for i, x in enumerate(xs):
    xs[i] = x + i
  return xs


def mix_neighbours(xs):
  return [0.5 * (xs[max(i - 1, 0)] + xs[min(i + 1, len(xs) - 1)]) for i in range(len(xs))]


def mix_window(xs):
  out = []
  for i in range(1, len(xs) - 1):
    out.append((xs[i - 1] + xs[i] + xs[i + 1]) / 3.)
  return out


def mix_window_sum(xs):
  return [sum(xs[max(0, i - 1):i + 1]) for i in range(len(xs))]


def mix_prefix(xs):
  out = [0.]
  for x in xs:
    out.append(out[-1] + x)
  return out


def mix_unwrap(xs):
  out = [xs[0]]
  for x in xs[1:]:
    while_shift = 0.
    if x - out[-1] > 1.:
      while_shift = -2.
    out.append(x + while_shift)
  return out


def mix_sign_flip(M):
  out = M.copy()
  for i in range(1, len(M)):
    if np.dot(out[i], out[i - 1]) < 0:
      out[i] = -out[i]
  return out


def mix_sign_flip_list(M):
  rows = [r for r in M]
  for i in range(1, len(rows)):
    if np.dot(rows[i], rows[i - 1]) < 0:
      rows[i] = -rows[i]
  return np.array(rows)


def mix_normalize_rows(M):
  out = []
  for r in M:
    n = np.linalg.norm(r)
    out.append(r / n if n > 0 else r)
  return np.vstack(out)


def mix_normalize_vec(M):
  return M / np.sqrt((M ** 2).sum(axis=1))[:, np.newaxis]


def mix_normalize_keep(M):
  return M / np.linalg.norm(M, axis=1, keepdims=True)


def mix_norm_apply(M):
  return np.apply_along_axis(np.linalg.norm, 1, M)


def mix_accumulate_matrix(xs):
  A = np.eye(2)
  for x in xs:
    A = A.dot(np.array([[1., x], [0., 1.]]))
  return A


def mix_vector_loop(xs):
  v = np.zeros(3)
  for x in xs:
    v += np.array([x, 1., x * x])
  return v


def mix_vector_loop_new(xs):
  v = np.zeros(3)
  for x in xs:
    v = v + np.array([x, 1., x * x])
  return v / len(xs)


def mix_fill(a):
  out = np.zeros(len(a))
  for i in range(len(a)):
    out[i] = a[i] ** 2
  return out


def mix_fill_rows(M):
  out = np.zeros((M.shape[0], 2))
  for i, r in enumerate(M):
    out[i, :] = r[1:]
  return out


def mix_fill_cols(a, b):
  out = np.empty((len(a), 2))
  out[:, 0] = a
  out[:, 1] = b
  return out


def mix_fill_shift(a):
  out = np.zeros_like(a)
  out[1:] = a[:-1]
  return out


def mix_fill_tail(a):
  out = np.empty(len(a))
  out[0] = 0.
  out[1:] = np.diff(a)
  return out


def mix_where_store(a):
  b = a.copy()
  b[np.abs(b) < 0.5] = 0.
  return b, a


def mix_where_first(a):
  i = np.where(a > 0.)[0]
  return i[0] if len(i) > 0 else -1


def mix_argmax_bool(a):
  return np.argmax(a > 0.5)


def mix_any_all(a):
  return bool(np.any(a > 1.5)), bool((a > -1.).all()), any(x > 1.5 for x in a), all(x > -1. for x in a)


def mix_count(xs):
  return sum(1 for x in xs if x > 0), len([x for x in xs if x > 0]), sum(x > 0 for x in xs)


def mix_count_np(a):
  return np.sum(a > 0), (a > 0).sum(), np.count_nonzero(a > 0), len(np.where(a > 0)[0]), len(a[a > 0])


def mix_rms(a):
  return np.sqrt(np.mean(np.square(a))), math.sqrt(sum(x * x for x in a) / len(a)), np.linalg.norm(a) / np.sqrt(len(a))


def mix_minmax_np(a):
  return a.max() - a.min(), np.ptp(a), max(a) - min(a)


def mix_interp(a, b):
  t = np.cumsum(np.abs(a)) + np.arange(len(a))
  return np.interp([0.5, 1.5], t, b)


def mix_cross(M):
  a, b = M[0], M[1]
  return np.cross(a, b), np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def mix_quat(x, y, z):
  v = np.array([x, y, z])
  n = np.linalg.norm(v)
  return np.concatenate((v / n * math.sin(n / 2.), [math.cos(n / 2.)]))


def mix_hstack(x, y):
  return np.hstack(([x], [y, 1.])), np.r_[x, y], np.concatenate([[x], [y]])


def mix_block(x, y):
  R = np.array([[x, -y], [y, x]])
  t = np.array([1., 2.])
  T = np.eye(3)
  T[:2, :2] = R
  T[:2, 2] = t
  return T, np.vstack((np.hstack((R, t.reshape(2, 1))), [0., 0., 1.]))


def mix_reshape(a):
  return np.array([a[:4]]).reshape(2, 2), a[:4].reshape((2, 2)).T.ravel(), a[:4].reshape(-1)


def mix_slices_set(n):
  a = np.zeros(6)
  a[0:3] = [1., 2., 3.]
  a[3:] = a[:3]
  a[-1] += 1
  return a


def mix_swap_rows(M):
  A = M[:3].copy()
  A[[0, 1]] = A[[1, 0]]
  return A


def mix_list_of_lists(xs):
  g = [[], []]
  for x in xs:
    g[0 if x > 0 else 1].append(x)
  return g


def mix_dict_of_lists(xs):
  g = {'pos': [], 'neg': []}
  for x in xs:
    g['pos' if x > 0 else 'neg'].append(x)
  return g['pos'], g['neg']


def mix_dict_accumulate(xs):
  d = {'n': 0, 'sum': 0.}
  for x in xs:
    d['n'] += 1
    d['sum'] += x
  return d['sum'] / d['n']


def mix_object_lists(xs):
  b = _Box(0.)
  for x in xs:
    if x > 0:
      b.add(x)
  return b.v, b.log


def mix_helper_closure(xs):
  limit = sum(xs) / len(xs)

  def above(v):
    return v > limit
  return [x for x in xs if above(x)]


def mix_helper_partial(xs):
  f = functools.partial(max, 0.)
  return [f(x) for x in xs]


def mix_lambda_table(x):
  ops = {'add': lambda v: v + 1, 'mul': lambda v: v * 2}
  return [ops[k](x) for k in ('add', 'mul')]


def mix_generator_pairs(xs):
  def pairs(v):
    for i in range(len(v) - 1):
      yield v[i], v[i + 1]
  return [b - a for a, b in pairs(xs)]


def mix_generator_filter(xs):
  def good(v):
    for x in v:
      if x > 0:
        yield x
  return sum(good(xs)), list(good(xs))


def mix_generator_state(xs):
  def running(v):
    t = 0.
    for x in v:
      t += x
      yield t
  return list(running(xs))


def mix_nested_func_default(xs):
  def f(v, k=2.):
    return v * k
  return [f(x) for x in xs], [f(x, k=3.) for x in xs]


def mix_early(xs):
  for i, x in enumerate(xs):
    if x > 1.2:
      return i
  return None


def mix_early_nested(xs, ys):
  for i, x in enumerate(xs):
    for j, y in enumerate(ys):
      if x > y + 1:
        return i, j
  return -1, -1


def mix_next_default(xs):
  return next((i for i, x in enumerate(xs) if x > 1.2), None)


def mix_flags(xs):
  seen = False
  n = 0
  for x in xs:
    if not seen and x > 0:
      seen = True
      continue
    if seen:
      n += 1
  return n


def mix_try_value(n):
  out = []
  for s in ('1', 'x', '2.5'):
    try:
      out.append(float(s))
    except ValueError:
      out.append(None)
  return out


def mix_cond_expr(x, y):
  return (x if x > y else y), (x > y and x or y), max(x, y), [y, x][x > y]


def mix_chain_compare(x, y):
  return 0 < x < y, not (x >= y or x <= 0)


def mix_sign(x):
  return np.sign(x), (x > 0) - (x < 0), math.copysign(1., x)


def mix_abs(x):
  return abs(x), np.abs(x), math.fabs(x), max(x, -x), x if x >= 0 else -x


def mix_clip(x):
  return np.clip(x, -1., 1.), max(-1., min(1., x)), min(max(x, -1.), 1.)


def mix_power(x):
  return x ** 2, pow(x, 2), np.power(x, 2), np.square(x), x * x


def mix_fstring(n):
  k = 3
  return f'{k:02d}_{"a"}', '%02d_%s' % (k, 'a'), '{:02d}_{}'.format(k, 'a'), '_'.join(['03', 'a'])


def mix_star_args(xs):
  def f(a, b, *rest):
    return a + b, len(rest)
  return f(1, 2, 3, 4), f(*[1, 2])


def mix_kw_only(x):
  def f(a, *, scale=1., **kw):
    return a * scale + kw.get('bias', 0.)
  return f(x, scale=2., bias=1.), f(x)


def mix_unpack_nested(n):
  (a, b), c = (1, 2), 3
  [d, (e, f)] = [4, (5, 6)]
  return a + b + c + d + e + f


def mix_zip_unpack(M):
  return [x * y + z for x, y, z in M], [r.sum() for r in M]


def mix_zip_rows(M, a):
  return [r[0] + v for r, v in zip(M, a)][:2]


def mix_transpose_unpack(M):
  x, y, z = M.T
  return x + y * z


def mix_transpose_rows(M):
  return M.T[0], M.T[1:].T, M.T.shape[1], M.transpose()[2]


def mix_stack_T(a, b):
  return np.vstack((a, b)).T, np.array([a, b]).T, np.array([a, b])[0], np.stack((a, b), -1), np.c_[a, b]


def mix_array_pairs(xs, ys):
  return np.array(list(zip(xs, ys))), np.array([[x, y] for x, y in zip(xs, ys)])


def mix_any_row(M):
  return [i for i in range(len(M)) if np.all(M[i] > -1.)], np.where(np.all(M > -1., axis=1))[0]


def mix_mean_rows(M):
  return M.mean(axis=0), np.mean(M, 0), sum(M) / len(M), np.sum(M, axis=0) / M.shape[0]


def mix_dist(M):
  return np.linalg.norm(M[1:] - M[:-1], axis=1), [np.linalg.norm(b - a) for a, b in zip(M, M[1:])]


def mix_searchsorted(x):
  t = np.array([0., 1., 2., 3.])
  return np.searchsorted(t, x), bisect.bisect_left([0., 1., 2., 3.], x), int(np.sum(t < x))


def mix_percentile(a):
  return np.median(a), np.percentile(a, 50)


def mix_int(x):
  return int(x), math.floor(x), int(round(2.4)), x // 1, x % 1.


def mix_modulo(n):
  return n % 3, divmod(n, 2), n // 2, -n // 2


def mix_range_steps(n):
  return list(range(0, n, 2)), [i for i in range(n) if i % 2 == 0], list(range(n - 1, -1, -1))


def mix_islice(xs):
  return list(itertools.islice(xs, 2)), list(itertools.islice(xs, 1, 3)), list(itertools.islice(xs, 1, None))


def mix_repeat(xs):
  return list(itertools.repeat(1, 3)), list(zip(xs, itertools.repeat(2.)))


def mix_count_zip(xs):
  return [i + x for i, x in zip(itertools.count(1), xs)]


def mix_takewhile(xs):
  return list(itertools.takewhile(lambda v: v < 1., xs)), list(itertools.dropwhile(lambda v: v < 1., xs))


def mix_combinations(n):
  return list(itertools.combinations(range(4), 2)), sum(1 for _ in itertools.combinations(range(5), 3))


def mix_starmap(xs, ys):
  return list(itertools.starmap(lambda p, q: p * q, zip(xs, ys))), list(map(lambda p, q: p * q, xs, ys))


def mix_groupby_manual(xs):
  runs = []
  for x in xs:
    if runs and (runs[-1][-1] > 0) == (x > 0):
      runs[-1].append(x)
    else:
      runs.append([x])
  return len(runs)


def mix_copy_list(xs):
  a, b, c, d = xs[:], list(xs), xs.copy(), [x for x in xs]
  a[0] = 9.
  b.append(1.)
  return xs, len(b), c, d


def mix_del(xs):
  ys = list(xs)
  del ys[0]
  del ys[-1]
  return ys


def mix_insert(xs):
  ys = list(xs)
  ys.insert(0, 5.)
  ys[1:2] = [7., 8.]
  return ys


def mix_property(x):
  p = Pair(x, 2.)
  return p.left, p[1], p._replace(right=1.), p == (x, 2.), p._asdict()['left']


def mix_out(a, b):
  c = a.copy()
  np.add(a, b, out=c)
  d = a.copy()
  np.clip(d, -0.5, 0.5, out=d)
  return c, d


def mix_pop_objects(x, y):
  class Box(object):
    def __init__(self, v):
      self.v = v
  boxes = [Box(x), Box(y)]
  kept = list(boxes)
  i = 0
  while i < len(kept):
    if kept[i].v > 0:
      kept.pop(i)
    else:
      i += 1
  for k in kept:
    k.v = 7.
  return [b.v for b in boxes]
