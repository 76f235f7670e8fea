"""Summaries of library calls that touch files, processes and the command line.

Nothing is opened or started: every such call appends an event to a log kept as a
list object of the abstract heap, so branches join it and loops summarise it like
any other list.  Reading a file written before on the same path yields what was
written, any other file has unknown, but fixed content.
"""
import re
import shlex
from . import terms as T
from .terms import mk, num, atom, tup, unk, TRUE, FALSE, NONE, bnot, band
from .interp import Obj, Raises
from .npmodel import mkstr, isstr, A, out

WORLD = -1
TEXT = '''
from vfasys import event, content, exit_code, fail_if, still_running, mtime_of

class File(object):
  def __init__(self, name, mode):
    self.name = name
    self.mode = mode
    event('open', name, mode)
  def write(self, text):
    event('write', self.name, text)
  def writelines(self, lines):
    for l in lines:
      self.write(l)
  def read(self):
    return content(self.name)
  def flush(self):
    pass
  def close(self):
    pass
  def fileno(self):
    return 3
  def __enter__(self):
    return self
  def __exit__(self, a, b, c):
    return None

class Process(object):
  def __init__(self, argv):
    self.args = argv
    self.returncode = None
  def wait(self, timeout=None):
    if self.returncode is None:
      self.returncode = exit_code(self.args)
    return self.returncode
  def poll(self):
    if self.returncode is None:
      return still_running()
    return self.returncode
  def communicate(self, input=None, timeout=None):
    self.wait()
    return (None, None)
  def check_returncode(self):
    fail_if(self.returncode != 0)
  def __enter__(self):
    return self
  def __exit__(self, a, b, c):
    self.wait()

class Writer(object):
  def __init__(self, f, delimiter, end):
    self.f = f
    self.delimiter = delimiter
    self.end = end
  def writerow(self, row):
    self.f.write(self.delimiter.join([str(x) for x in row]) + self.end)
  def writerows(self, rows):
    for r in rows:
      self.writerow(r)

class Pool(object):
  def __init__(self, processes=None):
    pass
  def map(self, f, l, chunksize=None):
    out = []
    for x in l:
      out.append(f(x))
    return out
  def starmap(self, f, l, chunksize=None):
    out = []
    for x in l:
      out.append(f(*x))
    return out
  def imap(self, f, l, chunksize=None):
    out = []
    for x in l:
      out.append(f(x))
    return out
  def close(self):
    pass
  def join(self):
    pass
  def terminate(self):
    pass
  def __enter__(self):
    return self
  def __exit__(self, a, b, c):
    return None

class Namespace(object):
  pass
'''
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def world(st):
    if WORLD not in st.heap:
        st.heap[WORLD] = Obj('list', T.flist([]))
    return mk('ref', WORLD)


def log(it, st):
    return it.freeze(st, world(st))


def strsym(name):
    return mk('app', 'str', mk('app', 'strsym', name))


def emit(it, st, kind, *args):
    it.np.list_append(it, st, world(st), tup([T.const(kind)] + [it.freeze(st, a) for a in args]))


def make(it, st, cls, *args):
    return it.construct(st, mk('cls', 'vfasysmod', cls), list(args), {}, None)


@model('vfasys.event')
def m_event(it, st, args, kw, node):
    emit(it, st, args[0].args[0], *args[1:])
    return NONE


def file_content(it, st, path):
    path = it.freeze(st, path)
    l = log(it, st)
    if l.op not in ('flist',):
        return mk('app', 'content', path, l)
    chunks = None
    for e in l.args:
        if e.op != 'tup':
            return mk('app', 'content', path, l)
        if e.args[1] is not path:
            continue
        k = e.args[0].args[0]
        if k == 'open':
            m = e.args[2]
            if m.op != 'const':
                return mk('app', 'content', path, l)
            if 'w' in m.args[0]:
                chunks = []
            elif 'a' in m.args[0] and chunks is None:
                chunks = [mk('app', 'file', path)]
        elif k == 'write':
            if chunks is None:
                chunks = [mk('app', 'file', path)]
            chunks.append(e.args[2])
    if chunks is None:
        return mk('app', 'file', path)
    if len(chunks) == 1:
        return chunks[0]
    return mkstr(chunks)    # '' if nothing was written


@model('vfasys.content')
def m_content(it, st, args, kw, node):
    return file_content(it, st, args[0])


def exit_code(it, argv):
    """exit code of a started process: fixed but unknown, unless the scene tells"""
    h = getattr(it, 'exits', None)
    return h(argv) if h else T.napp('exit', argv)


@model('vfasys.exit_code')
def m_exit(it, st, args, kw, node):
    return exit_code(it, it.freeze(st, args[0]))


@model('vfasys.still_running')
def m_running(it, st, args, kw, node):
    return unk('state of a process')


@model('sys.exit', 'exit', 'quit', 'os._exit')
def m_sysexit(it, st, args, kw, node):
    raise Raises('exit', ('SystemExit', args[0] if args else NONE))


@model('vfasys.fail_if')
def m_fail(it, st, args, kw, node):
    fail(it, st, it.truth(st, args[0]), node)
    return NONE


def fail(it, st, c, node):
    if c is TRUE:
        raise Raises('failed process', ('subprocess.CalledProcessError', None))
    if c is not FALSE:
        it.raises.append((band(it.cur_pc(st), c), node, it.fname(), 'failed process'))


# ---------------------------------------------------------------- files
@model('open', 'io.open', 'codecs.open')
def m_open(it, st, args, kw, node):
    mode = kw.get('mode', args[1] if len(args) > 1 else T.const('r'))
    if mode.op == 'const' and not (isinstance(mode.args[0], str) and set(mode.args[0]) & set('rwax')):
        raise Raises('invalid mode')
    if args and args[0] is NONE:
        raise Raises('no file name', ('TypeError', None))
    return make(it, st, 'File', args[0], mode)


def fileobj(it, st, v):
    return v.op == 'ref' and st.heap[v.args[0]].kind == 'inst' and st.heap[v.args[0]].cls == ('vfasysmod', 'File')


def text_of(it, st, v):
    """content behind a file object or path"""
    if fileobj(it, st, v):
        v = st.heap[v.args[0]].data['name']
    return file_content(it, st, v)


def put(it, st, v, chunk):
    if fileobj(it, st, v):
        emit(it, st, 'write', st.heap[v.args[0]].data['name'], chunk)
    elif v.op in ('nd', 'nds', 'rat') or v.op == 'ref' and st.heap[v.args[0]].kind != 'inst':
        raise Raises('not a file')
    else:
        emit(it, st, 'open', v, T.const('w'))
        emit(it, st, 'write', v, chunk)


def part(c, name):
    """payload of a content made by one writer call"""
    if c.op == 'app' and c.args[0] == 'str' and len(c.args) == 2:
        c = c.args[1]
    if c.op == 'app' and c.args[0] == name:
        return c
    return None


@model('json.dump', 'yaml.dump', 'yaml.safe_dump')
def m_jdump(it, st, args, kw, node):
    if len(args) < 2 and 'fp' not in kw:
        return m_jdumps(it, st, args, kw, node)
    put(it, st, args[1] if len(args) > 1 else kw['fp'], mk('app', 'json', it.freeze(st, args[0])))
    return NONE


@model('json.dumps')
def m_jdumps(it, st, args, kw, node):
    return mk('app', 'str', mk('app', 'json', it.freeze(st, args[0])))


def jload(it, st, c):
    p = part(c, 'json')
    if c is T.const(''):
        raise Raises('empty file')
    return it.thaw(st, p.args[1]) if p is not None else mk('app', 'jsonload', c)


@model('json.load', 'yaml.safe_load', 'yaml.load', 'yaml.full_load')
def m_jload(it, st, args, kw, node):
    if isstr(args[0]):
        return jload(it, st, args[0])
    return jload(it, st, text_of(it, st, args[0]))


@model('json.loads')
def m_jloads(it, st, args, kw, node):
    return jload(it, st, it.freeze(st, args[0]))


@model('np.savetxt')
def m_savetxt(it, st, args, kw, node):
    x = it.freeze(st, args[1])
    fmt = kw.get('fmt', args[2] if len(args) > 2 else T.const('%.18e'))
    delim = kw.get('delimiter', args[3] if len(args) > 3 else T.const(' '))
    put(it, st, args[0], mk('app', 'table', x, fmt, delim, kw.get('header', T.const(''))))
    return NONE


def formatted(it, st, fmt, v):
    return T.lift(lambda y: T.napp('fmtnum', fmt, y), v)


COLUMNS = {}


def columns(path):
    for n, c in COLUMNS.items():
        if n in T.show(path):
            return c
    return 8


def rows(it, st, content, delim, node):
    """numeric rows of a text table"""
    p = part(content, 'table')
    if p is None:
        w = columns(content)
        if w > 1 and delim.op == 'const' and delim.args[0].strip() != ',':
            raise Raises('columns separated by commas read with delimiter %r' % delim.args[0])
        return it.new_sarr(st, mk('symseq', mk('app', 'csvrows', content), atom(mk('app', 'ncsv', content)),
                                  ('arr', (w,))), (w,))
    x, fmt, d, header = p.args[1:]
    if d.op == 'const' and delim.op == 'const' and d.args[0].strip() != delim.args[0].strip():
        # the whole line is one field
        if not (x.op == 'farr' and len(x.args[0]) == 1):
            raise Raises('columns separated by %r read with delimiter %r' % (d.args[0], delim.args[0]))
    if header is not T.const(''):
        raise Raises('header line read as numbers')
    v = it.thaw(st, x)
    f = lambda y: formatted(it, st, fmt, y)
    if v.op == 'nd' and len(v.args[2]) == 1:
        es = [f(y) for y in it.nd_elems(st, v)]
        return it.new_arr(st, (len(es), 1), es)
    if v.op == 'nd':
        return it.new_arr(st, v.args[2], [f(y) for y in it.nd_elems(st, v)])
    if v.op == 'nds':
        x = it.freeze(st, v)
        inner = x.args[0]
        g = (lambda e: T.farr(inner, [f(y) for y in e.args[1]])) if inner else f
        s = it.seq_map(x.args[1], lambda e: T.lift(g, e))
        if not inner:
            s = it.seq_map(s, lambda e: T.farr((1,), [e]))
            inner = (1,)
        return it.new_sarr(st, s, inner)
    return unk('table')


@model('csv.reader')
def m_csvreader(it, st, args, kw, node):
    d = kw.get('delimiter', args[1] if len(args) > 1 and isstr(args[1]) else T.const(','))
    return rows(it, st, text_of(it, st, args[0]), d, node)


@model('np.loadtxt', 'np.genfromtxt')
def m_loadtxt(it, st, args, kw, node):
    d = kw.get('delimiter', T.const(' '))
    for k in kw:
        if k not in ('delimiter', 'dtype', 'ndmin'):
            return NotImplemented
    return rows(it, st, text_of(it, st, args[0]), d, node)


@model('csv.writer')
def m_csvwriter(it, st, args, kw, node):
    return make(it, st, 'Writer', args[0], kw.get('delimiter', T.const(',')), kw.get('lineterminator', T.const('\r\n')))


@model('os.path.exists', 'os.path.isfile', 'os.path.isdir')
def m_exists(it, st, args, kw, node):
    return T.bool_atom(mk('app', 'exists', it.freeze(st, args[0])))


@model('os.path.getmtime')
def m_mtime(it, st, args, kw, node):
    return T.napp('mtime', it.freeze(st, args[0]))


@model('os.path.dirname')
def m_dirname(it, st, args, kw, node):
    v = it.freeze(st, args[0])
    ps = pieces(v) if isstr(v) else [v]
    for i in range(len(ps) - 1, -1, -1):
        if isinstance(ps[i], str) and '/' in ps[i]:
            return mkstr([T.const(p) if isinstance(p, str) else p for p in ps[:i]] + [T.const(ps[i].rpartition('/')[0])])
        if not isinstance(ps[i], str) and ps[i].op != 'rat':
            break
    else:
        return T.const('')
    return mk('app', 'str', mk('app', 'dirname', it.freeze(st, args[0])))


@model('os.path.basename')
def m_basename(it, st, args, kw, node):
    return mk('app', 'str', mk('app', 'basename', it.freeze(st, args[0])))


@model('os.path.splitext')
def m_splitext(it, st, args, kw, node):
    p = it.freeze(st, args[0])
    return tup([mk('app', 'str', mk('app', 'splitext', p, i)) for i in range(2)])


@model('os.path.split')
def m_split(it, st, args, kw, node):
    return tup([m_dirname(it, st, args, kw, node), m_basename(it, st, args, kw, node)])


@model('os.path.join')
def m_pjoin(it, st, args, kw, node):
    ps = []
    for i, a in enumerate(args):
        if i:
            ps.append(T.const('/'))
        ps.append(it.freeze(st, a))
    return mkstr(ps)


@model('os.makedirs', 'os.mkdir')
def m_makedirs(it, st, args, kw, node):
    emit(it, st, 'makedirs', args[0])
    return NONE


@model('os.remove', 'os.unlink')
def m_remove(it, st, args, kw, node):
    emit(it, st, 'remove', args[0])
    return NONE


# ---------------------------------------------------------------- processes
def launch(it, st, argv, shell=FALSE):
    """argument list of a started process"""
    text = isstr(argv)
    if text:
        # without a shell the text is the name of the program
        argv = split(it, st, argv) if shell is TRUE else T.flist([argv]) if shell is FALSE else unk('shell')
    argv = it.freeze(st, argv)
    if shell is TRUE and not text and argv.op in ('flist', 'tup') and len(argv.args) > 1:
        # further words become arguments of the shell
        argv = T.flist(argv.args[:1])
    emit(it, st, 'launch', argv)
    return argv


def shell_of(it, st, args, kw):
    return it.truth(st, kw.get('shell', args[8] if len(args) > 8 else FALSE))


@model('subprocess.Popen')
def m_popen(it, st, args, kw, node):
    argv = launch(it, st, args[0] if args else kw['args'], shell_of(it, st, args, kw))
    return make(it, st, 'Process', it.thaw(st, argv))


@model('subprocess.call')
def m_call(it, st, args, kw, node):
    return exit_code(it, launch(it, st, args[0] if args else kw['args'], shell_of(it, st, args, kw)))


@model('os.system')
def m_system(it, st, args, kw, node):
    return T.rmul(num(256), exit_code(it, launch(it, st, args[0], TRUE)))


@model('subprocess.check_call', 'subprocess.check_output')
def m_check_call(it, st, args, kw, node):
    c = exit_code(it, launch(it, st, args[0] if args else kw['args'], shell_of(it, st, args, kw)))
    fail(it, st, bnot(T.eq(c, T.ZERO)), node)
    return T.ZERO


@model('subprocess.run')
def m_run(it, st, args, kw, node):
    argv = launch(it, st, args[0] if args else kw['args'], shell_of(it, st, args, kw))
    p = make(it, st, 'Process', it.thaw(st, argv))
    st.heap[p.args[0]].data['returncode'] = exit_code(it, argv)
    if kw.get('check', FALSE) is not FALSE:
        code = st.heap[p.args[0]].data['returncode']
        fail(it, st, band(it.truth(st, kw['check']), bnot(T.eq(code, T.ZERO))), node)
    return p


@model('multiprocessing.Pool', 'multiprocessing.pool.ThreadPool')
def m_pool(it, st, args, kw, node):
    return make(it, st, 'Pool')


def pieces(v):
    if v.op == 'const':
        return [v.args[0]]
    return [p.args[0] if p.op == 'const' and isinstance(p.args[0], str) else p for p in v.args[1:]]


def split(it, st, v):
    """words of a command line; inserted values are taken to be one word each"""
    if not isstr(v):
        return unk('command line')
    vals = []
    s = ''
    for p in pieces(v):
        if isinstance(p, str):
            s += p
        else:
            s += '\x01%d\x02' % len(vals)
            vals.append(p)
    try:
        words = shlex.split(s)
    except ValueError:
        raise Raises('command line cannot be split')
    outw = []
    for w in words:
        ps = []
        for q in re.split('(\x01\\d+\x02)', w):
            if q.startswith('\x01'):
                ps.append(vals[int(q[1:-1])])
            elif q:
                ps.append(T.const(q))
        outw.append(mkstr(ps) if len(ps) != 1 or ps[0].op == 'const' or isstr(ps[0]) else mk('app', 'str', ps[0]))
    return it.new_list(st, T.flist(outw))


@model('shlex.split')
def m_shlex(it, st, args, kw, node):
    v = args[0]
    if v.op == 'dec':
        return it.lift_st(st, lambda s, x: split(it, s, x), v)
    return split(it, st, v)


# ---------------------------------------------------------------- command line
@model('argparse.ArgumentParser', 'argparse.ArgumentParser.add_argument_group')
def m_parser(it, st, args, kw, node):
    it.parsers = getattr(it, 'parsers', [])
    it.parsers.append([])
    return mk('parser', len(it.parsers) - 1)


@model('parser.add_argument')
def m_add(it, st, args, kw, node):
    names = [a.args[0] for a in args[1:] if a.op == 'const']
    if not names:
        it.note('option without constant name', node)
        it.open_parsers = getattr(it, 'open_parsers', set()) | {args[0].args[0]}
        return NONE
    long = [n for n in names if n.startswith('--')] or names
    dest = kw['dest'].args[0] if 'dest' in kw and kw['dest'].op == 'const' else long[0].lstrip('-').replace('-', '_')
    it.parsers[args[0].args[0]].append({
        'names': names, 'dest': dest, 'kw': {k: it.freeze(st, v) for k, v in kw.items()},
        'positional': not names[0].startswith('-'), 'node': node})
    return NONE


@model('parser.add_argument_group', 'parser.add_mutually_exclusive_group')
def m_group(it, st, args, kw, node):
    return args[0]


@model('parser.set_defaults', 'parser.print_help')
def m_noop(it, st, args, kw, node):
    return NONE


def arg_value(it, st, o):
    kw, d = o['kw'], o['dest']
    act = kw.get('action')
    if act is not None and act.op == 'const' and act.args[0] in ('store_true', 'store_false'):
        return T.bool_atom(mk('app', 'argbool', d))
    ty = kw.get('type')
    nargs = kw.get('nargs')
    if ty is None or ty is mk('bi', 'str'):
        kind, v = 'str', strsym('arg:' + d)
    elif ty.op == 'bi' and ty.args[0] in ('int', 'float'):
        kind, v = 'num', atom(mk('app', 'argnum', d))
    else:
        kind, v = 'num', T.bool_atom(mk('app', 'argbool', d))
    if nargs is not None:
        v = it.new_list(st, mk('symseq', T.sym('arg:' + d), atom(T.sym('#arg:' + d)), kind))
    return v


@model('parser.parse_args', 'parser.parse_known_args')
def m_parse(it, st, args, kw, node):
    d = {}
    if args[0].args[0] in getattr(it, 'open_parsers', ()) or \
            any(x[0] in ('keyword splat', 'star arguments') for x in it.notes):
        return unk('options are not determined')
    preset = getattr(it, 'argvals', {})
    for o in it.parsers[args[0].args[0]]:
        if o['dest'] in preset:
            d[o['dest']] = preset[o['dest']](it, st)
            continue
        v = arg_value(it, st, o)
        req = o['kw'].get('required')
        if not (req is TRUE or o['positional']) and 'action' not in o['kw']:
            df = o['kw'].get('default', NONE)
            if df is NONE:
                v = T.ite(T.bool_atom(mk('app', 'given', o['dest'])), v, NONE)
        d[o['dest']] = v
    return it.alloc(st, Obj('inst', d, ('vfasysmod', 'Namespace')))


# ---------------------------------------------------------------- text
def str_method(name):
    def g(it, st, args, kw, node):
        v = args[0]
        if v.op != 'app' or any(a.op not in ('const', 'rat', 'app') for a in args[1:]) or kw:
            return NotImplemented
        if name == 'split':
            if len(args) == 2 and args[1].op == 'const':
                return text_split(it, st, v, args[1].args[0])
            return NotImplemented
        if name in ('startswith', 'endswith'):
            return T.bool_atom(mk('app', 'strmeth', name, v, *args[1:]))
        if name in ('lower', 'upper') and len(args) == 1:
            return mkstr([T.const(getattr(p, name)()) if isinstance(p, str) else
                          T.const(getattr(str(p is TRUE), name)()) if p is TRUE or p is FALSE else
                          p if p.op == 'rat' and T.int_value(p) is not None else mk('app', 'strmeth', name, p)
                          for p in pieces(v)])
        return mk('app', 'str', mk('app', 'strmeth', name, v, *args[1:]))
    return g


def text_split(it, st, v, sep):
    """fields of a text whose inserted values do not contain the separator"""
    if not sep:
        return unk('split')
    fields = [[]]
    for p in pieces(v):
        if isinstance(p, str):
            for i, q in enumerate(p.split(sep)):
                if i:
                    fields.append([])
                if q:
                    fields[-1].append(T.const(q))
        else:
            fields[-1].append(p)
    return it.new_list(st, T.flist([mkstr(f) if len(f) != 1 or f[0].op == 'const' else mk('app', 'str', f[0])
                                    for f in fields]))


for _n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'split', 'title'):
    MODELS['text.' + _n] = str_method(_n)


def install(it):
    it.models.update(MODELS)
