"""Shell scripts: the commands a script starts, and what it does when one of them fails.

A word is a list of pieces: plain text, ('arg', n), ('env', name), or (function, word) for the
output of basename and dirname.  The script is followed statement by statement; tests whose
outcome is not known are followed both ways.  Loops, patterns and other constructs make the
script unknown.
"""
import re


class Unknown(Exception):
    pass


class Exit(Exception):
    pass


class Return(Exception):
    pass


class Command:
    def __init__(self, words, line):
        self.words, self.line = words, line

    @property
    def text(self):
        return [plain(w) for w in self.words]


def plain(w):
    return w[0] if len(w) == 1 and isinstance(w[0], str) else '' if not w else None


def parens(text, i):
    """index after the bracket that closes the one at i"""
    d = 0
    while True:
        c = text[i]
        if c == '\\':
            i += 1
        elif c == "'":
            i = text.index("'", i + 1)
        d += {'(': 1, ')': -1}.get(c, 0)
        i += 1
        if d == 0:
            return i


def braces(text, i):
    d = 0
    while True:
        d += {'{': 1, '}': -1}.get(text[i], 0)
        i += 1
        if d == 0:
            return i


def tokens(text):
    """(kind, value, line): kind 'word' with its raw text, or 'op'"""
    out, i, line, n = [], 0, 1, len(text)
    word, start = None, 1

    def end():
        nonlocal word
        if word is not None:
            out.append(('word', word, start))
            word = None
    while i < n:
        c = text[i]
        if c == '\\' and text[i:i + 2] == '\\\n':
            i += 2
            line += 1
            continue
        if c in ' \t':
            end()
        elif c == '\n':
            end()
            out.append(('op', '\n', line))
            line += 1
        elif c == '#' and word is None:
            while i < n and text[i] != '\n':
                i += 1
            continue
        elif c in ';&|<>()':
            d = text[i:i + 2]
            if c in '<>' and word is not None and word.isdigit():
                word = None
            else:
                end()
            if text[i:i + 3] == '<<<' or d == '<<':
                raise Unknown('here document')
            if d in ('&&', '||', '>>', ';;', '>&', '&>', '<&'):
                out.append(('op', d, line))
                i += 1
            else:
                out.append(('op', c, line))
        else:
            if word is None:
                word, start = '', line
            if c == '\\':
                word += text[i:i + 2]
                i += 1
            elif c == "'":
                j = text.index("'", i + 1)
                word += text[i:j + 1]
                line += text.count('\n', i, j)
                i = j
            elif c == '"' or c == '`':
                j = i + 1
                while text[j] != c:
                    if text[j:j + 2] == '$(' and c == '"':
                        j = parens(text, j + 1)
                    else:
                        j += 2 if text[j] == '\\' else 1
                word += text[i:j + 1]
                line += text.count('\n', i, j)
                i = j
            elif c == '$' and text[i:i + 2] == '$(':
                j = parens(text, i + 1)
                word += text[i:j]
                i = j - 1
            elif c == '$' and text[i:i + 2] == '${':
                j = braces(text, i + 1) - 1
                word += text[i:j + 1]
                i = j
            else:
                word += c
        i += 1
    end()
    out.append(('op', '\n', line))
    return out


# ---------------------------------------------------------------- structure
class Parser:
    def __init__(self, text):
        self.toks = tokens(text)
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ('end', '', 0)

    def take(self):
        t = self.peek()
        self.i += 1
        return t

    def word(self, *ws):
        t = self.peek()
        return t[0] == 'word' and t[1] in ws

    def op(self, *ws):
        t = self.peek()
        return t[0] == 'op' and t[1] in ws

    def skip(self):
        while self.op('\n'):
            self.i += 1

    def need(self, w):
        self.skip()
        if self.take()[1] != w:
            raise Unknown('expected ' + w)

    def list(self, *stop):
        out = []
        while True:
            while self.op('\n', ';'):
                self.i += 1
            if self.peek()[0] == 'end' or self.word(*stop) or self.op(*stop):
                return ('list', out)
            x = self.andor()
            if self.op('&'):
                self.i += 1
                x = ('back', x)
            out.append(x)

    def andor(self):
        x = self.pipeline()
        while self.op('&&', '||'):
            o = self.take()[1]
            self.skip()
            x = (o, x, self.pipeline())
        return x

    def pipeline(self):
        neg = self.word('!')
        if neg:
            self.i += 1
        xs = [self.command()]
        while self.op('|'):
            self.i += 1
            self.skip()
            xs.append(self.command())
        x = xs[0] if len(xs) == 1 else ('pipe', xs)
        return ('not', x) if neg else x

    def command(self):
        if self.op('('):
            self.i += 1
            x = self.list(')')
            self.need(')')
            return self.redirs(('sub', x))
        if self.word('{'):
            self.i += 1
            x = self.list('}')
            self.need('}')
            return self.redirs(x)
        if self.word('if'):
            self.i += 1
            arms, other = [], None
            c = self.list('then')
            self.need('then')
            arms.append((c, self.list('elif', 'else', 'fi')))
            while self.word('elif'):
                self.i += 1
                c = self.list('then')
                self.need('then')
                arms.append((c, self.list('elif', 'else', 'fi')))
            if self.word('else'):
                self.i += 1
                other = self.list('fi')
            self.need('fi')
            return self.redirs(('if', arms, other))
        if self.word('for', 'while', 'until', 'case', 'select', 'coproc', 'time'):
            raise Unknown(self.peek()[1])
        if self.word('function'):
            self.i += 1
            n = self.take()[1]
            if self.op('('):
                self.i += 1
                self.need(')')
            self.skip()
            return ('def', n, self.command())
        words, line = [], self.peek()[2]
        if self.word('[['):
            while not self.word(']]'):
                words.append(self.take()[1])
            self.i += 1
            return ('simple', words, line)
        while True:
            t = self.peek()
            if t[0] == 'word':
                words.append(t[1])
                self.i += 1
            elif t[0] == 'op' and t[1] in ('<', '>', '>>', '>&', '&>', '<&'):
                self.i += 1
                self.take()
            elif t[0] == 'op' and t[1] == '(' and len(words) == 1:
                self.i += 1
                self.need(')')
                self.skip()
                return ('def', words[0], self.command())
            else:
                break
        if not words:
            raise Unknown('no command at ' + repr(self.peek()))
        return ('simple', words, line)

    def redirs(self, x):
        while self.op('<', '>', '>>', '>&', '&>', '<&'):
            self.i += 1
            self.take()
        return x


# ---------------------------------------------------------------- execution
ASSIGN = re.compile(r'[A-Za-z_]\w*=')


class Run:
    """one way through a script: steps that fail, outcomes of unknown tests"""

    def __init__(self, fail, choices, step):
        self.fail, self.choices, self.step = fail, list(choices), step
        self.env, self.funs, self.args = {}, {}, None
        self.errexit = self.pipefail = False
        self.status = 0
        self.steps, self.used = [], []
        self.cond = 0
        self.out = None
        self.depth = 0

    def choose(self):
        v = self.choices.pop(0) if self.choices else 0
        self.used.append(v)
        return v

    def go(self, x):
        k = x[0]
        if k == 'list':
            for y in x[1]:
                self.go(y)
        elif k in ('&&', '||'):
            self.cond += 1
            self.go(x[1])
            self.cond -= 1
            if (self.status == 0) == (k == '&&'):
                self.go(x[2])
        elif k == 'not':
            self.cond += 1
            self.go(x[1])
            self.cond -= 1
            self.status = int(self.status == 0)
        elif k == 'pipe':
            st = []
            for y in x[1]:
                st.append(self.subshell(y, True))
            self.done(([s for s in st if s] or [0])[-1] if self.pipefail else st[-1])
        elif k == 'back':
            self.subshell(x[1])
            self.status = 0
        elif k == 'sub':
            self.done(self.subshell(x[1]))
        elif k == 'if':
            for c, body in x[1]:
                self.cond += 1
                self.go(c)
                self.cond -= 1
                if self.status == 0:
                    self.status = 0
                    return self.go(body)
            self.status = 0
            if x[2] is not None:
                self.go(x[2])
        elif k == 'def':
            self.funs[x[1]] = x[2]
        else:
            self.simple(x[1], x[2])

    def done(self, status):
        self.status = status
        if status and self.errexit and not self.cond:
            raise Exit()

    def subshell(self, x, pipe=False):
        saved = dict(self.env), self.errexit, self.cond
        try:
            self.go(x)
        except Exit:
            pass
        self.env, self.errexit, self.cond = saved
        return self.status

    def assign(self, w):
        k, _, v = w.partition('=')
        if v.startswith('('):
            raise Unknown('array')
        self.env[k] = self.expand(v)

    def simple(self, ws, line):
        before = self.status
        if all(ASSIGN.match(w) for w in ws):
            for w in ws:
                self.assign(w)
            self.status = 0
            return
        while ws and ASSIGN.match(ws[0]):
            ws = ws[1:]
        words = []
        for w in ws:
            if w in ('"$@"', '$@', '$*') and self.args is not None:
                words += self.args
            elif w in ('"$@"', '$@', '$*', '"$*"'):
                raise Unknown(w)
            else:
                words.append(self.expand(w))
        n = plain(words[0]) if words else ''
        if n is None:
            raise Unknown('name of a command')
        t = [plain(w) for w in words]
        if n in ('export', 'local', 'readonly', 'declare'):
            for w in ws[1:]:
                if ASSIGN.match(w):
                    self.assign(w)
            self.status = 0
        elif n == 'set':
            for i, w in enumerate(t[1:], 1):
                if w in ('errexit', 'pipefail') and t[i - 1] and t[i - 1].endswith('o'):
                    setattr(self, w, t[i - 1][0] == '-')
                elif w and re.match(r'[-+]\w*e', w):
                    self.errexit = w[0] == '-'
            self.status = 0
        elif n == 'trap':
            if 'ERR' in t and t[1] and t[1].startswith('exit') and t[1].split()[1:] != ['0']:
                self.errexit = True
            self.status = 0
        elif n in ('exit', 'return'):
            self.status = before
            if len(t) > 1:
                self.status = int(t[1]) if t[1] and t[1].isdigit() else 1
            raise Exit() if n == 'exit' or not self.depth else Return()
        elif n in ('true', ':'):
            self.status = 0
        elif n == 'false':
            self.done(1)
        elif n in ('[', 'test', '[['):
            self.done(self.test([x for x in t[1:] if x != ']'], words[1:]))
        elif n in self.funs:
            saved = self.args, self.depth
            if self.depth > 20:
                raise Unknown('recursion')
            self.args, self.depth = words[1:], self.depth + 1
            try:
                self.go(self.funs[n])
            except Return:
                pass
            self.args, self.depth = saved
            self.done(self.status)
        elif n in ('eval', 'source', '.', 'exec', 'shift', 'getopts', 'xargs', 'read'):
            raise Unknown(n)
        else:
            if n in ('echo', 'printf') and self.out is not None:
                if n == 'printf' or any(x and x.startswith('-') for x in t[1:]):
                    raise Unknown(n)
                for i, w in enumerate(words[1:]):
                    self.out.extend(([' '] if i else []) + w)
            elif n in ('basename', 'dirname') and self.out is not None and len(words) == 2:
                self.out.append((n, tuple(words[1])))
            elif self.out is not None:
                raise Unknown('output of ' + n)
            status = 0
            if self.step(t):
                status = int(len(self.steps) in self.fail)
                self.steps.append(Command(words, line))
            self.done(status)

    def test(self, t, words):
        if None not in t and len(t) == 3:
            a, o, b = t
            if a.lstrip('-').isdigit() and b.lstrip('-').isdigit() and o[1:] in ('eq', 'ne', 'gt', 'lt', 'ge', 'le'):
                a, b = int(a), int(b)
                return int(not {'eq': a == b, 'ne': a != b, 'gt': a > b, 'lt': a < b, 'ge': a >= b, 'le': a <= b}[o[1:]])
            if o in ('=', '=='):
                return int(a != b)
            if o == '!=':
                return int(a == b)
        if len(t) == 2 and t[0] in ('-z', '-n') and t[1] is not None:
            return int((t[1] == '') != (t[0] == '-z'))
        return self.choose()

    def capture(self, text):
        saved = self.out, self.status, self.cond
        self.out = []
        r = self.subshell(Parser(text).list())
        got = self.out
        self.out, self.status, self.cond = saved
        return got

    def expand(self, raw):
        """pieces of a word"""
        out, i = [], 0

        def add(ps):
            for p in ps:
                if isinstance(p, str) and out and isinstance(out[-1], str):
                    out[-1] += p
                elif p != '':
                    out.append(p)

        def var(v):
            if v == '?':
                add([str(self.status)])
            elif v == '#':
                add([str(len(self.args)) if self.args is not None else '2'])
            elif v.isdigit():
                if self.args is not None and v != '0':
                    add(self.args[int(v) - 1] if int(v) <= len(self.args) else [])
                else:
                    add([('arg', int(v))])
            elif v in self.env:
                add(self.env[v])
            else:
                add([('env', v)])
        q = False
        while i < len(raw):
            c = raw[i]
            if c == '"':
                q = not q
                i += 1
            elif c == "'" and not q:
                j = raw.index("'", i + 1)
                add([raw[i + 1:j]])
                i = j + 1
            elif c == '\\':
                add([raw[i + 1:i + 2]])
                i += 2
            elif c == '`' or raw[i:i + 2] == '$(':
                if raw[i:i + 3] == '$((':
                    raise Unknown('arithmetic')
                if c == '`':
                    j = raw.index('`', i + 1)
                    sub, i = raw[i + 1:j], j + 1
                else:
                    j = parens(raw, i + 1)
                    sub, i = raw[i + 2:j - 1], j
                add(self.capture(sub))
            elif c == '$':
                m = re.match(r'\$(?:\{(\w+|\?|#)(:\?[^}]*|\?[^}]*|##\*/)?\}|([A-Za-z_]\w*|\d|\?|#))', raw[i:])
                if not m:
                    raise Unknown('expansion ' + raw[i:i + 8])
                if m.group(2) == '##*/':
                    keep, out = out, []
                    var(m.group(1))
                    w, out = out, keep
                    add([('basename', tuple(w))])
                else:
                    var(m.group(1) or m.group(3))
                i += m.end()
            elif c in '*?[' and not q and raw not in ('[', '[['):
                raise Unknown('pattern')
            else:
                add([c])
                i += 1
        return out


class Script:
    def __init__(self, text, step):
        self.tree = Parser(text).list()
        self.first = bool(re.match(r'#!\s*\S*sh\s+-\w*e', text))
        self.step = step
        self.cmds = max((r.steps for r in self.ways(())), key=len)

    def ways(self, fail):
        todo, n = [[]], 0
        while todo:
            n += 1
            if n > 256:
                raise Unknown('too many ways')
            ch = todo.pop()
            r = Run(fail, ch, self.step)
            r.errexit = self.first
            try:
                r.go(self.tree)
            except (Exit, Return):
                pass
            yield r
            for k in range(len(ch), len(r.used)):
                todo.append(r.used[:k] + [1])

    def stops(self, i):
        """the failure of step i ends the script with an error before any later step"""
        for r in self.ways((i,)):
            if len(r.steps) > i and (len(r.steps) > i + 1 or r.status == 0):
                return False
        return True


def parse(text, step=lambda words: words[:1] == ['rosrun']):
    """the script, or None"""
    try:
        return Script(text, step)
    except (Unknown, ValueError, IndexError):
        return None
