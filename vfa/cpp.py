"""Token level reading of the C++ tools: statements, stream chains, option definitions."""
import os
import re


def strip(text):
    """text without comments (line structure kept, literals kept)"""
    def rep(m):
        s = m.group(0)
        if s.startswith('/'):
            return re.sub(r'[^\n]', ' ', s)
        return s
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', rep, text, flags=re.S)


def sources(root):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if not x.startswith('.') and x not in ('test', 'tests'))
        for f in sorted(fs):
            if f.endswith(('.cc', '.cpp', '.h', '.hpp')):
                p = os.path.join(d, f)
                yield os.path.relpath(p, root), strip(open(p, encoding='utf-8', errors='replace').read())


def statements(text):
    """(line, statement) split at top level semicolons and braces"""
    out, start, lit = [], 0, None
    i = 0
    depth = 0
    while i < len(text):
        ch = text[i]
        if lit:
            if ch == '\\':
                i += 1
            elif ch == lit:
                lit = None
        elif ch in '"\'':
            lit = ch
        elif ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        elif ch in '{}' or ch == ';' and depth <= 0:
            s = text[start:i]
            if s.strip():
                out.append((text.count('\n', 0, start + len(s) - len(s.lstrip())) + 1, s.strip()))
            start = i + 1
            depth = max(depth, 0) if ch == ';' else 0
        i += 1
    return out


def chain(s):
    """operands of a top level << chain"""
    parts, depth, lit, cur = [], 0, None, ''
    i = 0
    while i < len(s):
        ch = s[i]
        if lit:
            cur += ch
            if ch == '\\':
                i += 1
                cur += s[i:i + 1]
            elif ch == lit:
                lit = None
        elif ch in '"\'':
            lit = ch
            cur += ch
        elif s.startswith('<<', i) and depth == 0:
            parts.append(cur.strip())
            cur = ''
            i += 1
        else:
            depth += ch in '([{'
            depth -= ch in ')]}'
            cur += ch
        i += 1
    parts.append(cur.strip())
    return parts


def flags(root):
    """{directory of the tool: {option: type}} from the option definitions"""
    r = {}
    for f, t in sources(root):
        for m in re.finditer(r'\bDEFINE_(bool|string|int32|int64|uint64|double|uint32)\s*\(\s*(\w+)\s*,', t):
            r.setdefault(f, {})[m.group(2)] = m.group(1)
    return r


def switches(root):
    """{file of the tool: {boolean option: whether it is on unless given}}"""
    r = {}
    for f, t in sources(root):
        for m in re.finditer(r'\bDEFINE_bool\s*\(\s*(\w+)\s*,\s*(true|false)\s*,', t):
            r.setdefault(f, {})[m.group(1)] = m.group(2) == 'true'
    return r


def pose_chains(root):
    """stream statements writing the components of a position and a quaternion"""
    for f, t in sources(root):
        for line, s in statements(t):
            if '<<' not in s:
                continue
            items = chain(s)
            acc = [re.search(r'([\w.\->]+?)(?:\.|->)([xyzw])\(\)$', x) for x in items]
            if sum(a is not None for a in acc) < 6:
                continue
            data = []
            for x, a in zip(items[1:], acc[1:]):
                if a:
                    data.append((a.group(1), a.group(2)))
                elif x.startswith('"'):
                    data.append('sep' if ',' in x else 'text')
                elif not re.match(r'(std::)?(set\w+|endl|fixed|scientific|flush)\b', x):
                    data.append('value')
            yield f, line, items[0], data


def reader_indices(root):
    """constructions from consecutive cells of one row: {(file, line): (size, cells)}"""
    for f, t in sources(root):
        for m in re.finditer(r'Vector([34])d\s+\w+\s*[({]([^;]*?)[)}]\s*;', t):
            cells = re.findall(r'^\s*(\w+)\[(\d+)\]\s*$', m.group(2).replace(',', '\n'), flags=re.M)
            n = int(m.group(1))
            if len(cells) == n and len({c[0] for c in cells}) == 1:
                yield f, t.count('\n', 0, m.start()) + 1, n, [int(c[1]) for c in cells]
