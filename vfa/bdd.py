"""Reduced ordered decision diagrams over named conditions."""


class Bdd(object):
    def __init__(self):
        self.ids = {}
        self.names = []
        self.table = {}
        self.memo = {}

    def atom(self, name):
        i = self.ids.get(name)
        if i is None:
            i = self.ids[name] = len(self.names)
            self.names.append(name)
        return self.node(i, True, False)

    def node(self, i, t, e):
        if t is e:
            return t
        k = (i, id(t) if not isinstance(t, bool) else t, id(e) if not isinstance(e, bool) else e)
        n = self.table.get(k)
        if n is None:
            n = self.table[k] = (i, t, e)
        return n

    def ite(self, c, t, e):
        if c is True or t is e:
            return t
        if c is False:
            return e
        if t is True and e is False:
            return c
        k = tuple(x if isinstance(x, bool) else id(x) for x in (c, t, e))
        r = self.memo.get(k)
        if r is not None:
            return r[0]
        i = min(x[0] for x in (c, t, e) if not isinstance(x, bool))

        def co(x, b):
            return x if isinstance(x, bool) or x[0] != i else x[1 if b else 2]
        r = self.node(i, self.ite(co(c, True), co(t, True), co(e, True)),
                      self.ite(co(c, False), co(t, False), co(e, False)))
        self.memo[k] = (r, c, t, e)
        return r

    def neg(self, a):
        return self.ite(a, False, True)

    def conj(self, a, b):
        return self.ite(a, b, False)

    def disj(self, a, b):
        return self.ite(a, True, b)

    def implies(self, a, b):
        return self.ite(a, b, True) is True

    def support(self, a, out=None, seen=None):
        out = set() if out is None else out
        seen = set() if seen is None else seen
        if not isinstance(a, bool) and id(a) not in seen:
            seen.add(id(a))
            out.add(self.names[a[0]])
            self.support(a[1], out, seen)
            self.support(a[2], out, seen)
        return out

    def witness(self, a):
        """one satisfying assignment as {name: bool}"""
        r = {}
        while not isinstance(a, bool):
            if a[1] is not False:
                r[self.names[a[0]]] = True
                a = a[1]
            else:
                r[self.names[a[0]]] = False
                a = a[2]
        return r
