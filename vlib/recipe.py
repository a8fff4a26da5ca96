"""Programs that build terms through the constructors, run in lockstep on the real code (script lines) and on the model."""
from . import model as M
from .run import hx


class Recipe:
    def __init__(self, rng, names=(b"A", b"B", b"C", b"D", b"E"), vars=0.2, ops=0.04, intervals=0.04, base=0, limit=120):
        self.r, self.names, self.pvars, self.pops, self.piv, self.next, self.limit = rng, names, vars, ops, intervals, base, limit
        self.lines, self.id, self.slots = [], {}, []
        self._atoms, self._vars, self._ops = {}, {}, {}

    def slot(self, mid):
        s = self.next
        self.next += 1
        self.id[s] = mid
        self.slots.append(s)
        return s

    def emit(self, fmt, *a): self.lines.append(fmt % a)

    # ---- leaves
    def atom(self, name):
        s = self.slot(M.atom(name))
        self.emit("mk -1 %d %s", s, hx(name))
        return s

    def op(self, name):
        """an operation's own term, taken from a parsed task"""
        if name in self._ops: return self._ops[name]
        a, s = self.slot(M.statement(M.compound(M.PROD, []), 0, M.atom(b"^" + name))), None
        self.slots.pop()
        self.emit("k -1 - %d %s", a, hx(b"(^" + name + b")."))
        self.emit("taskterm %d %d", a, a)
        s = self.slot(M.atom(b"^" + name))
        self.emit("pred %d %d", s, a)
        self.emit("drop %d", a)
        self.emit("droptask %d", a)
        self._ops[name] = s
        return s

    def var(self, kind, num, name=None, share=True):
        key = (kind, num)
        if share and key in self._vars: return self._vars[key]
        s = self.slot(M.var(kind, num))
        self.emit("var %d %d %d %s", s, kind, num, hx(name if name is not None else b"v%d" % num))
        self._vars[key] = s
        return s

    def interval(self, n):
        s = self.slot(M.interval(n))
        self.emit("iv %d %d", s, n)
        return s

    def leaf(self):
        r, k = self.r, self.r.random()
        if k < self.pvars: return self.var(r.randrange(3), r.randrange(3), share=r.random() < .5)
        if k < self.pvars + self.pops: return self.op(r.choice((b"go", b"A")))
        if k < self.pvars + self.pops + self.piv: return self.interval(r.choice((0, 1, 2, 5)))
        return self.atom(r.choice(self.names))

    # ---- terms of terms
    def statement(self, s, c, p, how=None):
        how = self.r.randrange(2) if how is None else how
        x = self.slot(M.statement(self.id[s], c, self.id[p]))
        self.emit("st %d %d %d %d %d", x, s, c, p, how)
        return x

    HOWS = (0, 1, 2, 3, 4, 5)

    def hows(self, conn, n):
        h = list(self.HOWS)
        if n == 1: h.append(6)
        if n == 2: h.append(7)
        if n == 2 and conn in (M.EXTSET, M.INTSET): h.append(8)
        if n == 3: h.append(9)
        return h

    def compound(self, conn, comps, how=None):
        how = self.r.choice(self.hows(conn, len(comps))) if how is None else how
        x = self.slot(M.compound(conn, [self.id[c] for c in comps]))
        self.emit("cm %d %d %d %d %s", x, conn, how, len(comps), " ".join(map(str, comps)))
        return x

    COUNTS = {M.NEG: (1, 1), M.EXTDIF: (2, 2), M.INTDIF: (2, 2), M.EXTSET: (1, 5), M.INTSET: (1, 5), M.LIST: (1, 4)}

    def count(self, conn):
        lo, hi = self.COUNTS.get(conn, (2, 5))
        n = self.r.randint(lo, hi)
        if hi >= 5 and self.r.random() < .03: n = self.r.choice((9, 16, 17, 33))
        return n

    def conn(self):
        r = self.r
        if r.random() < .55: return r.choice((M.EXTINT, M.INTINT, M.EXTSET, M.INTSET, M.CONJ, M.SEQ))
        return r.randrange(15)

    def any(self, d):
        """A term: an earlier one, a leaf, a statement or a compound."""
        r = self.r
        small = [s for s in self.slots[-40:] if M.complexity(self.id[s]) <= 12]
        if small and r.random() < .3: return r.choice(small)
        if d <= 0 or r.random() < .25: return self.leaf()
        return self.statement(self.any(d - 1), self.cop(), self.any(d - 1)) if r.random() < .3 else self.anycompound(d)

    def cop(self): return self.r.choice((0, 0, 1, 5, 9)) if self.r.random() < .6 else self.r.randrange(12)

    def anycompound(self, d, conn=None):
        conn = self.conn() if conn is None else conn
        comps = [self.any(d - 1) for _ in range(self.count(conn))]
        return self.compound(conn, comps)
