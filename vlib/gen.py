"""Workloads: texts (derivations of the grammar, near misses, mutated corpora, token soup) and term recipes."""
import glob, os, random
from . import model as M, build

SAFE = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
ODD = b"'\x01\x08\x0b\x1b\x1f\x7f"
POOL = [b"A", b"B", b"C", b"D", b"bird", b"robin", b"swan", b"SELF", b"go", b"0", b"1", b"_", b"key001", b"{}"[:0] or b"x"]
PUNCT_TOKENS = [b"<", b">", b"(", b")", b"{", b"}", b"[", b"]", b",", b".", b"?", b"!", b"@", b"%", b";", b"$", b"#", b"^", b"+", b":", b":!",
                b":|:", b":/:", b":\\:", b"&&", b"||", b"&", b"|", b"&/", b"&|", b"*", b"-", b"~", b"--", b"\\", b"/"] + M.COPULAS
BOUNDARY = sorted({b + d for b in (1, 8, 15, 16, 23, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1023, 1024) for d in (-1, 0, 1) if b + d > 0})


def corpus():
    out = []
    for f in sorted(glob.glob(build.REPO + "/examples/**/*.nal", recursive=True)):
        try:
            with open(f, "rb") as g: data = g.read()
        except OSError: continue
        for ln in data.replace(b"\r", b"").split(b"\n"):
            if ln and ln[:1] in b"<($A" and len(ln) < 600: out.append(ln)
    return out or [b"<robin --> bird>."]


def long_digits(r):
    """More digits than any number type holds, some beyond the range of double."""
    return b"".join(b"%d" % r.randint(0, 9) for _ in range(r.choice((20, 40, 308, 309, 310, 330, 400, 1100))))


class Gen:
    """Texts. Options shift the mix: blanks, long names, wide compounds, few names (so that components coincide)."""

    def __init__(self, rng, names=None, odd=0.03, wide=0.03, nested=0.5, maxdepth=5, spaces=0.35, strings=0.03):
        self.r, self.odd, self.wide, self.nested, self.maxdepth, self.spaces, self.strings = rng, odd, wide, nested, maxdepth, spaces, strings
        self.names = names or POOL
        self.vnames = [b"x", b"y", b"z", b"1", b"2", b"A", b"longvariablename"]

    # ---- terminals
    def sp(self):
        r = self.r
        if r.random() > self.spaces: return b""
        return b" " * r.choice((1, 1, 1, 1, 2, 3, 7)) if r.random() < .97 else b"\t"

    def word(self):
        r = self.r
        if r.random() >= self.odd: return r.choice(self.names)
        return self.odd_word()

    def odd_word(self):
        r = self.r
        k = r.random()
        if k < .3: return bytes(r.choice(SAFE) for _ in range(r.choice(BOUNDARY[:20]) if k < .27 else r.choice(BOUNDARY)))
        if k < .45: return bytes(r.choice(SAFE + ODD) for _ in range(r.randint(1, 12)))
        if k < .75: return self.string()
        return bytes(r.choice(b"0123456789") for _ in range(r.randint(1, 11)))

    def string(self):
        r = self.r
        out = b'"'
        for _ in range(r.choice((0, 1, 1, 2, 3, 5, 9))):
            out += bytes([r.choice(b"abc XYZ.,:;<>(){}[]!?@%$#^&|*/~+-=019'\t")])
            if r.random() < .1: out += b"\\" * r.randint(1, 3) + (b'"' if r.random() < .6 else b"")
        return out + b'"'

    # ---- grammar
    def tokens(self, t): return t

    def j(self, *parts):
        out = []
        for n, p in enumerate(parts):
            if n: out.append(self.sp())
            out.append(p)
        return b"".join(out)

    def seq(self, items, sep):
        out = []
        for n, p in enumerate(items):
            if n: out += [self.sp(), sep, self.sp()]
            out.append(p)
        return b"".join(out)

    def count(self, lo):
        r = self.r
        if r.random() < self.wide: return r.choice((9, 12, 16, 17, 24, 33, 40))
        return lo + min(5, int(r.expovariate(.9)))

    def variable(self):
        r = self.r
        return self.j(r.choice((b"$", b"#", b"?")), r.choice(self.vnames) if r.random() > self.odd else self.odd_word())

    def interval(self):
        r = self.r
        k = r.random()
        n = r.randint(0, 9) if k < .6 else r.randint(0, 10**6) if k < .8 else r.choice((2**31 - 1, 2**31, 2**31 - 2, 2**32, 10**12, 0))
        s = b"%d" % n
        if r.random() < .1: s = b"-" + s
        if r.random() < .05: s = b"00" + s
        if r.random() < .03: s = long_digits(r)
        return self.j(b"+", s)

    def op(self): return self.j(b"^", self.word())

    def term(self, d=None):
        r = self.r
        d = self.maxdepth if d is None else d
        if d <= 0 or r.random() > self.nested:
            k = r.random()
            return self.word() if k < .72 else self.variable() if k < .9 else self.op() if k < .95 else self.interval()
        return self.statement(d - 1) if r.random() < .4 else self.compound(d - 1)

    def statement(self, d=None):
        r = self.r
        d = self.maxdepth if d is None else d
        k = r.random()
        t = lambda: self.term(d - 1)
        if k < .7:
            o, c = (b"<", b">") if r.random() < .75 else (b"(", b")")
            return self.j(o, t(), r.choice(M.COPULAS), t(), c)
        if k < .85: return self.j(b"(", self.op(), *sum(([b",", t()] for _ in range(self.count(0))), []), b")")
        return self.j(self.word(), b"(", self.seq([t() for _ in range(self.count(1))], b","), b")")

    def compound(self, d):
        r = self.r
        t = lambda: self.term(d)
        ts = lambda lo: self.seq([t() for _ in range(self.count(lo))], b",")
        k = r.randrange(10)
        if k == 0: return self.j(b"[", ts(1), b"]")
        if k == 1: return self.j(b"{", ts(1), b"}")
        if k == 2: return self.j(b"--", t()) if r.random() < .4 else self.j(b"(", b"--", b",", t(), b")")
        if k == 3: return self.j(b"(", r.choice((b"\\", b"/")), b",", ts(1), b")")
        if k == 4:
            c = r.choice((b"-", b"~"))
            a = lambda: t() if r.random() < .8 else self.infix(d)
            return self.j(b"(", c, b",", a(), b",", a(), b")") if r.random() < .6 else self.j(b"(", a(), c, a(), b")")
        if k == 5: return self.j(b"(", self.infix(d), b")")
        if k == 6: return self.j(b"(", ts(2), b")")
        if k == 7: return self.j(b"(", b"*", b",", ts(1), b")")
        return self.j(b"(", r.choice((b"&&", b"||", b"&|", b"&/", b"|", b"&")), b",", ts(2), b")")

    def infix(self, d):
        return self.seq([self.term(d) for _ in range(self.count(2))], self.r.choice((b"&", b"|", b"&|", b"&/", b"&&", b"||", b"*")))

    def unit(self):
        r = self.r
        if r.random() < .03: return r.choice((b"0." + b"0" * r.choice((60, 320, 400, 1200)) + b"1", b"1." + b"0" * 700, b"0." + long_digits(r), b"0" * 330 + b"1", b"0" * 400 + b".5"))
        return r.choice((b"0", b"1", b"1.0", b"1.", b"0.0", b".5", b"0.5", b"0.25", b"0.123456789", b"0.9999", b"1.000", b"0.001", b".0",
                         b"0.%d" % r.randint(0, 10**r.randint(1, 12)), b"%.2f" % r.random()))

    def conf(self):
        r = self.r
        if r.random() < .03: return b"0.5" + long_digits(r)
        return r.choice((b"0.9", b".5", b"0.001", b"0.99", b"0.999999", b"0.5", b"0.0001", b"%.2f" % max(.01, min(.99, r.random())), b"0.%d1" % r.randint(0, 10**r.randint(1, 9))))

    def tense(self):
        r = self.r
        k = r.random()
        if k < .6: return r.choice((b":|:", b":/:", b":\\:"))
        n = r.choice((0, 1, 4, 5, 6, 100, 2**31 - 1, 2**31, 10**15, r.randint(0, 1000)))
        return self.j(b":!", (b"-" if r.random() < .4 else b"") + (b"%d" % n if r.random() > .03 else long_digits(r)), b":")

    def truth(self):
        r = self.r
        p = [b"%", self.unit()]
        if r.random() < .75:
            p += [b";", self.conf()]
            if r.random() < .3: p += [b";", b"%d" % r.choice((1, 2, 3, 9, 10, 100, r.randint(1, 10**6)))]
        return self.j(*(p + [b"%"]))

    def budget(self):
        r = self.r
        p = [b"$", self.unit()]
        if r.random() < .75:
            p += [b";", self.conf()]
            if r.random() < .7: p += [b";", self.unit()]
        return self.j(*(p + [b"$"]))

    def task(self, term=None):
        r = self.r
        if term is None:
            k = r.random()
            term = self.statement() if k < .6 else self.compound(self.maxdepth - 1) if k < .92 else r.choice((self.word, self.op, self.interval))()
        p = r.choice(b".?!@") if r.random() < .6 else 46
        parts = ([self.budget()] if r.random() < .25 else []) + [term, bytes([p])]
        if r.random() < .3: parts.append(self.tense())
        if p in b".!" and r.random() < .4: parts.append(self.truth())
        out = self.j(*parts)
        if r.random() < .1: out = b" " * r.randint(1, 3) + out
        if r.random() < .2: out += b" " * r.randint(1, 3)
        return out


def mutate(r, s, tokens=PUNCT_TOKENS + [b"A", b"x", b"0.5", b"1", b"-5", b" ", b"\t", b"\xe9", b"\x80", b"\xff", b'"', b"\\", b"_"]):
    s = bytearray(s)
    for _ in range(r.choice((1, 1, 1, 2, 3, 5))):
        k, n = r.random(), len(s)
        p = r.randint(0, n)
        if k < .3: s[p:p] = r.choice(tokens)
        elif k < .55: del s[p:p + r.choice((1, 1, 2, 4))]
        elif k < .75: s[p:p + r.choice((1, 2, 3))] = r.choice(tokens)
        elif k < .85:
            q = r.randint(p, min(n, p + 20))
            s[p:p] = s[p:q]
        elif k < .95 and n: s[r.randrange(n)] = r.choice(b"\x00\x01\x09\x0a\x0d\x20\x7f\x80\xa0\xff" + bytes(range(33, 127)))
        else: del s[p:]
    return bytes(s)


def soup(r):
    toks = PUNCT_TOKENS + [b"A", b"B", b"x", b"0.5", b"1", b"5", b'"a"', b" "]
    return b"".join(r.choice(toks) for _ in range(r.randint(1, 40)))


def garbage(r):
    n = r.choice((0, 1, 2, 5, 20, 100, 300))
    k = r.random()
    if k < .4: return bytes(r.randrange(256) for _ in range(n))
    if k < .6: return bytes([r.choice(b'<({["^$#?%:-A ,')]) * n
    return bytes(r.choice(b"<>(){}[]-=\\/|&,.%;:!?@$#^+\"\\ \t0.5Ab\xff") for _ in range(n))


def text(r, g=None, corp=None):
    """Any text: mostly grammatical or nearly so."""
    g = g or Gen(r)
    k = r.random()
    if k < .5: return g.task()
    if k < .65: return mutate(r, g.task())
    if k < .75 and corp: return r.choice(corp)
    if k < .87 and corp:
        s = mutate(r, r.choice(corp))
        if r.random() < .2: t = r.choice(corp); s = s[:r.randint(0, len(s))] + t[r.randint(0, len(t)):]
        return s
    if k < .95: return soup(r)
    return garbage(r)
