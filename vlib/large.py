"""Texts that are large in one way: many components, deep, long names, many variables, large sets merged."""
from . import model as M

SIZES = [30, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300]
CONNS = [b"&&", b"||", b"&|", b"&/", b"|", b"&", b"*"]


def size(r, top=300): return r.choice([n for n in SIZES if n <= top])


def leaf(r, i, novars=False):
    k = r.random()
    if k < .5: return b"k%d" % i
    if novars or k < .6: return r.choice((b"A", b"B", b"<A --> k%d>" % i, b"{k%d}" % i, b"(*,A,k%d)" % i, b"+%d" % (i % 9), b"^go"))
    if k < .85: return r.choice((b"$", b"#", b"?")) + b"%s" % r.choice((b"x", b"y", b"v%d" % (i % 50), b"u%d" % i))
    return r.choice((b"<$x --> k%d>" % i, b"(*,#y,$x)", b"{?z,k%d}" % i, b"<k%d ==> #u%d>" % (i, i)))


def group(r, items):
    """Some compound of the items."""
    k = r.random()
    s = b"," if r.random() < .9 else b" , "
    if k < .15: return b"{" + s.join(items) + b"}"
    if k < .25: return b"[" + s.join(items) + b"]"
    if k < .32: return b"(" + s.join(items) + b")"
    if k < .4: return b"(" + r.choice((b"/", b"\\")) + b"," + s.join(items) + b")"
    if k < .5: return b"(" + (b" %s " % r.choice(CONNS)).join(items) + b")"
    return b"(" + r.choice(CONNS) + b"," + s.join(items) + b")"


def wide(r, top=300):
    n = size(r, top)
    k = r.random()
    if k < .35: items = [leaf(r, i) for i in range(n)]
    elif k < .6:  # few that matter, far behind
        items = [b"k%d" % i for i in range(n)] + [leaf(r, n + i) for i in range(r.randint(1, 4))]
    elif k < .7: items = [r.choice((b"$", b"#", b"?")) + b"v%d" % (i % r.choice((3, 40, 500))) for i in range(n)] + [b"A"]
    elif k < .85: items = [leaf(r, i, True) for i in range(n)]
    else:
        items = [b"k%d" % i for i in range(n)]
        r.shuffle(items)
    g = group(r, items)
    k = r.random()
    if k < .4: return g
    if k < .7: return b"<" + g + b" --> B>"
    if k < .9: return b"<A ==> " + g + b">"
    return b"(*," + g + b"," + group(r, items[-3:]) + b")"


def merged(r, top=300):
    n = size(r, top)
    a = [b"k%d" % i for i in range(n)]
    b = [b"k%d" % i for i in range(r.choice((0, n // 2, n - 1, n)), n + r.randint(0, 40))] or [b"z"]
    r.shuffle(a), r.shuffle(b)
    o, c = r.choice(((b"{", b"}"), (b"[", b"]")))
    k = r.random()
    if k < .6: x = b"(" + r.choice((b"&", b"|", b"&&", b"||")) + b"," + o + b",".join(a) + c + b"," + o + b",".join(b) + c + (b",Z" if r.random() < .4 else b"") + b")"
    else:
        op = r.choice(CONNS)
        x = b"(" + op + b",(" + op + b"," + b",".join(a + [b"q"]) + b"),(" + op + b"," + b",".join(b + [b"q"]) + b"))"
    return b"<" + x + b" --> #y>" if r.random() < .4 else x


def deep(r, top=130):
    novars = r.random() < .4
    n = r.randint(20, top if novars else 40)
    wraps = [(b"(--,", b")"), (b"<", b" --> B>"), (b"<A ==> ", b">"), (b"{", b"}"), (b"(*,", b",A)"), (b"(*,A,", b")"), (b"(&/,A,", b",+1)"), (b"(&&,A,", b",<A --> B>)"), (b"(|,[A],", b")"), (b"(^go,", b")")]
    if not novars: wraps += [(b"(*,$x,", b")"), (b"<", b" ==> #y>"), (b"(||,?z,", b")")]
    ws = r.sample(wraps, r.choice((1, 2, 3)))
    t = b"A" if novars else r.choice((b"$x", b"<$x --> #y>", b"?z"))
    for i in range(n):
        a, b = ws[i % len(ws)]
        t = a + t + b
    return t


def long_names(r):
    n = r.choice((31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 600, 1023, 1024, 1025, 4095, 4096, 4097))
    stem = bytes(r.choice(b"abcdefgh_0") for _ in range(7)) * (n // 7 + 1)
    a, b, c = ((b"n" + stem)[:n - 1] + x for x in (b"x", b"y", b"x"))
    k = r.random()
    if k < .3: return b"<" + a + b" --> " + b + b">"
    if k < .5: return b"{" + b + b"," + a + b"," + c + b"}"
    if k < .8: return b"(*,$%s,#%s,?%s,$%s,$%s,%s)" % (a, b, a, b, c, a)
    return b"(^" + a + b",{" + b + b"})"


def many_vars(r):
    n = size(r, 130)
    return r.choice((b"(&&,%s)", b"(*,%s)", b"<(||,%s) ==> <$w0 --> #v3>>", b"{%s}")) % b",".join(b"<$v%d --> %sw%d>" % (i, r.choice((b"#", b"?", b"$")), i % 5) for i in range(n))


def text(r, top=300):
    """A task, its text."""
    k = r.random()
    t = wide(r, top) if k < .4 else merged(r, top) if k < .6 else deep(r) if k < .75 else long_names(r) if k < .88 else many_vars(r)
    if r.random() < .3: t = b" " * r.choice((1, 15, 16, 120, 127, 128, 255)) + t
    return t + r.choice((b".", b".", b"?", b"!", b"@", b". :|:", b". %0.5;0.5%", b"? :!5:"))
