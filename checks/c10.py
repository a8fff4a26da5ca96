"""C10: equal terms have equal, stable hashes; different structures have different ones but for rare coincidences."""
from vlib import gen, large, model as M, refparser as R, trace as T
from vlib.engine import Case, violation
from vlib.recipe import Recipe
from vlib.run import hx
from checks.c09 import collect

CLASSES = ("connector", "copula", "order", "atom", "kind of variable", "one component more", "nesting", "set or sequence", "interval", "part of another", "leaf for a compound")


def edits(p, s):
    """Slots of terms that differ from a freshly built one in exactly one stated way: (class, one, other)."""
    r = p.r
    names = [b"A", b"B", b"C", b"D", b"E", b"F"]
    x = lambda: p.atom(r.choice(names)) if r.random() < .6 else p.statement(p.atom(r.choice(names)), 0, p.atom(r.choice(names))) if r.random() < .5 else p.compound(r.choice((M.PROD, M.EXTSET)), [p.atom(r.choice(names)) for _ in range(r.randint(1, 3))])
    cls = r.choice(CLASSES)
    wrap = r.random() < .4

    def w(t, f): return f(t) if wrap else t
    how = r.randrange(4)
    z, cop, con, pos = x(), r.choice((0, 5)), r.choice((M.PROD, M.CONJ, M.NEG, M.EXTSET)), r.randrange(2)

    def outer(t):
        if how == 0: return p.statement(t, cop, z)
        if how == 1: return p.statement(z, cop, t)
        if how == 2: return p.compound(M.PROD, [z, t] if pos else [t, z])
        return p.compound(M.NEG, [t])
    cs = [x() for _ in range(r.randint(2, 5))]
    if cls == "connector":
        a, b = r.sample(range(15), 2)
        one, two = p.compound(a, cs), p.compound(b, cs)
    elif cls == "copula":
        a, b = r.sample(range(12), 2)
        one, two = p.statement(cs[0], a, cs[1]), p.statement(cs[0], b, cs[1])
    elif cls == "order":
        c = r.choice((M.PROD, M.SEQ, M.EXTIMG, M.INTIMG, M.EXTDIF, M.INTDIF, None))
        d = list(cs)
        r.shuffle(d)
        one, two = (p.compound(c, cs), p.compound(c, d)) if c is not None else (p.statement(cs[0], 0, cs[1]), p.statement(cs[1], 0, cs[0]))
    elif cls == "atom":
        i = r.randrange(len(cs))
        d = list(cs)
        d[i] = p.atom(r.choice(names))
        c = r.randrange(15)
        one, two = p.compound(c, cs), p.compound(c, d)
    elif cls == "kind of variable":
        a, b = r.sample(range(3), 2)
        va, vb = p.var(a, 0, share=False), p.var(b, 0, share=False)
        one, two = (p.statement(va, cop, cs[0]), p.statement(vb, cop, cs[0])) if r.random() < .5 else (p.compound(con, [va, cs[0]]), p.compound(con, [vb, cs[0]])) if con != M.NEG else (va, vb)
    elif cls == "one component more":
        c = r.choice((M.PROD, M.SEQ, M.CONJ, M.EXTSET, M.DISJ, M.EXTIMG))
        one, two = p.compound(c, cs), p.compound(c, cs + [r.choice(cs) if r.random() < .5 else x()])
    elif cls == "nesting":
        c = r.choice((M.PROD, M.EXTIMG))
        i = r.randint(1, len(cs) - 1)
        one, two = p.compound(c, cs), p.compound(c, [p.compound(c, cs[:i])] + cs[i:])
    elif cls == "set or sequence": one, two = p.compound(M.SEQ, cs), p.compound(M.PAR, cs)
    elif cls == "interval":
        a, b = r.sample(range(-3, 60), 2)
        one, two = p.interval(a), p.interval(b)
        if r.random() < .7: one, two = p.compound(M.SEQ, [cs[0], one, cs[1]]), p.compound(M.SEQ, [cs[0], two, cs[1]])
    elif cls == "part of another": one, two = cs[0], p.compound(r.choice((M.NEG, M.EXTSET, M.PROD)), [cs[0]])
    else: one, two = p.compound(M.PROD, [cs[0], cs[1]]), p.compound(M.PROD, [cs[0], p.compound(M.EXTSET, [cs[1]])])
    if wrap: one, two = outer(one), outer(two)
    return cls, one, two


def distinct(r, st):
    p = Recipe(r, vars=0)
    pairs = [edits(p, None) for _ in range(6)]
    at = {}
    for cls, a, b in pairs:
        for s in (a, b):
            if s not in at:
                at[s] = len(p.lines)
                p.emit("dump d %d -1", s)
    p.lines.append("drops")
    ids = dict(p.id)

    def judge(ev):
        for cls, a, b in pairs:
            ha, hb = ev[at[a]]["hash"], ev[at[b]]["hash"]
            if ids[a] == ids[b]:
                if ha != hb: return "equal terms with different hashes: %s" % M.show(ids[a])
                st.obs["equal pairs"] += 1
            else:
                st.obs["differ by " + cls] += 1
                if ha == hb: st.obs["same hash, differ by " + cls] += 1
                if ha == hb and len(st.samples) < 100: st.samples.append("same hash: %s and %s" % (M.show(ids[a]), M.show(ids[b])))
        return None
    return Case(p.lines, judge, key=tuple(M.show(ids[a]) + "/" + M.show(ids[b]) for _, a, b in pairs), text="%s: %s, %s" % (pairs[0][0], M.show(ids[pairs[0][1]]), M.show(ids[pairs[0][2]])))


def hashes(nodes): return [x[T.HASH] for x in nodes]


def equal(r, st):
    """Families of equal and nearly equal terms; hashes now, and again after the terms were used in every way."""
    p, roots = collect(r, r.choice((0, .3)), r.randint(4, 12))
    at = []

    def look():
        at.append(len(p.lines))
        for x in roots: p.emit("dump d %d -1", x)
        for x in roots: p.emit("rehash %d", x)
    look()
    extra = []
    for _ in range(r.randint(2, 8)):
        x, k = r.choice(roots), r.random()
        if k < .2: p.emit("print %d -1", x)
        elif k < .4: extra.append(p.statement(x, 0, r.choice(roots)))
        elif k < .7: extra.append(p.compound(r.randrange(15), [r.choice(roots) for _ in range(r.randint(1, 4))]))
        elif k < .85:
            y = p.next
            p.next += 1
            p.emit("clone %d %d", y, x)
            for kind in range(3):
                if M.has_vars(p.id[x])[kind] and M.node(p.id[x])[0] != "v": p.emit("renum %d %d %d", y, kind, 7)
            p.emit("drop %d", y)
        else: p.emit("cmp 3 %d %d %d", x, r.choice(roots), r.choice(roots))
    for x in extra: p.emit("drop %d", x)
    look()
    p.lines.append("drops")
    ids, n = [p.id[x] for x in roots], len(roots)
    st.obs["terms looked at twice"] += n
    key = tuple(map(M.show, ids))

    def judge(ev):
        first = {}
        for i in range(n):
            a, b = ev[at[0] + i], ev[at[1] + i]
            if hashes(a["term"]) != hashes(b["term"]): return "the hash of a part of %s changed while it lived" % M.show(ids[i])
            for off in at:
                h = ev[off + n + i]["h"]
                if h[0] != h[1] or h[0] != a["hash"]: return "the hash of %s is %s and %s" % (M.show(ids[i]), h, a["hash"])
            d = T.read(a["term"])
            for j, x in enumerate(d.ids):
                h = d.nodes[j][T.HASH]
                if first.setdefault(x, h) != h: return "equal terms with different hashes: %s in %s" % (M.show(x), M.show(ids[i]))
        st.obs["subterms"] += len(first)
        if not any(any(M.has_vars(x)) for x in first):
            st.obs["distinct terms without variables"] += len(first)
            st.obs["distinct hashes of those"] += len(set(first.values()))
        return None
    return Case(p.lines, judge, key=key, text=M.show(ids[0]))


def parsed(r, st, texts=None):
    """The same term parsed (by several parsers), constructed and cloned, among others of a task that stays alive."""
    g = gen.Gen(r, names=[b"A", b"B", b"C"], odd=.02, wide=.04, maxdepth=4)
    texts = texts or [g.compound(3) + b"." if r.random() < .6 else g.statement() + b"." for _ in range(3)]
    lines, plan = [], []
    for n in range(r.randint(4, 9)):
        t = r.choice(texts)
        p = R.parse(t)
        if p is None: continue
        plan.append((len(lines), p.term, t))
        lines.append("k %d d %d %s" % (r.choice((-1, 1, 2)), n, hx(t)))
        if r.random() < .4:
            lines.append("taskterm %d %d" % (n, n))
            lines.append("clone %d %d" % (20 + n, n))
            plan.append((len(lines), p.term, t))
            lines.append("dump d %d -1" % (20 + n))
    if not plan: return None
    lines += ["drops", "droptasks"]

    def judge(ev):
        seen = {}
        for i, want, t in plan:
            d = T.read(ev[i]["term"])
            if d.root != want: return "%r became %s" % (t[:200], M.show(d.root))
            for j, x in enumerate(d.ids):
                h = d.nodes[j][T.HASH]
                if seen.setdefault(x, h) != h: return "equal terms with different hashes: %s in %r" % (M.show(x), t[:200])
        st.obs["subterms"] += len(seen)
        return None
    return Case(lines, judge, key=tuple(lines), text=texts[0].decode("latin1"))


def intervals(r, st):
    ns = [r.choice((0, 1, 2, -1, 2**31 - 1, -2**31, r.randint(-1000, 1000))) for _ in range(4)]
    lines = []
    for n, x in enumerate(ns): lines.append("iv %d %d" % (n, x))
    for n in range(4): lines.append("dump d %d -1" % n)
    a, b = r.randint(-10**6, 10**6), r.randint(-10**6, 10**6)
    lines += ["ivadd 9 %d %d" % (a, b), "iv 10 %d" % (a + b), "cmp 2 9 10", "dump d 9 -1", "dump d 10 -1", "drops"]

    def judge(ev):
        hs = {}
        for n, x in enumerate(ns):
            h = ev[4 + n]["hash"]
            if hs.setdefault(x, h) != h: return "two intervals +%d with different hashes" % x
        if len(set(hs.values())) != len(hs): return "intervals of different length with one hash: %s" % sorted(hs)
        e = ev[8]
        if e["sum"] != a + b or e["sum2"] != a + b or not e["eq"] or e["h2"] != e["h3"] or e["h"] != e["h3"]: return "+%d and +%d add up to %s" % (a, b, e)
        if ev[10]["eq"] != ["11", "11"] or ev[11]["hash"] != ev[12]["hash"]: return "+%d made by addition and directly differ" % (a + b)
        return None
    return Case(lines, judge, key=(tuple(ns), a, b), text=str(ns))


def run(ctx):
    ctx.rule = ("families of equal and nearly equal terms, built apart, parsed, cloned and reordered; hashes of all subterms are compared with structure, and with themselves after further use; pairs that "
                "differ in exactly one of %d ways must differ in hash but for one in a hundred. Distinct families and pairs are counted." % len(CLASSES))
    ctx.assumptions = ["hashes are 64 bits of a non-cryptographic function: a rate of coincidences below 1 % per kind of difference is accepted"]
    ctx.batches(equal, ctx.n(4000, 120000), 250)
    ctx.batches(distinct, ctx.n(5000, 150000), 250)
    ctx.batches(parsed, ctx.n(3000, 80000), 300)
    ctx.batches(lambda r, st: parsed(r, st, [large.text(r) for _ in range(2)]), ctx.n(160, 4000), 10)
    ctx.batches(intervals, ctx.n(400, 4000), 400)
    o = ctx.stats.obs
    for c in CLASSES:
        n, same = o["differ by " + c], o["same hash, differ by " + c]
        if n >= 100 and same > max(2, n * .01): ctx.stats.viols.append(violation("coincidences", "%d of %d pairs that differ by %s have the same hash, e.g. %s" % (same, n, c, next((s for s in ctx.stats.samples if s.startswith("same hash")), "")), "asan", []))
    n, d = o["distinct terms without variables"], o["distinct hashes of those"]
    if n - d > max(5, n * .01): ctx.stats.viols.append(violation("coincidences", "%d terms have only %d hashes" % (n, d), "asan", []))
