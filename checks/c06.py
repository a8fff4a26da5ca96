"""C06: compounds are built in normal form (constructors and parser against the reference model)."""
import itertools
from vlib import gen, judges as J, large, model as M, refparser as R, trace as T
from vlib.engine import Case
from vlib.recipe import Recipe
from vlib.run import hx

SETLIKE = (M.EXTINT, M.INTINT, M.EXTSET, M.INTSET)


def judge_dump(e, want, what=""):
    d = T.read(e["term"])
    if d.root != want: return "%sbuilt %s instead of %s" % (what, M.show(d.root), M.show(want))
    return T.structure_problem(d)


def case_recipe(r, st):
    """A random construction program; every term it builds is compared with the model."""
    p = Recipe(r, names=r.choice(((b"A", b"B"), (b"A", b"B", b"C"), (b"A", b"B", b"C", b"D", b"E", b"F"))), vars=r.choice((0, .15, .4)))
    for _ in range(r.randint(2, 9)): p.any(r.choice((1, 2, 3)))
    conn = r.choice(SETLIKE) if r.random() < .6 else p.conn()
    p.anycompound(3, conn)
    slots = [s for s in p.slots if M.complexity(p.id[s]) <= 400]
    at = {}
    for s in slots:
        at[s] = len(p.lines)
        p.emit("dump d %d -1", s)
    p.lines.append("drops")
    return finish(p, at, st)


def finish(p, at, st):
    ids, lines = dict(p.id), p.lines
    for s in at:
        k, c, ch = M.node(ids[s])
        if k == "c": st.obs["compounds"] += 1; st.obs["connector %s" % M.CON_NAMES[c]] += 1
    last = ids[max(at)]
    text = M.show(last)

    def judge(ev):
        for s, i in at.items():
            w = judge_dump(ev[i], ids[s], "slot %d: " % s)
            if w: return w
    return Case(lines, judge, key=text if M.node(last)[0] == "c" else None, text=text)


def case_order(r, st):
    """The same components in several orders, with repetitions and groupings, through every constructor: one and the same term."""
    p = Recipe(r, names=(b"A", b"B", b"C"), vars=r.choice((0, .3)))
    conn = r.choice((M.EXTINT, M.INTINT)) if r.random() < .5 else r.choice(sorted(M.CON_REDUCIBLE))
    comps = []
    for _ in range(r.randint(2, 5)):
        if r.random() < .6 and conn in (M.EXTINT, M.INTINT):
            c = r.choice((M.EXTSET, M.INTSET))
            comps.append(p.compound(c, [p.any(1) for _ in range(r.randint(1, 4))]))
        else: comps.append(p.any(2))
    roots = [p.compound(conn, comps)]
    for _ in range(r.randint(2, 5)):
        cs = list(comps)
        if conn != M.SEQ:
            r.shuffle(cs)
            if r.random() < .5: cs.insert(r.randint(0, len(cs)), r.choice(cs))
        if r.random() < .5 and len(cs) > 2 and conn not in (M.EXTSET, M.INTSET, M.EXTINT, M.INTINT):
            i = r.randint(0, len(cs) - 2)
            j = r.randint(i + 2, len(cs))
            cs[i:j] = [p.compound(conn, cs[i:j])]
        roots.append(p.compound(conn, cs))
    at = {}
    for s in roots:
        at[s] = len(p.lines)
        p.emit("dump d %d -1", s)
    p.emit("cmp %d %s", len(roots), " ".join(map(str, roots)))
    p.lines.append("drops")
    ids, n = dict(p.id), len(p.lines) - 2
    st.obs["orders and groupings"] += len(roots)
    text = M.show(ids[roots[0]])

    def judge(ev):
        for s, i in at.items():
            w = judge_dump(ev[i], ids[s], "slot %d: " % s)
            if w: return w
        for i, a in enumerate(roots):
            for j, b in enumerate(roots):
                if (ev[n]["eq"][i][j] == "1") != (ids[a] == ids[b]): return "the same compound in two orders or groupings: == is %s (%s, %s)" % (ev[n]["eq"][i][j], M.show(ids[a]), M.show(ids[b]))
    return Case(p.lines, judge, key=("o", text), text=text)


def case_text(r, st, term=None):
    """Parsed compounds, with few names so that components coincide."""
    g = gen.Gen(r, names=r.choice(((b"A", b"B"), (b"A", b"B", b"C", b"D"))), odd=0, wide=.02, nested=.75, maxdepth=4)
    term = term or (g.compound(4) if r.random() < .5 else setlike(r, 3))
    t = term + b"."
    ref = R.parse(t)
    if ref is None: return None
    st.obs["parsed compounds"] += 1

    def judge(ev):
        e = ev[0]
        return J.accept_problem(e, ref) or judge_dump(e, ref.term, "%r: " % t[:300])
    return Case(["q -1 d " + hx(t)], judge, key=t, text=t.decode("latin1"))


def setlike(r, d):
    """Intersections of sets, products, images and atoms over few names."""
    a = lambda: r.choice((b"A", b"B", b"C"))
    k = r.random()
    if d <= 0 or k < .25: return a()
    n = r.randint(1, 4)
    sub = [setlike(r, d - 1) for _ in range(n)]
    if k < .45: return r.choice((b"{%s}", b"[%s]")) % b",".join(sub)
    if k < .5: return b"(*,%s)" % b",".join(sub)
    if k < .55: return b"(--,%s)" % sub[0]
    sub.append(setlike(r, d - 1))
    if k < .9: return b"(%s,%s)" % (r.choice((b"&", b"|")), b",".join(sub))
    return b"(%s,%s)" % (r.choice((b"&&", b"||", b"&|", b"&/")), b",".join(sub))


def small_space(ctx):
    """Every compound of one or two (three) components out of a fixed family, for every connector."""
    fam = [("A",), ("B",), ("iv",), ("$",), ("--", "A"), ("{", "A"), ("{", "A", "B"), ("{", "B", "C"), ("[", "A"), ("[", "A", "B"), ("&", "A", "B"), ("|", "A", "B"),
           ("&&", "A", "B"), ("||", "A", "C"), ("&/", "A", "B"), ("&|", "A", "B"), ("*", "A", "B"), ("-", "A", "B"), ("st", "A", "B"), ("{&", "A"), ("#",)]
    names = {b.decode(): n for n, b in enumerate(M.CONNS)}

    def make(p, f):
        if f == ("iv",): return p.interval(3)
        if f == ("$",): return p.var(0, 0)
        if f == ("#",): return p.var(1, 0)
        if len(f) == 1: return p.atom(f[0].encode())
        if f[0] == "st": return p.statement(p.atom(b"A"), 0, p.atom(b"B"))
        if f[0] == "{&": return p.compound(M.EXTINT, [p.compound(M.EXTSET, [p.atom(b"A")]), p.compound(M.INTSET, [p.atom(b"B")])])
        return p.compound(names[f[0]], [p.atom(x.encode()) for x in f[1:]])

    combos = [(c, fs) for c in range(15) for n in (1, 2) for fs in itertools.product(fam, repeat=n)]
    combos += [(c, fs) for c in (M.EXTINT, M.INTINT) for fs in itertools.combinations(fam, 3)]
    if ctx.tier == "thorough": combos += [(c, fs) for c in range(15) for fs in itertools.product(fam, repeat=3)]
    ctx.extra["enumerated compounds"] = len(combos)
    chunks = [combos[i:i + 1000] for i in range(0, len(combos), 1000)]

    def one(ctx, job):
        from vlib.engine import Stats, run_cases
        n, chunk = job
        M.reset()
        r, st, cases = ctx.rng("small", n), Stats(), []
        for c, fs in chunk:
            p = Recipe(r)
            x = p.compound(c, [make(p, f) for f in fs])
            at = {x: len(p.lines)}
            p.emit("dump d %d -1", x)
            p.lines.append("drops")
            cases.append(finish(p, at, st))
        run_cases(st, "asan", ctx.driver("asan"), cases)
        return st
    ctx.driver("asan")
    ctx.map(one, list(enumerate(chunks)))


def run(ctx):
    ctx.rule = ("random construction programs through ten constructor variants, the same components in permuted, repeated and regrouped form, every compound of 1-2 (3) "
                "components out of a family of 21 for every connector, and parsed compounds over few names; each built term is dumped and compared with the reference "
                "normal form. Non-trivial: distinct compounds, by structure.")
    ctx.assumptions = ["components of each test term number at most a few hundred", "the reference normal form of vlib/model.py states Narsese's reductions"]
    small_space(ctx)
    ctx.batches(case_recipe, ctx.n(4000, 120000), 250)
    ctx.batches(case_order, ctx.n(5000, 120000), 400)
    ctx.batches(case_text, ctx.n(12000, 300000), 1000)
    ctx.batches(lambda r, st: case_text(r, st, large.merged(r) if r.random() < .7 else large.wide(r)), ctx.n(240, 8000), 15)
