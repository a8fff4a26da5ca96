"""C13: a clone equals its original and neither can be told apart by what happens to the other."""
from vlib import gen, large, model as M, refparser as R, trace as T
from vlib.engine import Case
from vlib.recipe import Recipe
from vlib.run import hx
from checks.c12 import shift, tables

INDEPENDENT = {0, 1, 4, 6, 7}  # constructor variants that copy their components


def attrs(e):
    d = T.read(e["term"])
    out = {}
    for i, x in zip(d.ids, d.nodes): out.setdefault(i, set()).add((x[T.HASH], x[T.CPLX], x[T.FLAGS], x[T.COMM]))
    return d, out


def bag(s):
    """A printed form up to the order of commutative components: its bytes, sorted."""
    return bytes(sorted(bytes.fromhex(s)))


def same(a, b, what):
    (da, aa), (db, ab) = attrs(a), attrs(b)
    if da.root != db.root: return "%s is %s instead of %s" % (what, M.show(db.root), M.show(da.root))
    if a["hash"] != b["hash"]: return "%s has hash %s instead of %s" % (what, b["hash"], a["hash"])
    for i in aa:
        if aa[i] != ab.get(i): return "%s: (hash, complexity, flags, commutativity) of %s are %s instead of %s" % (what, M.show(i), ab.get(i), aa[i])
    return T.position_problem(db) and "%s: %s" % (what, T.position_problem(db))


class Script:
    def __init__(self, p): self.p, self.last, self.checks = p, {}, []

    def dump(self, s):
        n = len(self.p.lines)
        self.p.emit("dump v %d -1", s)
        self.p.emit("print %d -1", s)
        return n

    def unchanged(self, s, what):
        """The record of slot s is as the last one of it."""
        n = self.dump(s)
        if s in self.last: self.checks.append(("id", self.last[s], n, what))
        self.last[s] = n


def judge_of(checks):
    def judge(ev):
        for c in checks:
            if c[0] == "id":
                _, a, b, what = c
                if ev[a] != ev[b]:
                    da, db = T.read(ev[a]["term"]), T.read(ev[b]["term"])
                    return "%s changed: %s became %s" % (what, M.show(da.root), M.show(db.root)) if da.root != db.root else "%s changed: %s" % (what, str([(x, y) for x, y in zip(ev[a]["term"], ev[b]["term"]) if x != y])[:500])
                if ev[a + 1] != ev[b + 1]: return "%s is printed %r, and was %r" % (what, bytes.fromhex(ev[b + 1]["s"]), bytes.fromhex(ev[a + 1]["s"]))
            elif c[0] == "eq":
                _, a, b, what = c
                w = same(ev[a], ev[b], what)
                if w: return w
                for k in "sc":
                    if bag(ev[a + 1][k]) != bag(ev[b + 1][k]): return "%s is printed %r instead of %r" % (what, bytes.fromhex(ev[b + 1][k]), bytes.fromhex(ev[a + 1][k]))
            elif c[0] == "is":
                _, n, want, what = c
                w = tables(ev[n], want, what)
                if w: return w
            elif c[0] == "cmp":
                _, n, what = c
                if ev[n]["eq"] != ["11", "11"] or ev[n]["lt"] != ["00", "00"]: return "%s: == %s, < %s" % (what, ev[n]["eq"], ev[n]["lt"])
            elif c[0] == "reg":
                left = [bytes.fromhex(x[0]) for x in ev[c[1]]["reg"]["names"]]
                if left: return "all is dropped, but %s are still registered" % left[:5]
        return None
    return judge


def kinds(p, i): return [k for k in range(3) if M.has_vars(i)[k]]


def exercise(p, sc, x, r, st, others=()):
    """Clone x, then change and drop one of the two, looking at the other."""
    i = p.id[x]
    c = p.next
    p.next += 1
    sc.unchanged(x, "the original")
    p.emit("clone %d %d", c, x)
    p.id[c] = i
    n = sc.dump(c)
    sc.last[c] = n
    sc.checks.append(("eq", sc.last[x], n, "the clone of %s" % M.show(i)))
    sc.checks.append(("cmp", len(p.lines), "original and clone of %s" % M.show(i)))
    p.emit("cmp 2 %d %d", x, c)
    sc.unchanged(x, "the original (cloned since)")
    steps = r.sample(("clone", "orig", "second", "part", "use"), r.randint(1, 4))
    ci, xi = i, i
    ks = kinds(p, i)
    for s in steps:
        if s == "clone" and ks:
            d = [(k, r.randint(1, 5)) for k in ks if r.random() < .7]
            for k, v in d: p.emit("renum %d %d %d", c, k, v)
            ci = shift(ci, dict(d))
            sc.last.pop(c)
            sc.unchanged(c, "")
            sc.checks.append(("is", sc.last[c], ci, "the renumbered clone"))
            sc.unchanged(x, "the original (its clone renumbered since)")
            st.obs["clones renumbered"] += 1
        elif s == "orig" and ks and M.node(i)[0] != "v":
            d = [(k, r.randint(1, 5)) for k in ks if r.random() < .7]
            for k, v in d: p.emit("renum %d %d %d", x, k, v)
            xi = shift(xi, dict(d))
            sc.last.pop(x)
            sc.unchanged(x, "")
            sc.checks.append(("is", sc.last[x], xi, "the renumbered original"))
            sc.unchanged(c, "the clone (its original renumbered since)")
            st.obs["originals renumbered"] += 1
        elif s == "second":
            b = p.next
            p.next += 1
            p.emit("clone %d %d", b, c)
            if ks:
                for k in ks: p.emit("renum %d %d %d", b, k, 3)
            p.emit("drop %d", b)
            sc.unchanged(c, "the clone (itself cloned since)")
            sc.unchanged(x, "the original (its clone cloned since)")
        elif s == "part":
            k, d, ch = M.node(i)
            if k not in "sc" or not ch: continue
            b = p.next
            p.next += 1
            if k == "s": p.emit("%s %d %d", r.choice(("subj", "pred")), b, c)
            else: p.emit("comp %d %d %d", b, c, r.randrange(len(ch)))
            sc.unchanged(b, "")
            if r.random() < .5:
                p.emit("drop %d", x)
                sc.unchanged(b, "a part of the clone (the original dropped since)")
                p.emit("drop %d", c)
                sc.unchanged(b, "a part of the clone (both dropped since)")
                st.obs["parts outliving both"] += 1
                return
        elif s == "use":
            b = p.next
            p.next += 1
            p.emit("cm %d %d %d 2 %d %d", b, r.randrange(7), r.randrange(6), c, x) if r.random() < .5 else p.emit("st %d %d %d %d %d", b, c, r.randrange(12), x, r.randrange(2))
            sc.unchanged(x, "the original (used with its clone since)")
            sc.unchanged(c, "the clone (used with its original since)")
            p.emit("drop %d", b)
            sc.unchanged(x, "the original (used with its clone since)")
    k = r.random()
    if k < .5:
        for o in others: p.emit("drop %d", o)
        p.emit("drop %d", x)
        sc.unchanged(c, "the clone (its original dropped since)")
        st.obs["originals dropped first"] += 1
    else:
        p.emit("drop %d", c)
        sc.unchanged(x, "the original (its clone dropped since)")
        st.obs["clones dropped first"] += 1


def end(p, sc):
    p.lines += ["drops", "droptasks"]
    sc.checks.append(("reg", len(p.lines)))
    p.lines.append("reg -1")


def constructed(r, st):
    p = Recipe(r, names=(b"A", b"B", b"C"), vars=r.choice((.1, .3, .6)), ops=.05, intervals=.05)
    for _ in range(r.randint(0, 3)): p.any(2)
    x = p.any(3) if r.random() < .3 else p.statement(p.any(2), p.cop(), p.any(2)) if r.random() < .4 else p.anycompound(3)
    if M.complexity(p.id[x]) > 150: return None
    i = p.id[x]
    others = [s for s in p.slots if s != x]
    r.shuffle(others)
    sc = Script(p)
    exercise(p, sc, x, r, st, others)
    end(p, sc)
    st.obs["with variables" if any(M.has_vars(i)) else "without variables"] += 1
    return Case(p.lines, judge_of(sc.checks), key=M.show(i), text=M.show(i))


def parsed(r, st, t=None):
    g = gen.Gen(r, names=(b"A", b"B", b"C"), odd=.03, wide=.04, maxdepth=4)
    t = t or (g.statement() + b"." if r.random() < .5 else g.compound(4) + b".")
    ref = R.parse(t)
    if ref is None or M.complexity(ref.term) > 150: return None
    p = Recipe(r)
    p.emit("k -1 v 1 %s", hx(t))
    x = p.slot(ref.term)
    p.emit("taskterm %d 1", x)
    sc = Script(p)
    early = r.random() < .5
    if early: p.emit("droptask 1")
    exercise(p, sc, x, r, st)
    p.emit("q -1 p %s", hx(t))
    end(p, sc)
    st.obs["with variables" if any(M.has_vars(ref.term)) else "without variables"] += 1
    return Case(p.lines, judge_of(sc.checks), key=t, text=t.decode("latin1"))


def copies(r, st):
    """Terms built from copies of their components do not follow what happens to these, nor the other way round."""
    p = Recipe(r, names=(b"A", b"B"), vars=.6, ops=.02)
    parts = [p.any(r.choice((0, 1, 2))) for _ in range(r.randint(1, 4))]
    if any(M.complexity(p.id[s]) > 60 for s in parts): return None
    if len(parts) == 2 and r.random() < .4: x = p.statement(parts[0], p.cop(), parts[1], 0)
    else:
        conn = p.conn()
        hows = [h for h in p.hows(conn, len(parts)) if h in INDEPENDENT]
        x = p.compound(conn, parts, r.choice(hows))
    sc = Script(p)
    sc.unchanged(x, "")
    sc.checks.append(("is", sc.last[x], p.id[x], "the term"))
    for s in set(parts): sc.unchanged(s, "")
    used = False
    for s in sorted(set(parts)):
        ks = kinds(p, p.id[s])
        if ks and r.random() < .6:
            for k in ks: p.emit("renum %d %d %d", s, k, 4)
            sc.unchanged(x, "the term built from copies (a component renumbered since)")
            used = True
            for o in list(sc.last):
                if o != x: sc.last.pop(o)
    ks = kinds(p, p.id[x])
    if ks:
        for s in set(parts): sc.unchanged(s, "")
        for k in ks: p.emit("renum %d %d %d", x, k, 7)
        for s in sorted(set(parts)): sc.unchanged(s, "a component (the term built from its copy renumbered since)")
        used = True
        sc.last.pop(x)
        sc.unchanged(x, "")
    for s in list(p.slots):
        if s != x: p.emit("drop %d", s)
    sc.unchanged(x, "the term (its components dropped since)")
    end(p, sc)
    if used: st.obs["terms built from copies"] += 1
    i = p.id[x]
    return Case(p.lines, judge_of(sc.checks), key=M.show(i) if used else None, text=M.show(i))


def run(ctx):
    ctx.rule = ("parsed and constructed terms are cloned; both are dumped (structure, attributes, hashes, variable tables) and printed, and again after the other was renumbered, cloned, used, taken apart or dropped: "
                "the records of the untouched one must be identical. Distinct terms are counted.")
    ctx.assumptions = ["terms without variables may share everything with their clones, since nothing in them can be changed"]
    ctx.batches(constructed, ctx.n(6000, 150000), 250)
    ctx.batches(parsed, ctx.n(5000, 120000), 250)
    ctx.batches(lambda r, st: parsed(r, st, large.text(r)), ctx.n(160, 4800), 15)
    ctx.batches(copies, ctx.n(3000, 80000), 250)
