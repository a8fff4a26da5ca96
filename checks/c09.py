"""C09: structural equality, a strict weak term order, and collections that behave as sets and sequences."""
from vlib import gen, large, model as M
from vlib.engine import Case
from vlib.recipe import Recipe
from vlib.run import hx


def variant(p, s, depth=0):
    """A term that differs from that of slot s in one place, if any: another atom, variable, order, connector or number of components."""
    r = p.r
    k, d, ch = M.node(p.id[s])
    if k == "v": return p.var(r.choice((d[0], r.randrange(3))), r.choice((d[1], d[1] + 1, 0)), share=r.random() < .5)
    if k in "ai": return p.leaf() if r.random() < .7 else s
    return None


class Builder(Recipe):
    """Also remembers how each term was built, to build it again with a change."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.how = {}

    def statement(self, s, c, p, how=None):
        x = super().statement(s, c, p, how)
        self.how[x] = ("s", c, (s, p))
        return x

    def compound(self, conn, comps, how=None):
        x = super().compound(conn, comps, how)
        self.how[x] = ("c", conn, tuple(comps))
        return x

    def rebuild(self, s, prob):
        """The term of slot s built anew, with random changes."""
        r = self.r
        h = self.how.get(s)
        if h is None:
            v = variant(self, s) if r.random() < prob else None
            return s if v is None else v
        if r.random() < .3 and prob < .5 and r.random() > prob: return s
        kind, sym, ch = h
        ch = [self.rebuild(c, prob) for c in ch]
        if kind == "s":
            if r.random() < prob * .4: sym = r.choice((0, 1, 5, 6, 9))
            if r.random() < prob * .4: ch.reverse()
            return self.statement(ch[0], sym, ch[1])
        if r.random() < prob * .3: sym = r.choice((M.CONJ, M.DISJ, M.EXTSET, M.INTSET, M.PROD, M.SEQ, M.PAR))
        if r.random() < .4 and (sym in M.CON_COMM or r.random() < prob): r.shuffle(ch)
        if r.random() < prob * .3 and len(ch) > 1: del ch[r.randrange(len(ch))]
        if r.random() < prob * .3: ch.insert(r.randint(0, len(ch)), r.choice(ch) if r.random() < .5 else self.leaf())
        return self.compound(sym, ch)


def collect(r, vars, n):
    """Slots of terms that are equal or nearly so."""
    p = Builder(r, names=r.choice(((b"A", b"B"), (b"A", b"B", b"C", b"D"))), vars=vars)
    roots = [p.any(r.choice((1, 2, 3))) for _ in range(2)] + [p.anycompound(r.choice((1, 2, 3)))]
    while len(roots) < n:
        x = r.choice(roots)
        k = r.random()
        if k < .7:
            y = p.rebuild(x, r.choice((0, .1, .3)))
            roots.append(y)
        elif k < .82:
            y = p.slot(p.id[x])
            p.emit("clone %d %d", y, x)
            roots.append(y)
        else: roots.append(p.any(2))
    return p, roots


def order_problem(eq, lt, ids):
    n = len(ids)
    for i in range(n):
        for j in range(n):
            same = ids[i] == ids[j]
            if (eq[i][j] == "1") != same: return "%s == %s is %s" % (M.show(ids[i]), M.show(ids[j]), eq[i][j])
            if lt[i][j] == "1" and (same or lt[j][i] == "1"): return "%s < %s is true%s" % (M.show(ids[i]), M.show(ids[j]), ", and the other way round" if not same else " of equal terms")
            if lt[i][j] == "0" and lt[j][i] == "0" and not same: return "%s and %s are unordered" % (M.show(ids[i]), M.show(ids[j]))
    # a total order on the classes: the numbers of smaller terms decide it
    below = {}
    for i in range(n): below[ids[i]] = {ids[j] for j in range(n) if lt[j][i] == "1"}
    for a, s in below.items():
        for b in s:
            if not below[b] <= s: return "the order is not transitive below %s and %s" % (M.show(a), M.show(b))
    return None


def matrices(r, st):
    p, roots = collect(r, r.choice((0, .2, .5)), r.randint(6, 18))
    p.emit("cmp %d %s", len(roots), " ".join(map(str, roots)))
    n = len(p.lines) - 1
    p.lines.append("drops")
    ids = [p.id[x] for x in roots]
    st.obs["pairs compared"] += len(ids)**2
    st.obs["pairs equal though built apart"] += sum(ids[i] == ids[j] for i in range(len(ids)) for j in range(len(ids)) if roots[i] != roots[j])
    key = tuple(sorted(map(M.show, set(ids))))

    def judge(ev): return order_problem(ev[n]["eq"], ev[n]["lt"], ids)
    return Case(p.lines, judge, key=key, text="%d terms, e.g. %s" % (len(ids), M.show(ids[-1])))


def collections(r, st):
    """Set operations, sequences and every way of walking them."""
    p, roots = collect(r, r.choice((0, .3)), r.randint(4, 14))
    where = {}
    for x in roots:
        where[x] = len(p.lines)
        p.emit("addr %d", x)
    plan, sets, top = [], {}, 0
    for _ in range(r.randint(2, 5)):
        cs = [r.choice(roots) for _ in range(r.choice((0, 1, 2, 3, 5, 8, 20)))]
        comm = r.random() < .75
        plan.append((len(p.lines), "new", comm, list(cs)))
        p.emit("ts %d new %d %d %d %s", top, comm, r.randrange(4), len(cs), " ".join(map(str, cs)))
        sets[top] = (comm, list(cs))
        top += 1
    for _ in range(r.randint(1, 6)):
        cands = [k for k, v in sets.items() if v[0]]
        if not cands: break
        args = [r.choice(cands) for _ in range(r.choice((1, 2, 2, 2, 3, 4)))]
        op = r.choice(("union", "inter", "diff"))
        vals = [{p.id[x] for x in sets[a][1]} for a in args]
        res = set(vals[0])
        for v in vals[1:]: res = res | v if op == "union" else res & v if op == "inter" else res - v
        plan.append((len(p.lines), "op " + op, True, [next(x for a in args for x in sets[a][1] if p.id[x] == y) for y in res]))
        p.emit("ts %d %s %d %s", top, op, len(args), " ".join(map(str, args)))
        sets[top] = (True, plan[-1][3])
        top += 1
    refused = []
    if r.random() < .4: # of nothing, or of a sequence among others: refused, and nothing made of it
        seqs = [k for k, v in sets.items() if not v[0]]
        args = []
        if seqs:
            args = [r.choice(list(sets)) for _ in range(r.choice((0, 0, 1, 2)))]
            args.insert(r.randint(0, len(args)), r.choice(seqs))
        refused.append((len(p.lines), args))
        p.emit("ts %d %s %d %s", top, r.choice(("union", "inter", "diff")), len(args), " ".join(map(str, args)))
        st.obs["set operations on sequences or on nothing"] += 1
    for k in list(sets):
        if r.random() < .3:
            x = r.choice(roots)
            sets[k] = (sets[k][0], sets[k][1] + [x])
            plan.append((len(p.lines), "push", sets[k][0], list(sets[k][1])))
            p.emit("ts %d push 1 %d", k, x)
    for k, v in sets.items():
        plan.append((len(p.lines), "iter", v[0], list(v[1])))
        p.emit("iter %d", k)
    p.lines.append("drops")
    ids = dict(p.id)
    st.obs["collections"] += len(sets)
    key = tuple(p.lines)

    def judge(ev):
        for i, args in refused:
            if "exc" not in ev[i]: return "a set operation on %s gives %s" % ("nothing" if not args else "sequences", ev[i])
        for i, e in enumerate(ev):
            if "exc" in e and i not in {k for k, _ in refused}: return "%s threw %r" % (p.lines[i], bytes.fromhex(e["exc"]))
        of = {}
        for x, i in where.items(): of.setdefault(ev[i]["addr"], ids[x])
        for i, what, comm, want in plan:
            e = ev[i]
            w = [ids[x] for x in want]
            lists = [("", e["seq"])] if what != "iter" else [(k, e[k]) for k in ("pre", "post", "rng", "plus", "copy", "vec")] + [("minus", e["minus"])]
            for name, seq in lists:
                got = [of.get(a) for a in seq]
                if None in got: return "%s: a component that was never put in" % what
                if comm:
                    if len(set(got)) != len(got): return "%s %s: equal components in a set: %s" % (what, name, [M.show(g) for g in got][:5])
                    if set(got) != set(w): return "%s %s: a set of %s instead of %s" % (what, name, sorted(map(M.show, set(got)))[:6], sorted(map(M.show, set(w)))[:6])
                elif got != w: return "%s %s: the sequence %s instead of %s" % (what, name, list(map(M.show, got))[:6], list(map(M.show, w))[:6])
                if what == "iter" and seq != e["pre"]: return "walking (%s) gives another order" % name
            n = len(set(w)) if comm else len(w)
            if e["n"] != n: return "%s: size %d instead of %d" % (what, e["n"], n)
            if what == "iter" and e["eq"] != [int(n == 0), int(n != 0), 1, 1]: return "iterators compare as %s at size %d" % (e["eq"], n)
        return None
    return Case(p.lines, judge, key=key, text="%d collections" % len(sets), exc_ok=bool(refused))


def parsed(r, st, texts=None):
    """Subterms of parsed tasks against constructed equals."""
    from vlib import refparser as R, trace as T
    g = gen.Gen(r, names=[b"A", b"B", b"C"], odd=0, wide=.05, maxdepth=3)
    texts = texts or [g.statement() + b"." for _ in range(3)]
    texts += [t for t in texts] + [r.choice(texts).replace(b"A", b"B", 1)]
    lines, ids, slots = [], [], []
    for n, t in enumerate(texts):
        p = R.parse(t)
        if p is None: continue
        lines += ["k -1 - %d %s" % (n, hx(t)), "taskterm %d %d" % (n, n)]
        slots.append(n)
        ids.append(p.term)
        if M.node(p.term)[0] == "s":
            for k, part in enumerate(("subj", "pred")):
                lines.append("%s %d %d" % (part, 20 + 2 * n + k, n))
                slots.append(20 + 2 * n + k)
                ids.append(M.node(p.term)[2][k])
    if not ids: return None
    n = len(lines)
    lines += ["cmp %d %s" % (len(slots), " ".join(map(str, slots))), "drops", "droptasks"]
    st.obs["pairs compared"] += len(ids)**2

    def judge(ev): return order_problem(ev[n]["eq"], ev[n]["lt"], ids)
    return Case(lines, judge, key=tuple(texts), text=texts[0].decode("latin1"))


def alike(r):
    """Large terms which differ, if at all, in one place."""
    t = large.text(r, 130)
    out = [t]
    for _ in range(r.randint(1, 3)):
        w = t.split(b"k")
        if len(w) > 2:
            i = r.choice((1, len(w) - 1, r.randrange(1, len(w))))
            w[i] = b"1" + w[i]
            out.append(b"k".join(w))
        else: out.append(large.text(r, 130))
    return out


def run(ctx):
    ctx.rule = ("families of terms that are equal or differ in one place (built apart, reordered, cloned, parsed) are compared pairwise: == against structure, < for strictness, totality and "
                "transitivity; collections of them, their unions, intersections and differences, and every way of walking them, against sets and sequences. Distinct families are counted.")
    ctx.assumptions = ["statements with commutative copulas are compared side by side, as written"]
    ctx.batches(matrices, ctx.n(6000, 200000), 250)
    ctx.batches(collections, ctx.n(5000, 150000), 250)
    ctx.batches(parsed, ctx.n(3000, 80000), 300)
    ctx.batches(lambda r, st: parsed(r, st, alike(r)), ctx.n(160, 4000), 10)
