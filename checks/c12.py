"""C12: variables keep their identity (kind and name, within a task) and every term's variable tables list exactly its variables' occurrences."""
import random
from vlib import gen, large, model as M, refparser as R, trace as T
from vlib.engine import Case
from vlib.recipe import Recipe
from vlib.run import hx


def ranks(v):
    m = {x: n for n, x in enumerate(sorted(set(v)))}
    return [m[x] for x in v]


def tables(e, want, what, tab=True):
    d = T.read(e["term"])
    if want is not None and d.root != want: return "%s is %s instead of %s" % (what, M.show(d.root), M.show(want))
    w = T.position_problem(d) if tab else None
    return w and "%s: %s" % (what, w)


def normal(e, what):
    for kind, ((ind, pos), norm, h) in zip("$#?", e["tables"]):
        if norm != ranks(ind): return "%s: the normal form of the numbers %s (%s) is %s" % (what, ind, kind, norm)
    return None


class Vars(gen.Gen):
    """Texts full of variables; remembers nothing: the reference parser numbers them."""

    def term(self, d=None):
        if self.r.random() < .35: return self.variable()
        return gen.Gen.term(self, d)


def parsed(r, st, t=None):
    g = Vars(r, names=(b"A", b"B"), odd=.01, wide=.03, maxdepth=r.choice((3, 4, 5)), nested=.6)
    g.vnames = r.choice((g.vnames, [b"x"], [b"x", b"y"], [b"v%d" % i for i in range(14)], [b"1", b"0", b"2", b"10"]))
    t = t or (g.task() if r.random() < .6 else (g.statement() if r.random() < .5 else g.compound(4)) + r.choice((b".", b"?", b"!", b"@")))
    ref = R.parse(t)
    if ref is None: return None
    h = M.has_vars(ref.term)
    st.obs["tasks with %d kinds of variables" % sum(h)] += 1
    occ = sum(1 for x, _ in M.walk(ref.term) if M.node(x)[0] == "v")
    st.obs["occurrences of variables"] += occ
    deltas = [(k, r.randint(1, 9)) for k in range(3) if h[k]]
    lines = ["k %d v 1 %s" % (r.choice((-1, -1, 1)), hx(t)), "taskterm 1 1", "norm 1"] + ["renum 1 %d %d" % d for d in deltas] + ["dump v 1 -1", "drops", "droptask 1"]

    def judge(ev):
        if not ev[0]["ok"]: return "%r is rejected" % t[:300]
        w = tables(ev[0], ref.term, repr(t[:300])) or normal(ev[2], repr(t[:300]))
        if w: return w
        # numbers are shared by all tables that list an occurrence
        return tables(ev[-3], shift(ref.term, dict(deltas)), "%r, renumbered by %s," % (t[:300], deltas))
    return Case(lines, judge, key=t if occ else None, text=t.decode("latin1"))


def shift(i, by):
    """The term with other variable numbers, component order of commutative ones aside."""
    done = {}
    def f(x):
        if x in done: return done[x]
        k, d, ch = M.node(x)
        if k == "v": y = M.var(d[0], d[1] + by.get(d[0], 0))
        elif not ch: y = x
        elif k == "s": y = M.statement(f(ch[0]), d, f(ch[1]))
        else: y = M.raw_compound(d, [f(c) for c in ch])
        done[x] = y
        return y
    return f(i)


def identity(r, st):
    """The same text under another naming of its variables denotes the same term; with two names made one, or one split, it does not."""
    names = [b"x", b"y", b"z", b"w", b"xy", b"x1", b"1", b"10", b"01", b"X", b"_", b"longvariablename", b"longvariablenamE"]
    r.shuffle(names)
    occ, kinds = [], r.choice((b"$", b"#", b"?", b"$#", b"$#?"))
    n = r.randint(2, 9)
    for _ in range(n): occ.append((r.choice(kinds), r.randrange(r.choice((2, 3, 6)))))


    seed = r.random()

    def build(naming):
        q = random.Random(seed)
        ts = [bytes([k]) + naming[(k, i)] for k, i in occ]
        while len(ts) > 1:
            a = q.randint(1, min(3, len(ts)))
            i = q.randint(0, len(ts) - a)
            j = q.randrange(4)
            part = ts[i:i + a]
            if j == 0 and a == 2: x = b"<%s %s %s>" % (part[0], q.choice((b"-->", b"==>", b"=/>")), part[1])
            elif j == 1: x = b"(*," + b",".join(part) + b")"
            elif j == 2: x = b"(/,A," + b",".join(part) + b")"
            else: x = b"(&/," + b",".join(part + [b"A"]) + b")"
            ts[i:i + a] = [x]
            if len(ts) == 1 or q.random() < .05: break
        return b"(*," + b",".join(ts) + b")." if len(ts) > 1 or ts[0][:1] in kinds else ts[0] + b"."
    ids = sorted(set(occ))
    one = {v: names[i] for i, v in enumerate(ids)} if len(ids) <= len(names) else None
    if one is None: return None
    perm = list(names)
    r.shuffle(perm)
    two = {v: perm[i] for i, v in enumerate(ids)}
    t1, t2 = build(one), build(two)
    # kinds have their own name spaces
    three = {(k, i): names[i] for k, i in ids}
    t3 = build(three)
    texts = [t1, t2, t3]
    lines = ["q %d v %s" % (r.choice((-1, 1, 2)), hx(t)) for t in texts]
    st.obs["renamings"] += 2

    def judge(ev):
        roots = []
        want = {}
        expect = []
        cnt = {}
        for v in occ:
            if v not in want:
                want[v] = cnt.get(v[0], 0)
                cnt[v[0]] = want[v] + 1
            expect.append((b"$#?".index(v[0]), want[v]))
        for t, e in zip(texts, ev):
            if not e["ok"]: return "%r is rejected" % t[:300]
            w = tables(e, None, repr(t[:300]))
            if w: return w
            d = T.read(e["term"])
            roots.append(d.root)
            got = [tuple(x[T.SYM]) for x in d.nodes if x[T.KIND] == "v"]
            if got != expect: return "the variables of %r are numbered %s instead of %s" % (t[:300], got, expect)
        if len(set(roots)) != 1: return "%r and %r denote different terms" % (t1[:300], t2[:300])
        return None
    return Case(lines, judge, key=tuple(texts), text=t1.decode("latin1"))


def constructed(r, st):
    """Terms built from variables through the constructors, including ones shared between several terms, merged and cloned."""
    p = Recipe(r, names=(b"A", b"B"), vars=r.choice((.3, .6)), ops=.02, intervals=.05)
    roots = []
    for _ in range(r.randint(2, 6)): roots.append(p.any(r.choice((1, 2, 3))))
    roots.append(p.anycompound(2, r.choice((M.EXTINT, M.INTINT, M.CONJ, M.SEQ, None))))
    slots = [s for s in p.slots if M.complexity(p.id[s]) <= 200]
    r.shuffle(slots)
    slots = slots[:14]
    at = []

    def look(s, what):
        at.append((len(p.lines), len(p.lines) + 1, s, what))
        p.emit("dump v %d -1", s)
        p.emit("norm %d", s)
    for s in slots: look(s, "slot %d" % s)
    c = p.next
    for s in slots[:6]:
        p.emit("clone %d %d", c, s)
        p.id[c] = p.id[s]
        look(c, "clone of slot %d" % s)
        if r.random() < .5: p.emit("drop %d", c)
        c += 1
    for s in slots: look(s, "slot %d, used since," % s)
    p.lines.append("drops")
    ids = dict(p.id)
    for s in slots:
        n = sum(1 for x, _ in M.walk(ids[s]) if M.node(x)[0] == "v")
        st.obs["tables of terms with %s occurrences" % (n if n < 4 else "4 to 9" if n < 10 else "10 or more")] += 1
    key = tuple(sorted(M.show(ids[s]) for s in slots if any(M.has_vars(ids[s]))))

    def judge(ev):
        for n, m, s, what in at:
            w = tables(ev[n], ids[s], what) or normal(ev[m], what)
            if w: return w
        return None
    return Case(p.lines, judge, key=key or None, text=M.show(ids[slots[0]]))


def alone(r, st):
    """Variable tables by themselves: trees of them, with numbers added and removed at positions."""
    lines, n = [], r.randint(1, 9)
    base = 100
    kids = {0: []}
    for i in range(1, n): kids.setdefault(r.choice([j for j in range(i)]), []).append(i); kids[i] = kids.get(i, [])
    for i in range(n): lines.append("ix new %d" % (base + i))
    for i in range(n):
        for c in kids[i]: lines.append("ix con %d %d" % (base + i, base + c))
    leaves = []

    def walk(i, path):
        if not kids[i]: leaves.append((i, path))
        for k, c in enumerate(kids[i]): walk(c, path + [k])
    walk(0, [])
    own = {i: [] for i, _ in leaves}
    looks = []
    for rnd in range(r.randint(1, 3)):
        for _ in range(r.randint(0, 8)):
            i, path = r.choice(leaves)
            x = r.choice((0, 1, 2, 3, 7, 100, -1))
            if r.random() < .2:
                lines.append("ix rem %d %d %s" % (base, len(path), " ".join(map(str, path))))
                own[i] = []
            elif r.random() < .6 and path:
                lines.append("ix add %d %d %d %s" % (base, x, len(path), " ".join(map(str, path))))
                own[i].append(x)
            else:
                lines.append("ix add %d %d 0" % (base + i, x))
                own[i] = [x]
                # as in a term under construction: tables above are rebuilt from scratch
                if path: lines.append("ix rem %d %d %s" % (base, len(path), " ".join(map(str, path)))); own[i] = []
        lines.append("ix rebuild %d" % base)
        lines.append("ix clone %d %d" % (base + 50, base))
        looks.append((len(lines), len(lines) + 1, [(p, x) for i, p in leaves for x in own[i]]))
        lines.append("ix get %d %d" % (base, base + 50))
        lines.append("ix get %d" % (base + 50))
    for i in range(n): lines.append("ix drop %d" % (base + i))
    lines.append("ix drop %d" % (base + 50))
    st.obs["tables by themselves"] += 1

    def judge(ev):
        for a, b, want in looks:
            for e, what in ((ev[a], "a table"), (ev[b], "its clone")):
                ind, pos = e["t"]
                if sorted(zip(map(tuple, pos), ind)) != sorted((tuple(p), x) for p, x in want) or len(ind) != len(pos): return "%s lists %s at %s instead of %s" % (what, ind, pos, want)
                if e["norm"] != ranks(ind): return "the normal form of the numbers %s is %s" % (ind, e["norm"])
            if ev[a]["h"] != ev[b]["h"] or ev[a]["cmp"] != [1]: return "a table and its clone differ: %s %s" % (ev[a], ev[b])
        return None
    return Case(lines, judge, key=tuple(lines), text=" ".join(lines)[:300])


def run(ctx):
    ctx.rule = ("variable tables of all subterms of parsed, constructed, merged, cloned and renumbered terms, recomputed from the dumped structure; variables identified by kind and name and numbered in order of "
                "appearance, under renamings of the same text. Distinct texts and programs with at least one variable are counted.")
    ctx.assumptions = ["variables' nestings stay below about 40: the tables of deeper terms need cubic memory"]
    ctx.batches(parsed, ctx.n(9000, 250000), 400)
    ctx.batches(lambda r, st: parsed(r, st, large.text(r)), ctx.n(240, 7200), 15)
    ctx.batches(identity, ctx.n(4000, 100000), 400)
    ctx.batches(constructed, ctx.n(2500, 70000), 150)
    ctx.batches(alone, ctx.n(2000, 40000), 500)
