"""C11: a term's derived attributes follow from its structure, however the term came about and whatever was done with it since."""
import itertools
from vlib import gen, large, model as M, refparser as R, trace as T
from vlib.engine import Case, Stats, run_cases
from vlib.recipe import Recipe
from vlib.run import hx


def look(e, want, what):
    d = T.read(e["term"])
    if d.root != want: return "%s is %s instead of %s" % (what, M.show(d.root), M.show(want))
    w = T.attribute_problem(d)
    return w and "%s: %s" % (what, w)


def count(st, i):
    for x in {y for y, _ in M.walk(i)}:
        k, d, _ = M.node(x)
        st.obs["attributes of " + {"a": "atoms", "n": "atoms", "v": "variables", "i": "intervals", "s": "statements", "c": "compounds"}[k]] += 1
        if M.is_operation(x): st.obs["operations"] += 1
        if M.has_vars(x).count(True) > 1: st.obs["with several kinds of variables"] += 1


def operationlike(p):
    """Statements that are operations, or nearly."""
    r = p.r
    args = [p.any(r.choice((0, 0, 1))) for _ in range(r.choice((1, 1, 2, 3, 4)))]
    subj = p.compound(M.PROD if r.random() < .7 else p.conn(), args) if r.random() < .85 else args[0]
    pred = p.op(r.choice((b"go", b"A", b"B"))) if r.random() < .7 else p.any(1)
    if r.random() < .1: subj, pred = pred, subj
    return p.statement(subj, 0 if r.random() < .7 else r.randrange(12), pred)


def constructed(r, st):
    p = Recipe(r, names=(b"A", b"B", b"C"), vars=r.choice((0, .2, .5)), ops=r.choice((.02, .2)), intervals=r.choice((.02, .2)))
    for _ in range(r.randint(2, 6)):
        x = p.any(r.choice((1, 2, 3))) if r.random() < .7 else operationlike(p)
        if r.random() < .3: p.statement(x, p.cop(), p.any(1))
    slots = [s for s in p.slots if M.complexity(p.id[s]) <= 300]
    r.shuffle(slots)
    slots = slots[:12]
    at = []
    for s in slots:
        at.append((len(p.lines), s, "slot %d" % s))
        p.emit("dump d %d -1", s)
    temp = []
    for s in slots:
        c, k = p.next, r.random()
        p.next += 1
        if k < .5:
            p.emit("clone %d %d", c, s)
            p.id[c] = p.id[s]
            temp.append(c)
            at.append((len(p.lines), c, "clone of slot %d" % s))
            p.emit("dump d %d -1", c)
        elif k < .7: temp.append(p.compound(p.conn(), [s, r.choice(slots)]))
        elif k < .85: temp.append(p.statement(s, p.cop(), r.choice(slots)))
        else: p.emit("print %d -1", s)
    r.shuffle(temp)
    for s in temp: p.emit("drop %d", s)
    for s in slots:
        at.append((len(p.lines), s, "slot %d, used since," % s))
        p.emit("dump d %d -1", s)
    p.lines.append("drops")
    ids = dict(p.id)
    for s in slots: count(st, ids[s])
    key = tuple(sorted(M.show(ids[s]) for s in slots))

    def judge(ev):
        for n, s, what in at:
            w = look(ev[n], ids[s], what)
            if w: return w
    return Case(p.lines, judge, key=key, text=M.show(ids[slots[0]]))


def parsed(r, st, t=None):
    g = gen.Gen(r, names=(b"A", b"B", b"C", b"go"), odd=.02, wide=.04, maxdepth=r.choice((3, 4, 5)))
    t = t or (g.task() if r.random() < .7 else g.compound(4) + b".")
    ref = R.parse(t)
    if ref is None: return None
    count(st, ref.term)
    lines = ["k -1 d 1 " + hx(t), "taskterm 1 1", "clone 2 1", "dump d 2 -1", "droptask 1", "drop 1", "dump d 2 -1", "drops"]

    def judge(ev):
        if not ev[0]["ok"]: return "%r is rejected" % t[:300]
        return look(ev[0], ref.term, "parsed") or look(ev[3], ref.term, "clone") or look(ev[6], ref.term, "clone, the original gone,")
    return Case(lines, judge, key=t, text=t.decode("latin1"))


def shared(r, st):
    """Terms that contain one another many times over: up to 2^26 leaves, without variables, seen from their roots only."""
    p = Recipe(r, names=(b"A", b"B"), vars=0, ops=0, intervals=0)
    top, seq = r.choice((14, 15, 16, 17, 18, 20, 23, 26)), []
    while len(seq) < top:
        k = r.random()
        seq.append(("c", r.choice((M.PROD, M.EXTIMG, M.INTIMG, M.LIST)), r.choice((2, 2, 2, 3))) if k < .6 else ("s", r.randrange(12)) if k < .9 else ("w", r.choice((M.NEG, M.EXTSET, M.CONJ, M.SEQ, M.EXTINT))))
    def build():
        x, levels = p.any(1), []
        while M.complexity(p.id[x]) > 8: x = p.any(1)
        for s in seq:
            if M.complexity(p.id[x]) > 2**27: break
            if s[0] == "c": x = p.compound(s[1], [x] * s[2])
            elif s[0] == "s": x = p.statement(x, s[1], x)
            else:
                c = s[1]
                if M.node(p.id[x])[0] == "c" and M.node(p.id[x])[1] == c and c != M.NEG: continue
                x = p.compound(c, [x, p.atom(b"C")] if c == M.CONJ or c == M.SEQ else [x], 6 if c not in (M.CONJ, M.SEQ) else None)
            levels.append(x)
        return levels
    at = []
    for x in build():
        at.append((len(p.lines), x))
        p.emit("root %d", x)
    ids = dict(p.id)
    c = p.next
    p.emit("clone %d %d", c, x)
    at.append((len(p.lines), x))
    p.emit("root %d", c)
    p.lines.append("drops")
    st.obs["terms of more than 32767 leaves"] += sum(1 for _, x in at if M.complexity(ids[x]) > 32767)
    st.obs["terms of more than 65535 leaves"] += sum(1 for _, x in at if M.complexity(ids[x]) > 65535)
    want = {x: ids[x] for _, x in at}

    def judge(ev):
        for n, s in at:
            w = T.attributes_of(ev[n]["root"][0], want[s])
            if w: return w
    return Case(p.lines, judge, key=tuple(p.lines), text="%d levels over a shared term, %d leaves" % (top, M.complexity(ids[x])))


def small_space(ctx):
    """Every statement of two, and every compound of one or two members of a family, for every copula and connector."""
    fam = ["A", "$", "#", "?", "+", "^", "{A", "*A", "*$", "*#?", "(A-->B)", "($-->A)", "(A==>B)", "[$", "--A", "&/A+", "op"]

    def make(p, f):
        a = p.atom(b"A")
        if f == "A": return a
        if f in "$#?": return p.var("$#?".index(f), 0)
        if f == "+": return p.interval(2)
        if f == "^": return p.op(b"go")
        if f == "{A": return p.compound(M.EXTSET, [a])
        if f == "*A": return p.compound(M.PROD, [a])
        if f == "*$": return p.compound(M.PROD, [p.var(0, 0), a])
        if f == "*#?": return p.compound(M.PROD, [p.var(1, 0), p.var(2, 0)])
        if f == "(A-->B)": return p.statement(a, 0, p.atom(b"B"))
        if f == "($-->A)": return p.statement(p.var(0, 0), 0, a)
        if f == "(A==>B)": return p.statement(a, 5, p.atom(b"B"))
        if f == "[$": return p.compound(M.INTSET, [p.var(0, 0)])
        if f == "--A": return p.compound(M.NEG, [a])
        if f == "&/A+": return p.compound(M.SEQ, [a, p.interval(2)])
        return p.statement(p.compound(M.PROD, [a]), 0, p.op(b"go"))
    combos = [("s", c, f) for c in range(12) for f in itertools.product(fam, repeat=2)]
    combos += [("c", c, f) for c in range(15) for n in (1, 2) for f in itertools.product(fam, repeat=n)]
    if ctx.tier == "thorough": combos += [("c", c, f) for c in range(15) for f in itertools.product(fam, repeat=3)]
    ctx.extra["enumerated statements and compounds"] = len(combos)
    ctx.driver("asan")

    def one(ctx, job):
        n, chunk = job
        M.reset()
        r, st, cases = ctx.rng("small", n), Stats(), []
        for kind, c, fs in chunk:
            p = Recipe(r)
            ms = [make(p, f) for f in fs]
            x = p.statement(ms[0], c, ms[1]) if kind == "s" else p.compound(c, ms)
            i = p.id[x]
            p.emit("dump d %d -1", x)
            p.emit("clone %d %d", x + 1, x)
            p.emit("dump d %d -1", x + 1)
            p.lines.append("drops")
            count(st, i)

            def judge(ev, i=i): return look(ev[-4], i, "constructed") or look(ev[-2], i, "clone")
            cases.append(Case(p.lines, judge, key=(kind, c, fs), text=M.show(i)))
        run_cases(st, "asan", ctx.driver("asan"), cases)
        return st
    ctx.map(one, list(enumerate(combos[i:i + 500] for i in range(0, len(combos), 500))))


def run(ctx):
    ctx.rule = ("every subterm of parsed, constructed (ten constructor variants), merged and cloned terms has its attributes compared with those its dumped structure implies, at once and after "
                "further use; every statement and compound of up to two (three) members of a family of 17, for every copula and connector. Distinct terms and programs are counted.")
    ctx.assumptions = ["is_higher_order is judged as the property of the copula (a statement about statements, not of variables in it)"]
    small_space(ctx)
    ctx.batches(constructed, ctx.n(3000, 80000), 200)
    ctx.batches(shared, ctx.n(150, 5000), 20)
    ctx.batches(parsed, ctx.n(8000, 200000), 500)
    ctx.batches(lambda r, st: parsed(r, st, large.text(r)), ctx.n(240, 7200), 15)
