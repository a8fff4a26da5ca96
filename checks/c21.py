"""C21: long names, wide and deep terms mean what small ones do; nothing changes when a buffer or stack grows."""
import random
from vlib import gen, judges as J, model as M, refparser as R, run as X, trace as T
from vlib.engine import Case, Stats, run_cases, violation
from vlib.recipe import Recipe
from vlib.run import hx
from checks.c07 import rename, undo, unreadable

KERNELS = [b"A", b"<A --> B>", b"(&&,A,<$x ==> #y>,$x)", b"{A,B}", b"(^go,A,+5)", b"<(*,$x,?y) {-] [#z,A]>", b"(A ~ B)", b"--A", b'"a,b) -->\\" c"', b"(&,{A,B},{B,C})", b"<(\\,A,_,B) =/> (/,_,A,B)>"]
TAILS = [b".", b"? :|:", b"! :!-25: %0.5;0.25%", b"@", b". %0.1%", b". :/: %1;0.5;2%"]
WRAPS = [(b"(--,", b")"), (b"<", b" --> B>"), (b"<A ==> ", b">"), (b"{", b"}"), (b"(*,", b",A)"), (b"(*,A,", b")"), (b"(&/,A,", b",+1)"), (b"(&&,A,", b",<A --> B>)"), (b"(|,[A],", b")"), (b"(^go,", b")"),
         (b"[{", b"},A]"), (b"(A * ", b")"), (b"--", b""), (b"(", b" & A)"), (b"<{A} <=> (/,", b",_)>")]


def judge_text(e, p, t, what, st):
    w = J.whole_problem(e, p)
    if w: return "%s: %s" % (what, w)
    if p is None:
        st.obs["rejected"] += 1
        return None
    d = T.read(e["term"])
    w = T.normal_problem(d) or T.attribute_problem(d)
    if not w and any(M.has_vars(p.term)) and len(e["term"][0]) > T.VARS: w = T.position_problem(d)
    if w: return "%s: %s" % (what, w)
    st.obs["accepted"] += 1
    for k in ("term_s", "sent_s"):
        if k in e and not unreadable(p.term):
            s = bytes.fromhex(e[k])
            q = R.parse(s + b"." if k == "term_s" else s)
            if q is None: return "%s is shown as %r..., which is not readable" % (what, s[:200])
            if rename(q.term, undo(q)) != p.term: return "%s is shown as something else: %r" % (what, s[:300])
    return None


def text_case(t, what, st, mode="dp", parser=-1, after=()):
    p = R.parse(t)
    if p is not None and M.complexity(p.term) > 200000: return None
    if p is not None and any(M.has_vars(p.term)) and M.depth(p.term) * M.complexity(p.term) < 20000: mode = "v" + mode.replace("d", "")
    lines = ["q %d %s %s" % (parser, mode, hx(t))]
    ps = []
    for a in after:  # small texts after the large one, by the same parser
        ps.append((a, R.parse(a)))
        lines.append("q %d dp %s" % (parser, hx(a)))

    def judge(ev):
        w = judge_text(ev[0], p, t, what, st)
        if w: return w
        for e, (a, q) in zip(ev[1:], ps):
            w = judge_text(e, q, a, "%r after %s" % (a[:100], what), st)
            if w: return w
        st.key(what)
        return None
    return Case(lines, judge, text=what)


def spec(*a, **kw): return a, kw


def near(ks, lo=1): return sorted({n for k in ks for n in range(2**k - 3, 2**k + 4) if n >= lo})


def names(q, st, r):
    out = []
    for n in list(range(1, 200)) + near(range(8, 15 if q else 21)):
        a = (b"n%d_" % n + b"x" * n)[:n]
        b = a[:-1] + b"y"
        if n <= 70000:
            out.append(spec(b"<" + a + b" --> " + b + b">.", "names of length %d" % n, st, after=[b"<A --> B>."]))
            out.append(spec(b"(*," + a + b",$" + b + b",#" + a + b",?" + b + b",$" + b + b",$" + a + b").", "variables with names of length %d" % n, st))
            out.append(spec(b"(^" + a + b",{" + b + b"}).", "an operation named with %d characters" % n, st))
            out.append(spec(b"{" + a + b"," + b + b"," + a + b"}.", "a set of names of length %d" % n, st))
        out.append(spec(b'<"' + a + b'" --> "' + b + b'">.', "strings of length %d" % n, st))
        if n <= 70000:
            out.append(spec(b"A. %0." + b"5" * n + b";0." + b"4" * n + b"%", "truth of %d digits" % n, st))
            out.append(spec(b"(&/,A,+" + b"0" * n + b"7,B).", "an interval of %d digits" % n, st))
            out.append(spec(b"A. :!" + b"0" * n + b"7:", "an occurrence of %d digits" % n, st))
            out.append(spec(b"$0." + b"2" * n + b"$ A" + b" " * n + b"?", "a budget of %d digits" % n, st))
    return out


def offsets(q, st, r):
    """Every token of a text at every offset from the start of the input buffer."""
    out = []
    for i in range(0, 560):
        k = KERNELS[i % len(KERNELS)]
        for x in (k,) if q else KERNELS:
            out.append(spec(b" " * i + x + r.choice(TAILS), "%d blanks before %r" % (i, x), st))
            out.append(spec(b"$0.5$" + b" " * i + x + r.choice(TAILS), "%d blanks after a budget before %r" % (i, x), st))
            out.append(spec(b"<" + b"n" * i + b"n --> " + x + b">" + r.choice(TAILS), "a name of %d characters before %r" % (i + 1, x), st))
            out.append(spec(b"(*," + b"," .join([b"A"] * (i + 1)) + b"," + x + b")" + r.choice(TAILS), "%d components before %r" % (i + 1, x), st))
            if i < 80: out.append(spec(x.replace(b",", b"," + b" " * i).replace(b">", b" " * i + b">") + r.choice(TAILS), "%d blanks inside %r" % (i, x), st))
    return out


def depths(q, st, r):
    out = []
    for n in list(range(1, 140)) + ([180, 255, 256, 257, 400, 511, 512, 513, 800] if q else list(range(140, 600, 3)) + near(range(8, 12)) + [2000, 3000]):
        ws = WRAPS if n < 20 or not q else r.sample(WRAPS, 4)
        for pre, post in ws:
            k = r.choice(KERNELS) if n <= 140 else r.choice((b"A", b"{A,B}", b"<A --> B>", b"(^go,A)"))
            out.append(spec(pre * n + k + post * n + r.choice(TAILS), "%d times %s around %s" % (n, (pre + b".." + post).decode(), k.decode()), st,
                                 parser=r.choice((-1, 3)), after=[r.choice(KERNELS) + r.choice(TAILS)]))
        # alternating wrappers
        t, seq = r.choice(KERNELS), []
        for _ in range(n):
            a, b = r.choice(WRAPS)
            t = a + t + b
        if n <= 140: out.append(spec(t + r.choice(TAILS), "%d mixed levels around a kernel (%s...)" % (n, t[:40].decode("latin1")), st))
        # one token short, and one more, at depth
        pre, post = r.choice(WRAPS[:8])
        out.append(spec(pre * n + b"A" + post * (n - 1) + b".", "%d times %s, closed %d times" % (n, pre.decode(), n - 1), st, after=[r.choice(KERNELS) + b"."]))
        out.append(spec(pre * n + b"A" + post * (n + 1) + b".", "%d times %s, closed %d times" % (n, pre.decode(), n + 1), st, after=[r.choice(KERNELS) + b"."]))
    return out


def widths(q, st, r):
    out = []
    ns = sorted(set(list(range(1, 70)) + near(range(6, 11 if q else 13)) + [100, 150, 300, 700, 1500, 2000] + ([] if q else [3000, 6000, 10000])))
    for n in ns:
        a = [b"k%d" % i for i in range(n)]
        sh = a[:]
        r.shuffle(sh)
        for c in M.CONNS:
            if n > 300 and q and r.random() < .6: continue
            out.append(spec(b"(" + c + b"," + b",".join(a) + b").", "%s of %d components" % (c.decode(), n), st, after=[b"(&&,A,B)."]))
        out.append(spec(b"{" + b",".join(sh) + b"}.", "a set of %d" % n, st))
        out.append(spec(b"[" + b" , ".join(sh) + b"]?", "an intensional set of %d" % n, st))
        out.append(spec(b"(^go," + b",".join(a) + b")!", "an operation on %d arguments" % n, st))
        out.append(spec(b"(" + b" & ".join(sh) + b").", "an infix chain of %d" % n, st))
        out.append(spec(b"(&,{" + b",".join(a) + b"},{" + b",".join(sh[: n // 2 + 1]) + b"},B).", "an intersection of sets of %d and %d" % (n, n // 2 + 1), st))
        out.append(spec(b"(|,{" + b",".join(a[: n // 2 + 1]) + b"},{" + b",".join(a[n // 2:]) + b"}).", "a union of sets of %d and %d" % (n // 2 + 1, n - n // 2), st))
        out.append(spec(b"(&&,(&&," + b",".join(a) + b"),(&&," + b",".join(sh) + b",Z)).", "two conjunctions of %d merged" % n, st))
        out.append(spec(b"(&/," + b",".join([b"A"] * n) + b",(&/," + b",".join(a) + b",+3)).", "sequences of %d and %d merged" % (n, n), st))
        if n <= (300 if q else 1000):
            out.append(spec(b"(*," + b",".join(b"$v%d" % (i % 37) for i in range(n)) + b",A).", "%d occurrences of 37 variables" % n, st))
            out.append(spec(b"(&&," + b",".join(b"<$v%d --> #w%d>" % (i, i % 3) for i in range(n)) + b").", "%d statements with variables" % n, st))
            out.append(spec(b"<(*," + b",".join(b"?q%d" % i for i in range(n)) + b") --> {" + b",".join(b"?q%d" % i for i in reversed(range(n))) + b"}>?", "%d query variables, twice" % n, st))
    return out


def built(r, st):
    """Wide and deep terms through the constructors: as built, compared with themselves built in another order, as shown."""
    p = Recipe(r, names=[b"k%d" % i for i in range(50)], vars=0)
    n = r.choice((1, 2, 3, 8, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513))
    if r.random() < .6:
        c = r.choice([x for x in range(15) if x not in (M.NEG, M.EXTDIF, M.INTDIF)])
        ks = [p.atom(b"k%d" % i) for i in range(n)]
        if r.random() < .3: ks[n // 2:] = [p.compound(r.choice((M.PROD, M.EXTSET, c)), [ks[i], ks[(i * 7) % n]], 0) for i in range(n // 2, n)]
        x = p.compound(c, ks)
        ks2 = ks[:]
        if c in M.CON_COMM: r.shuffle(ks2)
        y = p.compound(c, ks2)
        what = "%s of %d components, constructed" % (M.CONNS[c].decode(), n)
    else:
        n = min(n, 300)
        shape = [(r.random(), r.randrange(15), r.randrange(12)) for _ in range(3)]

        def nest():
            x = p.atom(b"k0")
            b = p.atom(b"k1")
            for i in range(n):
                k, c, cop = shape[i % 3]
                if k < .4: x = p.statement(x, cop, b, 0)
                elif k < .5: x = p.statement(b, cop, x, 0)
                elif c in (M.NEG, M.EXTSET, M.INTSET): x = p.compound(c, [x], 6)
                else: x = p.compound(c, [x, b], r.choice((0, 1, 7)))
            return x
        x, y = nest(), nest()
        what = "%d levels, constructed" % n
    i = p.id[x]
    if M.complexity(i) > 20000: return None
    p.emit("dump d %d -1", x)
    p.emit("print %d -1", x)
    p.emit("cmp 2 %d %d", x, y)
    p.emit("clone %d %d", p.next + 1, x)
    p.emit("dump d %d -1", p.next + 1)
    p.lines.append("drops")

    def judge(ev):
        for e, w in ((ev[-6], what), (ev[-2], "a clone of " + what)):
            d = T.read(e["term"])
            if d.root != i: return "%s is another term: %s instead of %s" % (w, M.show(d.root), M.show(i))
            v = T.attribute_problem(d)
            if v: return "%s: %s" % (w, v)
        if ev[-4]["eq"] != ["11", "11"]: return "%s is not equal to itself built again: %s" % (what, ev[-4]["eq"])
        if not unreadable(i):
            s = bytes.fromhex(ev[-5]["s"])
            q = R.parse(s + b".")
            if q is None or rename(q.term, undo(q)) != i: return "%s is shown as %r" % (what, s[:300])
        st.key("built", what)
        st.obs["constructed"] += 1
        return None
    return Case(p.lines, judge, text=what)


def crowd(ctx, st, n):
    """Many names in use at the same time."""
    lines, want = [], {}
    per = 400
    for i in range(0, n, per):
        t = b"(*," + b",".join(b"w%d" % k for k in range(i, i + per)) + b")."
        lines.append("k -1 - %d %s" % (i // per, hx(t)))
    lines.append("reg -1")
    first = len(lines)
    probe = [0, per - 1, n // 2, n - 1]
    for k in probe: lines += ["q -1 d " + hx(b"<w%d --> w%d>." % (k, (k * 7 + 1) % n))]
    lines += ["droptasks", "reg -1"]
    res = X.execute(ctx.driver("g2"), lines, san=False, timeout=300)
    st.n += len(lines)
    if res.timeout: st.inconclusive += 1; return
    v = None
    if res.dead: v = "%d names at the same time: %s" % (n, res.dead)
    else:
        if len(res.events[first - 1]["reg"]["names"]) != n: v = "%d names are registered of %d in use" % (len(res.events[first - 1]["reg"]["names"]), n)
        for k, e in zip(probe, res.events[first:]):
            p = R.parse(b"<w%d --> w%d>." % (k, (k * 7 + 1) % n))
            v = v or J.whole_problem(e, p)
        if res.events[-1]["reg"]["names"]: v = v or "%d names stay registered" % len(res.events[-1]["reg"]["names"])
    if v: st.viols.append(violation("crowd", v, "g2", lines))
    else: st.key("crowd", n); st.obs["names at the same time"] = n


def deep(ctx):
    """Nesting that exceeds the default 8 MB stack: the recorded finding; and what must fit."""
    b = ctx.driver("g2")
    for name, t in (("deep-negation", b"(--," * 20000 + b"a" + b")" * 20000 + b"."), ("deep-statement", b"<" * 20000 + b"a" + b" --> b>" * 20000 + b".")):
        res = X.execute(b, ["q -1 - " + hx(t)], timeout=120, san=False, stack_mb=8)
        ctx.stats.n += 1
        ctx.stats.key(name)
        if res.timeout: ctx.stats.inconclusive += 1
        elif res.dead: ctx.stats.viols.append(violation(name, "20000 levels of nesting: %s" % res.dead, "g2", ["q -1 - " + hx(t)], note="stack limit 8 MB"))
    for name, n, pre, post in (("negations", 1000, b"(--,", b")"), ("statements", 1000, b"<", b" --> b>"), ("sets", 5000, b"{", b"}"), ("products", 1000, b"(*,", b",b)"), ("conjunctions", 1000, b"<b ==> ", b">")):
        t = pre * n + b"a" + post * n + b"."
        res = X.execute(b, ["q -1 d " + hx(t), "q -1 p " + hx(t), "q -1 d " + hx(b"<a --> b>.")], timeout=120, san=False, stack_mb=8)
        ctx.stats.n += 1
        ctx.stats.key("shallow", name)
        if res.timeout: ctx.stats.inconclusive += 1; continue
        v = res.dead
        if not v:
            M.reset()
            v = J.whole_problem(res.events[0], R.parse(t)) or J.whole_problem(res.events[2], R.parse(b"<a --> b>."))
            if not v:
                q = R.parse(bytes.fromhex(res.events[1]["sent_s"]))
                if q is None or q.term != R.parse(t).term: v = "shown as something else"
        if v: ctx.stats.viols.append(violation("nesting", "%d levels of %s: %s" % (n, name, v), "g2", ["q -1 d " + hx(t)], note="stack limit 8 MB"))


def run(ctx):
    q = ctx.tier == "quick"
    ctx.rule = ("texts and constructed terms swept in one dimension (token length, digits, offset in the input, number of components, depth, occurrences of variables, names in use), densely where buffers "
                "grow, each judged against the reference meaning and against small texts parsed afterwards by the same parser; distinct by kind and size")
    ctx.assumptions = ["depths up to 1000 (sets 5000) within the default 8 MB stack; deeper nesting is the recorded finding", "widths up to 2000 (quick) or 10000 components: time grows with the square"]
    for cfg in ("asan", "g2"): ctx.driver(cfg)
    jobs = [(f, cfg, part) for f in (names, offsets, depths, widths) for part in range(12) for cfg in (("asan",) if q else ("asan", "g2"))]

    def one(c, job):
        f, cfg, part = job
        st = Stats()
        M.reset()
        cases = f(q, st, c.rng(f.__name__))
        cases = [text_case(*a, **kw) for n, (a, kw) in enumerate(cases) if n % 12 == part]
        cases = [x for x in cases if x is not None]
        if part == 0: st.samples += [x.text[:200] for x in cases[:4]]
        for b in range(0, len(cases), 150):
            run_cases(st, cfg, c.driver(cfg), cases[b:b + 150], prologue=["newparser 3"], timeout=300)
        return st
    ctx.map(one, jobs)
    ctx.batches(built, ctx.n(1200, 30000), 50)

    def many(c, n):
        st = Stats()
        crowd(c, st, n)
        return st
    ctx.map(many, [400, 4000, 40000] if q else [400, 4000, 40000, 400000])
    deep(ctx)
