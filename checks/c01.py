"""C01: parsing, printing, inspecting and releasing are total and memory-safe on any text (sanitizers and memcheck watch)."""
import json
from vlib import build, gen, large, model as M, run as X
from vlib.engine import Case, Stats, run_cases, violation
from vlib.run import hx


def sane(e):
    if e["ok"] not in (0, 1): return "neither accepted nor rejected"
    if e["ok"]:
        for k in ("term_s", "sent_s", "task_s", "term_c", "task_c"):
            if k in e and not e[k]: return "%s is empty" % k
        if not e["term"]: return "no term"
    return None


def case(t, st, parser=-1):
    """One text: parse, dump with variable tables, print, print colored, drop."""
    def judge(ev):
        w = sane(ev[0])
        if not w: st.obs["accepted" if ev[0]["ok"] else "rejected"] += 1
        return w and "%s: %r" % (w, t[:300])
    return Case(["q %d vpc %s" % (parser, hx(t))], judge, key=t, text=t[:300].decode("latin1"))


def kept(r, st, g, corp):
    """Tasks that live on while parsers come and go, and are released in any order."""
    lines, n = [], r.randint(4, 14)
    for i in range(n):
        p = r.choice((-1, 1, 2))
        lines.append("k %d %s %d %s" % (p, r.choice(("-", "d", "vpc")), r.randint(0, 5), hx(gen.text(r, g, corp))))
        if r.random() < .2: lines.append("%s %d" % (r.choice(("newparser", "delparser")), r.choice((1, 2))))
        if r.random() < .3: lines.append("droptask %d" % r.randint(0, 5))
        if r.random() < .4: lines.append("taskterm %d %d" % (i, r.randint(0, 5)))
    lines += ["task vpc %d" % i for i in range(6)]
    order = ["droptask %d" % i for i in range(6)] + ["drop %d" % i for i in range(n)]
    r.shuffle(order)
    lines += order
    st.obs["histories of live tasks"] += 1

    def judge(ev):
        for e in ev:
            if "ok" in e and e["ok"] and "punct" not in e: return "a task without a punctuation"
        return None
    return Case(lines, judge, key=tuple(lines), text="%d texts kept and released" % n)


def sizes(ctx):
    """Texts that grow in one dimension at a time, past every internal buffer."""
    q = ctx.tier == "quick"
    dense = list(range(1, 300 if q else 1500))
    near = sorted({2**k + d for k in range(8, 14 if q else 18) for d in (-2, -1, 0, 1, 2)} | {1000, 3000, 10000} | (set() if q else {50000, 100000, 300000}))
    out = []
    for n in dense + near:
        a = b"n" * n
        out += [a + b".", b"<" + a + b" --> b>.", b'"' + a + b'".', b"A. %0." + b"5" * n + b"%", b"A" + b" " * n + b".", b"<a -->" + b" " * n + b"b"]
        if n < 1500 or n % 1000 == 0: out += [b"$" + a + b".", b"+" + b"9" * n + b".", b"A. :!" + b"1" * n + b":", b"A. :!-" + b"1" * n + b":", b"^" + a + b".",
                                              b"<" * min(n, 4000), b"-" * n, b"$0." + b"3" * n + b";0." + b"3" * n + b"$ A.", a + b"(x).", b'"' + b"\\" * n + b'".', b'"' + a]
    wide = [n for n in dense + near if n <= (1200 if q else 6000)]
    for n in wide[::2] if q else wide:
        names = [b"k%d" % i for i in range(n)]
        out += [b"(&&," + b",".join(names) + b").", b"(*, " + b", ".join(names) + b").", b"(^op," + b",".join(names) + b").", b"{" + b",".join(names) + b"}.", b"(&/," + b",".join([b"a"] * n) + b").",
                b"(" + b" & ".join(names) + b").", b"(&&," + b",".join(names)]
        if n <= 300: out += [b"(&&," + b",".join(b"<$%d --> #%d>" % (i, i % 7) for i in range(n)) + b").", b"(*," + b",".join(b"?x" for _ in range(n)) + b")."]
    for n in list(range(1, 130 if q else 400)) + [200, 256, 300] + ([] if q else [600, 1000]):
        out += [b"(--," * n + b"a" + b")" * n + b".", b"--" * n + b"a.", b"{" * n + b"a" + b"}" * n + b".", b"<" * n + b"a" + b" --> b>" * n + b".", b"(*," * n + b"a" + b")" * n + b".",
                b"<a --> " * n + b"b" + b">" * n + b".", b"(&&,x," * n + b"(&&,a,b)" + b")" * n + b".", b"(--," * n, b"<a --> " * n, b"{[" * n + b"a" + b"]}" * n + b"."]
        if n <= 120: out += [b"<" * n + b"$x" + b" ==> #y>" * n + b".", b"(*,$x," * n + b"a" + b")" * n + b"."]
    return out


def bytes_everywhere():
    out = []
    for b in range(256):
        c = bytes([b])
        for s in (c, c * 5, c * 300, b"<" + c + b"-->" + c + b">.", b"a" + c, b"$0.5" + c + b"$ a.", b"a. :!" + c + b":", b"a. %" + c + b"%", b'"' + c * 9 + b'".', b"(&&, a, " + c + b").", b"^" + c + b".", b"#" + c + b"."):
            out.append(s)
    return out


def enumerated(ctx):
    texts = bytes_everywhere() + sizes(ctx)
    ctx.extra["size-swept and byte texts"] = len(texts)
    ctx.driver("asan")
    heavy = [t for t in texts if len(t) > 3000]
    light = [t for t in texts if len(t) <= 3000]
    chunks = [light[i:i + 300] for i in range(0, len(light), 300)] + [heavy[i:i + 25] for i in range(0, len(heavy), 25)]
    chunks.reverse()

    def one(ctx, chunk):
        M.reset()
        st = Stats()
        run_cases(st, "asan", ctx.driver("asan"), [case(t, st) for t in chunk])
        return st
    ctx.map(one, chunks)


def memcheck(ctx):
    """Use of uninitialised memory: valgrind on builds without sanitizers."""
    corp = gen.corpus()
    per = ctx.n(70, 700)
    jobs = [(c, i) for c in ("g2", "g0") for i in range(4 if ctx.tier == "quick" else 16)]
    for c in ("g2", "g0"): ctx.driver(c)

    def one(ctx, job):
        config, i = job
        r, st = ctx.rng("memcheck", i, config), Stats()
        g = gen.Gen(r, odd=.15, wide=.1)
        texts = [gen.text(r, g, corp) for _ in range(per)]
        texts += [b"(&&," + b",".join(b"n%d" % k for k in range(r.choice((40, 70)))) + b").", b"<" * r.randint(30, 90), b"n" * r.choice((255, 256, 257, 511, 512, 513, 1030)) + b".",
                  b"(--," * r.randint(20, 60) + b"a" + b")" * 60, b"(^op," + b",".join([b"$x", b"#y", b"?z"] * 9) + b")."]
        lines, at = [], []
        for n, t in enumerate(texts):
            p = r.choice((-1, 1, 2))
            if r.random() < .1: lines.append("newparser %d" % r.choice((1, 2)))
            at.append(len(lines))
            lines.append("q %d vpc %s" % (p, hx(t)) if r.random() < .7 else "k %d vpc %d %s" % (p, r.randint(0, 3), hx(t)))
        res = X.execute(ctx.driver(config), lines, timeout=600, san=False, stack_mb=64,
                        wrap=("valgrind", "-q", "--vgdb=no", "--error-exitcode=77", "--leak-check=no", "--num-callers=12", "--max-stackframe=8000000", "--undef-value-errors=yes"))
        if res.timeout:
            st.inconclusive += 1
            return st
        done = sum(k < len(res.events) for k in at)
        st.n += done
        st.obs["texts under memcheck"] += done
        for t in texts[:done]: st.key("memcheck", config, t)
        rep = "\n".join(l for l in res.report.split("\n") if "==" in l)
        if res.dead or "Invalid" in rep or "uninitialised" in rep:
            st.viols.append(violation("memcheck", "valgrind: %s\n%s" % (res.dead, rep[:1500]), config, lines, note="run under valgrind -q"))
        return st
    ctx.map(one, jobs)


def deep(ctx):
    """Nesting so deep that recursion exceeds the default 8 MB stack: the recorded finding."""
    b = ctx.driver("g2")
    for name, t in (("deep-negation", b"(--," * 20000 + b"a" + b")" * 20000 + b"."), ("deep-statement", b"<" * 20000 + b"a" + b" --> b>" * 20000 + b".")):
        res = X.execute(b, ["q -1 - " + hx(t)], timeout=120, san=False, stack_mb=8)
        ctx.stats.n += 1
        ctx.stats.key(name)
        if res.timeout: ctx.stats.inconclusive += 1
        elif res.dead: ctx.stats.viols.append(violation(name, "20000 levels of nesting: %s" % res.dead, "g2", ["q -1 - " + hx(t)], note="stack limit 8 MB"))
    # what fits must work
    for name, t in (("negations", b"(--," * 1000 + b"a" + b")" * 1000 + b"."), ("statements", b"<" * 1000 + b"a" + b" --> b>" * 1000 + b"."), ("sets", b"{" * 5000 + b"a" + b"}" * 5000 + b".")):
        res = X.execute(b, ["q -1 p " + hx(t)], timeout=120, san=False, stack_mb=8)
        ctx.stats.n += 1
        ctx.stats.key("shallow", name)
        if res.timeout: ctx.stats.inconclusive += 1
        elif res.dead or not res.events[0]["ok"]: ctx.stats.viols.append(violation("nesting", "1000 (sets: 5000) levels of %s: %s" % (name, res.dead or "rejected"), "g2", ["q -1 p " + hx(t)], note="stack limit 8 MB"))


def run(ctx):
    ctx.rule = ("texts swept densely in token length, number of components and depth, every byte in 12 places, random derivations, mutations, corpora, token soup and bytes; each is "
                "parsed, dumped, printed, printed in color and dropped under ASan+UBSan+libstdc++ assertions, partly kept alive across parsers, partly under memcheck. "
                "Distinct texts and histories are counted.")
    ctx.assumptions = ["red-zone sanitizers and memcheck see errors only on the executions made", "nesting within what a 512 MB stack allows under ASan"]
    enumerated(ctx)
    corp = gen.corpus()
    mk = lambda r: gen.Gen(r, odd=r.choice((.03, .3)), wide=r.choice((.03, .3)), maxdepth=r.choice((3, 5, 7)))

    def texts(r, st): return case(gen.text(r, mk(r), corp), st, r.choice((-1, -1, 1)))
    def histories(r, st): return kept(r, st, mk(r), corp)
    ctx.batches(texts, ctx.n(24000, 900000), 800)
    ctx.batches(lambda r, st: case(large.text(r), st, r.choice((-1, -1, 1))), ctx.n(240, 8000), 15)
    ctx.batches(histories, ctx.n(1200, 40000), 100, leaks=True)
    memcheck(ctx)
    deep(ctx)
