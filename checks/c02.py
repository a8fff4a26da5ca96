"""C02: what a parse allocates is released again (live blocks and bytes, the registry, LeakSanitizer at exit)."""
from vlib import gen, large, model as M
from vlib.engine import Case
from vlib.run import hx


def judge_leak(e, t):
    for what in ("kept", "fresh"):
        if e[what] != [0, 0]:
            return "%s blocks and %s bytes stay allocated after %s: %r" % (e[what][0], e[what][1], "parsing and dropping three times" if what == "kept" else "the whole life of a parser", t[:300])
    return None


def leak(t, st):
    def judge(ev):
        w = judge_leak(ev[0], t)
        if not w: st.obs["accepted" if ev[0]["ok"] else "rejected"] += 1
        if not w and ev[0]["reg"] != 0: w = "%d names stay registered: %r" % (ev[0]["reg"], t[:300])
        return w
    return Case(["leak 3 " + hx(t)], judge, key=t, text=t[:300].decode("latin1"))


def rounds(r, st, corp):
    """A history of parses, prints, clones and releases, repeated: memory in use at the end of each round is the same."""
    g = gen.Gen(r, odd=.1, wide=.08)
    body, live = [], set()
    for i in range(r.randint(5, 25)):
        k = r.random()
        if k < .35: body.append("q -1 %s %s" % (r.choice(("-", "vpc")), hx(gen.text(r, g, corp))))
        elif k < .6: body.append("k -1 - %d %s" % (r.randint(0, 4), hx(gen.text(r, g, corp))))
        elif k < .7: body.append("taskterm %d %d" % (r.randint(0, 4), r.randint(0, 4)))
        elif k < .8: body.append("droptask %d" % r.randint(0, 4))
        elif k < .9: body.append("drop %d" % r.randint(0, 4))
        else: body.append("task vpc %d" % r.randint(0, 4))
    body += ["k 5 - 3 " + hx(gen.text(r, g, corp)), "delparser 5", "drops", "droptasks", "reg -1", "mem"]
    n = 5
    st.obs["repeated histories"] += 1

    def judge(ev):
        L = len(body)
        regs = [ev[i * L + L - 2]["reg"] for i in range(n)]
        mems = [(ev[i * L + L - 1]["blocks"], ev[i * L + L - 1]["bytes"]) for i in range(n)]
        for g_ in regs:
            if g_["names"] or any(g_["sizes"][:3]): return "registered without any live term: %s" % str(g_)[:300]
        if mems[4] != mems[3] or mems[3] != mems[2]: return "memory in use at the end of equal rounds: %s (blocks, bytes)" % mems
        return None
    return Case(body * n, judge, key=tuple(body), text="%d commands, %d rounds" % (len(body), n))


def conserve(r, st, corp):
    """After every text, while earlier tasks live: a further parse of it costs nothing."""
    g = gen.Gen(r, names=[b"A", b"B", b"C"])
    lines, at = [], []
    for i in range(r.randint(2, 5)): lines.append("k -1 - %d %s" % (i, hx(gen.text(r, g, corp))))
    texts = [gen.text(r, g, corp) for _ in range(3)]
    for t in texts:
        at.append(len(lines))
        lines.append("leak 2 " + hx(t))
    lines += ["droptasks"]
    st.obs["with live tasks"] += 1

    def judge(ev):
        for i, t in zip(at, texts):
            w = judge_leak(ev[i], t)
            if w: return w
    return Case(lines, judge, key=tuple(lines), text=repr(texts[0][:200]))


def systematic():
    from checks.c03 import SEEDS, ALPHA
    out = []
    for s in SEEDS:
        for i in range(len(s) + 1):
            out.append(s[:i])
            if i % 2: out.append(s[:i] + ALPHA[(i * 7) % len(ALPHA)] + s[i:])
    for n in list(range(1, 90)) + [127, 128, 129, 255, 256, 257, 400]:
        out += [b"n" * n + b".", b"n" * n, b"(&&," + b",".join(b"k%d" % i for i in range(n)) + b").", b"(&&," + b",".join(b"k%d" % i for i in range(n)),
                b"(--," * n + b"a" + b")" * n + b".", b"(--," * n, b"<" * n, b"{$x," * min(n, 60) + b"a" + b"}" * min(n, 60) + b"."]
    return list(dict.fromkeys(out))


def run(ctx):
    ctx.rule = ("texts parsed three times by a long-lived parser and once by a fresh one while every malloc and free is counted; histories repeated five times with memory in use compared "
                "at the end of each round; the registry must be empty then; LeakSanitizer inspects each process at exit. Distinct texts and histories are counted.")
    ctx.assumptions = ["memory is counted by AddressSanitizer's allocator hooks", "two warm-up parses may allocate caches"]
    corp = gen.corpus()
    texts = systematic()
    r0 = ctx.rng("sys")
    r0.shuffle(texts)
    it = {"n": 0}
    pro = dict(prologue=["count"], leaks=True)
    ctx.driver("asan")
    from vlib.engine import Stats, run_cases
    chunks = [texts[i:i + 250] for i in range(0, len(texts), 250)]
    ctx.extra["prefixes, edits and sizes"] = len(texts)

    def one(ctx, chunk):
        M.reset()
        st = Stats()
        run_cases(st, "asan", ctx.driver("asan"), [leak(t, st) for t in chunk], **pro)
        return st
    ctx.map(one, chunks)

    def any_text(r, st):
        return leak(gen.text(r, gen.Gen(r, odd=r.choice((.03, .3)), wide=r.choice((.03, .2))), corp), st)

    def histories(r, st): return rounds(r, st, corp)
    def live(r, st): return conserve(r, st, corp)
    ctx.batches(any_text, ctx.n(14000, 200000), 300, **pro)
    ctx.batches(lambda r, st: leak(large.text(r), st), ctx.n(160, 4000), 10, **pro)
    ctx.batches(histories, ctx.n(700, 30000), 50, **pro)
    ctx.batches(live, ctx.n(800, 30000), 80, **pro)
