"""C08: colored output is the plain output plus color."""
import re
from vlib import gen, judges as J, large, model as M, refparser as R
from vlib.engine import Case, Stats, run_cases
from vlib.recipe import Recipe
from vlib.run import hx

NAMES = [b"A", b"{}", b"{0}", b"{{", b"}}", b"{:x}", b"%s", b"%", b"\\", b"{", b"}", b"\x1b", b"[0m", b"a b", b"", b"\xc3\xa9", b"^go", b"<", b"{A}", b"{1}", b"x" * 300, b"\x1b[31mred"]


def pair(plain, colored, what):
    p, c = bytes.fromhex(plain), bytes.fromhex(colored)
    if J.strip_color(c) != J.strip_color(p): return "the colored %s %r shows %r" % (what, p[:200], J.strip_color(c)[:200])
    if b"\x1b[" in p: return None
    if c == p and p and b"\x1b" not in p: return "the %s %r is not colored" % (what, p[:200])
    w = J.color_problem(c)
    return w and "%s after the %s %r: %r" % (w, what, p[:200], c[-60:])


def judge_task(e):
    w = pair(e["term_s"], e["term_c"], "term") or pair(e["sent_s"], e["sent_c"], "sentence")
    if w: return w
    plain, sent, col = bytes.fromhex(e["task_s"]), bytes.fromhex(e["sent_s"]), bytes.fromhex(e["task_c"])
    m = re.match(rb"\$(\d\.\d\d);(\d\.\d\d);(\d\.\d\d)\$ ", plain)
    if not m or J.strip_color(plain[m.end():]) != J.strip_color(sent): return "the task shows as %r, its sentence as %r" % (plain[:200], sent[:200])
    shown = J.strip_color(col)
    n = re.match(rb" (\d\.\d\d)  (\d\.\d\d)  (\d\.\d\d) +", shown)
    if not n or n.groups() != m.groups(): return "the budget %r is shown in color as %r" % (m.group(0), shown[:40])
    if shown[n.end():] != J.strip_color(sent).lstrip(b" ") and shown[n.end():] != J.strip_color(sent): return "the sentence %r is shown in color as %r" % (sent[:200], shown[n.end():][:200])
    if b"\x1b[" not in plain:
        w = J.color_problem(col)
        if w: return "%s after the task %r: %r" % (w, plain[:200], col[-60:])
    return None


def case(t, st):
    def judge(ev):
        e = ev[0]
        if not e["ok"]: return None
        w = judge_task(e)
        if not w:
            st.obs["tasks"] += 1
            st.key(t)
        return w and "%s (of %r)" % (w, t[:300])
    return Case(["q -1 pc " + hx(t)], judge, text=t[:300].decode("latin1"))


def built(r, st):
    p = Recipe(r, names=r.sample(NAMES, 5), vars=.15)
    if r.random() < .3:
        s = p.slot(M.anon(("x", p.next)))
        p.emit("anon %d", s)
    if r.random() < .1:
        s = p.slot(M.anon("^op"))
        p.emit("op %d", s)
    roots = [p.any(3), p.anycompound(3), p.any(2)]
    s = p.next
    p.emit("st %d %d %d %d 0", s, roots[0], p.cop(), roots[1])
    roots.append(s)
    p.emit("cm %d %d 2 %d %d %d", s + 1, r.randrange(15), 2, s, roots[2])
    roots.append(s + 1)
    at = []
    for x in roots:
        at.append(len(p.lines))
        p.emit("print %d -1", x)
    # a sentence of each type around it
    p.emit("truth 1 %s %s 1", r.choice(("0", "1", "0.3456", "0.9996")), r.choice(("0", "0.9", "0.12345", "0.99999")))
    p.emit("stamp 1 full %d 0 0 -1 %d", r.choice((-5, -1, 0, 1, 5, 100)), r.randrange(2))
    sents = []
    for how in (0, 1):
        punct = r.randrange(4)
        p.emit("sent 1 %d %d %d 1 %d", roots[-1], punct, 1 if punct in (0, 2) else -1, how)
        p.emit("mktask 77 1 %s %s %s", *[r.choice(("0", "1", "0.5", "0.999", "0.005", "1.2", "-0.1")) for _ in range(3)])
        sents.append(len(p.lines))
        p.emit("task pc 77")
    p.lines += ["droptask 77", "dropsent 1", "drops"]
    key = tuple(p.lines)

    def judge(ev):
        for i in at:
            w = pair(ev[i]["s"], ev[i]["c"], "term")
            if w: return w
        for i in sents:
            w = judge_task(ev[i])
            if w: return w
        st.obs["constructed terms"] += len(at)
        st.obs["constructed tasks"] += len(sents)
    return Case(p.lines, judge, key=key, text="%d commands" % len(p.lines))


def run(ctx):
    ctx.rule = ("texts of every form and constructed terms, sentences and tasks, with names full of braces, percent signs, backslashes and escape characters, are shown plain and in color; the color is "
                "removed and the two compared. Distinct accepted texts and constructions are counted.")
    ctx.assumptions = ["colors are SGR escape sequences (ESC [ ... m)"]
    from checks.c03 import SEEDS
    from checks.c07 import values
    corp = gen.corpus()
    grid = values() + SEEDS + corp
    ctx.driver("asan")

    def one(ctx, chunk):
        st = Stats()
        run_cases(st, "asan", ctx.driver("asan"), [case(t, st) for t in chunk])
        return st
    ctx.map(one, [grid[i:i + 400] for i in range(0, len(grid), 400)])

    def texts(r, st):
        g = gen.Gen(r, odd=r.choice((.05, .5)), wide=.05, maxdepth=r.choice((2, 4, 6)))
        return case(g.task() if r.random() < .9 else gen.text(r, g, corp), st)
    ctx.batches(texts, ctx.n(12000, 400000), 800)
    ctx.batches(lambda r, st: case(large.text(r), st), ctx.n(240, 8000), 15)
    ctx.batches(built, ctx.n(6000, 200000), 300)
