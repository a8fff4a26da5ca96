"""C07: the printed form of a task, sentence or term is read back as the same (to the precision printed)."""
import re
from vlib import gen, judges as J, large, model as M, refparser as R, run as X, trace as T
from vlib.engine import Case, violation
from vlib.recipe import Recipe
from vlib.run import hx

NEED2 = {M.CONJ, M.DISJ, M.PAR, M.SEQ, M.INTINT, M.EXTINT}  # read with at least two components only
BUDGET = re.compile(rb"\$(\d\.\d\d);(\d\.\d\d);(\d\.\d\d)\$ ")
TRUTH = re.compile(rb"%(\d\.\d\d\d);(\d\.\d\d\d)%$")


def rename(i, to, memo=None):
    """The term with its variables renumbered by `to`, {(kind, number): number}."""
    memo = {} if memo is None else memo
    if i in memo: return memo[i]
    k, d, ch = M.node(i)
    if not any(M.has_vars(i)): x = i
    elif k == "v": x = M.var(d[0], to[(d[0], d[1])])
    elif k == "s": x = M.statement(rename(ch[0], to, memo), d, rename(ch[1], to, memo))
    else: x = M.raw_compound(d, [rename(c, to, memo) for c in ch])
    memo[i] = x
    return x


def undo(p):
    """Numbers of the variables of a printed text -> the numbers it was printed with."""
    return {(k, n): int(name) for k in range(3) for name, n in p.names[k].items()}


def unreadable(i):
    """Compounds the grammar has no form for."""
    for x, _ in M.walk(i):
        k, d, ch = M.node(x)
        if k == "s" and d in (2, 3, 4): return True  # abbreviations, which are read as the statements they abbreviate
        if k == "c" and (d in NEED2 and len(ch) < 2 or d == M.LIST or d in (M.EXTDIF, M.INTDIF) and len(ch) != 2 or d == M.NEG and len(ch) != 1): return True
    return False


def same(text, e, i, what):
    """The printed text, and what the real parser made of it, against the term it was printed from."""
    p = R.parse(text)
    if p is None or not e["ok"]: return "the printed %s is not accepted: %r" % (what, text[:300])
    if rename(p.term, undo(p)) != i: return "the printed %s denotes %s instead of %s: %r" % (what, M.show(p.term), M.show(i), text[:300])
    d = T.read(e["term"])
    if rename(d.root, undo(p)) != i: return "the printed %s is read as %s instead of %s: %r" % (what, M.show(d.root), M.show(i), text[:300])
    return None


def judge_rt(e, p, t, st):
    w = J.accept_problem(e, p)
    if w or p is None: return w
    d = T.read(e["term"])
    if d.root != p.term: return "the term is %s instead of %s" % (M.show(d.root), M.show(p.term))
    if e["after"] != e["term"]: return "printing changed the term"
    if e["reg"] != [0, 0]: return "printing changed the registry by %s entries" % e["reg"]
    task, sent, term = [bytes.fromhex(x) for x in e["printed"]]
    if not term.endswith(b".") or not sent.startswith(term[:-1]) or not task.endswith(sent): return "the printed forms disagree: %r, %r, %r" % (task[:200], sent[:200], term[:200])
    rest = sent[len(term) - 1:]
    # the numbers shown
    m = BUDGET.match(task)
    if not m or m.end() != len(task) - len(sent): return "no budget is shown: %r" % task[:200]
    for x, y in zip(m.groups(), e["budget"]):
        if abs(float(x) - y) > .00551: return "budget %s is shown as %r" % (e["budget"], m.group(0))
    punct, tail = rest[:1], rest[1:]
    if punct != M.PUNCTS[p.punct]: return "the punctuation is shown as %r" % rest[:20]
    if tail[:1] != b" ": return "shown as %r" % rest[:40]
    tense = None if e["stamp"]["eternal"] else (b":\\:", b":|:", b":/:")[e["stamp"]["tense"]]
    tail = tail[1:]
    if tense:
        if not tail.startswith(tense + b" "): return "tense %r is shown as %r" % (tense, tail[:20])
        tail = tail[len(tense) + 1:]
    odd = m.group(2) in (b"0.00", b"1.00")
    if p.punct in (0, 2):
        q = TRUTH.match(tail)
        if not q: return "truth is shown as %r" % tail[:40]
        for x, y in zip(q.groups(), e["truth"]):
            if abs(float(x) - y) > .000505: return "truth %s is shown as %r" % (e["truth"], tail)
        odds = q.group(2) in (b"0.000", b"1.000")
    elif tail: return "%r follows the sentence" % tail
    else: odds = False
    if unreadable(p.term):
        st["unreadable compounds (known finding)"] += 1
        return None
    w = same(term, e["again"][2], p.term, "term")
    if w: return w
    if odds:
        st["confidence shown as 0 or 1 (known finding)"] += 1
        return None
    w = same(sent, e["again"][1], p.term, "sentence")
    if w: return w
    if odd:
        st["durability shown as 0 or 1 (known finding)"] += 1
        return None
    w = same(task, e["again"][0], p.term, "task")
    if w: return w
    a = e["again"][0]
    for i, (u, tol) in enumerate(((a, .00551), (e["again"][1], 0))):
        if u["punct"] != e["punct"]: return "punctuation %d comes back as %d" % (e["punct"], u["punct"])
        if (u["truth"] is None) != (e["truth"] is None): return "truth %s comes back as %s" % (e["truth"], u["truth"])
        if u["truth"] and any(abs(x - y) > .000505 for x, y in zip(u["truth"][:2], e["truth"][:2])): return "truth %s comes back as %s" % (e["truth"], u["truth"])
        if u["stamp"]["tense"] != e["stamp"]["tense"] or u["stamp"]["eternal"] != e["stamp"]["eternal"]: return "tense %s comes back as %s" % (e["stamp"]["tense"], u["stamp"]["tense"])
        if tol and any(abs(x - y) > tol for x, y in zip(u["budget"], e["budget"])): return "budget %s comes back as %s" % (e["budget"], u["budget"])
    again = bytes.fromhex(a["task_s"])
    p2, p3 = R.parse(task), R.parse(again)
    if p3 is None or rename(p3.term, {k: undo(p2)[(k[0], n)] for k, n in undo(p3).items()}) != p.term: return "printed again as %r after %r" % (again[:200], task[:200])
    if not any(M.has_vars(p.term)) and again != task: return "printed again as %r after %r" % (again[:300], task[:300])
    st["round trips of %s" % ("judgements", "questions", "goals", "quests")[p.punct]] += 1
    return None


def case(t, st):
    p = R.parse(t)
    if p is None: return None

    def judge(ev):
        w = judge_rt(ev[0], p, t, st.obs)
        return w and "%s (of %r)" % (w, t[:300])
    return Case(["rt -1 " + hx(t)], judge, key=t, text=t[:300].decode("latin1"))


def built(r, st):
    """Terms made by constructors, printed and read back."""
    p = Recipe(r, names=(b"A", b"B", b"C", b"\"q\\\"\"", b"x1", b"0"), vars=r.choice((0, .2)))
    s = p.any(4)
    for _ in range(3):
        if p.r.random() < .5: s = p.anycompound(3)
    p.emit("rtterm %d", s)
    n = len(p.lines) - 1
    p.lines.append("drops")
    i = p.id[s]
    if unreadable(i) or M.node(i)[0] == "v": return None

    def judge(ev):
        w = same(bytes.fromhex(ev[n]["printed"]), ev[n]["again"], i, "term")
        if not w: st.obs["round trips of constructed terms"] += 1
        return w
    return Case(p.lines, judge, key=M.show(i), text=M.show(i))


def many(r, st):
    """Many different variables, components or levels in one task."""
    n = r.choice((9, 10, 11, 12, 16, 26, 27, 32, 36, 37, 62, 63, 100, 101, 130, r.randrange(2, 140)))
    kinds = r.choice(("$", "#", "?", "$#?"))
    leaf = [r.choice(kinds) + r.choice(("v", "x")) + str(i if r.random() < .8 else r.randrange(n)) if r.random() < .85 else "A%d" % i for i in range(n)]
    form = r.randrange(5)
    if form == 0: t = "(*, %s)" % ", ".join(leaf)
    elif form == 1: t = "(&&, %s)" % ", ".join("<%s --> P>" % x for x in leaf)
    elif form == 2: t = "<{%s} --> (&/, %s)>" % (", ".join(leaf[:n // 2] or ["A"]), ", ".join(leaf[n // 2:] + ["B"]))
    elif form == 3: t = "(#, %s)" % ", ".join("(/, %s, _, B)" % x if 0 else "<%s --> B>" % x for x in leaf)
    else:
        t = leaf[0]
        for x in leaf[1:40]: t = "<%s --> %s>" % ((t, x) if r.random() < .5 else (x, t))
    return case((t + r.choice((".", "?", "! :|:", "@ :!3:", ". %.5;.25%"))).encode(), st)


def known(ctx):
    """The recorded findings: forms that are shown but not read."""
    for key, t in (("singleton", b"(&&, A, A)."), ("confidence-0", b"A. %1.0;0.0001%"), ("confidence-1", b"A. %1.0;0.9999%"), ("durability-0", b"$0.5;0.001;0.5$ A."), ("durability-1", b"$0.5;0.999;0.5$ A.")):
        e = X.execute(ctx.driver("asan"), ["rt -1 " + hx(t)]).events[0]
        ctx.stats.n += 1
        ctx.stats.key("known", key)
        if not e["ok"] or not e["again"][0]["ok"]: ctx.stats.viols.append(violation(key, "printed as %r, which is not accepted: %r" % (bytes.fromhex(e["printed"][0]), t), "asan", ["rt -1 " + hx(t)]))


def values():
    """Every printed digit: truth and budget values on a fine grid."""
    out = []
    for i in range(0, 1001, 7): out += [b"A. %%%.3f;0.5%%" % (i / 1000), b"A! %%0.5;%.3f%%" % min(.999, max(.001, i / 1000)), b"$%.3f;0.5;0.5$ A?" % (i / 1000), b"$0.5;%.3f;0.5$ A." % min(.99, max(.01, i / 1000)),
                                        b"$.5;.5;%.3f$ A@" % (i / 1000)]
    for i in (0.0005, 0.0015, 0.4995, 0.9994, 0.99949, 0.99951, 0.005, 0.015, 0.125, 0.375, 0.994, 0.995, 0.996): out += [b"A. %%%.6f;%.6f%%" % (i, i), b"$%.6f;%.6f;%.6f$ A." % (i, i, i)]
    return out


def run(ctx):
    ctx.rule = ("accepted texts of every sentence type, tense and value and constructed terms are printed, and the printed task, sentence and term are parsed again by the real and the reference "
                "parser; the terms must be the same up to the numbering of variables, the values to the digits shown, and the second printing the same. Distinct texts are counted.")
    ctx.assumptions = ["k and the exact time of a tense are not shown", "three kinds of shown forms that are not read are recorded as findings"]
    from checks.c03 import SEEDS, systematic
    corp = gen.corpus()
    grid = values() + SEEDS + corp
    from vlib.engine import Stats, run_cases
    ctx.driver("asan")

    def one(ctx, chunk):
        M.reset()
        st = Stats()
        run_cases(st, "asan", ctx.driver("asan"), [c for c in (case(t, st) for t in chunk) if c])
        return st
    ctx.map(one, [grid[i:i + 400] for i in range(0, len(grid), 400)])

    def texts(r, st):
        g = gen.Gen(r, odd=r.choice((.03, .4)), wide=r.choice((.02, .15)), maxdepth=r.choice((2, 4, 6)), names=r.choice((None, [b"A", b"B"])))
        return case(g.task() if r.random() < .85 else gen.text(r, g, corp), st)
    ctx.batches(texts, ctx.n(20000, 700000), 800)
    ctx.batches(lambda r, st: case(large.text(r), st), ctx.n(240, 8000), 15)
    ctx.batches(built, ctx.n(5000, 150000), 400)
    ctx.batches(many, ctx.n(800, 8000), 50)
    known(ctx)
