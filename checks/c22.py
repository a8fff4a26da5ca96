"""C22: a syntax error is reported once, at the place where the text stops being the beginning of a grammatical one; nothing else is written."""
import re
from vlib import gen, large, refparser as R, sweep
from vlib.engine import Case
from vlib.run import hx

REPORT = re.compile(rb"^line (\d+), column (\d+): syntax error on symbol (-?\d+), token '(.*)'$", re.S)


def case(texts, st, parser=-1):
    """Some texts, one after the other, by one parser."""
    want = []
    for t in texts:
        where = []
        p = R.parse(t, None, where)
        want.append((t, p is not None, where))
        st.obs["accepted" if p is not None else "rejected"] += 1
        if where: st.obs["rejected at %s" % ("the end" if where[0] == len(R.read_line(t)) else "the start" if where[0] == 0 else "some place between")] += 1
    lines = ["e %d %s" % (parser, hx(t)) for t in texts]

    def judge(ev):
        for e, (t, ok, where) in zip(ev, want):
            out, err = bytes.fromhex(e["out"]), bytes.fromhex(e["err"])
            what = "%r%s" % (t[:300], " after others" if t is not texts[0] else "")
            if out: return "parsing %s writes %r to standard output" % (what, out[:200])
            if bool(e["ok"]) != ok: return "%s is %s" % (what, "rejected" if ok else "accepted")
            if ok:
                if err: return "parsing %s, which is grammatical, writes %r" % (what, err[:200])
                continue
            m = REPORT.match(err[:-1] if err.endswith(b"\n") else b"")
            if m is None: return "rejecting %s is reported as %r" % (what, err[:300])
            line, col, tok = int(m.group(1)), int(m.group(2)), m.group(4)
            b = R.read_line(t)
            if (line, col) != (1, where[0] + 1): return "%s is said to fail at line %d, column %d, instead of line 1, column %d" % (what, line, col, where[0] + 1)
            rest = b[where[0]:]
            if not rest.startswith(tok) or not tok and rest: return "%s is said to fail at the token %r, but %r is there" % (what, tok[:100], rest[:100])
        return None
    return Case(lines, judge, key=tuple(texts), text=repr(texts)[:300])


def broken(r, t):
    """One fault, at a place that is known to matter."""
    k, n = r.random(), len(t)
    i = r.randrange(n + 1)
    if k < .3: return t[:i]
    if k < .5: return t[:i] + t[i + 1:]
    if k < .8: return t[:i] + r.choice(gen.PUNCT_TOKENS + [b" ", b"a", b"\x80", b"\xe9x", b"0"]) + t[i:]
    return t + r.choice((b".", b"x", b" x", b"%", b":|:", b"   >", b"\n<a --> b>.", b"\x00x"))


def run(ctx):
    ctx.rule = ("grammatical, faulty and arbitrary texts, long ones too, alone and one after the other by the same parser: the report on standard error is compared with the place at which the reference "
                "parser has no continuation; standard output stays empty, and so does standard error for grammatical texts. Distinct sequences of texts are counted.")
    ctx.assumptions = ["a column counts the bytes before the token that cannot be read, from 1; all text is on line 1, as reading ends at the first line break"]
    corp = gen.corpus()

    def texts(r, st):
        g = gen.Gen(r, odd=r.choice((.03, .3)), wide=.05, maxdepth=r.choice((2, 4, 6)))
        out = []
        for _ in range(r.choice((1, 1, 1, 2, 3, 6))):
            k = r.random()
            out.append(broken(r, g.task()) if k < .5 else gen.text(r, g, corp))
        return case(out, st, r.choice((-1, -1, 1, 2)))
    ctx.batches(texts, ctx.n(16000, 500000), 500)

    def big(r, st):
        t = large.text(r)
        return case([broken(r, t) if r.random() < .8 else t] + [broken(r, b"<a --> b>.")], st, r.choice((-1, 1)))
    ctx.batches(big, ctx.n(300, 10000), 20)
    ways = sweep.prefixes(2)
    ctx.rng("ways").shuffle(ways)
    kept = (.01, .02) if ctx.tier == "quick" else (.3, .3)

    def swept(r, st, todo={}):
        way = ways[r.randrange(len(ways))]
        ts = sweep.texts(*way, r, *kept)
        r.shuffle(ts)
        return case(ts[:60], st)
    ctx.batches(swept, ctx.n(600, 12000), 20)
