"""C03: the parser accepts exactly the grammar and builds what the text denotes (against an LALR reference parser)."""
import itertools
from vlib import gen, judges as J, large, model as M, refparser as R, sweep
from vlib.engine import Case, Stats, run_cases
from vlib.run import hx

SEEDS = [b"<robin --> bird>.", b"<a <-> b>?", b"<{--x --> y>!", b"<a {-- b>.", b"<a --] b>.", b"<a {-] b>@", b"<a ==> b>. :|: %0.5;0.6%", b"(a =/> b)! :/:",
         b"<a =|> b>? :\\:", b"<a =\\> b>. :!-12:", b"<a <=> b>.", b"<a </> b>.", b"<a <|> b>. %1.0;0.9;3%", b"$0.5;0.6;0.7$ A.", b"$0.5$ <$x --> #y>.",
         b"(&&, <$x --> A>, <#y --> B>, <?z --> C>).", b"(a && b && c).", b"(a || b).", b"(||, a, b).", b"(&, {a}, [b]).", b"(a & b).", b"(|, a, b).", b"(a | b).",
         b"(&|, a, b).", b"(a &| b).", b"(&/, a, +5, b).", b"(a &/ b).", b"(-, a, b).", b"(a - b).", b"(~, a, b).", b"(a ~ b).", b"(--, a).", b"--a.", b"(*, a, b).",
         b"(a * b).", b"(a, b, c).", b"(/, r, _, b).", b"(\\, r, a, _).", b"{a, b}.", b"[a, b].", b"(^go, {SELF}, x)!", b"(^go)!", b"go(a, $x).", b"^go.", b"+3.", b"+-3.",
         b"\"a b\".", b"\"a\\\"b\".", b"<(*,{SELF},x) --> ^go>! %1.0%", b"<<a --> b> ==> <c --> d>>.", b"--(--,a).", b"<(a,b) --> c>. :!5: %0.3;0.4%", b"#x.", b"(&&,a,(&&,b,c)).",
         b"  <a-->b>.", b"<-- a --> b>.", b"(a&b - c).", b"((a&b) - (c*d))?", b"$0.9;0.1$ (&/, a, b)! :/: %.5;.5%", b"{$x}@ :|:"]
ALPHA = [b"<", b">", b"(", b")", b"{", b"}", b"[", b"]", b",", b".", b"?", b"!", b"@", b"%", b";", b"$", b"#", b"^", b"+", b":", b"&", b"|", b"*", b"-", b"~", b"--", b"\\", b"/",
         b"=", b" ", b"a", b"Z", b"_", b"0", b"1", b"5", b"-->", b"==>", b"&&", b"0.5", b"\"", b"'", b"\t", b"\x80", b"\xff", b"\x01"]


def case(text, st, what="d"):
    cover = set()
    ref = R.parse(text, cover)
    for x in cover: st.obs["production %s" % (x,)] += 1
    st.obs["grammatical" if ref else "ungrammatical"] += 1

    def judge(ev):
        w = J.whole_problem(ev[0], ref)
        return w and "%s: %r" % (w, text[:400])
    return Case(["q -1 %s %s" % (what, hx(text))], judge, key=text, text=text[:300].decode("latin1"))


def systematic(tier):
    """Texts enumerated completely within stated bounds."""
    out = []
    for c in M.COPULAS:
        for o, e in ((b"<", b">"), (b"(", b")"), (b"<", b")"), (b"(", b">"), (b"[", b"]")):
            for gap in (b"", b" "):
                for p in (b".", b"?", b"!", b"@", b"", b".."):
                    out.append(o + b"a" + gap + c + gap + b"b" + e + p)
    conns = M.CONNS + [b"&&&", b"^", b"#", b"$"]
    for c in conns:
        for n in range(0, 5):
            xs = [b"a", b"b", b"c", b"d"][:n]
            for pre, post in ((b"(", b")"), (b"<", b">"), (b"", b"")):
                out.append(pre + c + b"," + b",".join(xs) + post + b".")
                out.append(pre + c + b" " + b" ".join(xs) + post + b".")
                out.append(pre + b",".join([c] + xs) + post + b".")
                out.append(pre + c.join(xs) + post + b".")
                out.append(pre + (b" " + c + b" ").join(xs) + post + b".")
        for c2 in conns: out += [b"(a" + c + b"b" + c2 + b"c).", b"(a " + c + b" b " + c2 + b" c)?", b"(" + c + b",a,(" + c2 + b",b,c))."]
    for n in range(0, 5):
        for t in itertools.product(b"01.9-", repeat=n):
            t = bytes(t)
            out += [b"A. %" + t + b"%", b"A. %1;" + t + b"%", b"$" + t + b"$ A.", b"A. :!" + t + b":", b"+" + t + b"."]
            if n < 4: out += [b"A! %.5;.5;" + t + b"%", b"$.5;" + t + b"$ A?", b"$.5;.5;" + t + b"$ A@", t + b"."]
    for n in range(0, 6):
        for t in itertools.product(b"a\\\"", repeat=n): out.append(bytes(t) + b".")
    for n in range(0, 4):
        for t in itertools.product((b"a", b"<", b">", b"-->", b"(", b")", b",", b"--", b"&", b"*", b".", b"^", b"$", b"{", b"}", b" "), repeat=n): out.append(b"".join(t)); out.append(b"".join(t) + b".")
    for b in range(256):
        c = bytes([b])
        out += [c, c + b".", b"a" + c + b".", b"a." + c, b"<a" + c + b"-->b>.", b"<a-->" + c + b"b>.", b"$" + c + b".", b'"' + c + b'".', b"^" + c + b".", b"A. " + c + b":|:", b"(a" + c + b"b)."]
    for a, t, p, tv in itertools.product((b"", b"$.5$", b"$.5;.6$", b"$.5;.6;.7$", b"$$", b"$1$ "), (b"A", b"<a-->b>", b"#x"), (b".", b"?", b"!", b"@"),
                                         (b"", b":|:", b":/:", b":\\:", b":!3:", b"%1%", b"%1;.5%", b"%1;.5;2%", b":|: %.3%", b"%.3% :|:", b":|: :|:", b"%1%%1%", b"%1;1%", b"%1;0%")):
        out.append(a + t + p + tv)
    for s in SEEDS:
        for i in range(len(s) + 1):
            out.append(s[:i])
            out.append(s[i:])
            if i < len(s): out.append(s[:i] + s[i + 1:])
            for x in ALPHA:
                out.append(s[:i] + x + s[i:])
                if i < len(s) and x != s[i:i + 1]: out.append(s[:i] + x + s[i + 1:])
        for i in range(len(s) - 1): out.append(s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:])
    return list(dict.fromkeys(out))


def names_like_tokens(r):
    """Texts whose names and numbers run into neighbouring tokens."""
    parts = [b"a", b"-", b"--", b"b", b"-->", b"{", b"{--", b"--]", b"]", b"1", b"0.5", b".", b"_", b" ", b"=", b"==>", b"<", b">", b"/", b"\\", b"&", b"'", b"9", b"(", b")", b",", b"^", b"+"]
    return b"<" + b"".join(r.choice(parts) for _ in range(r.randint(1, 6))) + r.choice(M.COPULAS) + b"".join(r.choice(parts) for _ in range(r.randint(1, 6))) + b">" + r.choice(M.PUNCTS)


def run(ctx):
    ctx.rule = ("texts enumerated within bounds (copulas and brackets, connectors and forms and counts, numbers up to 4 characters, string literals, every byte in 11 places, task "
                "skeletons, all single edits and prefixes of %d seeds), every combination of two (three) states of the grammar's automaton with every token that "
                "may stand there broken by every character at every point (sampled), random derivations, mutations, token soup and bytes; acceptance, structure, type, tense, truth and "
                "budget are compared with an independent LALR(1) reference parser of the same grammar. Distinct texts are counted." % len(SEEDS))
    ctx.assumptions = ["the grammar is the one of Narsese/Parser/narsese.par as transcribed in vlib/refparser.py", "integers out of range saturate"]
    texts = systematic(ctx.tier)
    ctx.extra["enumerated texts"] = len(texts)
    r = ctx.rng("pick")
    if ctx.tier == "quick":
        r.shuffle(texts)
        texts = texts[:95000]
    ctx.driver("asan")
    chunks = [texts[i:i + 2500] for i in range(0, len(texts), 2500)]

    def one(ctx, chunk):
        M.reset()
        st = Stats()
        run_cases(st, "asan", ctx.driver("asan"), [case(t, st) for t in chunk])
        return st
    ctx.map(one, chunks)
    # every state of the automaton, every token that may stand there, every character at every point of it
    ways = sweep.prefixes(2 if ctx.tier == "quick" else 3)
    ctx.extra["combinations of states visited"] = len(ways)
    order = ctx.rng("ways")
    order.shuffle(ways)
    kept = (.03, .2) if ctx.tier == "quick" else (.2, .6)

    def swept(ctx, job):
        M.reset()
        st, (n, part) = Stats(), job
        r = ctx.rng("sweep", n)
        run_cases(st, "asan", ctx.driver("asan"), [case(t, st) for way in part for t in sweep.texts(*way, r, *kept)])
        st.obs["texts of the sweep over states, tokens and characters"] = st.n
        return st
    ctx.map(swept, list(enumerate(ways[i:i + 15] for i in range(0, len(ways), 15))))
    corp = gen.corpus()

    def random_text(r, st):
        k = r.random()
        if k < .12: return case(names_like_tokens(r), st)
        g = gen.Gen(r, odd=r.choice((.03, .3)), wide=r.choice((.03, .2)), spaces=r.choice((0, .35, .8)), maxdepth=r.choice((2, 4, 6)))
        return case(gen.text(r, g, corp), st)
    ctx.batches(random_text, ctx.n(40000, 1500000), 1500)
    ctx.batches(lambda r, st: case(large.text(r) if r.random() < .6 else gen.mutate(r, large.text(r)), st), ctx.n(400, 10000), 25)
    prods = [k for k in ctx.stats.obs if k.startswith("production ")]
    ctx.extra["productions of the grammar reduced"] = len(prods)
    for k in prods: del ctx.stats.obs[k]
