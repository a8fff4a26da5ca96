"""C19: for every copula, connector, tense, punctuation and kind of variable: symbol read, value, symbol shown and properties belong together."""
import itertools
from vlib import judges as J, model as M, refparser as R, run as X, trace as T
from vlib.engine import Case, Stats, run_cases, violation
from vlib.recipe import Recipe
from vlib.run import hx
from checks.c07 import rename, undo, unreadable

SYMMETRIZE = {0: 1, 1: 1, 5: 9, 6: 10, 7: 11, 9: 9, 10: 10, 11: 11}
REVERSE = {6: 8, 7: 7, 8: 6, 11: 11}
SINGLE, DOUBLE = {M.NEG}, {M.EXTDIF, M.INTDIF}
MULTIPLE = {M.CONJ, M.DISJ, M.PROD, M.PAR, M.SEQ, M.INTINT, M.EXTINT, M.EXTDIF, M.INTDIF, M.INTIMG, M.EXTIMG}
TEMPORAL = {M.PAR, M.SEQ}
TENSES = [b":\\:", b":|:", b":/:", b":-:"]
BIG = (511, 512, 513, 1024, 65535, 65536, 65537, 1000000, 16777216, 2147483647, 2147483648, 4294967295)
VARS = [b"$", b"#", b"?"]


def right(c, n):
    """Whether n components suit the connector."""
    return n > 0 and (c not in SINGLE or n == 1) and (c not in DOUBLE or n == 2) and (c not in MULTIPLE or n > 1)


def judge_tables(e):
    un = bytes.fromhex
    for c, (rep, comm, high, temp, sym, rev) in enumerate(e["copulas"]):
        n = M.COPULAS[c].decode()
        if un(rep) != M.COPULAS[c]: return "copula %d is shown as %r instead of %r" % (c, un(rep), n)
        if comm != (c in M.COP_COMM): return "is_commutative(%s) is %d" % (n, comm)
        if high != (c in M.COP_HIGHER): return "is_higher_order(%s) is %d" % (n, high)
        if temp != (c in M.COP_TEMPORAL): return "is_temporal(%s) is %d" % (n, temp)
        if sym != SYMMETRIZE.get(c, -1): return "symmetrize(%s) is %d" % (n, sym)
        if rev != REVERSE.get(c, -1): return "reverse(%s) is %d" % (n, rev)
        if rev >= 0 and e["copulas"][rev][5] != c: return "reversing %s twice gives %d" % (n, e["copulas"][rev][5])
        if sym >= 0 and e["copulas"][sym][4] != sym: return "symmetrizing %s twice gives another copula than once" % n
    if len(e["copulas"]) != 12 or e["copula_names"] != list(range(12)) * 2: return "copulas by name: %s" % e["copula_names"]
    for c, (rep, red, comm, one, two, many, temp, ok) in enumerate(e["connectors"]):
        n = M.CONNS[c].decode()
        # the record lists reducible and commutative
        want = [M.CONNS[c], c in M.CON_COMM, c in M.CON_REDUCIBLE, c in SINGLE, c in DOUBLE, c in MULTIPLE, c in TEMPORAL]
        got = [un(rep), red, comm, one, two, many, temp]
        for what, w, g in zip(("symbol", "is_commutative", "is_reducible", "is_single_only", "is_double_only", "is_multiple_only", "is_temporal"), want, got):
            if w != g: return "%s of %s is %r" % (what, n, g)
        for k, b in enumerate(ok):
            if (b == "1") != right(c, k): return "%d components are %svalid for %s" % (k, "" if b == "1" else "not ", n)
        for k, b in zip(BIG, e["valid_big"][c]):
            if (b == "1") != right(c, k): return "%d components are %svalid for %s" % (k, "" if b == "1" else "not ", n)
    if len(e["connectors"]) != 15 or e["connector_names"] != list(range(15)) * 2: return "connectors by name: %s" % e["connector_names"]
    if [un(x) for x in e["tenses"]] != TENSES or e["tense_names"] != [0, 1, 2, 3]: return "tenses: %s" % [un(x) for x in e["tenses"]]
    if [un(x) for x in e["puncts"]] != M.PUNCTS or e["punct_names"] != [0, 1, 2, 3]: return "punctuations: %s" % [un(x) for x in e["puncts"]]
    if [un(x) for x in e["vars"]] != VARS: return "kinds of variables: %s" % [un(x) for x in e["vars"]]
    if [un(x) for x in e["other_tu"]] != M.COPULAS + M.CONNS: return "another translation unit has other symbols: %s" % [un(x) for x in e["other_tu"]]
    return None


def look(d, want, what):
    """A dumped term: value and properties at every node."""
    if d.root != want: return "%s is %s instead of %s" % (what, M.show(d.root), M.show(want))
    return T.attribute_problem(d)


FAM = [b"A", b"<A --> B>", b"{A}", b"[A]", b"(--,A)", b"$x", b"#x", b"?x", b"+3", b"(*,A,B)", b"(&/,A,+1)", b"^go" and b"(^go,A)"]


def texts():
    """Every symbol at work in a text, and next to every other."""
    out = []
    for c in M.COPULAS:
        for s, p in itertools.product(FAM, repeat=2):
            out.append(b"<" + s + b" " + c + b" " + p + b">.")
        for s, p in ((b"A", b"B"), (b"1", b"2"), (b"x", b"_")):
            out += [b"<" + s + c + p + b">.", b"<" + s + b" " + c + p + b">.", b"<" + s + c + b" " + p + b">.", b"<" + s + b"\t" + c + b"  " + p + b" >?", b"(" + s + c + p + b")."]
        for c2 in M.COPULAS:
            out += [b"<<A " + c + b" B> " + c2 + b" <C " + c + b" D>>.", b"<A" + c + b"<B" + c2 + b"C>>!"]
        out += [b"<A " + c[:-1] + b" B>.", b"<A " + c + c[-1:] + b" B>.", b"<A " + c[0:1] + b" " + c[1:] + b" B>.", b"<A " + c + b">.", b"<" + c + b" B>."]
    for k, c in enumerate(M.CONNS):
        for n in range(7):
            names = [b"A", b"B", b"C", b"D", b"E", b"F"][:n]
            out += [b"(" + b",".join([c] + names) + b").", b"(" + b" , ".join([c] + names) + b" )?", b"(" + c + b" " + b",".join(names) + b").", b"{" + b",".join(names) + b"}!", b"[" + b", ".join(names) + b"]@"]
            if n > 1: out += [b"(" + (b" " + c + b" ").join(names) + b").", b"(" + c.join(names) + b")."]
        for f in FAM:
            out += [b"(" + c + b"," + f + b",Z).", b"(" + c + b",Z," + f + b").", b"(" + c + b"," + f + b").", c + f + b".", c + b" " + f + b"."]
        for c2 in M.CONNS:
            out += [b"(" + c + b",(" + c2 + b",A,B),C).", b"(" + c + b",C,(" + c2 + b",A,B)).", b"(" + c + b",(" + c2 + b",A,B),(" + c2 + b",C,B)).",
                    b"(" + c + b",{A,B},(" + c2 + b",[C],[D]))."]
        for c2 in M.COPULAS: out += [b"<(" + c + b",A,B) " + c2 + b" (" + c + b",B,A)>."]
    for p in M.PUNCTS:
        for t in [b""] + [b" " + t for t in TENSES] + [b" :!5:", b" :!-5:", b" :!0:"]:
            for tr in (b"", b" %0.5;0.6%", b" %0.5%", b" %0.5;0.6;2%"):
                for b in (b"", b"$0.5;0.5;0.5$ ", b"$0.5$ "): out.append(b + b"<A --> B>" + p + t + tr)
    for v in VARS + [b"+", b"^", b"-", b"&"]: out += [v + b"x.", v + b"1.", v + b"x" + v + b"x.", b"<" + v + b"x --> " + v + b"y>.", b"{" + v + b"x," + v + b"y," + v + b"x}."]
    return list(dict.fromkeys(out))


def read_case(t, st):
    """The text is read as what it denotes and shown with the symbols it was written with."""
    p = R.parse(t)

    def judge(ev):
        e = ev[0]
        w = J.whole_problem(e, p)
        if w: return "%r: %s" % (t, w)
        st.key("text", t)
        if p is None:
            st.obs["rejected"] += 1
            return None
        st.obs["accepted"] += 1
        w = look(T.read(e["term"]), p.term, "%r" % t)
        if w: return w
        shown = bytes.fromhex(e["printed"][1])
        body = shown
        want = M.PUNCTS[p.punct]
        occ = J.expected_occurrence(p)
        ten = b"" if occ is None else TENSES[J.tense_class(occ, 0, 5)]
        if p.punct in (0, 2): body = body[:body.rindex(b"%", 0, len(body) - 1)] if body.endswith(b"%") else body
        body = body.rstrip(b" ")
        if ten:
            if not body.endswith(b" " + ten): return "%r is shown without %r: %r" % (t, ten, shown)
            body = body[:-len(ten)].rstrip(b" ")
        elif body.endswith(b":") : return "%r is shown with a tense: %r" % (t, shown)
        if not body.endswith(want): return "%r is shown without %r: %r" % (t, want, shown)
        if unreadable(p.term): return None
        q = R.parse(body[:-1] + b".")
        if q is None: return "%r is shown as %r, which is not readable" % (t, shown)
        if rename(q.term, undo(q)) != p.term: return "%r is shown as %r, which denotes %s" % (t, shown, M.show(q.term))
        return None
    return Case(["rt -1 " + hx(t)], judge, text=t.decode("latin1"))


def shape(text, pre, kids, post):
    """Whether the text is pre + kids in some order + post."""
    return any(text == pre + b", ".join(k) + post for k in itertools.permutations(kids))


def build_cases(st):
    """Every copula and connector in constructed terms: as built, as shown, plain and in colour."""
    out = []

    def add(p, x, i, ok, what):
        p.emit("dump d %d -1", x)
        p.emit("print %d -1", x)
        p.lines.append("drops")

        def judge(ev):
            w = look(T.read(ev[-3]["term"]), i, what)
            if w: return w
            s, c = bytes.fromhex(ev[-2]["s"]), bytes.fromhex(ev[-2]["c"])
            if not ok(s): return "%s is shown as %r" % (what, s)
            if J.strip_color(c) != s: return "%s is shown as %r, in colour as %r" % (what, s, c)
            st.key("built", what)
            st.obs["constructed"] += 1
            return None
        out.append(Case(p.lines, judge, text=what))
    for c in range(12):
        for how in (0, 1):
            for a, b in ((b"A", b"B"), (b"A", b"A"), (b"^x"[1:], b"go")):
                p = Recipe(None)
                x = p.statement(p.atom(a), c, p.atom(b), how)
                add(p, x, p.id[x], lambda s, a=a, b=b, c=c: s == b"<" + a + b" " + M.COPULAS[c] + b" " + b + b">", "<%s %s %s> (%d)" % (a.decode(), M.COPULAS[c].decode(), b.decode(), how))
            # a product and an operation: an operation for inheritance alone
            p = Recipe(None)
            args = p.compound(M.PROD, [p.atom(b"A")], 0)
            x = p.statement(args, c, p.op(b"go"), how)
            add(p, x, p.id[x], lambda s, c=c: s == (b"(^go, A)" if c == 0 else b"<(*, A) " + M.COPULAS[c] + b" ^go>"), "<(*, A) %s ^go> (%d)" % (M.COPULAS[c].decode(), how))
    for c in range(15):
        for n in range(1, 6):
            for how in Recipe(None).hows(c, n):
                names = [b"A", b"B", b"C", b"D", b"E"][:n]
                p = Recipe(None)
                x = p.compound(c, [p.atom(a) for a in names], how)
                pre, post = (b"{", b"}") if c == M.EXTSET else (b"[", b"]") if c == M.INTSET else (b"(" + M.CONNS[c] + b", ", b")")

                def ok(s, c=c, names=names, pre=pre, post=post):
                    return shape(s, pre, names, post) if c in M.CON_COMM else s == pre + b", ".join(names) + post
                add(p, x, p.id[x], ok, "%s of %d (%d)" % (M.CONNS[c].decode(), n, how))
    return out


def run(ctx):
    ctx.rule = "a symbol in a position: tables in each build, every symbol in texts next to every other, in constructed terms by every constructor; distinct by text or construction"
    ctx.assumptions = ["the tables of Narsese: symmetric counterparts of inheritance and the implications, reverses of the temporal ones; -, ~ take two, -- one, images and the n-ary connectors at least two components"]
    seen = []
    for cfg in ("asan", "g2"):
        r = X.execute(ctx.driver(cfg), ["tables", "q -1 d " + hx(b"<(&&,A,B) =/> C>. :|:"), "tables"], san=cfg == "asan")
        st = Stats()
        for n in (0, 2):
            if len(r.events) <= n: v = "the run ended: %s %s" % (r.dead, r.report[:500])
            else: v = judge_tables(r.events[n])
            st.n += 1
            if v:
                st.viols.append(violation("tables", v, cfg, ["tables"]))
                break
            st.key("tables", cfg, n)
            st.obs["table entries"] += 12 * 6 + 15 * (7 + 312) + 11
        seen.append(st)
    for st in seen: ctx.stats.add(st)
    all_texts = texts()
    ctx.extra["texts with every symbol"] = len(all_texts)
    for cfg in ("asan", "g2"):
        jobs = [all_texts[i:i + 500] for i in range(0, len(all_texts), 500)] + ["built"]

        def one(c, job, cfg=cfg):
            st = Stats()
            M.reset()
            cases = build_cases(st) if job == "built" else [read_case(t, st) for t in job]
            if job == "built" or job is jobs[0]: st.samples += [x.text for x in cases[:5]]
            run_cases(st, cfg, c.driver(cfg), cases)
            return st
        ctx.map(one, jobs)

    # random order and histories: the same texts in other orders and other parsers, symbols glued and mixed
    def mixed(r, st):
        if r.random() < .5: return read_case(r.choice(all_texts), st)
        a, b, c = r.choice(FAM), r.choice(FAM), r.choice(FAM)
        k = r.random()
        if k < .3: t = b"<" + a + r.choice((b"", b" ")) + r.choice(M.COPULAS) + r.choice((b"", b" ")) + b + b">"
        elif k < .6: t = b"(" + r.choice(M.CONNS) + b"," + r.choice((b"", b" ")) + b",".join(r.sample(FAM, r.randint(1, 4))) + b")"
        elif k < .8: t = b"(" + a + r.choice(M.CONNS) + b + r.choice(M.CONNS) + c + b")"
        else: t = b"<(" + r.choice(M.CONNS) + b"," + a + b"," + b + b")" + r.choice(M.COPULAS) + r.choice((b"{%s}", b"[%s]", b"(--,%s)")).replace(b"%s", c) + b">"
        return read_case(t + r.choice(M.PUNCTS) + r.choice((b"", b"", b" :|:", b" :/:", b" :\\:", b" :-:")), st)
    ctx.batches(mixed, ctx.n(6000, 150000), 500)
