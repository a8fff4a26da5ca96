"""C04: what a text is parsed to does not depend on the history (other texts, rejections, parser instances, live tasks)."""
from vlib import gen, judges as J, large, model as M, refparser as R, trace as T
from vlib.engine import Case
from vlib.run import hx

VARTEXTS = [b"<$x --> #y>.", b"(&&, <$x --> A>, <#y --> $x>, <?z --> B>).", b"<<$1 --> A> ==> <$1 --> B>>.", b"(&&, $x, $y, #x, #y, ?x, ?y).", b"(&/, <$a --> b>, +5, (^go, $a))! :/:",
            b"$0.5;0.6;0.7$ <a --> b>. :|: %0.3;0.4%", b"<{a} --> [b]>?", b"\"str ing\".", b"(^op, #x, #y)!", b"{$x, $y, $x}.", b"+12.", b"<a --> b>. :!-7:"]


def essence(e):
    """What may not differ between two reports of one text (evidence, times and addresses may)."""
    if not e["ok"]: return None
    d = T.read(e["term"])
    s = e["stamp"]
    return (d.root, e["punct"], str(e["truth"]), str(e["budget"]), s["eternal"], s["occ"], s["tense"])


def snapshot(e): return {k: v for k, v in e.items()}


def case(r, st, corp):
    g = gen.Gen(r, names=[b"A", b"B", b"C", b"x"], odd=.08, wide=.04)
    kind = r.random()
    probe = r.choice(VARTEXTS) if r.random() < .3 else large.text(r) if r.random() < .02 else gen.text(r, g, corp)
    texts = [probe]
    if kind < .35:  # rejections at many prefixes of one text
        cuts = list(range(len(probe) + 1))
        r.shuffle(cuts)
        texts += [probe[:c] + (b"" if r.random() < .7 else r.choice(gen.PUNCT_TOKENS)) for c in cuts[:12]]
    elif kind < .5:
        t = b"".join(r.choice((b"<", b"(", b"(&&,", b"$x", b"#y", b"a", b",", b"{", b"-->", b"(^go,", b"$0.5;")) for _ in range(r.randint(1, 60)))
        texts += [t[:r.randint(1, len(t))] for _ in range(5)]
    else:
        texts += [gen.text(r, g, corp) for _ in range(r.randint(1, 8))]
        if r.random() < .4: texts.append(b"n" * r.choice((15, 16, 40, 255, 256, 600)) + b".")
    refs = {}
    lines, plan, live = [], [], {}
    for i in range(r.randint(6, 26)):
        k = r.random()
        t = probe if r.random() < .4 else r.choice(texts)
        p = r.choice((-1, -1, 1, 2, 3))
        if k < .6:
            plan.append((len(lines), "parse", t, None))
            lines.append("q %d v %s" % (p, hx(t)))
        elif k < .85:
            s = r.randint(0, 4)
            plan.append((len(lines), "keep", t, s))
            lines.append("k %d vp %d %s" % (p, s, hx(t)))
        elif k < .9: lines.append("newparser %d" % r.choice((1, 2, 3)))
        elif k < .92: lines.append("delparser %d" % r.choice((1, 2, 3)))
        elif k < .95:
            s = r.randint(0, 4)
            plan.append((len(lines), "drop", None, s))
            lines.append("droptask %d" % s)
        else:
            s = r.randint(0, 4)
            plan.append((len(lines), "look", None, s))
            lines.append("task vp %d" % s)
    plan.append((len(lines), "parse", probe, None))
    lines.append("q -1 v " + hx(probe))
    for s in range(5):
        plan.append((len(lines), "look", None, s))
        lines.append("task vp %d" % s)
    lines += ["droptasks", "delparser 1", "delparser 2", "delparser 3"]
    for _, what, t, _s in plan:
        if t is not None and t not in refs: refs[t] = R.parse(t)
    st.obs["parses in histories"] += sum(p[1] in ("parse", "keep") for p in plan)
    st.obs["rejections in histories"] += sum(p[1] in ("parse", "keep") and refs[p[2]] is None for p in plan)

    def judge(ev):
        seen, live = {}, {}
        for i, what, t, s in plan:
            e = ev[i]
            if what in ("parse", "keep"):
                w = J.whole_problem(e, refs[t]) or (e["ok"] and T.position_problem(T.read(e["term"])))
                if w: return "after %d other commands: %s: %r" % (i, w, t[:300])
                x = essence(e)
                if seen.setdefault(t, x) != x: return "parsed differently the second time: %s, %s: %r" % (seen[t], x, t[:300])
                if what == "keep":
                    live.pop(s, None)
                    if e["ok"]: live[s] = (t, {k: v for k, v in e.items() if k != "ok"})
            elif what == "drop": live.pop(s, None)
            else:
                if s in live:
                    t, was = live[s]
                    if e != was:
                        k = next((k for k in was if e.get(k) != was[k]), "?")
                        return "a live task changed (%s: %s, was %s): %r" % (k, str(e.get(k))[:200], str(was[k])[:200], t[:300])
                elif not e.get("none"): return "a task where there is none"
        return None
    return Case(lines, judge, key=tuple(lines), text="%d commands around %r" % (len(lines), probe[:120]))


def long_life(r, st, corp):
    """One parser over hundreds of texts, then a probe of every kind."""
    g = gen.Gen(r, odd=.1, wide=.1)
    texts = [gen.text(r, g, corp) for _ in range(250)]
    lines = ["q 7 - " + hx(t) for t in texts]
    probes = [(t, R.parse(t)) for t in VARTEXTS]
    lines += ["q 7 v " + hx(t) for t, _ in probes] + ["delparser 7"]
    st.obs["long-lived parsers"] += 1

    def judge(ev):
        for e, (t, p) in zip(ev[len(texts):], probes):
            w = J.whole_problem(e, p) or T.position_problem(T.read(e["term"]))
            if w: return "after %d texts: %s: %r" % (len(texts), w, t)
    return Case(lines, judge, key=tuple(lines), text="250 texts on one parser, then 12 probes")


def soak(r, st, corp, n=70000):
    """Very many parses in one process."""
    g = gen.Gen(r, wide=.02, nested=.3, maxdepth=3)
    texts = []
    while len(texts) < 9:
        t = g.task() if r.random() < .7 else r.choice(corp)
        if len(texts) % 3 == 2: t = t[:r.randint(0, len(t) - 1)] if r.random() < .5 else gen.mutate(r, t)
        if len(t) < 80 and b"\0" not in t and b"\n" not in t: texts.append(t)
    refs = [R.parse(t) for t in texts]
    if not any(refs): return None
    lines = ["q 11 v " + hx(t) for t in texts]
    lines += ["soak 11 %d %d %s" % (n, r.choice((0, 1, 50, 700)), " ".join(hx(t) for t in texts))] + lines + ["delparser 11"]
    st.obs["soaks"] += 1
    m = len(texts)

    def judge(ev):
        for e, t, p in list(zip(ev[:m], texts, refs)) + list(zip(ev[m + 1:], texts, refs)):
            w = J.whole_problem(e, p)
            if w: return "before or after %d texts: %s: %r" % (n, w, t)
        e = ev[m]
        if e["wrong"] >= 0: return "text %d of %d on one parser, %r, is read as %r; at first it was %r" % (e["wrong"], n, texts[e["wrong"] % m], bytes.fromhex(e["is"]), bytes.fromhex(e["was"]))
        want = sum(n // m + (i < n % m) for i, p in enumerate(refs) if p is not None)
        if e["accepted"] != want: return "of %d texts %d are accepted instead of %d" % (n, e["accepted"], want)
        if e["twice"] >= 0 or e["bare"] >= 0 or e["evidence"] != want: return "evidence of parse %d occurred before or is missing: %d pieces of evidence for %d tasks" % (max(e["twice"], e["bare"]), e["evidence"], want)
        if e["late"] >= 0: return "parse %d is not created at the current time" % e["late"]
        if e["names"]: return "%d names are left registered" % e["names"]
        st.obs["parses_in_soaks"] += n
        return None
    return Case(lines, judge, key=tuple(lines), text="%d parses of %r" % (n, texts))


def run(ctx):
    ctx.rule = ("histories of parses, rejections at every prefix, kept and dropped tasks and several parsers, in which each text must be parsed as the reference parser does and every "
                "time the same, and each live task must stay as it was. Distinct histories are counted.")
    ctx.assumptions = ["evidence ids, creation times and addresses are allowed to differ"]
    corp = gen.corpus()

    def histories(r, st): return case(r, st, corp)
    def lives(r, st): return long_life(r, st, corp)
    ctx.batches(histories, ctx.n(5000, 150000), 200)
    ctx.batches(lives, ctx.n(60, 2500), 5)
    n = ctx.n(70000, 1000000)
    ctx.batches(lambda r, st: soak(r, st, corp, n), ctx.n(8, 16), 1, "g2")
