"""C14: truth, desire and budget of a task are the values given, or the configured defaults."""
import itertools
from vlib import gen, judges as J, refparser as R
from vlib.engine import Case
from vlib.run import hx

FLOATS = ["priority", "durability", "quality", "f", "c", "c_judgement", "c_goal", "k", "p_judgement", "d_judgement", "p_question", "d_question", "p_quest", "d_quest", "p_goal", "d_goal"]
PUNCT = {46: "judgement", 63: "question", 33: "goal", 64: "quest"}


def unit(r):
    k = r.random()
    if k < .25: return r.choice((b"0", b"1", b"0.0", b"1.0", b".5", b"0.5", b"1.000", b"0.000", b"0.9", b".25", b"1."))
    if k < .6: return b"%.2f" % r.random()
    return b"0.%s" % bytes(r.choice(b"0123456789") for _ in range(r.randint(1, 18)))


def conf(r):
    k = r.random()
    if k < .3: return r.choice((b"0.9", b".5", b"0.5", b"0.99", b"0.01", b"0.001", b"0.999", b"0.0001"))
    s = bytes(r.choice(b"0123456789") for _ in range(r.randint(1, 7)))
    return (b"0." if r.random() < .7 else b".") + (s if s.strip(b"0") else b"1")


def kval(r): return b"%d" % r.choice((1, 1, 2, 3, 5, 10, 99, 100, 12345, r.randint(1, 10**6)))


TERMS = (b"<A --> B>", b"A", b"(&&, A, B)", b"(^go, {SELF})", b"{A}", b"<$x ==> #y>", b"(--, A)", b"<<A --> B> ==> <C --> D>>", b"go(A, B)")


def text(r, punct, nb, nt, tense):
    sp = lambda: b" " * r.choice((0, 0, 0, 1, 2))
    b = t = b""
    if nb: b = b"$" + sp() + (sp() + b";" + sp()).join([unit(r), conf(r), unit(r)][:nb]) + sp() + b"$" + sp()
    if nt: t = sp() + b"%" + sp() + (sp() + b";" + sp()).join([unit(r), conf(r), kval(r)][:nt]) + sp() + b"%"
    return b + r.choice(TERMS) + sp() + bytes([punct]) + ((sp() + r.choice((b":|:", b":/:", b":\\:", b":!7:"))) if tense else b"") + t


FORMS = [f for f in itertools.product(b".?!@", range(4), range(4), (0, 1)) if f[0] in b".!" or not f[2]]


def values(cfg):
    """The whole of a task's values, and that nothing but the text and the configuration decided them."""
    def judge(e, p): return ("ok" in e and J.accept_problem(e, p)) if p is None or not e.get("ok", 1) else J.truth_problem(e, p, cfg) or J.budget_problem(e, p, cfg)
    return judge


def forms(r, st):
    """Every combination of sentence type, number of budget and truth values, and tense."""
    r.shuffle(order := list(FORMS))
    texts = [text(r, *f) for f in order[:12]]
    refs = [R.parse(t) for t in texts]
    keep = r.randrange(12)
    lines = ["q %d d %s" % (r.choice((-1, 1)), hx(t)) for t in texts]
    lines[keep] = "k -1 d 1 " + hx(texts[keep])
    twin = R.parse(texts[(keep + 1) % 12])
    # changing one task's values changes no other's, made before or after
    lines += ["k -1 d 2 " + hx(texts[(keep + 1) % 12]), "poke 1", "task d 2", "q -1 d " + hx(texts[keep]), "poke 2", "task d 1", "droptasks"]
    for f, p in zip(order, refs):
        if p is not None: st.obs["%s, %d budget values, %d truth values" % (PUNCT[f[0]], f[1], f[2])] += 1
    judge1 = values(J.DEFAULTS)

    def judge(ev):
        for t, p, e in zip(texts, refs, ev):
            w = judge1(e, p)
            if w: return "%r: %s" % (t, w)
        if ev[keep]["ok"]:
            w = twin and judge1(ev[14], twin) or judge1(ev[15], refs[keep])
            if w: return "after another task's values were changed in place: %s: %s" % (texts[keep], w)
            if ev[17]["budget"] != [.125] * 3 or ev[17]["truth"] and ev[17]["truth"][:2] != [.125] * 2: return "values of a task of %r changed with another's: %s" % (texts[keep], ev[17])
        return None
    return Case(lines, judge, key=tuple(texts), text=texts[0].decode("latin1"))


def configured(r, st):
    """Under another configuration. Tasks that are alive when it changes keep their values."""
    cfg = dict(J.DEFAULTS)
    names = r.sample(FLOATS, r.randint(1, len(FLOATS)))
    for n in names: cfg[n] = J.f32(r.choice((1.0, 2.0, .5, 3.0)) if n == "k" else round(r.uniform(.02, .98), 3))
    early = [text(r, *r.choice(FORMS)) for _ in range(3)]
    texts = [text(r, *r.choice(FORMS)) for _ in range(9)]
    lines = ["k -1 d %d %s" % (n, hx(t)) for n, t in enumerate(early)]
    lines += ["cfg %s %.9g" % (n, cfg[n]) for n in names]
    a = len(lines)
    lines += ["q -1 d " + hx(t) for t in texts]
    b = len(lines)
    lines += ["task d %d" % n for n in range(3)] + ["mk -1 1 41"]
    c = len(lines)
    lines += sum((["sent 1 1 %d -1 -1 1" % k, "sentout d 1"] for k in range(4)), [])
    lines += ["cfg %s %.9g" % (n, J.DEFAULTS[n]) for n in names] + ["droptasks", "dropsent 1", "drop 1"]
    st.obs["configurations"] += 1
    for n in names: st.obs["%s changed" % n] += 1

    def judge(ev):
        for t, e in zip(early, ev):
            w = values(J.DEFAULTS)(e, R.parse(t))
            if w: return "%r: %s" % (t, w)
        for t, e in zip(texts, ev[a:b]):
            w = values(cfg)(e, R.parse(t))
            if w: return "%r, configured %s: %s" % (t, {n: cfg[n] for n in names}, w)
        for n in range(3):
            if ev[n]["ok"] and (ev[b + n]["truth"], ev[b + n]["budget"]) != (ev[n]["truth"], ev[n]["budget"]): return "%r: values changed with the configuration while the task was alive" % early[n]
        for k in range(4):
            e = ev[c + 2 * k + 1]
            want = None if k in (1, 3) else [cfg["f"], cfg["c_judgement" if k == 0 else "c_goal"], cfg["k"]]
            if e["punct"] != k or e["pred"] != 1 << k: return "a %s is of type %s, %s" % (list(PUNCT.values())[k], e["punct"], e["pred"])
            if (e["truth"] is None) != (want is None) or want and not all(J.close(x, y) for x, y in zip(e["truth"], want)): return "a %s made without truth, configured %s, has %s" % (("judgement", "question", "goal", "quest")[k], {n: cfg[n] for n in names}, e["truth"])
        return None
    return Case(lines, judge, key=(tuple(names), tuple(texts)), text=texts[0].decode("latin1"))


def general(r, st):
    """Values of tasks with terms of all kinds."""
    g = gen.Gen(r, maxdepth=3)
    t = g.task()
    ref = R.parse(t)
    if ref is None: return None
    st.obs["tasks with terms of all kinds"] += 1
    return Case(["q -1 d " + hx(t)], lambda ev: values(J.DEFAULTS)(ev[0], ref), key=t, text=t.decode("latin1"))


def given(r, st):
    """Objects made from given values hold these."""
    v = lambda: J.f32(r.choice((0., 1., .5, r.random())))
    f, c, k = v(), J.f32(r.uniform(0, .999)), J.f32(r.choice((1, 2, .5, 10)))
    p, d, q = v(), v(), v()
    kind = r.choice((0, 2))
    lines = ["truth 1 %.9g %.9g %.9g" % (f, c, k), "mk -1 1 41", "sent 1 1 %d 1 -1 %d" % (kind, r.randrange(2)), "sentout d 1", "mktask 1 1 %.9g %.9g %.9g" % (p, d, q), "task d 1",
             "budget %.9g %.9g %.9g" % (p, d, q), "gettruth 1", "fn map %.9g %.9g %.9g" % (f, c, k), "droptask 1", "dropsent 1", "drop 1"]
    st.obs["objects from given values"] += 1

    def judge(ev):
        for e in (ev[0]["t"], ev[3]["truth"], ev[5]["truth"], ev[7]["t"]):
            if e != [f, c, k]: return "a truth made of %s is %s" % ([f, c, k], e)
        for e in (ev[5]["budget"], ev[6]["b"]):
            if e != [p, d, q]: return "a budget made of %s is %s" % ([p, d, q], e)
        if not J.close(ev[8]["q"], J.quality(f, c)): return "the quality of the truth %s is %s instead of %s" % ([f, c], ev[8]["q"], J.quality(f, c))
        return None
    return Case(lines, judge, key=tuple(lines), text=lines[0])


def run(ctx):
    ctx.rule = ("every combination of sentence type with 0-3 budget values, 0-3 truth values and tense, over random and boundary numerals, under the default and under random configurations; values are compared "
                "with those the text denotes. Distinct sets of texts are counted.")
    ctx.assumptions = ["values are single precision: a relative difference of 2e-6 is accepted", "a missing budget or truth takes the general defaults, a missing part of one those of the sentence type"]
    ctx.batches(forms, ctx.n(2500, 60000), 100)
    ctx.batches(configured, ctx.n(2500, 60000), 100)
    ctx.batches(general, ctx.n(6000, 100000), 600)
    ctx.batches(given, ctx.n(2000, 20000), 500)
