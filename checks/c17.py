"""C17: truth functions compute valid truth values and conserve evidence."""
import math
from vlib.engine import Case
from vlib.judges import close, f32, quality

TOP = 0.99999994039535522  # the largest float below 1
EDGE_F = (0.0, 1.0, .5, .25, .1, .9, 1e-6, 1 - 2**-24, 2**-24)
EDGE_C = (0.0, .5, .9, .99, .999999, TOP, 1e-6, 2**-24, .1, .45)


def freq(r): return f32(r.choice(EDGE_F) if r.random() < .4 else r.random())
def conf(r): return f32(r.choice(EDGE_C) if r.random() < .4 else min(TOP, r.random() if r.random() < .8 else 1 - 10**-r.uniform(1, 7)))
def kk(r): return f32(r.choice((1, 1, 1, 2, .5, 10, 100)))
def tv(r, k=None): return (freq(r), conf(r), kk(r) if k is None else k)
def s(t): return " ".join("%.17g" % x for x in t)


def valid(t, what):
    f, c = t[0], t[1]
    if isinstance(f, str) or isinstance(c, str) or not 0 <= f <= 1: return "%s has frequency %s" % (what, f)
    if not 0 <= c < 1: return "%s has confidence %s" % (what, c)
    return None


def w(t): return t[2] * t[1] / (1 - t[1])
def wp(t): return t[0] * w(t)


def tol(got, want, rel=1e-5, ab=1e-6): return isinstance(got, (int, float)) and abs(got - want) <= ab + rel * abs(want)


def revised(got, a, b, what):
    v = valid(got, what)
    if v: return v
    W, P, k = w(a) + w(b), wp(a) + wp(b), a[2]
    c = W / (W + k)
    if not tol(got[1], min(c, TOP)): return "%s has confidence %.9g instead of %.9g" % (what, got[1], c)
    if W > 1e-6 and not tol(got[0], P / W): return "%s has frequency %.9g instead of %.9g" % (what, got[0], P / W)
    if got[2] != k: return "%s has k %s" % (what, got[2])
    if a[2] == b[2] and got[1] < max(a[1], b[1]) - 1e-6: return "%s lost confidence: %.9g" % (what, got[1])
    return None


def revision(r, st):
    k = kk(r)
    a, b = tv(r, k), tv(r, k if r.random() < .8 else None)
    lines = ["fn rev %s %s" % (s(a), s(b)), "fn revref %s %s" % (s(a), s(b)), "fn rev %s %s" % (s(b), s(a))]
    st.obs["revisions"] += 1

    def judge(ev):
        x, y, z = ev
        for e in (x, y):
            v = revised(e["r"], a, b, "the revision of %s by %s" % (a, b))
            if v: return v
            if e["b"] != list(b): return "revision changed its second premise from %s to %s" % (b, e["b"])
        if x["r"] != y["r"]: return "two forms of revision of %s, %s differ: %s, %s" % (a, b, x["r"], y["r"])
        v = revised(z["r"], b, a, "the revision of %s by %s" % (b, a))
        if v: return v
        if a[2] == b[2] and w(a) + w(b) > 1e-6 and not all(tol(p, q, 1e-6) for p, q in zip(x["r"], z["r"])): return "revision of %s and %s depends on their order: %s, %s" % (a, b, x["r"], z["r"])
        return None
    return Case(lines, judge, key=(a, b), text=lines[0])


def history(r, st):
    """Evidence adds up over many revisions, in any order, and confidence never comes down nor reaches 1."""
    n = r.choice((100, 1000, 30000))
    a, b = (freq(r), f32(r.uniform(.01, .99)), 1.0), (freq(r), f32(r.choice((.9, .99, .999, r.uniform(.01, .99)))), 1.0)
    lines = ["fn revmany %s %s %d %d" % (s(a), s(b), n, max(1, n // 20))]
    st.obs["histories of revisions"] += 1
    st.obs["revisions in histories"] += n

    def judge(ev):
        last = a[1]
        for t in ev[0]["r"]:
            v = valid(t, "%s revised up to %d times by %s" % (a, n, b))
            if v: return v
            if t[1] < last - 1e-6: return "%s revised by %s comes down to %.9g from %.9g" % (a, b, t[1], last)
            last = t[1]
        if n == 100:
            W, P = w(a) + n * w(b), wp(a) + n * wp(b)
            t = ev[0]["r"][-1]
            if not tol(t[1], W / (W + 1), 1e-3) or not tol(t[0], P / W, 1e-2, 1e-3): return "%s revised %d times by %s is %s instead of %s" % (a, n, b, t, (P / W, W / (W + 1)))
        return None
    return Case(lines, judge, key=(a, b, n), text=lines[0])


def syllogism(r, st):
    a, b = tv(r), tv(r)
    lines = ["fn %s %s %s" % (f, s(a), s(b)) for f in ("ded", "ind", "cmp")]
    (f1, c1, k1), (f2, c2, k2) = a, b
    both = c1 * c2
    want = {"ded": (f1 * f2, f1 * f2 * both)}
    W = f2 * both
    want["ind"] = (f1 if W else .5, W / (W + 1))
    W = (1 - (1 - f1) * (1 - f2)) * both
    want["cmp"] = (f1 * f2 * both / W if W else .5, W / (W + 1))
    st.obs["deductions, inductions, comparisons"] += 1

    def judge(ev):
        for e, fn in zip(ev, ("ded", "ind", "cmp")):
            what = {"ded": "deduction", "ind": "induction", "cmp": "comparison"}[fn] + " from %s, %s" % (a, b)
            t = e["r"]
            v = valid(t, what)
            if v: return v
            f, c = want[fn]
            if not tol(t[1], c): return "%s has confidence %.9g instead of %.9g" % (what, t[1], c)
            if (c > 1e-12 or fn == "ded") and not tol(t[0], f): return "%s has frequency %.9g instead of %.9g" % (what, t[0], f)
            if t[1] > min(c1, c2) + 1e-7: return "%s gained confidence: %.9g" % (what, t[1])
            if e["a"] != list(a) or e["b"] != list(b) or e["alias"]: return "%s changed its premises: %s, %s" % (what, e["a"], e["b"])
            if not t[2] > 0: return "%s has k %s" % (what, t[2])
        return None
    return Case(lines, judge, key=(a, b), text=lines[0])


def mapping(r, st):
    a = tv(r)
    W, P = w(a), wp(a)
    more = [r.choice((0., 1., 1e6, 10**r.uniform(-3, 6))) for _ in range(4)]
    lines = ["fn map " + s(a), "fn revmap " + s(more)]
    st.obs["mappings"] += 1

    def judge(ev):
        e = ev[0]
        for n, want in (("w", W), ("wp", P), ("wm", W - P), ("fc_w", W), ("fc_wp", P), ("fc_wm", W - P), ("owp", P), ("owm", W - P), ("twp", P), ("twm", W - P)):
            if n in e and not tol(e[n], want, 1e-5, 1e-6 * max(1, W)): return "%s of %s is %.9g instead of %.9g" % (n, a, e[n], want)
        if not tol(e["e"], a[1] * (a[0] - .5) + .5): return "the expectation of %s is %s" % (a, e["e"])
        if not tol(e["q"], quality(a[0], a[1])): return "the quality of %s is %s" % (a, e["q"])
        for n in ("back", "back2"):
            t = e[n]
            v = valid(t, "the truth %s made from the evidence of %s" % (t, a))
            if v: return v
            if not tol(t[1], a[1], 2e-6) or (W > 1e-6 and not tol(t[0], a[0], 2e-6, 2e-6)) or t[2] != a[2]: return "the evidence of %s gives the truth %s (%s)" % (a, t, n)
        e = ev[1]
        if not tol(e["p"], more[0] + more[1], 1e-12) or not tol(e["m"], more[2] + more[3], 1e-12): return "positive evidence %s and negative evidence %s add up to %s, %s" % (more[:2], more[2:], e["p"], e["m"])
        return None
    return Case(lines, judge, key=a, text=lines[0])


def setw(r, st):
    k = kk(r)
    W = r.choice((0, 0, 1e-9, 1e-4, 1, 2, 100, 1e6, 1e9, 1e30)) if r.random() < .5 else 10**r.uniform(-3, 8)
    W = f32(W)
    P = f32(W * r.choice((0, 1, .5, r.random())))
    if P > W: P = W
    lines = ["fn setw %.17g %.17g %.17g" % (P, W, k)]
    st.obs["truths from evidence"] += 1

    def judge(ev):
        e = ev[0]
        for n in ("r", "r2"):
            v = valid(e[n], "evidence %s of %s (%s)" % (P, W, n))
            if v: return v
            if not tol(e[n][1], min(TOP, W / (W + k)), 2e-6): return "evidence of %s (k %s) has confidence %s" % (W, k, e[n][1])
            if W > 1e-6 and not tol(e[n][0], P / W, 2e-6): return "evidence %s of %s has frequency %s" % (P, W, e[n][0])
        if W == 0 and (e["r"][0] != .5 or e["r2"][0] != .5 or e["r"][1] or e["r2"][1]): return "no evidence gives %s, %s" % (e["r"], e["r2"])
        if not 0 <= e["c"] < 1: return "evidence %s of %s (k %s) has confidence %s" % (P, W, k, e["c"])
        return None
    return Case(lines, judge, key=(P, W, k), text=lines[0])


def boolean(r, st):
    x = [r.choice((0., 1., .5, r.random(), r.random())) for _ in range(4)]
    lines = ["fn bool " + s(x)]
    st.obs["boolean functions"] += 1

    def judge(ev):
        e = ev[0]
        for n in (2, 3, 4):
            if not tol(e["and%d" % n], math.prod(x[:n]), 1e-12, 1e-12): return "And(%s) is %s" % (x[:n], e["and%d" % n])
            if not tol(e["or%d" % n], 1 - math.prod(1 - y for y in x[:n]), 1e-12, 1e-12): return "Or(%s) is %s" % (x[:n], e["or%d" % n])
        for n, m in (("orl", 4), ("orl1", 1), ("orl2", 2)):
            if not tol(e[n], 1 - math.prod(1 - y for y in x[:m]), 1e-12, 1e-12): return "Or({%s}) is %s" % (x[:m], e[n])
        return None
    return Case(lines, judge, key=tuple(x), text=lines[0])


def when(r): return r.choice((0, 1, -1, 5, 100, 1000, -1000, 10**6, 2**31, -2**31, 2**40, 2**50, -2**50)) if r.random() < .4 else r.randint(-50, 50) if r.random() < .6 else r.randint(-10**5, 10**5)


def projection(r, st):
    a = tv(r)
    src, cur = when(r), when(r)
    dec = r.choice((-1, -1, 0, 1, 5, 100, 10**6, r.randint(0, 5000)))
    d0 = 1000 if dec < 0 else dec
    side = r.choice((-1, 1))
    steps = sorted({r.choice((0, 1, 2, 5, 10, 100, 10**4, 10**6, r.randint(0, 3000))) for _ in range(5)} | {0})
    tgts = [src + side * x for x in steps]
    lines = ["fn proj %s %d %d %d %d" % (s(a), src, cur, t, dec) for t in tgts]
    st.obs["projections"] += len(tgts)

    def judge(ev):
        last = None
        for t, e in zip(tgts, ev):
            what = "%s projected from %d to %d at %d (decay %d)" % (a, src, t, cur, d0)
            x = e["r"]
            v = valid(x, what)
            if v: return v
            d = float(abs(src - cur) + abs(t - cur) + d0)
            c = a[1] * (1 - (abs(src - t) / d if d else 0))
            if x[0] != a[0] or x[2] != a[2]: return "%s is %s" % (what, x)
            if not tol(x[1], c, 1e-6, 1e-7): return "%s has confidence %.9g instead of %.9g" % (what, x[1], c)
            if x[1] > a[1]: return "%s gained confidence: %.9g" % (what, x[1])
            if t == src and x[1] != a[1]: return "%s has confidence %.9g" % (what, x[1])
            if last is not None and x[1] > last + 1e-7: return "%s has confidence %.9g, more than the %.9g of a nearer time" % (what, x[1], last)
            last = x[1]
            if e["a"] != list(a) or e["alias"]: return "%s changed: %s" % (what, e["a"])
        return None
    return Case(lines, judge, key=(a, src, cur, tuple(tgts), dec), text=lines[-1])


def run(ctx):
    ctx.rule = "every truth function over random and boundary premises (frequencies 0 and 1, confidences 0 and next to 1), compared with its definition computed in double precision, and with the laws of the property. Distinct premises are counted."
    ctx.assumptions = ["times are below 2^52", "frequencies in [0,1], confidences in [0,1), k between 0.5 and 100", "values are single precision: 1e-5 relative is accepted", "the frequency of evidence below 1e-6 is not judged, except that it is in range"]
    for fn, n in ((revision, 20000), (history, 300), (syllogism, 20000), (mapping, 15000), (setw, 8000), (boolean, 5000), (projection, 12000)):
        ctx.batches(fn, ctx.n(n, n * 20), 10 if fn is history else 2500)
