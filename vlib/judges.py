"""Oracles over the recorded report of one parsed task."""
import re, struct
from . import model as M, refparser as R, trace as T

DEFAULTS = {"priority": .8, "durability": .8, "quality": .5, "f": 1.0, "c": .9, "c_judgement": .9, "c_goal": .9, "k": 1.0, "p_judgement": .8,
            "d_judgement": .5, "p_question": .9, "d_question": .9, "p_quest": .9, "d_quest": .9, "p_goal": .9, "d_goal": .9,
            "temporal_duration": 5, "maximum_evidential_base_length": 20000}
F32MAX = 3.4028234663852886e+38


def f32(x):
    if x != x or x in (float("inf"), float("-inf")): return x
    if abs(x) > F32MAX: return float("inf") if x > 0 else float("-inf")
    return struct.unpack("f", struct.pack("f", x))[0]


def close(a, b, tol=2e-6):
    if isinstance(a, str) or isinstance(b, str): return str(a) == str(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def quality(f, c):
    e = c * (f - .5) + .5
    return max(e, (1 - e) * .75)


def expected_truth(p, cfg=DEFAULTS):
    """Truth or desire of the task a text denotes."""
    if p.punct in (1, 3): return None
    if p.truth is None: return [cfg["f"], cfg["c"], cfg["k"]]
    t = p.truth
    return [t[0], t[1] if len(t) > 1 else cfg["c_judgement" if p.punct == 0 else "c_goal"], t[2] if len(t) > 2 else cfg["k"]]


def expected_budget(p, cfg=DEFAULTS):
    if p.budget is None: return [cfg["priority"], cfg["durability"], cfg["quality"]]
    b = p.budget
    t = expected_truth(p, cfg)
    kind = ("judgement", "question", "goal", "quest")[p.punct]
    return [b[0], b[1] if len(b) > 1 else cfg["d_" + kind], b[2] if len(b) > 2 else 1.0 if t is None else quality(f32(t[0]), f32(t[1]))]


def truth_problem(e, p, cfg=DEFAULTS):
    want, got = expected_truth(p, cfg), e["truth"]
    if (want is None) != (got is None): return "truth is %r instead of %r" % (got, want)
    if want is not None:
        for n, a, b in zip("fck", got, want):
            if not close(a, f32(b)): return "%s of the truth is %r instead of %r" % (n, a, b)
        if not (0 <= got[0] <= 1 and 0 <= got[1] <= 1 and (isinstance(got[2], str) or got[2] > 0)): return "truth out of range: %r" % got
    return None


def budget_problem(e, p, cfg=DEFAULTS):
    want, got = expected_budget(p, cfg), e["budget"]
    for n, a, b in zip(("priority", "durability", "quality"), got, want):
        if not close(a, f32(b)): return "%s is %r instead of %r" % (n, a, b)
    if not all(-1e-9 <= x <= 1 + 1e-6 for x in got): return "budget out of range: %r" % got
    return None


def expected_occurrence(p, time=0, dur=5):
    """None if eternal."""
    if p.tense is None: return None
    kind, n = p.tense
    return n if kind is None else time + {1: dur, 0: 0, -1: -dur}[kind]


def tense_class(occ, time, dur):
    if occ is None: return 3
    return 2 if occ >= time + dur else 0 if occ <= time - dur else 1


def tense_problem(e, p, time=0, dur=5):
    s = e["stamp"]
    occ = expected_occurrence(p, time, dur)
    if s is None: return "no stamp"
    if bool(s["eternal"]) != (occ is None): return "is_eternal is %d" % s["eternal"]
    if occ is not None and s["occ"] != occ: return "it occurs at %d instead of %d" % (s["occ"], occ)
    if s["tense"] != tense_class(occ, time, dur): return "its tense is %d instead of %d" % (s["tense"], tense_class(occ, time, dur))
    return None


def structure_problem(e, p):
    d = T.read(e["term"])
    if d.root != p.term:
        w = T.normal_problem(d)
        return "the term is %s instead of %s%s" % (M.show(d.root), M.show(p.term), " (%s)" % w if w else "")
    s = T.structure_problem(d)
    if s: return s
    if e["punct"] != p.punct or e["pred"] != 1 << p.punct: return "its type is %d (%d) instead of %d" % (e["punct"], e["pred"], p.punct)
    return None


def accept_problem(e, p):
    if bool(e["ok"]) != (p is not None): return "%s although it is %sgrammatical" % ("accepted" if e["ok"] else "rejected", "" if p else "not ")
    return None


def whole_problem(e, p, time=0, cfg=DEFAULTS):
    """Acceptance, structure and values."""
    w = accept_problem(e, p)
    if w or p is None: return w
    return structure_problem(e, p) or truth_problem(e, p, cfg) or budget_problem(e, p, cfg) or tense_problem(e, p, time, cfg["temporal_duration"])


# ---------------------------------------------------------------- terminal colors
SGR = re.compile(rb"\x1b\[([0-9;]*)m")


def strip_color(b): return SGR.sub(b"", b)


def color_problem(b):
    """Escape sequences other than colors, or a color left on at the end."""
    on = False
    for m in SGR.finditer(b):
        code = m.group(1)
        if code in (b"", b"0"):
            on = False
        else: on = True
    if on: return "a color is left on"
    return None
