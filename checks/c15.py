"""C15: stamps carry the tense, the times and the evidence of their sentence; one clock for all."""
from vlib import gen, judges as J, refparser as R
from vlib.engine import Case
from vlib.run import hx



def tense(r, t, d):
    k = r.random()
    if k < .2: return b""
    if k < .6: return r.choice((b":|:", b":/:", b":\\:"))
    n = r.choice((t - d - 1, t - d, t - d + 1, t - 1, t, t + 1, t + d - 1, t + d, t + d + 1, 0, 1, 5, -5, 10**6, 2**31 - 1, 2**31, 10**15, -2**31, -10**12, r.randint(-100, 200)))
    return b":!" + b" " * r.choice((0, 0, 1)) + b"%d" % n + b" " * r.choice((0, 0, 1)) + b":"


TERMS = (b"<A --> B>", b"A", b"(&&, A, B)", b"(^go, {SELF})", b"<$x ==> #y>", b"(--, A)", b"<<A --> B> =/> <C --> D>>", b"(&/, A, +5, B)")


class World:
    """A history: the clock and the duration change between sentences; every sentence's stamp is judged when made and again later."""

    def __init__(self, r, st):
        self.r, self.st, self.lines, self.checks = r, st, [], []
        self.time, self.dur = 0, 5
        self.alive, self.next = {}, 1

    def emit(self, fmt, *a):
        self.lines.append(fmt % a)
        return len(self.lines) - 1

    def clock(self):
        r = self.r
        if r.random() < .7:
            self.time = r.choice((0, 1, 4, 5, 6, 100, self.time + 1, self.time + self.dur, self.time + r.randint(0, 20), r.randint(0, 10**6), 2**30))
            self.checks.append(("time", self.emit("time %d", self.time), self.time))
        else:
            self.dur = r.choice((1, 2, 5, 5, 7, 10, 1000))
            self.emit("cfg temporal_duration %d", self.dur)
        for k in r.sample(sorted(self.alive), min(3, len(self.alive))): self.look(k)

    def look(self, k):
        p, occ, creat, first = self.alive[k]
        n = self.emit("task d %d", k)
        self.checks.append(("again", n, p, occ, creat, first, self.time, self.dur))

    def sentence(self):
        r = self.r
        text = r.choice(TERMS) + r.choice((b".", b".", b"?", b"!", b"@")) + b" " * r.choice((0, 1)) + tense(r, self.time, self.dur)
        if r.random() < .1: text = text[:-1] + r.choice((b"", b"%", b"::"))
        p = R.parse(text)
        k = self.next
        self.next += 1
        n = self.emit("k %d d %d %s", r.choice((-1, -1, 1, 2)), k, hx(text))
        self.checks.append(("new", n, p, text, self.time, self.dur))
        if p is not None:
            self.alive[k] = (p, J.expected_occurrence(p, self.time, self.dur), self.time, n)
            self.st.obs["tense %s" % ("none" if p.tense is None else "given time" if p.tense[0] is None else ":%s:" % "|/\\"[p.tense[0]])] += 1
            if J.expected_occurrence(p, self.time, self.dur) is not None: self.st.obs["class %s" % ("past", "present", "future")[J.tense_class(J.expected_occurrence(p, self.time, self.dur), self.time, self.dur)]] += 1

    def made(self):
        """Stamps and sentences made directly."""
        r, k = self.r, self.r.randrange(5)
        if k == 0:
            e = r.randrange(2)
            self.checks.append(("stamp", self.emit("stamp 1 eternal %d", e), bool(e), None, self.time, self.time, self.dur))
            if not e and r.random() < .5: self.checks.append(("etern", self.emit("eternalize 1")))
        elif k == 1:
            o = r.choice((0, 5, -3, self.time, self.time + self.dur, self.time - self.dur, self.time + self.dur - 1, self.time - self.dur + 1))
            self.checks.append(("stamp", self.emit("stamp 1 occ %d", o), False, o, self.time, self.time, self.dur))
            if r.random() < .5: self.checks.append(("etern", self.emit("eternalize 1")))
        elif k == 2:
            o, c, u, e = r.randint(-50, 50), r.randint(0, 50), r.randint(-1, 50), r.randrange(2)
            self.checks.append(("full", self.emit("stamp 1 full %d %d %d -1 %d", o, c, u, e), o, c, u, e, self.time, self.dur))
        elif k == 3:
            self.emit("mk -1 1 41")
            self.emit("sent 1 1 %d -1 -1 %d", r.randrange(4), r.randrange(2))
            self.checks.append(("nostamp", self.emit("sentout d 1"), self.time))
            self.emit("dropsent 1")
            self.emit("drop 1")
        else: self.checks.append(("ids", self.emit("ids")))


def history(r, st):
    w = World(r, st)
    for _ in range(r.randint(8, 40)):
        k = r.random()
        if k < .5: w.sentence()
        elif k < .7: w.clock()
        elif k < .85: w.made()
        elif k < .9 and w.alive:
            x = r.choice(sorted(w.alive))
            w.emit("poke %d", x)
            w.emit("droptask %d", x)
            del w.alive[x]
        elif w.alive: w.look(r.choice(sorted(w.alive)))
    for k in sorted(w.alive): w.look(k)
    w.emit("droptasks")
    w.emit("time 0")
    w.emit("cfg temporal_duration 5")
    checks = w.checks
    st.obs["histories"] += 1

    def judge(ev):
        last = -1

        def evidence(s, what):
            nonlocal last
            e = s["ev"]
            if e is None or len(e) != 1: return "%s has the evidence %s" % (what, e)
            if e[0] <= last: return "%s has the evidence %s, which is not new: %d was given before" % (what, e, last)
            last = e[0]
            return None
        for c in checks:
            e = ev[c[1]]
            if c[0] == "time":
                if e["other"] != c[2] or e["mine"] != c[2]: return "the time is set to %d, and is %d and %d" % (c[2], e["mine"], e["other"])
            elif c[0] == "ids":
                if not (last < e["a"] < e["b"] < e["c"]): return "input ids %s after %d" % (e, last)
                last = e["c"]
            elif c[0] == "new":
                _, _, p, text, t, d = c
                v = J.accept_problem(e, p)
                if v is None and p is not None:
                    v = J.tense_problem(e, p, t, d) or evidence(e["stamp"], "the sentence")
                    if v is None and e["stamp"]["creat"] != t: v = "it is created at %d" % e["stamp"]["creat"]
                    if v is None and e["stamp"]["put"] != -1: v = "it is put into a buffer at %d" % e["stamp"]["put"]
                if v: return "%r at time %d (duration %d): %s" % (text, t, d, v)
            elif c[0] == "again":
                _, _, p, occ, creat, first, t, d = c
                s, s0 = e["stamp"], ev[first]["stamp"]
                if [s[x] for x in ("eternal", "occ", "creat", "put", "ev")] != [s0[x] for x in ("eternal", "occ", "creat", "put", "ev")]: return "the stamp changed from %s to %s" % (s0, s)
                if s["tense"] != J.tense_class(occ, t, d): return "a sentence that occurs at %s has tense %d at time %d (duration %d)" % (occ, s["tense"], t, d)
            elif c[0] == "stamp":
                _, _, et, occ, creat, t, d = c
                s = e["stamp"]
                if bool(s["eternal"]) != et or (occ is not None and s["occ"] != occ) or s["creat"] != creat or s["tense"] != J.tense_class(None if et else s["occ"], t, d): return "a stamp made at %d (duration %d), %s, is %s" % (t, d, "eternal" if et else "at %s" % occ, s)
                v = evidence(s, "a stamp")
                if v: return v
            elif c[0] == "etern":
                a, b = ev[c[1] - 1]["stamp"], e["stamp"]
                if not b["eternal"] or b["tense"] != 3 or any(a[x] != b[x] for x in ("occ", "creat", "put", "ev")): return "eternalizing %s gave %s" % (a, b)
            elif c[0] == "full":
                _, _, o, cr, pu, et, t, d = c
                s = e["stamp"]
                if (s["occ"], s["creat"], s["put"], s["eternal"], s["tense"]) != (o, cr, pu, et, J.tense_class(None if et else o, t, d)): return "a stamp made of %s at %d (duration %d) is %s" % ((o, cr, pu, et), t, d, s)
                v = evidence(s, "a stamp")
                if v: return v
            elif c[0] == "nostamp":
                s = e["stamp"]
                if s is None or not s["eternal"] or s["tense"] != 3 or s["creat"] != c[2]: return "a sentence made without stamp at %d has the stamp %s" % (c[2], s)
                v = evidence(s, "a sentence made without stamp")
                if v: return v
        return None
    return Case(w.lines, judge, key=tuple(w.lines), text="; ".join(l for l in w.lines[:6]))


def given(r, st):
    """A stamp's parts given by the caller are kept, and used by the sentence made with it."""
    t = r.choice((0, 3, 100, 10**6))
    ev = sorted(r.sample(range(10**6), r.randint(1, 6)))
    o, c, u, e = r.randint(-50, 50), r.randint(0, 50), r.randint(-1, 50), r.randrange(2)
    kind, how = r.randrange(4), r.randrange(2)
    lines = ["time %d" % t, "eb new 1 %d %s" % (len(ev), " ".join(map(str, ev))), "stamp 1 full %d %d %d 1 %d" % (o, c, u, e), "mk -1 1 41", "truth 1 .5 .5 1",
             "sent 1 1 %d %d 1 %d" % (kind, 1 if kind in (0, 2) else -1, how), "sentout d 1", "mktask 1 1 .5 .5 .5", "task d 1", "stampget 1", "droptasks", "dropsent 1", "drop 1", "eb drop 1", "time 0"]
    want = {"eternal": e, "occ": o, "creat": c, "put": u, "tense": J.tense_class(None if e else o, t, 5), "ev": ev}
    st.obs["given stamps"] += 1

    def judge(events):
        for x in (events[2]["stamp"], events[6]["stamp"], events[8]["stamp"], events[9]["stamp"]):
            if x != want: return "at time %d the given stamp %s is %s" % (t, want, x)
        return None
    return Case(lines, judge, key=tuple(lines), text=lines[2])


def printed(r, st):
    """At any time, the printed tense says past, present or future, and reading it back gives the same class."""
    t, d = r.choice((0, 1, 100, r.randint(0, 10**6))), r.choice((1, 5, 5, 10))
    text = r.choice(TERMS) + r.choice((b".", b"?", b"!", b"@")) + b" " + tense(r, t, d)
    p = R.parse(text)
    if p is None: return None
    lines = ["time %d" % t, "cfg temporal_duration %d" % d, "rt -1 " + hx(text), "time 0", "cfg temporal_duration 5"]
    want = J.tense_class(J.expected_occurrence(p, t, d), t, d)
    st.obs["printed and read again"] += 1

    def judge(ev):
        e = ev[2]
        v = J.tense_problem(e, p, t, d)
        if v: return "%r at time %d: %s" % (text, t, v)
        for f, a in zip(e["printed"][:2], e["again"]):
            f = bytes.fromhex(f)
            syms = [x for x in (b":\\:", b":|:", b":/:") if x in f]
            if syms != ([] if want == 3 else [(b":\\:", b":|:", b":/:")[want]]): return "%r at time %d is printed %r" % (text, t, f)
            if not a["ok"] or a["stamp"]["tense"] != want: return "%r at time %d is printed %r, which reads as tense %s" % (text, t, f, a.get("stamp"))
        return None
    return Case(lines, judge, key=(text, t, d), text=text.decode("latin1"))


def run(ctx):
    ctx.rule = ("histories of parsed and directly made sentences and stamps between changes of the clock and the configured duration; each stamp is judged when made and again, with its class, at later times; evidence "
                "ids must increase throughout each process. Distinct histories are counted.")
    ctx.assumptions = ["times are below 2^30", "occurrence times beyond the range of int are taken as the nearest int", "`:!n:` gives the time itself; the other tenses are relative to the current time"]
    ctx.batches(history, ctx.n(2500, 60000), 80)
    ctx.batches(given, ctx.n(1500, 20000), 500)
    ctx.batches(printed, ctx.n(3000, 60000), 500)
    from checks.c04 import soak
    corp, n = gen.corpus(), ctx.n(140000, 2000000)
    ctx.batches(lambda r, st: soak(r, st, corp, n), ctx.n(8, 16), 1, "g2")
