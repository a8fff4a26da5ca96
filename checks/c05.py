"""C05: the registry of atoms against a model, over histories of creation, sharing and release in several interpreters."""
from vlib import gen, judges as J, large, model as M, refparser as R, trace as T
from vlib.engine import Case
from vlib.run import hx

NAMES = [b"A", b"B", b"a", b"AA", b"A ", b"^A", b"A^", b"SELF", b"{x}", b"{}", b"0", b"x" * 15, b"x" * 16, b"x" * 40, b"bird", b"birds", b"\xc3\xa9", b"<A --> B>", b"$x", b"+5", b"go", b"^go",
         b"%s%n", b"", b"(", b"0x10"]


def atoms(i): return {M.node(x)[1] for x, _ in M.walk(i) if M.node(x)[0] == "a"}


class World:
    """A value is (kind, frozenset of (interpreter, generation, name), detail); names stay in use as long as a value has them."""

    def __init__(self, interps):
        self.lines, self.plan, self.interps = [], [], interps
        self.gen = {i: 0 for i in (-1, 0, 1, 2)}
        self.slots, self.tasks, self.top = {}, {}, 0
        self.epoch, self.alive, self.nep = {}, set(), 0

    def settle(self):
        """After a command took effect: names that come into use start a new life."""
        now = set()
        for v in list(self.slots.values()) + list(self.tasks.values()): now |= v[1]
        for k in now - self.alive:
            self.nep += 1
            self.epoch[k] = self.nep
        self.alive = now

    def emit(self, *a, check=None):
        if check: self.plan.append((len(self.lines), check))
        self.lines.append(" ".join(str(x) for x in a))

    def new(self, value):
        s = self.top
        self.top += 1
        self.slots[s] = value
        return s

    def reg(self, i):
        want = {k[2]: (k, self.epoch[k]) for k in self.alive if k[0] == i and k[1] == self.gen[i]}
        self.emit("reg", i, check=("reg", i, want))

    def addr(self, s):
        k = self.slots[s][2]
        self.emit("addr", s, check=("addr", (k, self.epoch[k]), frozenset((x, self.epoch[x]) for x in self.alive)))

    def mk(self, i, name):
        s = self.new(None)
        k = (i, self.gen[i], name)
        self.emit("mk", i, s, hx(name))
        self.slots[s] = ("atom", frozenset([k]), k)
        self.settle()
        self.addr(s)
        return s


def history(r, st, corp):
    interps = r.choice(((-1,), (-1, 0), (-1, 0, 1), (0, 1)))
    w = World(interps)
    few = r.sample(NAMES, 6)
    g = gen.Gen(r, names=[b"A", b"B", b"a", b"SELF", b"go", b"bird"], odd=.05, wide=.03, maxdepth=3)
    for _ in range(r.randint(8, 45)):
        k, have = r.random(), list(w.slots)
        if k < .28 or not have: w.mk(r.choice(interps), r.choice(few))
        elif k < .38:
            a, b = w.slots[r.choice(have)], None
            sa, sb = r.choice(have), r.choice(have)
            a, b = w.slots[sa], w.slots[sb]
            s = w.new(("st", a[1] | b[1], (a, b)))
            w.emit("st", s, sa, r.choice((0, 1, 5)), sb, r.randrange(2))
        elif k < .48:
            cs = [r.choice(have) for _ in range(r.randint(1, 4))]
            names = frozenset().union(*[w.slots[c][1] for c in cs])
            s = w.new(("cm", names, None))
            w.emit("cm", s, r.choice((M.PROD, M.SEQ, M.CONJ, M.EXTSET, M.NEG)), r.randrange(6), len(cs), *cs)
        elif k < .54:
            a = r.choice(have)
            s = w.new(w.slots[a])
            w.emit(r.choice(("cp", "cpn", "clone")), s, a)
        elif k < .60:
            sts = [x for x in have if w.slots[x][0] == "st"]
            if sts:
                a, part = r.choice(sts), r.randrange(2)
                s = w.new(w.slots[a][2][part])
                w.emit(("subj", "pred")[part], s, a)
        elif k < .66:
            a, b = r.choice(have), r.choice(have)
            w.emit("cp", a, b)
            w.slots[a] = w.slots[b]
        elif k < .82:
            a = r.choice(have)
            w.emit("drop", a)
            del w.slots[a]
        elif k < .88 and -1 in interps:
            t, s = large.text(r, 130) if r.random() < .004 else gen.text(r, g, corp if r.random() < .2 else None), r.randint(0, 3)
            p = R.parse(t)
            w.emit("k", r.choice((-1, 1)), "d", s, hx(t), check=("parse", t, p))
            w.tasks.pop(s, None)
            if p: w.tasks[s] = ("task", frozenset((-1, w.gen[-1], n) for n in atoms(p.term)), p.term)
        elif k < .90:
            s = r.randint(0, 3)
            if s in w.tasks:
                x = w.new(("cm", w.tasks[s][1], None))
                w.emit("taskterm", x, s)
        elif k < .92:
            s = r.randint(0, 3)
            w.emit("droptask", s)
            w.tasks.pop(s, None)
        elif k < .95:
            a, i = r.choice(have), r.choice(interps)
            v = w.slots[a]
            w.emit("print", a, i, check=("print", v[2][2] if v[0] == "atom" and v[2][:2] == (i, w.gen[i]) else None, None))
            if r.random() < .5: w.emit("repr", a)
        elif k < .965:
            i = r.choice(interps)
            if i != -1:
                w.emit("resetinterp", i)
                w.gen[i] += 1
        else: w.emit("vec", 2, r.choice(have), r.choice(have))
        w.settle()
        if r.random() < .5: w.reg(r.choice(interps))

    def survey():
        for i in interps: w.reg(i)
        for s in list(w.slots):
            v = w.slots[s]
            if v[0] != "atom": continue
            i, gn, name = v[2]
            if gn == w.gen[i]:
                w.emit("print", s, i, check=("print", name, None))
                w.emit("dump", "d", s, i, check=("dump", name, None))
            w.addr(s)
    survey()
    order = list(w.slots)
    r.shuffle(order)
    for s in order[:len(order) // 2]:
        w.emit("drop", s)
        del w.slots[s]
    w.settle()
    survey()
    w.emit("drops"); w.emit("droptasks")
    w.slots, w.tasks = {}, {}
    w.settle()
    for i in interps: w.reg(i)
    for i in interps:
        if i != -1: w.emit("delinterp", i)
    w.emit("delparser", 1)
    st.obs["registry snapshots"] += sum(p[1][0] == "reg" for p in w.plan)
    st.obs["identities of atoms"] += sum(p[1][0] == "addr" for p in w.plan)
    plan = w.plan

    def judge(ev):
        at = {}  # (name, life) -> address of the atom
        for i, (what, a, b) in plan:
            e = ev[i]
            if what == "reg":
                reg, want = e["reg"], b
                got = [bytes.fromhex(x[0]) for x in reg["names"]]
                if sorted(got) != sorted(want): return "interpreter %d has registered %s, in use are %s" % (a, sorted(got)[:12], sorted(want)[:12])
                for name, key, inv, ok, ad, uses in reg["names"]:
                    n = bytes.fromhex(name)
                    if not inv or not ok: return "the entry of %r is inconsistent" % n
                    if at.setdefault(want[n], ad) != ad: return "%r is registered with another object than it denoted" % n
                if reg["sizes"][:3] != [len(want)] * 3: return "registry maps of sizes %s for %d names in use" % (reg["sizes"], len(want))
            elif what == "addr":
                if at.setdefault(a, e["addr"]) != e["addr"]: return "%r denotes another object than before" % (a[0][2],)
                for k in b:
                    if k != a and at.get(k) == e["addr"]: return "%r and %r denote one object" % (a[0][2], k[0][2])
            elif what == "parse":
                x = J.accept_problem(e, b)
                if x: return "%s: %r" % (x, a[:200])
                if b and T.read(e["term"]).root != b.term: return "%r became %s" % (a[:200], M.show(T.read(e["term"]).root))
            elif what == "print":
                if a is not None and bytes.fromhex(e["s"]) != a: return "%r is printed as %r" % (a, bytes.fromhex(e["s"]))
            elif what == "dump":
                x = e["term"][0]
                if x[0] != "a" or x[2] != a.hex(): return "the atom %r is registered as %r" % (a, x[2])
        return None
    return Case(w.lines, judge, key=tuple(w.lines), text="%d commands, interpreters %s" % (len(w.lines), interps))


def words_and_operations(r, st):
    """A word and an operation of that word, in tasks released in any order."""
    n = r.choice((b"go", b"A", b"x" * 20, b"op1"))
    forms = [b"^" + n + b".", n + b".", b"(^" + n + b", " + n + b").", b"<" + n + b" --> A>.", b"(^" + n + b").", n + b"(B).", b"<^" + n + b" --> " + n + b">.", b"(&&, ^" + n + b", " + n + b").", b"{^" + n + b"}."]
    lines, plan, live = [], [], {}
    for _ in range(r.randint(3, 14)):
        if r.random() < .7:
            s, t = r.randint(0, 3), r.choice(forms)
            p = R.parse(t)
            plan.append((len(lines), "parse", t, p))
            lines.append("k -1 dp %d %s" % (s, hx(t)))
            live[s] = p.term
        else:
            s = r.randint(0, 3)
            lines.append("droptask %d" % s)
            live.pop(s, None)
        plan.append((len(lines), "reg", set().union(*[atoms(x) for x in live.values()]) if live else set(), None))
        lines.append("reg -1")
    lines.append("droptasks")
    st.obs["words and operations"] += 1

    def judge(ev):
        for i, what, a, b in plan:
            e = ev[i]
            if what == "parse":
                if not e["ok"]: return "rejected: %r" % a
                d = T.read(e["term"])
                if d.root != b.term: return "%r became %s" % (a, M.show(d.root))
                w = T.attribute_problem(d)
                if w: return "%s: %r" % (w, a)
            else:
                got = {bytes.fromhex(x[0]) for x in e["reg"]["names"]}
                if got != a: return "registered are %s, in use %s" % (sorted(got), sorted(a))
        return None
    return Case(lines, judge, key=tuple(lines), text=" ".join(f.decode() for f in forms[:4]))


def registry(r, st):
    """The registry's own operations (counted entries, released by count, key or name) against a dictionary."""
    names = r.sample(NAMES, r.randint(1, 6))
    keys = r.sample((1, 2, 3, 16, 17, 2**31, 2**32, 2**32 + 1, 2**63, 2**64 - 1), len(names))
    name = dict(zip(keys, names))
    tail = " ".join(hx(n) for n in names)
    count, lines, plan, seen, depth = {}, ["ra reset"], [None], set(), 0
    for _ in range(r.randint(6, 60)):
        k, what = r.choice(keys), r.choice(("put", "put", "put", "put", "erase", "erase", "erase", "remove", "rmname", "reset") if r.random() < .9 else ("erase",))
        if what == "reset" and r.random() < .7: what = "put"
        was = count.get(k, 0)
        many = what in ("put", "erase") and r.random() < .04
        if many and what == "put":
            m = r.choice((2, 127, 128, 255, 256, 300, 32768, 65536, 70000))
            count[k], res = was + m, 0
            seen.add(k)
            lines.append("ra puts %d %s %d %s" % (k, hx(name[k]), m, tail))
        elif many:
            m = r.choice((was, max(0, was - 1), was + 1, was // 2))
            res = min(was, m)
            if m >= was: count.pop(k, None)
            else: count[k] -= m
            lines.append("ra erases %d %d %s" % (k, m, tail))
        elif what == "put":
            count[k], res = was + 1, 0
            seen.add(k)
            lines.append("ra put %d %s %s" % (k, hx(name[k]), tail))
        elif what == "erase":
            res = int(was > 0)
            if was == 1: del count[k]
            elif was: count[k] -= 1
            lines.append("ra erase %d %s" % (k, tail))
        elif what in ("remove", "rmname"):
            res = int(was > 0)
            count.pop(k, None)
            lines.append("ra %s %s %s" % (what, k if what == "remove" else hx(name[k]), tail))
        else:
            res = 0
            count = {}
            lines.append("ra reset " + tail)
        depth = max(depth, count.get(k, 0))
        plan.append((res, dict(count), set(seen)))
    lines.append("ra reset")
    plan.append(None)
    st.obs["histories of the registry's own operations"] += 1
    st.obs["entries put up to %d times" % min(depth, 8)] += 1

    def judge(ev):
        for e, p, line in zip(ev, plan, lines):
            if p is None: continue
            res, count, seen = p
            if int(e["r"]) != res: return "%s returned %s instead of %s" % (line, e["r"], res)
            if e["sizes"] != [len(count)] * 3: return "after %s the registry's maps have %s entries, registered are %d" % (line, e["sizes"], len(count))
            if [x for x in e["names"]] != [[int(k in count), k if k in count else 0] for k in keys]: return "after %s the names %s are %s" % (line, names, e["names"])
            for k, alive, there, n, text, same in e["s"]:
                if k not in seen: continue
                want = [int(k in count), int(k in count), count.get(k, 0), hx(name[k]) if k in count else 0, int(k in count)]
                if [alive, there, n, text or (hx(b"") if k in count else 0), same] != want: return "after %s key %d is (alive, registered, count, name, same object) %s instead of %s" % (line, k, [alive, there, n, text, same], want)
        return None
    return Case(lines, judge, key=tuple(lines), text="%d registry operations on %d names" % (len(lines), len(names)))


def flock(r, st):
    """Very many handles of one name, or very many names."""
    kind, n = r.choice(("handles", "names")), r.choice((127, 255, 256, 32768, 65536, 66000, 70000, 140000))
    st.obs["flocks of " + kind] += 1
    st.obs["atoms made in flocks"] += n
    lines = ["flock %d %s %d" % (r.choice((-1, 3)), kind, n)] * 2

    def judge(ev):
        for e in ev:
            atoms = n if kind == "names" else 1
            rest = n // 1000 if kind == "names" else min(1, n // 1000)
            want = {"atoms": atoms, "misnamed": 0, "registered": atoms, "lost": 0, "changed": 0, "rest": rest, "renamed": 0, "left": 0}
            if any(e.get(k) != v for k, v in want.items()): return "%d %s at once: %s instead of %s" % (n, kind, e, want)
        return None
    return Case(lines, judge, key=tuple(lines), text="%d %s at once" % (n, kind))


def run(ctx):
    ctx.rule = ("histories of named creation, composition, copying, cloning, overwriting, taking parts, parsing, releasing and resetting over up to three interpreters with names that are easily "
                "confused; snapshots of the registry are compared with the names in use in a model, and each name's identity with the one it had. Distinct histories are counted.")
    ctx.assumptions = ["an interpreter outlives the handles of its atoms"]
    corp = [t for t in gen.corpus() if len(t) < 200]

    def histories(r, st): return history(r, st, corp)
    ctx.batches(histories, ctx.n(12000, 300000), 300)
    ctx.batches(words_and_operations, ctx.n(4000, 100000), 400)
    ctx.batches(registry, ctx.n(3000, 100000), 300)
    ctx.batches(flock, ctx.n(24, 200), 3, "g2")
