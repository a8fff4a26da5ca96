"""C18: the Python module shows what the system underneath holds, reports errors as exceptions, and keeps objects alive."""
import json, os, re, shutil, subprocess, sys, tempfile
from vlib import build, gen, judges as J, model as M, refparser as R
from vlib.engine import Stats, violation
from checks.c07 import rename, undo, unreadable

BUDGET = re.compile(r"\$(-?\d+\.\d\d);(-?\d+\.\d\d);(-?\d+\.\d\d)\$")
TRUTH = re.compile(r"%(-?\d+\.\d\d\d);(-?\d+\.\d\d\d)%$")
WORKER = os.path.join(build.VERIF, "vlib", "pyworker.py")
BAD = re.findall(r'^    "([\w-]+)": lambda', open(WORKER).read(), re.M)
BUILTIN = {"RuntimeError", "TypeError", "ValueError", "AttributeError", "StopIteration", "UnicodeDecodeError", "OverflowError"}


def inner(s, marks):
    m = re.match(r"<(\w+): (.*)>$", s, re.S)
    if not m or m.group(1) not in marks: raise ValueError("shown as %r" % s[:200])
    return m.group(1), m.group(2)


def read(nd):
    """(model id, text) of what Python shows of a term; raises ValueError if the parts do not belong together."""
    rep, cop, cls, kids, nosub, nopred = nd
    mark, t = inner(rep, ("Term", "Variable", "Interval", "Statement", "Compound", "Operation"))
    if kids is None:
        if cop is not None or not nosub or not nopred: raise ValueError("an atom %s with copula, subject or predicate" % rep)
        if mark == "Variable":
            k = "$#?".index(t[0])
            return M.var(k, int(t[1:])), t
        if mark == "Interval" or re.match(r"\+-?\d+$", t): return M.interval(int(t[1:])), t
        return M.atom(t.encode("utf-8", "surrogateescape")), t
    sub = [read(k) for k in kids]
    if cop is not None:
        if nosub or nopred or len(sub) != 4: raise ValueError("a statement %s without two terms" % rep)
        if mark != "Statement": raise ValueError("a statement shown as %r" % rep[:100])
        if sub[:2] != sub[2:]: raise ValueError("subject and predicate of %s are not its terms: %r" % (rep, sub))
        c = M.COP_NAMES.index(cop)
        i = M.statement(sub[0][0], c, sub[1][0])
        want = ["<%s %s %s>" % (sub[0][1], M.COPULAS[c].decode(), sub[1][1])]
        if M.is_operation(i): want = ["(%s)" % ", ".join([sub[1][1]] + [x[1] for x in (read(k) for k in kids[0][3])])]
        if t not in want: raise ValueError("%r is shown as %r" % (want[0][:300], t[:300]))
        return i, t
    if not nosub or not nopred: raise ValueError("a compound %s with subject or predicate" % rep)
    if mark != "Compound": raise ValueError("a compound shown as %r" % rep[:100])
    args = ", ".join(x[1] for x in sub)
    for c, s in enumerate(M.CONNS):
        s = s.decode()
        if t == ("{%s}" % args if c == M.EXTSET else "[%s]" % args if c == M.INTSET else "(%s, %s)" % (s, args)):
            ids = [x[0] for x in sub]
            if c in M.CON_COMM and len(set(ids)) != len(ids): raise ValueError("a component twice: %r" % t[:300])
            return M.raw_compound(c, ids), t
    raise ValueError("the components of %r are shown as %r" % (t[:300], args[:300]))


class Program:
    """Operations with what is to be observed of each: ops[i] with judges[i](event) -> None or what is wrong."""

    def __init__(self, r, st):
        self.r, self.st = r, st
        self.ops, self.judges, self.slots, self.free = [], [], {}, 0

    def add(self, op, judge=None):
        self.ops.append(op)
        self.judges.append(judge or (lambda e: None))

    def new(self, val):
        self.free += 1
        self.slots[self.free] = val
        return self.free

    def pick(self, *kinds):
        c = [s for s, v in self.slots.items() if v[0] in kinds]
        return self.r.choice(c) if c else None

    def term_judge(self, want):
        def judge(e):
            i, t = read(e["node"])
            self.st.obs["terms_read"] += 1
            return None if i == want else "the term is %s instead of %s" % (M.show(i), M.show(want))
        return judge

    def look(self, s):
        v = self.slots[s]
        if v[0] == "t": self.add(["node", s], self.term_judge(v[1]))
        elif v[0] == "task":
            p = v[1]

            def judge(e):
                _, t = inner(e["repr"], ("Task",))
                if e["str"] != e["repr"] or e["type"] != "Task": return "a task %s, %s, %s" % (e["type"], e["repr"], e["str"])
                m = BUDGET.match(t)
                if not m: return "no budget is shown: %r" % t[:200]
                for g, w in zip(m.groups(), J.expected_budget(p)):
                    if abs(float(g) - w) > .00551: return "budget %r is shown as %r" % (J.expected_budget(p), m.group())
                return sentence(t[m.end() + 1:], p)
            self.add(["repr", s], judge)
        elif v[0] == "sent": self.add(["repr", s], lambda e, p=v[1]: sentence(inner(e["repr"], ("Sentence",))[1], p))
        elif v[0] == "truth":
            f, c, k = v[1]

            def judge(e):
                for x, w in (("f", f), ("c", c), ("k", k), ("e", J.f32(c) * (J.f32(f) - .5) + .5)):
                    if not J.close(e[x], J.f32(w), 3e-6): return "%s of Truth%r is %r" % (x, v[1], e[x])
            self.add(["values", s, "fcke"], judge)
        elif v[0] == "budget":
            def judge(e):
                for x, w in zip("pdq", v[1]):
                    if not J.close(e[x], J.f32(w)): return "%s of Budget%r is %r" % (x, v[1], e[x])
            self.add(["values", s, "pdq"], judge)


def sentence(t, p):
    """A shown sentence against the text it was parsed from."""
    body = t
    th = J.expected_truth(p)
    if th is not None:
        m = TRUTH.search(t)
        if not m: return "no truth is shown: %r" % t[:300]
        for g, w in zip(m.groups(), th):
            if abs(float(g) - w) > .000505: return "truth %r is shown as %r" % (th, m.group())
        body = t[:m.start()]
    else: body = t
    want = ".?!@"[p.punct] + " "
    if p.tense is not None:
        occ = J.expected_occurrence(p)
        want += (":\\: ", ":|: ", ":/: ")[J.tense_class(occ, 0, 5)]
    # a sentence without truth may end in a blank or not
    if not (body.rstrip(" ").endswith(want.rstrip(" "))): return "%r does not end in %r" % (body[-60:], want)
    text = body.rstrip(" ")[:-len(want.rstrip(" "))]
    if len(text) < 3000:
        q = R.parse(text.encode("utf-8", "surrogateescape") + b".")
        if q is not None and not unreadable(p.term):
            if rename(q.term, undo(q)) != p.term: return "%r is shown for %s" % (text[:300], M.show(p.term))
    return None


def raises(kinds, st, what):
    def judge(e):
        if "exc" not in e: return "%s raises nothing" % what
        if e["exc"] not in kinds: return "%s raises %s: %s" % (what, e["exc"], e["msg"])
        st.obs["exceptions: " + e["exc"]] += 1
        return None
    judge.raises = True
    return judge


def valid_text(r, g, corp):
    for _ in range(50):
        t = gen.text(r, g, corp)
        if len(t) > 1500: continue
        p = R.parse(t)
        if p is not None and M.depth(p.term) < 60:
            try: t.decode("utf-8")
            except UnicodeDecodeError: continue
            return t, p
    return b"A.", R.parse(b"A.")


def one_program(r, st, g, corp, length):
    P = Program(r, st)
    for _ in range(3):
        t, p = valid_text(r, g, corp)
        s = P.new(("task", p))
        P.add(["parse", s, t.hex(), "s"])
    while len(P.ops) < length:
        k = r.random()
        if k < .14:
            t, p = valid_text(r, g, corp)
            s = P.new(("task", p))
            P.add(["parse", s, t.hex(), r.choice("sssb")])
            P.look(s)
        elif k < .24:
            for _ in range(20):
                t = gen.text(r, g, corp)
                if r.random() < .3: t = gen.mutate(r, t)
                if len(t) < 3000 and R.parse(t) is None: break
            else: t = b"<A"
            try: t.decode("utf-8"); kind = r.choice("sssb")
            except UnicodeDecodeError: kind = "b"
            P.add(["parse", 0, t.hex(), kind], raises({"RuntimeError"}, st, "parse(%r)" % t[:200]))
            st.obs["rejected_texts"] += 1
        elif k < .29:
            src = P.pick("task")
            if src is None: continue
            if r.random() < .6: s = P.new(("t", P.slots[src][1].term)); P.add(["term", s, src])
            else: s = P.new(("sent", P.slots[src][1])); P.add(["sentence", s, src])
            P.look(s)
        elif k < .42:
            src = P.pick("t")
            if src is None: continue
            i = P.slots[src][1]
            kind, d, ch = M.node(i)
            P.add(["cop", src], lambda e, w=M.COP_NAMES[d] if kind == "s" else None: None if e["cop"] == w else "the copula is %s instead of %s" % (e["cop"], w))
            if kind == "s":
                how = r.randrange(3)
                which = r.randrange(2)
                s = P.new(("t", ch[which]))
                if how < 2: P.add([("subject", "predicate")[which], s, src])
                else: P.add(["kid", s, src, which])
                P.look(s)
            elif kind == "c" and ch and r.random() < .9:
                if d in M.CON_COMM:
                    s = P.new(("it", i, set()))
                    P.add(["iter", s, src])
                else:
                    n = r.randrange(len(ch))
                    s = P.new(("t", ch[n]))
                    P.add(["kid", s, src, n])
                    P.look(s)
        elif k < .49:
            src = P.pick("it")
            if src is None: continue
            _, i, seen = P.slots[src]
            ch = M.node(i)[2]
            if seen == "done" or len(seen) == len(ch):
                P.add(["next", 0, src], raises({"StopIteration"}, st, "the iterator over %s, at its end," % M.show(i)))
                continue
            # the order is arbitrary: which component it is, is decided by the record
            s = P.new(("x",))
            n = len(seen)
            seen.add(n)
            P.add(["next", s, src])

            def judge(e, i=i, src=src):
                j, _ = read(e["node"])
                bag = P.slots_seen.setdefault(src, set())
                if j not in M.node(i)[2]: return "an iterator over %s yields %s" % (M.show(i), M.show(j))
                if j in bag: return "an iterator over %s yields %s twice" % (M.show(i), M.show(j))
                bag.add(j)
                st.obs["components_iterated"] += 1
            P.add(["node", s], judge)
        elif k < .55:
            name = r.choice((b"A", b"B", b"C", b"bird", b"key001", "\u00e9".encode(), "\u540d".encode(), b"x" * r.randint(1, 300), b"q%d" % r.randrange(50), b"two words", b""[:0] or b"w"))
            s = P.new(("t", M.atom(name)))
            P.add(["Term", s, name.hex(), r.choice("sb") if all(c < 128 for c in name) else "s"])
            P.look(s)
        elif k < .66:
            a, b = P.pick("t"), P.pick("t")
            if a is None: continue
            c = r.randrange(12)
            i = M.statement(P.slots[a][1], c, P.slots[b][1])
            if M.depth(i) > 80: continue
            s = P.new(("t", i))
            P.add(["Statement", s, a, M.COP_NAMES[c], b])
            P.look(s)
            st.key("statement", c, i)
        elif k < .77:
            c = r.randrange(15)
            n = r.choice((1, 1, 2, 2, 2, 3, 3, 4, 5, 8))
            args = [P.pick("t") for _ in range(n)]
            if None in args: continue
            i = M.compound(c, [P.slots[a][1] for a in args])
            if M.depth(i) > 80 or M.complexity(i) > 3000: continue
            s = P.new(("t", i))
            P.add(["Compound", s, M.CON_NAMES[c], args])
            P.look(s)
            st.key("compound", c, i)
        elif k < .80:
            f, c = round(r.random(), r.choice((1, 2, 5, 9))), min(.99, round(r.random(), r.choice((1, 2, 5, 9))))
            kk = r.choice((1.0, 1.0, 2.0, .5, 7.25))
            s = P.new(("truth", (f, c, kk)))
            P.add(["Truth", s, [f, c] if kk == 1.0 else [f, c, kk]])
            P.look(s)
            P.add(["quality", s], lambda e, f=f, c=c: None if J.close(e["q"], J.quality(J.f32(f), J.f32(c)), 3e-6) else "quality_from_truth(%r, %r) is %r" % (f, c, e["q"]))
        elif k < .82:
            v = [round(r.random(), 3) for _ in range(r.randint(0, 3))]
            kw = {}
            full = v + [.9, .9, .5][len(v):]
            for n, x in list(enumerate("pdq"))[len(v):]:
                if r.random() < .3: kw[x] = full[n] = round(r.random(), 3)
            s = P.new(("budget", full))
            P.add(["Budget", s, v, kw])
            P.look(s)
        elif k < .85:
            a, tr = P.pick("t"), P.pick("truth")
            if a is None: continue
            pu = r.randrange(4)
            q = R.Task()
            q.punct, q.term, q.tense, q.budget, q.names = pu, P.slots[a][1], None, None, None
            q.truth = P.slots[tr][1] if tr is not None else None
            if q.truth is None: continue  # how a sentence without truth is shown is the interpreter's business
            s = P.new(("sent", q))
            P.add(["Sentence", s, a, ("Judgement", "Question", "Goal", "Quest")[pu], tr if pu in (0, 2) else r.choice((tr, None))])
            if M.complexity(q.term) < 300: P.look(s)
        elif k < .90:
            a, b = P.pick("t"), P.pick("t")
            if a is None: continue
            n = r.choice(BAD)
            P.add(["bad", n, a, b], raises(BUILTIN, st, "the call %r" % n))
            st.key("bad", n)
            P.look(a)
        elif k < .97:
            if len(P.slots) < 6: continue
            for _ in range(r.choice((1, 1, 2, 4))):
                s = r.choice(list(P.slots))
                if len(P.slots) > 3: del P.slots[s]; P.add(["del", s])
            if r.random() < .3: P.add(["gc"])
            s = P.pick("t", "task", "sent")
            if s is not None: P.look(s)
        else:
            s = r.choice(list(P.slots))
            if P.slots[s][0] in ("t", "task", "sent"): P.look(s)
    # release in random order, looking at what is still held
    rest = list(P.slots)
    r.shuffle(rest)
    keep = r.choice((0, 0, 3))
    while len(rest) > keep:
        s = rest.pop()
        del P.slots[s]
        P.add(["del", s])
        if r.random() < .25 and rest:
            x = r.choice(rest)
            if P.slots[x][0] in ("t", "task", "sent", "truth"): P.look(x)
    if not keep: P.add(["clear"])
    for s in rest: P.slots.pop(s, None)
    P.slots_seen = {}
    return P


def env(kind, d):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
    e["PYTHONMALLOC"] = "malloc"
    e["LC_ALL"] = "C.UTF-8"
    if kind == "asan":
        lib = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
        std = subprocess.run(["g++", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE).stdout.decode().strip()
        e["LD_PRELOAD"] = lib + " " + os.path.realpath(std)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:detect_stack_use_after_return=0"
    else: e["MALLOC_PERTURB_"] = str(kind)
    return e


def execute(moddir, ops, e, timeout=240):
    """Events, status, what went wrong ('' if nothing)."""
    d = tempfile.mkdtemp(prefix="c18-")
    try:
        with open(d + "/script", "w") as f: f.writelines(json.dumps(o) + "\n" for o in ops)
        try:
            p = subprocess.run([sys.executable, "-I", WORKER, moddir, d + "/script", d + "/events"], env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, cwd=d)
            rc, err = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired: rc, err = "timeout", ""
        ev = []
        if os.path.exists(d + "/events"):
            for ln in open(d + "/events"):
                try: ev.append(json.loads(ln))
                except ValueError: break
        return ev, rc, err
    finally: shutil.rmtree(d, ignore_errors=True)


def report(err):
    i = err.find("ERROR: AddressSanitizer")
    return err[i:i + 1800] if i >= 0 else err[-600:]


def watch(st, name, moddir, ops, judges, e):
    """Runs the operations in a watched process; judges the record."""
    ev, rc, err = execute(moddir, ops, e)
    done = [x for x in ev if x != "end"]
    script = ["# environment %s; operations of vlib/pyworker.py follow" % json.dumps({k: v for k, v in e.items() if k not in ("PATH", "HOME")})] + [json.dumps(o) for o in ops[:len(done) + 1]]
    for n, (x, j) in enumerate(zip(done, judges)):
        st.n += 1
        st.obs["operations"] += 1
        if "exc" in x and not getattr(j, "raises", False): v = "operation %s raises %s: %s" % (json.dumps(ops[n])[:200], x["exc"], x["msg"])
        else:
            try: v = j(x)
            except (ValueError, KeyError, TypeError, IndexError, AttributeError) as y: v = "%s: %s" % (json.dumps(ops[n])[:200], y)
        if v:
            st.viols.append(violation("python", v, name, script[:n + 2]))
            return
    if rc == "timeout": st.viols.append(violation("python-hang", "no answer after %d operations: %s" % (len(done), json.dumps(ops[min(len(done), len(ops) - 1)])[:300]), name, script))
    elif rc != 0 or not ev or ev[-1] != "end":
        what = json.dumps(ops[len(done)])[:300] if len(done) < len(ops) else "leaving Python"
        st.viols.append(violation("python-crash", "the process ended with status %s: %s\n%s" % (rc, what, report(err)), name, script))
    else: st.obs["processes_ended_normally"] += 1


def judge_enums(e):
    for kind, names in (("Copula", M.COP_NAMES), ("Connector", M.CON_NAMES), ("Punctuation", ["Judgement", "Question", "Goal", "Quest"])):
        have = [x[0] for x in e[kind]]
        if sorted(have) != sorted(names): return "the members of %s are %s" % (kind, have)
        docs = {"Copula": M.COPULAS, "Connector": M.CONNS, "Punctuation": M.PUNCTS}[kind]
        if len({x[1] for x in e[kind]}) != len(have): return "two members of %s have one value: %s" % (kind, e[kind])
        for name, v, a, b, doc in e[kind]:
            if not a or not b: return "%s(%d) is not %s" % (kind, v, name)
            want = docs[names.index(name)].decode()
            if doc is not None and doc != want: return "%s.%s is documented as %r instead of %r" % (kind, name, doc, want)
    return None


def symbols(st):
    """Each enumerator by what it prints, against what the parser reads for that symbol."""
    ops, judges = [["enums"], ["Term", 1, b"S".hex(), "s"], ["Term", 2, b"P".hex(), "s"], ["Truth", 3, [.25, .75]]], [judge_enums] + [lambda e: None] * 3

    def add(o, j=None): ops.append(o); judges.append(j or (lambda e: None))
    S, Q = M.atom(b"S"), M.atom(b"P")
    for c, n in enumerate(M.COP_NAMES):
        add(["Statement", 10, 1, n, 2])
        P = Program(None, st)
        add(["node", 10], P.term_judge(M.statement(S, c, Q)))
        t = b"<S " + M.COPULAS[c] + b" P>."
        p = R.parse(t)
        add(["parse", 11, t.hex(), "s"]); add(["term", 12, 11]); add(["node", 12], P.term_judge(p.term))
        st.key("copula", c)
    for c, n in enumerate(M.CON_NAMES):
        P = Program(None, st)
        k = [1, 2] if c != M.NEG else [1]
        add(["Compound", 10, n, k])
        add(["node", 10], P.term_judge(M.compound(c, [(S, Q)[x - 1] for x in k])))
        sym = M.CONNS[c]
        t = {M.EXTSET: b"{S,P}.", M.INTSET: b"[S,P].", M.NEG: b"(--,S)."}.get(c, b"(" + sym + b",S,P).")
        p = R.parse(t)
        if p is None: add(["parse", 0, t.hex(), "s"], raises({"RuntimeError"}, st, "parse(%r)" % t))
        else: add(["parse", 11, t.hex(), "s"]); add(["term", 12, 11]); add(["node", 12], P.term_judge(p.term))
        st.key("connector", c)
    for pu, n in enumerate(("Judgement", "Question", "Goal", "Quest")):
        add(["Sentence", 10, 1, n, 3])
        q = R.Task(); q.punct, q.term, q.tense, q.truth, q.budget, q.names = pu, S, None, (.25, .75), None, None
        add(["repr", 10], lambda e, q=q: sentence(inner(e["repr"], ("Sentence",))[1], q))
        st.key("punctuation", pu)
    for b in BAD:
        add(["bad", b, 1, 2], raises(BUILTIN, st, "the call %r" % b))
        add(["node", 1], Program(None, st).term_judge(S))
        st.key("bad", b)
    return ops, judges


LOOPS = [
    ("valid parse", [["parse", 1, b"<(&&,A,<$x --> {B,C}>) ==> (^go,#y,+5)>. :|: %0.5;0.5%".hex(), "s"], ["term", 2, 1], ["node", 2], ["repr", 1], ["sentence", 3, 1], ["repr", 3]]),
    ("rejected parse", [["parse", 1, b"<(&&,A,<$x --> {B,C}>) ==> (^go,#y".hex(), "s"]]),
    ("rejected parse, late", [["parse", 1, b"<(&&,A,<$x --> {B,C}>) ==> (^go,#y)>. :|: %0.5;0.5% x".hex(), "s"]]),
    ("components", [["parse", 1, b"{A,B,(*,C,D)}.".hex(), "s"], ["term", 2, 1], ["iter", 3, 2], ["next", 4, 3], ["del", 2], ["next", 5, 3]]),
    ("building", [["Term", 1, b"A".hex(), "s"], ["Term", 2, b"B".hex(), "s"], ["Statement", 3, 1, "Inheritance", 2], ["Compound", 4, "Conjunction", [1, 3, 3]], ["Truth", 5, [.5, .5]],
                  ["Sentence", 6, 4, "Goal", 5], ["repr", 6], ["anon", 7], ["Compound", 8, "ExtensionalIntersection", [1, 4]]]),
    ("failed building", [["Term", 1, b"A".hex(), "s"], ["bad", "compound-none2", 1, 1], ["bad", "statement-none", 1, 1], ["bad", "compound-empty", 1, 1], ["bad", "sentence-range", 1, 1]]),
    ("changing names", [["parse", 1, b"<a1 --> a2>.".hex(), "s"], ["parse", 2, b"(&&,a3,a4,$a5,#a6).".hex(), "s"], ["Term", 3, b"another".hex(), "s"]]),
]


def run(ctx):
    ctx.rule = "an operation sequence on the Python module, distinct by the terms built and calls made"
    ctx.assumptions = ["CPython 3.12 with the real pybind11 of the sandbox", "objects made by X.__new__(X), without their constructor, are pybind11's own business",
                       "names given to Term hold no NUL"]
    plain, san = build.module(), build.module(True)
    ctx.binaries = {"pymod": plain, "pymod-asan": san}
    corp = gen.corpus()

    def first(c, job):
        st = Stats()
        kind = job
        M.reset()
        if isinstance(kind, tuple):
            name, ops = kind
            loop = [["loop", 6, 60, ops]]

            def judge(e):
                s = e["sizes"]
                per = (s[-1] - s[2]) / (3 * 60)
                st.obs["loops_measured"] += 1
                st.key("loop", name)
                return "repeating %r keeps %.1f bytes each time (%s)" % (name, per, s) if per > 7.5 else None
            watch(st, "pymod", plain, loop, [judge], env("0", None))
            return st
        ops, judges = symbols(st)
        watch(st, "pymod-asan" if kind == "asan" else "pymod", san if kind == "asan" else plain, ops, judges, env(kind, None))
        st.samples.append("every enumerator, every erroneous call")
        return st
    ctx.map(first, ["asan", 85] + LOOPS)

    def many(c, job):
        st = Stats()
        r = c.rng("many", job)
        g = gen.Gen(r, wide=.02, nested=.5)
        for n in range(3):
            M.reset()
            P = one_program(r, st, g, corp, r.choice((40, 120, 250)))
            if job < 3 and not n: st.samples.append(" ".join(json.dumps(o) for o in P.ops[:6])[:400])
            kind = ("asan", 85, "asan", 170)[(job + n) % 4]
            watch(st, "pymod-asan" if kind == "asan" else "pymod", san if kind == "asan" else plain, P.ops, P.judges, env(kind, None))
            if st.viols: break
        return st
    ctx.map(many, range(ctx.n(56, 900)))

    def crowd(c, job):
        """Several Python threads at once."""
        st = Stats()
        r = c.rng("threads", job)
        texts = []
        while len(texts) < 12:
            s = r.choice(corp) if r.random() < .4 else gen.Gen(r, wide=.02, nested=.5).task()
            try: s.decode("utf-8")
            except UnicodeDecodeError: continue
            if len(s) < 3000 and b"\0" not in s: texts.append(s)
        for s in texts[:3]: texts.append(s[:len(s) // 2])  # rejected, most of them
        k, rounds = r.choice((2, 3, 5, 8)), r.choice((60, 150))
        kind = ("asan", 85, 170)[job % 3]

        def judge(e):
            st.obs["calls_by_several_threads"] += e["calls"]
            st.obs["changes_of_thread_between_calls"] += e["switches"]
            for s in texts: st.key("threads", k, s)
            if e["wrong"]: return "of %d threads, one sees otherwise than one thread alone: %s" % (k, json.dumps(e["wrong"])[:900])
            if e["missing"]: return "%d of %d calls by %d threads did not happen" % (e["missing"], k * rounds, k)
        watch(st, "pymod-asan" if kind == "asan" else "pymod", san if kind == "asan" else plain, [["threads", k, rounds, [s.hex() for s in texts]]], [judge], env(kind, None))
        return st
    ctx.map(crowd, range(ctx.n(12, 150)))
    ctx.extra["erroneous_calls"] = len(BAD)
