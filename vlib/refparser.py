"""Reference reading of Narsese: the grammar of narsese.par, transcribed, with its own tables, its own scanner and its
own semantic values (terms of model.py)."""
import os, pickle, hashlib
from . import lalr, model as M

WORD_EXCLUDED = set(b'-+<>="&|!.?@~%;,:/\\*#$[]{}()^ ')
DIGITS = b"0123456789"


def _num01(b, i):
    """0?.d+ | 1.0* | 1 | 0 -> lengths of all matches"""
    n, out = len(b), []
    if i < n and b[i] in b"01":
        out.append(i + 1)
    if i < n and b[i] == 49 and i + 1 < n and b[i + 1] == 46:
        j = i + 2
        out.append(j)
        while j < n and b[j] == 48: j += 1; out.append(j)
    j = i + 1 if i < n and b[i] == 48 else i
    if j < n and b[j] == 46:
        j += 1
        while j < n and b[j] in DIGITS: j += 1; out.append(j)
    return max(out) if out else -1


def _conf(b, i):
    """0?.0*[1-9]+d*"""
    n = len(b)
    j = i + 1 if i < n and b[i] == 48 else i
    if not (j < n and b[j] == 46): return -1
    j += 1
    while j < n and b[j] == 48: j += 1
    if not (j < n and b[j] in b"123456789"): return -1
    while j < n and b[j] in DIGITS: j += 1
    return j


def _k(b, i):
    n = len(b)
    if not (i < n and b[i] in b"123456789"): return -1
    while i < n and b[i] in DIGITS: i += 1
    return i


def _int(b, i):
    n = len(b)
    if i < n and b[i] == 45: i += 1
    if not (i < n and b[i] in DIGITS): return -1
    while i < n and b[i] in DIGITS: i += 1
    return i


def _raw(b, i):
    j, n = i, len(b)
    while j < n and b[j] < 128 and b[j] not in WORD_EXCLUDED: j += 1
    return j if j > i else -1


def _str(b, i):
    """'"' ( x ( '\\' {\\,"}... )? )* '"'  with x not in {\\,"}: an escape is a backslash and one of \\ and ", after a plain character"""
    n = len(b)
    if not (i < n and b[i] == 34): return -1
    # NFA states: 0 inside (a plain character may follow, or the closing quote), 1 just after a plain character
    # (an escape may follow), 2 inside the escape after a backslash
    states, j, best = {0}, i + 1, -1
    while j < n and states:
        c, nxt = b[j], set()
        if c >= 128: break
        for s in states:
            if s in (0, 1):
                if c == 34: best = j + 1
                elif c != 92: nxt.add(1)
                if s == 1 and c == 92: nxt.add(2)
            if s == 2 and c in b'\\"': nxt.add(0)
        states, j = nxt, j + 1
    return best


CLASSES = {"@string": _str, "@string_raw": _raw, "@integer": _int, "@priority": _num01, "@quality": _num01, "@frequency": _num01,
           "@durability": _conf, "@confidence": _conf, "@k_evidence": _k,
           "@ws": lambda b, i: i + 1 if i < len(b) and b[i] in b"\t " else -1}


class Reject(Exception):
    pass


def _grammar():
    g = lalr.Grammar("start")
    state = {"n": 0}
    terms = set()

    def T(tok):
        if tok not in terms:
            terms.add(tok)
            pending.append(tok)
        return tok + "'"
    pending = []

    def fresh():
        state["n"] += 1
        return "e%d" % state["n"]

    def star(x):  # x is a symbol
        return g_opt(plus(x))

    def plus(x):
        n = x + "+"
        if n not in g.by_lhs:
            g.add(n, [n, x], "cat"); g.add(n, [x], "cat")
        return n

    def g_opt(x):
        n = x + "?"
        if n not in g.by_lhs:
            g.add(n, [x], "cat"); g.add(n, [], "cat")
        return n

    def grp(*alts):
        n = fresh()
        for a in alts: g.add(n, a, "cat")
        return n

    g.add("start", [star("ws"), "goal'"], "first")
    g.add("goal'", ["task", "$eof"], "first")
    g.add("task", [g_opt(grp(["budget"])), "sentence"], "task")
    for p, (act, val) in zip(".?!@", [("judgement", "truth"), ("question", None), ("goal", "desire"), ("quest", None)]):
        rhs = [grp(["term_nonvar"], ["statement"]), T(p), g_opt(grp(["tense"]))]
        if val: rhs.append(g_opt(grp([val])))
        g.add("sentence", rhs, act)
    g.add("statement", [grp([T("<"), "term", "copula", "term", T(">")], [T("("), "term", "copula", "term", T(")")])], "statement")
    comma = lambda: grp([T(","), "term"])
    g.add("statement", [T("("), "op", star(comma()), T(")")], "op1")
    g.add("statement", ["word", T("("), "term", star(comma()), T(")")], "op2")
    for i, c in enumerate(M.COPULAS): g.add("copula", [T(c.decode())], ("const", i))
    g.add("term", ["variable"], "first"); g.add("term", ["term_nonvar"], "first")
    g.add("term_nonvar", ["interval"], "first"); g.add("term_nonvar", ["word"], "atom")
    for x in ("compound_term", "statement", "op"): g.add("term_nonvar", [x], "first")
    g.add("op", [T("^"), "word"], "op")
    g.add("interval", [T("+"), T("@integer")], "interval")
    for x in ("set", "multi", "single", "ext_image", "int_image", "negation"): g.add("compound_term", [x], "first")
    g.add("set", [grp(["int_set"], ["ext_set"])], "prefix")
    g.add("int_set", ["con_int_set", "term", star(comma()), T("]")], "cat")
    g.add("ext_set", ["con_ext_set", "term", star(comma()), T("}")], "cat")
    g.add("negation", [grp(["con_negation", "term"], [T("("), "con_negation", T(","), "term", T(")")])], "prefix")
    g.add("int_image", [T("("), "con_int_image", T(","), "term", star(comma()), T(")")], "prefix")
    g.add("ext_image", [T("("), "con_ext_image", T(","), "term", star(comma()), T(")")], "prefix")
    g.add("multi", [T("("), "infix", T(")")], "first")
    g.add("multi", [T("("), "term", plus(comma()), T(")")], ("infix", M.PROD))
    g.add("multi", [grp([T("("), "con_multi", T(","), "term", plus(comma()), T(")")], [T("("), "con_product", T(","), "term", star(comma()), T(")")])], "prefix")
    arg = lambda: grp(["term"], ["infix"])
    g.add("single", [T("("), "con_single", T(","), arg(), T(","), arg(), T(")")], "prefix")
    g.add("single", [T("("), arg(), "con_single", arg(), T(")")], "single_infix")
    for c in (M.EXTINT, M.INTINT, M.PAR, M.SEQ, M.CONJ, M.DISJ, M.PROD):
        n = "infix%d" % c
        g.add("infix", [n], "first")
        g.add(n, ["term", plus(grp([T(M.CONNS[c].decode()), "term"]))], ("infix", c))
    for c in (M.CONJ, M.DISJ, M.PAR, M.SEQ, M.INTINT, M.EXTINT): g.add("con_multi", [T(M.CONNS[c].decode())], ("const", c))
    g.add("con_product", [T("*")], ("const", M.PROD))
    g.add("con_single", [T("-")], ("const", M.EXTDIF)); g.add("con_single", [T("~")], ("const", M.INTDIF))
    g.add("con_int_set", [T("[")], ("const", M.INTSET)); g.add("con_ext_set", [T("{")], ("const", M.EXTSET))
    g.add("con_negation", [T("--")], ("const", M.NEG))
    g.add("con_int_image", [T("\\")], ("const", M.INTIMG)); g.add("con_ext_image", [T("/")], ("const", M.EXTIMG))
    for i, v in enumerate("$#?"): g.add("variable", [T(v), "word"], ("var", i))
    g.add("tense", [T(":!"), T("@integer"), T(":")], "tense_time")
    for t, v in ((":/:", 1), (":|:", 0), (":\\:", -1)): g.add("tense", [T(t)], ("tense", v))
    g.add("desire", ["truth"], "first")
    g.add("truth", [T("%"), T("@frequency"), g_opt(grp([T(";"), T("@confidence"), g_opt(grp([T(";"), T("@k_evidence")]))])), T("%")], "truth")
    g.add("budget", [T("$"), T("@priority"), g_opt(grp([T(";"), T("@durability"), g_opt(grp([T(";"), T("@quality")]))])), T("$")], "budget")
    g.add("word", [grp([T("@string")], [T("@string_raw")])], "word")
    while pending:
        t = pending.pop()
        g.add(t + "'", [t, star("ws")], "tok")
    g.add("ws", ["@ws"], "none")
    return g


def _load():
    g = _grammar()
    key = hashlib.sha256(open(__file__, "rb").read() + open(lalr.__file__, "rb").read()).hexdigest()[:16]
    d = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"))
    path = os.path.join(d, "ref-%s.pickle" % key)
    try:
        with open(path, "rb") as f: tables = pickle.load(f)
    except Exception:
        tables = g.build()
        try:
            os.makedirs(d, exist_ok=True)
            with open(path + ".%d" % os.getpid(), "wb") as f: pickle.dump(tables, f)
            os.replace(path + ".%d" % os.getpid(), path)
        except OSError: pass
    return (g,) + tuple(tables)


GRAMMAR, ACTIONS, DEFAULTS, GOTOS, CONFLICTS, VALID, KERNELS = _load()
PRODS = GRAMMAR.prods
# per state: literal terminals (as bytes, longest first) and classes
_LEX = []
for _a in VALID:
    lits = sorted(((t.encode(), t) for t in _a if t[0] not in "@$" or t == "$" or t == "@"), key=lambda x: -len(x[0]))
    cls = [(CLASSES[t], t) for t in sorted(_a, key=lambda t: t == "@ws") if t[0] == "@" and t != "@"]  # a word wins a tie with a blank
    _LEX.append((lits, cls))
TERMINALS = sorted({t for a in ACTIONS for t in a})


def scan(state, b, i):
    """Longest match among the terminals valid in the state; None if there is none."""
    if i >= len(b): return "$eof", i
    best, sym = i, None
    lits, cls = _LEX[state]
    for s, t in lits:
        if b.startswith(s, i): best, sym = i + len(s), t; break
    for f, t in cls:
        j = f(b, i)
        if j > best: best, sym = j, t
    return sym, best


class Task:
    __slots__ = ("punct", "term", "tense", "truth", "budget", "names", "states")

    def __repr__(self): return "%s%s tense=%r truth=%r budget=%r" % (M.show(self.term), ".?!@"[self.punct], self.tense, self.truth, self.budget)


def clip(x): return max(-2147483648, min(2147483647, x))


def to_int(tok):
    x = float(tok)
    if x >= 2147483647: return 2147483647
    if x <= -2147483648: return -2147483648
    return int(x)


def read_line(data):
    """What of a C++ string reaches the parser: up to the first NUL, then up to the first newline."""
    return data.split(b"\0", 1)[0].split(b"\n", 1)[0]


def parse(data, cover=None, where=None):
    """The task the text denotes, or None if it is not grammatical. `cover`: a set that collects reduced productions;
    `where`: a list that gets the offset and the token at which an ungrammatical text fails."""
    b = read_line(data)
    i = 0
    stack, vals = [0], []
    names = ({}, {}, {})
    while True:
        s = stack[-1]
        sym, j = scan(s, b, i)
        act = ACTIONS[s].get(sym) if sym is not None else None
        if act is None:
            d = DEFAULTS[s]
            if d < 0:
                if where is not None: where[:] = [i, b[i:j] if sym is not None else b""]
                return None
            act = ("r", d)
        if act[0] == "s":
            stack.append(act[1])
            vals.append(b[i:j])
            if sym == "$eof":
                # goal' : task $eof
                return vals[-2]
            i = j
            continue
        p = act[1]
        lhs, rhs, a = PRODS[p]
        n = len(rhs)
        if cover is not None: cover.add(p)
        args = vals[len(vals) - n:] if n else []
        if n:
            del vals[-n:]; del stack[-n:]
        try: v = _reduce(a, args, names)
        except Reject: return None
        vals.append(v)
        stack.append(GOTOS[stack[-1]][lhs])


class L(list):
    """a list of values, spliced into the surrounding one"""


def _flat(args):
    out = L()
    for x in args:
        if isinstance(x, L): out.extend(x)
        elif x is not None: out.append(x)
    return out


def _reduce(a, args, names):
    if a == "none": return None
    if a == "tok":
        return args[0]
    args = _flat(args)
    # literal tokens are bytes and carry no value, except for words and numbers, which their productions pick
    if a == "cat": return L(x for x in args if not _is_punct(x))
    if a == "word": return ("w", args[0])
    args = [x for x in args if not _is_punct(x)]
    if a == "first": return args[0]
    if isinstance(a, tuple):
        if a[0] == "const": return ("k", a[1])
        if a[0] == "var":
            d = names[a[1]]
            n = args[0][1]
            return ("t", M.var(a[1], d.setdefault(n, len(d))))
        if a[0] == "tense": return ("tense", a[1], None)
        if a[0] == "infix": return ("t", M.compound(a[1], [x[1] for x in args]))
    if a == "atom": return ("t", M.atom(args[0][1]))
    if a == "op": return ("t", M.atom(b"^" + args[0][1]))
    if a == "interval": return ("t", M.interval(to_int(args[0])))
    if a == "prefix": return ("t", M.compound(args[0][1], [x[1] for x in args[1:]]))
    if a == "single_infix": return ("t", M.compound(args[1][1], [args[0][1], args[2][1]]))
    if a == "statement":
        s, c, p = args[0][1], args[1][1], args[2][1]
        if c in (2, 4): s = M.compound(M.EXTSET, [s])
        if c in (3, 4): p = M.compound(M.INTSET, [p])
        return ("t", M.statement(s, 0 if c in (2, 3, 4) else c, p))
    if a == "op1": return ("t", M.statement(M.compound(M.PROD, [x[1] for x in args[1:]]), 0, args[0][1]))
    if a == "op2": return ("t", M.statement(M.compound(M.PROD, [x[1] for x in args[1:]]), 0, M.atom(b"^" + args[0][1])))
    if a == "tense_time": return ("tense", None, to_int(args[0]))
    if a == "truth": return ("truth", [float(x) for x in args])
    if a == "budget": return ("budget", [float(x) for x in args])
    if a in ("judgement", "question", "goal", "quest"):
        t = Task()
        t.punct = ("judgement", "question", "goal", "quest").index(a)
        t.term, t.tense, t.truth, t.budget = args[0][1], None, None, None
        for x in args[1:]:
            if x[0] == "tense": t.tense = x[1:]
            else: t.truth = x[1]
        t.names = names
        return t
    if a == "task":
        t = args[-1]
        if len(args) == 2: t.budget = args[0][1]
        return t
    raise AssertionError(a)


class _P(bytes):
    pass


_VALUED = set()


def _is_punct(x): return isinstance(x, bytes) and x in _LITERALS


_LITERALS = {t.encode() for t in TERMINALS if t[0] not in "@$" or t in ("$", "@")} | {b""}
