"""Runs scripts of operations on the Python module, one JSON event per operation: pyworker.py <module dir> <script> <events>."""
import gc, json, os, resource, sys
sys.dont_write_bytecode = True
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
sys.path.insert(0, sys.argv[1])
import narsese as n

out = open(sys.argv[3], "w", buffering=1)
null = os.open("/dev/null", os.O_WRONLY)
os.dup2(null, 1)
slots = {}


def node(t):
    """What Python shows of a term."""
    c, it = t.copula, t.terms
    if it is None: kids = None
    else:
        kids = list(it)
        if c is not None: kids = [t.subject, t.predicate] + kids
    return [repr(t), None if c is None else c.name, type(t).__name__, None if kids is None else [node(k) for k in kids], t.subject is None, t.predicate is None]


BAD = {  # calls that must raise
    "statement-none": lambda a, b: n.Statement(None, n.Copula.Similarity, a),
    "statement-none2": lambda a, b: n.Statement(a, n.Copula.Similarity, None),
    "statement-copula": lambda a, b: n.Statement(a, b, a),
    "statement-connector": lambda a, b: n.Statement(a, n.Connector.Product, b),
    "statement-range": lambda a, b: n.Statement(a, n.Copula(77), b),
    "statement-range12": lambda a, b: n.Statement(a, n.Copula(12), b),
    "statement-short": lambda a, b: n.Statement(a, n.Copula.Inheritance),
    "compound-none": lambda a, b: n.Compound(n.Connector.Conjunction, None),
    "compound-none2": lambda a, b: n.Compound(n.Connector.Product, a, None),
    "compound-number": lambda a, b: n.Compound(n.Connector.Conjunction, a, 1),
    "compound-text": lambda a, b: n.Compound(n.Connector.ExtensionalSet, "A", b),
    "compound-list": lambda a, b: n.Compound(n.Connector.ExtensionalSet, [a, b]),
    "compound-copula": lambda a, b: n.Compound(n.Copula.Inheritance, a, b),
    "compound-range": lambda a, b: n.Compound(n.Connector(15), a, b),
    "compound-range255": lambda a, b: n.Compound(n.Connector(255), a, b),
    "compound-nothing": lambda a, b: n.Compound(),
    "compound-empty": lambda a, b: n.Compound(n.Connector.Conjunction),
    "compound-empty2": lambda a, b: n.Compound(n.Connector.ExtensionalSet),
    "compound-empty3": lambda a, b: n.Compound(n.Connector.SequentialEvents),
    "copula-none": lambda a, b: n.Copula(None),
    "copula-name": lambda a, b: n.Copula.NoSuchCopula,
    "term-none": lambda a, b: n.Term(None),
    "term-number": lambda a, b: n.Term(3),
    "term-two": lambda a, b: n.Term("a", "b"),
    "parse-none": lambda a, b: n.parse(None),
    "parse-number": lambda a, b: n.parse(5),
    "parse-nothing": lambda a, b: n.parse(),
    "parse-term": lambda a, b: n.parse(a),
    "sentence-none": lambda a, b: n.Sentence(None, n.Punctuation.Judgement, None, None),
    "sentence-range": lambda a, b: n.Sentence(a, n.Punctuation(9), n.Truth(1, .9), None),
    "sentence-range4": lambda a, b: n.Sentence(a, n.Punctuation(4), n.Truth(1, .9), None),
    "sentence-truth": lambda a, b: n.Sentence(a, n.Punctuation.Goal, b, None),
    "sentence-punct": lambda a, b: n.Sentence(a, ".", None, None),
    "truth-text": lambda a, b: n.Truth("x", 1),
    "truth-none": lambda a, b: n.Truth(None, .9),
    "truth-short": lambda a, b: n.Truth(1),
    "budget-text": lambda a, b: n.Budget("x"),
    "budget-none": lambda a, b: n.Budget(None, 1, 1),
    "quality-none": lambda a, b: n.Budget.quality_from_truth(None),
    "quality-term": lambda a, b: n.Budget.quality_from_truth(a),
    "task-new": lambda a, b: n.Task(),
    "stamp-new": lambda a, b: n.Stamp(),
    "set-subject": lambda a, b: setattr(a, "subject", b),
    "set-copula": lambda a, b: setattr(a, "copula", n.Copula.Similarity),
    "set-terms": lambda a, b: setattr(a, "terms", [b]),
    "no-attribute": lambda a, b: a.nothing,
    "call": lambda a, b: a(),
    "repr-arg": lambda a, b: a.__repr__(5, 6),
    "exhausted": lambda a, b: drain(b),
}


def drain(b):
    it = n.Compound(n.Connector.Product, b, b).terms
    next(it); next(it); next(it)


def heap():
    import ctypes

    class Info(ctypes.Structure):
        _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
    f = ctypes.CDLL(None).mallinfo2
    f.restype = Info
    gc.collect()
    x = f()
    return x.uordblks + x.hblkhd


def val(v):
    if isinstance(v, (int, float)): return v if abs(v) < 1e300 else str(v)
    return repr(v)


def text(h, kind):
    b = bytes.fromhex(h)
    return b if kind == "b" else b.decode("utf-8")


def outcome(s):
    try: t = n.parse(s)
    except Exception as x: return None, "%s: %s" % (type(x).__name__, x)
    return t, [repr(t), node(t.term)]


def threads(k, rounds, texts):
    """Several threads use the module at once; all must see what one thread alone saw."""
    import random, threading
    alone = [outcome(s) for s in texts]
    want = [w for _, w in alone]
    shared = {i: t for i, (t, _) in enumerate(alone) if t is not None}
    del alone
    wrong, order, gate = [], [], threading.Barrier(k)

    def work(me):
        r = random.Random(me)
        gate.wait()
        for _ in range(rounds):
            i = r.randrange(len(texts))
            t, w = outcome(texts[i])
            order.append(me)
            if w != want[i]: wrong.append([me, texts[i], want[i], w])
            if t is not None: shared[i] = t  # drops what another thread made
            j = r.choice(list(shared))
            s = shared[j]
            w = [repr(s), node(s.term)]
            if w != want[j]: wrong.append([me, "held: " + texts[j], want[j], w])
            a, b = n.Term("t%d-%d" % (me, r.randrange(9))), s.term
            x = repr(n.Compound(n.Connector.Product, a, b))
            y = "<Compound: (*, %s, %s)>" % (repr(a)[7:-1], repr(b)[repr(b).index(" ") + 1:-1])
            if x != y: wrong.append([me, "product", y, x])
            if wrong: return
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
    for x in ts: x.start()
    for x in ts: x.join()
    sys.setswitchinterval(old)
    again = [outcome(s)[1] for s in texts]
    for s, a, b in zip(texts, want, again):
        if a != b: wrong.append([-1, "afterwards: " + s, a, b])
    return {"wrong": wrong[:1], "calls": len(order), "switches": sum(a != b for a, b in zip(order, order[1:])), "missing": k * rounds - len(order)}


def do(op):
    k, a = op[0], op[1:]
    if k == "threads": return threads(a[0], a[1], [text(x, "s") for x in a[2]])
    if k == "parse": slots[a[0]] = n.parse(text(a[1], a[2])); return {}
    if k == "parserepr": return {"repr": repr(n.parse(text(a[0], a[1])))}
    if k == "term": slots[a[0]] = slots[a[1]].term; return {}
    if k == "sentence": slots[a[0]] = slots[a[1]].sentence; return {}
    if k == "subject": slots[a[0]] = slots[a[1]].subject; return {}
    if k == "predicate": slots[a[0]] = slots[a[1]].predicate; return {}
    if k == "iter": slots[a[0]] = slots[a[1]].terms; return {}
    if k == "next": slots[a[0]] = next(slots[a[1]]); return {}
    if k == "kid": slots[a[0]] = list(slots[a[1]].terms)[a[2]]; return {}
    if k == "Term": slots[a[0]] = n.Term(text(a[1], a[2])); return {}
    if k == "anon": slots[a[0]] = n.Term(); return {}
    if k == "Statement": slots[a[0]] = n.Statement(slots[a[1]], getattr(n.Copula, a[2]), slots[a[3]]); return {}
    if k == "Compound": slots[a[0]] = n.Compound(getattr(n.Connector, a[1]), *[slots[x] for x in a[2]]); return {}
    if k == "Truth": slots[a[0]] = n.Truth(*a[1]); return {}
    if k == "Budget": slots[a[0]] = n.Budget(*a[1], **a[2]); return {}
    if k == "values": return {x: val(getattr(slots[a[0]], x)) for x in a[1]}
    if k == "quality": return {"q": val(n.Budget.quality_from_truth(slots[a[0]]))}
    if k == "Sentence": slots[a[0]] = n.Sentence(slots[a[1]], getattr(n.Punctuation, a[2]), None if a[3] is None else slots[a[3]], None); return {}
    if k == "repr": return {"repr": repr(slots[a[0]]), "str": str(slots[a[0]]), "type": type(slots[a[0]]).__name__}
    if k == "node": return {"node": node(slots[a[0]])}
    if k == "held": return {"reprs": [repr(slots[x]) for x in a[0]]}
    if k == "del":
        del slots[a[0]]
        return {}
    if k == "gc": gc.collect(); return {}
    if k == "clear": slots.clear(); gc.collect(); return {}
    if k == "bad":
        BAD[a[0]](slots[a[1]], slots[a[2]])
        return {}
    if k == "enums":
        return {e: [[m.name, int(m), repr(getattr(n, e)(int(m))) == repr(m), getattr(n, e)(int(m)) == m, (getattr(n, e).__dict__.get("__entries") or {}).get(m.name, (None, None))[1]]
                    for m in getattr(n, e).__members__.values()] for e in ("Copula", "Connector", "Punctuation")}
    if k == "cop": c = slots[a[0]].copula; return {"cop": None if c is None else c.name}
    if k == "loop":  # repeats operations and reports what memory they keep
        sizes = []
        for r in range(a[0]):
            for _ in range(a[1]):
                for o in a[2]:
                    try: do(o)
                    except Exception: pass
                slots.clear()
            sizes.append(heap())
        return {"sizes": sizes}
    raise SystemExit("unknown operation %r" % k)


for ln in open(sys.argv[2]):
    op = json.loads(ln)
    try: e = do(op)
    except Exception as x: e = {"exc": type(x).__name__, "msg": str(x)[:300], "mro": [c.__name__ for c in type(x).__mro__]}
    out.write(json.dumps(e) + "\n")
out.write('"end"\n')
slots.clear()
out.close()
