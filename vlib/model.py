"""Reference model of Narsese terms: hash-consed, normalised, with derived attributes.

A term is an integer id; node(id) = (kind, data, children). Commutative compounds hold their distinct
components sorted by id, so equality of terms is equality of ids.
  kinds: "a" atom (data: name, bytes; an operation's name starts with ^), "n" anonymous atom (data: a key),
         "v" variable (data: (kind 0 $,1 #,2 ?, number)), "i" interval (data: int),
         "s" statement (data: copula index), "c" compound (data: connector index)
"""
COPULAS = [b"-->", b"<->", b"{--", b"--]", b"{-]", b"==>", b"=/>", b"=|>", b"=\\>", b"<=>", b"</>", b"<|>"]
COP_NAMES = ["Inheritance", "Similarity", "Instance", "Property", "InstanceProperty", "Implication", "PredictiveImplication",
             "ConcurrentImplication", "RetrospectiveImplication", "Equivalence", "PredictiveEquivalence", "ConcurrentEquivalence"]
COP_COMM = {1, 9, 11}
COP_HIGHER = {5, 6, 7, 8, 9, 10, 11}
COP_TEMPORAL = {6, 7, 8, 10, 11}
CONNS = [b"&&", b"||", b"*", b"&|", b"&/", b"|", b"&", b"-", b"~", b"--", b"[", b"{", b"\\", b"/", b"#"]
CON_NAMES = ["Conjunction", "Disjunction", "Product", "ParallelEvents", "SequentialEvents", "IntensionalIntersection",
             "ExtensionalIntersection", "ExtensionalDifference", "IntensionalDifference", "Negation", "IntensionalSet",
             "ExtensionalSet", "IntensionalImage", "ExtensionalImage", "List"]
CONJ, DISJ, PROD, PAR, SEQ, INTINT, EXTINT, EXTDIF, INTDIF, NEG, INTSET, EXTSET, INTIMG, EXTIMG, LIST = range(15)
CON_COMM = {CONJ, DISJ, PAR, INTINT, EXTINT, INTSET, EXTSET}
CON_REDUCIBLE = CON_COMM | {SEQ}
VARS = [b"$", b"#", b"?"]
PUNCTS = [b".", b"?", b"!", b"@"]

_nodes, _index = [], {}
_attr = {}


def node(i): return _nodes[i]


def _mk(kind, data, children=()):
    key = (kind, data, children)
    i = _index.get(key)
    if i is None:
        i = _index[key] = len(_nodes)
        _nodes.append(key)
        # complexity, (has $, has #, has ?)
        if kind == "s": c = 1 + sum(_attr[x][0] for x in children)
        elif kind == "c": c = sum(_attr[x][0] for x in children)
        else: c = 1
        if kind == "v": h = tuple(data[0] == k for k in range(3))
        else: h = tuple(any(_attr[x][1][k] for x in children) for k in range(3))
        d = 1 + max((_attr[x][2] for x in children), default=0)
        _attr[i] = (c, h, d)
    return i


def atom(name): return _mk("a", name)
def anon(key): return _mk("n", key)
def var(kind, number): return _mk("v", (kind, number))
def interval(n): return _mk("i", n)
def complexity(i): return _attr[i][0]
def has_vars(i): return _attr[i][1]
def depth(i): return _attr[i][2]
def is_op_atom(i): return _nodes[i][0] == "a" and _nodes[i][1][:1] == b"^" or _nodes[i][0] == "n" and str(_nodes[i][1])[:1] == "^"


def statement(s, c, p): return _mk("s", c, (s, p))


def raw_compound(conn, children):
    """The compound as is: a set of components for commutative connectors, a sequence for the others."""
    return _mk("c", conn, tuple(sorted(set(children))) if conn in CON_COMM else tuple(children))


def compound(conn, children):
    """The compound of the given components in normal form."""
    if conn not in CON_REDUCIBLE: return raw_compound(conn, children)
    if not children: raise ValueError("no components")
    flat = []
    for x in children:
        k, d, ch = _nodes[x]
        if k == "c" and d == conn: flat.extend(ch)
        else: flat.append(x)
    if conn == SEQ: return raw_compound(conn, flat)
    flat = set(flat)
    if conn in (INTINT, EXTINT):
        rest, sets = set(), {EXTSET: [], INTSET: []}
        for x in flat:
            k, d, ch = _nodes[x]
            if k == "c" and d in sets: sets[d].append((x, set(ch)))
            else: rest.add(x)
        for kind, members in sets.items():
            if not members: continue
            intersect = (conn == EXTINT) == (kind == EXTSET)
            merged = set.intersection(*[m for _, m in members]) if intersect else set.union(*[m for _, m in members])
            if merged: rest.add(compound(kind, merged))
            else: rest.update(x for x, _ in members)
        if len(rest) == 1:
            x = next(iter(rest))
            if _nodes[x][0] == "c" and _nodes[x][1] in (INTSET, EXTSET): return x
        flat = rest
    return raw_compound(conn, flat)


def is_operation(i):
    """An operation: the atom of one, or a product of arguments inheriting from one."""
    k, d, ch = _nodes[i]
    if k == "s": return d == 0 and is_op_atom(ch[1]) and _nodes[ch[0]][0] == "c" and _nodes[ch[0]][1] == PROD
    return is_op_atom(i)


def is_commutative(i):
    k, d, _ = _nodes[i]
    return d in (COP_COMM if k == "s" else CON_COMM)


def render(i, out=None):
    """A printed form (the order of commutative components is arbitrary): compare modulo order only."""
    res, todo = [], [i]
    while todo:
        x = todo.pop()
        if isinstance(x, bytes): res.append(x); continue
        k, d, ch = _nodes[x]
        if k == "a": res.append(d)
        elif k == "n": res.append(b"?anon")
        elif k == "v": res.append(VARS[d[0]] + str(d[1]).encode())
        elif k == "i": res.append(b"+%d" % d)
        elif k == "s":
            if is_operation(x):
                parts = [b"(", ch[1]]
                for c in _nodes[ch[0]][2]: parts += [b", ", c]
                parts.append(b")")
            else: parts = [b"<", ch[0], b" " + COPULAS[d] + b" ", ch[1], b">"]
            todo.extend(reversed(parts))
        else:
            if d == EXTSET: parts, close = [b"{"], b"}"
            elif d == INTSET: parts, close = [b"["], b"]"
            else: parts, close = [b"(" + CONNS[d] + b", "], b")"
            for n, c in enumerate(ch):
                if n: parts.append(b", ")
                parts.append(c)
            parts.append(close)
            todo.extend(reversed(parts))
    return b"".join(res)


def show(i):
    if complexity(i) > 20000: return "(a term of %d leaves)" % complexity(i)
    s = render(i).decode("latin1")
    return s if len(s) < 400 else s[:400] + "..."


def walk(i):
    """All occurrences of subterms, pre-order: (id, path)."""
    todo = [(i, ())]
    while todo:
        x, p = todo.pop()
        yield x, p
        for n, c in reversed(list(enumerate(_nodes[x][2]))): todo.append((c, p + (n,)))


def reset():
    """Forget all terms (between batches of a long run)."""
    _nodes.clear(); _index.clear(); _attr.clear()
