"""Reads recorded term dumps back into the reference model and judges each node against it."""
from . import model as M

# fields of a dumped node
KIND, NCH, SYM, FLAGS, HASH, CPLX, COMM, ADDR, VARS = range(9)
FLAG_NAMES = ["is_var", "is_ivar", "is_dvar", "is_qvar", "has_var", "has_ivar", "has_dvar", "has_qvar", "is_interval", "is_operation",
              "is_higher_order", "is_closed"]


class Bad(Exception):
    """the dump itself cannot be a term"""


class Dumped:
    """ids[i]: the model id of node i as it is (not renormalised); kids[i]: its children's positions in dump order"""
    __slots__ = ("nodes", "ids", "kids", "root")


def read(nodes, anon_names=None):
    d = Dumped()
    n = len(nodes)
    ids, kids = [None] * n, [()] * n
    # children of pre-order nodes: walk backwards with a stack of finished subtrees
    stack = []
    for i in range(n - 1, -1, -1):
        x = nodes[i]
        k, c, s = x[KIND], x[NCH], x[SYM]
        if c:
            if len(stack) < c: raise Bad("truncated dump")
            ch = stack[-c:][::-1]
            del stack[-c:]
            kids[i] = tuple(ch)
            if k == "s": ids[i] = M.statement(ids[ch[0]], s, ids[ch[1]])
            else: ids[i] = M.raw_compound(s, [ids[y] for y in ch])
        elif k == "a": ids[i] = M.atom(bytes.fromhex(s)) if s is not None else M.anon((anon_names or {}).get(x[HASH], x[HASH]))
        elif k == "v": ids[i] = M.var(s[0], s[1])
        elif k == "i": ids[i] = M.interval(s)
        elif k == "c": ids[i] = M.raw_compound(s, [])
        else: raise Bad("a node of kind %r" % k)
        stack.append(i)
    if len(stack) != 1: raise Bad("a dump of %d terms" % len(stack))
    d.nodes, d.ids, d.kids, d.root = nodes, ids, kids, ids[0]
    return d


def structure_problem(d):
    """A commutative compound whose components are not distinct."""
    for i, x in enumerate(d.nodes):
        if x[KIND] == "c" and x[SYM] in M.CON_COMM:
            ids = [d.ids[k] for k in d.kids[i]]
            if len(set(ids)) != len(ids): return "a component twice in %s" % M.show(d.ids[i])
    return None


def normal_problem(d):
    """A node that is not in normal form."""
    for i, x in enumerate(d.nodes):
        if x[KIND] == "c":
            if not d.kids[i]:
                if x[SYM] == M.PROD: continue  # the arguments of an operation that has none
                return "a compound without components"
            want = M.compound(x[SYM], [d.ids[k] for k in d.kids[i]])
            if want != d.ids[i]: return "%s is not in normal form: %s" % (M.show(d.ids[i]), M.show(want))
    return structure_problem(d)


def expected_flags(i, higher=None):
    k, data, ch = M.node(i)
    v = [k == "v" and data[0] == j for j in range(3)]
    h = M.has_vars(i)
    return [k == "v"] + v + [any(h)] + list(h) + [k == "i", M.is_operation(i), k == "s" and data in M.COP_HIGHER]


def attribute_problem(d):
    """A node whose derived attributes do not follow from its structure."""
    for x, t in zip(d.nodes, d.ids):
        w = attributes_of(x, t)
        if w: return w
    return None


def attributes_of(x, t):
    """The record x of a node against the term t it is of."""
    if x[CPLX] != M.complexity(t): return "complexity %d of %s, which has %d" % (x[CPLX], M.show(t), M.complexity(t))
    want, got = expected_flags(t), x[FLAGS]
    for j, w in enumerate(want):
        if (got[j] == "1") != bool(w): return "%s is %s for %s" % (FLAG_NAMES[j], got[j], M.show(t))
    if x[KIND] == "s" and x[COMM] != int(x[SYM] in M.COP_COMM): return "is_commutative is %d for %s" % (x[COMM], M.show(t))
    if x[KIND] == "c" and x[COMM] != (3 if x[SYM] in M.CON_COMM else 0): return "commutativity flags %d for %s" % (x[COMM], M.show(t))
    return None


def position_problem(d, root=True):
    """A variable table that does not list exactly the occurrences of the variables of its kind, each with its position."""
    n = len(d.nodes)
    tables = [None] * n
    for i in range(n - 1, -1, -1):
        x = d.nodes[i]
        own = [[], [], []]
        if x[KIND] == "v": own[x[SYM][0]].append(((), x[SYM][1]))
        for c, k in enumerate(d.kids[i]):
            for kind in range(3): own[kind].extend(((c,) + p, num) for p, num in tables[k][kind])
        tables[i] = own
        got = x[VARS]
        for kind in range(3):
            inds, poss = got[kind]
            if x[KIND] == "v":
                # a variable itself: its own number, at no position
                if kind == x[SYM][0]:
                    if inds != [x[SYM][1]] or [p for p in poss if p]: return "variable table %r of the variable %s" % (got[kind], M.show(d.ids[i]))
                elif inds or poss: return "variable table %r (kind %d) of the variable %s" % (got[kind], kind, M.show(d.ids[i]))
                continue
            if len(inds) != len(poss): return "variable table %r of %s" % (got[kind], M.show(d.ids[i]))
            have = sorted((tuple(p), num) for p, num in zip(poss, inds))
            want = sorted(own[kind])
            if have != want:
                return "variable table %s of %s lists %s instead of %s" % ("$#?"[kind], M.show(d.ids[i]), str(have)[:300], str(want)[:300])
    return None
