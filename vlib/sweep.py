"""Texts that visit every state of the (reference) grammar's automaton with every character at every point of every token that may stand there."""
from collections import deque
from . import refparser as R

LEXEMES = {"@string": [b'"a b"', b'"a\\"b"'], "@string_raw": [b"a", b"Z'0_"], "@integer": [b"5", b"-17"], "@priority": [b"0.5", b"1.0", b".25"], "@quality": [b"0.5", b"1."],
           "@frequency": [b"0.5", b"1.00", b".75"], "@durability": [b"0.5", b".05"], "@confidence": [b"0.5", b"0.09"], "@k_evidence": [b"3", b"20"], "@ws": [b" ", b"\t"]}
CHARS = [bytes([c]) for c in (1, 8, 9, 10, 11, 31, 32, 127, 128, 160, 255)] + [bytes([c]) for c in range(33, 127) if chr(c) in "AMZ_amz01589'" or not chr(c).isalnum()]


def lexemes(t): return LEXEMES.get(t) or [t.encode()]


def _minimal():
    best = {}
    changed = True
    while changed:
        changed = False
        for l, r, _ in R.PRODS:
            y = [best.get(x) if x in R.GRAMMAR.by_lhs else [x] for x in r]
            if None in y: continue
            y = [t for z in y for t in z if t != "$eof"]
            if l not in best or len(y) < len(best[l]): best[l] = y; changed = True
    return best


MINIMAL = _minimal()


def advance(stack, t):
    """The stack of states once token t is shifted; None if it cannot be."""
    stack = list(stack)
    while True:
        a = R.ACTIONS[stack[-1]].get(t)
        if a is None:
            d = R.DEFAULTS[stack[-1]]
            if d < 0: return None
            a = ("r", d)
        if a[0] == "s": return tuple(stack) + (a[1],)
        lhs, rhs, _ = R.PRODS[a[1]]
        if rhs: del stack[-len(rhs):]
        stack.append(R.GOTOS[stack[-1]][lhs])


def completion(stack):
    """Tokens that complete what the stack has begun."""
    stack, out = list(stack), []
    for _ in range(400):
        items = []
        for p, d in R.KERNELS[stack[-1]]:
            rhs = R.PRODS[p][1]
            y = [t for x in rhs[d:] for t in (MINIMAL[x] if x in R.GRAMMAR.by_lhs else [x])]
            items.append((len(y), p, d, y))
        _, p, d, y = min(items)
        lhs = R.PRODS[p][0]
        out += y
        if lhs in ("start", "goal'"): break
        if d: del stack[-d:]
        stack.append(R.GOTOS[stack[-1]][lhs])
    return b"".join(lexemes(t)[0] for t in out if t != "$eof")


def prefixes(depth=2):
    """(stack, text): the shortest way to each combination of the `depth` topmost states in which a token is looked for."""
    seen, todo = {}, deque([((0,), b"")])
    while todo:
        st, text = todo.popleft()
        key = st[-depth:]
        if key in seen: continue
        seen[key] = (st, text)
        for t in sorted(R.VALID[st[-1]]):
            if t == "$eof": continue
            n = advance(st, t)
            if n is None or len(n) > 40 or n[-depth:] in seen: continue
            x = lexemes(t)[0]
            sym, j = R.scan(st[-1], text + x, len(text))
            if sym == t and j == len(text + x): todo.append((n, text + x))
    return list(seen.values())


def texts(st, text, r=None, keep=1, keep_good=1):
    """All the texts of one prefix, or a sample of them: some of the ones that end nowhere, more of the ones that go on."""
    out = {text: 1, text + completion(st): 1}
    for t in sorted(R.VALID[st[-1]]):
        if t == "$eof": continue
        n = advance(st, t)
        for x in lexemes(t):
            if n is not None: out[text + x + completion(n)] = 1
            for i in range(len(x) + 1):
                for c in CHARS:
                    w = text + x[:i] + c
                    if w in out: continue
                    s, j = st, len(text)
                    while j < len(w):
                        sym, k = R.scan(s[-1], w, j)
                        m = advance(s, sym) if sym else None
                        if m is None or k == j: break
                        s, j = m, k
                    if j < len(w):
                        if r is None or r.random() < keep: out[w] = 1
                    elif r is None or r.random() < keep_good: out[w + completion(s)] = 1
    return list(out)
