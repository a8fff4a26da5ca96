"""A small LALR(1) generator (LR(1) kernels with merged look-aheads), written for the reference parser.

Conflicts: shift wins over reduce, the earlier production wins over the later one. Each state's most
frequent reduction becomes its default. `valid` holds, per state, the terminals valid at that point (all look-aheads); the kernels' items (production, dot) come last.
"""
from collections import Counter, defaultdict


class Grammar:
    def __init__(self, start):
        self.start, self.prods, self.by_lhs = start, [], defaultdict(list)

    def add(self, lhs, rhs, act=None):
        self.by_lhs[lhs].append(len(self.prods))
        self.prods.append((lhs, tuple(rhs), act))
        return lhs

    def build(self):
        prods, nts = self.prods, set(self.by_lhs)
        nullable, changed = set(), True
        while changed:
            changed = False
            for l, r, _ in prods:
                if l not in nullable and all(x in nullable for x in r):
                    nullable.add(l); changed = True
        first = defaultdict(set)
        changed = True
        while changed:
            changed = False
            for l, r, _ in prods:
                n = len(first[l])
                for x in r:
                    first[l] |= first[x] if x in nts else {x}
                    if x not in nullable: break
                changed |= len(first[l]) != n

        def first_of(seq, la):
            out = set()
            for x in seq:
                out |= first[x] if x in nts else {x}
                if x not in nullable: return out
            return out | la

        def closure(kernel):  # {(prod, dot): la set} -> the same, closed
            items = {k: set(v) for k, v in kernel.items()}
            work = list(items)
            while work:
                p, d = work.pop()
                r = prods[p][1]
                if d < len(r) and r[d] in nts:
                    la = first_of(r[d + 1:], items[(p, d)])
                    for q in self.by_lhs[r[d]]:
                        cur = items.get((q, 0))
                        if cur is None: items[(q, 0)] = set(la); work.append((q, 0))
                        elif not la <= cur: cur |= la; work.append((q, 0))
            return items

        k0 = {(self.by_lhs[self.start][0], 0): {"$end"}}
        kernels, index, goto = [k0], {frozenset(k0): 0}, [{}]
        work = [0]
        while work:
            s = work.pop()
            nxt = defaultdict(dict)
            for (p, d), la in closure(kernels[s]).items():
                r = prods[p][1]
                if d < len(r): nxt[r[d]].setdefault((p, d + 1), set()).update(la)
            for x, k in nxt.items():
                f = frozenset(k)
                t = index.get(f)
                if t is None:
                    t = index[f] = len(kernels)
                    kernels.append(k); goto.append({}); work.append(t)
                else:
                    more = False
                    for it, la in k.items():
                        if not la <= kernels[t][it]: kernels[t][it] |= la; more = True
                    if more and t not in work: work.append(t)
                goto[s][x] = t
        actions, defaults, gotos, conflicts, valid = [], [], [], [], []
        for s, k in enumerate(kernels):
            act = {x: ("s", t) for x, t in goto[s].items() if x not in nts}
            reds = sorted((p, la) for (p, d), la in closure(k).items() if d == len(prods[p][1]))
            for p, la in reds:
                for x in la:
                    if x in act: conflicts.append((s, x, act[x], p))
                    else: act[x] = ("r", p)
            valid.append(set(act))
            cnt = Counter(a[1] for a in act.values() if a[0] == "r")
            default = -1
            if cnt:
                default = max(cnt, key=lambda p: (cnt[p], -p))
                act = {x: a for x, a in act.items() if a != ("r", default)}
            actions.append(act); defaults.append(default)
            gotos.append({x: t for x, t in goto[s].items() if x in nts})
        return actions, defaults, gotos, conflicts, valid, [sorted(k) for k in kernels]
