"""C16: evidential bases merge without loss and detect overlap."""
from vlib.engine import Case


def ids(r, space):
    k = r.random()
    n = 0 if k < .05 else r.randint(1, 3) if k < .5 else r.randint(1, 12) if k < .9 else r.randint(10, 60)
    return sorted({r.choice(space) if r.random() < .9 else r.choice((0, 1, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**63, 2**64 - 1)) for _ in range(n)})


def program(r, st):
    """A history of bases: made, extended, merged, asked; each answer is compared with sets of integers."""
    k = r.random()
    space = range(8) if k < .3 else range(40) if k < .6 else range(1000) if k < .8 else [x * 2**32 + y for x in range(4) for y in range(3)]
    cap = r.choice((20000, 20000, 2, 3, 4, 5, 8, 16, 50))
    lines, checks, B, nxt = [], [], {}, 1


    def emit(fmt, *a):
        lines.append(fmt % a)
        return len(lines) - 1

    def new(v):
        nonlocal nxt
        k, nxt = nxt, nxt + 1
        B[k] = ("n", emit("eb new %d %d %s", k, len(v), " ".join(map(str, v))))
        checks.append(("set", B[k][1], v))
        return k
    emit("cfg maximum_evidential_base_length %d", cap)
    for _ in range(r.randint(2, 4)): new(ids(r, space))
    for _ in range(r.randint(3, 14)):
        k, b = r.random(), sorted(B)
        if k < .15: new(ids(r, space))
        elif k < .22:
            k, nxt = nxt, nxt + 1
            B[k] = 1
            checks.append(("auto", emit("eb auto %d", k), k))
        elif k < .35: x, e = r.choice(b), r.choice(list(space) + [2**64 - 1, 0]); checks.append(("add", emit("eb add %d %d", x, e), x, e))
        elif k < .55: x, y = r.choice(b), r.choice(b); checks.append(("ext", emit("eb ext %d %d", x, y), x, y))
        elif k < .75:
            x, y = r.choice(b), r.choice(b)
            k, nxt = nxt, nxt + 1
            B[k] = 1
            checks.append(("il", emit("eb il %d %d %d", k, x, y), k, x, y))
        elif k < .9: x, y = r.choice(b), r.choice(b); checks.append(("ov", emit("eb ov %d %d", x, y), x, y))
        elif k < .96:
            # through stamps, of which each has a base of its own
            x, y = r.choice(b), r.choice(b)
            emit("stamp 1 full 0 0 0 -1 1")
            n = emit("stampext 1 %d", y)
            checks.append(("stamp", n, y))
            if r.random() < .5:
                emit("stamp 2 occ 3")
                checks.append(("stamps", emit("stampsext 1 2")))
        else: checks.append(("get", emit("eb get %d", r.choice(b))))
        if r.random() < .3: x = r.choice(b); checks.append(("look", emit("eb get %d", x), x))
    for x in sorted(B): checks.append(("look", emit("eb get %d", x), x))
    for x in sorted(B): emit("eb drop %d", x)
    emit("cfg maximum_evidential_base_length 20000")
    st.obs["cap %s" % ("default" if cap == 20000 else "small")] += 1

    def merged(got, a, b, what):
        u = a | b
        st.obs["merges"] += 1
        if a & b: st.obs["merges of overlapping bases"] += 1
        if len(got) != len(set(got)): return "%s lists evidence twice: %s" % (what, got)
        got = set(got)
        if len(u) <= cap: return None if got == u else "%s of %s and %s is %s" % (what, sorted(a), sorted(b), sorted(got))
        st.obs["merges beyond the maximum"] += 1
        if not got <= u: return "%s of %s and %s invents evidence: %s" % (what, sorted(a), sorted(b), sorted(got))
        if len(got) > cap: return "%s of %s and %s has %d parts, more than %d" % (what, sorted(a), sorted(b), len(got), cap)
        if a and b and not (got & a and got & b): return "%s of %s and %s has no evidence of one of them: %s" % (what, sorted(a), sorted(b), sorted(got))
        return None

    def judge(ev):
        S, H, I = {}, {}, {}
        names = {}
        for n, k in ((v[1], k) for k, v in B.items() if isinstance(v, tuple)): names[n] = k

        def state(k, e):
            S[k] = set(e["set"])
            if e["size"] != len(S[k]): return "a base of %d says it has %d" % (len(S[k]), e["size"])
            key = tuple(sorted(S[k]))
            if H.setdefault(key, e["h"]) != e["h"]: return "two bases %s have hashes %d and %d" % (key, H[key], e["h"])
            I.setdefault(e["h"], key)
            st.obs["hashes" if I[e["h"]] == key else "coinciding hashes"] += 1
            return None
        for c in checks:
            e = ev[c[1]]
            w = None
            if c[0] == "set":
                k = names[c[1]]
                w = state(k, e)
                if S[k] != set(c[2]): w = "a base of %s is %s" % (c[2], e["set"])
            elif c[0] == "auto":
                w = state(c[2], e)
                if len(e["set"]) != 1: w = "a base of its own evidence is %s" % e["set"]
            elif c[0] == "add":
                want = S[c[2]] | {c[3]}
                w = state(c[2], e)
                if S[c[2]] != want: w = "adding %d gave %s" % (c[3], e["set"])
            elif c[0] == "ext":
                a, b = S[c[2]], S[c[3]]
                w = merged(e["set"], a, b, "the extension")
                if w is None and c[2] != c[3] and set(e["other"]) != b: w = "extending by %s changed it to %s" % (sorted(b), e["other"])
                w = w or state(c[2], e)
            elif c[0] == "il":
                _, _, k, x, y = c
                a, b = S[x], S[y]
                w = merged(e["set"], a, b, "the merge")
                if w is None and (set(e["one"]) != a or set(e["two"]) != b): w = "merging %s and %s changed them to %s and %s" % (sorted(a), sorted(b), e["one"], e["two"])
                w = w or state(k, e)
            elif c[0] == "ov":
                a, b = S[c[2]], S[c[3]]
                st.obs["overlaps" if a & b else "disjoint"] += 1
                if e["ov"] != [int(bool(a & b))] * 2: w = "%s and %s overlap: %s" % (sorted(a), sorted(b), e["ov"])
                elif set(e["one"]) != a or set(e["two"]) != b: w = "asking for overlap changed %s, %s to %s, %s" % (sorted(a), sorted(b), e["one"], e["two"])
            elif c[0] == "stamp":
                a, b = set(ev[c[1] - 1]["stamp"]["ev"]), S[c[2]]
                w = merged(e["stamp"]["ev"], a, b, "the stamp's base")
                if w is None and set(e["other"]) != b: w = "extending a stamp by %s changed it to %s" % (sorted(b), e["other"])
            elif c[0] == "stamps":
                a, b = set(ev[c[1] - 2]["stamp"]["ev"]), set(ev[c[1] - 1]["stamp"]["ev"])
                w = merged(e["stamp"]["ev"], a, b, "the stamp's base")
                if w is None and set(e["other"]) != b: w = "extending a stamp by another changed that to %s" % e["other"]
            elif c[0] == "look":
                was = S[c[2]]
                w = state(c[2], e)
                if S[c[2]] != was: w = "a base changed from %s to %s by itself" % (sorted(was), e["set"])
            if w: return "%s (maximum %d)" % (w, cap)
        if st.obs["coinciding hashes"] > 20 + st.obs["hashes"] * .05: return "%d of %d hashes of different bases coincide" % (st.obs["coinciding hashes"], st.obs["hashes"])
        return None
    return Case(lines, judge, key=tuple(lines), text="; ".join(lines[1:5])[:300])


def large(r, st):
    """Bases near and beyond the default maximum."""
    n, m = r.choice(((10000, 10000), (19999, 1), (20000, 1), (1, 20000), (20000, 20000), (10001, 10000), (5, 19994), (15000, 15000)))
    over = min(n, m, r.choice((0, 1, 50, 10**6)))
    a, b = range(0, n), range(n - over, n - over + m)
    lines = ["cfg maximum_evidential_base_length 20000", "eb new 1 %d %s" % (n, " ".join(map(str, a))), "eb new 2 %d %s" % (m, " ".join(map(str, b))), "eb il 3 1 2", "eb ov 1 2", "eb ext 1 2", "eb ext 3 2", "eb drop 1", "eb drop 2", "eb drop 3"]
    u = set(a) | set(b)

    def judge(ev):
        if ev[4]["ov"] != [int(bool(over))] * 2: return "overlap of %d: %s" % (over, ev[4]["ov"])
        for i in (3, 5):
            got = set(ev[i]["set"])
            if len(u) <= 20000:
                if got != u: return "merging %d and %d, %d of them shared, gave %d" % (n, m, over, len(got))
            elif len(got) > 20000 or not got <= u or not got & set(a) or not got & set(b): return "merging %d and %d, %d of them shared, gave %d, of which %d and %d from either" % (n, m, over, len(got), len(got & set(a)), len(got & set(b)))
        return None
    st.obs["large merges"] += 1
    return Case(lines, judge, key=(n, m, over), text="merge of %d and %d, %d shared" % (n, m, over))


def run(ctx):
    ctx.rule = "histories of operations on evidential bases (and the stamps that hold them) under maxima from 2 to 20000, compared step by step with sets of integers. Distinct histories are counted."
    ctx.assumptions = ["which part of a union beyond the maximum is kept is not prescribed, but for evidence of both"]
    ctx.batches(program, ctx.n(8000, 300000), 400)
    ctx.batches(large, ctx.n(48, 400), 6)
