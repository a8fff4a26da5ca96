"""C20: the same operations give the same results in every build, with any memory contents and any layout of the heap."""
import functools, importlib, re
from vlib import build, gen, model as M, run as X, trace as T
from vlib.engine import Stats, violation
from vlib.run import hx

# what depends on addresses by design: hashes of atoms (and so of all terms), the order that follows from them, sizes of objects
DROP = {"hash", "h", "h2", "h3", "addr", "bytes", "blocks", "lt", "cmp", "total"}
ORDER = {"s", "c", "repr", "term_s", "term_c", "sent_s", "sent_c", "task_s", "task_c", "one", "two", "again", "plus", "minus"}
SKIP = {"rtterm", "rt", "norm", "leak", "mem", "comp"}  # where the order of components decides (numbering of variables), and memory use
ADDRESS = re.compile(rb"0x[0-9a-f]+|(?<= at )[0-9a-f]{6,}")

MAKERS = [("c05", "history"), ("c05", "words_and_operations"), ("c06", "case_recipe"), ("c06", "case_order"), ("c06", "case_text"), ("c07", "built"), ("c08", "built"),
          ("c09", "matrices"), ("c09", "collections"), ("c09", "parsed"), ("c10", "equal"), ("c10", "distinct"), ("c10", "parsed"), ("c10", "intervals"), ("c11", "constructed"), ("c11", "parsed"),
          ("c12", "parsed"), ("c12", "identity"), ("c12", "constructed"), ("c12", "alone"), ("c13", "copies"), ("c14", "configured"), ("c14", "general"),
          ("c14", "given"), ("c15", "history"), ("c15", "given"), ("c15", "printed"), ("c16", "program"), ("c17", "revision"), ("c17", "syllogism"), ("c17", "mapping"), ("c17", "setw"),
          ("c17", "boolean"), ("c17", "projection"), ("c04", "case"), ("c02", "conserve"), (None, "texts")]


def is_dump(v): return isinstance(v, list) and v and isinstance(v[0], list) and len(v[0]) in (8, 9) and isinstance(v[0][0], str) and v[0][0] in "avisc"


def dump(v):
    """A dumped term up to the order of commutative components."""
    d = T.read([x[:T.HASH] + [0] + x[T.HASH + 1:] for x in v], anon_names={0: "anon"})
    nodes = []
    for i, x in enumerate(d.nodes):
        tabs = [[sorted(t[0]) if t[0] else [], len(t[1])] for t in x[T.VARS]] if len(x) > T.VARS and x[T.VARS] else None
        nodes.append((d.ids[i], x[T.FLAGS], x[T.CPLX], x[T.COMM], repr(tabs)))
    return [d.root, sorted(nodes, key=repr)]


def chars(h): return bytes(sorted(ADDRESS.sub(b"0x", bytes.fromhex(h))))


def canon(e, key=None):
    if isinstance(e, dict): return {k: canon(v, k) for k, v in e.items() if k not in DROP}
    if is_dump(e): return dump(e)
    if key == "names": e = sorted(([x[0]] + x[2:4] for x in e), key=repr)  # how many handles depends on which of equal components stays
    if isinstance(e, list): return [canon(x) for x in e]
    if isinstance(e, float): return float("%.5g" % e)
    if isinstance(e, int) and abs(e) >= 1 << 40: return "address or hash"
    if isinstance(e, str) and re.fullmatch(r"([0-9a-f]{2})+", e): return chars(e)
    return e


def same(a, b):
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return abs(a - b) <= 1e-4 * max(1, abs(a))
        return False
    if isinstance(a, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list): return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float): return abs(a - b) <= 1e-4 * max(1, abs(a), abs(b))
    return a == b


def collect(r, job, corp):
    mod, name = MAKERS[job % len(MAKERS)]
    st = Stats()
    cases = []
    if mod is None:
        g = gen.Gen(r, odd=.06, wide=.04)
        for _ in range(250):
            t = gen.text(r, g, corp)
            if len(t) > 20000: continue
            cases.append((["q -1 vp " + hx(t)], t.decode("latin1")[:300]))
            if r.random() < .05: cases.append((["newparser 3", "q 3 dp " + hx(t), "q -1 dp " + hx(t), "delparser 3"], t.decode("latin1")[:300]))
    else:
        m = importlib.import_module("checks." + mod)
        fn = getattr(m, name)
        args = (corp,) if fn.__code__.co_argcount == 3 and not fn.__defaults__ else ()
        for _ in range(60 if mod not in ("c17", "c14") else 150):
            c = fn(r, st, *args)
            if c is not None and not any(x.startswith("comp ") for x in c.lines): cases.append((c.lines, c.text))
    return "%s.%s" % (mod, name), cases


# heap layouts and contents (glibc's own switches)
HEAPS = [{}, {"MALLOC_PERTURB_": "85"}, {"MALLOC_PERTURB_": "255", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}, {"MALLOC_PERTURB_": "1", "GLIBC_TUNABLES": "glibc.malloc.mxfast=0:glibc.malloc.tcache_count=2"},
         {"MALLOC_PERTURB_": "170", "GLIBC_TUNABLES": "glibc.malloc.mmap_threshold=4096"}, {"MALLOC_PERTURB_": "128", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.top_pad=1"}]


# locales that differ in the decimal separator, the grouping of digits, the case of letters or the encoding of characters
LOCALES = ["de_DE.UTF-8", "ps_AF.UTF-8", "tr_TR.ISO-8859-9", "zh_CN.GB18030"]


def compare(st, name, cases, config, variant, lines, base, got):
    if got.dead or got.timeout:
        at = min(len(got.events), len(lines) - 1)
        st.viols.append(violation("crash", "with %s %s the run ends after %d commands, without it does not: %s\n%s" % (variant[0], variant[1], at, got.dead or "time limit", got.report[:1200]),
                                  variant[0], lines[:at + 1], variant[1]))
        return
    n = 0
    for ls, text in cases:
        for k in range(len(ls)):
            if ls[k].split(" ", 1)[0] in SKIP: continue
            a, b = base[n + k], got.events[n + k]
            if a == b: continue
            x, y = canon(a), canon(b)
            st.obs["records compared up to the order of components"] += 1
            if not same(x, y):
                diff = next((q for q in x if not isinstance(y, dict) or q not in y or not same(x[q], y[q])), "?") if isinstance(x, dict) else "?"
                st.viols.append(violation("differs", "%s: %s\n%r is, with %s: %s\nwith %s %s: %s" % (name, text[:300], ls[k][:200], config, str(a.get(diff, a))[:400], variant[0], variant[1], str(b.get(diff, b))[:400]),
                                          variant[0], ls[:k + 1], variant[1]))
                return
        n += len(ls)


def run(ctx):
    quick = ctx.tier == "quick"
    configs = ["g2", "g0", "cpat"] if quick else ["g2", "g0", "g3", "c0", "c3", "cpat", "czero", "gchar"]
    ctx.rule = "a program of operations run in every build and memory layout, its records compared; distinct by program"
    ctx.assumptions = ["hashes of atoms are made of addresses, so hash values and the order of commutative components are compared by C09 and C10, not across runs", "one machine, one C++ library (libstdc++ 13)"]
    ctx.binaries.update(build.drivers(configs))
    locdir, locs = build.locales(LOCALES)
    ctx.assumptions.append("locales: %s" % (", ".join(locs) or "none but C and C.UTF-8, localedef is missing"))
    corp = gen.corpus()

    def one(c, job):
        r = c.rng("programs", job)
        M.reset()
        st = Stats()
        name, cases = collect(r, job, corp)
        lines = [x for ls, _ in cases for x in ls]
        if not lines: return st
        if job < 6: st.samples.append("%s: %s" % (name, cases[0][1][:200]))
        base = X.execute(c.driver("g2"), lines, san=False, env=HEAPS[0])
        if base.dead or base.timeout:
            at = min(len(base.events), len(lines) - 1)
            st.viols.append(violation("crash", "%s: the run ends after %d commands: %s" % (name, at, base.dead or "time limit"), "g2", lines[:at + 1]))
            return st
        variants = [(cfg, r.choice(HEAPS)) for cfg in configs[1:]] + [("g2", r.choice(HEAPS[1:])), (r.choice(configs[1:]), {"LC_ALL": "C.UTF-8", "MALLOC_PERTURB_": str(r.randint(1, 255))})]
        if locs: variants.append((r.choice(configs), {"LOCPATH": locdir, "VERIF_LOCALE": r.choice(locs)}))
        for v in variants:
            if "VERIF_LOCALE" in v[1]: st.obs["runs in the locale " + v[1]["VERIF_LOCALE"]] += 1
            got = X.execute(c.driver(v[0]), lines, san=False, env=v[1], stack_mb=r.choice((64, 512)))
            compare(st, name, cases, "g2", v, lines, base.events, got)
            st.obs["runs compared"] += 1
            st.obs["records"] += len(got.events)
            st.obs["runs in " + v[0]] += 1
            st.n += len(cases)
            if st.viols: return st
        for ls, t in cases: st.key(ls)
        return st
    ctx.map(one, range(len(MAKERS) * ctx.n(3, 60)))

    # values of uninitialised memory that reach a decision, an address or an output
    def memcheck(c, job):
        r = c.rng("memcheck", job)
        M.reset()
        st = Stats()
        name, cases = collect(r, job, corp)
        cases = [x for x in cases if sum(map(len, x[0])) < 4000][:c.n(10, 60) if name != "None.texts" else c.n(25, 150)]
        lines = [x for ls, _ in cases for x in ls]
        if not lines: return st
        v = X.execute(c.driver("g0"), lines, san=False, stack_mb=64, timeout=600,
                      wrap=("valgrind", "--quiet", "--vgdb=no", "--error-exitcode=87", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--track-origins=no", "--leak-check=no", "--num-callers=20",
                            "--partial-loads-ok=yes", "--main-stacksize=33554432", "--malloc-fill=0x55", "--free-fill=0xAA"))
        st.obs["runs under memcheck"] += 1
        st.obs["records under memcheck"] += len(v.events)
        st.n += len(cases)
        if v.timeout: st.inconclusive += 1
        elif v.dead:
            at = min(len(v.events), len(lines) - 1)
            st.viols.append(violation("memcheck", "%s: at command %r: %s" % (name, lines[at][:200], v.report[:1500] or v.dead), "g0", lines[:at + 1]))
        return st
    ctx.map(memcheck, range(len(MAKERS) * ctx.n(1, 10)))
