"""Runs cases (script lines + an oracle over their recorded events), in batches, on all cores; collects verdicts and evidence.

Verdicts are three-valued: violated (with the script that replays it), held on what was observed, inconclusive (a run that
had to be stopped; it is repeated alone with a longer limit before a hang is reported).
"""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback
from collections import Counter
from . import build, run, model as M, trace as T

VERIF = build.VERIF


class Case:
    """lines: commands; judge(events): None or what is wrong (a string, or (key, string)); key: identity for counting distinct
    cases (None: not counted); text: written out for the evidence; exc_ok: events may report exceptions."""
    __slots__ = ("lines", "judge", "key", "text", "exc_ok")

    def __init__(self, lines, judge, key=None, text="", exc_ok=False):
        self.lines, self.judge, self.key, self.text, self.exc_ok = lines, judge, key, text, exc_ok


class Stats:
    def __init__(self):
        self.n, self.keys, self.samples, self.viols, self.obs, self.inconclusive = 0, set(), [], [], Counter(), 0

    def add(self, o):
        self.n += o.n
        self.keys |= o.keys
        self.samples = (self.samples + o.samples)[:200]
        self.viols += o.viols
        self.obs.update(o.obs)
        self.inconclusive += o.inconclusive

    def key(self, *parts):
        self.keys.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())


def violation(key, message, config, script, env=None, note=""):
    return {"key": key, "message": message[:2000], "config": config, "script": script, "env": env or {}, "note": note}


def run_cases(stats, config, binary, cases, prologue=(), epilogue=(), end_judge=None, timeout=200, stack_mb=512, leaks=False, env=None,
              max_viol=5, fill=190, isolate=True):
    """Runs the cases in one process (more if one of them ends it) and judges them."""
    prologue, epilogue = list(prologue), list(epilogue)
    san = config == "asan"
    todo = list(cases)
    nviol = 0
    while todo:
        lines, starts = list(prologue), []
        for c in todo:
            starts.append(len(lines))
            lines += c.lines
        body = len(lines)
        lines += epilogue
        r = run.execute(binary, lines, timeout=timeout, san=san, leaks=leaks, stack_mb=stack_mb, env=env, fill=fill)
        done = len(r.events)
        stopped = None
        for n, c in enumerate(todo):
            lo, hi = starts[n], starts[n] + len(c.lines)
            if done < hi:
                stopped = n
                break
            if len(r.events) < hi: break
            v = _judge(c, r.events[lo:hi])
            stats.n += 1
            if c.key is not None: stats.key(c.key)
            if v:
                nviol += 1
                if len(stats.viols) < max_viol: stats.viols.append(violation(v[0], v[1], config, _shrink(binary, prologue, c, lines[:hi], v, san, stack_mb, env, fill) if isolate else lines[:hi], env))
        if stopped is None:
            if r.timeout or r.dead:
                what = "the run did not end" if r.timeout else r.dead
                stats.viols.append(violation("exit", "after %d commands, at the end of the run: %s\n%s" % (len(lines), what, r.report[:1500]), config, lines, env))
            elif end_judge is not None and epilogue:
                v = end_judge(r.events[body:])
                if v: stats.viols.append(violation("end", v, config, lines, env))
            return
        c = todo[stopped]
        if r.timeout:
            stats.inconclusive += 1
            alone = run.execute(binary, prologue + c.lines, timeout=max(90, timeout), san=san, stack_mb=stack_mb, env=env, fill=fill)
            if alone.timeout:
                stats.viols.append(violation("hang", "no answer in %d s, twice: %s" % (max(90, timeout), c.text[:600]), config, prologue + c.lines, env))
                nviol += 1
            elif stopped == 0 and len(todo) > 1: pass
            # otherwise slow only as part of a batch: go on with smaller ones
            if not alone.timeout and alone.dead is None:
                v = _judge(c, alone.events[len(prologue):])
                stats.n += 1
                if v: stats.viols.append(violation(v[0], v[1], config, prologue + c.lines, env))
        elif r.dead:
            upto = lines[:done + 1]
            alone = run.execute(binary, prologue + c.lines, timeout=timeout, san=san, stack_mb=stack_mb, env=env, fill=fill)
            if alone.dead and len(alone.events) < len(prologue) + len(c.lines): upto = prologue + c.lines
            stats.n += 1
            nviol += 1
            if len(stats.viols) < max_viol:
                stats.viols.append(violation("crash", "%s: %s\n%s" % (r.dead, c.text[:600], r.report[:1500]), config, upto, env))
        else:
            raise RuntimeError("the driver stopped early without a reason")
        if nviol > 20: return  # enough to report
        todo = todo[stopped + 1:]


def _judge(c, events):
    if not c.exc_ok:
        for e in events:
            if "exc" in e: return ("exception", "threw %r: %s" % (bytes.fromhex(e["exc"]), c.text[:600]))
            if "unknown" in e: raise RuntimeError("unknown command %r" % e)
    try: v = c.judge(events)
    except (T.Bad, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
        tb = traceback.format_exc(limit=-3)
        return ("record", "the record of this case is not one of a valid object (%s): %s\n%s" % (x, c.text[:400], tb))
    if v and isinstance(v, str): v = ("oracle", v)
    return v


def _shrink(binary, prologue, c, upto, v, san, stack_mb, env, fill):
    """The case alone, if that shows the violation too; all the commands before it otherwise."""
    try:
        r = run.execute(binary, prologue + c.lines, timeout=60, san=san, stack_mb=stack_mb, env=env, fill=fill)
        if len(r.events) >= len(prologue) + len(c.lines) and _judge(c, r.events[len(prologue):len(prologue) + len(c.lines)]): return prologue + c.lines
    except Exception: pass
    return upto


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.stats = Stats()
        self.extra = {}
        self.rule = ""
        self.assumptions = []
        self.binaries = {}

    def n(self, quick, thorough=None):
        if self.tier == "quick": return quick
        return thorough if thorough is not None else quick * 15

    def driver(self, config):
        if config not in self.binaries: self.binaries[config] = build.driver(config)
        return self.binaries[config]

    def rng(self, *parts): return random.Random(repr((self.pid, self.seed) + parts))

    def map(self, fn, jobs, workers=None):
        """fn(ctx, job) -> Stats, in forked processes; the results are added up."""
        jobs = list(jobs)
        global _FN
        _FN = (self, fn)
        with mp.get_context("fork").Pool(min(len(jobs), workers or os.cpu_count() or 4) or 1, maxtasksperchild=4) as pool:
            for st in pool.imap_unordered(_call, jobs):
                if isinstance(st, str): raise RuntimeError(st)
                self.stats.add(st)

    def batches(self, make, total, size=400, config="asan", **kw):
        """make(rng, stats) -> Case, `total` of them in batches of `size`, each batch in a process of its own."""
        self.driver(config)
        jobs = [(i, min(size, total - i * size)) for i in range((total + size - 1) // size)]

        def one(ctx, job):
            i, n = job
            r = ctx.rng(make.__name__, config, i)
            M.reset()
            st = Stats()
            cases = [make(r, st) for _ in range(n)]
            cases = [c for c in cases if c is not None]
            if cases and i < 3: st.samples += [c.text[:300] for c in cases[:3]]
            run_cases(st, config, ctx.driver(config), cases, **kw)
            return st
        self.map(one, jobs)


def _call(job):
    try:
        ctx, fn = _FN
        return fn(ctx, job)
    except Exception:
        return traceback.format_exc()


# ---------------------------------------------------------------- reporting
def load_known():
    known = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for ln in f:
            if ln.startswith("known:"):
                d = dict(x.split("=", 1) for x in ln.split()[1:3])
                known.append((d["property"], d["key"], ln.split(None, 3)[3].strip()))
    return known


def finish(ctx, level="exploration"):
    st = ctx.stats
    known = [(k, what) for p, k, what in load_known() if p == ctx.pid]
    news, seen = [], set()
    for v in st.viols:
        hit = next((kw for kw in known if kw[0] == v["key"]), None)
        if hit: seen.add(hit)
        else: news.append(v)
    for k, what in sorted(seen): print("KNOWN-FINDING: property=%s %s (%s)" % (ctx.pid, what, k))
    rep = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(ctx.pid + "-"): os.remove(os.path.join(rep, f))
    for n, v in enumerate(news[:10]):
        path = os.path.join(rep, "%s-%d.json" % (ctx.pid, n + 1))
        with open(path, "w") as f: json.dump(dict(v, property=ctx.pid, seed=ctx.seed, tier=ctx.tier), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (ctx.pid, os.path.relpath(path, VERIF)))
        print("  [%s] %s" % (v["key"], v["message"].replace("\n", "\n    ")[:1200]))
    samples, sset = [], set()
    for s in st.samples:
        if s and s not in sset and len(samples) < 12: samples.append(s); sset.add(s)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": dict({"evaluations": st.n, "distinct_nontrivial": len(st.keys), "rule": ctx.rule, "samples": samples,
                            "observed": {k: v for k, v in sorted(st.obs.items())}, "inconclusive": st.inconclusive,
                            "builds": sorted(ctx.binaries)}, **ctx.extra),
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(news)}
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s" % (ctx.pid, ctx.tier, ctx.seed, st.n, len(st.keys), len(news), ev["wall_s"]))
    if news: return 1
    if not st.n or not st.keys:
        print("nothing observed", file=sys.stderr)
        return 3
    return 0
