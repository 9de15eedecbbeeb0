"""Theorems with a derivation, and their variants (renaming, reordering, output options, schedules)."""
import gzip, json, os, random
from .build import VERIF
from .fol import *
from .gen import *
from .run import goeland
from .verdicts import SCHED

PATH = os.path.join(VERIF, "corpus", "theorems.jsonl.gz")
MODES = [(), (), ("-inner",), ("-preinner",), ("-flatten",), ("-completeness",), ("-completeness", "-inner"), ("-noeq",)]
OUTPUT = [(), (), ("-proof",), ("-chrono",), ("-proof", "-pretty"), ("-proof", "-chrono", "-context"), ("-otptp",), ("-orocq",), ("-osctptp", "-chrono"), ("-otptp", "-context")]

def load():
    with gzip.open(PATH, "rt") as f: return [json.loads(l) for l in f]

def rename(rng, fs):
    """a consistent renaming of function and predicate symbols and of bound variables"""
    fn, pr = {}, {}
    for f in fs: symbols(f, fn, pr)
    pool = ["k%d" % i for i in range(40)] + list("abcdefghuvwxyz") + ["aa", "p0", "skolem", "sko", "x1", "zz9", "'a b'", "p", "q", "r"]
    rng.shuffle(pool)
    m = {}
    for s in list(fn) + list(pr):
        if s not in m: m[s] = pool.pop()
    def tm(t, env): return V(env[t[1]]) if t[0] == 'v' else ('f', m[t[1]], tuple(tm(x, env) for x in t[2]))
    ctr = [0]
    def go(f, env, d=0):
        k = f[0]
        if k == 'pred': return ('pred', m[f[1]], tuple(tm(t, env) for t in f[2]))
        if k == 'eq': return Eq(tm(f[1], env), tm(f[2], env))
        if k in ('top', 'bot'): return f
        if k in ('all', 'ex'):
            env = dict(env)
            if style == 0: n = f[1]
            elif style == 1: ctr[0] += 1; n = "V%d" % ctr[0]
            else: n = "W%d" % d
            env[f[1]] = n
            return (k, n, go(f[2], env, d + 1))
        if k in ('and', 'or'): return (k, tuple(go(g, env, d) for g in f[1]))
        return (k,) + tuple(go(g, env, d) for g in f[1:])
    style = rng.randrange(3)
    return [go(f, {}) for f in fs]

def variant(rng, ax, cj, swap=True):
    ax = list(ax)
    if rng.random() < .7: 
        fs = rename(rng, ax + ([cj] if cj is not None else []))
        ax, cj = (fs[:-1], fs[-1]) if cj is not None else (fs, None)
    if swap and rng.random() < .5: rng.shuffle(ax)
    text = problem_text(ax, cj)
    if rng.random() < .4: text = text.replace("fof(a", "fof(name_").replace("fof(c,", "fof('the goal',")
    return text

# ---------------------------------------------------------------- checks
def tup(x): return tuple(tup(y) for y in x) if isinstance(x, list) else x

def certify(chk, items):
    """TLC replays the stored derivations: these problems are theorems"""
    cases = []
    for i, it in enumerate(items):
        c = dict(it["case"]); c["id"] = "d%d" % i; cases.append(c)
    for k in range(0, len(cases), 2500):
        r = chk.tlc("Tableau", cases[k:k + 2500])
        if r.rejects: raise RuntimeError("stored derivations rejected: %s" % list(r.rejects.items())[:3])

def prove(binary, path, opts, limit, env, first=5.0):
    """-> (final run, first answer was positive).  What a limit of its round left out is looked for with larger limits."""
    r = goeland(binary, path, tuple(opts) + ("-one_step", "-l", limit), timeout=first, env=env)
    ok = r["status"] in ("Theorem", "Unsatisfiable")
    if ok: return r, True
    for l, t in ((limit, 20), (str(int(limit) + 1), 20), (str(int(limit) + 3), 20)):
        q = goeland(binary, path, tuple(opts) + ("-one_step", "-l", l), timeout=t, env=env)
        if q["status"] in ("Theorem", "Unsatisfiable"): return q, False
        if q["status"]: r = q
    return r, False

def run_corpus(chk, binary, build, items, variants, max_s, kind, modes=MODES, outputs=((),), same=False):
    """every item in `variants` variants; -> Verdict cases, texts, stats"""
    from . import verdicts
    from .check import pmap
    base = chk.rng.randrange(1 << 30)
    def one(i):
        if chk.elapsed() > max_s: return None
        rng = random.Random(base + i); it = items[i]
        ax, cj = [tup(f) for f in it["ax"]], (tup(it["cj"]) if it["cj"] is not None else None)
        fs = ax + ([Not(cj)] if cj is not None else [])
        recs, texts, late = [], [], 0
        for k in range(variants):
            path = build.tmp("%s%d_%d.p" % (kind, i, k))
            text = problem_text(ax, cj) if (same and k == 0) else variant(rng, ax, cj)
            with open(path, "w") as f: f.write(text)
            opts = tuple(rng.choice(modes)) + tuple(rng.choice(outputs))
            r, first = prove(binary, path, opts, it["limit"], rng.choice(SCHED))
            late += not first
            recs.append(verdicts.record(r, opts + ("-one_step", "-l", it["limit"]), definite=True, must=True)); texts.append(text)
            os.remove(path)
        return verdicts.case("%s%d" % (kind, i), fs, cj is not None, recs, None, derived=True), "\n".join(texts), late
    texts, cases, late = {}, [], []
    for r in pmap(one, range(len(items))):
        if r is None: continue
        cases.append(r[0]); texts[r[0]["id"]] = r[1]
        if r[2]: late.append((r[0]["id"], r[1], r[0]["runs"]))
    st = {"problems": 0, "runs": 0, "answered": 0, "positive": 0, "late": len(late)}
    verdicts.judge(chk, cases, texts, st)
    return st, late

def variants_exact(chk, binary, build, gens, modes, target, per, max_s, max_atoms=8):
    """problems whose status TLC computes, each run in several variants"""
    from . import verdicts
    from .check import pmap
    base = chk.rng.randrange(1 << 30)
    def one(i):
        if chk.elapsed() > max_s: return None
        rng = random.Random(base + i)
        for _ in range(30):
            ax, cj = rng.choice(gens)(rng)
            fs = ax + ([Not(cj)] if cj is not None else [])
            if fs and verdicts.natoms(fs) <= max_atoms: break
        else: return None
        recs, texts = [], []
        for k in range(per):
            path = build.tmp("w%d_%d.p" % (i, k)); text = variant(rng, ax, cj) if k else problem_text(ax, cj)
            with open(path, "w") as f: f.write(text)
            opts = tuple(rng.choice(modes)) + tuple(rng.choice(OUTPUT)) + ("-one_step",); env = rng.choice(SCHED)
            r = goeland(binary, path, opts, timeout=8, env=env)
            if r["timeout"]: r = goeland(binary, path, opts, timeout=40, env=env)
            recs.append(verdicts.record(r, opts, definite=True, must=True)); texts.append(text)
            if not r["status"]: texts.append("% " + (r["err"] or r["out"])[-300:])
            os.remove(path)
        return verdicts.case("w%d" % i, fs, cj is not None, recs, None, exact=True), "\n".join(texts)
    texts, cases = {}, []
    for r in pmap(one, range(target)):
        if r is None: continue
        cases.append(r[0]); texts[r[0]["id"]] = r[1]
    st = {"problems": 0, "runs": 0, "answered": 0, "positive": 0}
    verdicts.judge(chk, cases, texts, st)
    return st
