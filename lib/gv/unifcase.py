"""Behaviours of the unification engine and the literal index, for Unif.tla."""
import itertools, random
from .intern import Tables
from .build import drive

M = lambda n: {"k": "m", "n": n, "a": []}
def Fn(n, *a): return {"k": "f", "n": n, "a": list(a)}
def key(t): return (t["k"], t["n"], tuple(key(x) for x in t.get("a") or []))
def norm(t): return {"k": t["k"], "n": t["n"], "i": 0, "a": [norm(x) for x in t.get("a") or []]}
def show(t): return t["n"] + ("(" + ",".join(show(x) for x in t["a"]) + ")" if t.get("a") else "")
def metas(t): return {t["n"]} if t["k"] == "m" else set().union(*[metas(x) for x in t["a"]]) if t["a"] else set()

def rterm(rng, ms, d, pm=.5):
    if d == 0 or rng.random() < .35:
        return M(rng.choice(ms)) if rng.random() < pm else Fn(rng.choice("abc"))
    if rng.random() < .55: return Fn("f", rterm(rng, ms, d - 1, pm))
    return Fn("g", rterm(rng, ms, d - 1, pm), rterm(rng, ms, d - 1, pm))

ARITY = {"p": 1, "q": 2, "r": 3, "s": 0}
def ratom(rng, ms, d, preds="ppqqqrs"):
    p = rng.choice(preds)
    return Fn(p, *[rterm(rng, ms, d) for _ in range(ARITY[p])])

def subst(t, th):
    if t["k"] == "m": return th.get(t["n"], t)
    return Fn(t["n"], *[subst(x, th) for x in t["a"]])

def vary(rng, t, ms):
    """an atom close to t: metavariables renamed, instantiated, subterms generalised or replaced"""
    th = {m: (M(rng.choice(ms)) if rng.random() < .6 else rterm(rng, ms, 2)) for m in metas(t) if rng.random() < .6}
    t = subst(t, th)
    def go(u):
        x = rng.random()
        if x < .12: return M(rng.choice(ms))
        if x < .17: return rterm(rng, ms, 2)
        return u if u["k"] == "m" else Fn(u["n"], *[go(v) for v in u["a"]])
    return Fn(t["n"], *[go(x) for x in t["a"]])

def small_terms(size, ms="XY", consts="a"):
    """all terms of at most that many symbols over metas, constants, f/1, g/2"""
    by = {1: [M(m) for m in ms] + [Fn(c) for c in consts]}
    for n in range(2, size + 1):
        by[n] = [Fn("f", t) for t in by[n - 1]] + [Fn("g", x, y) for i in range(1, n - 1) for x in by[i] for y in by[n - 1 - i]]
    return [t for n in sorted(by) for t in by[n]]

def atomform(a, neg=False):
    f = {"k": "pred", "n": a["n"], "a": a["a"]}
    return {"k": "not", "s": [f]} if neg else f

def formatom(f):
    return f["a"][0] if f["n"] == "$term" else Fn(f["n"], *f["a"])

def index_history(rng, ops, copies, terms=False):
    """a list of (spec-level) operations on trees"""
    ms = ["X%d" % i for i in range(rng.choice([1, 2, 3, 4, 5]))]
    d = rng.choice([0, 1, 1, 2, 2, 3])
    pool, seq, trees = [], [], []
    preds = rng.choice(["pq", "q", "r", "pqrs", "qr"])
    crowd = not terms and rng.random() < .25      # leaves holding many variants of few literals, copied and extended
    if crowd:
        ms = ["X%d" % i for i in range(9)]
        heads = [(rng.choice(preds), rng.random() < .5) for _ in range(rng.choice([1, 1, 2]))]
        copies = .25
    def fresh():
        if crowd:
            n, two = rng.choice(heads)
            ar = {"p": 1, "q": 2, "r": 3, "s": 0}[n]
            a = Fn(n, *[M(rng.choice(ms if i == 0 or two else ms[:2])) for i in range(ar)])
            pool.append(a)
            return a
        if pool and rng.random() < .6: a = vary(rng, rng.choice(pool), ms)
        elif terms: a = rterm(rng, ms, d + 1)
        else: a = ratom(rng, ms, d, preds)
        pool.append(a)
        return a
    def lits(n): return [(fresh(), rng.random() < .3) for _ in range(n)]
    if terms:
        seq.append({"op": "mk", "t": 0, "fs": [(a, False) for a, _ in lits(rng.randint(1, 8))], "pos": True})
    elif rng.random() < .5: seq.append({"op": "mk", "t": 0, "fs": lits(rng.randint(0, 8)), "pos": rng.random() < .7})
    else: seq.append({"op": "new", "t": 0})
    trees = [0]
    for _ in range(ops):
        x = rng.random()
        if x < (.45 if crowd else .25) and not terms: seq.append({"op": "ins", "t": rng.choice(trees), "fs": lits(rng.randint(1, 4))})
        elif x < (.45 if crowd else .25) + copies:
            t = rng.choice(trees); u = len(trees)
            trees.append(u); seq.append({"op": "copy", "t": t, "u": u})
        else:
            q = vary(rng, rng.choice(pool), ms) if pool and rng.random() < .85 else ((rterm(rng, ms, d + 1) if terms else ratom(rng, ms, d, preds)))
            if terms and q["k"] == "m": q = Fn("f", q)      # a tree of terms is only searched for terms with a head symbol
            seq.append({"op": "look", "t": rng.choice(trees), "q": q})
    if crowd:
        n = heads[0][0]
        for u in trees: seq.append({"op": "look", "t": u, "q": Fn(n, *[Fn("abc"[i]) for i in range(ARITY[n])])})
    return seq, terms

def mgu(eqs, rng=None):
    """a solved form of the equations, or None (used to generate inputs only; the answers are judged by Unif.tla)"""
    th, todo = {}, list(eqs)
    def occ(m, t): return m in metas(t)
    while todo:
        a, b = (subst(x, th) for x in todo.pop())
        if key(a) == key(b): continue
        if rng and rng.random() < .5: a, b = b, a
        if a["k"] != "m": a, b = b, a
        if a["k"] != "m":
            if a["n"] != b["n"] or len(a["a"]) != len(b["a"]): return None
            todo += list(zip(a["a"], b["a"]))
            continue
        if occ(a["n"], b): return None
        th = {m: subst(t, {a["n"]: b}) for m, t in th.items()}
        th[a["n"]] = b
    out = [[M(m), t] for m, t in th.items()]
    if rng: rng.shuffle(out)
    return out

def rsub(rng, ms, d):
    """a random substitution in solved form"""
    while True:
        r = mgu([(M(rng.choice(ms)), rterm(rng, ms, d)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))], rng)
        if r is not None: return r

def solve_history(rng, n):
    """unification of terms under a substitution, merging and restriction of substitutions"""
    seq = []
    for _ in range(n):
        ms = ["X%d" % i for i in range(rng.choice([1, 2, 3, 4, 5, 6]))]
        d = rng.choice([0, 1, 1, 2, 2, 3])
        x = rng.random()
        s1 = rsub(rng, ms, d)
        if x < .4:
            a = rterm(rng, ms, d + 1)
            b = vary(rng, Fn("h", a), ms)["a"][0] if rng.random() < .7 else rterm(rng, ms, d + 1)
            if key(a) == key(b): continue
            seq.append({"op": "add", "a": a, "b": b, "s0": s1})
        elif x < .8:
            seq.append({"op": "merge", "how": rng.choice(["u.merge", "u.mixed"]), "s1": s1, "s2": rsub(rng, ms, d)})
        else:
            seq.append({"op": "rest", "s0": s1, "mm": rng.sample(ms, rng.randint(0, len(ms)))})
    return seq, False

def pair_histories(pairs, per=40):
    """lookups and unifications of the given pairs of terms, wrapped in an atom"""
    out, cur, k = [], [], 0
    for t, u in pairs:
        cur += [{"op": "mk", "t": 0, "fs": [(Fn("p", t), False)], "pos": True}, {"op": "look", "t": 0, "q": Fn("p", u)}]
        if key(t) != key(u): cur.append({"op": "add", "a": t, "b": u, "s0": []})
        k += 1
        if k % per == 0: out.append((cur, False)); cur = []
    if cur: out.append((cur, False))
    return out

def requests(seq, terms):
    ops = []
    for s in seq:
        o = s["op"]
        if o == "new": ops.append({"op": "u.new", "t": s["t"]})
        elif o == "mk" and terms: ops.append({"op": "u.mkterms", "t": s["t"], "ts": [a for a, _ in s["fs"]]})
        elif o == "mk": ops.append({"op": "u.mk", "t": s["t"], "fs": [atomform(a, n) for a, n in s["fs"]], "pos": s["pos"]})
        elif o == "ins": ops.append({"op": "u.ins", "t": s["t"], "fs": [atomform(a, n) for a, n in s["fs"]]})
        elif o == "copy": ops.append({"op": "u.copy", "t": s["t"], "u": s["u"]})
        elif o == "look" and terms: ops.append({"op": "u.lookterm", "t": s["t"], "x": s["q"]})
        elif o == "look": ops.append({"op": "u.look", "t": s["t"], "f": atomform(s["q"])})
        elif o == "add": ops.append({"op": "u.add", "a": s["a"], "b": s["b"], "s": s["s0"]})
        elif o == "merge": ops.append({"op": s["how"], "s": s["s1"], "r": s["s2"]})
        elif o == "rest": ops.append({"op": "u.rest", "s": s["s0"], "mm": s["mm"]})
    return ops

def events(seq, out, tb):
    """the recorded behaviour, over the term table tb"""
    T = lambda t: tb.term(norm(t))
    pairs = lambda s: [[T(a), T(b)] for a, b in s]
    ev = []
    for s, r in zip(seq, out):
        o = s["op"]
        if o in ("new", "copy"): ev.append(dict(s))
        elif o in ("mk", "ins"): ev.append(dict(s, fs=[{"f": T(a), "neg": n} for a, n in s["fs"]]))
        elif o == "look":
            ev.append({"op": "look", "t": s["t"], "q": T(s["q"]), "ok": r["ok"], "res": [{"f": T(formatom(x["f"])), "s": pairs(x["s"])} for x in r["res"]]})
        elif o == "add": ev.append({"op": "solve", "eqs": pairs(s["s0"]) + [[T(s["a"]), T(s["b"])]], "ok": r["ok"], "s": pairs(r["s"])})
        elif o == "merge": ev.append({"op": "solve", "eqs": pairs(s["s1"]) + pairs(s["s2"]), "ok": r["ok"], "s": pairs(r["s"])})
        elif o == "rest": ev.append({"op": "rest", "s0": pairs(s["s0"]), "mm": [T(M(m)) for m in s["mm"]], "s": pairs(r["s"])})
    return ev

def describe(s, r=None):
    o = s["op"]; L = lambda l: "{" + ", ".join("%s -> %s" % (show(a), show(b)) for a, b in l) + "}"
    if o == "new": return "tree %d := empty" % s["t"]
    if o in ("mk", "ins"): return "tree %d %s %s" % (s["t"], ":= %s of" % ("+" if s["pos"] else "-") if o == "mk" else "+=", " ".join(("~" if n else "") + show(a) for a, n in s["fs"]))
    if o == "copy": return "tree %d := copy of %d" % (s["u"], s["t"])
    if o == "look": t = "lookup in %d of %s" % (s["t"], show(s["q"])); a = r and (r["ok"], [(show(formatom(x["f"])), L(x["s"])) for x in r["res"]])
    if o == "add": t = "unify %s with %s under %s" % (show(s["a"]), show(s["b"]), L(s["s0"])); a = r and (r["ok"], L(r["s"]))
    if o == "merge": t = "%s %s %s" % (s["how"], L(s["s1"]), L(s["s2"])); a = r and (r["ok"], L(r["s"]))
    if o == "rest": t = "restrict %s to %s" % (L(s["s0"]), s["mm"]); a = r and L(r["s"])
    return t + ("  =>  %s" % (a,) if r else "")

def run(chk, binary, histories, workers=8):
    """histories: list of (seq, terms). Replays each on the real code and lets TLC judge; reports violations."""
    from .check import pmap
    n = len(histories); k = max(1, min(200, n // workers + 1))
    chunks = [list(range(i, min(i + k, n))) for i in range(0, n, k)]
    def go(ix): return drive(binary, [{"id": i, "ops": requests(*histories[i])} for i in ix], timeout=300)
    outs = {}
    for rs in pmap(go, chunks, workers=workers, chunk=1):
        for r in rs: outs[r["id"]] = r
    cases, steps = [], 0
    for i, (seq, terms) in enumerate(histories):
        r = outs[i]
        if "panic" in r:
            chk.violation("crash: %s\n%s" % (r["panic"][:500], "\n".join(describe(s) for s in seq)), {"ops": requests(seq, terms)})
            continue
        tb = Tables()
        ev = events(seq, r["out"], tb)
        cases.append({"id": str(i), "T": tb.json()["T"], "ev": ev}); steps += len(ev)
    for a in range(0, len(cases), 4000):
        part = cases[a:a + 4000]
        res = chk.tlc("Unif", part)
        if not res.rejects and res.states != sum(len(x["ev"]) + 1 for x in part):
            raise RuntimeError("Unif.tla explored %d states, %d expected" % (res.states, sum(len(x["ev"]) + 1 for x in part)))
        for cid, why in res.rejects.items():
            i = int(cid); st = int(why.split(" ", 1)[0]); seq, terms = histories[i]
            chk.violation("step %d %s:\n%s" % (st, why.split(" ", 1)[1], "\n".join(describe(s, o) for s, o in list(zip(seq, outs[i]["out"]))[:st])),
                          {"ops": requests(seq, terms)[:st], "answers": outs[i]["out"][:st]})
    chk.note(traces_validated_against_impl=len(cases), operations=steps)
    if "samples" not in chk.coverage:
        chk.note(samples=[[describe(s, o) for s, o in zip(histories[int(c["id"])][0], outs[int(c["id"])]["out"])] for c in cases[:2]])
