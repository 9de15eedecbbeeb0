"""Branches with equations, and term comparisons, for Equality.tla."""
import os
from .intern import Tables
from .build import drive, HARNESS
from .unifcase import M, Fn, key, norm, show, metas, rterm, subst, small_terms, atomform

def lit(n, pos, *a): return {"n": n, "pos": pos, "a": list(a)}
def litform(l): return atomform(Fn(l["n"], *l["a"]), not l["pos"])
def lshow(l): return ("" if l["pos"] else "~") + (" = ".join(map(show, l["a"])) if l["n"] == "=" else show(Fn(l["n"], *l["a"])))

def size(t): return 1 + sum(map(size, t["a"]))

def replace_once(rng, t, a, b):
    """t with one occurrence of a replaced by b"""
    occ = []
    def walk(t, path):
        if key(t) == key(a): occ.append(path)
        for i, x in enumerate(t["a"]): walk(x, path + [i])
    walk(t, [])
    if not occ: return t
    def put(t, path):
        if not path: return b
        return Fn(t["n"], *[put(x, path[1:]) if i == path[0] else x for i, x in enumerate(t["a"])])
    return put(t, rng.choice(occ))

def abstract(rng, t, ms, p):
    """some subterms replaced by metavariables"""
    if rng.random() < p: return M(rng.choice(ms))
    return t if t["k"] == "m" else Fn(t["n"], *[abstract(rng, x, ms, p) for x in t["a"]])

def branch(rng):
    """literals that are often contradictory for some substitution, and often nearly so"""
    ms = ["X%d" % i for i in range(rng.choice([0, 0, 1, 2, 3]))]
    pm = .3 if ms else 0
    R = lambda d: rterm(rng, ms or ["X0"], d, pm)
    eqs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        a, b = R(rng.choice([0, 1, 1, 2])), R(rng.choice([0, 0, 1]))
        if key(a) != key(b): eqs.append((a, b) if rng.random() < .5 else (b, a))
    if not eqs: eqs = [(Fn("a"), Fn("b"))]
    def derive(t):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            a, b = rng.choice(eqs)
            if rng.random() < .5: a, b = b, a
            t = replace_once(rng, t, a, b)
        return t
    lits = [lit("=", True, a, b) for a, b in eqs]
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.random()
        if x < .5:
            base = rng.choice([t for e in eqs for t in e] + [R(2)])
            if rng.random() < .5: base = Fn("f", base) if rng.random() < .6 else Fn("g", base, R(0))
            s, t = derive(base), derive(base)
            if ms and rng.random() < .5: t = abstract(rng, t, ms, .25)
            if rng.random() < .3: t = R(1)
            lits.append(lit("=", False, s, t))
        else:
            n, k = rng.choice([("p", 1), ("q", 2)])
            args = [rng.choice([t for e in eqs for t in e] + [R(1)]) for _ in range(k)]
            l1, l2 = [derive(a) for a in args], [derive(a) for a in args]
            if ms and rng.random() < .5: l2 = [abstract(rng, a, ms, .25) for a in l2]
            if rng.random() < .3: l2[-1] = R(1)
            lits += [lit(n, True, *l1), lit(n, False, *l2)]
    seen, out = set(), []
    for l in lits:
        k = (l["n"], l["pos"], tuple(map(key, l["a"])))
        if k not in seen: seen.add(k); out.append(l)
    rng.shuffle(out)
    return out

def requests(case): return [{"op": "e.solve", "how": how, "fs": [litform(l) for l in case]} for how in ("bse",)]

def run_branches(chk, binary, cases, how, timeout, workers=8, budget=None):
    """cases: lists of literals"""
    from .check import pmap
    import time
    n = len(cases); k = max(1, min(50, n // workers + 1))
    t0 = time.time()
    def go(ix):
        if budget and time.time() - t0 > budget: return []
        return drive(binary, [{"id": i, "ops": [{"op": "e.solve", "how": how, "fs": [litform(l) for l in cases[i]]}]} for i in ix], timeout=timeout)
    outs = {}
    for rs in pmap(go, [list(range(i, min(i + k, n))) for i in range(0, n, k)], workers=workers, chunk=1):
        for r in rs: outs[r["id"]] = r
    tl, quietly, answers = [], 0, 0
    for i in sorted(outs):
        r = outs[i]
        if "panic" in r:
            if "no answer within" in r["panic"]: quietly += 1; continue      # the reasoners need not terminate
            chk.violation("%s crash: %s\n%s" % (how, r["panic"][:600], "  ".join(map(lshow, cases[i]))), {"how": how, "literals": cases[i]})
            continue
        o = r["out"][0]; tb = Tables(); T = lambda t: tb.term(norm(t))
        ls = [{"pos": l["pos"], "n": l["n"], "a": [T(t) for t in l["a"]]} for l in cases[i]]
        res = [[[T(a), T(b)] for a, b in s] for s in o["res"]] if o["ok"] else []
        answers += len(res)
        tl.append({"id": str(i), "T": tb.json()["T"], "ev": [{"op": "solve", "lits": ls, "res": res, "same": o["same"]}]})
    if tl:
        res = chk.tlc("Equality", tl)
        if not res.rejects and res.states != 2 * len(tl): raise RuntimeError("Equality.tla explored %d states, %d expected" % (res.states, 2 * len(tl)))
        for cid, why in res.rejects.items():
            i = int(cid); o = outs[i]["out"][0]
            chk.violation("%s: %s\n  branch: %s\n  answers: %s" % (how, why.split(" ", 1)[1], "  ".join(map(lshow, cases[i])),
                          "; ".join("{" + ", ".join(show(a) + " -> " + show(b) for a, b in s) + "}" for s in o["res"])), {"how": how, "literals": cases[i], "answer": o})
    chk.note(**{"traces_validated_against_impl": len(tl), how + "_branches": len(tl), how + "_substitutions": answers, how + "_no_answer": quietly})
    if "samples" not in chk.coverage:
        chk.note(samples=[["  ".join(map(lshow, cases[int(c["id"])])), ["{" + ", ".join(show(a) + " -> " + show(b) for a, b in s) + "}" for s in outs[int(c["id"])]["out"][0]["res"]]]
                          for c in tl if c["ev"][0]["res"]][:4])
    return outs

def run_order(chk, build, rng, nsets, nstable, workers=8):
    from .check import pmap
    build.lay("Mods/equality/bse/zz_verif_export.go", open(os.path.join(HARNESS, "lpo", "export.txt")).read())
    binary = build.harness("lpo")
    os.remove(os.path.join(build.src, "Mods/equality/bse/zz_verif_export.go"))
    names = ["f", "g", "a", "b", "c"]
    reqs, meta = [], {}
    # sets of terms closed under subterms, compared pairwise
    base = [small_terms(3, ms="XY", consts="ab"), small_terms(4, ms="", consts="ab"), small_terms(4, ms="X", consts="a")]
    for k in range(nsets):
        if k < len(base): ts = base[k][:60]
        else:
            ms = ["X", "Y"] if rng.random() < .6 else []
            ts, seen = [], set()
            def add(t):
                if key(t) in seen: return
                for x in t["a"]: add(x)
                seen.add(key(t)); ts.append(t)
            while len(ts) < 12:
                t = rterm(rng, ms or ["X"], 3, .4 if ms else 0); add(t)
                if rng.random() < .6:
                    u = rng.choice(ts); v = rng.choice(ts); add(replace_once(rng, t, u, v)); add(Fn("f", t))
        ns = names[:]
        if k >= len(base): rng.shuffle(ns)
        nm = {x: "%s%d_%d" % (x, k, i) for i, x in enumerate(ns)}      # symbols are ordered by first appearance
        ren = lambda t: M(t["n"]) if t["k"] == "m" else Fn(nm[t["n"]], *[ren(x) for x in t["a"]])
        ts = [ren(t) for t in ts]
        reqs.append({"id": k, "names": [nm[x] for x in ns], "ts": ts, "prs": [[i, j] for i in range(len(ts)) for j in range(len(ts))]})
        meta[k] = ("order", ts)
    for k in range(nsets, nsets + nstable):
        ms = ["X", "Y", "Z"]
        s = rterm(rng, ms, 3, .5); t = replace_once(rng, s, rng.choice([s] + s["a"]), rterm(rng, ms, 2, .5)) if rng.random() < .5 else rterm(rng, ms, 3, .5)
        if rng.random() < .2: t = Fn("f", s) if rng.random() < .5 else Fn("g", t, s)
        th = {m: rterm(rng, ms, 2, .4) for m in ms if rng.random() < .7}
        reqs.append({"id": k, "names": names, "ts": [s, t, subst(s, th), subst(t, th)], "prs": [[0, 1], [2, 3]]})
        meta[k] = ("stable", s, t, th)
    n = len(reqs); step = max(1, n // workers + 1)
    outs = {}
    for rs in pmap(lambda ix: drive(binary, [reqs[i] for i in ix], timeout=60), [list(range(i, min(i + step, n))) for i in range(0, n, step)], workers=workers, chunk=1):
        for r in rs: outs[r["id"]] = r
    cases = []
    for k, m in meta.items():
        r = outs[k]
        if "panic" in r:
            chk.violation("ordering crash: %s" % r["panic"][:500], reqs[k]); continue
        tb = Tables(); T = lambda t: tb.term(norm(t))
        if m[0] == "order":
            n = len(m[1])
            ev = {"op": "order", "ts": [T(t) for t in m[1]], "cmp": [r["out"][i * n:(i + 1) * n] for i in range(n)]}
        else:
            _, s, t, th = m
            ev = {"op": "stable", "s": T(s), "t": T(t), "i": T(subst(s, th)), "j": T(subst(t, th)), "th": [[T(M(x)), T(v)] for x, v in th.items()], "x": r["out"][0], "y": r["out"][1]}
        cases.append({"id": str(k), "T": tb.json()["T"], "ev": [ev]})
    res = chk.tlc("Equality", cases)
    if not res.rejects and res.states != 2 * len(cases): raise RuntimeError("Equality.tla explored %d states" % res.states)
    for cid, why in res.rejects.items():
        k = int(cid); m = meta[k]
        chk.violation("term ordering: %s: %s" % (why.split(" ", 1)[1], "; ".join(map(show, m[1])) if m[0] == "order" else "%s, %s under %s: %s" % (
            show(m[1]), show(m[2]), {x: show(v) for x, v in m[3].items()}, outs[k]["out"])), {"request": reqs[k], "answer": outs[k]})
    chk.note(traces_validated_against_impl=len(cases), comparisons=sum(len(r["prs"]) for r in reqs))
