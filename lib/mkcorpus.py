#!/usr/bin/env python3
"""Builds corpus/theorems.jsonl.gz: problems with a derivation recorded from the prover (TLC replays it in every check), kept
when the prover of this tree proved every one of many variants.  Usage: mkcorpus.py COUNT SEED SECONDS"""
import gzip, json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gv.build import Build
from gv.check import pmap
from gv.corpus import *
from gv import proofcase

def conflict(rng):
    """branches that compete for the same metavariable, so that the first substitution is often the wrong one"""
    cs = list("abcd")[:rng.choice([2, 3, 4])]
    k = rng.choice([2, 2, 3])
    ps = "pqtuvw"[:k]
    good = rng.choice(cs)
    facts = [P(p, F(good)) for p in ps]
    for p in ps:
        for c in cs:
            if c != good and rng.random() < .5: facts.append(P(p, F(c)))
    # no other constant satisfies them all
    for c in cs:
        if c != good and all(P(p, F(c)) in facts for p in ps): facts.remove(P(rng.choice(ps), F(c)))
    rng.shuffle(facts)
    extra = []
    lits = [P(p, V('X')) for p in ps]
    x = rng.random()
    if x < .25:
        i = rng.randrange(k); extra = [All('Y', Imp(P(ps[i] + '0', V('Y')), P(ps[i], V('Y'))))]
        facts = [P(ps[i] + '0', f[2][0]) if f[1] == ps[i] else f for f in facts]
    elif x < .4:
        lits = [P(p, F('f', V('X'))) if rng.random() < .5 else P(p, V('X')) for p in ps]
        facts = [P(f[1], F('f', f[2][0])) if [l for l in lits if l[1] == f[1]][0][2][0][0] == 'f' else f for f in facts]
    g = And(*lits) if rng.random() < .6 else Not(Or(*[Not(l) for l in lits]))
    return facts + extra, Ex('X', g)

def chain(rng):
    n = rng.choice([2, 3, 4]); ax = [P('p', F('a'))]
    for i in range(n): ax.append(All('X', Imp(P('pqrstu'[i] if i else 'p', V('X')), rng.choice([P('pqrstu'[i + 1], V('X')), P('pqrstu'[i + 1], F('f', V('X')))]))))
    if rng.random() < .5: ax.append(All('X', Imp(P('pqrstu'[n], V('X')), Or(P('v', V('X')), P('w', V('X')))))); ax.append(All('X', Imp(P('v', V('X')), P('w', V('X'))))); g = 'w'
    else: g = 'pqrstu'[n]
    return ax, Ex('X', P(g, V('X')))

def main(count, seed, seconds):
    b = Build(); g = b.goeland(); t0 = time.time()
    gens = [lambda r: near_miss(r, nmut=r.choice([0, 1, 1, 2])), clausal, clausal, conflict, conflict, chain, lambda r: random_problem(r), lambda r: ground_strength(r, 4)]
    def one(i):
        if time.time() - t0 > seconds: return None
        rng = random.Random(seed * 1000003 + i)
        ax, cj = rng.choice(gens)(rng)
        fs = ax + ([Not(cj)] if cj is not None else [])
        if not fs: return None
        p, d = b.tmp("m%d.p" % i), b.tmp("m%d.json" % i)
        with open(p, "w") as f: f.write(problem_text(ax, cj))
        L = None
        for l in "2345":
            r = goeland(g, p, ("-one_step", "-l", l), timeout=1, env={"GV_DUMP": d, "GV_PROOF": "1"})
            if r["timeout"]: return None
            if r["status"] in ("Theorem", "Unsatisfiable"): L = l; break
        if L is None or not os.path.exists(d): return None
        dump = json.load(open(d))
        if len(dump["proof"]) == 0: return None
        c = proofcase.case("0", fs, dump, theory=False, eq=False, flat=False)
        if not 7 <= len(c["ev"]) <= 60: return None
        L = str(min(5, int(L) + 1))
        bad = 0; worst = 0
        for k in range(24):
            t = variant(rng, ax, cj)
            with open(p, "w") as f: f.write(t)
            mode = MODES[k % len(MODES)]
            r = goeland(g, p, mode + ("-one_step", "-l", L), timeout=1.5, env=rng.choice(SCHED))
            worst = max(worst, r["wall"])
            if r["status"] not in ("Theorem", "Unsatisfiable"): bad = (t, mode, L, r["timeout"]); break
        os.remove(p)
        return {"ax": ax, "cj": cj, "limit": L, "case": c, "worst": worst}, bad
    seen, out, fails = set(), [], []
    for r in pmap(one, range(count), workers=8):
        if r is None: continue
        if r[1]: fails.append(r[1]); continue
        k = json.dumps([r[0]["ax"], r[0]["cj"]])
        if k in seen or r[0]["worst"] > .5: continue
        seen.add(k); out.append(r[0])
    return out, fails

if __name__ == "__main__":
    out, fails = main(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]))
    os.makedirs(os.path.dirname(PATH), exist_ok=True)
    with gzip.GzipFile(PATH, "w", mtime=0) as f:
        for o in out:
            o.pop("worst"); f.write((json.dumps(o, separators=(",", ":")) + "\n").encode())
    print(len(out), "kept,", len(fails), "not always proved,", os.path.getsize(PATH), "bytes")
    with open("/tmp/x/corpus-fails.txt", "w") as f:
        for t, m, l, to in fails: f.write("%s -l %s timeout=%s\n%s\n" % (m, l, to, t))
