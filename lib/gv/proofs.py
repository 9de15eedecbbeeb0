"""Recording proofs of the real prover and checking them as behaviours of Tableau.tla."""
import json, os, random
from .fol import *
from .gen import *
from .run import goeland
from . import proofcase
from .verdicts import limit, SCHED

def collect(chk, binary, build, gens, modes, target, per_problem, eq=False, timeout=2.0, max_s=60, theory=lambda m: "-dmt" in m):
    """gens: rng -> (axioms, conj). -> cases, texts, stats"""
    base = chk.rng.randrange(1 << 30)
    def one(i):
        if chk.elapsed() > max_s: return None
        rng = random.Random(base + i)
        ax, cj = rng.choice(gens)(rng)
        fs = ax + ([Not(cj)] if cj is not None else [])
        if not fs: return None
        path = build.tmp("q%d.p" % i); d = build.tmp("q%d.json" % i)
        text = problem_text(ax, cj)
        with open(path, "w") as f: f.write(text)
        out, ran, to = [], 0, 0
        for mode in rng.sample(modes, min(per_problem, len(modes))):
            opts = tuple(mode) + limit(rng)
            if os.path.exists(d): os.remove(d)
            r = goeland(binary, path, opts, timeout=timeout, env=dict(rng.choice(SCHED), GV_DUMP=d, GV_PROOF="1"))
            ran += 1
            if r["timeout"]: to += 1; break
            if r["status"] in ("Theorem", "Unsatisfiable"):
                cid = "%d%s" % (i, "".join(opts))
                dump = json.load(open(d)) if os.path.exists(d) else {"proof": []}
                if not dump["proof"]: out.append((cid, None, text, opts)); continue
                out.append((cid, proofcase.case(cid, fs, dump, theory=theory(mode), eq=eq, flat="-flatten" in mode), text, opts))
        os.remove(path)
        if os.path.exists(d): os.remove(d)
        return out, ran, to
    from .check import pmap
    stats = {"problems": 0, "runs": 0, "timeouts": 0, "proofs": 0, "steps": 0, "longest_proof": 0}
    res = []
    for r in pmap(one, range(target)):
        if r is None: continue
        stats["problems"] += 1; stats["runs"] += r[1]; stats["timeouts"] += r[2]
        res.extend(r[0])
    return res, stats

def judge(chk, res, stats, samples=3):
    for cid, c, text, opts in res:
        if c is None:
            chk.violation("%s: Theorem answered but the prover holds no proof, on\n%s" % (" ".join(opts), text), {"problem": text, "options": opts})
    good = [x for x in res if x[1] is not None]
    by = {x[0]: x for x in good}
    for k in range(0, len(good), 2500):
        part = [x[1] for x in good[k:k + 2500]]
        r = chk.tlc("Tableau", part)
        if not r.rejects:
            expect = sum(len(c["ev"]) + 3 for c in part)
            if r.states != expect: raise RuntimeError("Tableau.tla explored %d states, %d expected" % (r.states, expect))
        for cid, why in r.rejects.items():
            _, c, text, opts = by[cid]
            chk.violation("proof rejected by Tableau.tla (%s) with options %s on\n%s" % (why, " ".join(opts), text),
                          {"problem": text, "options": opts, "why": why, "case": c})
    for x in good:
        n = len(x[1]["ev"])
        stats["proofs"] += 1; stats["steps"] += n; stats["longest_proof"] = max(stats["longest_proof"], n)
    chk.note(traces_validated_against_impl=len(good))
    if "samples" not in chk.coverage:
        chk.note(samples=[{"problem": x[2], "options": x[3], "steps": len(x[1]["ev"])} for x in good[:samples]])
