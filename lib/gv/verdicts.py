"""Cases for Verdict.tla and the runs they record."""
import os, random
from .fol import *
from .gen import *
from .intern import Tables
from .run import goeland
from .proofcase import binarize

NOMODEL = {"n": 0, "fn": [{"n": "", "t": [0]}], "pr": [{"n": "", "t": [0]}]}

def case(cid, fs, conj, runs, model=None, exact=False, derived=False):
    tb = Tables()
    prob = [tb.form(jform(f)) for f in fs]
    j = tb.json()
    m = model.json() if model else NOMODEL
    return {"id": cid, "T": j["T"], "F": j["F"], "prob": prob, "conj": conj, "exact": exact, "derived": derived,
            "model": {"n": m["n"], "fn": m["fn"] or NOMODEL["fn"], "pr": m["pr"] or NOMODEL["pr"]}, "runs": runs}

def record(r, opts, definite=False, must=False):
    return {"m": " ".join(opts), "s": r["status"] or "none", "r": r["res"] or "none", "def": definite, "must": must}

def limit(rng): return ("-one_step", "-l", rng.choice(["2", "3", "3", "4", "5"]))

SCHED = [{}, {}, {"GOMAXPROCS": "1"}, {"GOMAXPROCS": "2"}, {"GOMAXPROCS": "16"}]

def soundness(chk, binary, build, gens, modes, target, per_problem, timeout=1.5, kind="", max_s=60):
    """Run the prover on satisfiable refutation problems; TLC judges. gens: list of rng -> (axioms, conj)."""
    stats = {"problems": 0, "runs": 0, "answered": 0, "positive": 0, "timeouts": 0}
    base = chk.rng.randrange(1 << 30)
    def one(i):
        rng = random.Random(base + i)
        if chk.elapsed() > max_s: return None
        for _ in range(12):
            ax, cj = rng.choice(gens)(rng)
            fs = ax + ([Not(cj)] if cj is not None else [])
            if not fs: continue
            M = find_model(fs, 3, 300)
            if M is not None: break
        else: return None
        path = build.tmp("s%d.p" % i)
        text = problem_text(ax, cj)
        with open(path, "w") as f: f.write(text)
        recs = []
        for mode in rng.sample(modes, min(per_problem, len(modes))):
            opts = tuple(mode) + limit(rng)
            r = goeland(binary, path, opts, timeout=timeout, env=rng.choice(SCHED))
            recs.append(record(r, opts))
            recs[-1]["_to"] = r["timeout"]
            if r["timeout"]: break      # an expensive problem: spend the time on the others
        os.remove(path)
        return case("%s%d" % (kind, i), fs, cj is not None, recs, M), text
    from .check import pmap
    texts, cases = {}, []
    for r in pmap(one, range(target)):
        if r is None: continue
        for x in r[0]["runs"]: stats["timeouts"] += x.pop("_to")
        cases.append(r[0]); texts[r[0]["id"]] = r[1]
    judge(chk, cases, texts, stats)
    return stats

def judge(chk, cases, texts, stats, samples=3):
    for k in range(0, len(cases), 3000):
        part = cases[k:k + 3000]
        res = chk.tlc("Verdict", part)
        if res.prints: raise RuntimeError("bad witness: %s" % res.prints[:3])
        expect = sum(len(x["runs"]) + 2 for x in part)
        if not res.rejects and res.states != expect:
            raise RuntimeError("Verdict.tla explored %d states, %d expected" % (res.states, expect))
        byid = {x["id"]: x for x in part}
        for cid, why in res.rejects.items():
            chk.violation("%s on problem:\n%s" % (why, texts[cid]), {"problem": texts[cid], "why": why, "runs": byid[cid]["runs"]})
    stats["problems"] += len(cases)
    for x in cases:
        for r in x["runs"]:
            stats["runs"] += 1
            stats["answered"] += r["s"] != "none"
            stats["positive"] += r["s"] in ("Theorem", "Unsatisfiable")
    chk.note(traces_validated_against_impl=len(cases))
    if "samples" not in chk.coverage:
        chk.note(samples=[{"problem": texts[x["id"]], "runs": x["runs"]} for x in cases[:samples]])

# ---------------------------------------------------------------- problems whose status Verdict.tla computes
def natoms(fs):
    """distinct atoms once every quantifier has its own constant"""
    out = set()
    def term(t, env): return env.get(t[1], t[1]) if t[0] == 'v' else (t[1],) + tuple(term(x, env) for x in t[2])
    def walk(f, env, path):
        if f[0] == 'pred': out.add((f[1],) + tuple(term(t, env) for t in f[2])); return
        if f[0] in ('all', 'ex'):
            xs = f[1] if isinstance(f[1], (list, tuple)) else [f[1]]
            env = dict(env); env.update({x: (x, path) for x in xs}); walk(f[2], env, path + (0,)); return
        for i, g in enumerate(f[1:]):
            if isinstance(g, tuple) and g and isinstance(g[0], str): walk(g, env, path + (i,))
            elif isinstance(g, tuple):
                for k, h in enumerate(g): walk(h, env, path + (i, k))
    for i, f in enumerate(fs): walk(f, {}, (i,))
    return len(out)

def exact(chk, binary, build, gens, modes, target, per_problem, max_s=60, max_atoms=8, kind="x", patient=40):
    """Every run has to answer, and with the status TLC computes from all valuations."""
    stats = {"problems": 0, "runs": 0, "answered": 0, "positive": 0, "patient_retries": 0}
    base = chk.rng.randrange(1 << 30)
    def one(i):
        rng = random.Random(base + i)
        if chk.elapsed() > max_s: return None
        for _ in range(30):
            ax, cj = rng.choice(gens)(rng)
            fs = ax + ([Not(cj)] if cj is not None else [])
            if fs and natoms(fs) <= max_atoms: break
        else: return None
        path = build.tmp("%s%d.p" % (kind, i)); text = problem_text(ax, cj)
        with open(path, "w") as f: f.write(text)
        recs = []
        for mode in rng.sample(modes, min(per_problem, len(modes))):
            env = rng.choice(SCHED); retry = 0
            if "!" in text or "?" in text or rng.random() < .3: mode = tuple(mode) + ("-one_step",)   # otherwise rounds go on for ever on purpose
            r = goeland(binary, path, mode, timeout=8, env=env)
            if r["timeout"]: retry = 1; r = goeland(binary, path, mode, timeout=patient, env=env)
            x = record(r, mode, definite=True, must=True); x["_re"] = retry
            if not r["status"]: x["_err"] = (r["err"] or r["out"])[-400:]
            recs.append(x)
        os.remove(path)
        return case("%s%d" % (kind, i), fs, cj is not None, recs, None, exact=True), text
    from .check import pmap
    texts, cases = {}, []
    for r in pmap(one, range(target)):
        if r is None: continue
        errs = [x.pop("_err") for x in r[0]["runs"] if "_err" in x]
        for x in r[0]["runs"]: stats["patient_retries"] += x.pop("_re")
        cases.append(r[0]); texts[r[0]["id"]] = r[1] + "".join("\n% " + e for e in errs)
    judge(chk, cases, texts, stats)
    return stats
