import json, random, re
from gv.check import Check, pmap
from gv.build import Build
from gv import typecase as T

MODES = [(), (), ("-dmt",), ("-preinner",), ("-sateq",), ("-flatten",)]

def main():
    chk = Check("T01", "model_checking")
    b = Build(); g = b.goeland()
    # 1. what TypingGen.tla enumerates, with the properties of the judgement itself
    gen = chk.tlc("TypingGen", timeout=300)
    forms = [json.loads(json.loads(m)[5:]) for m in re.findall(r'^("CASE .*")$', gen.out, re.M)]
    if len(forms) < 100000: raise RuntimeError("TypingGen.tla produced %d formulas" % len(forms))
    forms.sort(key=lambda f: json.dumps(f, sort_keys=True))
    chk.note(enumerated=len(forms))
    base = chk.rng.randrange(1 << 30)
    half = chk.n(2500, len(forms))
    pick = chk.rng.sample(range(len(forms)), half)
    stop = chk.n(35, 500)
    def small(i):
        if chk.elapsed() > stop: return None
        r = random.Random(base + i)
        stmts = T.GENSIG + [T.form(forms[pick[i]])]
        files = T.render(stmts, r.choice(["axiom", "goal", "or"]))
        v, run = T.run(g, b.tmp("s%d" % i), files, r.choice(MODES))
        return {"id": "s%d" % i, "stmts": stmts, "runs": [v]}, files, run["err"][-200:] + run["out"][-200:]
    # 2. random problems, damaged or not
    def big(i):
        if chk.elapsed() > chk.n(65, 800): return None
        r = random.Random(base + 77777777 + i)
        p = T.Problem(r)
        stmts = p.stmts()
        for _ in range(r.choice([0, 0, 1, 1, 1, 2])): stmts = T.damage(p, stmts, r)
        cut = None
        if r.random() < .25:
            a = r.randrange(len(stmts)); cut = (a, r.randint(a + 1, len(stmts)))
        files = T.render(stmts, r.choice(["axiom", "goal", "or"]), cut)
        runs = []
        for _ in range(r.choice([1, 1, 2])):
            v, run = T.run(g, b.tmp("b%d" % i), files, r.choice(MODES), r.choice([None, 1, 2, 8]))
            runs.append(v)
        return {"id": "b%d" % i, "stmts": T.clean(stmts), "runs": runs}, files, run["err"][-200:] + run["out"][-200:]
    kinds = {}
    for fn, n in ((small, half), (big, chk.n(2500, 60000))):
        got = [x for x in pmap(fn, range(n), chunk=8) if x]
        by = {c["id"]: (f, o) for c, f, o in got}
        cases = [c for c, _, _ in got]
        for k in range(0, len(cases), 5000):
            part = cases[k:k + 5000]
            res = chk.tlc("TypingRuns", part)
            if len(res.prints) != len(part): raise RuntimeError("TypingRuns.tla judged %d of %d problems" % (len(res.prints), len(part)))
            for _, s in res.prints: kinds[s] = kinds.get(s, 0) + 1
            for cid, why in res.rejects.items():
                chk.violation("the prover %s" % why, {"files": by[cid][0], "output": by[cid][1]})
    chk.note(problems=sum(kinds.values()), **{"spec_" + k: v for k, v in kinds.items()})
    chk.note(rule="TypingGen.tla: every formula of a prefix of up to two quantified variables and one atom over a polymorphic signature (sampled in the quick "
                  "tier); random problems with declarations, type constructors, polymorphic symbols, arithmetic, shadowing and included files, most with one "
                  "or two random changes; accepted means that a status was printed")
    if not kinds.get("ok") or not kinds.get("ill"): raise RuntimeError("no problem was judged")
    return chk.finish()
