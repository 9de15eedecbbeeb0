import os, random, shutil
from gv.check import Check, pmap
from gv.build import Build
from gv import readcase

MODES = [(), (), (), ("-flatten",), ("-dmt",), ("-inner",), ("-proof",), ("-eagereq",), ("-context", "-proof"), ("-noeq",)]

def main():
    chk = Check("N02", "model_checking")
    b = Build(); g = b.goeland(form=True, dump=True, name="gform"); plain = b.goeland(dump=False)
    base = chk.rng.randrange(1 << 30)
    stop = chk.n(45, 900)
    def one(i):
        if chk.elapsed() > stop: return None
        r = random.Random(base + i)
        files, decoys = readcase.structured(r)
        d, w = b.tmp("n%d" % i), b.tmp("w%d" % i)
        for x in (d, w): os.makedirs(x, exist_ok=True)
        try:
            readcase.write(d, files); readcase.write(w, decoys)
            impl, run = readcase.read(g, d, files, cwd=w)
            if impl is None: return {"id": "t%d" % i, "odd": True}, files, ""
            runs = [readcase.verdict(plain, d, files, r.choice(MODES) + ("-one_step", "-l", r.choice("234")), cwd=w) for _ in range(2)]
        finally:
            for x in (d, w): shutil.rmtree(x, ignore_errors=True)
        impl.pop("bound", None)
        return ({"id": "t%d" % i, "files": [{"cs": readcase.chars(t), "inc": readcase.names(p, files)} for p, t in files], "impl": impl,
                 "runs": [x for x in runs if x]}, files, run["err"][-300:] + run["out"][-300:])
    cases, texts, runs = [], {}, 0
    for r in pmap(one, range(chk.n(2500, 60000))):
        if r is None: continue
        c, files, out = r
        if "odd" in c: chk.violation("reading does not end", {"files": files})
        elif readcase.size(c["impl"]["f"]) < 400:
            cases.append(c); texts[c["id"]] = (files, out); runs += len(c["runs"])
    kinds = {}
    for k in range(0, len(cases), 2500):
        part = cases[k:k + 2500]
        res = chk.tlc("Reader", part)
        if len(res.prints) != len(part): raise RuntimeError("Reader.tla judged %d of %d problems" % (len(res.prints), len(part)))
        for _, s in res.prints: kinds[s] = kinds.get(s, 0) + 1
        for cid, why in res.rejects.items():
            chk.violation("the prover %s" % why, {"files": texts[cid][0], "output": texts[cid][1], "case": [c for c in part if c["id"] == cid][0]})
    chk.note(problems=len(cases), runs=runs, accepted=sum(c["impl"]["ok"] for c in cases), **{"spec_" + k: v for k, v in kinds.items()})
    chk.note(rule="problems spread over trees of files (nested includes, selections, the same relative names in the working directory, every role, missing "
                  "files, errors in included files); Reader.tla reads the files and judges the formula refuted and what two complete runs print")
    if not kinds.get("ok") or not runs: raise RuntimeError("nothing was judged")
    return chk.finish()
