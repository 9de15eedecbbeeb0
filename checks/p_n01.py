import os, random, shutil
from gv.check import Check, pmap
from gv.build import Build
from gv import readcase

def main():
    chk = Check("N01", "model_checking")
    b = Build(); g = b.goeland(form=True, dump=True, name="gform")
    base = chk.rng.randrange(1 << 30)
    stop = chk.n(45, 900)
    def one(i):
        if chk.elapsed() > stop: return None
        r = random.Random(base + i)
        files = readcase.problem(r)
        d = b.tmp("n%d" % i)
        os.makedirs(d, exist_ok=True)
        try:
            readcase.write(d, files)
            impl, run = readcase.read(g, d, files, r.choice([(), (), ("-flatten",)]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if impl is None: return {"id": "t%d" % i, "odd": "reading does not end"}, files, ""
        impl.pop("bound", None)
        return {"id": "t%d" % i, "files": [{"cs": readcase.chars(t), "inc": readcase.names(p, files)} for p, t in files], "impl": impl, "runs": []}, files, run["err"][-300:] + run["out"][-300:]
    cases, texts = [], {}
    for r in pmap(one, range(chk.n(2500, 60000))):
        if r is None: continue
        c, files, out = r
        if "odd" in c: chk.violation("what was read is not a closed formula or never comes: " + c["odd"], {"files": files})
        elif readcase.size(c["impl"]["f"]) < 400 and sum(len(f["cs"]) for f in c["files"]) < 4000:
            cases.append(c); texts[c["id"]] = (files, out)
    kinds = {}
    for k in range(0, len(cases), 2500):
        part = cases[k:k + 2500]
        res = chk.tlc("Reader", part)
        if len(res.prints) != len(part): raise RuntimeError("Reader.tla judged %d of %d texts" % (len(res.prints), len(part)))
        for _, s in res.prints: kinds[s] = kinds.get(s, 0) + 1
        for cid, why in res.rejects.items():
            chk.violation("the reader %s" % why, {"files": texts[cid][0], "output": texts[cid][1], "case": [c for c in part if c["id"] == cid][0]})
    chk.note(texts=len(cases), accepted=sum(c["impl"]["ok"] for c in cases), **{"spec_" + k: v for k, v in kinds.items()})
    chk.note(rule="random FOF texts over up to four files (all connectives, bracketings, layouts, comments, quoted names, distinct objects, numbers, "
                  "annotations, roles, include directives with selections) and damaged ones; one step of Reader.tla per token")
    if not kinds.get("ok"): raise RuntimeError("no text was judged")
    return chk.finish()
