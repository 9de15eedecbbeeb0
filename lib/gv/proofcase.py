"""A recorded proof (dump of the prover's proof object) as a case for Tableau.tla."""
from .fol import dform, jform
from .intern import Tables

def _eqfix(f):
    """drop the type argument the prover gives to ="""
    if f["k"] == "pred":
        if f["n"] == "=": return dict(f, a=[t for t in f["a"] if not t["n"].startswith("$ty:") and not (t["k"] == "m" and t["n"].startswith("$T"))])
        return f
    return dict(f, s=[_eqfix(g) for g in f["s"]])

def binarize(f):
    """n-ary & and | as the left-nested binary connectives TPTP defines them to be"""
    k = f[0]
    if k in ("and", "or"):
        l = [binarize(g) for g in f[1]]
        r = l[0]
        for g in l[1:]: r = (k, (r, g))
        return r
    if k == "not": return ("not", binarize(f[1]))
    if k in ("imp", "eqv"): return (k, binarize(f[1]), binarize(f[2]))
    if k in ("all", "ex"): return (k, f[1], binarize(f[2]))
    return f

def flatten(f):
    """what -flatten announces: nested & (resp. |) merged"""
    k = f[0]
    if k in ("and", "or"):
        l = []
        for g in f[1]:
            g = flatten(g)
            l.extend(g[1] if g[0] == k else [g])
        return (k, tuple(l))
    if k == "not": return ("not", flatten(f[1]))
    if k in ("imp", "eqv"): return (k, flatten(f[1]), flatten(f[2]))
    if k in ("all", "ex"): return (k, f[1], flatten(f[2]))
    return f

FAM = {"ALPHA": "alpha", "BETA_": "beta", "GAMMA": "gamma", "DELTA": "delta", "CLOSU": "close", "Reint": "reintro", "Rewri": "rewrite"}

def case(cid, problem, dump, theory=False, eq=False, flat=False):
    """problem: list of formulas (tuples) whose conjunction is refuted; dump: parsed JSON of GV_DUMP."""
    tb = Tables()
    prob = [tb.form(jform((flatten if flat else binarize)(f))) for f in problem]
    events = []
    counter = [0]
    def fresh():
        counter[0] += 1
        return counter[0]
    def walk(steps, br):
        for i, p in enumerate(steps):
            f = tb.form(_eqfix(dform(p["f"])))
            rule = FAM.get(p["name"][:5], "other:" + p["name"])
            res = [[tb.form(_eqfix(dform(g))) for g in r["f"]] for r in p["res"]]
            kids = p["ch"]
            if rule == "close":
                events.append({"b": br, "f": f, "rule": rule, "ch": []})
                return
            brs = [fresh() for _ in res]
            events.append({"b": br, "f": f, "rule": rule, "ch": [{"b": b, "r": r} for b, r in zip(brs, res)]})
            if kids:
                # nested continuation: one sub-proof per added branch
                for b, sub in zip(brs, kids): walk(sub, b)
                return
            if len(brs) != 1:
                return
            br = brs[0]
    walk(dump["proof"], fresh())
    j = tb.json()
    return {"id": cid, "T": j["T"], "F": j["F"], "prob": prob, "theory": theory, "eq": eq, "ev": events}
