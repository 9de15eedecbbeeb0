"""Histories of rewrite-rule registration and rewriting, for Rewrite.tla."""
from .intern import Tables
from .build import drive
from .unifcase import M, Fn, show, rterm, subst, vary
from .syntaxcase import Gen, V, P, Nt, bform, bterm, fshow, substx, rename

PREDS = {"p": 1, "q": 2, "r": 3, "s": 0, "=": 2}

def atom(rng, bv, ms=(), preds="ppqqrs"):
    n = rng.choice(preds)
    g = Gen(rng, list(ms))
    return P(n, *[g.term(rng.choice([0, 0, 1, 2]), bv) for _ in range(PREDS[n])])

def vs_of(x):
    if x["k"] == "v": return {x["n"]}
    r = set()
    for k in ("a", "s"):
        for z in x.get(k, []): r |= vs_of(z)
    return r

def axiom(rng, k, recent=()):
    """an axiom that is, or nearly is, usable as a rule"""
    bv = ["U%d_%d" % (k, i) for i in range(rng.choice([0, 1, 2, 2, 3]))]
    if recent and rng.random() < .4:                # the same left-hand side again, possibly with other names
        a = substx(rng.choice(recent), {}, {})
        old = sorted(vs_of(a)); bv = ["U%d_%d" % (k, i) for i in range(len(old))]
        a = substx(a, {}, {o: V(n) for o, n in zip(old, bv)})
        if rng.random() < .3: bv = bv + ["U%d_x" % k]
    else: a = atom(rng, bv, preds="ppqqrs" if rng.random() < .93 else "=")
    inner = sorted(vs_of(a)) if rng.random() < .75 else bv
    g = Gen(rng, []); g.n = 100 * k
    phi = g.form(rng.choice([0, 1, 2, 2, 3]), inner)
    if rng.random() < .1: phi = {"k": rng.choice(["top", "bot"])}
    lit = Nt(a) if rng.random() < .3 else a
    x = rng.random()
    l, r = (lit, phi) if rng.random() < .6 else (phi, lit)
    f = {"k": "eqv", "s": [l, r]} if x < .6 else {"k": "imp", "s": [l, r]} if x < .92 else {"k": "and", "s": [l, r]}
    if x > .97: f = lit
    if bv:
        rng.shuffle(bv)
        if len(bv) > 1 and rng.random() < .3: f = {"k": "all", "v": bv[:1], "s": [{"k": "all", "v": bv[1:], "s": [f]}]}
        else: f = {"k": "all", "v": bv, "s": [f]}
    return f, a

def history(rng, n):
    pol = rng.random() < .5
    seq, lhs = [{"op": "init", "pol": pol}], []
    ms = ["X%d" % i for i in range(rng.choice([0, 1, 2, 3]))]
    k = 0
    for i in range(n):
        if i == 0 or rng.random() < .35:
            k += 1
            f, a = axiom(rng, k, lhs)
            lhs.append(a); seq.append({"op": "reg", "f": f})
        else:
            a = rng.choice(lhs)
            t = Fn(a["n"], *a["a"])
            th = {v: (rterm(rng, ms, rng.choice([0, 1, 2])) if ms else rterm(rng, ["X0"], 1, 0)) for v in sorted(vs_of(a))}
            b = substx(P(a["n"], *a["a"]), {}, th)
            if rng.random() < .4 and ms:
                v = vary(rng, Fn(b["n"], *b["a"]), ms); b = P(v["n"], *v["a"])
            elif rng.random() < .15: b = atom(rng, (), ms)
            seq.append({"op": "rw", "l": Nt(b) if rng.random() < .4 else b})
    return seq

def requests(seq):
    return [{"op": "d.init", "pol": s["pol"]} if s["op"] == "init" else {"op": "d.reg", "f": s["f"]} if s["op"] == "reg" else {"op": "d.rw", "f": s["l"]} for s in seq]

def events(seq, out, tb):
    F = lambda f: tb.form(bform(f)); T = lambda t: tb.term(bterm(t, []))
    ev = []
    for s, r in zip(seq, out):
        if s["op"] == "reg": ev.append({"op": "reg", "f": F(s["f"]), "ok": r["ok"]})
        elif s["op"] == "rw":
            o = []
            for x in r["out"]:
                inst = substx(s["l"], {a["n"]: b for a, b in x["s"]}, {})
                for f in x["fs"]: o.append({"fail": x["fail"], "s": [[T(a), T(b)] for a, b in x["s"]], "inst": F(inst), "r": F(f)})
            ev.append({"op": "rw", "l": F(s["l"]), "same": r["same"], "out": o})
    return ev

def describe(s, r=None):
    if s["op"] == "init": return "rewriting%s" % (", polarized" if s["pol"] else "")
    if s["op"] == "reg": return "axiom %s  =>  %s" % (fshow(s["f"]), r["ok"] if r else "")
    return "rewrite %s  =>  %s" % (fshow(s["l"]), [("unchanged" if x["fail"] else "", [show(a) + "->" + show(b) for a, b in x["s"]], [fshow(f) for f in x["fs"]]) for x in r["out"]] if r else "")

def run(chk, binary, histories, workers=8):
    from .check import pmap
    n = len(histories); k = max(1, min(200, n // workers + 1))
    chunks = [list(range(i, min(i + k, n))) for i in range(0, n, k)]
    outs = {}
    for rs in pmap(lambda ix: drive(binary, [{"id": i, "ops": requests(histories[i])} for i in ix], timeout=300), chunks, workers=workers, chunk=1):
        for r in rs: outs[r["id"]] = r
    cases = []; rewritten = 0
    for i, seq in enumerate(histories):
        r = outs[i]
        if "panic" in r:
            chk.violation("crash: %s\n%s" % (r["panic"][:500], "\n".join(describe(s) for s in seq)), {"ops": requests(seq)})
            continue
        tb = Tables()
        ev = events(seq, r["out"], tb)
        rewritten += sum(1 for e in ev if e["op"] == "rw" and not e["out"][0]["fail"])
        cases.append(dict(id=str(i), pol=seq[0]["pol"], ev=ev, **tb.json()))
    for a in range(0, len(cases), 4000):
        part = cases[a:a + 4000]
        res = chk.tlc("Rewrite", part)
        if not res.rejects and res.states != sum(len(x["ev"]) + 1 for x in part):
            raise RuntimeError("Rewrite.tla explored %d states, %d expected" % (res.states, sum(len(x["ev"]) + 1 for x in part)))
        for cid, why in res.rejects.items():
            i = int(cid); st, msg = why.split(" ", 1); seq = histories[i]
            chk.violation("event %s: %s\n%s" % (st, msg, "\n".join(describe(s, o) for s, o in list(zip(seq, outs[i]["out"]))[:int(st) + 1])),
                          {"ops": requests(seq), "answers": outs[i]["out"]})
    chk.note(traces_validated_against_impl=len(cases), operations=sum(len(c["ev"]) for c in cases), rewritten_literals=rewritten)
    if "samples" not in chk.coverage:
        chk.note(samples=[[describe(s, o) for s, o in zip(histories[int(c["id"])], outs[int(c["id"])]["out"])] for c in cases[:2]])
