"""Histories of formulas (substitution, renaming, inspection, instantiation, Skolemization), for Syntax.tla."""
from .intern import Tables
from .build import drive
from .unifcase import M, Fn, show, metas, rsub, mgu

def V(n): return {"k": "v", "n": n, "a": []}
def P(n, *a): return {"k": "pred", "n": n, "a": list(a)}
def Nt(f): return {"k": "not", "s": [f]}

# ------------------------------------------------------------------ generation

class Gen:
    """formulas over metavariables ms, free variables fv; binders get distinct names unless shadow is set"""
    def __init__(self, rng, ms, fv=(), shadow=False, types=False):
        self.rng, self.ms, self.fv, self.shadow, self.types, self.n = rng, ms, list(fv), shadow, types, 0
    def term(self, d, bv):
        r = self.rng
        if d == 0 or r.random() < .4:
            x = r.random()
            if bv and x < .5: return V(r.choice(bv))
            if self.fv and x < .6: return V(r.choice(self.fv))
            if self.ms and x < .85: return M(r.choice(self.ms))
            return Fn(r.choice("abc"))
        if r.random() < .55: return Fn("f", self.term(d - 1, bv))
        return Fn("g", self.term(d - 1, bv), self.term(d - 1, bv))
    def atom(self, bv, tv):
        r = self.rng; n = r.choice("pqqqrs"); k = {"p": 1, "q": 2, "r": 3, "s": 0}[n]
        if r.random() < .12: return P("=", self.term(1, bv), self.term(1, bv))
        f = P(n, *[self.term(r.choice([0, 0, 1, 1, 2]), bv) for _ in range(k)])
        if tv and r.random() < .8:
            f = P("t" + n, *f["a"]); f["ty"] = [r.choice(tv) if r.random() < .8 else "nat" for _ in range(2)]
        return f
    def binder(self, bv):
        self.n += 1
        if self.shadow and self.rng.random() < .5: return self.rng.choice("UVW")
        return "V%d" % self.n
    def form(self, d, bv=(), tv=(), prefix=0):
        r, bv, tv = self.rng, list(bv), list(tv)
        if prefix or (d > 0 and r.random() < .3):
            k = r.choice(["all", "ex"])
            vs = []
            for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
                v = self.binder(bv + vs)
                if v not in vs: vs.append(v)
            return {"k": k, "v": vs, "s": [self.form(d - 1 if d else 0, bv + vs, tv, max(prefix - 1, 0))]}
        if d <= 0 or r.random() < .15:
            if r.random() < .03: return {"k": r.choice(["top", "bot"])}
            return self.atom(bv, tv)
        x = r.random()
        if x < .25: return Nt(self.form(d - 1, bv, tv))
        if x < .65: return {"k": r.choice(["and", "or"]), "s": [self.form(d - 1, bv, tv) for _ in range(r.choice([2, 2, 2, 3, 1]))]}
        return {"k": r.choice(["imp", "eqv"]), "s": [self.form(d - 1, bv, tv), self.form(d - 1, bv, tv)]}

def substx(x, mm, vm):
    """x with metavariables and (free) variables replaced"""
    if x["k"] == "m" and x["n"] in mm: return mm[x["n"]]
    if x["k"] == "v" and x["n"] in vm: return vm[x["n"]]
    y = dict(x)
    for k in ("a", "s"):
        if k in y: y[k] = [substx(z, mm, vm) for z in y[k]]
    return y

def rename(x, new):
    """an alphabetic variant with binders taken from the iterator new"""
    def go(x, en):
        if x["k"] == "v": return V(en.get(x["n"], x["n"]))
        y = dict(x)
        if x["k"] in ("all", "ex"):
            vs = [next(new) for _ in x["v"]]
            en = dict(en, **dict(zip(x["v"], vs)))
            y["v"] = vs
        for k in ("a", "s"):
            if k in y: y[k] = [go(z, en) for z in y[k]]
        return y
    return go(x, {})

def perturb(rng, x):
    """a formula that differs from x in one place"""
    sites = []
    def walk(x, path):
        if x["k"] == "f" and not x["a"] or x["k"] == "m": sites.append((path, Fn("d")))
        if x["k"] == "v": sites.append((path, Fn("d")))
        if x["k"] in ("and", "or", "imp", "eqv"):
            sites.append((path, dict(x, k={"and": "or", "or": "and", "imp": "eqv", "eqv": "imp"}[x["k"]])))
            if x["k"] in ("and", "or") : sites.append((path, dict(x, s=x["s"] + x["s"][:1])))
            if x["k"] == "imp": sites.append((path, dict(x, s=x["s"][::-1])))
        if x["k"] in ("all", "ex"): sites.append((path, dict(x, k={"all": "ex", "ex": "all"}[x["k"]])))
        if x["k"] == "pred":
            sites.append((path, Nt(x)))
            if x["n"] != "=" and x["a"]: sites.append((path, P(x["n"] + "2", *x["a"])))
        if x["k"] == "not": sites.append((path, x["s"][0]))
        for k in ("a", "s"):
            for i, z in enumerate(x.get(k, [])): walk(z, path + [(k, i)])
    walk(x, [])
    if not sites: return x
    path, new = rng.choice(sites)
    def put(x, path):
        if not path: return new
        (k, i), rest = path[0], path[1:]
        y = dict(x); y[k] = list(x[k]); y[k][i] = put(x[k][i], rest)
        return y
    return put(x, path)

def gsub(rng, ms, d):
    r = rsub(rng, ms, d)
    return r

def history(rng, n):
    """operations on registers: (request, meta information) pairs; register contents are tracked as generator formulas"""
    ms = ["X%d" % i for i in range(rng.choice([1, 2, 3, 4]))]
    fv = ["Y%d" % i for i in range(rng.choice([0, 1, 2]))]
    seq, regs, fresh = [], [], iter("N%d" % i for i in range(100000))
    def mk(f): seq.append({"op": "mk", "f": f}); regs.append(f)
    g = lambda: Gen(rng, ms, fv, shadow=rng.random() < .25)
    mk(g().form(rng.choice([1, 2, 3])))
    for _ in range(n):
        x, i = rng.random(), rng.randrange(len(regs))
        f = regs[i]
        if x < .12: mk(g().form(rng.choice([0, 1, 2, 3])))
        elif x < .18: mk(rename(f, fresh) if rng.random() < .5 else perturb(rng, f))
        elif x < .36:
            th = rsub(rng, ms, rng.choice([0, 1, 2]))
            seq.append({"op": "sub", "how": "s.apply", "i": i, "th": th}); regs.append(substx(f, {k["n"]: v for k, v in th}, {}))
        elif x < .44:
            m = rng.choice(ms); t = Gen(rng, [y for y in ms if y != m]).term(2, ())
            seq.append({"op": "sub", "how": "s.meta", "i": i, "th": [[M(m), t]]}); regs.append(substx(f, {m: t}, {}))
        elif x < .52 and fv:
            v, m = rng.choice(fv), rng.choice(ms)
            seq.append({"op": "sub", "how": "s.var", "i": i, "th": [[V(v), M(m)]]}); regs.append(substx(f, {}, {v: M(m)}))
        elif x < .60 and fv:
            v, t = rng.choice(fv), Gen(rng, ms).term(2, ())
            seq.append({"op": "sub", "how": "s.term", "i": i, "th": [[V(v), t]]}); regs.append(substx(f, {}, {v: t}))
        elif x < .68: seq.append({"op": "alpha", "how": "s.rename", "i": i}); regs.append(rename(f, fresh))
        elif x < .73: seq.append({"op": "alpha", "how": "s.copy", "i": i}); regs.append(f)
        elif x < .78:
            while rng.random() < .5: f = Nt(f); mk(f); i = len(regs) - 1
            seq.append({"op": "neg", "i": i}); regs.append(f)
        elif x < .88:
            j = rng.randrange(len(regs)) if rng.random() < .6 else i
            seq.append({"op": "eq", "i": i, "j": j})
        elif x < .95: seq.append({"op": "metas", "i": i})
        else: seq.append({"op": "terms", "i": i})
    return seq

def strip(f, want):
    """the quantifier prefix of f seen through a negation: its variables if f is universal (want = "inst") or existential ("sko")"""
    neg = f["k"] == "not"
    g = f["s"][0] if neg else f
    if g["k"] not in ("all", "ex"): return None
    return g if ((g["k"] == "all") != neg) == (want == "inst") else None

def peel(f):
    neg = f["k"] == "not"; g = f["s"][0] if neg else f
    r = g["s"][0] if len(g["v"]) == 1 else dict(g, v=g["v"][1:])
    return Nt(r) if neg else r

def kids(f):
    """formulas a tableau gets from f by one of the propositional rules"""
    neg = f["k"] == "not"; g = f["s"][0] if neg else f
    if g["k"] in ("pred", "top", "bot", "all", "ex"): return []
    if neg and g["k"] == "not": return [g["s"][0]]
    if g["k"] in ("and", "or"): return [Nt(x) for x in g["s"]] if neg else g["s"]
    if g["k"] == "imp": return [g["s"][0], Nt(g["s"][1])] if neg else [Nt(g["s"][0]), g["s"][1]]
    return list(g["s"]) + [Nt(x) for x in g["s"]]

def typeprefix(rng, g, f):
    return {"k": "all", "v": [{"n": "A"}] + ([{"n": "B"}] if rng.random() < .5 else []), "s": [f]}

def skohistory(rng, n, mode, par):
    """what a tableau does to its formulas: prefix quantifiers are stripped, new formulas come from known ones"""
    ms = ["X%d" % i for i in range(rng.choice([0, 1, 2, 3]))]
    seq, regs, fresh = [{"op": "mode", "m": mode}], [], iter("N%d" % i for i in range(100000))
    def mk(f): seq.append({"op": "mk", "f": f}); regs.append(f)
    typed = rng.random() < .25
    # formulas with one prefix, that differ in which of its variables occur where
    shape = not typed and rng.random() < .25 and [("ex", 1)] + [(rng.choice(["all", "ex"]), rng.choice([1, 1, 2, 2, 3])) for _ in range(rng.choice([1, 2, 2, 3]))]
    ar = rng.choice([2, 3])
    def new():
        g = Gen(rng, ms)
        if shape:
            bs, vs = [], []
            for k, m in shape: bs.append((k, [g.binder(vs) for _ in range(m)])); vs += bs[-1][1]
            f = P("qr"[ar - 2], *[V(rng.choice(vs[-4:])) if rng.random() < .9 else V(vs[0]) for _ in range(ar)])
            for k, b in reversed(bs): f = {"k": k, "v": b, "s": [f]}
            return f
        if typed and rng.random() < .6:
            f = typeprefix(rng, g, None)
            f["s"][0] = Gen(rng, []).form(rng.choice([1, 2]), (), [v["n"] for v in f["v"]], rng.choice([0, 0, 1]))
            return Nt(f) if rng.random() < .6 else f
        f = g.form(rng.choice([1, 2, 3]), prefix=rng.choice([1, 1, 2, 2]))
        return Nt(f) if rng.random() < .4 else f
    mk(new())
    if shape:
        for _ in range(n):
            i = len(regs) - 1
            seq.append({"op": "sko", "i": i, "ms": ms}); regs.append(peel(regs[i]))
            mk(new())
        return seq
    for _ in range(n):
        x = rng.random()
        sk = [i for i, f in enumerate(regs) if strip(f, "sko")]
        ins = [i for i, f in enumerate(regs) if strip(f, "inst")]
        if x < .45 and sk:
            if par and rng.random() < .5:
                k = [rng.choice(sk) for _ in range(rng.randint(2, 6))]
                seq.append({"op": "par", "is": k, "ms": ms}); regs += [peel(regs[i]) for i in k]
            else:
                i = rng.choice(sk[-3:]) if rng.random() < .6 else rng.choice(sk)
                seq.append({"op": "sko", "i": i, "ms": ms}); regs.append(peel(regs[i]))
        elif x < .7 and ins:
            i = rng.choice(ins[-3:]) if rng.random() < .6 else rng.choice(ins)
            v = strip(regs[i], "inst")["v"][0]
            seq.append({"op": "inst", "i": i, "ty": not isinstance(v, str)}); regs.append(peel(regs[i]))
        elif x < .8 and ms and not typed:
            i = rng.randrange(len(regs)); th = rsub(rng, ms, rng.choice([0, 1]))
            seq.append({"op": "sub", "how": "s.apply", "i": i, "th": th}); regs.append(regs[i])
        elif x < .9 and not typed and not shape:
            f = next((s["f"] for s in reversed(seq) if s["op"] == "mk"), None)
            y = rng.random()
            f = rename(f, fresh) if y < .5 else perturb(rng, f) if y < .8 else substx(f, {m: M(rng.choice(ms)) for m in ms}, {})
            mk(f)
        else: mk(new())
    return seq

def requests(seq):
    ops = []
    for s in seq:
        o = s["op"]
        if o == "mk": ops.append({"op": "s.mk", "f": s["f"]})
        elif o == "sub" and s["how"] == "s.apply": ops.append({"op": "s.apply", "i": s["i"], "s": s["th"]})
        elif o == "sub" and s["how"] == "s.meta": ops.append({"op": "s.meta", "i": s["i"], "m": s["th"][0][0]["n"], "x": s["th"][0][1]})
        elif o == "sub" and s["how"] == "s.var": ops.append({"op": "s.var", "i": s["i"], "v": s["th"][0][0]["n"], "m": s["th"][0][1]["n"]})
        elif o == "sub": ops.append({"op": "s.term", "i": s["i"], "v": s["th"][0][0]["n"], "x": s["th"][0][1]})
        elif o == "alpha": ops.append({"op": s["how"], "i": s["i"]})
        elif o == "neg": ops.append({"op": "s.simpneg", "i": s["i"]})
        elif o == "eq": ops.append({"op": "s.equals", "i": s["i"], "j": s["j"]})
        elif o == "metas": ops.append({"op": "s.metas", "i": s["i"]})
        elif o == "terms": ops.append({"op": "s.subterms", "i": s["i"]})
        elif o == "mode": ops.append({"op": "k.mode", "m": s["m"]})
        elif o == "sko": ops.append({"op": "k.sko", "i": s["i"], "ms": s["ms"]})
        elif o == "par": ops.append({"op": "k.par", "is": s["is"], "ms": s["ms"]})
        elif o == "inst": ops.append({"op": "k.inst", "i": s["i"], "ix": 0})
    return ops

# ------------------------------------------------------------------ de Bruijn form

def bterm(t, en):
    a = [bterm(x, en) for x in t.get("a") or []]
    if t["k"] == "v":
        me = (t["n"], t.get("i", 0))
        for k, v in enumerate(reversed(en)):
            if v == me: return {"k": "b", "n": "", "i": k, "a": []}
        return {"k": "v", "n": t["n"], "i": 0, "a": []}
    return {"k": t["k"], "n": t["n"], "i": t.get("i", 0) if t["k"] == "m" else 0, "a": a}

def bvar(v):
    if isinstance(v, str): return (v, 0)
    if "i" not in v: return (v["n"], -1)                     # a type variable of a request
    return (v["n"], -1) if v["ty"] else (v["n"], v["i"])

def bform(f, en=()):
    k, en = f["k"], list(en)
    if k in ("all", "ex"):
        vs = [bvar(v) for v in f["v"]]
        r = bform(f["s"][0], en + vs)
        for _ in vs: r = {"k": k, "n": "", "a": [], "s": [r]}
        return r
    tys = [{"k": "v", "n": x, "i": -1} if x[0].isupper() else {"k": "f", "n": x, "i": 0} for x in f.get("ty") or []]
    return {"k": k, "n": f.get("n", ""), "a": [bterm(x, en) for x in tys + (f.get("a") or [])], "s": [bform(x, en) for x in f.get("s") or []]}

def ident(f, g):
    """the same formula down to the names of bound variables"""
    return f == g

def events(seq, out, tb):
    T = lambda t: tb.term(bterm(t, []))
    F = lambda f: tb.form(bform(f))
    ev, regs = [], []
    for s, r in zip(seq, out):
        o = s["op"]
        if o == "mode": continue
        if o == "par":
            for k, (i, x) in enumerate(zip(s["is"], r)):
                ev.append({"op": "sko", "i": i + 1, "r": F(x["f"]), "same": x["same"]}); regs.append(x["f"])
            continue
        e = {"op": o, "same": r["same"]}
        if "i" in s: e["i"] = s["i"] + 1
        if "f" in r: e["r"] = F(r["f"]); regs.append(r["f"])
        if o == "mk": e["f"] = F(s["f"])
        if o == "sub": e["th"] = [[T(a), T(b)] for a, b in s["th"]]
        if o == "eq": e.update(j=s["j"] + 1, ok=r["ok"], rev=r["rev"], ident=ident(regs[s["i"]], regs[s["j"]]))
        if o == "metas": e["ms"] = [T(m) for m in r["ms"]]
        if o == "terms": e["ts"] = [T(t) for t in r["ts"]]
        if o == "inst": e.update(ms=[T(m) for m in r["ms"]], ty=s["ty"])
        ev.append(e)
    return ev

def fshow(f):
    k = f["k"]
    ts = lambda t: t["n"] + ("(" + ",".join(ts(x) for x in t["a"]) + ")" if t.get("a") else "")
    if k == "pred": return f["n"] + ("<" + ",".join(f["ty"]) + ">" if f.get("ty") else "") + ("(" + ",".join(ts(x) for x in f["a"]) + ")" if f["a"] else "")
    if k == "not": return "~" + fshow(f["s"][0])
    if k in ("all", "ex"): return "(%s[%s]: %s)" % ("!" if k == "all" else "?", ",".join(v if isinstance(v, str) else v["n"] for v in f["v"]), fshow(f["s"][0]))
    if k in ("top", "bot", "?"): return k
    return "(" + (" %s " % {"and": "&", "or": "|", "imp": "=>", "eqv": "<=>"}[k]).join(fshow(x) for x in f["s"]) + ")"

def describe(s, r=None):
    o = s["op"]; L = lambda l: "{" + ", ".join("%s -> %s" % (show(a), show(b)) for a, b in l) + "}"
    if o == "mk": t = "make %s" % fshow(s["f"])
    elif o == "sub": t = "%s on #%d: %s" % (s["how"], s["i"], L(s["th"]))
    elif o == "mode": return "Skolemization: " + s["m"]
    elif o == "eq": t = "compare #%d #%d" % (s["i"], s["j"])
    elif o == "par": t = "Skolemize in parallel %s (branch metas %s)" % (s["is"], s["ms"])
    elif o == "sko": t = "Skolemize #%d (branch metas %s)" % (s["i"], s["ms"])
    else: t = "%s #%d" % (s.get("how", o), s["i"])
    if r is None: return t
    if isinstance(r, list): return t + "  =>  " + "; ".join(fshow(x["f"]) for x in r)
    if "f" in r: return t + "  =>  " + fshow(r["f"])
    if "ms" in r: return t + "  =>  " + " ".join(show(m) for m in r["ms"])
    if "ts" in r: return t + "  =>  " + " ".join(show(m) for m in r["ts"])
    return t + "  =>  %s/%s" % (r.get("ok"), r.get("rev"))

def run(chk, binary, histories, workers=8):
    from .check import pmap
    n = len(histories); k = max(1, min(200, n // workers + 1))
    chunks = [list(range(i, min(i + k, n))) for i in range(0, n, k)]
    outs = {}
    for rs in pmap(lambda ix: drive(binary, [{"id": i, "ops": requests(histories[i])} for i in ix], timeout=300), chunks, workers=workers, chunk=1):
        for r in rs: outs[r["id"]] = r
    cases = []
    for i, seq in enumerate(histories):
        r = outs[i]
        if "panic" in r:
            chk.violation("crash: %s\n%s" % (r["panic"][:500], "\n".join(describe(s) for s in seq)), {"ops": requests(seq)})
            continue
        tb = Tables()
        ev = events(seq, r["out"], tb)
        cases.append(dict(id=str(i), ev=ev, **tb.json()))
    for a in range(0, len(cases), 4000):
        part = cases[a:a + 4000]
        res = chk.tlc("Syntax", part)
        if not res.rejects and res.states != sum(len(x["ev"]) + 1 for x in part):
            raise RuntimeError("Syntax.tla explored %d states, %d expected" % (res.states, sum(len(x["ev"]) + 1 for x in part)))
        for cid, why in res.rejects.items():
            i = int(cid); st, msg = why.split(" ", 1); seq = histories[i]
            chk.violation("event %s: %s\n%s" % (st, msg, "\n".join(describe(s, o) for s, o in zip(seq, outs[i]["out"]))),
                          {"ops": requests(seq), "answers": outs[i]["out"]})
    chk.note(traces_validated_against_impl=len(cases), operations=sum(len(c["ev"]) for c in cases))
    if "samples" not in chk.coverage:
        chk.note(samples=[[describe(s, o) for s, o in zip(histories[int(c["id"])], outs[int(c["id"])]["out"])] for c in cases[:2]])
