"""Typed problems with a structure that satisfies them, for Verdict.tla.  Types are elements of the structure and quantifiers are
relativised to them, so FOL.tla evaluates typed formulas as it evaluates the others; that every symbol respects its declaration and
that no type is empty is part of what TLC evaluates.  The interesting problems are those that are no longer satisfiable once the
types are erased."""
import itertools, os, random
from .fol import *
from . import typecase as T
from . import verdicts
from .run import goeland

def tterm(t): return V(t["n"]) if t["k"] == "v" else F(t["n"], *[tterm(a) for a in t["as"]])
def fterm(t): return V(t["n"]) if t["k"] == "var" else F(t["n"], *[fterm(a) for a in t["as"]])

def meaning(f):
    k = f["k"]
    if k in ("top", "bot"): return (k,)
    if k == "not": return Not(meaning(f["as"][0]))
    if k in ("and", "or"): return (k, tuple(meaning(g) for g in f["as"]))
    if k in ("imp", "eqv"): return (k, meaning(f["as"][0]), meaning(f["as"][1]))
    if k == "eq": return Eq(fterm(f["as"][0]), fterm(f["as"][1]))
    if k == "app": return P(f["n"], *[fterm(a) for a in f["as"]])
    g = meaning(f["as"][0])
    for v in reversed(f["vs"]):
        guard = P("$ty", V(v["n"])) if v["t"] == T.TT else P("$in", tterm(v["t"]), V(v["n"]))
        g = (k, v["n"], Imp(guard, g) if k == "all" else And(guard, g))
    return g

def respects(sig):
    """what every structure of the signature satisfies"""
    out = [All(["A"], Imp(P("$ty", V("A")), Ex(["X"], P("$in", V("A"), V("X")))))]
    for d in sig:
        if d["r"] == T.O: continue
        xs = ["X%d" % i for i in range(len(d["as"]))]
        guards = [P("$ty", V(p)) for p in d["ps"]] + [P("$ty", V(x)) if a == T.TT else P("$in", tterm(a), V(x)) for x, a in zip(xs, d["as"])]
        t = F(d["n"], *[V(x) for x in d["ps"] + xs])
        f = P("$ty", t) if d["r"] == T.TT else P("$in", tterm(d["r"]), t)
        if guards: f = Imp(guards[0] if len(guards) == 1 else And(*guards), f)
        out.append(All(d["ps"] + xs, f) if d["ps"] + xs else f)
    return out

def structure(r, p):
    """a random structure of the signature"""
    sig = p.sig
    k = len(p.base)
    size = [r.choice([1, 1, 2, 2, 3]) for _ in range(k)]
    n = k + sum(size)
    if n > 7: return None
    ins, at = [], k
    for s in size: ins.append(list(range(at, at + s))); at += s
    fn, pr = {}, {"$ty": [1 if i < k else 0 for i in range(n)], "$in": [0] * (n * n)}
    for i in range(k):
        for x in ins[i]: pr["$in"][i * n + x] = 1
    M = Model(n, fn, pr)
    def ty(t, env): return env[t["n"]] if t["k"] == "v" else fn[t["n"]][M.idx([ty(a, env) for a in t["as"]])]
    for j, b in enumerate(p.base): fn[b] = [j]
    for d in sig:
        if d["n"] in p.base: continue
        ar = len(d["ps"]) + len(d["as"])
        if n ** ar > 2500: return None
        if d["r"] == T.O: pr[d["n"]] = [0] * n ** ar
        else: fn[d["n"]] = [0] * n ** ar
        bias = r.choice([.2, .5, .8])
        for tys in itertools.product(range(k), repeat=len(d["ps"])):
            env = dict(zip(d["ps"], tys))
            doms = [range(k) if a == T.TT else ins[ty(a, env)] for a in d["as"]]
            for args in itertools.product(*doms):
                i = M.idx(list(tys) + list(args))
                if d["r"] == T.O: pr[d["n"]][i] = int(r.random() < bias)
                else: fn[d["n"]][i] = r.randrange(k) if d["r"] == T.TT else r.choice(ins[ty(d["r"], env)])
    return M

def cardinal(r, p):
    t = T.C(r.choice(p.base))
    vs = [{"n": "X", "t": t}, {"n": "Y", "t": t}]
    k = r.random()
    if k < .5: return T.nd("all", "", [T.nd("eq", "", [T.nd("var", "X"), T.nd("var", "Y")])], vs)
    if k < .7: return T.nd("ex", "", [T.nd("not", "", [T.nd("eq", "", [T.nd("var", "X"), T.nd("var", "Y")])])], vs)
    c = p.term([("X", t)], t, 1)
    return T.nd("all", "", [T.nd("eq", "", [T.nd("var", "X"), c])], vs[:1])

def literal(r, p, poly=True):
    """a quantified literal or clause"""
    ctx, vs = [], []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        tv = [n for n, t in ctx if t == T.TT]
        if p.poly and r.random() < .3 and len(tv) < 2: v = {"n": ["A", "B"][len(tv)], "t": T.TT}
        else: v = {"n": ["X", "Y", "Z"][len(vs)], "t": p.ty(tv, 1)}
        vs.append(v); ctx.append((v["n"], v["t"]))
    lits = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        a = p.atom(ctx)
        lits.append(T.nd("not", "", [a]) if r.random() < .5 else a)
    f = lits[0] if len(lits) == 1 else T.nd("or", "", lits)
    return T.nd("all", "", [f], vs) if vs else f

def rule(r, p):
    """an axiom of the shape of a rewrite rule"""
    ps = [s for s in p.sig if s["r"] == T.O]
    s = r.choice(ps)
    vs = [{"n": q, "t": T.TT} for q in s["ps"]] + [{"n": "X%d" % i, "t": a} for i, a in enumerate(s["as"])]
    head = T.nd("app", s["n"], [T.nd("var", v["n"]) for v in vs])
    if r.random() < .3: head = T.nd("not", "", [head])
    f = T.nd(r.choice(["eqv", "eqv", "imp"]), "", [head, p.form([(v["n"], v["t"]) for v in vs], r.choice([0, 0, 1, 2]))])
    return T.nd("all", "", [f], vs) if vs else f

def clash(p, forms, timeout=150):
    """a small subset that is unsatisfiable once types are erased, or None (z3; a heuristic to choose problems with)"""
    import z3
    U = z3.DeclareSort("U")
    dec = {d["n"]: d for d in p.sig}
    syms = {}
    def fun(d):
        if d["n"] not in syms: syms[d["n"]] = z3.Function(d["n"], *([U] * len(d["as"]) + [z3.BoolSort() if d["r"] == T.O else U]))
        return syms[d["n"]]
    def term(t, env):
        if t["k"] == "var": return env[t["n"]]
        d = dec[t["n"]]
        return fun(d)(*[term(a, env) for a in t["as"][len(d["ps"]):]])
    def conv(f, env):
        k = f["k"]
        if k in ("top", "bot"): return z3.BoolVal(k == "top")
        if k == "eq": return term(f["as"][0], env) == term(f["as"][1], env)
        if k == "app": return term(f, env)
        if k in ("all", "ex"):
            env = dict(env); xs = []
            for v in f["vs"]:
                if v["t"] == T.TT: continue
                x = z3.FreshConst(U); env[v["n"]] = x; xs.append(x)
            g = conv(f["as"][0], env)
            return g if not xs else (z3.ForAll if k == "all" else z3.Exists)(xs, g)
        s = [conv(g, env) for g in f["as"]]
        return {"not": lambda: z3.Not(s[0]), "and": lambda: z3.And(*s), "or": lambda: z3.Or(*s), "imp": lambda: z3.Implies(s[0], s[1]), "eqv": lambda: s[0] == s[1]}[k]()
    s = z3.Solver(); s.set("timeout", timeout); s.set("random_seed", 1); s.set("core.minimize", True)
    for i, f in enumerate(forms): s.assert_and_track(conv(f, {}), "a%d" % i)
    if s.check() != z3.unsat: return None
    return sorted(int(str(x)[1:]) for x in s.unsat_core())

def problem(r, rules=0.0):
    """-> sig, axioms, conjecture or None, structure"""
    p = T.Problem(r, plain=True)
    M = structure(r, p)
    if M is None: return None
    def true(f):
        try: return f if M.holds(meaning(f)) else T.nd("not", "", [f])
        except (KeyError, TypeError): return None      # no term of that type was found
    pool = []
    want = r.choice([4, 8, 20, 30])
    for _ in range(want):
        k = r.random()
        f = cardinal(r, p) if k < .1 else rule(r, p) if k < .1 + rules else literal(r, p) if k < .75 else p.form([], r.choice([1, 2]))
        f = true(f)
        if f and f["k"] != "top": pool.append(f)
    if want > 4:
        core = clash(p, pool)
        if core is None: return None
        pool = [pool[i] for i in core]
        r.shuffle(pool)
    if not pool: return None
    conj = None
    if r.random() < .6:
        c = pool.pop()
        conj = c["as"][0] if c["k"] == "not" else T.nd("not", "", [c])
    return p.sig, pool, conj, M, want > 4

def soundness(chk, binary, build, modes, target, per_problem, until, rules=0.0, kind="t", timeout=1.5):
    stats = {"problems": 0, "runs": 0, "answered": 0, "positive": 0, "timeouts": 0}
    base = chk.rng.randrange(1 << 30)
    def one(i):
        r = random.Random(base + i)
        for _ in range(60):
            if chk.elapsed() > until: return None
            got = problem(r, rules)
            if got: break
        else: return None
        sig, ax, cj, M, erased = got
        fs = respects(sig) + [meaning(f) for f in ax] + ([Not(meaning(cj))] if cj else [])
        lines = [T.declared(d) for d in sig] + ["tff(a%d,axiom,%s)." % (k, T.text(f)) for k, f in enumerate(ax)]
        if cj: lines.append("tff(goal,conjecture,%s)." % T.text(cj))
        text = "\n".join(lines) + "\n"
        path = build.tmp("%s%d.p" % (kind, i))
        with open(path, "w") as f: f.write(text)
        recs = []
        for mode in r.sample(modes, min(per_problem, len(modes))):
            opts = tuple(mode) + verdicts.limit(r)
            run = goeland(binary, path, opts, timeout=timeout, env=r.choice(verdicts.SCHED))
            recs.append(verdicts.record(run, opts)); recs[-1]["_to"] = run["timeout"]
            if run["timeout"]: break
        os.remove(path)
        return verdicts.case("%s%d" % (kind, i), fs, cj is not None, recs, M), text, erased
    from .check import pmap
    texts, cases, sharp = {}, [], 0
    for x in pmap(one, range(target)):
        if x is None: continue
        for q in x[0]["runs"]: stats["timeouts"] += q.pop("_to")
        cases.append(x[0]); texts[x[0]["id"]] = x[1]; sharp += x[2]
    verdicts.judge(chk, cases, texts, stats)
    if not cases: raise RuntimeError("no typed problem was generated")
    return {"typed_" + k: v for k, v in dict(stats, inconsistent_without_types=sharp).items()}
