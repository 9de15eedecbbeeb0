"""Typed problems for Typing.tla: random ones, well typed or damaged in one place, and those that TypingGen.tla enumerates."""
import os, shutil
from .run import goeland

def C(n, *a): return {"k": "c", "n": n, "as": list(a)}
def V(n): return {"k": "v", "n": n, "as": []}
TT, O, I = C("$tType"), C("$o"), C("$i")
def nd(k, n="", a=(), vs=()): return {"k": k, "n": n, "vs": list(vs), "as": list(a)}
def decl(n, ps, a, r): return {"k": "decl", "n": n, "ps": list(ps), "as": list(a), "r": r}
def form(f): return {"k": "form", "f": f}

GENSIG = [decl("t1", [], [], TT), decl("t2", [], [], TT), decl("list", [], [TT], TT), decl("a", [], [], C("t1")), decl("b", [], [], C("t2")),
          decl("f", [], [C("t1")], C("t2")), decl("n", ["P"], [], C("list", V("P"))), decl("h", ["P"], [V("P")], C("list", V("P"))),
          decl("p", [], [C("t1")], O), decl("r", ["P"], [V("P"), V("P")], O)]

NUMS = {"$int": ["1", "0", "12", "-3"], "$rat": ["1/2", "-2/3"], "$real": ["1.5", "2.0e1", "-0.5"]}
BIN = ["$sum", "$difference", "$product", "$quotient_e", "$quotient_t", "$quotient_f", "$remainder_e", "$remainder_t", "$remainder_f"]
UN = ["$uminus", "$floor", "$ceiling", "$truncate", "$round"]

# --------------------------------------------------------------------------- text
def ty(t): return t["n"] + ("(" + ",".join(map(ty, t["as"])) + ")" if t["as"] else "")

def term(t):
    if t["k"] == "num": return t["x"]
    return t["n"] + ("(" + ",".join(map(term, t["as"])) + ")" if t["as"] else "")

def text(f):
    k = f["k"]
    if k == "top": return "$true"
    if k == "bot": return "$false"
    if k == "not": return "~ " + text(f["as"][0])
    if k in ("and", "or"): return "(" + (" & " if k == "and" else " | ").join(map(text, f["as"])) + ")"
    if k in ("imp", "eqv"): return "(%s %s %s)" % (text(f["as"][0]), "=>" if k == "imp" else "<=>", text(f["as"][1]))
    if k == "eq": return "(%s %s %s)" % (term(f["as"][0]), "=", term(f["as"][1]))
    if k in ("all", "ex"):
        return "(%s [%s]: %s)" % ("!" if k == "all" else "?", ",".join(v["n"] if v["t"] == I and not v.get("full") else "%s:%s" % (v["n"], ty(v["t"])) for v in f["vs"]), text(f["as"][0]))
    return term(f)

def declared(d):
    a = d["as"]
    s = ty(d["r"])
    if a: s = "%s > %s" % (ty(a[0]) if len(a) == 1 else "(" + " * ".join(map(ty, a)) + ")", s)
    if d["ps"]: s = "!>[%s]: %s" % (",".join(p + ":$tType" for p in d["ps"]), "(" + s + ")" if a else s)
    return "tff(d_%s,type,%s: %s)." % (d["n"], d["n"], s)

def render(stmts, how, cut=None):
    """-> [(file, text)]: declarations, and formulas made so that the search ends at once"""
    out = []
    last = max([i for i, s in enumerate(stmts) if s["k"] == "form"])
    for i, s in enumerate(stmts):
        if s["k"] == "decl": out.append(declared(s))
        elif i < last or how == "axiom": out.append("tff(f%d,axiom,%s)." % (i, text(s["f"])))
        elif how == "goal": out.append("tff(f%d,conjecture,(%s => $true))." % (i, text(s["f"])))
        else: out.append("tff(f%d,conjecture,($true | %s))." % (i, text(s["f"])))
    if how == "axiom": out.append("tff(goal,conjecture,$true).")
    if cut is None: return [("p.p", "\n".join(out) + "\n")]
    a, b = cut
    return [("p.p", "\n".join(out[:a] + ["include('in.ax')."] + out[b:]) + "\n"), ("in.ax", "\n".join(out[a:b]) + "\n")]

def run(binary, d, files, opts=(), procs=None, timeout=20):
    os.makedirs(d, exist_ok=True)
    try:
        for n, t in files:
            with open(os.path.join(d, n), "w") as f: f.write(t)
        r = goeland(binary, os.path.join(d, "p.p"), opts, timeout=timeout, env={"GOMAXPROCS": str(procs)} if procs else None)
        return {"m": " ".join(opts) + (" procs=%d" % procs if procs else ""), "acc": r["status"] is not None}, r
    finally:
        shutil.rmtree(d, ignore_errors=True)

# --------------------------------------------------------------------------- random problems
def subst(t, m):
    if t["k"] == "v": return m.get(t["n"], t)
    return C(t["n"], *[subst(x, m) for x in t["as"]])

def match(p, t, m):
    if p["k"] == "v":
        if p["n"] in m: return m[p["n"]] == t
        m[p["n"]] = t
        return True
    return t["k"] == "c" and p["n"] == t["n"] and len(p["as"]) == len(t["as"]) and all(match(x, y, m) for x, y in zip(p["as"], t["as"]))

def as_term(t): return nd("var", t["n"]) if t["k"] == "v" else nd("app", t["n"], [as_term(x) for x in t["as"]])

class Problem:
    def __init__(self, r, plain=False):
        self.r = r
        self.poly, self.arith, self.default = r.random() < .6, not plain and r.random() < .4, not plain and r.random() < .3
        self.base = ["t1", "t2", "t3"][:r.choice([1, 2, 2, 3])]
        self.cons = r.sample([("list", 1), ("pair", 2)], r.choice([0, 1, 1, 2])) if self.poly else []
        self.sig = [decl(n, [], [], TT) for n in self.base] + [decl(n, [], [TT] * k, TT) for n, k in self.cons]
        for n in self.base: self.sig.append(decl("c_" + n, [], [], C(n)))
        for i in range(r.randint(1, 4)): self.sig.append(decl("f%d" % i, [], [self.ty([], 1) for _ in range(r.choice([1, 1, 2, 3]))], self.ty([], 1)))
        for i in range(r.randint(1, 4)): self.sig.append(decl("p%d" % i, [], [self.ty([], 1) for _ in range(r.choice([0, 1, 1, 2, 3]))], O))
        if self.poly:
            for i in range(r.randint(1, 3)):
                ps = ["P", "Q"][:r.choice([1, 1, 2])]
                self.sig.append(decl("g%d" % i, ps, [self.ty(ps, 1) for _ in range(r.choice([0, 1, 1, 2]))], self.ty(ps, 2)))
            for i in range(r.randint(1, 3)):
                ps = ["P", "Q"][:r.choice([1, 1, 2])]
                self.sig.append(decl("q%d" % i, ps, [self.ty(ps, 2) for _ in range(r.choice([1, 1, 2]))], O))
        if not plain and r.random() < .15: self.sig = []; self.base = []; self.poly = False; self.cons = []; self.default = True; self.arith = True
    def ty(self, tvs, d):
        r = self.r
        if tvs and r.random() < .5: return V(r.choice(tvs))
        if self.cons and d and r.random() < .3:
            n, k = r.choice(self.cons)
            return C(n, *[self.ty(tvs, d - 1) for _ in range(k)])
        o = list(self.base)
        if self.arith: o += ["$int", "$rat", "$real"][:2 if r.random() < .7 else 3]
        if self.default or not o: o.append("$i")
        return C(r.choice(o))
    def tvs(self, ctx):
        return [n for n, t in ctx if t == TT and next(u for m, u in reversed(ctx) if m == n) == TT]
    def visible(self, ctx, t):
        seen, out = set(), []
        for n, u in reversed(ctx):
            if n not in seen and u == t: out.append(n)
            seen.add(n)
        return out
    def term(self, ctx, t, d):
        for k in range(3):
            x = self.term1(ctx, t, d)
            if x is not None: return x
        if t["k"] == "c" and t["n"] in NUMS: return dict(nd("num", t["n"]), x=self.r.choice(NUMS[t["n"]]))
        return nd("app", "u0") if t == I else None
    def term1(self, ctx, t, d):
        r = self.r
        vs = self.visible(ctx, t)
        if vs and r.random() < (.5 if d else .9): return nd("var", r.choice(vs))
        cands = []
        for s in self.sig:
            m = {}
            if s["r"] not in (TT, O) and match(s["r"], t, m) and (d or not s["as"]): cands.append((s, m))
        if t["n"] in NUMS and t["k"] == "c":
            if d and r.random() < .4:
                n = r.choice(BIN + UN)
                return nd("app", n, [self.term(ctx, t, d - 1) for _ in range(1 if n in UN else 2)])
            if d and r.random() < .15: return nd("app", {"$int": "$to_int", "$rat": "$to_rat", "$real": "$to_real"}[t["n"]], [self.term(ctx, C(r.choice(list(NUMS))), d - 1)])
            if d and t["n"] == "$rat" and r.random() < .15: return nd("app", "$quotient", [self.term(ctx, C("$int"), d - 1) for _ in "ab"])
            if not cands or r.random() < .5: return dict(nd("num", t["n"]), x=r.choice(NUMS[t["n"]]))
        if t == I and (not cands or r.random() < .5):
            k = r.choice([0, 0, 1, 2]) if d else 0
            return nd("app", "u%d" % k, [self.term(ctx, I, d - 1) for _ in range(k)])
        if not cands:
            if vs: return nd("var", r.choice(vs))
            return None
        s, m = r.choice(cands)
        return self.app(ctx, s, m, d)
    def app(self, ctx, s, m, d):
        for p in s["ps"]: m.setdefault(p, self.ty(self.tvs(ctx), 1))
        a = [as_term(m[p]) for p in s["ps"]]
        for u in s["as"]:
            x = self.term(ctx, subst(u, m), max(d - 1, 0))
            if x is None: return None
            a.append(x)
        return nd("app", s["n"], a)
    def atom(self, ctx):
        r = self.r
        for _ in range(20):
            k = r.random()
            if k < .3:
                t = self.ty(self.tvs(ctx), 2) if not ctx or r.random() < .5 else r.choice(ctx)[1]
                if t == TT: continue
                a, b = self.term(ctx, t, 2), self.term(ctx, t, 2)
                if a and b: return nd("eq", "", [a, b])
            elif k < .4 and self.arith:
                t = C(r.choice(list(NUMS)))
                n = r.choice(["$less", "$lesseq", "$greater", "$greatereq", "$is_int", "$is_rat"])
                return nd("app", n, [self.term(ctx, t, 2) for _ in range(1 if "is" in n else 2)])
            elif k < .5 and self.default:
                n = r.choice([0, 1, 2])
                return nd("app", "v%d" % n, [self.term(ctx, I, 1) for _ in range(n)])
            else:
                ps = [s for s in self.sig if s["r"] == O]
                if not ps: continue
                x = self.app(ctx, r.choice(ps), {}, 3)
                if x: return x
        return nd("top")
    def form(self, ctx, d):
        r = self.r
        k = r.random()
        if d == 0 or k < .15: return self.atom(ctx)
        if k < .55:
            q = r.choice(["all", "ex"])
            vs, new = [], list(ctx)
            tvs = [n for n, t in ctx if t == TT]
            for _ in range(r.choice([1, 1, 2, 3])):
                if self.poly and q == "all" and r.random() < .3:
                    free = [n for n in ("A", "B") if n not in tvs]
                    if not free: continue
                    v = {"n": free[0], "t": TT}; tvs.append(free[0])
                else: v = {"n": r.choice(["X", "Y", "Z"]), "t": self.ty(self.tvs(new), 1)}
                if v["t"] == I and r.random() < .5: v["full"] = True
                vs.append(v); new.append((v["n"], v["t"]))
            if not vs: return self.atom(ctx)
            return nd(q, "", [self.form(new, d - 1)], vs)
        if k < .65: return nd("not", "", [self.form(ctx, d - 1)])
        if k < .85: return nd(r.choice(["and", "or"]), "", [self.form(ctx, d - 1) for _ in range(r.choice([2, 2, 3]))])
        return nd(r.choice(["imp", "eqv"]), "", [self.form(ctx, d - 1), self.form(ctx, d - 1)])
    def stmts(self):
        return self.sig + [form(self.form([], self.r.choice([1, 2, 2, 3, 3]))) for _ in range(self.r.choice([1, 1, 2]))]

def nodes(f, path=(), quant=()):
    """(path, node, kind of the position) for every formula and term"""
    yield path, f
    for i, g in enumerate(f["as"]):
        yield from nodes(g, path + (i,))

def put(f, path, g):
    if not path: return g
    a = list(f["as"]); a[path[0]] = put(a[path[0]], path[1:], g)
    return dict(f, **{"as": a})

def damage(p, stmts, r):
    """the problem with one change that may or may not spoil it"""
    forms = [i for i, s in enumerate(stmts) if s["k"] == "form"]
    i = r.choice(forms)
    f = stmts[i]["f"]
    ns = list(nodes(f))
    for _ in range(40):
        path, x = r.choice(ns)
        k = r.random()
        y = None
        if x["k"] in ("var", "num", "app") and k < .25:          # another term of the problem
            others = [z for _, z in ns if z["k"] in ("var", "num", "app") and z != x]
            if others and path: y = r.choice(others)
        elif x["k"] == "app" and x["as"] and k < .5:
            a = list(x["as"])
            o = r.choice(["drop", "dup", "swap", "swap", "dupe"])
            if o == "drop": a.pop(r.randrange(len(a)))
            elif o == "dup": a.insert(r.randrange(len(a) + 1), r.choice(a))
            elif o == "dupe": a[r.randrange(len(a))] = r.choice(a)
            elif len(a) > 1:
                s, t = r.sample(range(len(a)), 2); a[s], a[t] = a[t], a[s]
            y = dict(x, **{"as": a})
        elif x["k"] == "var" and k < .7: y = nd("var", r.choice(["X", "Y", "Z", "A", "B", "W"]))
        elif x["k"] == "app" and k < .65:
            names = [s["n"] for s in stmts if s["k"] == "decl"] + ["u0", "u1"]
            y = dict(x, n=r.choice(names))
        elif x["k"] in ("all", "ex") and k < .6:
            vs = [dict(v) for v in x["vs"]]
            v = r.choice(vs)
            o = r.random()
            if o < .5: v["t"] = p.ty(p.tvs([]), 1)
            elif o < .65: v["t"] = C(r.choice(["nope", "c_t1", "f0", "p0", "list", "t1"]))
            elif o < .8: v["t"] = C(r.choice(["list", "t1", "pair"]), *[p.ty([], 0) for _ in range(r.choice([1, 2]))])
            elif o < .9: v["n"] = r.choice(["X", "Y", "Z", "W"])
            else: vs.remove(v)
            y = dict(x, vs=vs) if vs else x["as"][0]
        elif x["k"] == "eq" and k < .5:
            a = list(x["as"])
            t = p.term([], p.ty([], 1), 1)
            if t: a[r.randrange(2)] = t; y = dict(x, **{"as": a})
        if y is not None and y != x:
            if x["k"] not in ("var", "num") and y["k"] in ("var", "num") and (not path or ns[0][1]["k"] in ("not", "and", "or", "imp", "eqv", "all", "ex") and parent_is_form(f, path)): continue
            if y["k"] == "app" and y["n"].startswith("$") and x["k"] != "app": pass
            return stmts[:i] + [form(put(f, path, y))] + stmts[i + 1:]
    return stmts

def parent_is_form(f, path):
    for j in path[:-1]: f = f["as"][j]
    return f["k"] in ("not", "and", "or", "imp", "eqv", "all", "ex")

def clean(s):
    """without what only the text needs"""
    if isinstance(s, dict): return {k: clean(v) for k, v in s.items() if k not in ("x", "full")}
    if isinstance(s, list): return [clean(v) for v in s]
    return s
