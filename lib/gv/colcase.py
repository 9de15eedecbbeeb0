"""Histories of operations on the collections, for Collections.tla."""
from .build import drive

NL, NS, NC = 5, 5, 3
DEF = {"d": 1, "r": 1, "q": 1, "i": 0, "j": 0, "k": 0, "x": 0, "vs": [], "p": "lt"}

def history(rng, n, kinds="lsc"):
    """Positions are in range, and lists sharing storage by contract (slice, add) are not overwritten in place."""
    ls = {k: [] for k in range(1, NL + 1)}          # enough of the meaning to stay in range
    grp = {k: k for k in ls}; fresh = [100]
    made = set()
    ops = []
    U = rng.choice([3, 8, 14])
    V = lambda: rng.randrange(U)
    def vs(): return [V() for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    def own(d): fresh[0] += 1; grp[d] = fresh[0]
    for _ in range(n):
        kind = rng.choice(kinds)
        o = dict(DEF); o.update(r=rng.randint(1, NL), d=rng.randint(1, NL), q=rng.randint(1, NL), x=V(), k=V(), p=rng.choice(["lt", "mod"]))
        if kind == "l":
            s = ls[o["r"]]; N = len(s); alone = sum(1 for k in grp if grp[k] == grp[o["r"]]) == 1
            op = rng.choice(["new", "mk", "mkv", "append", "append", "append", "addm", "add", "add", "copy", "cpy", "slice", "removeat", "filter", "map"]
                            + ["upd", "sort"] * (alone and N > 0) + ["len", "contains", "mem", "find", "indexof", "lindexof", "any", "empty", "equals", "string"]
                            + ["at", "get"] * (N > 0))
            if op == "removeat" and not N: op = "copy"
            if N > 24: op = "new"; o["d"] = o["r"]
            o["op"] = "l." + op; d = o["d"]
            if op in ("mkv", "append", "addm", "add"): o["vs"] = vs()
            if op == "mk": o["i"] = rng.randrange(4)
            if op in ("upd", "at", "removeat"): o["i"] = rng.randrange(N)
            if op in ("slice", "get"): o["i"] = rng.randint(0, N); o["j"] = rng.randint(o["i"], N)
            P = (lambda x: x < o["k"]) if o["p"] == "lt" else (lambda x: x % 2 == o["k"] % 2)
            def addall(s):
                s = s[:]
                for v in o["vs"]:
                    if v not in s: s.append(v)
                return s
            if op in ("append", "addm", "upd", "sort"):
                o["d"] = o["r"]
                if op == "append": ls[o["r"]] = s + o["vs"]
                elif op == "addm": ls[o["r"]] = addall(s)
                elif op == "upd": ls[o["r"]] = s[:o["i"]] + [o["x"]] + s[o["i"] + 1:]
                else: ls[o["r"]] = sorted(s)
            elif op in ("new", "mk", "mkv", "add", "copy", "cpy", "slice", "removeat", "filter", "map"):
                res = {"new": [], "mk": [0] * o["i"], "mkv": o["vs"], "copy": s, "cpy": s, "slice": s[o["i"]:o["j"]], "map": [x + o["x"] for x in s],
                       "removeat": s[:o["i"]] + s[o["i"] + 1:], "filter": [x for x in s if P(x)]}.get(op) if op != "add" else addall(s)
                if op in ("add", "slice"): grp[d] = grp[o["r"]]
                else: own(d)
                ls[d] = list(res)
        elif kind == "s":
            op = rng.choice(["empty", "single", "add", "add", "add", "add", "add", "remove", "remove", "union", "inter", "diff", "copy", "filter", "assign",
                             "contains", "card", "isempty", "disjoint"])
            if op in ("add", "remove") and rng.random() < .5: o["d"] = o["r"]
            o["op"] = "s." + op
            if op == "add": o["vs"] = vs()
        else:
            op = rng.choice(["c.new", "c.get", "c.get", "c.raw", "c.copy", "c.avoid", "c.needs", "o.bind", "e.equals", "par"])
            o.update(r=rng.randint(1, NC), d=rng.randint(1, NC), op=op, i=rng.randrange(2), j=rng.randrange(2))
            if op[0] == "c" and op != "c.new" and o["r"] not in made: o["op"] = "c.new"
            if o["op"] == "c.new": made.add(o["d"])
            if op == "c.copy" and o["op"] == op: made.add(o["d"])
            if op == "par": o["vs"] = vs()
        ops.append(o)
    return ops

def permutations(k):
    """every insertion order of k elements followed by every single removal and every order of removing all of three"""
    import itertools
    for p in itertools.permutations(range(k)):
        for x in range(k):
            o = [dict(DEF, op="s.add", d=1, r=1, vs=[v]) for v in p]
            o += [dict(DEF, op="s.remove", d=2, r=1, x=x), dict(DEF, op="s.remove", d=2, r=2, x=(x + 2) % k), dict(DEF, op="s.remove", d=2, r=2, x=(x + 3) % k)]
            yield o

def run(chk, binary, cases, workers=8):
    from .check import pmap
    n = len(cases); step = max(1, n // workers + 1)
    req = lambda i: {"id": i, "nl": NL, "ns": NS, "ops": cases[i]}
    outs = {}
    for rs in pmap(lambda ix: drive(binary, [req(i) for i in ix], timeout=60), [list(range(i, min(i + step, n))) for i in range(0, n, step)], workers=workers, chunk=1):
        for r in rs: outs[r["id"]] = r
    tl, expect = [], 0
    for i in range(n):
        r = outs[i]
        if "panic" in r:
            chk.violation("collection operation crashed: %s" % r["panic"][:600], cases[i]); continue
        tl.append({"id": str(i), "nl": NL, "ns": NS, "nc": NC, "ev": [dict(o, **x) for o, x in zip(cases[i], r["out"])]})
        expect += len(cases[i]) + 1
    res = chk.tlc("Collections", tl)
    if not res.rejects and res.states != expect: raise RuntimeError("Collections.tla explored %d states, %d expected" % (res.states, expect))
    for cid, why in res.rejects.items():
        i = int(cid); k = int(why.split(" ", 1)[0])
        show = lambda o: "%s(%s)" % (o["op"], ", ".join("%s=%s" % (a, o[a]) for a in DEF if o[a] != DEF[a]))
        chk.violation("%s after %s: %s" % (why.split(" ", 1)[1], show(cases[i][k - 1]), outs[i]["out"][k - 1]),
                      {"history": cases[i][:k], "answers": outs[i]["out"][:k]})
    chk.note(traces_validated_against_impl=len(tl), operations=sum(map(len, cases)))
    if "samples" not in chk.coverage: chk.note(samples=[dict(cases[i][0], **outs[i]["out"][0]) for i in range(2) if "out" in outs[i]])
