import os, random
from gv.check import Check, pmap
from gv.build import Build, BuildError
from gv.fol import *
from gv.gen import *
from gv.verdicts import problem_text
from gv import chantrace as CT, corpus

GENS = [lambda r: (near_miss(r), PLAIN), lambda r: (random_problem(r), PLAIN), lambda r: (clausal(r), PLAIN), lambda r: (clausal(r), PLAIN),
        lambda r: (clausal(r, rules=2), DMT), lambda r: (near_miss(r, eq=True), PLAIN), lambda r: (random_problem(r, eq=.3), PLAIN),
        lambda r: (fight(r), PLAIN), lambda r: (fight(r), PLAIN)]
PLAIN = [(), (), ("-inner",), ("-preinner",), ("-completeness",), ("-flatten",), ("-noeq",), ("-proof",)]
DMT = [("-dmt",), ("-dmt", "-polarized"), ("-dmt", "-inner"), ("-dmt", "-preinner")]

def fight(r):
    """branches that share metavariables and may be closed in several, often incompatible, ways"""
    vs, cs = ["X", "Y", "Z"][:r.randint(1, 3)], "abc"[:r.randint(2, 3)]
    ps = ["p", "q", "r", "s"][:r.randint(2, 4)]
    def lit(): return P(r.choice(ps), *[V(r.choice(vs)) if r.random() < .75 else F(r.choice(cs)) for _ in range(2)])
    def clause(n):
        def tree(k):
            if k == 1: return lit()
            a = r.randint(1, k - 1)
            f = (Or if r.random() < .75 else And)(tree(a), tree(k - a))
            return f
        return tree(n)
    f = clause(r.randint(2, 5))
    for v in vs: f = All(v, f)
    ax = [f]
    for p in ps:
        for _ in range(r.randint(1, 4)):
            if r.random() < .85: ax.append(Not(P(p, F(r.choice(cs)), F(r.choice(cs)))))
    r.shuffle(ax)
    return ax, None

def main():
    chk = Check("X01", "model_checking")
    for cfg in ["ChannelsMC", "ChannelsNested"] + ([] if chk.quick else ["ChannelsThree"]):
        res = chk.tlc("ChannelsMC", cfg=cfg, timeout=600 if chk.quick else 7000, allow_violation=True, heap="10g")
        if res.violated: chk.violation("the protocol itself fails in the exhaustive exploration %s: %s" % (cfg, res.violated), {"out": res.out[-6000:]})
    b = Build()
    try: g, hooked = b.goeland(tags="verif", dump=False), True
    except BuildError as e:
        # the observation points no longer fit the code: only what shows from outside can be judged
        g, hooked = b.goeland(dump=False), False
        chk.note(without_hooks=str(e)[-600:]); print("NOTE: X01 runs without its observation points")
    base = chk.rng.randrange(1 << 30)
    def one(i):
        if chk.elapsed() > chk.n(65, 2000): return []
        rng = random.Random(base + i)
        (ax, cj), modes = rng.choice(GENS)(rng)
        text = problem_text(ax, cj)
        path = b.tmp("x%d.p" % i); out = []
        with open(path, "w") as f: f.write(text)
        for j in range(2):
            opts = ("-one_step", "-l", str(rng.choice([1, 2, 3, 4, 6]))) + rng.choice(modes)
            r, ev = CT.record(g, path, opts, 3, b.tmp("x%d.log" % i), rng.randrange(10 ** 6))
            if r["timeout"]:
                out.append(("timeout", text, opts, None, None)); break
            if not hooked: r["status"] = r["status"] or ""
            crash = "all goroutines are asleep" in r["err"]
            if crash: out.append(("deadlock", text, opts, None, r["err"][:600])); continue
            if len(ev) > chk.n(1200, 4000): continue
            for s in CT.split(ev):
                try: lin, left = CT.linear(s)
                except CT.Odd as e: out.append(("odd", text, opts, None, str(e))); continue
                if s[-1]["op"] == "end" and s[-1]["alive"] and s[-1] not in lin: lin.append(s[-1])
                yes = r["status"] in ("Theorem", "Unsatisfiable")
                out.append(("ok" if s[-1]["op"] == "end" and r["status"] else "cut", text, opts, lin, CT.case("%d.%d" % (i, j), lin, yes)))
        os.remove(path)
        return out
    stats = {"searches": 0, "complete": 0, "timeouts": 0, "events": 0}
    kinds, cases, info = {}, [], {}
    for rs in pmap(one, range(chk.n(1600, 60000))):
        for how, text, opts, lin, cs in rs:
            stats["searches"] += 1
            if how == "odd": stats["odd"] = stats.get("odd", 0) + 1; continue
            if how == "timeout": stats["timeouts"] += 1; continue
            if how == "deadlock":
                chk.violation("all branch searches wait for each other\n%s %s\n%s" % (" ".join(opts), cs, text), {"problem": text, "opts": opts})
                continue
            if how == "ok": stats["complete"] += 1
            if any(e["op"] == "received" for e in lin): continue
            stats["events"] += len(lin)
            for e in lin:
                k = e["op"] + (" " + e["st"] if e["op"] == "round" else "")
                kinds[k] = kinds.get(k, 0) + 1
            cases.append(cs); info[cs["id"]] = (text, opts, lin)
    for i in range(0, len(cases), 3000):
        res = chk.tlc("ChannelsTrace", cases[i:i + 3000], timeout=800)
        for cid, why in res.rejects.items():
            text, opts, lin = info[cid]
            k, what = why.split(" ", 1); k = int(k)
            log = "\n".join(CT.show_event(e) for e in lin[:k])
            if len(chk.violations) < 12:
                chk.violation("%s\n%s\n%s\n%s" % (what, " ".join(opts), text, log[-2500:]), {"problem": text, "opts": opts, "events": log})
    chk.note(traces_validated_against_impl=len(cases), event_kinds=kinds, **stats)
    chk.note(rule="ChannelsMC: every interleaving of the protocol on all small families of closing substitutions; ChannelsTrace: the messages of real "
                  "searches, recorded under varied schedules, have to be steps of the specification")
    chk.assumptions.append("the hooks of the build tag verif report the messages faithfully")
    return chk.finish()
