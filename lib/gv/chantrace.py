"""Recorded branch protocols (hooks of the tag verif), linearised for ChannelsTrace.tla."""
import json, os, random
from .intern import Tables
from .run import goeland

LOCAL = ("root", "kids", "round", "end")
PAIR = {"answered": "received", "stopped": "stop", "told": "tell"}
BACK = {v: k for k, v in PAIR.items()}

class Odd(Exception): pass

def split(events):
    """one list of events per search (a search starts with root)"""
    out = []
    for e in events:
        if e["op"] == "root": out.append([])
        if not out: raise Odd("event before the search")
        out[-1].append(e)
    return out

def linear(events):
    """one rendezvous per event: the logs of the processes, merged"""
    par, logs, root = {}, {}, None
    for e in events:
        o, c = e["op"], e.get("c")
        if o == "root": root = c; par[c] = 0; actor = 0; logs[0] = []
        elif o == "end": actor = 0
        elif o in BACK:
            if c not in par: raise Odd("%s: %s is nobody's branch" % (o, c))
            actor = par[c]
        else: actor = c
        if o == "kids":
            for k in e["ks"]: par.setdefault(k, c)
        logs.setdefault(actor, []).append(e)
    pos = {a: 0 for a in logs}; alive = set(); out = []
    def head(a): return logs[a][pos[a]] if a in logs and pos[a] < len(logs[a]) else None
    done = False
    work = [0]
    while True:
        moved = False
        for a in list(logs):
            if a != 0 and a not in alive: continue
            while True:
                e = head(a)
                if e is None: break
                o = e["op"]
                if o == "end":
                    if any(head(b) is not None for b in logs if b != 0): break
                    out.append(e); pos[a] += 1; moved = True; continue
                if o in LOCAL:
                    if o == "root": alive.add(e["c"])
                    if o == "kids": alive.update(e["ks"])
                    out.append(e); pos[a] += 1; moved = True; continue
                if o in PAIR:       # the child's side: wait for the parent's
                    p = par.get(a, 0); f = head(p)
                    if f is None or f["op"] != PAIR[o] or f["c"] != a: break
                    out.append({"answered": dict(f, op="ans"), "stopped": dict(f, op="quit"), "told": dict(f, op="tell", mc=e.get("mc"))}[o])
                    pos[a] += 1; pos[p] += 1; moved = True; continue
                # the parent's side
                f = head(e["c"]) if e["c"] in alive else None
                if f is None or f["op"] not in PAIR or PAIR[f["op"]] != o: break
                a2 = e["c"]
                out.append({"answered": dict(e, op="ans"), "stopped": dict(e, op="quit"), "told": dict(e, op="tell", mc=f.get("mc"))}[f["op"]])
                pos[a2] += 1; pos[a] += 1; moved = True
        if not moved: break
    left = sum(len(logs[a]) - pos[a] for a in logs)
    return out, left

def case(cid, events, yes):
    tb = Tables(); substs, ix = [], {}
    def norm(t): return {"k": t["k"], "n": t["n"], "i": 0, "a": [norm(x) for x in t["a"]]}
    T = lambda t: tb.term(norm(t))
    def sub(s):
        v = tuple((T(a), T(b)) for a, b in s)
        if v not in ix:
            substs.append([list(p) for p in v]); ix[v] = len(substs)
        return ix[v]
    ev = []
    for e in events:
        o = e["op"]
        if o == "root": ev.append({"op": o, "c": e["c"]})
        elif o == "end": ev.append({"op": o, "alive": e["alive"], "yes": yes})
        elif o == "kids": ev.append({"op": o, "c": e["c"], "ks": e["ks"], "cur": sub(e["cur"])})
        elif o == "round": ev.append({"op": o, "c": e["c"], "st": e["st"], "ss": [sub(s) for s in e["ss"]], "ap": sub(e["ap"]), "mm": [T(m) for m in e["mm"]]})
        elif o == "ans": ev.append({"op": o, "c": e["c"], "closed": e["closed"], "need": e["need"], "ss": [sub(s) for s in e["ss"]]})
        elif o == "quit": ev.append({"op": o, "c": e["c"], "kill": e["kill"]})
        elif o == "tell": ev.append({"op": o, "c": e["c"], "s": sub(e["s"]), "mc": [T(m) for m in e["mc"] or []]})
    return dict(tb.json(), id=cid, ss=substs or [[[1, 1]]], ev=ev)

def shows(s):
    from .unifcase import show
    return "{" + ", ".join("%s -> %s" % (show(a), show(b)) for a, b in s) + "}"

def show_event(e):
    o = e["op"]
    if o == "root": return "search starts with %d" % e["c"]
    if o == "end": return "search over, %d processes left" % e["alive"]
    if o == "kids": return "%d waits for %s (current %s)" % (e["c"], e["ks"], shows(e["cur"]))
    if o == "round": return "%d decides %s %s (applied %s)" % (e["c"], e["st"], " ".join(map(shows, e["ss"])), shows(e["ap"]))
    if o == "ans": return "%d answers %s%s %s" % (e["c"], "closed" if e["closed"] else "OPEN", "" if e["need"] else " and ends", " ".join(map(shows, e["ss"])))
    if o == "quit": return "%d is told to %s" % (e["c"], "quit" if e["kill"] else "wait")
    if o == "tell": return "%d is given %s" % (e["c"], shows(e["s"]))

def record(binary, path, opts, timeout, trace, sched):
    env = {"GV_TRACE": trace, "GOMAXPROCS": str(random.Random(sched).choice([1, 2, 4, 8]))}
    if sched % 3: env["GV_SCHED"] = str(sched)
    if os.path.exists(trace): os.unlink(trace)
    r = goeland(binary, path, opts, timeout, env=env)
    ev = []
    if os.path.exists(trace):
        for line in open(trace, errors="replace"):
            if line.endswith("\n"):
                try: ev.append(json.loads(line))
                except ValueError: pass
        os.unlink(trace)
    return r, ev
