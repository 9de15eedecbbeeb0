"""What every check shares: parameters, evidence, violations, known findings, parallel map."""
import json, os, sys, time, random, traceback
from concurrent.futures import ProcessPoolExecutor
from .build import VERIF, Build, BuildError
from . import tlc

KNOWN = os.path.join(VERIF, "known-findings.txt")

def seed(): return int(os.environ.get("VERIF_SEED", "1"))
def tier(): return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"

class Check:
    def __init__(self, pid, level):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.seed, self.tier = seed(), tier()
        self.quick = self.tier == "quick"
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("finding: property=%s " % pid):
                    self.known.append(line[len("finding: property=%s " % pid):])
        self.known_seen = set()

    def n(self, quick, thorough): return quick if self.quick else thorough

    def elapsed(self): return time.time() - self.t0

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and isinstance(self.coverage.get(k), int) and not isinstance(v, bool): self.coverage[k] += v
            else: self.coverage[k] = v

    def tlc(self, module, cases=None, **kw):
        r = tlc.run(module, cases, **kw)
        self.note(states=r.states, transitions=max(r.generated - (len(cases) if cases else 1), 0))
        return r

    def violation(self, what, replay, key=None):
        """replay: anything JSON-able that lets one reproduce; key: identifier matched against the known findings."""
        if key is not None:
            for k in self.known:
                if k.split(" ", 1)[0] == key:
                    self.known_seen.add(k)
                    return
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.coverage,
              "wall_s": round(self.elapsed(), 2), "assumptions": self.assumptions, "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in sorted(self.known): 
            if k in self.known_seen: print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            d = os.path.join(VERIF, ".work", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:10]):
                p = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f: json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
                print("%s: %s" % (self.pid, what))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            if len(self.violations) > 10: print("... %d violations in total" % len(self.violations))
            return 1
        print("%s: held on everything explored (%s, %.0f s) %s" % (self.pid, self.tier, self.elapsed(),
              {k: v for k, v in self.coverage.items() if isinstance(v, (int, float))}))
        return 0

_FN = None
def _call(a): return _FN(a)

def pmap(fn, items, workers=8, chunk=4):
    """Parallel map with fork (fn may be a closure)."""
    global _FN
    items = list(items)
    if not items: return []
    _FN = fn
    import multiprocessing
    with ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context("fork")) as ex:
        return list(ex.map(_call, items, chunksize=chunk))
