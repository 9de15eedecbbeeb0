"""Running TLC on a batch of recorded cases."""
import json, os, re, shutil, subprocess, tempfile, time
from .build import VERIF

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TLCError(Exception):
    pass

class Result:
    def __init__(self):
        self.rejects = {}      # case id -> reason
        self.prints = []       # other printed tuples (raw text)
        self.states = 0        # distinct states
        self.generated = 0
        self.wall = 0.0
        self.out = ""
        self.violated = None   # invariant/property violated, if any

def run(module, cases=None, cfg=None, workers=8, timeout=600, heap="6g", env=None, extra=(), allow_violation=False, constants=None):
    """Check spec/<module>.tla; cases (list of dicts) go to the file named by IOEnv.GV_CASES."""
    d = tempfile.mkdtemp(prefix="gv-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"): shutil.copy(os.path.join(SPEC, f), d)
        e = dict(os.environ)
        if cases is not None:
            p = os.path.join(d, "cases.ndjson")
            with open(p, "w") as f:
                for c in cases: f.write(json.dumps(c) + "\n")
            e["GV_CASES"] = p
        if env: e.update(env)
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC on %s took more than %ds" % (module, timeout))
        r = Result()
        r.wall = time.time() - t
        r.out = p.stdout
        for m in re.finditer(r'<<\s*"REJECT",\s*(.*?)>>', p.stdout, re.S):
            parts = re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)', m.group(1))
            parts = [a or b for a, b in parts]
            r.rejects.setdefault(parts[0], " ".join(parts[1:]))
        for m in re.finditer(r'<<\s*"INFO",\s*(.*?)>>', p.stdout, re.S):
            r.prints.append([a or b for a, b in re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)', m.group(1))])
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', p.stdout)
        if m:
            r.generated, r.states = [int(x.replace(",", "")) for x in m[-1]]
        m = re.search(r'(?:Invariant|Action property|Temporal properties?) (\S*)\s*(?:is|were|was) violated', p.stdout)
        if m: r.violated = m.group(1) or "property"
        ok = "Model checking completed. No error has been found." in p.stdout
        if not ok and not (allow_violation and r.violated):
            raise TLCError("TLC failed on %s:\n%s" % (module, p.stdout[-3000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
