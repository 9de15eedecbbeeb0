"""Texts for Reader.tla: random FOF problems over several files, with all the freedom the grammar leaves, and damaged ones."""
import json, os, random, re
from .run import goeland

LOWER = ["p", "q", "r", "a", "b", "c", "f", "g", "cat", "cAt_1", "fof", "include", "axiom", "x0"]
QUOTED = ["'cat'", "'a'", "'p'", "'cAt_1'", "'X'", "'='", "'$true'", "'1'", "'a b'", "'it\\'s'", "'back\\\\slash'", "'%no'", "'/*no*/'", "'p(a).'", "'Cat'", "'_'", "'=>'",
          "'fof'", "'\"a\"'"]
DIST = ['"cat"', '"a"', '"X"', '"a b"', '"say \\"hi\\""', '"\\\\"', '"%"', '"1"', '"a\'b"']
NUM = ["0", "1", "7", "12", "340", "-3", "1.5", "0.25", "-2.0", "2/3", "-1/2", "1e5", "1.5E-3", "2e+4", "12e0"]
UPPER = ["X", "Y", "Z", "X1", "X_1", "Xx", "A"]
BINARY = ["<=>", "=>", "<=", "<~>", "~|", "~&"]
ROLES = ["axiom", "axiom", "axiom", "hypothesis", "definition", "assumption", "lemma", "theorem", "corollary"]
COMMENTS = ["% a comment\n", "%\n", "%% p => q. fof(x,axiom,~p).\n", "/* block */", "/**/", "/* * / ** fof(x,axiom,~p).\n ***/", "%\tt\tab\n", "% caf\u00e9\n", "/* a\nb */", "% 'quote\n",
            "/* caf\u00e9 // */", "%- -\r\n", "/* % */"]

class Text:
    def __init__(self, rng, plain=False):
        self.r, self.plain = rng, plain
        self.funs = {}
        self.odd = 0 if plain else rng.choice([0, 0, .1, .3])
        self.bracket = rng.choice([.1, .3, .6])
        self.depth = rng.choice([1, 2, 2, 3, 3, 4])
        self.eq = rng.choice([0, .15, .3])
        self.lang = "tff" if not plain and rng.random() < .25 else "fof"
        if self.lang == "tff": self.odd = min(self.odd, .1)
        self.names = ["n%d" % i for i in range(1, 30)]
    def name(self, pred):
        r = self.r
        if r.random() < self.odd: return r.choice(QUOTED)
        return r.choice(["p", "q", "r", "p", "q", "r", "cAt_1", "fof", "cat"] if pred else ["a", "b", "c", "f", "g", "cat", "x0", "include", "axiom"])
    def sym(self, pred):
        """a symbol at its arity"""
        n = self.name(pred)
        if self.lang == "tff" and not n.startswith("'"): n = n + "_" * pred      # one use per symbol
        key = (n if not re.fullmatch(r"'[a-z][A-Za-z0-9_]*'", n) else n[1:-1], pred)
        if key not in self.funs: self.funs[key] = 0 if n in ("fof", "include") else self.r.choice([0, 0, 1, 1, 2, 3] if pred else [0, 0, 0, 1, 2])
        return n, self.funs[key]
    def term(self, env, d):
        r = self.r
        if env and r.random() < .5: return [r.choice(env)]
        if r.random() < self.odd * .6: return [r.choice(DIST + NUM)]
        for _ in range(5):
            n, k = self.sym(False)
            if k == 0 or d > 0: break
        else: return ["a0"]
        return self.app(n, k, env, d)
    def app(self, n, k, env, d):
        if k == 0: return [n]
        out = [n, "("]
        for i in range(k):
            if i: out.append(",")
            out += self.term(env, d - 1)
        return out + [")"]
    def atom(self, env):
        r = self.r; x = r.random()
        if x < .06: return [r.choice(["$true", "$false"])]
        if x < .06 + self.eq: return self.term(env, 2) + [r.choice(["=", "!="])] + self.term(env, 2)
        n, k = self.sym(True)
        return self.app(n, k, env, 2)
    def unit(self, env, d):
        r = self.r; x = r.random()
        if d <= 0 or x < .25: return self.atom(env)
        if x < .42:
            u = self.unit(env, d - 1 if r.random() < .7 else d)
            return ["~"] + (u if self.lang == "fof" or u[0] in "~!?(" else ["("] + u + [")"])
        if x < .65:
            vs = r.sample(UPPER, r.choice([1, 1, 2, 3]))
            if r.random() < .02: vs.append(vs[0])
            b = self.unit(env + vs, d - 1)
            if r.random() < .8: b = ["("] + self.form(env + vs, d - 1) + [")"]
            out = [r.choice("!?"), "["]
            for i, v in enumerate(vs): out += [","] * (i > 0) + [v] + ([":", "$i"] if self.lang == "tff" and r.random() < .5 else [])
            return out + ["]", ":"] + b
        return ["("] + self.form(env, d - 1) + [")"]
    def form(self, env, d):
        r = self.r; x = r.random()
        if r.random() < self.bracket * .3: return ["("] + self.form(env, d) + [")"]
        if x < .2 or d <= 0: return self.unit(env, d)
        if x < .6:
            op = r.choice("&|")
            out = self.unit(env, d - 1)
            for _ in range(r.choice([1, 1, 2, 3])): out += [op] + self.unit(env, d - 1)
            return out
        return self.unit(env, d - 1) + [r.choice(BINARY)] + self.unit(env, d - 1)
    def gterm(self, d):
        r = self.r; x = r.random()
        if x < .3: t = [r.choice(LOWER + QUOTED)]
        elif x < .45: t = [r.choice(UPPER + NUM + DIST)]
        elif x < .75 and d: t = [r.choice(["inference", "file", "'f'"]), "("] + self.glist(d - 1, 1) + [")"]
        elif d: return ["["] + self.glist(d - 1, 0) + ["]"]
        else: t = ["unknown"]
        if d and r.random() < .15: t += [":"] + self.gterm(d - 1)
        return t
    def glist(self, d, least):
        out = []
        for i in range(self.r.choice([least, 1, 1, 2, 3])): out += [","] * (i > 0) + self.gterm(d)
        return out
    def statement(self, role=None):
        r = self.r
        n = r.choice(self.names) if r.random() > self.odd else r.choice(QUOTED + ["1", "23", "fof", "axiom"])
        out = [self.lang, "(", n, ",", role or r.choice(ROLES), ","] + self.form([], self.depth)
        if r.random() < .2:
            out += [","] + self.gterm(3)
            if r.random() < .5: out += [",", "["] + self.glist(2, 0) + ["]"]
        return out + [")", "."]
    def gap(self):
        r, out = self.r, ""
        for _ in range(r.choice([1, 1, 1, 2])):
            x = r.random()
            out += " " if x < .6 else "\n" if x < .75 else "\t" if x < .8 else "\r\n" if x < .85 else r.choice(COMMENTS)
        return out
    def lay(self, toks, sep):
        out, last = "", ""
        for t in toks:
            need = last and re.match(r"[A-Za-z0-9_]", t) and re.search(r"[A-Za-z0-9_]$", last)
            glue = last in ("fof", "tff", "include") and t == "("
            if need or (not glue and self.r.random() < sep): out += self.gap() if self.r.random() < self.wild else " "
            out += t; last = t
        return out
    def text(self, statements, end=True):
        r = self.r
        self.wild = 0 if self.plain else r.choice([0, .1, .5, 1])
        sep = r.choice([0, .2, .5, 1])
        out = self.gap() if r.random() < .2 and not self.plain else ""
        for s in statements: out += self.lay(s, sep) + (self.gap() if not self.plain and r.random() < .3 else r.choice(["\n", "\n", " ", ""]))
        if end and r.random() < .85: out += "\n"
        return out

def damage(r, s):
    """a few small edits"""
    s = list(s)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not s: break
        i = r.randrange(len(s)); x = r.random()
        if x < .3: del s[i]
        elif x < .55: s.insert(i, r.choice("()[],.:&|~=!?<>$'\"%*/\\+-@#^` \nXpa01\t\u00e9;{"))
        elif x < .7 and i + 1 < len(s): s[i], s[i + 1] = s[i + 1], s[i]
        elif x < .8: s[i] = r.choice("()[],.:&|~=!?<>Xpa0")
        elif x < .9:
            j = min(len(s), i + r.choice([2, 5, 10])); s[i:j] = []
        else:
            j = min(len(s), i + r.choice([2, 5, 10])); s[i:i] = s[i:j]
    return "".join(s)

FILES = ["a.ax", "b.ax", "sub/c.ax", "sub/d.ax", "plain"]

def problem(r):
    """-> list of (path, text); the first one is the problem"""
    t = Text(r)
    conj = r.random() < .6
    n = r.choice([1, 1, 2, 3, 4])
    files, incs = [], []
    stm = [t.statement() for _ in range(n)]
    if conj: stm.insert(r.randrange(len(stm) + 1), t.statement(r.choice(["conjecture"] * 5 + ["negated_conjecture"])))
    if r.random() < .3:
        used = r.sample(FILES, r.choice([1, 1, 2, 3]))
        holder = {"problem.p": stm}
        for f in used:
            body = [t.statement() for _ in range(r.choice([0, 1, 2, 3]))]
            if not conj and r.random() < .1: body.append(t.statement("conjecture")); conj = True
            host = r.choice(list(holder))
            rel = os.path.relpath(f, os.path.dirname(host) or ".")
            inc = ["include", "(", rel if re.fullmatch(r"[a-z]\w*", rel) and False else "'%s'" % rel]
            if r.random() < .35:
                names = [s[2] for s in body if s[0] != "include"]
                sel = r.sample(names, r.randrange(len(names) + 1)) if names else []
                sel = [re.sub(r"^'([a-z]\w*)'$", r"\1", x) if r.random() < .3 else x for x in sel] + ["zz"] * (not sel)
                inc += [",", "["] + sum([[","] * (i > 0) + [x] for i, x in enumerate(sel)], []) + ["]"]
            if r.random() < .06: inc[2] = "'missing.ax'"
            inc += [")", "."]
            holder[host].insert(r.randrange(len(holder[host]) + 1), inc)
            holder[f] = body
        files = [(k, t.text(v)) for k, v in holder.items()]
    else: files = [("problem.p", t.text(stm))]
    if r.random() < .4:
        i = r.randrange(len(files))
        files[i] = (files[i][0], damage(r, files[i][1]))
    return files

DIRS = ["", "", "sub/", "sub/deep/", "Axioms/", "my dir/"]

def structured(r):
    """Plain statements spread over a tree of files; -> files, decoys (files of the working directory with the same relative names)"""
    t = Text(r, plain=True)
    t.depth = r.choice([0, 1, 1, 2])
    root = r.choice(["", "Problems/"]) + "problem.p"
    holder, decoys = {root: [t.statement() for _ in range(r.choice([0, 1, 1, 2]))]}, []
    for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
        f = r.choice(DIRS) + r.choice(["a.ax", "b.ax", "c", "d.p"])
        if f in holder: continue
        body = [t.statement(r.choice(ROLES)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        for host in r.sample(list(holder), 2 if len(holder) > 1 and r.random() < .15 else 1):
            rel = os.path.relpath(f, os.path.dirname(host) or ".")
            if r.random() < .1: rel = "./" + rel
            inc = ["include", "(", "'%s'" % rel]
            if r.random() < .25:
                names = [s[2] for s in body if s[0] == "fof"]
                sel = r.sample(names, r.randrange(len(names) + 1)) or ["zz"]
                inc += [",", "["] + sum([[","] * (i > 0) + [x] for i, x in enumerate(sel)], []) + ["]"]
            holder[host].insert(r.randrange(len(holder[host]) + 1), inc + [")", "."])
            if not rel.startswith(".."): decoys.append((rel, t.text([t.statement("axiom")]) if r.random() < .7 else "fof(broken.\n"))
        holder[f] = body
    where = [root] * 4 + list(holder)
    for role in r.choice([[], ["conjecture"], ["conjecture"], ["conjecture"], ["negated_conjecture"], ["conjecture"] * (1 + (r.random() < .3))]):
        body = holder[r.choice(where)]; body.insert(r.randrange(len(body) + 1), t.statement(role))
    x = r.random()
    if x < .04: holder[r.choice(list(holder))].append(["include", "(", "'missing.ax'", ")", "."])
    elif x < .08: holder[r.choice(list(holder))].append(["fof", "(", "n0", ",", "axiom", ",", "(", "p", ")", "."])
    elif x < .1: holder[r.choice(list(holder))].append(["fof", "(", "n0", ",", r.choice(["unknown", "plain", "type"]), ",", "(", "p", ")", ")", "."])
    files = [(k, t.text(v, end=False) + r.choice(["", "\n", "% end\n"])) for k, v in holder.items()]
    return files, decoys if r.random() < .5 and not x < .04 else []

INCLUDE = re.compile(r"'(?:[^'\\\n]|\\.)*'")

def chars(text): return list(text.encode("utf8"))

def names(path, files):
    """what the quoted names of this file would denote in an include directive"""
    out = []
    here = os.path.dirname(path)
    order = [p for p, _ in files]
    text = dict(files)[path]
    toks = {m.group() for m in (INCLUDE.match(text, i) for i in range(len(text)) if text[i] == "'") if m}    # wherever a quote is
    for tok in sorted(toks):
        raw = re.sub(r"\\(.)", r"\1", tok[1:-1])
        p = os.path.normpath(os.path.join(here, raw))
        if p in order: out.append({"n": tok[1:-1] if re.fullmatch(r"[a-z][A-Za-z0-9_]*", tok[1:-1]) else tok, "to": order.index(p) + 1})
    return out

NODE = {"k": "top", "n": "", "i": 0, "s": []}
def node(k, n="", i=0, s=()): return {"k": k, "n": n, "i": i, "s": list(s)}

class Odd(Exception): pass

def term(t, env):
    if t["k"] == "v":
        for j, v in enumerate(env):
            if v == (t["n"], t["i"]): return node("b", i=j)
        raise Odd("free variable %s" % t["n"])
    if t["k"] != "f": raise Odd("term %s" % t)
    return node("fun", t["n"], s=[term(a, env) for a in t["a"] if not a["n"].startswith("$ty:")])

def form(f, env=()):
    k = f["k"]
    if k in ("top", "bot"): return node(k)
    if k == "pred": return node(k, f["n"], s=[term(a, env) for a in f["a"] if not a["n"].startswith("$ty:")])
    if k in ("all", "ex"):
        vs = [(v["n"], v["i"]) for v in f["v"]]
        g = form(f["s"][0], tuple(reversed(vs)) + tuple(env))
        for _ in vs: g = node(k, s=[g])
        return g
    if k == "?": raise Odd(f["n"])
    return node(k, s=[form(g, env) for g in f["s"]])

def size(f): return 1 + sum(size(x) for x in f["s"])

def write(dirname, files):
    for p, t in files:
        q = os.path.join(dirname, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w", newline="") as f: f.write(t)

def read(binary, dirname, files, opts=(), timeout=10, cwd=None):
    """Run the prover's reader on the files (written beforehand); -> (impl record or None, run)"""
    d = os.path.join(dirname, "form.json")
    if os.path.exists(d): os.remove(d)
    r = goeland(binary, os.path.join(dirname, files[0][0]), opts, timeout=timeout, env={"GV_FORM": d}, cwd=cwd)
    if r["timeout"]: return None, r
    if not os.path.exists(d): return {"ok": False, "f": NODE, "conj": False}, r
    j = json.load(open(d))
    try: f = form(j["f"])
    except Odd as e: f = node("odd", str(e))
    return {"ok": True, "f": f, "conj": j["conj"], "bound": j["bound"]}, r

def verdict(binary, dirname, files, opts, timeout=3, cwd=None):
    """What a run tells: None if it takes too long"""
    r = goeland(binary, os.path.join(dirname, files[0][0]), opts, timeout=timeout, cwd=cwd)
    if r["timeout"]: return None
    out = r["out"] + "\n" + r["err"]
    szs = re.findall(r"SZS status (\S+) for (.*)", out)
    res = re.findall(r"RES : (VALID|NOT VALID)", out)
    return {"m": " ".join(opts), "rc": r["rc"], "s": [a for a, _ in szs], "named": all(n.strip() == os.path.basename(files[0][0]) for _, n in szs), "r": res}
