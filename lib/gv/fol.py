"""First-order formulas as tuples.

terms:    ('v', name) | ('f', name, (args...)) | ('m', key)            (m: free metavariable)
formulas: ('pred', name, (args...)) | ('eq', s, t) | ('not', F) | ('and', (F...)) | ('or', (F...))
          | ('imp', A, B) | ('eqv', A, B) | ('all', x, F) | ('ex', x, F) | ('top',) | ('bot',)
"""
import itertools, random

# ---------------------------------------------------------------- construction helpers
def V(x): return ('v', x)
def F(n, *a): return ('f', n, tuple(a))
def P(n, *a): return ('pred', n, tuple(a))
def Eq(a, b): return ('eq', a, b)
def Not(f): return ('not', f)
def And(*f): return ('and', tuple(f))
def Or(*f): return ('or', tuple(f))
def Imp(a, b): return ('imp', a, b)
def Eqv(a, b): return ('eqv', a, b)
def All(xs, f):
    for x in reversed([xs] if isinstance(xs, str) else list(xs)):
        f = ('all', x, f)
    return f
def Ex(xs, f):
    for x in reversed([xs] if isinstance(xs, str) else list(xs)):
        f = ('ex', x, f)
    return f

# ---------------------------------------------------------------- TPTP printing
def term_str(t):
    if t[0] == 'v': return t[1]
    if t[0] == 'm': return 'META_%s' % (t[1],)
    return t[1] + ('(' + ','.join(term_str(a) for a in t[2]) + ')' if t[2] else '')

def tptp(f):
    """Fully parenthesised FOF text."""
    k = f[0]
    if k == 'pred': return f[1] + ('(' + ','.join(term_str(a) for a in f[2]) + ')' if f[2] else '')
    if k == 'eq': return '(%s = %s)' % (term_str(f[1]), term_str(f[2]))
    if k == 'not':
        if f[1][0] == 'eq': return '(%s != %s)' % (term_str(f[1][1]), term_str(f[1][2]))
        return '(~ %s)' % tptp(f[1])
    if k in ('and', 'or'):
        if len(f[1]) == 1: return tptp(f[1][0])
        return '(' + (' & ' if k == 'and' else ' | ').join(tptp(g) for g in f[1]) + ')'
    if k == 'imp': return '(%s => %s)' % (tptp(f[1]), tptp(f[2]))
    if k == 'eqv': return '(%s <=> %s)' % (tptp(f[1]), tptp(f[2]))
    if k in ('all', 'ex'):
        xs = []
        g = f
        while g[0] == k:
            if g[1] in xs: break
            xs.append(g[1]); g = g[2]
        return '(%s [%s] : %s)' % ('!' if k == 'all' else '?', ','.join(xs), tptp(g))
    if k == 'top': return '$true'
    if k == 'bot': return '$false'
    raise ValueError(f)

def problem_text(axioms, conj, name='p'):
    s = ''.join('fof(a%d,axiom,%s).\n' % (i, tptp(a)) for i, a in enumerate(axioms))
    if conj is not None:
        s += 'fof(c,conjecture,%s).\n' % tptp(conj)
    return s

# ---------------------------------------------------------------- traversals
def term_syms(t, fs):
    if t[0] == 'f':
        fs.setdefault(t[1], len(t[2]))
        for a in t[2]: term_syms(a, fs)

def symbols(f, fs=None, ps=None):
    fs = {} if fs is None else fs
    ps = {} if ps is None else ps
    k = f[0]
    if k == 'pred':
        ps.setdefault(f[1], len(f[2]))
        for a in f[2]: term_syms(a, fs)
    elif k == 'eq':
        term_syms(f[1], fs); term_syms(f[2], fs)
    elif k in ('not',): symbols(f[1], fs, ps)
    elif k in ('and', 'or'):
        for g in f[1]: symbols(g, fs, ps)
    elif k in ('imp', 'eqv'):
        symbols(f[1], fs, ps); symbols(f[2], fs, ps)
    elif k in ('all', 'ex'): symbols(f[2], fs, ps)
    return fs, ps

def has_eq(f):
    k = f[0]
    if k == 'eq': return True
    if k == 'not': return has_eq(f[1])
    if k in ('and', 'or'): return any(has_eq(g) for g in f[1])
    if k in ('imp', 'eqv'): return has_eq(f[1]) or has_eq(f[2])
    if k in ('all', 'ex'): return has_eq(f[2])
    return False

def size(f):
    k = f[0]
    if k in ('pred', 'eq', 'top', 'bot'): return 1
    if k == 'not': return 1 + size(f[1])
    if k in ('and', 'or'): return 1 + sum(size(g) for g in f[1])
    if k in ('imp', 'eqv'): return 1 + size(f[1]) + size(f[2])
    return 1 + size(f[2])

def tmap(t, fn):
    r = fn(t)
    if r is not None: return r
    if t[0] == 'f': return ('f', t[1], tuple(tmap(a, fn) for a in t[2]))
    return t

def fmap_terms(f, fn):
    k = f[0]
    if k == 'pred': return ('pred', f[1], tuple(tmap(a, fn) for a in f[2]))
    if k == 'eq': return ('eq', tmap(f[1], fn), tmap(f[2], fn))
    if k == 'not': return ('not', fmap_terms(f[1], fn))
    if k in ('and', 'or'): return (k, tuple(fmap_terms(g, fn) for g in f[1]))
    if k in ('imp', 'eqv'): return (k, fmap_terms(f[1], fn), fmap_terms(f[2], fn))
    if k in ('all', 'ex'): return (k, f[1], fmap_terms(f[2], fn))
    return f

# ---------------------------------------------------------------- JSON for the TLA+ specifications (de Bruijn)
def jterm(t, env=()):
    if t[0] == 'v':
        for i, x in enumerate(env):
            if x == t[1]: return {"k": "b", "n": "", "i": i, "a": []}
        return {"k": "f", "n": "?" + t[1], "i": 0, "a": []}
    if t[0] == 'm': return {"k": "m", "n": str(t[1]), "i": 0, "a": []}
    return {"k": "f", "n": t[1], "i": 0, "a": [jterm(a, env) for a in t[2]]}

def jform(f, env=()):
    k = f[0]
    if k == 'pred': return {"k": "pred", "n": f[1], "a": [jterm(a, env) for a in f[2]], "s": []}
    if k == 'eq': return {"k": "pred", "n": "=", "a": [jterm(f[1], env), jterm(f[2], env)], "s": []}
    if k == 'not': return {"k": "not", "n": "", "a": [], "s": [jform(f[1], env)]}
    if k in ('and', 'or'): return {"k": k, "n": "", "a": [], "s": [jform(g, env) for g in f[1]]}
    if k in ('imp', 'eqv'): return {"k": k, "n": "", "a": [], "s": [jform(f[1], env), jform(f[2], env)]}
    if k in ('all', 'ex'): return {"k": k, "n": "", "a": [], "s": [jform(f[2], (f[1],) + tuple(env))]}
    return {"k": k, "n": "", "a": [], "s": []}

# ---------------------------------------------------------------- dump (harness) nodes -> de Bruijn JSON
def dterm(n, env):
    if n["k"] == "v":
        for i, x in enumerate(env):
            if x == ((n["n"], n["i"]) if n["i"] >= 0 else n["n"]): return {"k": "b", "n": "", "i": i, "a": []}
        return {"k": "f", "n": "?unbound:%s:%s" % (n["n"], n["i"]), "i": 0, "a": []}
    if n["k"] == "m": return {"k": "m", "n": "%s#%d" % (n["n"], n["i"]), "i": 0, "a": []}
    return {"k": "f", "n": n["n"], "i": 0, "a": [dterm(a, env) for a in n.get("a", [])]}

def dform(n, env=()):
    k = n["k"]
    if k == "pred": return {"k": "pred", "n": n["n"], "a": [dterm(a, env) for a in n["a"]], "s": []}
    if k in ("all", "ex"):
        e = tuple(env)
        for v in n["v"]:
            e = (("$ty:" + v["n"]) if v["ty"] else (v["n"], v["i"]),) + e
        r = dform(n["s"][0], e)
        for v in n["v"]:
            r = {"k": k, "n": "", "a": [], "s": [r]}
        return r
    return {"k": k, "n": "", "a": [], "s": [dform(s, env) for s in n.get("s", [])]}

# ---------------------------------------------------------------- finite models
class Model:
    """size, fn[name] = list indexed by base-size digits (first argument most significant), pr likewise with 0/1."""
    def __init__(self, n, fn, pr):
        self.n, self.fn, self.pr = n, fn, pr
    def idx(self, args):
        r = 0
        for a in args: r = r * self.n + a
        return r
    def term(self, t, env):
        if t[0] == 'v': return env[t[1]]
        return self.fn[t[1]][self.idx([self.term(a, env) for a in t[2]])]
    def holds(self, f, env=None):
        env = env or {}
        k = f[0]
        if k == 'pred': return bool(self.pr[f[1]][self.idx([self.term(a, env) for a in f[2]])])
        if k == 'eq': return self.term(f[1], env) == self.term(f[2], env)
        if k == 'not': return not self.holds(f[1], env)
        if k == 'and': return all(self.holds(g, env) for g in f[1])
        if k == 'or': return any(self.holds(g, env) for g in f[1])
        if k == 'imp': return (not self.holds(f[1], env)) or self.holds(f[2], env)
        if k == 'eqv': return self.holds(f[1], env) == self.holds(f[2], env)
        if k == 'all': return all(self.holds(f[2], {**env, f[1]: d}) for d in range(self.n))
        if k == 'ex': return any(self.holds(f[2], {**env, f[1]: d}) for d in range(self.n))
        return k == 'top'
    def json(self):
        return {"n": self.n, "fn": [{"n": k, "t": list(v)} for k, v in sorted(self.fn.items())],
                "pr": [{"n": k, "t": list(v)} for k, v in sorted(self.pr.items())]}

def find_model(fs, maxn=3, timeout_ms=400):
    """Finite model of the conjunction of the closed formulas fs (z3 used purely as a search heuristic:
    every witness is re-verified, in Python here and by TLC against FOL.tla in the checks)."""
    import z3
    fsyms, psyms = {}, {}
    for f in fs: symbols(f, fsyms, psyms)
    for n in range(1, maxn + 1):
        s = z3.SolverFor("QF_FD")
        s.set("timeout", timeout_ms)
        fv = {g: [[z3.Bool("f_%s_%d_%d" % (g, i, v)) for v in range(n)] for i in range(n ** ar)] for g, ar in fsyms.items()}
        pv = {p: [z3.Bool("p_%s_%d" % (p, i)) for i in range(n ** ar)] for p, ar in psyms.items()}
        for g in fv:
            for cell in fv[g]:
                s.add(z3.Or(*cell))
                for a, b in itertools.combinations(cell, 2): s.add(z3.Not(z3.And(a, b)))
        budget = [60000]
        def term(t, env):  # -> list of (value, [conditions])
            budget[0] -= 1
            if budget[0] < 0: raise OverflowError
            if t[0] == 'v': return [(env[t[1]], [])]
            res = []
            for combo in itertools.product(*[term(a, env) for a in t[2]]):
                i = 0; conds = []
                for v, c in combo: i = i * n + v; conds = conds + c
                for v in range(n): res.append((v, conds + [fv[t[1]][i][v]]))
            return res
        def form(f, env):
            budget[0] -= 1
            if budget[0] < 0: raise OverflowError
            k = f[0]
            if k == 'pred' or k == 'eq':
                args = f[2] if k == 'pred' else f[1:]
                outs = []
                for combo in itertools.product(*[term(a, env) for a in args]):
                    i = 0; conds = []
                    for v, c in combo: i = i * n + v; conds = conds + c
                    if k == 'eq':
                        if combo[0][0] != combo[1][0]: continue
                        outs.append(z3.And(*conds) if conds else z3.BoolVal(True))
                    else:
                        outs.append(z3.And(*(conds + [pv[f[1]][i]])))
                return z3.Or(*outs) if outs else z3.BoolVal(False)
            if k == 'not': return z3.Not(form(f[1], env))
            if k == 'and': return z3.And(*[form(g, env) for g in f[1]])
            if k == 'or': return z3.Or(*[form(g, env) for g in f[1]])
            if k == 'imp': return z3.Implies(form(f[1], env), form(f[2], env))
            if k == 'eqv': return form(f[1], env) == form(f[2], env)
            if k == 'all': return z3.And(*[form(f[2], {**env, f[1]: d}) for d in range(n)])
            if k == 'ex': return z3.Or(*[form(f[2], {**env, f[1]: d}) for d in range(n)])
            return z3.BoolVal(k == 'top')
        try:
            for f in fs: s.add(form(f, {}))
        except OverflowError:
            return None
        if s.check() == z3.sat:
            m = s.model()
            fn = {g: [next((v for v in range(n) if z3.is_true(m.eval(cell[v]))), 0) for cell in fv[g]] for g in fv}
            pr = {p: [1 if z3.is_true(m.eval(c)) else 0 for c in pv[p]] for p in pv}
            M = Model(n, fn, pr)
            if all(M.holds(f) for f in fs): return M
    return None
