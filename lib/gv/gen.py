"""Problem generators (all randomness from an explicit random.Random)."""
import random
from .fol import *
from .tparse import parse

# Theorem schemas "axioms |- conjecture": the seeds of the near-miss mutations.
THEOREMS = [
 ("! [X] : (p(X) => q(X))", "p(a)", "|-", "q(a)"),
 ("! [X] : ? [Y] : r(X,Y)", "! [X,Y] : (r(X,Y) => q(Y))", "|-", "? [X] : q(X)"),
 ("? [Y] : ! [X] : r(X,Y)", "|-", "! [X] : ? [Y] : r(X,Y)"),
 ("|-", "? [X] : (p(X) => ! [Y] : p(Y))"),
 ("|-", "! [X] : ? [Y] : (p(X) => p(Y))"),
 ("! [X] : (p(X) | q(X))", "|-", "(! [X] : p(X)) | (? [X] : q(X))"),
 ("! [X] : (p(X) => p(f(X)))", "p(a)", "|-", "p(f(f(a)))"),
 ("! [X,Y] : (r(X,Y) => r(Y,X))", "! [X,Y,Z] : ((r(X,Y) & r(Y,Z)) => r(X,Z))", "r(a,b)", "|-", "r(a,a)"),
 ("! [X] : (p(X) <=> q(f(X)))", "p(a)", "|-", "q(f(a))"),
 ("! [X] : (p(X) <=> (q(X) & s))", "? [X] : p(X)", "|-", "s"),
 ("! [X] : ? [Y] : (r(X,Y) & (p(Y) | q(X)))", "! [X,Y] : (r(X,Y) => (~ p(Y) & ~ q(X)))", "|-", "? [X] : t(X)"),
 ("! [X] : (q(X) => (? [Y] : r(X,Y)))", "! [X,Y] : (r(X,Y) => p(Y))", "q(a)", "|-", "? [Z] : p(Z)"),
 ("? [X] : ! [Y] : (r(X,Y) <=> ~ r(Y,X))", "|-", "? [X] : r(X,X)"),
 ("|-", "~ (? [X] : ! [Y] : (r(X,Y) <=> ~ r(Y,Y)))"),
 ("|-", "((! [X] : (p(X) => q(X))) & (? [X] : p(X))) => (? [X] : q(X))"),
 ("! [X,Y] : (r(X,Y) => r(f(Y),X))", "r(a,b)", "|-", "r(f(a),f(b))"),
 ("! [X] : r(X,f(X))", "! [X,Y] : (r(X,Y) => (p(X) | p(Y)))", "! [X] : (p(f(X)) => p(X))", "|-", "p(a)"),
 ("! [X] : (p(X) | ? [Y] : (r(X,Y) & q(Y)))", "! [X] : (~ q(X) | p(X))", "! [X,Y] : ((r(X,Y) & p(Y)) => p(X))", "|-", "! [X] : p(X)"),
 ("p(a) | p(b)", "! [X] : (p(X) => (? [Y] : r(X,Y)))", "|-", "? [X,Y] : r(X,Y)"),
 ("! [X] : ((? [Y] : r(X,Y)) => p(X))", "! [X] : ? [Y] : r(Y,X)", "|-", "? [X] : p(X)"),
 ("! [X,Y] : (p(g(X,Y)) <=> (p(X) & p(Y)))", "p(g(a,g(b,c)))", "|-", "p(b)"),
 ("! [X,Y] : (p(X) | q(Y))", "|-", "(! [X] : p(X)) | (! [Y] : q(Y))"),
 ("? [X] : (p(X) & ! [Y] : (q(Y) => r(X,Y)))", "! [X] : (p(X) => ! [Y] : (t(Y) => ~ r(X,Y)))", "|-", "! [X] : (q(X) => ~ t(X))"),
 ("! [X] : ((p(X) & q(X)) => t(X))", "? [X] : (q(X) & ~ t(X))", "|-", "? [X] : ~ p(X)"),
 ("! [X] : ? [Y] : ! [Z] : (r(X,Y) | r(Y,Z))", "! [X,Y] : ~ r(f(X),Y)", "|-", "? [Y] : ! [Z] : r(Y,Z)"),
 ("s => p(a)", "~ s => p(b)", "|-", "? [X] : p(X)"),
 ("p(a) <=> (p(b) <=> s)", "s", "p(b)", "|-", "p(a)"),
 ("! [X] : (p(X) => ! [Y] : (p(Y) => r(X,Y)))", "p(a)", "p(f(a))", "|-", "r(a,f(a)) & r(f(a),a)"),
 ("! [X] : (? [Y] : r(X,Y) <=> p(X))", "r(a,b)", "|-", "p(a)"),
 ("? [X] : ? [Y] : (r(X,Y) & ! [Z] : (r(Y,Z) => q(Z)))", "! [X,Y] : (r(X,Y) => r(Y,X))", "|-", "? [X] : q(X)"),
 ("|-", "? [X] : ! [Y] : (p(Y) => p(X)) "),
 ("|-", "? [X,Y] : ((p(X) => p(Y)) & (q(Y) => q(X))) "),
 ("! [X] : (p(X) => (q(X) | t(X)))", "! [X] : (t(X) => q(f(X)))", "p(a)", "|-", "? [X] : q(X)"),
 ("! [X] : ((! [Y] : (r(Y,X) => p(Y))) => p(X))", "! [X] : ~ r(X,a)", "! [X] : (r(X,f(X)) & ! [Y] : (r(Y,f(X)) => (p(X) => p(Y))))", "|-", "p(f(a))"),
]
EQ_THEOREMS = [
 ("a = b", "p(a)", "|-", "p(b)"),
 ("a = b", "b = c", "|-", "f(a) = f(c)"),
 ("! [X] : f(X) = X", "p(f(a))", "|-", "p(a)"),
 ("! [X,Y] : g(X,Y) = g(Y,X)", "p(g(a,b))", "|-", "p(g(b,a))"),
 ("f(f(f(a))) = a", "f(f(f(f(f(a))))) = a", "|-", "f(a) = a"),
 ("! [X] : (p(X) => X = a)", "p(b)", "q(b)", "|-", "q(a)"),
 ("! [X] : ? [Y] : f(Y) = X", "! [X] : p(f(X))", "|-", "p(a)"),
 ("? [X] : ! [Y] : Y = X", "p(a)", "|-", "! [X] : p(X)"),
 ("a != b", "! [X] : (X = a | X = b)", "p(a)", "p(b)", "|-", "! [X] : p(X)"),
 ("! [X,Y] : (f(X) = f(Y) => X = Y)", "f(f(a)) = f(f(b))", "|-", "a = b"),
 ("! [X] : g(X,e) = X", "! [X] : g(e,X) = X", "|-", "! [Z] : ((! [X] : g(X,Z) = X) => Z = e)"),
 ("p(a)", "~ p(b)", "|-", "a != b"),
 ("! [X] : (p(X) | X = a)", "! [X] : (q(X) | X = b)", "a != b", "|-", "! [X] : (p(X) | q(X))"),
 ("! [X,Y] : ((p(X) & p(Y)) => X = Y)", "p(a)", "p(f(b))", "q(a)", "|-", "q(f(b))"),
 ("! [X] : f(f(X)) = X", "r(a,f(b))", "|-", "r(f(f(a)),f(f(f(b))))"),
 ("g(a,b) = c", "a = b", "|-", "g(b,a) = c"),
 ("! [X] : (X = a | X = f(a))", "p(a)", "! [X] : (p(X) => p(f(X)))", "|-", "p(f(b))"),
 ("a = b | a = c", "p(b)", "p(c)", "|-", "p(a)"),
 ("? [X] : (X = f(X) & p(X))", "|-", "? [Y] : p(f(Y))"),
 ("f(a) = b", "f(b) = a", "! [X] : (p(f(X)) => p(X))", "p(a)", "|-", "p(b)"),
]

def schema(t):
    i = t.index("|-")
    return [parse(x) for x in t[:i]], parse(t[i + 1])

SIGF = {"a": 0, "b": 0, "c": 0, "f": 1, "g": 2}
SIGP = {"p": 1, "q": 1, "t": 1, "r": 2, "s": 0}

def rterm(rng, vs, d, fs=SIGF, pv=0.6):
    if vs and (d <= 0 or rng.random() < pv): return V(rng.choice(vs))
    c = [f for f, ar in fs.items() if ar == 0 or d > 0]
    f = rng.choice(c)
    return F(f, *[rterm(rng, vs, d - 1, fs, pv) for _ in range(fs[f])])

def ratom(rng, vs, d=1, fs=SIGF, ps=SIGP, eq=0.0):
    if rng.random() < eq: return Eq(rterm(rng, vs, d, fs), rterm(rng, vs, d, fs))
    p = rng.choice(list(ps))
    return P(p, *[rterm(rng, vs, d, fs) for _ in range(ps[p])])

def rform(rng, vs, d, eq=0.0, td=1, fs=SIGF, ps=SIGP, q=0.35):
    if d <= 0 or rng.random() < 0.12:
        a = ratom(rng, vs, td, fs, ps, eq)
        return Not(a) if rng.random() < 0.35 else a
    x = rng.random()
    sub = lambda v=vs: rform(rng, v, d - 1, eq, td, fs, ps, q)
    if x < q:
        n = rng.choice([1, 1, 2])
        xs = []
        v2 = list(vs)
        for _ in range(n):
            nm = rng.choice("XYZUVW")
            if nm in xs: continue
            xs.append(nm); v2 = [w for w in v2 if w != nm] + [nm]
        return (All if rng.random() < 0.55 else Ex)(xs, sub(v2))
    y = rng.random()
    if y < 0.25: return And(*[sub() for _ in range(rng.choice([2, 2, 3]))])
    if y < 0.5: return Or(*[sub() for _ in range(rng.choice([2, 2, 3]))])
    if y < 0.7: return Imp(sub(), sub())
    if y < 0.82: return Eqv(sub(), sub())
    return Not(sub())

def positions(f, pre=()):
    """paths to subformulas"""
    yield pre, f
    k = f[0]
    if k == 'not': yield from positions(f[1], pre + (1,))
    elif k in ('and', 'or'):
        for i, g in enumerate(f[1]): yield from positions(g, pre + ((1, i),))
    elif k in ('imp', 'eqv'):
        yield from positions(f[1], pre + (1,)); yield from positions(f[2], pre + (2,))
    elif k in ('all', 'ex'): yield from positions(f[2], pre + (2,))

def at(f, path):
    for p in path: f = f[p] if isinstance(p, int) else f[p[0]][p[1]]
    return f

def put(f, path, g):
    if not path: return g
    p = path[0]
    if isinstance(p, int):
        return f[:p] + (put(f[p], path[1:], g),) + f[p + 1:]
    l = f[p[0]]
    return f[:p[0]] + (l[:p[1]] + (put(l[p[1]], path[1:], g),) + l[p[1] + 1:],) + f[p[0] + 1:]

def bound_at(f, path):
    vs = []
    for p in path:
        if f[0] in ('all', 'ex'): vs.append(f[1])
        f = f[p] if isinstance(p, int) else f[p[0]][p[1]]
    return vs

def tpaths(t, pre=()):
    yield pre, t
    if t[0] == 'f':
        for i, a in enumerate(t[2]): yield from tpaths(a, pre + (i,))

def tput(t, path, u):
    if not path: return u
    return ('f', t[1], t[2][:path[0]] + (tput(t[2][path[0]], path[1:], u),) + t[2][path[0] + 1:])

def mutate(rng, f, fs=None):
    """one random local edit"""
    fs = fs or SIGF
    ps = list(positions(f))
    for _ in range(20):
        path, g = rng.choice(ps)
        k = g[0]
        vs = bound_at(f, path)
        if k in ('pred', 'eq'):
            args = list(g[2]) if k == 'pred' else list(g[1:])
            x = rng.random()
            if x < 0.15 or not args: new = Not(g)
            elif x < 0.3 and len(args) == 2: new = ('pred', g[1], tuple(reversed(args))) if k == 'pred' else ('eq', args[1], args[0])
            else:
                i = rng.randrange(len(args))
                tp, u = rng.choice(list(tpaths(args[i])))
                args[i] = tput(args[i], tp, rterm(rng, vs, rng.choice([0, 0, 1]), fs, 0.7))
                new = ('pred', g[1], tuple(args)) if k == 'pred' else ('eq',) + tuple(args)
        elif k in ('all', 'ex'):
            x = rng.random()
            if x < 0.5: new = ('ex' if k == 'all' else 'all', g[1], g[2])
            elif g[2][0] in ('all', 'ex') and g[2][1] != g[1]: new = (g[2][0], g[2][1], (k, g[1], g[2][2]))
            else: continue
        elif k in ('and', 'or'):
            x = rng.random()
            if x < 0.5 or len(g[1]) < 2: new = ('or' if k == 'and' else 'and', g[1])
            else:
                i = rng.randrange(len(g[1])); l = g[1][:i] + g[1][i + 1:]
                new = (k, l) if len(l) > 1 else l[0]
        elif k == 'imp': new = rng.choice([('imp', g[2], g[1]), ('eqv', g[1], g[2]), ('imp', g[1], Not(g[2])), ('or', (g[1], g[2]))])
        elif k == 'eqv': new = rng.choice([('imp', g[1], g[2]), ('imp', g[2], g[1]), ('eqv', Not(g[1]), g[2])])
        elif k == 'not': new = g[1]
        else: continue
        h = put(f, path, new)
        if h != f: return h
    return f

def near_miss(rng, eq=False, nmut=None):
    """(axioms, conj) obtained by mutating a theorem schema"""
    pool = EQ_THEOREMS if eq and rng.random() < 0.8 else THEOREMS
    ax, c = schema(rng.choice(pool))
    n = rng.choice([1, 1, 2, 2, 3]) if nmut is None else nmut
    for _ in range(n):
        i = rng.randrange(len(ax) + 1)
        x = rng.random()
        if i < len(ax):
            if x < 0.1: ax = ax[:i] + ax[i + 1:]
            else: ax[i] = mutate(rng, ax[i])
        else: c = mutate(rng, c)
    if rng.random() < 0.15:
        ax2, _ = schema(rng.choice(THEOREMS)); ax = ax + ax2[:1]
    if rng.random() < 0.3: rng.shuffle(ax)
    return ax, c

def random_problem(rng, eq=0.0):
    n = rng.choice([1, 2, 2, 3, 3])
    td = rng.choice([0, 1, 1, 2])
    ax = [rform(rng, [], rng.choice([2, 3, 3, 4]), eq, td, q=0.5) for _ in range(n)]
    return ax, rform(rng, [], rng.choice([1, 2, 3]), eq, td, q=0.5)

# ---------------------------------------------------------------- clause-like problems: many literals sharing variables,
# so that branches compete for the instantiation of the same metavariables
def clausal(rng, eq=0.0, rules=0, nary=True, facts=(1, 2, 3)):
    cs = 'abc'
    def tm(vs, d=1):
        if vs and rng.random() < .7: return V(rng.choice(vs))
        if d > 0 and rng.random() < .2: return F('f', tm(vs, d - 1))
        return F(rng.choice(cs))
    def lit(vs, pr=None):
        if eq and pr is None and rng.random() < eq:
            a = Eq(tm(vs), tm(vs))
        else:
            pr = pr or rng.choice(['p', 'q', 't', 'p', 'q', 't', 'r'])
            a = P(pr, *[tm(vs) for _ in range(2 if pr == 'r' else 1)])
        return Not(a) if rng.random() < .5 else a
    def body(vs):
        x = rng.random()
        if x < .25: return P('s')
        if x < .55: return lit(vs, rng.choice('qt'))
        if x < .7: return (All if rng.random() < .5 else Ex)(['W'], lit(vs + ['W'], rng.choice('qtr')))
        return rng.choice([And, Or])(lit(vs, rng.choice('qt')), rng.choice([P('s'), lit(vs, 't')]))
    ax = []
    for _ in range(rules):
        if rng.random() < .5: h = P('p', F(rng.choice(cs))); vs = []
        else: h = P('p', rng.choice([V('X'), F('f', V('X'))])); vs = ['X']
        if rng.random() < .15: h = Not(h)
        b = body(vs)
        f = rng.choice([Eqv, Eqv, Imp])(h, b) if rng.random() < .85 else rng.choice([Eqv, Imp])(b, h)
        if rng.random() < .08: f = h
        ax.append(All(vs, f) if vs else f)
    for _ in range(rng.choice([1, 2, 2])):
        vs = ['Y', 'Z'][:rng.choice([1, 1, 2])]
        n = rng.choice([2, 2, 3, 4]) if nary else 2
        f = Or(*[lit(vs) for _ in range(n)])
        if rng.random() < .15: f = Ex(['U'], And(f, lit(vs + ['U'])))
        ax.append(All(vs, f))
    for _ in range(rng.choice(list(facts))): ax.append(lit([]))
    if rules and rng.random() < .6: ax.append(rng.choice([P('s'), Not(P('s'))]))
    rng.shuffle(ax)
    c = rng.choice([lit([]), Ex('X', lit(['X'])), Ex('X', And(lit(['X']), lit(['X']))), All('X', Or(lit(['X']), lit(['X']))),
                    Ex(['X', 'Z'], And(lit(['X', 'Z']), lit(['X', 'Z']), lit(['X', 'Z'])))])
    return ax, c

def ground_strength(rng, depth=4):
    """(axioms, conj) whose refutation instantiates nothing: quantifiers of existential strength only, none under <=>."""
    def atom(vs):
        p = rng.choice(['p', 'q', 's', 'r', 'u', 'w'])
        n = {'p': 1, 'q': 1, 'r': 2}.get(p, 0)
        ts = [rng.choice([V(v) for v in vs] + [F('a'), F('b')]) for _ in range(n)]
        return P(p, *ts)
    def go(d, pol, vs, q):
        # pol: True when the formula occurs positively in the refuted conjunction
        if d == 0 or rng.random() < .1:
            a = atom(vs)
            if rng.random() < .04: a = rng.choice([('top',), ('bot',)])
            return Not(a) if rng.random() < .3 else a
        x = rng.random()
        if q and x < .2:
            v = 'XYZ'[min(len(vs), 2)]
            g = go(d - 1, pol, [w for w in vs if w != v] + [v], q)
            return Ex(v, g) if pol else All(v, g)
        if x < .4: return And(*[go(d - 1, pol, vs, q) for _ in range(rng.choice([2, 2, 3]))])
        if x < .6: return Or(*[go(d - 1, pol, vs, q) for _ in range(rng.choice([2, 2, 3]))])
        if x < .75: return Imp(go(d - 1, not pol, vs, q), go(d - 1, pol, vs, q))
        if x < .87: return Eqv(go(d - 2 if d > 1 else 0, pol, vs, False), go(d - 2 if d > 1 else 0, pol, vs, False))
        return Not(go(d - 1, not pol, vs, q))
    ax = [go(rng.randint(1, depth), True, [], True) for _ in range(rng.choice([0, 1, 2, 3]))]
    return ax, (go(rng.randint(1, depth), False, [], True) if rng.random() < .8 or not ax else None)

def ground_eq(rng):
    """ground equations, disequations and literals: (axioms, conj)"""
    def tm(d):
        if d == 0 or rng.random() < .45: return F(rng.choice('abcd'))
        if rng.random() < .7: return F('f', tm(d - 1))
        return F('g', tm(d - 1), tm(d - 1))
    def lit():
        x = rng.random()
        if x < .5: return Eq(tm(2), tm(2))
        if x < .65: return Not(Eq(tm(2), tm(2)))
        a = P(*((rng.choice('pq'), tm(2)) if rng.random() < .7 else ('r', tm(1), tm(1))))
        return Not(a) if rng.random() < .4 else a
    ax = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        x = lit()
        if rng.random() < .25: x = Or(x, lit())
        ax.append(x)
    return ax, rng.choice([Eq(tm(2), tm(2)), lit(), Ex('X', Eq(F('f', V('X')), tm(1)))])

def eq_shared(rng):
    """equations between constants or small terms, clauses whose literals share variables, mostly binary predicates: closing
    a branch takes both an equation and an instantiation the other branches have to agree with"""
    cs = 'abcd'
    def gt(d=1):
        return F('f', gt(d - 1)) if d > 0 and rng.random() < .2 else F(rng.choice(cs))
    def tm(vs): 
        if rng.random() < .55: return V(rng.choice(vs))
        return F('f', V(rng.choice(vs))) if rng.random() < .15 else gt()
    pol = {p: rng.random() < .8 for p in 'rqp'}        # mostly opposite signs in clauses and facts
    def lit(t, flip):
        p = rng.choice('rrqp')
        a = P(p, *[t() for _ in range(2 if p == 'r' else 1)])
        pos = (pol[p] != flip) if rng.random() < .85 else rng.random() < .5
        return a if pos else Not(a)
    ax = []
    for _ in range(rng.choice([1, 1, 2])):
        e = Eq(gt(), gt())
        if rng.random() < .12: e = All('X', Eq(F('f', V('X')), rng.choice([V('X'), gt(0)])))
        ax.append(e)
    for _ in range(rng.choice([1, 1, 2])):
        vs = ['Y', 'Z'][:rng.choice([1, 1, 2])]
        ax.append(All(vs, Or(*[lit(lambda: tm(vs), False) for _ in range(rng.choice([2, 2, 3]))])))
    for _ in range(rng.choice([2, 3, 3])): ax.append(lit(gt, True))
    rng.shuffle(ax)
    return ax, rng.choice([None, Eq(gt(), gt()), lit(gt, False), Ex('X', lit(lambda: V('X'), False))])
