import itertools
from gv.check import Check
from gv.build import Build
from gv import unifcase as U

def main():
    chk = Check("U01", "model_checking")
    b = Build(); h = b.harness("api")
    # 1. small scope, exhaustively: every ordered pair of terms of at most n symbols, looked up and unified
    small = U.small_terms(chk.n(4, 5), "XY", "a")
    pairs = list(itertools.product(small, small))
    chk.note(exhaustive_pairs=len(pairs), exhaustive_terms=len(small))
    U.run(chk, h, U.pair_histories(pairs))
    # 2. random: unification under a substitution, merging (term and mixed substitutions), restriction, lookups
    r = chk.rng
    hs = [U.solve_history(r, 12) for _ in range(chk.n(2500, 40000))]
    hs += [U.index_history(r, r.randint(3, 8), 0, terms=r.random() < .3) for _ in range(chk.n(2500, 20000))]
    U.run(chk, h, hs)
    chk.note(rule="every pair of terms over {X, Y, a, f/1, g/2} up to the size bound, plus random equations, substitutions and lookups; "
                  "TLC judges each answer against Robinson's algorithm: success, solved form, unifier, most general")
    return chk.finish()
