from gv.check import Check
from gv.build import Build
from gv.gen import *
from gv import verdicts, typedcase

MODES = [(), (), ("-eagereq",), ("-increq",), ("-sateq",), ("-sateq",), ("-noeq",), ("-inner",), ("-preinner",), ("-flatten",), ("-sateq", "-inner"), ("-increq", "-preinner")]

def main():
    chk = Check("S02", "model_checking")
    b = Build(); g = b.goeland(dump=False)
    gens = [lambda r: near_miss(r, eq=True), lambda r: near_miss(r, eq=True), lambda r: random_problem(r, .4),
            lambda r: clausal(r, eq=.4), lambda r: clausal(r, eq=.6, nary=False), lambda r: ground_eq(r),
            lambda r: eq_shared(r), lambda r: eq_shared(r), lambda r: eq_shared(r)]
    st = verdicts.soundness(chk, g, b, gens, MODES, chk.n(3000, 60000), chk.n(4, 6), max_s=chk.n(60, 1500))
    st.update(typedcase.soundness(chk, g, b, MODES, chk.n(3000, 40000), chk.n(5, 8), chk.elapsed() + chk.n(25, 800)))
    chk.note(**st)
    chk.note(rule="problems with equality that have a finite model in which = is identity (mutated equational theorem schemas, random "
                  "formulas, clause-like and ground problems), and typed problems, polymorphic ones included, with a structure that satisfies them, most of them inconsistent "
                  "once their types are erased; TLC evaluates the model and judges each run")
    return chk.finish()
