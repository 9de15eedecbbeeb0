from gv.check import Check
from gv.build import Build
from gv.gen import *
from gv import verdicts

MODES = [(), ("-inner",), ("-preinner",), ("-flatten",), ("-flatten", "-inner"), ("-flatten", "-preinner"), ("-completeness",),
         ("-completeness", "-inner"), ("-noeq",), ("-noeq", "-preinner"), ("-proof",)]

def main():
    chk = Check("S01", "model_checking")
    b = Build(); g = b.goeland(dump=False)
    gens = [lambda r: near_miss(r), lambda r: near_miss(r), lambda r: random_problem(r), lambda r: clausal(r), lambda r: clausal(r)]
    st = verdicts.soundness(chk, g, b, gens, MODES, chk.n(3000, 60000), chk.n(4, 6), max_s=chk.n(60, 1500))
    chk.note(**st)
    chk.note(rule="a problem is generated (mutated theorem schemas, random formulas, clause-like problems), kept when a finite "
                  "interpretation satisfies axioms and negated conjecture; TLC evaluates the interpretation and judges each run")
    return chk.finish()
