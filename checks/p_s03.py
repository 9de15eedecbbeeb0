from gv.check import Check
from gv.build import Build
from gv.gen import *
from gv import verdicts, typedcase

D = ("-dmt",)
MODES = [D, D, D + ("-polarized",), D + ("-polarized",), D + ("-inner",), D + ("-preinner",), D + ("-polarized", "-inner"), D + ("-polarized", "-preinner"),
         D + ("-presko",), D + ("-presko", "-polarized"), D + ("-dmt_before_eq",), D + ("-flatten",), D + ("-presko", "-inner"), D + ("-completeness",)]

def main():
    chk = Check("S03", "model_checking")
    b = Build(); g = b.goeland(dump=False)
    gens = [lambda r: near_miss(r), lambda r: clausal(r, rules=1), lambda r: clausal(r, rules=2), lambda r: clausal(r, rules=3), lambda r: clausal(r, rules=1, nary=False)]
    st = verdicts.soundness(chk, g, b, gens, MODES, chk.n(3000, 60000), chk.n(4, 8), max_s=chk.n(60, 1500))
    st.update(typedcase.soundness(chk, g, b, MODES, chk.n(3000, 40000), chk.n(5, 8), chk.elapsed() + chk.n(25, 800), rules=.4))
    chk.note(**st)
    chk.note(rule="satisfiable problems whose axioms include rewrite-rule shapes (atom <=> / => formula, negated and quantified heads), typed ones included; "
                  "TLC evaluates the model found and judges each run")
    return chk.finish()
