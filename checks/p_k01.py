from gv.check import Check
from gv.build import Build
from gv import syntaxcase as S

def main():
    chk = Check("K01", "model_checking")
    b = Build(); h = b.harness("api")
    r = chk.rng
    hs = []
    for k in range(chk.n(6000, 60000)):
        hs.append(S.skohistory(r, r.randint(4, chk.n(12, 20)), ["outer", "inner", "preinner"][k % 3], par=k % 4 == 0))
    S.run(chk, h, hs)
    chk.note(rule="histories in which formulas are instantiated, substituted and Skolemized (outer, inner, pre-inner; one branch or several in parallel; "
                  "term and prenex type quantifiers, positive and negated); TLC keeps all formulas and all Skolem symbols seen and judges each step")
    return chk.finish()
