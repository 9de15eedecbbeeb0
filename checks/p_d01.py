from gv.check import Check
from gv.build import Build
from gv import rewritecase as R

def main():
    chk = Check("D01", "model_checking")
    b = Build(); h = b.harness("api")
    r = chk.rng
    R.run(chk, h, [R.history(r, r.randint(4, chk.n(14, 24))) for _ in range(chk.n(6000, 60000))])
    chk.note(rule="histories in which axioms of (nearly) usable shape are offered as rules and literals close to their left-hand sides are rewritten, "
                  "polarized or not; TLC keeps the accepted axioms and judges each acceptance and each rewriting")
    return chk.finish()
