from gv.check import Check
from gv.build import Build
from gv import colcase as C

def main():
    chk = Check("L01", "model_checking")
    b = Build(); h = b.harness("lib")
    r = chk.rng
    cases = list(C.permutations(chk.n(5, 6)))
    cases += [C.history(r, 60, k) for k in ["l", "s", "ls", "lsc", "c"] for _ in range(chk.n(300, 4000))]
    C.run(chk, h, cases)
    return chk.finish()
