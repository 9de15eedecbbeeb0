from gv.check import Check
from gv.build import Build
from gv import syntaxcase as S

def main():
    chk = Check("U03", "model_checking")
    b = Build(); h = b.harness("api")
    r = chk.rng
    S.run(chk, h, [S.history(r, r.randint(4, chk.n(12, 20))) for _ in range(chk.n(6000, 60000))])
    chk.note(rule="histories over registers: formulas built, substituted (whole substitutions, single metavariables, variables by metavariables, variables "
                  "by terms), copied, renamed, compared, inspected; TLC keeps the registers and judges every result and that no register changes")
    return chk.finish()
