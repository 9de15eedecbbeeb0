from gv.check import Check
from gv.build import Build, BuildError
from gv import eqcase as E

def main():
    chk = Check("E01", "model_checking")
    b = Build(); h = b.harness("api")
    r = chk.rng
    cases = [E.branch(r) for _ in range(chk.n(2500, 20000))]
    E.run_branches(chk, h, cases, "bse", timeout=4, budget=chk.n(60, 900))
    E.run_branches(chk, h, cases[:chk.n(800, 8000)], "sateq", timeout=4, budget=chk.n(40, 600))
    try: E.run_order(chk, b, r, chk.n(150, 1500), chk.n(3000, 30000))
    except BuildError as e: chk.note(ordering="not reachable in this tree: " + str(e)[:200])
    return chk.finish()
