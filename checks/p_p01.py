from gv.check import Check
from gv.build import Build
from gv.gen import *
from gv import proofs

PLAIN = [(), (), ("-inner",), ("-preinner",), ("-flatten",), ("-flatten", "-inner"), ("-flatten", "-preinner"), ("-completeness",),
         ("-completeness", "-inner")]
DMT = [("-dmt",), ("-dmt", "-inner"), ("-dmt", "-preinner"), ("-dmt", "-polarized"), ("-dmt", "-inner", "-polarized"), ("-dmt", "-dmt_before_eq"), ()]
EQ = [(), ("-inner",), ("-preinner",), ("-eagereq",), ("-flatten",)]

def main():
    chk = Check("P01", "model_checking")
    b = Build(); g = b.goeland()
    T = chk.n(75, 1600)
    parts = [
        ([lambda r: near_miss(r, nmut=r.choice([0, 0, 1, 1, 2])), clausal], PLAIN, chk.n(900, 20000), 4, False, T * .35),
        ([lambda r: near_miss(r, nmut=r.choice([0, 0, 1])), lambda r: clausal(r, rules=1), lambda r: clausal(r, rules=2)], DMT, chk.n(900, 20000), 3, False, T * .7),
        ([lambda r: near_miss(r, eq=True, nmut=r.choice([0, 0, 1, 1]))], EQ, chk.n(500, 10000), 2, True, T),
    ]
    for gens, modes, n, per, eq, max_s in parts:
        res, st = proofs.collect(chk, g, b, gens, modes, n, per, eq=eq, max_s=max_s)
        proofs.judge(chk, res, st)
        chk.note(**{k: v for k, v in st.items() if k != "longest_proof"})
        chk.coverage["longest_proof"] = max(chk.coverage.get("longest_proof", 0), st["longest_proof"])
    return chk.finish()
