from gv.check import Check
from gv.build import Build
from gv.gen import *
from gv import verdicts

MODES = [(), (), ("-inner",), ("-preinner",), ("-flatten",), ("-flatten", "-preinner"), ("-completeness",), ("-completeness", "-inner"), ("-noeq",), ("-proof",)]

def main():
    chk = Check("C01", "model_checking")
    b = Build(); g = b.goeland(dump=False)
    gens = [lambda r: ground_strength(r, 3), lambda r: ground_strength(r, 4), lambda r: ground_strength(r, 5)]
    st = verdicts.exact(chk, g, b, gens, MODES, chk.n(1500, 20000), chk.n(3, 6), max_s=chk.n(50, 1200), max_atoms=chk.n(8, 10))
    chk.note(**st)
    chk.note(rule="random problems whose quantifiers are all of existential strength; TLC computes the status over all valuations of the at most 8 atoms")
    return chk.finish()
