from gv.check import Check
from gv.build import Build
from gv import unifcase as U

def main():
    chk = Check("U02", "model_checking")
    b = Build(); h = b.harness("api")
    r = chk.rng
    hs = []
    for _ in range(chk.n(8000, 60000)):
        t = r.random() < .2
        hs.append(U.index_history(r, r.randint(3, chk.n(10, 16)), 0 if t else .15, terms=t))
    U.run(chk, h, hs)
    chk.note(rule="histories of tree creations, insertions, copies and lookups over atoms that share prefixes and metavariables (and trees of "
                  "terms, as equality reasoning builds them); TLC keeps the content of each tree and judges every lookup")
    return chk.finish()
