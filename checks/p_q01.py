from gv.check import Check
from gv.build import Build
from gv.gen import *
from gv import corpus, verdicts

MODES = [(), ("-inner",), ("-preinner",), ("-flatten",), ("-completeness",)]

def main():
    chk = Check("Q01", "model_checking")
    b = Build(); g = b.goeland(dump=False)
    items = corpus.load()
    items = chk.rng.sample(items, min(chk.n(300, 960), len(items)))
    corpus.certify(chk, items)
    st, late = corpus.run_corpus(chk, g, b, items, chk.n(6, 30), chk.n(45, 1000), "v", modes=MODES, outputs=corpus.OUTPUT, same=True)
    chk.note(**st)
    if len(late) >= 5 and not chk.violations:
        chk.violation("%d theorems are no longer proved within their limit in some variant, first:\n%s" % (len(late), late[0][1]), {"problems": late[:20]})
    st = corpus.variants_exact(chk, g, b, [lambda r: ground_strength(r, 3), lambda r: ground_strength(r, 4)], MODES, chk.n(700, 8000), 6, chk.n(80, 2000))
    chk.note(**{"exact_" + k: v for k, v in st.items()})
    return chk.finish()
