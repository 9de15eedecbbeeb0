from gv.check import Check
from gv.build import Build
from gv import corpus

def main():
    chk = Check("C02", "model_checking")
    b = Build(); g = b.goeland(dump=False)
    items = corpus.load()
    if chk.quick: items = chk.rng.sample(items, min(961, len(items)))
    corpus.certify(chk, items)
    st, late = corpus.run_corpus(chk, g, b, items, chk.n(6, 24), chk.n(75, 2000), "t", same=True)
    chk.note(**st)
    # a proof missed within the limit once is a matter of search order; several are not (the corpus was built from
    # problems proved within that limit in all of 24 variants)
    if len(late) >= 5 and not chk.violations:
        chk.violation("%d theorems are no longer proved within their limit, first:\n%s" % (len(late), late[0][1]), {"problems": late[:20]})
    return chk.finish()
