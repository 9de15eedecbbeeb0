"""Hash-consing of de Bruijn JSON terms/formulas into the tables FOL.tla works on (1-based ids)."""
class Tables:
    def __init__(self):
        self.T, self.F, self.ti, self.fi = [], [], {}, {}
    def term(self, t):
        a = tuple(self.term(x) for x in t["a"])
        key = (t["k"], t["n"], t["i"], a)
        if key not in self.ti:
            self.T.append({"k": t["k"], "n": t["n"], "i": t["i"], "a": list(a)})
            self.ti[key] = len(self.T)
        return self.ti[key]
    def form(self, f):
        a = tuple(self.term(x) for x in f["a"])
        s = tuple(self.form(x) for x in f["s"])
        key = (f["k"], f["n"], a, s)
        if key not in self.fi:
            self.F.append({"k": f["k"], "n": f["n"], "a": list(a), "s": list(s)})
            self.fi[key] = len(self.F)
        return self.fi[key]
    def json(self):
        # TLC needs non-empty homogeneous tables
        return {"T": self.T or [{"k": "f", "n": "", "i": 0, "a": []}], "F": self.F}
