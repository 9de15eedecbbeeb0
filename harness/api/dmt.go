package main

import (
	"github.com/GoelandProver/Goeland/Mods/dmt"
	"github.com/GoelandProver/Goeland/Unif"
)

func (e *env) dmtOp(name string, op node) any {
	switch name {
	case "d.init":
		dmt.InitPluginTests(flag(op, "pol"), false)
		return node{}
	case "d.reg": // as the prover does: fresh bound variables, then a copy is offered
		f := e.form(op["f"]).RenameVariables()
		return node{"ok": dmt.RegisterAxiom(f.Copy()), "f": e.oform(f)}
	case "d.rw":
		f := e.form(op["f"])
		before := js(e.oform(f))
		rws, err := dmt.Rewrite(f)
		out := []node{}
		for _, r := range rws {
			saf := r.GetSaf()
			ss := Unif.ToSubstitutions(saf.GetSubst())
			failed := ss.Equals(Unif.Failure())
			if failed {
				ss = Unif.MakeEmptySubstitution()
			}
			out = append(out, node{"fail": failed, "s": e.osub(ss), "fs": e.oforms(saf.GetForm())})
		}
		return node{"err": err != nil, "out": out, "same": js(e.oform(f)) == before}
	}
	panic("unknown op " + name)
}
