package main

import (
	"github.com/GoelandProver/Goeland/Lib"
	equality "github.com/GoelandProver/Goeland/Mods/equality/bse"
	"github.com/GoelandProver/Goeland/Mods/equality/eqStruct"
	"github.com/GoelandProver/Goeland/Mods/equality/sateq"
	"github.com/GoelandProver/Goeland/Unif"
)

func (e *env) eqOp(name string, op node) any {
	switch name {
	case "e.solve": // the literals of a branch
		if str(op, "how") == "sateq" {
			sateq.Enable()
		} else {
			equality.Enable()
		}
		fs := e.formList(list(op, "fs"))
		before := js(e.oforms(fs))
		tp := Unif.NewNode().MakeDataStruct(Lib.ListCpy(fs), true)
		tn := Unif.NewNode().MakeDataStruct(Lib.ListCpy(fs), false)
		ok, subs := equality.EqualityReasoning(eqStruct.NewEqStruct(), tp, tn, fs, 0)
		res := []any{}
		for _, s := range subs {
			res = append(res, e.osub(s))
		}
		return node{"ok": ok, "res": res, "same": js(e.oforms(fs)) == before}
	}
	panic("unknown op " + name)
}
