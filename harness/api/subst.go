package main

import (
	"sync"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Core/Sko"
	"github.com/GoelandProver/Goeland/Lib"
)

// every formula lives in a register; "same" tells whether all earlier registers still dump as they did when created
func (e *env) push(f AST.Form) node {
	r := node{"f": e.oform(f), "same": e.unchanged()}
	e.forms = append(e.forms, f)
	e.dumps = append(e.dumps, js(e.oform(f)))
	return r
}

func (e *env) unchanged() bool {
	for i, f := range e.forms {
		if js(e.oform(f)) != e.dumps[i] {
			return false
		}
	}
	return true
}

func (e *env) substOp(name string, op node) any {
	var f AST.Form
	if name != "s.mk" {
		f = e.forms[num(op, "i")]
	}
	switch name {
	case "s.mk":
		return e.push(e.form(op["f"]))
	case "s.copy":
		return e.push(f.Copy())
	case "s.apply":
		return e.push(Core.ApplySubstitutionsOnFormula(e.mixed(list(op, "s")), f))
	case "s.meta":
		return e.push(f.ReplaceMetaByTerm(e.meta(str(op, "m")), e.term(op["x"])))
	case "s.var":
		return e.push(f.SubstituteVarByMeta(AST.MakerVar(str(op, "v")), e.meta(str(op, "m"))))
	case "s.term":
		r, _ := f.ReplaceTermByTerm(AST.MakerVar(str(op, "v")), e.term(op["x"]))
		return e.push(r)
	case "s.rename":
		return e.push(f.RenameVariables())
	case "s.simpneg":
		return e.push(AST.SimplifyNegations(f))
	case "s.equals":
		g := e.forms[num(op, "j")]
		return node{"ok": f.Equals(g), "rev": g.Equals(f), "same": e.unchanged()}
	case "s.metas":
		return node{"ms": e.ometas(f.GetMetas()), "same": e.unchanged()}
	case "s.subterms":
		return node{"ts": e.oterms(f.GetSubTerms()), "same": e.unchanged()}
	case "s.applyterm":
		return node{"t": e.oterm(Core.ApplySubstitutionsOnTerm(e.mixed(list(op, "s")), e.term(op["x"])))}
	}
	panic("unknown op " + name)
}

func (e *env) skoOp(name string, op node) any {
	switch name {
	case "k.mode":
		switch str(op, "m") {
		case "inner":
			Core.SetSelectedSkolemization(Sko.MkInnerSkolemization())
		case "preinner":
			Core.SetSelectedSkolemization(Sko.MkPreInnerSkolemization())
		default:
			Core.SetSelectedSkolemization(Sko.MkOuterSkolemization())
		}
		return node{}
	case "k.sko":
		return e.push(Core.Skolemize(e.forms[num(op, "i")], e.branchMetas(op)))
	case "k.par": // the same in parallel branches
		is := list(op, "is")
		res := make([]AST.Form, len(is))
		ms := e.branchMetas(op)
		var wg sync.WaitGroup
		for k, x := range is {
			wg.Add(1)
			go func(k, i int) {
				defer wg.Done()
				res[k] = Core.Skolemize(e.forms[i], ms)
			}(k, int(x.(float64)))
		}
		wg.Wait()
		out := []node{}
		for _, f := range res {
			out = append(out, e.push(f))
		}
		return out
	case "k.inst":
		fat, ms := Core.Instantiate(Core.MakeFormAndTerm(e.forms[num(op, "i")], Lib.NewList[AST.Term]()), num(op, "ix"))
		r := e.push(fat.GetForm())
		r["ms"] = e.ometas(ms)
		e.made = e.made.Union(ms)
		return r
	}
	panic("unknown op " + name)
}

// the metavariables of the branch: the named ones and those that instantiations of this case made
func (e *env) branchMetas(op node) Lib.Set[AST.Meta] {
	ms := Lib.EmptySet[AST.Meta]()
	for _, x := range list(op, "ms") {
		ms = ms.Add(e.meta(x.(string)))
	}
	return ms.Union(e.made)
}
