package main

import (
	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
)

func (e *env) osubOrFail(s Unif.Substitutions) node {
	if s.Equals(Unif.Failure()) {
		return node{"ok": false, "s": []any{}}
	}
	return node{"ok": true, "s": e.osub(s)}
}

func (e *env) termForms(l []any) Lib.List[AST.Form] {
	res := Lib.NewList[AST.Form]()
	for _, x := range l {
		res.Append(Unif.MakerTermForm(e.term(x)))
	}
	return res
}

func (e *env) unifOp(name string, op node) any {
	switch name {
	case "u.new":
		e.trees[num(op, "t")] = Unif.NewNode()
	case "u.ins":
		e.trees[num(op, "t")] = e.trees[num(op, "t")].InsertFormulaListToDataStructure(e.formList(list(op, "fs")))
	case "u.mk":
		e.trees[num(op, "t")] = Unif.NewNode().MakeDataStruct(e.formList(list(op, "fs")), flag(op, "pos"))
	case "u.mkterms":
		e.trees[num(op, "t")] = Unif.NewNode().MakeDataStruct(e.termForms(list(op, "ts")), true)
	case "u.copy":
		e.trees[num(op, "u")] = e.trees[num(op, "t")].Copy()
	case "u.look", "u.lookterm":
		var q AST.Form
		if name == "u.look" {
			q = e.form(op["f"])
		} else {
			q = Unif.MakerTermForm(e.term(op["x"]))
		}
		before := js(e.oform(q))
		ok, res := e.trees[num(op, "t")].Unify(q)
		out := []any{}
		for _, m := range res {
			out = append(out, node{"f": e.oform(m.GetForm()), "s": e.osub(m.GetTrmSubsts())})
		}
		return node{"ok": ok, "res": out, "same": before == js(e.oform(q))}
	case "u.add":
		s := e.sub(list(op, "s"))
		before := js(e.osub(s))
		r := e.osubOrFail(Unif.AddUnification(e.term(op["a"]), e.term(op["b"]), s.Copy()))
		r["same"] = before == js(e.osub(s))
		return r
	case "u.merge":
		s1, s2 := e.sub(list(op, "s")), e.sub(list(op, "r"))
		before := js(e.osub(s1)) + js(e.osub(s2))
		res, _ := Unif.MergeSubstitutions(s1, s2)
		r := e.osubOrFail(res)
		r["same"] = before == js(e.osub(s1))+js(e.osub(s2))
		return r
	case "u.mixed":
		s1, s2 := e.mixed(list(op, "s")), e.mixed(list(op, "r"))
		before := js(e.osub(Unif.ToSubstitutions(s1))) + js(e.osub(Unif.ToSubstitutions(s2)))
		res, ok := Unif.MergeMixedSubstitutions(s1, s2)
		r := node{"ok": ok, "s": []any{}}
		if ok {
			r["s"] = e.osub(Unif.ToSubstitutions(res))
		}
		r["same"] = before == js(e.osub(Unif.ToSubstitutions(s1)))+js(e.osub(Unif.ToSubstitutions(s2)))
		return r
	case "u.rest":
		s := e.mixed(list(op, "s"))
		mm := Lib.EmptySet[AST.Meta]()
		for _, x := range list(op, "mm") {
			mm = mm.Add(e.meta(x.(string)))
		}
		return node{"ok": true, "s": e.osub(Unif.ToSubstitutions(Core.RemoveElementWithoutMM(s, mm)))}
	default:
		panic("unknown op " + name)
	}
	return node{}
}
