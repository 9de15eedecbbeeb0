// Scratch-only file: copied by the checks into a *copy* of /repo/src (package main) so that the
// proof object handed to the proof printers is also available structurally (no printing ambiguity).
// Active only when GV_DUMP names an output file.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Search"
)

type gvNode map[string]any

func gvTy(t AST.Ty) gvNode {
	switch ty := t.(type) {
	case AST.TyMeta:
		m := AST.TyToTerm(ty).(AST.Meta)
		return gvNode{"k": "m", "n": "$T" + m.GetName(), "i": m.GetIndex()}
	case AST.TyBound:
		return gvNode{"k": "v", "n": "$ty:" + ty.GetName(), "i": -1}
	case AST.TyConstr:
		args := []gvNode{}
		for _, a := range ty.Args().GetSlice() {
			args = append(args, gvTy(a))
		}
		return gvNode{"k": "f", "n": "$ty:" + ty.Symbol(), "i": -1, "a": args}
	}
	return gvNode{"k": "f", "n": "$ty:" + t.ToString(), "i": -1, "a": []gvNode{}}
}

func gvTerms(tys Lib.List[AST.Ty], l Lib.List[AST.Term]) []gvNode {
	res := []gvNode{}
	for _, t := range tys.GetSlice() {
		res = append(res, gvTy(t))
	}
	for _, t := range l.GetSlice() {
		res = append(res, gvTerm(t))
	}
	return res
}

func gvTerm(t AST.Term) gvNode {
	switch x := t.(type) {
	case AST.Var:
		return gvNode{"k": "v", "n": x.GetName(), "i": x.GetIndex()}
	case AST.Meta:
		return gvNode{"k": "m", "n": x.GetName(), "i": x.GetIndex()}
	case AST.Fun:
		return gvNode{"k": "f", "n": x.GetID().GetName(), "i": x.GetID().GetIndex(), "a": gvTerms(x.GetTyArgs(), x.GetArgs())}
	case *AST.Fun:
		return gvNode{"k": "f", "n": x.GetID().GetName(), "i": x.GetID().GetIndex(), "a": gvTerms(x.GetTyArgs(), x.GetArgs())}
	case AST.Id:
		return gvNode{"k": "f", "n": x.GetName(), "i": x.GetIndex(), "a": []gvNode{}}
	}
	return gvNode{"k": "?", "n": fmt.Sprintf("%T", t)}
}

func gvVars(l Lib.List[AST.TypedVar]) []gvNode {
	res := []gvNode{}
	for _, v := range l.GetSlice() {
		res = append(res, gvNode{"n": v.GetName(), "i": v.GetIndex(), "ty": AST.IsTType(v.GetTy())})
	}
	return res
}

func gvForms(l Lib.List[AST.Form]) []gvNode {
	res := []gvNode{}
	for _, f := range l.GetSlice() {
		res = append(res, gvForm(f))
	}
	return res
}

func gvForm(f AST.Form) gvNode {
	switch x := f.(type) {
	case AST.Pred:
		return gvNode{"k": "pred", "n": x.GetID().GetName(), "i": x.GetID().GetIndex(), "a": gvTerms(x.GetTyArgs(), x.GetArgs())}
	case AST.Not:
		return gvNode{"k": "not", "s": []gvNode{gvForm(x.GetForm())}}
	case AST.And:
		return gvNode{"k": "and", "s": gvForms(x.GetChildFormulas())}
	case AST.Or:
		return gvNode{"k": "or", "s": gvForms(x.GetChildFormulas())}
	case AST.Imp:
		return gvNode{"k": "imp", "s": []gvNode{gvForm(x.GetF1()), gvForm(x.GetF2())}}
	case AST.Equ:
		return gvNode{"k": "eqv", "s": []gvNode{gvForm(x.GetF1()), gvForm(x.GetF2())}}
	case AST.All:
		return gvNode{"k": "all", "v": gvVars(x.GetVarList()), "s": []gvNode{gvForm(x.GetForm())}}
	case AST.Ex:
		return gvNode{"k": "ex", "v": gvVars(x.GetVarList()), "s": []gvNode{gvForm(x.GetForm())}}
	case AST.Top:
		return gvNode{"k": "top"}
	case AST.Bot:
		return gvNode{"k": "bot"}
	}
	return gvNode{"k": "?", "n": fmt.Sprintf("%T", f)}
}

func gvProof(ps []Search.ProofStruct) []gvNode {
	res := []gvNode{}
	for _, p := range ps {
		results := []gvNode{}
		for _, r := range p.GetResultFormulas() {
			results = append(results, gvNode{"id": r.GetI(), "f": gvForms(r.GetForms())})
		}
		children := [][]gvNode{}
		for _, c := range p.GetChildren() {
			children = append(children, gvProof(c))
		}
		res = append(res, gvNode{
			"id": p.GetNodeId(), "rule": p.GetRule(), "name": p.GetRuleName(),
			"f": gvForm(p.GetFormula().GetForm()), "res": results, "ch": children, "dmt": p.GetIdDMT(),
		})
	}
	return res
}

func init() {
	path := os.Getenv("GV_DUMP")
	if path == "" {
		return
	}
	if os.Getenv("GV_PROOF") != "" {
		Glob.SetProof(true)
	}
	Search.AddPrintProofAlgorithm(&Search.OutputProofStruct{
		ProofOutput: func(fp []Search.ProofStruct, ml Lib.List[AST.Meta]) string {
			metas := []gvNode{}
			for _, m := range ml.GetSlice() {
				metas = append(metas, gvTerm(m))
			}
			b, err := json.Marshal(gvNode{"proof": gvProof(fp), "metas": metas})
			if err == nil {
				os.WriteFile(path, b, 0644)
			}
			return ""
		},
		Name: "gv", Extension: ".gv",
	})
}
