// Scratch-only program: drives the internal packages of a copy of /repo/src.
// Reads one JSON request per line, {"id":.., "ops":[..]}, and writes {"id":.., "out":[..]} or {"id":.., "panic":".."}.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Core"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Mods/dmt"
	equality "github.com/GoelandProver/Goeland/Mods/equality/bse"
	"github.com/GoelandProver/Goeland/Search"
	"github.com/GoelandProver/Goeland/Typing"
	"github.com/GoelandProver/Goeland/Unif"
)

type node = map[string]any

type env struct {
	metas map[string]AST.Meta
	byIdx map[int]string
	forms []AST.Form
	dumps []string
	trees map[int]Unif.DataStructure
	made  Lib.Set[AST.Meta] // metavariables made by instantiations
}

func newEnv() *env {
	return &env{metas: map[string]AST.Meta{}, byIdx: map[int]string{}, trees: map[int]Unif.DataStructure{}, made: Lib.EmptySet[AST.Meta]()}
}

func list(n node, k string) []any {
	if v, ok := n[k].([]any); ok {
		return v
	}
	return nil
}
func str(n node, k string) string { s, _ := n[k].(string); return s }
func num(n node, k string) int    { f, _ := n[k].(float64); return int(f) }
func flag(n node, k string) bool  { b, _ := n[k].(bool); return b }

func (e *env) meta(name string) AST.Meta {
	if m, ok := e.metas[name]; ok {
		return m
	}
	m := AST.MakerMeta(name, -1, AST.TIndividual())
	e.metas[name] = m
	e.byIdx[m.GetIndex()] = name
	return m
}

func (e *env) term(x any) AST.Term {
	n := x.(node)
	switch str(n, "k") {
	case "m":
		return e.meta(str(n, "n"))
	case "v":
		return AST.MakerVar(str(n, "n"))
	}
	return AST.MakerFun(AST.MakerId(str(n, "n")), tys(list(n, "ty")), e.terms(list(n, "a")))
}

func (e *env) terms(l []any) Lib.List[AST.Term] {
	res := Lib.NewList[AST.Term]()
	for _, x := range l {
		res.Append(e.term(x))
	}
	return res
}

// type arguments: upper-case names are type variables, others constants
func tys(l []any) Lib.List[AST.Ty] {
	res := Lib.NewList[AST.Ty]()
	for _, x := range l {
		n := x.(string)
		if n[0] >= 'A' && n[0] <= 'Z' {
			res.Append(AST.MakerTyBV(n))
		} else {
			res.Append(AST.MkTyConst(n))
		}
	}
	return res
}

func (e *env) oty(t AST.Ty) node {
	switch x := t.(type) {
	case AST.TyBound:
		return node{"k": "v", "n": x.GetName(), "i": -1}
	case AST.TyMeta:
		r := e.oterm(x.ToTermMeta())
		r["i"] = 1
		return r
	case AST.TyConstr:
		r := []node{}
		for _, a := range x.Args().GetSlice() {
			r = append(r, e.oty(a))
		}
		return node{"k": "f", "n": x.Symbol(), "i": 0, "a": r}
	}
	return node{"k": "?", "n": fmt.Sprintf("%T", t), "i": 0}
}

// type arguments come first
func (e *env) oargs(ts Lib.List[AST.Ty], as Lib.List[AST.Term]) []node {
	res := []node{}
	for _, t := range ts.GetSlice() {
		res = append(res, e.oty(t))
	}
	return append(res, e.oterms(as)...)
}

func (e *env) vars(l []any) Lib.List[AST.TypedVar] {
	res := Lib.NewList[AST.TypedVar]()
	for _, x := range l {
		if n, ok := x.(node); ok { // a type variable
			v := AST.MakerVar(str(n, "n"))
			res.Append(AST.MkTypedVar(v.GetName(), v.GetIndex(), AST.TType()))
			continue
		}
		v := AST.MakerVar(x.(string))
		res.Append(AST.MkTypedVar(v.GetName(), v.GetIndex(), AST.TIndividual()))
	}
	return res
}

func (e *env) formList(l []any) Lib.List[AST.Form] {
	res := Lib.NewList[AST.Form]()
	for _, x := range l {
		res.Append(e.form(x))
	}
	return res
}

func (e *env) form(x any) AST.Form {
	n := x.(node)
	s := list(n, "s")
	switch str(n, "k") {
	case "ref":
		return e.forms[num(n, "i")]
	case "pred":
		if str(n, "n") == "=" {
			return AST.MakerPred(AST.Id_eq, Lib.MkListV(AST.TIndividual()), e.terms(list(n, "a")))
		}
		return AST.MakerPred(AST.MakerId(str(n, "n")), tys(list(n, "ty")), e.terms(list(n, "a")))
	case "not":
		return AST.MakerNot(e.form(s[0]))
	case "and":
		return AST.MakerAnd(e.formList(s))
	case "or":
		return AST.MakerOr(e.formList(s))
	case "imp":
		return AST.MakerImp(e.form(s[0]), e.form(s[1]))
	case "eqv":
		return AST.MakerEqu(e.form(s[0]), e.form(s[1]))
	case "all":
		return AST.MakerAll(e.vars(list(n, "v")), e.form(s[0]))
	case "ex":
		return AST.MakerEx(e.vars(list(n, "v")), e.form(s[0]))
	case "top":
		return AST.MakerTop()
	case "bot":
		return AST.MakerBot()
	}
	panic("bad formula in request: " + fmt.Sprint(x))
}

// ---- output

func (e *env) oterm(t AST.Term) node {
	switch x := t.(type) {
	case AST.Var:
		return node{"k": "v", "n": x.GetName(), "i": x.GetIndex()}
	case AST.Meta:
		if nm, ok := e.byIdx[x.GetIndex()]; ok {
			return node{"k": "m", "n": nm, "i": 0}
		}
		nm := fmt.Sprintf("%s#%d", x.GetName(), x.GetIndex())
		e.byIdx[x.GetIndex()] = nm
		e.metas[nm] = x
		return node{"k": "m", "n": nm, "i": 0}
	case AST.Fun:
		return node{"k": "f", "n": symName(x.GetID()), "i": 0, "a": e.oargs(x.GetTyArgs(), x.GetArgs())}
	case *AST.Fun:
		return node{"k": "f", "n": symName(x.GetID()), "i": 0, "a": e.oterms(x.GetArgs())}
	case AST.Id:
		return node{"k": "f", "n": symName(x), "i": 0, "a": []node{}}
	case nil:
		return node{"k": "?", "n": "nil", "i": 0}
	}
	return node{"k": "?", "n": fmt.Sprintf("%T", t), "i": 0}
}

// generated symbols may share their name: tell them apart by their index
func symName(i AST.Id) string {
	if strings.Contains(i.GetName(), "@") {
		return fmt.Sprintf("%s#%d", i.GetName(), i.GetIndex())
	}
	return i.GetName()
}

func (e *env) oterms(l Lib.List[AST.Term]) []node {
	res := []node{}
	for _, t := range l.GetSlice() {
		res = append(res, e.oterm(t))
	}
	return res
}

func ovars(l Lib.List[AST.TypedVar]) []node {
	res := []node{}
	for _, v := range l.GetSlice() {
		res = append(res, node{"n": v.GetName(), "i": v.GetIndex(), "ty": AST.IsTType(v.GetTy())})
	}
	return res
}

func (e *env) oforms(l Lib.List[AST.Form]) []node {
	res := []node{}
	for _, f := range l.GetSlice() {
		res = append(res, e.oform(f))
	}
	return res
}

func (e *env) oform(f AST.Form) node {
	switch x := f.(type) {
	case AST.Pred:
		if x.GetID().Equals(AST.Id_eq) {
			return node{"k": "pred", "n": "=", "a": e.oterms(x.GetArgs())}
		}
		return node{"k": "pred", "n": symName(x.GetID()), "a": e.oargs(x.GetTyArgs(), x.GetArgs())}
	case AST.Not:
		return node{"k": "not", "s": []node{e.oform(x.GetForm())}}
	case AST.And:
		return node{"k": "and", "s": e.oforms(x.GetChildFormulas())}
	case AST.Or:
		return node{"k": "or", "s": e.oforms(x.GetChildFormulas())}
	case AST.Imp:
		return node{"k": "imp", "s": []node{e.oform(x.GetF1()), e.oform(x.GetF2())}}
	case AST.Equ:
		return node{"k": "eqv", "s": []node{e.oform(x.GetF1()), e.oform(x.GetF2())}}
	case AST.All:
		return node{"k": "all", "v": ovars(x.GetVarList()), "s": []node{e.oform(x.GetForm())}}
	case AST.Ex:
		return node{"k": "ex", "v": ovars(x.GetVarList()), "s": []node{e.oform(x.GetForm())}}
	case AST.Top:
		return node{"k": "top"}
	case AST.Bot:
		return node{"k": "bot"}
	case Unif.TermForm:
		return node{"k": "pred", "n": "$term", "a": []node{e.oterm(x.GetTerm())}}
	case nil:
		return node{"k": "?", "n": "nil"}
	}
	return node{"k": "?", "n": fmt.Sprintf("%T", f)}
}

func (e *env) osub(s Unif.Substitutions) []any {
	res := []any{}
	for _, p := range s {
		k, v := p.Get()
		res = append(res, []any{e.oterm(k), e.oterm(v)})
	}
	return res
}

func (e *env) sub(l []any) Unif.Substitutions {
	res := Unif.MakeEmptySubstitution()
	for _, x := range l {
		p := x.([]any)
		res = append(res, Unif.MakeSubstitution(e.term(p[0]).(AST.Meta), e.term(p[1])))
	}
	return res
}

func (e *env) mixed(l []any) Lib.List[Unif.MixedSubstitution] {
	return Unif.FromSubstitutions(e.sub(l))
}

func (e *env) ometas(s Lib.Set[AST.Meta]) []node {
	res := []node{}
	for _, m := range s.Elements().GetSlice() {
		res = append(res, e.oterm(m))
	}
	return res
}

func js(x any) string { b, _ := json.Marshal(x); return string(b) }

func run(req node) (resp node) {
	resp = node{"id": req["id"]}
	defer func() {
		if r := recover(); r != nil {
			resp["panic"] = fmt.Sprint(r)
			if os.Getenv("GV_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	e := newEnv()
	outs := []any{}
	for _, o := range list(req, "ops") {
		op := o.(node)
		var r any
		name := str(op, "op")
		switch {
		case strings.HasPrefix(name, "u."):
			r = e.unifOp(name, op)
		case strings.HasPrefix(name, "s."):
			r = e.substOp(name, op)
		case strings.HasPrefix(name, "k."):
			r = e.skoOp(name, op)
		case strings.HasPrefix(name, "d."):
			r = e.dmtOp(name, op)
		case strings.HasPrefix(name, "e."):
			r = e.eqOp(name, op)
		default:
			panic("unknown op " + name)
		}
		outs = append(outs, r)
	}
	resp["out"] = outs
	return resp
}

func main() {
	real := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull) // whatever the code under test prints
	Glob.InitLogs()
	AST.InitDebugger()
	Core.InitDebugger()
	dmt.InitDebugger()
	equality.InitDebugger()
	Search.InitDebugger()
	Typing.InitDebugger()
	Unif.InitDebugger()
	AST.Init()
	Typing.Init()
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	out := bufio.NewWriter(real)
	defer out.Flush()
	for in.Scan() {
		var req node
		if err := json.Unmarshal(in.Bytes(), &req); err != nil {
			panic(err)
		}
		b, err := json.Marshal(run(req))
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
