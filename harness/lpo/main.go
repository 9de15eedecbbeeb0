// Scratch-only program: compares terms with the ordering of the equality reasoner (through zz_verif_export.go, which
// is laid into a copy of package equality).  One JSON request per line: {"id":.., "ts":[terms], "prs":[[i,j]..]}.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Glob"
	"github.com/GoelandProver/Goeland/Lib"
	equality "github.com/GoelandProver/Goeland/Mods/equality/bse"
)

type term struct {
	K string
	N string
	A []term
}

type req struct {
	Id    any
	Names []string // symbols, in the order in which they are met
	Ts    []term
	Prs   [][2]int
}

func conv(t term, ms map[string]AST.Meta) AST.Term {
	if t.K == "m" {
		m, ok := ms[t.N]
		if !ok {
			m = AST.MakerMeta(t.N, -1, AST.TIndividual())
			ms[t.N] = m
		}
		return m
	}
	as := Lib.NewList[AST.Term]()
	for _, a := range t.A {
		as.Append(conv(a, ms))
	}
	return AST.MakerFun(AST.MakerId(t.N), Lib.NewList[AST.Ty](), as)
}

func run(r req) (resp map[string]any) {
	resp = map[string]any{"id": r.Id}
	defer func() {
		if x := recover(); x != nil {
			resp["panic"] = fmt.Sprint(x)
		}
	}()
	for _, n := range r.Names {
		AST.MakerId(n)
	}
	ms := map[string]AST.Meta{}
	ts := []AST.Term{}
	for _, t := range r.Ts {
		ts = append(ts, conv(t, ms))
	}
	out := []string{}
	for _, p := range r.Prs {
		o, ok := equality.ZzVerifCompare(ts[p[0]], ts[p[1]])
		switch {
		case !ok:
			out = append(out, "no")
		case o > 0:
			out = append(out, "lt")
		case o < 0:
			out = append(out, "gt")
		default:
			out = append(out, "eq")
		}
	}
	resp["out"] = out
	return resp
}

func main() {
	real := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	Glob.InitLogs()
	AST.InitDebugger()
	equality.InitDebugger()
	AST.Init()
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	out := bufio.NewWriter(real)
	for in.Scan() {
		var r req
		if err := json.Unmarshal(in.Bytes(), &r); err != nil {
			panic(err)
		}
		b, _ := json.Marshal(run(r))
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
