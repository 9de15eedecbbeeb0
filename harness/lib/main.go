// Scratch-only program: replays histories of operations on the collections of package Lib.
// After each operation it reports the operation's answer and the contents of every register.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/GoelandProver/Goeland/Lib"
)

type node = map[string]any
type elt = Lib.Int

// a copyable element
type cel struct{ v int }

func (c cel) Copy() cel             { return cel{c.v} }
func (c cel) Equals(o any) bool     { x, ok := o.(cel); return ok && x.v == c.v }
func (c cel) ToString() string      { return fmt.Sprint(c.v) }
func num(n node, k string) int      { f, _ := n[k].(float64); return int(f) }
func str(n node, k string) string   { s, _ := n[k].(string); return s }
func eq(x, y elt) bool              { return x.Equals(y) }
func ints(n node, k string) []elt {
	l, _ := n[k].([]any)
	res := []elt{}
	for _, x := range l {
		res = append(res, Lib.MkInt(int(x.(float64))))
	}
	return res
}

type env struct {
	ls map[int]Lib.List[elt]
	ss map[int]Lib.Set[elt]
	cs map[int]*Lib.Cache[int, int]
	n  map[int]int // calls of the hook, per family of caches
}

func pred(n node) func(elt) bool {
	k := num(n, "k")
	if str(n, "p") == "lt" {
		return func(x elt) bool { return int(x) < k }
	}
	return func(x elt) bool { return int(x)%2 == k%2 }
}

func raw(l Lib.List[elt]) []int {
	res := []int{}
	for _, x := range l.GetSlice() {
		res = append(res, int(x))
	}
	return res
}

func opt(o Lib.Option[int]) []int {
	switch x := o.(type) {
	case Lib.Some[int]:
		return []int{x.Val}
	}
	return []int{}
}

func b(x bool) []int {
	if x {
		return []int{1}
	}
	return []int{0}
}

func either(left bool, v int) Lib.Either[cel, cel] {
	if left {
		return Lib.MkLeft[cel, cel](cel{v})
	}
	return Lib.MkRight[cel, cel](cel{v})
}

func (e *env) run(n node) any {
	d, r, q, i, j := num(n, "d"), num(n, "r"), num(n, "q"), num(n, "i"), num(n, "j")
	x := Lib.MkInt(num(n, "x"))
	vs := ints(n, "vs")
	set := func(l Lib.List[elt]) any { e.ls[d] = l; return []int{} }
	sset := func(s Lib.Set[elt]) any { e.ss[d] = s; return []int{} }
	switch str(n, "op") {
	case "l.new":
		return set(Lib.NewList[elt]())
	case "l.mk":
		return set(Lib.MkList[elt](i))
	case "l.mkv":
		return set(Lib.MkListV(vs...))
	case "l.append":
		l := e.ls[r]
		l.Append(vs...)
		e.ls[r] = l
	case "l.upd":
		l := e.ls[r]
		l.Upd(i, x)
		e.ls[r] = l
	case "l.addm":
		l := e.ls[r]
		l.Add(eq, vs...)
		e.ls[r] = l
	case "l.sort":
		sort.Sort(Lib.ToStrictlyOrderedList(e.ls[r]))
	case "l.add":
		return set(Lib.ListAdd(e.ls[r], vs...))
	case "l.copy":
		return set(e.ls[r].Copy(func(x elt) elt { return x }))
	case "l.cpy":
		c := Lib.ListCpy[cel](Lib.ListMap(e.ls[r], func(x elt) cel { return cel{int(x)} }))
		return set(Lib.ListMap(c, func(x cel) elt { return Lib.MkInt(x.v) }))
	case "l.slice":
		return set(e.ls[r].Slice(i, j))
	case "l.removeat":
		return set(e.ls[r].RemoveAt(i))
	case "l.filter":
		return set(e.ls[r].Filter(pred(n)))
	case "l.map":
		return set(Lib.ListMap(e.ls[r], func(y elt) elt { return y + x }))
	case "l.len":
		return []int{e.ls[r].Len()}
	case "l.at":
		return []int{int(e.ls[r].At(i))}
	case "l.get":
		return raw(Lib.MkListV(append([]elt{}, e.ls[r].Get(i, j)...)...))
	case "l.contains":
		return b(e.ls[r].Contains(x, eq))
	case "l.mem":
		return b(Lib.ListMem(x, e.ls[r]))
	case "l.find":
		v, ok := e.ls[r].Find(pred(n), Lib.MkInt(-1))
		return append([]int{int(v)}, b(ok)...)
	case "l.indexof":
		return opt(e.ls[r].IndexOf(x, eq))
	case "l.lindexof":
		return opt(Lib.ListIndexOf(x, e.ls[r]))
	case "l.any":
		return b(e.ls[r].Any(pred(n)))
	case "l.empty":
		return b(e.ls[r].Empty())
	case "l.equals":
		return append(b(Lib.ListEquals(e.ls[r], e.ls[q])), b(e.ls[r].Equals(eq, e.ls[r], e.ls[q]))...)
	case "l.string":
		s := e.ls[r].ToString(func(x elt) string { return fmt.Sprint(int(x)) }, Lib.WithSep(","), Lib.WithEmpty("none"))
		if s == "none" {
			return []int{-1}
		}
		res := []int{}
		for _, p := range strings.Split(s, ",") {
			k := -7
			fmt.Sscan(p, &k)
			res = append(res, k)
		}
		return res

	case "s.empty":
		return sset(Lib.EmptySet[elt]())
	case "s.single":
		return sset(Lib.Singleton(x))
	case "s.add":
		return sset(e.ss[r].Add(vs...))
	case "s.remove":
		return sset(e.ss[r].Remove(x))
	case "s.union":
		return sset(e.ss[r].Union(e.ss[q]))
	case "s.inter":
		return sset(e.ss[r].Inter(e.ss[q]))
	case "s.diff":
		return sset(e.ss[r].Diff(e.ss[q]))
	case "s.copy":
		return sset(e.ss[r].Copy())
	case "s.filter":
		return sset(e.ss[r].Filter(pred(n)))
	case "s.assign":
		return sset(e.ss[r])
	case "s.contains":
		return b(e.ss[r].Contains(x))
	case "s.card":
		return []int{e.ss[r].Cardinal()}
	case "s.isempty":
		return b(e.ss[r].IsEmpty())
	case "s.disjoint":
		return b(e.ss[r].Disjoint(e.ss[q]))

	case "c.new":
		f := d
		e.n[f] = 0
		c := Lib.MkCache(int(x), func(v int) int { e.n[f]++; return v })
		e.cs[d] = &c
		return []int{}
	case "c.get":
		return []int{e.cs[r].Get(int(x))}
	case "c.raw":
		return []int{e.cs[r].Raw()}
	case "c.copy":
		c := e.cs[r].Copy(func(v int) int { return v })
		e.cs[d] = &c
		return []int{}
	case "c.avoid":
		e.cs[r].AvoidUpd()
		return []int{}
	case "c.needs":
		return b(e.cs[r].NeedsUpd())

	case "o.bind": // x -> x+1 when below k
		o := Lib.MkNone[int]()
		if i == 1 {
			o = Lib.MkSome(int(x))
		}
		return opt(Lib.OptBind(o, func(v int) Lib.Option[int] {
			if v < num(n, "k") {
				return Lib.MkSome(v + 1)
			}
			return Lib.MkNone[int]()
		}))
	case "e.equals":
		u, v := either(i == 1, int(x)), either(j == 1, num(n, "k"))
		return append(b(Lib.EitherEquals[cel, cel](u, v)), b(Lib.EitherEquals[cel, cel](Lib.EitherCpy[cel, cel](u), v))...)
	case "par": // every call answers once; the answers are summed
		calls := []func(chan int){}
		for _, v := range vs {
			v := v
			calls = append(calls, func(c chan int) { c <- int(v) })
		}
		res, err := Lib.GenericParallel(calls, func(a, b int) int { return a + b }, 0)
		return append(b(err == nil), res)
	default:
		panic("unknown operation " + str(n, "op"))
	}
	return []int{}
}

func (e *env) dump(nl, ns int) (any, any, any) {
	ls, ss, hs := [][]int{}, [][][]int{}, []int{}
	for k := 1; k <= nl; k++ {
		ls = append(ls, raw(e.ls[k]))
	}
	for k := 1; k <= ns; k++ {
		in := []int{}
		for x := 0; x < 16; x++ {
			if e.ss[k].Contains(Lib.MkInt(x)) {
				in = append(in, x)
			}
		}
		ss = append(ss, [][]int{raw(e.ss[k].Elements()), in})
		hs = append(hs, e.ss[k].InternalHeight())
	}
	return ls, ss, hs
}

func main() {
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	for in.Scan() {
		var q node
		if json.Unmarshal(in.Bytes(), &q) != nil {
			continue
		}
		res := func() (res node) {
			defer func() {
				if r := recover(); r != nil {
					res = node{"id": q["id"], "panic": fmt.Sprint(r) + "\n" + string(debug.Stack())}
				}
			}()
			e := &env{map[int]Lib.List[elt]{}, map[int]Lib.Set[elt]{}, map[int]*Lib.Cache[int, int]{}, map[int]int{}}
			outs := []node{}
			for _, o := range q["ops"].([]any) {
				r := e.run(o.(node))
				ls, ss, hs := e.dump(num(q, "nl"), num(q, "ns"))
				outs = append(outs, node{"res": r, "ls": ls, "ss": ss, "hs": hs})
			}
			return node{"id": q["id"], "out": outs}
		}()
		s, _ := json.Marshal(res)
		out.Write(append(s, '\n'))
		out.Flush()
	}
}
