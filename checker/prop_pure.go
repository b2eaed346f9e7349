package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// readers are the operations that are documented as reads: accessors,
// lookups, iteration and serialisation.
var nodeReaders = []string{"ID", "With", "Document", "AppendJSON", "Raw", "Unescaped", "Data", "ToFloat", "ToInt", "ToUint", "ToBool", "Type", "Values", "TypeError", "Lookup", "ToInterface", "PrintJSON", "WrapUnmarshalJSON", "WrapUnmarshalText", "Get", "Index"}
var docReaders = []string{"AppendJSON", "Node", "Root"}
var iterReaders = []string{"Next", "Reset", "Close", "Len", "Index", "Value"}

// recursive calls return arbitrary results and, by induction, change nothing.
func pureRecursion(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	if ci.fn != nil && e.P.isRepoFn(ci.fn) && e.depth(st, ci.fn) > 0 {
		return []Outcome{{st: st, ret: e.freshResults(ci)}}, true
	}
	return nil, false
}

func init() {
	register(&Prop{
		ID:      "C02",
		Title:   "Reading a document never changes it",
		Rule:    "Every read operation is interpreted abstractly from a live symbolic receiver; obligations: no store, append, copy or call with side effects reaches an object that existed before the call, except the caller's dst buffer, pooled buffers, and the iterator itself. Recursive calls are assumed, inductively, to be pure.",
		Explain: "Effect analysis by abstract interpretation over the read operations of Node, Document and IterV.",
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			n := 0
			do := func(tn, m string) {
				fn := c.P.fn("", tn+"."+m)
				if !c.Anchor(fn != nil, "njson."+tn+"."+m) {
					return
				}
				n++
				var st *State
				var recv Val
				switch tn {
				case "Node":
					rc := nj.validRecv()
					st, recv = rc.st, rc.n
				case "Document":
					st = newState()
					recv = nj.doc("doc")
				default:
					st = newState()
					o := newObj("iter", nj.IterV)
					o.name = "iter"
					recv = &PtrV{o: o}
				}
				r := c.runner(nj)
				cons := tn + "." + m
				r.e.Ob("pure", cons)
				var pureWrite func(e *Engine, st *State, ins ssa.Instruction, o *Obj, cons string)
				r.e.H.Write = func(e *Engine, st *State, ins ssa.Instruction, o *Obj) {
					for _, o := range o.leaves() {
						pureWrite(e, st, ins, o, cons)
					}
				}
				pureWrite = func(e *Engine, st *State, ins ssa.Instruction, o *Obj, cons string) {
					if o.fresh || o.name == "arr(dst)" || o.name == "iter" || strings.HasPrefix(o.name, "arr(pooled") || strings.HasPrefix(o.name, "arr(ret") {
						return
					}
					e.Fail(st, ins, "pure", cons, "%s modifies %s", cons, o.name)
				}
				r.e.H.Call = pureRecursion
				args := nj.symArgs(st, fn, recv)
				for i, a := range args {
					if sl, ok := a.(*SliceV); ok && fn.Params[i].Type().String() == "[]byte" {
						sl.o.name = "arr(dst)"
					}
				}
				outs := r.run(st, fn, args...)
				k := 0
				for _, o := range outs {
					if !o.panic {
						k++
					}
				}
				r.e.Check(k > 0, nil, nil, "returns", cons, "%s never returns", cons)
				r.done()
			}
			for _, m := range nodeReaders {
				do("Node", m)
			}
			for _, m := range docReaders {
				do("Document", m)
			}
			for _, m := range iterReaders {
				do("IterV", m)
			}
			c.count["operations"] = n
		},
	})
}
