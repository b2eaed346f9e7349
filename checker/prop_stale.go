package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nodeRecv is one abstract configuration of a Node receiver.
type nodeRecv struct {
	name string
	st   *State
	n    *StructV
	d    *PtrV // nil for the no-document case
	id   *Lin
}

// invalidRecvs are the configurations in which a reference must be inert.
func (nj *Njson) invalidRecvs() []nodeRecv {
	var out []nodeRecv
	uintT := types.Typ[types.Uint]
	{
		st := newState()
		id := symVal("n.id", uintT).(*Lin)
		rev := symVal("n.rev", uintT).(*Lin)
		out = append(out, nodeRecv{"no document", st, nj.nodeVal(id, rev, &NilV{types.NewPointer(nj.Document)}), nil, id})
	}
	{
		st := newState()
		d := nj.doc("doc")
		id := symVal("n.id", uintT).(*Lin)
		rev := symVal("n.rev", uintT).(*Lin)
		st.F.AssumeNe(rev.Sub(nj.rev(st, d)))
		nj.nodes(st, d)
		out = append(out, nodeRecv{"revision differs from the document's", st, nj.nodeVal(id, rev, d), d, id})
	}
	{
		st := newState()
		d := nj.doc("doc")
		n, id := nj.symNode(st, "n", d)
		st.F.AssumeGe(id.Sub(nj.nodes(st, d).n))
		out = append(out, nodeRecv{"id is past the last node", st, n, d, id})
	}
	return out
}

// validRecv is a live reference; typ selects the node type (0: any).
func (nj *Njson) validRecv() nodeRecv {
	st := newState()
	d := nj.doc("doc")
	n, id := nj.symNode(st, "n", d)
	st.F.AssumeGe(nj.nodes(st, d).n.Sub(id).AddC(-1))
	return nodeRecv{"live", st, n, d, id}
}

// symArgs makes symbolic arguments for the parameters after the receiver.
func (nj *Njson) symArgs(st *State, fn *ssa.Function, recv Val) []Val {
	args := []Val{recv}
	for i, q := range fn.Params {
		if i == 0 {
			continue
		}
		v := symVal(q.Name(), q.Type())
		st.assumeValid(v)
		if _, ok := v.(*IfaceV); ok {
			st.nonNil(v)
		}
		args = append(args, v)
	}
	return args
}

// nodeState classifies a Node value in a state: it must be provably invalid or live.
func (nj *Njson) provablyInvalid(e *Engine, st *State, v Val) bool {
	s, ok := v.(*StructV)
	if !ok {
		return false
	}
	d := s.f[nj.nDoc]
	if isNil, known := st.isNilKnown(d); known && isNil {
		return true
	}
	p, ok := d.(*PtrV)
	if !ok {
		return false
	}
	t := st.clone()
	if p.o.maybeNil {
		if c := nilCond(p); c.kind == 'a' {
			t.F.atoms[c.atom] = false
		}
	}
	if t.F.EntailsNeq(asLin(s.f[nj.nRev], nil).Sub(nj.rev(t, p))) {
		return true
	}
	return t.F.Entails(asLin(s.f[nj.nID], nil).Sub(nj.nodes(t, p).n))
}

func (nj *Njson) emptyResult(e *Engine, st *State, v Val, t types.Type) (bool, string) {
	if types.Identical(t, nj.Node) {
		return nj.provablyInvalid(e, st, v), "a reference that is itself inert"
	}
	if types.Identical(t, nj.IterV) {
		s, ok := v.(*StructV)
		if !ok {
			return false, "an empty iterator"
		}
		i := fieldIx(nj.IterV, "values")
		sl, ok := s.f[i].(*SliceV)
		return ok && st.F.EntailsEq(sl.n), "an empty iterator"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case isStr(t):
			s, ok := v.(StrV)
			return ok && st.F.EntailsEq(s.length()), "the empty string"
		case isBoolT(t):
			c, ok := v.(*Cond)
			if !ok {
				return false, "false"
			}
			val, known := st.knownCond(c)
			return known && !val, "false"
		case isInt(t):
			l, ok := v.(*Lin)
			return ok && st.F.EntailsEq(l), "0"
		default:
			return strings.HasPrefix(keyOf(v), "const:0"), "0"
		}
	case *types.Pointer:
		isNil, known := st.isNilKnown(v)
		return known && isNil, "nil"
	case *types.Interface:
		if u.NumMethods() == 0 {
			isNil, known := st.isNilKnown(v)
			return known && isNil, "nil"
		}
		isNil, known := st.isNilKnown(v)
		return known && !isNil, "an error"
	}
	return true, ""
}

func init() {
	register(&Prop{
		ID:      "C01",
		Title:   "References to a reset document, or to ids that do not exist, are inert",
		Rule:    "Every exported method of Node is interpreted abstractly (SSA, callees inlined, all paths) from three symbolic pre-states: no document, revision different from the document's, id ≥ number of nodes. Obligations per method and pre-state: no write to any object that existed before the call, no call on a caller-supplied interface, no reachable panic, and every result is the empty value of its type (errors: non-nil; Node: again inert).",
		Explain: "Abstract interpretation of the exported method set of Node over all symbolic receivers that are not live.",
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			ms := c.P.methodsOf(nj.Node)
			n := 0
			for _, fn := range ms {
				if !fn.Object().Exported() {
					continue
				}
				n++
				for _, rc := range nj.invalidRecvs() {
					inertCheck(c, nj, fn, rc)
				}
			}
			c.min("exported Node methods", n, 30)
		},
	})
}

func inertCheck(c *Ctx, nj *Njson, fn *ssa.Function, rc nodeRecv) {
	r := c.runner(nj)
	e := r.e
	name := fn.Name()
	cons := name + " / " + rc.name
	args := nj.symArgs(rc.st, fn, rc.n)
	e.H.Write = func(e *Engine, st *State, ins ssa.Instruction, o *Obj) {
		if !o.fresh && strings.HasPrefix(o.name, "glob:") {
			return
		}
		for _, o := range o.leaves() {
			if !o.fresh && !strings.HasPrefix(o.name, "arr(ret") {
				e.Fail(st, ins, "inert-write", cons, "%s on a reference whose %s writes to %s", name, rc.name, o.name)
			}
		}
	}
	e.H.NilDer = func(e *Engine, st *State, ins ssa.Instruction, v Val) {
		e.Fail(st, ins, "inert-panic", cons, "%s on a reference whose %s dereferences nil (%s)", name, rc.name, keyOf(v))
	}
	e.H.Bounds = func(e *Engine, st *State, ins ssa.Instruction, what string, ok bool) {
		e.Check(ok, st, ins, "inert-panic", cons, "%s: %s may be out of range", name, what)
	}
	e.H.Panic = func(e *Engine, st *State, ins ssa.Instruction, msg string) {
		e.Fail(st, ins, "inert-panic", cons, "%s: %s", name, msg)
	}
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.iface != nil && ci.fn == nil {
			if iv, ok := ci.args[0].(*IfaceV); ok {
				for _, q := range fn.Params[1:] {
					if iv.key == q.Name() {
						e.Fail(st, ci.ins, "inert-call", cons, "%s calls %s.%s although the reference's %s", name, q.Name(), ci.method, rc.name)
					}
				}
			}
		}
		return nil, false
	}
	e.Ob("inert-write", cons)
	outs := r.run(rc.st, fn, args...)
	rets := 0
	for _, o := range outs {
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		rets++
		if name == "ID" || name == "With" || (name == "Document" && rc.name == "id is past the last node") {
			continue // identity accessors: they do not look at the document
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			ok, what := nj.emptyResult(e, o.st, o.ret[i], res.At(i).Type())
			e.Check(ok, o.st, o.site, "inert-result", fmt.Sprintf("%s result %d", cons, i), "%s on a reference whose %s returns %s instead of %s", name, rc.name, keyOf(o.ret[i]), what)
		}
	}
	e.Check(rets > 0, nil, nil, "inert-returns", cons, "%s never returns", name)
	r.done()
}
