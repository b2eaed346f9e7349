package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// putMon counts the documents handed to a sync.Pool.
func countExt(st *State, key string) int64 {
	if l, ok := st.ext[key].(*Lin); ok {
		c, _ := l.constInt()
		return c
	}
	return 0
}

// sameDoc reports that v is a pointer to exactly the document d.
func sameDoc(v Val, d *PtrV) bool {
	if i, ok := v.(*IfaceV); ok {
		v = i.v
	}
	p, ok := v.(*PtrV)
	return ok && p.o == d.o && len(p.p) == len(d.p)
}

// emptied checks that d has no nodes and the revision after rev0.
func (nj *Njson) emptied(e *Engine, st *State, ins ssa.Instruction, d *PtrV, cons, when string) {
	sl := nj.nodes(st, d)
	e.Check(sl != nil && (sl.isNil || st.F.EntailsEq(sl.n)), st, ins, "emptied", cons, "%s: the document still has nodes %s", cons, when)
	diff := nj.rev(st, d).Sub(nj.rev(pre(st), d)).AddC(-1)
	ok := st.F.EntailsEq(diff)
	if !ok {
		// modulo 2^64
		w := LC(1).Scale(1)
		for i := 0; i < 64; i++ {
			w = w.Scale(2)
		}
		ok = st.F.EntailsEq(diff.Add(w)) || st.F.EntailsEq(diff.Sub(w))
	}
	e.Check(ok, st, ins, "revision", cons, "%s: the revision is not the next one %s (%s, was %s): references handed out before may match it", cons, when, keyOf(st.F.norm(nj.rev(st, d))), keyOf(nj.rev(pre(st), d)))
}

func init() {
	register(&Prop{
		ID:      "C07",
		Rule:    "Reset, Close and Pool.Put are interpreted abstractly on an arbitrary document (and nil): on return, and at the moment the document is handed to the sync.Pool, it has no nodes and the next revision; it is handed over exactly once, to the pool meant, and not written afterwards; nil is ignored. Pool.Get and Blank return a non-nil document without nodes whose revision they did not change. A may-write analysis over every function of the module finds all writes to the revision and every path on which an exported operation reaches them: only Reset, Close and Put may.",
		Explain: "Abstract interpretation of the document life cycle plus a whole-module may-write analysis of the revision.",
		Assume:  []string{"a pool contains only what the module's Put gave it (sync.Pool drops or returns objects unchanged)", "the revision does not wrap around 2^64"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			c.lifeReset(nj)
			c.lifePut(nj)
			c.lifeGet(nj)
			c.revWriters(nj)
		},
	})
}

func (c *Ctx) lifeReset(nj *Njson) {
	fn := c.P.fn("", "Document.Reset")
	if !c.Anchor(fn != nil, "njson.Document.Reset") {
		return
	}
	r := c.runner(nj)
	e := r.e
	cons := "Document.Reset"
	st := newState()
	d := nj.doc("doc")
	nj.nodes(st, d)
	nj.rev(st, d)
	noPanic(e, cons)
	outs := r.run(st, fn, d)
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		nj.emptied(e, o.st, o.site, d, cons, "after the call")
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	r.done()
}

// lifePut analyses Pool.Put and Document.Close, on a document and on nil.
func (c *Ctx) lifePut(nj *Njson) {
	poolT := c.P.typ("", "Pool")
	if !c.Anchor(poolT != nil, "njson.Pool") {
		return
	}
	for _, name := range []string{"Pool.Put", "Document.Close"} {
		fn := c.P.fn("", name)
		if !c.Anchor(fn != nil, "njson."+name) {
			continue
		}
		for _, isNil := range []bool{false, true} {
			r := c.runner(nj)
			e := r.e
			cons := name
			if isNil {
				cons += " of nil"
			}
			st := newState()
			d := nj.doc("doc")
			var dv Val = d
			if isNil {
				dv = &NilV{types.NewPointer(nj.Document)}
			} else {
				nj.nodes(st, d)
				nj.rev(st, d)
			}
			po := newObj("pool", poolT)
			po.name = "pool"
			pool := &PtrV{o: po}
			args := []Val{dv}
			if name == "Pool.Put" {
				args = []Val{pool, dv}
			}
			noPanic(e, cons)
			e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
				if ci.name != "(*sync.Pool).Put" {
					return nil, false
				}
				v := ci.args[1]
				if isNil {
					e.Fail(st, ci.ins, "pooled", cons, "%s hands something to the pool", cons)
					return []Outcome{{st: st}}, true
				}
				if p, ok := ci.args[0].(*PtrV); ok && name == "Pool.Put" {
					e.Check(p.o == po, st, ci.ins, "pooled", cons+" pool", "%s hands the document to another pool", cons)
				}
				e.Check(sameDoc(v, d), st, ci.ins, "pooled", cons+" document", "%s hands %s to the pool instead of the document", cons, keyOf(v))
				nj.emptied(e, st, ci.ins, d, cons, "when it is handed to the pool")
				st.ext["puts"] = LC(countExt(st, "puts") + 1)
				return []Outcome{{st: st}}, true
			}
			e.H.Write = func(e *Engine, st *State, ins ssa.Instruction, o *Obj) {
				for _, o := range o.leaves() {
					if isNil && !o.fresh {
						e.Fail(st, ins, "noop", cons, "%s writes to %s", cons, o.name)
					}
					if !isNil && countExt(st, "puts") > 0 && !o.fresh && !o.stack {
						e.Fail(st, ins, "after-put", cons, "%s writes to %s after the document was handed to the pool", cons, o.name)
					}
				}
			}
			outs := r.run(st, fn, args...)
			n := 0
			for i := range outs {
				o := &outs[i]
				if o.panic || !o.st.F.Feasible() {
					continue
				}
				n++
				if isNil {
					continue
				}
				k := countExt(o.st, "puts")
				e.Check(k == 1, o.st, o.site, "pooled", cons+" once", "%s hands the document to the pool %d times", cons, k)
				nj.emptied(e, o.st, o.site, d, cons, "after the call")
			}
			e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
			r.done()
		}
	}
}

// lifeGet analyses Pool.Get and Blank.
func (c *Ctx) lifeGet(nj *Njson) {
	poolT := c.P.typ("", "Pool")
	for _, name := range []string{"Pool.Get", "Blank"} {
		fn := c.P.fn("", name)
		if !c.Anchor(fn != nil, "njson."+name) || poolT == nil {
			continue
		}
		r := c.runner(nj)
		e := r.e
		cons := name
		st := newState()
		noPanic(e, cons)
		pooled := nj.doc("pooled")
		e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
			switch ci.name {
			case "(*sync.Pool).Get":
				e.Check(countExt(st, "gets") == 0, st, ci.ins, "leak", cons, "%s takes more than one document from the pool", cons)
				st.ext["gets"] = LC(1)
				outs := e.poolGet(st, ci)
				for i := range outs {
					if iv, ok := outs[i].ret[0].(*IfaceV); ok && !iv.isNil && iv.t != nil && types.Identical(iv.t, types.NewPointer(nj.Document)) {
						// what Put gave the pool: a document without nodes
						outs[i].ret[0] = &IfaceV{t: iv.t, v: pooled}
						s := outs[i].st
						s.F.AssumeEq(nj.nodes(s, pooled).n)
						nj.rev(s, pooled)
						s.ext["pooled"] = LC(1)
					}
				}
				return outs, true
			case "(*sync.Pool).Put":
				e.Fail(st, ci.ins, "leak", cons, "%s puts something back into the pool", cons)
				return []Outcome{{st: st}}, true
			}
			return nil, false
		}
		var args []Val
		if name == "Pool.Get" {
			po := newObj("pool", poolT)
			po.name = "pool"
			args = append(args, &PtrV{o: po})
		}
		outs := r.run(st, fn, args...)
		n := 0
		for i := range outs {
			o := &outs[i]
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			n++
			p, ok := o.ret[0].(*PtrV)
			if !e.Check(ok && !p.o.maybeNil && len(p.p) == 0, o.st, o.site, "blank", cons, "%s may return %s", cons, keyOf(o.ret[0])) {
				continue
			}
			e.Check(p.o == pooled.o || p.o.fresh, o.st, o.site, "blank", cons+" owner", "%s returns a document that someone else may hold (%s)", cons, p.o.name)
			sl := nj.nodes(o.st, p)
			e.Check(sl != nil && (sl.isNil || o.st.F.EntailsEq(sl.n)), o.st, o.site, "blank", cons+" nodes", "%s returns a document that has nodes", cons)
			if p.o == pooled.o {
				e.Check(o.st.F.EntailsEq(nj.rev(o.st, p).Sub(nj.rev(pre(o.st), p))), o.st, o.site, "revision", cons, "%s changes the revision of a pooled document: old references may match again", cons)
			}
		}
		e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
		r.done()
	}
}

// freshAlloc reports that address base v is a local allocation of the function.
func freshAlloc(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshAlloc(v.X)
	case *ssa.IndexAddr:
		return freshAlloc(v.X)
	}
	return false
}

// revWriters finds every write to a document's revision and who reaches it.
func (c *Ctx) revWriters(nj *Njson) {
	writers := map[*ssa.Function]ssa.Instruction{}
	isDocPtr := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(p.Elem(), nj.Document)
	}
	nf := 0
	for _, fn := range c.P.allFn {
		if !c.P.isRepoFn(fn) {
			continue
		}
		c.saw(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if !isDocPtr(x.X.Type()) || x.Field != nj.dRev {
						continue
					}
					for _, r := range *x.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						if freshAlloc(x.X) && onlyStored(r, x) {
							continue
						}
						nf++
						writers[fn] = ins
					}
				case *ssa.Store:
					if isDocPtr(x.Addr.Type()) && !freshAlloc(x.Addr) {
						nf++
						writers[fn] = ins
					}
				}
			}
		}
	}
	c.count["revision_writes"] = nf
	c.Check(nf > 0, noPos, "rev-writers", "instances", "no write to Document.rev found: the rule no longer sees the code")
	// reverse reachability through static calls and bound methods
	reach := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	for w := range writers {
		reach[w] = w
		work = append(work, w)
	}
	callers := c.P.callerMap()
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range callers[f] {
			if reach[g] == nil && c.P.isRepoFn(g) {
				reach[g] = reach[f]
				work = append(work, g)
			}
		}
	}
	allowed := map[string]bool{"Document.Reset": true, "Document.Close": true, "Pool.Put": true}
	var names []string
	for _, t := range []types.Type{nj.Document, nj.Node, nj.IterV} {
		for _, m := range c.P.methodsOf(t) {
			n := t.(*types.Named).Obj().Name() + "." + m.Name()
			if !m.Object().Exported() || allowed[n] {
				continue
			}
			names = append(names, n)
			w := reach[m]
			pos := noPos
			if w != nil {
				pos = writers[w].Pos()
			}
			c.Check(w == nil, pos, "rev-writers", n, "%s can change a document's revision (in %s): references its callers hold become invalid or, worse, valid again", n, fnName(w))
		}
	}
	for _, n := range []string{"Blank", "PrintJSON", "Pool.Get"} {
		if f := c.P.fn("", n); f != nil {
			w := reach[f]
			pos := noPos
			if w != nil {
				pos = writers[w].Pos()
			}
			c.Check(w == nil, pos, "rev-writers", n, "%s can change a document's revision (in %s)", n, fnName(w))
		}
	}
	sort.Strings(names)
	c.Note("operations shown not to reach a revision write: %s", strings.Join(names, ", "))
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return shortFn(f)
}

// onlyStored: the address is the target of the store, not its value.
func onlyStored(r ssa.Instruction, a ssa.Value) bool {
	s, ok := r.(*ssa.Store)
	return ok && s.Addr == a && s.Val != a
}

// callerMap maps a function to the functions that mention it.
func (p *Program) callerMap() map[*ssa.Function][]*ssa.Function {
	out := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.allFn {
		seen := map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
						seen[g] = true
						out[g] = append(out[g], fn)
						// methods of bound or thunked functions
						for _, h := range p.callees(g) {
							if g.Synthetic != "" && !seen[h] {
								seen[h] = true
								out[h] = append(out[h], fn)
							}
						}
					}
				}
			}
		}
	}
	return out
}
