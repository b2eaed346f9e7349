package main

import (
	"go/types"
)

// iterShape finds the fields of the iterator by their types.
type iterShape struct {
	v, index, values, node int
}

func (c *Ctx) iterShape(nj *Njson) (iterShape, bool) {
	s := iterShape{-1, -1, -1, -1}
	st, ok := nj.IterV.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			switch {
			case types.Identical(t, nj.V):
				s.v = i
			case types.Identical(t, types.NewSlice(nj.V)):
				s.values = i
			case types.Identical(t, nj.Node):
				s.node = i
			case types.Identical(t, types.Typ[types.Int]):
				s.index = i
			}
		}
	}
	return s, c.Anchor(s.v >= 0 && s.index >= 0 && s.values >= 0 && s.node >= 0, "the fields of njson.IterV")
}

// iterRun is one abstract iterator: bound to a live node's reference, its
// values the node's values, its position p.
type iterRun struct {
	c    *Ctx
	nj   *Njson
	sh   iterShape
	r    *runner
	st   *State
	it   *PtrV
	d    *PtrV
	id   *Lin
	node *StructV
	vs   *SliceV
}

func (c *Ctx) newIter(nj *Njson, sh iterShape) *iterRun {
	x := &iterRun{c: c, nj: nj, sh: sh}
	x.r = c.runner(nj)
	rc := nj.validRecv()
	x.st, x.d, x.id, x.node = rc.st, rc.d, rc.id, rc.n
	x.vs = nj.values(x.st, x.d, x.id)
	o := newObj("iter", nj.IterV)
	o.name = "iter"
	x.it = &PtrV{o: o}
	return x
}

func (x *iterRun) field(st *State, f int) Val {
	return st.load(x.it.o, fpath(f), fieldTyp(x.nj.IterV, f))
}
func (x *iterRun) pos(st *State) *Lin { return st.F.norm(x.field(st, x.sh.index).(*Lin)) }

// call runs a method of the iterator in st.
func (x *iterRun) call(st *State, m string) []Outcome {
	fn := x.c.P.fn("", "IterV."+m)
	if !x.c.Anchor(fn != nil, "njson.IterV."+m) {
		return nil
	}
	var outs []Outcome
	for _, o := range x.r.run(st.clone(), fn, x.it) {
		if !o.panic && o.st.F.Feasible() {
			outs = append(outs, o)
		}
	}
	x.r.e.Check(len(outs) > 0, nil, nil, "returns", "IterV."+m, "IterV.%s never returns", m)
	return outs
}

// kept checks that the iterator is still bound to the node and the values.
func (x *iterRun) kept(st *State, ins ssaIns, cons string) {
	e := x.r.e
	v, _ := x.field(st, x.sh.values).(*SliceV)
	e.Check(v != nil && v.o == x.vs.o && st.F.EntailsEq(v.off.Sub(x.vs.off)) && st.F.EntailsEq(v.n.Sub(x.vs.n)), st, ins, "values", cons, "%s changes which values the iterator goes over", cons)
	e.Check(e.sameVal(st, x.field(st, x.sh.node), x.node), st, ins, "node", cons, "%s unbinds the iterator from its node", cons)
}

// outside checks the observers of an iterator that is not at a value.
func (x *iterRun) outside(st *State, cons string, idx int64) {
	e := x.r.e
	for _, o := range x.call(st, "Value") {
		e.Check(x.nj.provablyInvalid(e, o.st, o.ret[0]), o.st, o.site, "outside-value", cons, "%s: Value is %s although there is no current value", cons, keyOf(o.ret[0]))
	}
	for _, o := range x.call(st, "Index") {
		e.Check(o.st.F.EntailsEq(asLin(o.ret[0], nil).AddC(-idx)), o.st, o.site, "outside-index", cons, "%s: Index is %s instead of %d", cons, keyOf(o.ret[0]), idx)
	}
}

func (x *iterRun) length(st *State, want *Lin, cons string) {
	e := x.r.e
	for _, o := range x.call(st, "Len") {
		e.Check(o.st.F.EntailsEq(asLin(o.ret[0], nil).Sub(want)), o.st, o.site, "len", cons, "%s: Len is %s, not the number of values", cons, keyOf(o.ret[0]))
	}
}

// start puts the iterator in the middle of an iteration: position p, current
// entry arbitrary.
func (x *iterRun) start() {
	x.st.F.Feasible()
	st := x.st
	st.store(x.it.o, fpath(x.sh.node), x.nj.Node, x.node)
	st.store(x.it.o, fpath(x.sh.values), types.NewSlice(x.nj.V), x.vs)
	noPanic(x.r.e, "IterV")
}

func init() {
	register(&Prop{
		ID:      "C12",
		Rule:    "Inductive specification of the iterator, interpreted abstractly: Node.Values of a live node gives an iterator over exactly the node's values at position 0; Next from position p < len (p symbolic) yields entry p (key, id, Index p, Value the node with that id of the same document and revision) and moves to p+1; Next at the end or when finished returns false and stays finished; Reset goes back to position 0 from any state; Close leaves an empty iterator. Outside an iteration Value is inert and Index is -1 (before) or -2 (after).",
		Explain: "Abstract interpretation of each iterator operation from every abstract iterator state; by induction over calls every history is covered.",
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			sh, ok := c.iterShape(nj)
			if !ok {
				return
			}
			c.iterValues(nj, sh)
			c.iterNext(nj, sh)
			c.iterRest(nj, sh)
		},
	})
}

func (c *Ctx) iterValues(nj *Njson, sh iterShape) {
	fn := c.P.fn("", "Node.Values")
	if !c.Anchor(fn != nil, "njson.Node.Values") {
		return
	}
	x := c.newIter(nj, sh)
	e := x.r.e
	cons := "Node.Values"
	noPanic(e, cons)
	n := 0
	for _, o := range x.r.run(x.st, fn, x.node) {
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		sv, ok := o.ret[0].(*StructV)
		if !e.Check(ok, o.st, o.site, "result", cons, "%s returns %s", cons, keyOf(o.ret[0])) {
			continue
		}
		o.st.store(x.it.o, nil, nj.IterV, sv)
		x.kept(o.st, o.site, cons)
		e.Check(o.st.F.EntailsEq(x.pos(o.st)), o.st, o.site, "position", cons, "%s starts at %s", cons, keyOf(x.pos(o.st)))
		x.outside(o.st, cons, -1)
		x.length(o.st, x.vs.n, cons)
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	x.r.done()
}

func (c *Ctx) iterNext(nj *Njson, sh iterShape) {
	intT := types.Typ[types.Int]
	for _, mode := range []string{"inside", "at the end", "finished"} {
		x := c.newIter(nj, sh)
		e := x.r.e
		x.start()
		st := x.st
		cons := "IterV.Next " + mode
		p := symVal("p", intT).(*Lin)
		switch mode {
		case "inside":
			st.F.AssumeGe(p)
			st.F.AssumeGe(x.vs.n.Sub(p).AddC(-1))
		case "at the end":
			p = x.vs.n
		default:
			p = LC(-1)
		}
		st.store(x.it.o, fpath(sh.index), intT, p)
		for _, o := range x.call(st, "Next") {
			x.kept(o.st, o.site, cons)
			b, _ := o.ret[0].(*Cond)
			v, known := false, false
			if b != nil {
				v, known = o.st.knownCond(b)
			}
			if !e.Check(known && v == (mode == "inside"), o.st, o.site, "more", cons, "%s returns %s", cons, keyOf(o.ret[0])) {
				continue
			}
			x.length(o.st, x.vs.n, cons)
			if mode != "inside" {
				x.outside(o.st, cons, -2)
				e.Check(o.st.F.EntailsEq(x.pos(o.st).AddC(1)), o.st, o.site, "position", cons, "%s: an iterator that has finished goes to position %s", cons, keyOf(x.pos(o.st)))
				continue
			}
			e.Check(o.st.F.EntailsEq(x.pos(o.st).Sub(p).AddC(-1)), o.st, o.site, "position", cons, "%s moves from %s to %s", cons, keyOf(p), keyOf(x.pos(o.st)))
			s0 := pre(o.st)
			cur := x.field(o.st, sh.v)
			want := &StructV{f: make([]Val, nj.V.Underlying().(*types.Struct).NumFields())}
			for g := range want.f {
				want.f[g] = nj.elem(s0, x.vs, o.st.F.norm(p), g)
			}
			e.Check(e.sameVal(o.st, cur, want), o.st, o.site, "entry", cons, "%s gives %s instead of entry %s", cons, keyOf(cur), keyOf(p))
			for _, q := range x.call(o.st, "Index") {
				e.Check(q.st.F.EntailsEq(asLin(q.ret[0], nil).Sub(p)), q.st, q.site, "index", cons, "%s: Index is %s at entry %s", cons, keyOf(q.ret[0]), keyOf(p))
			}
			for _, q := range x.call(o.st, "Value") {
				id, ok := nj.liveRef(q.st, q.ret[0], x.d)
				e.Check(ok && q.st.F.EntailsEq(id.Sub(nj.elemID(pre(q.st), x.vs, q.st.F.norm(p)))), q.st, q.site, "value", cons, "%s: Value is %s at entry %s", cons, keyOf(q.ret[0]), keyOf(p))
			}
		}
		x.r.done()
	}
}

func (c *Ctx) iterRest(nj *Njson, sh iterShape) {
	intT := types.Typ[types.Int]
	for _, m := range []string{"Reset", "Close"} {
		x := c.newIter(nj, sh)
		e := x.r.e
		x.start()
		cons := "IterV." + m
		p := symVal("p", intT).(*Lin)
		x.st.F.AssumeGe(p.AddC(1))
		x.st.F.AssumeGe(x.vs.n.Sub(p))
		x.st.store(x.it.o, fpath(sh.index), intT, p)
		for _, o := range x.call(x.st, m) {
			if m == "Reset" {
				x.kept(o.st, o.site, cons)
				e.Check(o.st.F.EntailsEq(x.pos(o.st)), o.st, o.site, "position", cons, "%s leaves the iterator at %s", cons, keyOf(x.pos(o.st)))
				x.outside(o.st, cons, -1)
				x.length(o.st, x.vs.n, cons)
				continue
			}
			x.length(o.st, LC(0), cons)
			for _, q := range x.call(o.st, "Value") {
				e.Check(nj.provablyInvalid(e, q.st, q.ret[0]), q.st, q.site, "outside-value", cons, "%s: Value is %s", cons, keyOf(q.ret[0]))
			}
			for _, q := range x.call(o.st, "Next") {
				v, known := q.st.knownCond(q.ret[0].(*Cond))
				e.Check(known && !v, q.st, q.site, "more", cons, "%s: Next goes on", cons)
			}
		}
		x.r.done()
	}
}
