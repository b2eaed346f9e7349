package main

import (
	"fmt"
	"go/types"
	"os"
)

// variant is a case distinction on the arguments, the number of values n and
// the index k that is looked at.
type variant func(n, k *Lin, args []Val) []*Lin

// Container edits without allocation of nodes: Slice, Remove, Del.

func (c *Ctx) editRun(nj *Njson, name, kind string, is bool, mon func(rc nodeRecv, args []Val, k *Lin) Mon,
	check func(e *Engine, o *Outcome, rc nodeRecv, args []Val, vs0 *SliceV, k *Lin, cons string), vary ...variant) {
	if len(vary) > 1 {
		for _, p := range vary {
			c.editRun(nj, name, kind, is, mon, check, p)
		}
		return
	}
	fn := c.P.fn("", "Node."+name)
	if !c.Anchor(fn != nil, "njson.Node."+name) {
		return
	}
	r := c.runner(nj)
	e := r.e
	rc := nj.liveKind(kind)
	cons := "Node." + name
	if !is {
		rc = nj.liveNotKind(kind)
		cons += " on another type"
	}
	noPanic(e, cons)
	args := nj.symArgs(rc.st, fn, rc.n)
	vs0 := nj.values(rc.st, rc.d, rc.id)
	k := symVal("k", types.Typ[types.Int]).(*Lin)
	inf0 := nj.infoOf(rc.st, rc.d, rc.id)
	raw0 := nj.raw(rc.st, rc.d, rc.id)
	keepVals(k)
	e.watch = []*Lin{k}
	watchSyms[k.t[0].s] = true
	for _, a := range args {
		if l, ok := a.(*Lin); ok {
			e.watch = append(e.watch, l)
		}
	}
	if len(vary) == 1 {
		for _, l := range vary[0](vs0.n, k, args) {
			rc.st.F.AssumeGe(l)
		}
		for g := 0; g < nj.V.Underlying().(*types.Struct).NumFields(); g++ {
			e.watchVals = append(e.watchVals, nj.elem(rc.st, vs0, k, g), nj.elem(rc.st, vs0, k.AddC(1), g))
		}
	}
	keepVals(vs0.n, vs0.off, rc.id, nj.nodes(rc.st, rc.d).n)
	keepVals(args[1:]...)
	if mon != nil {
		rc.st.mon = mon(rc, args, k)
	}
	outs := r.run(rc.st, fn, args...)
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		st := o.st
		dbgVals(o, nj, rc)
		nj.frame(e, o, rc.d, cons, rc.id)
		e.Check(st.F.EntailsEq(nj.rev(st, rc.d).Sub(nj.rev(pre(st), rc.d))), st, o.site, "rev", cons, "%s changes the document revision", cons)
		e.Check(st.F.EntailsEq(nj.nodes(st, rc.d).n.Sub(nj.nodes(pre(st), rc.d).n)), st, o.site, "count", cons, "%s changes the number of nodes", cons)
		e.Check(st.F.EntailsEq(nj.infoOf(st, rc.d, rc.id).Sub(inf0)), st, o.site, "type", cons, "%s changes the node's type or flags", cons)
		e.Check(e.sameVal(st, nj.raw(st, rc.d, rc.id), raw0), st, o.site, "text", cons, "%s changes the node's text", cons)
		if is {
			check(e, o, rc, args, vs0, k, cons)
		} else {
			nj.valuesAs(e, st, o, nj.values(st, rc.d, rc.id), vs0.n, vs0, k, LC(0), cons, "unchanged")
		}
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	r.done()
}

// elemIs checks that, under the facts of st, element k of vs is element j of vs0 before the call.
func (nj *Njson) elemIs(e *Engine, st *State, o *Outcome, vs *SliceV, k *Lin, vs0 *SliceV, j *Lin, cons, what string) {
	if !st.F.Feasible() {
		return
	}
	s0 := pre(st)
	for g := 0; g < nj.V.Underlying().(*types.Struct).NumFields(); g++ {
		a, b := nj.elem(st, vs, k, g), nj.elem(s0, vs0, j, g)
		e.Check(e.sameVal(st, a, b), st, o.site, "values", cons+" "+what, "%s: entry %s is %s instead of entry %s (%s)", cons, keyOf(st.F.norm(k)), keyOf(st.F.normVal(a)), keyOf(st.F.norm(j)), keyOf(st.F.normVal(b)))
	}
}

// valuesAs checks vs has length n and vs[k] == vs0[k+shift] for every k.
func (nj *Njson) valuesAs(e *Engine, st *State, o *Outcome, vs *SliceV, n *Lin, vs0 *SliceV, k, shift *Lin, cons, what string) {
	if vs == nil {
		e.Check(false, st, o.site, "values", cons+" "+what, "%s: values unknown", cons)
		return
	}
	if !e.Check(st.F.EntailsEq(vs.n.Sub(n)), st, o.site, "values", cons+" "+what+" count", "%s: the node has %s values instead of %s", cons, keyOf(st.F.norm(vs.n)), keyOf(st.F.norm(n))) || vs.isNil {
		return
	}
	t := st.clone()
	t.F.AssumeGe(k)
	if !t.F.AssumeGe(n.Sub(k).AddC(-1)) {
		return
	}
	nj.elemIs(e, t, o, vs, k, vs0, k.Add(shift), cons, what)
}

// in forks st on conditions lo<=x<=hi; returns the state inside.
func assumeAll(st *State, ge ...*Lin) *State {
	t := st.clone()
	for _, g := range ge {
		if !t.F.AssumeGe(g) {
			return nil
		}
	}
	if !t.F.Feasible() {
		return nil
	}
	return t
}

// rangeMon is the reference for a range test: "in" when all of conds hold,
// "out" when one is known to fail.
func rangeMon(conds func() []*Lin, then ...func(e *Engine, st *State, m *RefMon) *RefMon) Mon {
	return &RefMon{ctl: "?", step: func(e *Engine, st *State, m *RefMon) *RefMon {
		if m.ctl != "?" {
			if len(then) > 0 {
				return then[0](e, st, m)
			}
			return nil
		}
		all := true
		for _, l := range conds() {
			switch sign(st, l) {
			case -1:
				return m.to("out")
			case 0:
				all = false
			}
		}
		if all {
			return m.to("in")
		}
		return nil
	}}
}

func (c *Ctx) editSlice(nj *Njson) {
	conds := func(rc nodeRecv, args []Val, k *Lin) Mon {
		i, j := args[1].(*Lin), args[2].(*Lin)
		n := nj.values(rc.st, rc.d, rc.id).n
		return rangeMon(func() []*Lin { return []*Lin{i, j.Sub(i), n.Sub(j)} })
	}
	c.editRun(nj, "Slice", "TypeArray", true, conds, func(e *Engine, o *Outcome, rc nodeRecv, args []Val, vs0 *SliceV, k *Lin, cons string) {
		i, j := args[1].(*Lin), args[2].(*Lin)
		vs := nj.values(o.st, rc.d, rc.id)
		switch m := o.st.ref(e); m.ctl {
		case "in":
			nj.valuesAs(e, o.st, o, vs, j.Sub(i), vs0, k, i, cons, "in range")
		case "out":
			nj.valuesAs(e, o.st, o, vs, vs0.n, vs0, k, LC(0), cons, "out of range")
		default:
			e.Check(false, o.st, o.site, "range", cons, "%s returns before the range is determined", cons)
		}
	})
	c.editRun(nj, "Slice", "TypeArray", false, nil, nil)
}

func (c *Ctx) editRemove(nj *Njson) {
	conds := func(rc nodeRecv, args []Val, k *Lin) Mon {
		i := args[1].(*Lin)
		n := nj.values(rc.st, rc.d, rc.id).n
		vs0 := nj.values(rc.st, rc.d, rc.id)
		return rangeMon(func() []*Lin { return []*Lin{i, n.Sub(i).AddC(-1)} }, func(e *Engine, st *State, m *RefMon) *RefMon {
			// keep "entry k is still the old one" and "the next one has moved there" apart
			if m.ctl != "in" {
				return nil
			}
			for g := 0; g < nj.V.Underlying().(*types.Struct).NumFields(); g++ {
				if !e.sameVal(st, nj.elem(st, vs0, k, g), nj.elem(pre(st), vs0, k.AddC(1), g)) {
					return nil
				}
			}
			return m.to("moved")
		})
	}
	c.editRun(nj, "Remove", "TypeArray", true, conds, func(e *Engine, o *Outcome, rc nodeRecv, args []Val, vs0 *SliceV, k *Lin, cons string) {
		i := args[1].(*Lin)
		vs := nj.values(o.st, rc.d, rc.id)
		switch m := o.st.ref(e); m.ctl {
		case "in", "moved":
			if t := assumeAll(o.st, i.Sub(k).AddC(-1)); t != nil {
				nj.valuesAs(e, t, o, vs, vs0.n.AddC(-1), vs0, k, LC(0), cons, "before the index")
			}
			if t := assumeAll(o.st, k.Sub(i)); t != nil {
				nj.valuesAs(e, t, o, vs, vs0.n.AddC(-1), vs0, k, LC(1), cons, "from the index")
			}
		case "out":
			nj.valuesAs(e, o.st, o, vs, vs0.n, vs0, k, LC(0), cons, "out of range")
		default:
			e.Check(false, o.st, o.site, "range", cons, "%s returns before the range is determined", cons)
		}
	}, func(n, k *Lin, args []Val) []*Lin {
		i := args[1].(*Lin)
		return []*Lin{k, i.Sub(k).AddC(-1), n.Sub(i).AddC(-1)}
	}, func(n, k *Lin, args []Val) []*Lin {
		i := args[1].(*Lin)
		return []*Lin{i, k.Sub(i), n.Sub(k).AddC(-2)}
	}, func(n, k *Lin, args []Val) []*Lin {
		return []*Lin{args[1].(*Lin), n.Sub(args[1].(*Lin)).AddC(-1), k.Sub(n).AddC(1)} // no entry k afterwards
	}, func(n, k *Lin, args []Val) []*Lin {
		return []*Lin{args[1].(*Lin).Neg().AddC(-1)}
	}, func(n, k *Lin, args []Val) []*Lin {
		return []*Lin{args[1].(*Lin).Sub(n)}
	})
	c.editRun(nj, "Remove", "TypeArray", false, nil, nil)
}

func (c *Ctx) editDel(nj *Njson) {
	c.editRun(nj, "Del", "TypeObject", true, func(rc nodeRecv, args []Val, k *Lin) Mon {
		return nj.searchMon(rc.d, rc.id, args[1].(StrV))
	}, func(e *Engine, o *Outcome, rc nodeRecv, args []Val, vs0 *SliceV, k *Lin, cons string) {
		vs := nj.values(o.st, rc.d, rc.id)
		m := o.st.ref(e)
		switch m.ctl {
		case "miss":
			nj.valuesAs(e, o.st, o, vs, vs0.n, vs0, k, LC(0), cons, "no such key")
		case "hit":
			at := o.st.F.norm(m.r[0])
			last := vs0.n.AddC(-1)
			if t := assumeAll(o.st, k, at.Sub(k).AddC(-1)); t != nil {
				nj.valuesAs(e, t, o, vs, last, vs0, k, LC(0), cons, "before the key")
			}
			// the entry takes the place of the removed one, or the rest moves up
			t := assumeAll(o.st, k.Sub(at), last.Sub(k).AddC(-1))
			if t == nil || !e.Check(t.F.EntailsEq(vs.n.Sub(last)), t, o.site, "values", cons+" count", "%s: the node has %s values instead of %s", cons, keyOf(t.F.norm(vs.n)), keyOf(t.F.norm(last))) {
				return
			}
			shift := true
			for g := 0; g < nj.V.Underlying().(*types.Struct).NumFields(); g++ {
				shift = shift && e.sameVal(t, nj.elem(t, vs, k, g), nj.elem(pre(t), vs0, k.AddC(1), g))
			}
			if shift {
				e.Check(true, t, o.site, "values", cons+" after the key", "")
				return
			}
			a, b := t.clone(), t
			if a.F.AssumeEq(k.Sub(at)) {
				nj.elemIs(e, a, o, vs, k, vs0, last, cons, "in place of the key")
			}
			if b.F.AssumeGe(k.Sub(at).AddC(-1)) {
				nj.elemIs(e, b, o, vs, k, vs0, k, cons, "after the key")
			}
		default:
			e.Check(false, o.st, o.site, "search", cons, "%s returns before the first entry with the key is determined (%s)", cons, m.Key())
		}
	})
	c.editRun(nj, "Del", "TypeObject", false, nil, nil)
}

func init() {
	register(&Prop{
		ID:      "C09",
		Rule:    "every outcome of Slice, Remove and Del on a live receiver is compared with the state before the call: an arbitrary entry k of the receiver's values is the entry the operation's definition says, the count too; type, text, flags, every other node, the node count and the revision are unchanged; out-of-range indexes, absent keys and receivers of another type change nothing; no panic",
		Explain: "all paths of Node.Slice, Node.Remove and Node.Del from symbolic documents (any size), any index or key, compared entry by entry through a symbolic index; loops by inferred invariants",
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			c.editSlice(nj)
			c.editRemove(nj)
			c.editDel(nj)
		},
	})
}

func dbgVals(o *Outcome, nj *Njson, rc nodeRecv) {
	if os.Getenv("NJ_OUT") == "" {
		return
	}
	fmt.Println("OUT", o.st.mon, keyOf(nj.values(o.st, rc.d, rc.id)), o.st.F.String())
	for _, t := range o.st.trace {
		fmt.Println("     ", t)
	}
}

// keepVals keeps the symbols of vs alive: facts about them are not collected.
func keepVals(vs ...Val) {
	for _, v := range vs {
		switch v := v.(type) {
		case *Lin:
			for _, t := range v.t {
				keepSyms[t.s] = true
			}
		case *SliceV:
			if !v.isNil {
				keepVals(v.n, v.off)
			}
		case StrV:
			keepVals(v.lo, v.hi)
		}
	}
}
