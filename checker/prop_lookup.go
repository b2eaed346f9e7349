package main

import (
	"fmt"
	"go/types"
	"os"
)

// kindOf decides whether node id is of the given Type.
func (nj *Njson) kindOf(st *State, d *PtrV, id *Lin, kind string) int {
	inf := st.F.norm(nj.infoOf(st, d, id))
	k := nj.kinds[kind]
	if c, ok := inf.constInt(); ok {
		if c&0xff == k {
			return 1
		}
		return -1
	}
	if b := lowByte(inf); b != nil {
		return byteIn(st, b, setOf(byte(k)))
	}
	if nj.kindIs(st, inf, k) {
		return 1
	}
	return 0
}

// searchMon is the reference for a first-match search of key among the values
// of node id: "at" c (values before c have other keys), "hit" c, "miss".
func (nj *Njson) searchMon(d *PtrV, id *Lin, key StrV) *RefMon {
	return &RefMon{ctl: "at", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon {
		if m.ctl != "at" {
			return nil
		}
		s0 := pre(st)
		vs := nj.values(s0, d, id)
		c := m.r[0]
		switch sign(st, vs.n.Sub(c).AddC(-1)) {
		case -1:
			return m.to("miss", c)
		case 0:
			return nil
		}
		k := nj.elemKey(s0, &SliceV{o: vs.o, off: vs.off, n: vs.n, cap: vs.cap}, st.F.norm(c))
		switch e.strEq(st, k, key) {
		case 1:
			return m.to("hit", c)
		case -1:
			return m.to("at", c.AddC(1))
		}
		return nil
	}}
}

// liveRef checks that v is a reference on d at the current revision.
func (nj *Njson) liveRef(st *State, v Val, d *PtrV) (*Lin, bool) {
	s, ok := v.(*StructV)
	if !ok {
		return nil, false
	}
	p, ok := s.f[nj.nDoc].(*PtrV)
	if !ok || p.o != d.o || len(p.p) != len(d.p) || !st.F.EntailsEq(asLin(s.f[nj.nRev], nil).Sub(nj.rev(st, d))) {
		return nil, false
	}
	return asLin(s.f[nj.nID], types.Typ[types.Uint]), true
}

func init() {
	register(&Prop{
		ID:      "C11",
		Rule:    "Get, Index and Lookup are interpreted abstractly together with a reference machine (first-match search by key; canonical decimal index; path fold) that is advanced only by established facts. On every return the returned id must be the one the reference selected, or a nonexistent id exactly when the reference found nothing; the reference's document and revision are kept; no panic.",
		Explain: "Product of the code with a reference search machine, for symbolic documents, keys, indexes and paths of any length.",
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			c.lookupGet(nj)
			c.lookupIndex(nj)
			c.lookupPath(nj)
		},
	})
}

func (c *Ctx) lookupGet(nj *Njson) {
	fn := c.P.fn("", "Node.Get")
	if !c.Anchor(fn != nil, "njson.Node.Get") {
		return
	}
	for _, obj := range []bool{true, false} {
		r := c.runner(nj)
		e := r.e
		cons := "Node.Get on an object"
		rc := nj.liveKind("TypeObject")
		if !obj {
			cons = "Node.Get on another type"
			rc = nj.liveNotKind("TypeObject")
		}
		noPanic(e, cons)
		args := nj.symArgs(rc.st, fn, rc.n)
		key := args[1].(StrV)
		rc.st.mon = nj.searchMon(rc.d, rc.id, key)
		outs := r.run(rc.st, fn, args...)
		n := 0
		for i := range outs {
			o := &outs[i]
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			n++
			id, ok := nj.liveRef(o.st, o.ret[0], rc.d)
			if !e.Check(ok, o.st, o.site, "result", cons, "%s returns a reference that lost its document", cons) {
				continue
			}
			nj.checkFound(e, o, rc, id, obj, cons)
		}
		e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
		r.done()
	}
}

func (nj *Njson) checkFound(e *Engine, o *Outcome, rc nodeRecv, id *Lin, want bool, cons string) {
	st := o.st
	nn := nj.nodes(pre(st), rc.d)
	m := st.ref(e)
	if want && m.ctl == "hit" {
		vs := nj.values(pre(st), rc.d, rc.id)
		e.Check(st.F.EntailsEq(id.Sub(nj.elemID(pre(st), vs, st.F.norm(m.r[0])))), st, o.site, "found", cons, "%s returns id %s although the value at %s is the first match", cons, keyOf(st.F.norm(id)), keyOf(m.r[0]))
		return
	}
	e.Check(st.F.Entails(id.Sub(nn.n)), st, o.site, "missing", cons, "%s returns id %s which is not the first value with the key (reference: %s)", cons, keyOf(st.F.norm(id)), m.Key())
	if want {
		e.Check(m.ctl == "miss", st, o.site, "missing", cons+" complete", "%s gives up before all values were compared (reference: %s)", cons, m.Key())
	}
}

func (c *Ctx) lookupIndex(nj *Njson) {
	fn := c.P.fn("", "Node.Index")
	if !c.Anchor(fn != nil, "njson.Node.Index") {
		return
	}
	for _, arr := range []bool{true, false} {
		r := c.runner(nj)
		e := r.e
		cons := "Node.Index on an array"
		rc := nj.liveKind("TypeArray")
		if !arr {
			cons = "Node.Index on another type"
			rc = nj.liveNotKind("TypeArray")
		}
		noPanic(e, cons)
		args := nj.symArgs(rc.st, fn, rc.n)
		ix := args[1].(*Lin)
		vs := nj.values(pre(rc.st), rc.d, rc.id)
		rc.st.mon = &RefMon{ctl: "?", step: func(e *Engine, st *State, m *RefMon) *RefMon {
			if m.ctl == "?" {
				lo, hi := sign(st, ix), sign(st, vs.n.Sub(ix).AddC(-1))
				if lo == -1 || hi == -1 {
					return m.to("out")
				}
				if lo == 1 && hi == 1 {
					return m.to("in")
				}
			}
			return nil
		}}
		outs := r.run(rc.st, fn, args...)
		n := 0
		for i := range outs {
			o := &outs[i]
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			n++
			st := o.st
			id, ok := nj.liveRef(st, o.ret[0], rc.d)
			if !e.Check(ok, st, o.site, "result", cons, "%s returns a reference that lost its document", cons) {
				continue
			}
			m := st.ref(e)
			if arr && m.ctl == "in" {
				e.Check(st.F.EntailsEq(id.Sub(nj.elemID(pre(st), vs, st.F.norm(ix)))), st, o.site, "found", cons, "%s returns id %s instead of the value at the index", cons, keyOf(id))
				continue
			}
			e.Check(st.F.Entails(id.Sub(nj.nodes(pre(st), rc.d).n)), st, o.site, "missing", cons, "%s returns an existing node where there is no such value", cons)
			if arr {
				e.Check(m.ctl == "out", st, o.site, "missing", cons+" complete", "%s finds nothing without having excluded that the index is in range", cons)
			}
		}
		e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
		r.done()
	}
}

// pathMon is the reference for Lookup: "node" s cur: path[:s] led to cur;
// "obj" s cur c: comparing keys; "arr" s cur q a: reading decimal digits;
// "fail": nothing there; "done" cur.
func (nj *Njson) pathMon(d *PtrV, id *Lin, path *SliceV) *RefMon {
	digits := setStr("0123456789")
	return &RefMon{ctl: "node", r: []*Lin{LC(0), id, LC(0), LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon {
		s, cur, p, q := m.r[0], st.F.norm(m.r[1]), m.r[2], m.r[3]
		s0 := pre(st)
		comp := func() StrV {
			return s0.load(path.o, Path{{f: -1, idx: st.F.norm(path.off.Add(s))}}, strT).(StrV)
		}
		switch m.ctl {
		case "node":
			switch sign(st, path.n.Sub(s).AddC(-1)) {
			case -1:
				return m.to("done", s, cur, LC(0), LC(0))
			case 0:
				return nil
			}
			switch sign(st, nj.nodes(s0, d).n.Sub(cur).AddC(-1)) {
			case -1:
				return m.to("fail", LC(0), LC(0), LC(0), LC(0))
			case 0:
				return nil
			}
			ob, ar := nj.kindOf2(st, d, cur, "TypeObject"), nj.kindOf2(st, d, cur, "TypeArray")
			switch {
			case ob == 1:
				return m.to("obj", s, cur, LC(0), LC(0))
			case ar == 1:
				return m.to("arr", s, cur, LC(0), LC(0))
			case ob == -1 && ar == -1:
				return m.to("fail", LC(0), LC(0), LC(0), LC(0))
			}
		case "obj":
			vs := nj.values(s0, d, cur)
			switch sign(st, vs.n.Sub(p).AddC(-1)) {
			case -1:
				return m.to("fail", LC(0), LC(0), LC(0), LC(0))
			case 0:
				return nil
			}
			k := nj.elemKey(s0, vs, st.F.norm(p))
			switch e.strEq(st, k, comp()) {
			case 1:
				return m.to("node", s.AddC(1), nj.elemID(s0, vs, st.F.norm(p)), LC(0), LC(0))
			case -1:
				return m.to("obj", s, cur, p.AddC(1), LC(0))
			}
		case "arr":
			// p digits read, q their value
			vs := nj.values(s0, d, cur)
			cs := comp()
			if st.F.Entails(q.Sub(vs.n)) {
				return m.to("fail", LC(0), LC(0), LC(0), LC(0))
			}
			switch sign(st, cs.length().Sub(p).AddC(-1)) {
			case 0:
				return nil
			case -1:
				if c, ok := st.F.norm(p).constInt(); ok && c == 0 {
					return m.to("fail", LC(0), LC(0), LC(0), LC(0))
				}
				if !st.F.Entails(p.AddC(-1)) || !st.F.Entails(vs.n.Sub(q).AddC(-1)) {
					return nil
				}
				return m.to("node", s.AddC(1), nj.elemID(s0, vs, st.F.norm(q)), LC(0), LC(0))
			}
			b := st.byteAt(cs, p)
			switch byteIn(st, b, digits) {
			case -1:
				return m.to("fail", LC(0), LC(0), LC(0), LC(0))
			case 1:
				return m.to("arr", s, cur, p.AddC(1), st.F.norm(q.Scale(10).Add(b).AddC(-'0')))
			}
		}
		return nil
	}}
}

// kindOf2 is kindOf in the memory before the call.
func (nj *Njson) kindOf2(st *State, d *PtrV, id *Lin, kind string) int {
	inf := nj.infoOf(pre(st), d, id)
	if b := lowByte(inf); b != nil {
		return byteIn(st, b, setOf(byte(nj.kinds[kind])))
	}
	return 0
}

func (c *Ctx) lookupPath(nj *Njson) {
	fn := c.P.fn("", "Node.Lookup")
	if !c.Anchor(fn != nil, "njson.Node.Lookup") {
		return
	}
	r := c.runner(nj)
	e := r.e
	cons := "Node.Lookup"
	rc := nj.validRecv()
	nj.infoOf(rc.st, rc.d, rc.id)
	noPanic(e, cons)
	args := nj.symArgs(rc.st, fn, rc.n)
	path := args[1].(*SliceV)
	rc.st.mon = nj.pathMon(rc.d, rc.id, path)
	outs := r.run(rc.st, fn, args...)
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		st := o.st
		id, ok := nj.liveRef(st, o.ret[0], rc.d)
		if !e.Check(ok, st, o.site, "result", cons, "%s returns a reference that lost its document", cons) {
			continue
		}
		m := st.ref(e)
		dbgOut(o, m, id)
		switch m.ctl {
		case "done":
			e.Check(st.F.EntailsEq(id.Sub(m.r[1])), st, o.site, "found", cons, "%s returns id %s instead of %s", cons, keyOf(st.F.norm(id)), keyOf(st.F.norm(m.r[1])))
		case "fail":
			e.Check(st.F.Entails(id.Sub(nj.nodes(pre(st), rc.d).n)), st, o.site, "missing", cons, "%s returns id %s although the path leads nowhere", cons, keyOf(st.F.norm(id)))
		default:
			e.Check(false, st, o.site, "path", cons, "%s returns %s before the path is decided (reference: %s)", cons, keyOf(st.F.norm(id)), m.Key())
		}
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	r.done()
}

func dbgOut(o *Outcome, m *RefMon, id *Lin) {
	if os.Getenv("NJ_OUT") != "" {
		fmt.Println("OUT", o.panic, m.Key(), keyOf(id), o.st.F.String())
		for _, t := range o.st.trace {
			fmt.Println("     ", t)
		}
	}
}
