package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- ToInterface: the tree of generic values ----

// anyRun interprets the conversion of one node in product with a machine that
// converts its entries in order: reg 0 is how many are done. A conversion of
// an entry must be followed by storing its value.
type anyRun struct {
	c    *Ctx
	e    *Engine
	nj   *Njson
	rc   nodeRecv
	kind string
	cons string
	objs map[string]bool // slices that values were stored to
	maps map[string]bool
}

func (x *anyRun) mon(st *State) *RefMon { return st.mon.(*RefMon) }

func (x *anyRun) values(st *State) *SliceV { return x.nj.values(pre(st), x.rc.d, x.rc.id) }

// nested is the conversion of node id in another call.
func (x *anyRun) nested(st *State, ci *callInfo, id *Lin) []Outcome {
	m := x.mon(st)
	bad := st.clone()
	bad.mon = m.to("failed", LC(0))
	res := ci.sig.Results()
	outs := []Outcome{{st: bad, ret: []Val{&IfaceV{key: "junk"}, cBool(false)}}}
	if _, ok := res.At(0).Type().Underlying().(*types.Interface); !ok {
		outs[0].ret[0] = symVal("junk:"+res.At(0).Type().String(), res.At(0).Type())
	}
	if m.ctl != "entry" || !st.F.Entails(x.values(st).n.Sub(m.r[0]).AddC(-1)) || !st.F.EntailsEq(id.Sub(x.nj.elemID(pre(st), x.values(st), m.r[0]))) {
		x.e.Fail(st, ci.ins, "entries", x.cons, "%s: node %s is converted where entry %s belongs (%s)", x.cons, st.F.norm(id).Key(), st.F.norm(m.r[0]).Key(), m.ctl)
	}
	st.mon = m.to("value", m.r[0])
	return append(outs, Outcome{st: st, ret: []Val{&IfaceV{key: "nested"}, cBool(true)}})
}

// stored: the value of entry k is put in its place.
func (x *anyRun) stored(st *State, ins ssa.Instruction, k *Lin, v Val) {
	m := x.mon(st)
	if m.ctl == "failed" {
		return
	}
	if keyOf(v) != "nested" || m.ctl != "value" || k == nil || !st.F.EntailsEq(k.Sub(m.r[0])) {
		x.e.Fail(st, ins, "entries", x.cons, "%s: %s is stored where the value of entry %s belongs (%s)", x.cons, keyOf(v), st.F.norm(m.r[0]).Key(), m.ctl)
		return
	}
	st.mon = m.to("entry", st.F.norm(m.r[0].AddC(1)))
}

func (x *anyRun) unescaped(s StrV) StrV { return strSym("unescaped(" + s.Key() + ")") }

func (x *anyRun) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	if ci.fn == nil || !x.c.P.isRepoFn(ci.fn) {
		if ci.name == "math.IsNaN" {
			return []Outcome{{st: st, ret: []Val{cAtom("isnan:" + keyOf(ci.args[0]))}}}, true
		}
		return nil, false
	}
	switch shortFn(ci.fn) {
	case "strjson.Unescaped":
		if s, ok := ci.args[0].(StrV); ok {
			return []Outcome{{st: st, ret: []Val{x.unescaped(s)}}}, true
		}
	case "numjson.ParseFloat":
		return []Outcome{{st: st, ret: []Val{mkTerm("float", types.Typ[types.Float64], ci.args[0])}}}, true
	}
	if e.depth(st, ci.fn) == 0 || ci.sig.Results().Len() != 2 {
		return nil, false
	}
	var id *Lin
	nilNode := false
	for i, a := range ci.args {
		switch t := ci.fn.Params[i].Type(); {
		case types.Identical(t, x.nj.Node):
			if s, ok := a.(*StructV); ok {
				if sameDoc(s.f[x.nj.nDoc], x.rc.d) && st.F.EntailsEq(asLin(s.f[x.nj.nRev], nil).Sub(x.nj.rev(st, x.rc.d))) {
					id, _ = s.f[x.nj.nID].(*Lin)
				}
			}
		case types.Identical(t, types.NewPointer(x.nj.node)):
			switch p := a.(type) {
			case *NilV:
				nilNode = true
			case *PtrV:
				ns := x.nj.nodes(st, x.rc.d)
				if p.o == ns.o && len(p.p) == 1 && p.p[0].f < 0 {
					id = st.F.norm(p.p[0].idx.Sub(ns.off))
				}
			}
		case types.Identical(t, types.Typ[types.Uint]):
			id, _ = a.(*Lin)
		}
	}
	if nilNode {
		st.mon = x.mon(st).to("failed", LC(0))
		return []Outcome{{st: st, ret: []Val{&IfaceV{isNil: true}, cBool(false)}}}, true
	}
	if id == nil {
		return nil, false
	}
	return x.nested(st, ci, id), true
}

// anyType is []interface{} or map[string]interface{}.
func anyElem(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (c *Ctx) toInterface(nj *Njson, fn *ssa.Function, kind, text string) {
	r := c.runner(nj)
	e := r.e
	cons := "Node.ToInterface"
	rc := nj.validRecv()
	switch {
	case kind != "":
		rc = nj.liveKind(kind)
	default:
		inf := lowByte(nj.infoOf(rc.st, rc.d, rc.id))
		for _, k := range []string{"TypeString", "TypeNumber", "TypeBoolean", "TypeNull", "TypeObject", "TypeArray"} {
			if inf != nil {
				rc.st.F.AssumeNe(inf.AddC(-nj.kinds[k]))
			}
		}
		kind = "no type"
	}
	if text != "" {
		p := nj.nodePath(nj.nodes(rc.st, rc.d), rc.id, nj.iRaw)
		rc.st.store(p.o, p.p, types.Typ[types.String], strLit(text))
	}
	x := &anyRun{c: c, e: e, nj: nj, rc: rc, kind: kind, cons: cons + " of " + kind, objs: map[string]bool{}, maps: map[string]bool{}}
	noPanic(e, cons)
	e.H.Call = x.call
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		if p.o.region && p.o.fresh && anyElem(t) && p.o.typ != nil && anyElem(p.o.typ) && len(p.p) == 1 && p.p[0].f < 0 {
			if kind == "TypeArray" && (strings.HasPrefix(p.o.name, "make") || strings.HasPrefix(p.o.name, "built")) {
				x.objs[p.o.name] = true
				x.stored(st, ins, p.p[0].idx, v)
			}
		}
	}
	e.H.Append = func(e *Engine, st *State, ins ssa.Instruction, dst *SliceV, ch Chunk) ([]appRes, bool) {
		sl, isSl := ins.(ssa.CallInstruction).Common().Args[0].Type().Underlying().(*types.Slice)
		if !isSl || !anyElem(sl.Elem()) {
			return nil, false
		}
		elem := sl.Elem()
		if ch.sl != nil && ch.k != nil && st.F.EntailsEq(ch.k.AddC(-1)) {
			v := st.load(ch.sl.o, Path{{f: -1, idx: st.F.norm(ch.sl.off)}}, elem)
			x.stored(st, ins, dst.n, v)
			o := newObj("built", elem)
			o.region, o.fresh = true, true
			x.objs[o.name] = true
			st.heap[o] = &ObjState{}
			n := st.F.norm(dst.n.AddC(1))
			cp := LS(newLenSym("built.cap"))
			st.F.AssumeGe(cp.Sub(n))
			return []appRes{{st, &SliceV{o: o, off: LC(0), n: n, cap: cp}}}, true
		}
		return nil, false
	}
	e.H.MapUpd = func(e *Engine, st *State, ins *ssa.MapUpdate, m, k, v Val) {
		x.maps[keyOf(m)] = true
		mon := x.mon(st)
		if kind != "TypeObject" || mon.ctl == "failed" {
			return
		}
		want := x.unescaped(nj.elemKey(pre(st), x.values(st), mon.r[0]))
		e.Check(mon.ctl == "value" && e.sameVal(st, k, want), st, ins, "keys", x.cons, "%s: the value of entry %s is stored as %s", x.cons, st.F.norm(mon.r[0]).Key(), keyOf(k))
		x.stored(st, ins, mon.r[0], v)
	}
	rc.st.mon = &RefMon{ctl: "entry", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon { return nil }}
	good := 0
	outs := r.run(rc.st, fn, rc.n)
	appended := false
	for n := range x.objs {
		appended = appended || strings.HasPrefix(n, "built")
	}
	for _, o := range outs {
		o := o
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		yes, no := e.boolStates(o.st, o.ret[1])
		check := func(ok bool, s *State, rule, f string, a ...interface{}) {
			e.Check(ok, s, o.site, rule, x.cons, "%s: "+f, append([]interface{}{x.cons}, a...)...)
		}
		raw := func(s *State) StrV { return nj.raw(pre(s), rc.d, rc.id) }
		for _, s := range no {
			if !s.F.Feasible() {
				continue
			}
			m := x.mon(s)
			ok := false
			switch kind {
			case "TypeNumber":
				ok = s.F.atoms["isnan:"+mkTerm("float", types.Typ[types.Float64], raw(s)).key]
			case "TypeArray", "TypeObject":
				ok = m.ctl == "failed"
			case "no type":
				ok = true
			}
			check(ok, s, "refused", "it is refused (%s)", m.ctl)
		}
		for _, s := range yes {
			if !s.F.Feasible() {
				continue
			}
			good++
			m := x.mon(s)
			iv, _ := o.ret[0].(*IfaceV)
			is := func(t types.Type) bool { return iv != nil && !iv.isNil && iv.t != nil && types.Identical(iv.t, t) }
			anyT := types.NewInterfaceType(nil, nil)
			switch kind {
			case "TypeString":
				check(is(types.Typ[types.String]) && e.sameVal(s, iv.v, x.unescaped(raw(s))), s, "value", "it gives %s", keyOf(o.ret[0]))
			case "TypeBoolean":
				ok := is(types.Typ[types.Bool])
				if ok {
					t, f := e.boolStates(s, iv.v)
					bad := t
					if text == "true" {
						bad = f
					}
					for _, b := range bad {
						ok = ok && !b.F.Feasible()
					}
				}
				check(ok, s, "value", "it gives %s for %s", keyOf(o.ret[0]), text)
			case "TypeNull":
				isNil, known := s.isNilKnown(o.ret[0])
				check(isNil && known, s, "value", "it gives %s", keyOf(o.ret[0]))
			case "TypeNumber":
				t := mkTerm("float", types.Typ[types.Float64], raw(s))
				nan, known := s.F.atoms["isnan:"+t.key]
				check(is(types.Typ[types.Float64]) && keyOf(iv.v) == t.key && known && !nan, s, "value", "it gives %s", keyOf(o.ret[0]))
			case "TypeArray":
				n := x.values(s).n
				var sl *SliceV
				if is(types.NewSlice(anyT)) {
					sl, _ = iv.v.(*SliceV)
				}
				check(m.ctl == "entry" && s.F.EntailsEq(m.r[0].Sub(n)), s, "entries", "only %s of %s entries are converted (%s)", s.F.norm(m.r[0]).Key(), n.Key(), m.ctl)
				check(sl != nil && !sl.isNil && s.F.EntailsEq(sl.n.Sub(n)), s, "value", "it gives %s", keyOf(o.ret[0]))
				if sl != nil && sl.o != nil && !s.F.EntailsEq(n) {
					ok := len(sl.o.leaves()) > 0
					for _, o := range sl.o.leaves() {
						// appended to, or the one object that was stored to
						ok = ok && (strings.HasPrefix(o.name, "built") || strings.HasPrefix(o.name, "make") && (len(x.objs) == 1 && x.objs[o.name] || appended))
					}
					check(ok && s.F.EntailsEq(sl.off), s, "value", "it gives %s, not what the values were stored to", keyOf(o.ret[0]))
				}
				if sl != nil {
					isNil, known := s.isNilKnown(sl)
					check(known && !isNil, s, "value", "it may be nil")
				}
			case "TypeObject":
				n := x.values(s).n
				ok := is(types.NewMap(types.Typ[types.String], anyT))
				check(m.ctl == "entry" && s.F.EntailsEq(m.r[0].Sub(n)), s, "entries", "only %s of %s entries are converted (%s)", s.F.norm(m.r[0]).Key(), n.Key(), m.ctl)
				if ok {
					isNil, known := s.isNilKnown(iv.v)
					ok = known && !isNil && strings.HasPrefix(keyOf(iv.v), "makemap") && (len(x.maps) <= 1 && x.maps[keyOf(iv.v)] || len(x.maps) == 0)
				}
				check(ok, s, "value", "it gives %s", keyOf(o.ret[0]))
			default:
				check(false, s, "refused", "it gives %s", keyOf(o.ret[0]))
			}
		}
	}
	e.Check(good > 0 || kind == "no type", nil, nil, "value", x.cons, "%s: no value", x.cons)
	c.count["kinds"]++
	r.done()
}

func init() {
	register(&Prop{
		ID:      "C23",
		Rule:    "Node.ToInterface is interpreted abstractly on a live node of each type in product with a machine that converts the node's entries one by one: each entry's node is converted by a nested conversion, in order, and its value stored at its index or under its unescaped key (the last of equal keys wins) in the one slice or map that is returned; scalars give the unescaped text, the boolean, nil, or ParseFloat of the text. It is refused exactly if a nested conversion is, the number is NaN or the node has no type.",
		Explain: "Product with a reference machine by abstract interpretation (inferred loop invariants), induction on the document for nested values.",
		Assume:  []string{"the text of a boolean node is true or false", "numjson.ParseFloat and strjson.Unescaped are function symbols (C18, C16)"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			fn := c.P.fn("", "Node.ToInterface")
			if !c.Anchor(fn != nil && len(fn.Params) == 1, "Node.ToInterface") {
				return
			}
			for _, k := range []string{"TypeString", "TypeNumber", "TypeNull", "TypeObject", "TypeArray", ""} {
				c.toInterface(nj, fn, k, "")
			}
			c.toInterface(nj, fn, "TypeBoolean", "true")
			c.toInterface(nj, fn, "TypeBoolean", "false")
			c.min("kinds", c.count["kinds"], 8)
		},
	})
}
