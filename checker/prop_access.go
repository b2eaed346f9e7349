package main

import (
	"fmt"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

// popCount models the bit counting functions on bytes.
func popCount(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	if ci.fn == nil || ci.fn.Pkg == nil || ci.fn.Pkg.Pkg.Path() != "math/bits" || len(ci.args) != 1 {
		return nil, false
	}
	a := st.F.norm(asLin(ci.args[0], ci.fn.Signature.Params().At(0).Type()))
	var f func(c int64) (int64, bool)
	switch ci.fn.Name() {
	case "OnesCount", "OnesCount8", "OnesCount16", "OnesCount32", "OnesCount64":
		f = func(c int64) (int64, bool) { return int64(bits.OnesCount64(uint64(c))), true }
	case "TrailingZeros", "TrailingZeros64":
		f = func(c int64) (int64, bool) { return int64(bits.TrailingZeros64(uint64(c))), true }
	case "TrailingZeros8":
		f = func(c int64) (int64, bool) { return int64(bits.TrailingZeros8(uint8(c))), true }
	case "Len8", "Len", "Len16", "Len32", "Len64":
		f = func(c int64) (int64, bool) { return int64(bits.Len64(uint64(c))), true }
	default:
		return nil, false
	}
	if r := finMap(st, a, f); r != nil {
		return []Outcome{{st: st, ret: []Val{r}}}, true
	}
	return nil, false
}

// accessor is what a function without effects has to return.
type accessor struct {
	name string
	want func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string)
}

// returns runs fn and checks what it returns; nothing may be written.
func (c *Ctx) returns(nj *Njson, r *runner, rc nodeRecv, fn *ssa.Function, args []Val, cons string, want func(o *Outcome) (bool, string)) {
	e := r.e
	n := 0
	outs := r.run(rc.st, fn, args...)
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		ok, w := want(o)
		got := ""
		for _, v := range o.ret {
			got += " " + keyOf(o.st.F.normVal(v))
		}
		e.Check(ok, o.st, o.site, "result", cons, "%s returns%s instead of %s", cons, got, w)
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
}

// typeIs: v is the Type part of a node's info.
func (nj *Njson) typeIs(st *State, v Val, d *PtrV, id *Lin) bool {
	l, ok := v.(*Lin)
	b := lowByte(nj.infoOf(pre(st), d, id))
	return ok && b != nil && st.F.EntailsEq(l.Sub(b))
}

func (c *Ctx) accessNode(nj *Njson) {
	str := types.Typ[types.String]
	_ = str
	live := func() nodeRecv { return nj.validRecv() }
	kind := func(k string) func() nodeRecv { return func() nodeRecv { return nj.liveKind(k) } }
	notKind := func(k string) func() nodeRecv { return func() nodeRecv { return nj.liveNotKind(k) } }
	raw := func(st *State, rc nodeRecv) StrV { return nj.raw(pre(st), rc.d, rc.id) }
	type run struct {
		m    string
		rc   func() nodeRecv
		want func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string)
	}
	runs := []run{
		{"Raw", live, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return e.sameVal(o.st, o.ret[0], raw(o.st, rc)), "the node's text"
		}},
		{"Type", live, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return nj.typeIs(o.st, o.ret[0], rc.d, rc.id), "the node's type"
		}},
		{"Data", live, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return e.sameVal(o.st, o.ret[0], raw(o.st, rc)) && nj.typeIs(o.st, o.ret[1], rc.d, rc.id), "the node's text and type"
		}},
		{"Unescaped", kind("TypeString"), func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			s, ok := o.ret[0].(StrV)
			k := fmt.Sprintf("Unescaped(%s)", keyOf(o.st.F.normVal(raw(o.st, rc))))
			return ok && s.B.name == k && o.st.F.EntailsEq(s.lo) && o.st.F.EntailsEq(s.hi.Sub(s.B.n)), "the unescaped text"
		}},
		{"Unescaped", notKind("TypeString"), func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return e.sameVal(o.st, o.ret[0], strLit("")), "the empty string"
		}},
		{"ID", live, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return e.sameVal(o.st, o.ret[0], rc.id), "the node's id"
		}},
		{"With", live, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return e.sameVal(o.st, o.ret[0], nj.nodeVal(args[1].(*Lin), asLin(rc.n.f[nj.nRev], nil), rc.d)), "the reference with the id given, same document and revision"
		}},
		{"Document", live, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return e.sameVal(o.st, o.ret[0], rc.d), "the node's document"
		}},
		{"TypeError", live, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return c.typeErr(e, o.st, o.ret[0], func(st *State, v Val) bool { return nj.typeIs(st, v, rc.d, rc.id) }, args[1]), "an error with the node's type and the type wanted"
		}},
	}
	for _, x := range nj.invalidRecvs() {
		x := x
		bad := func() nodeRecv {
			for _, y := range nj.invalidRecvs() {
				if y.name == x.name {
					return y
				}
			}
			return x
		}
		runs = append(runs, run{"With", bad, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			s, ok := o.ret[0].(*StructV)
			return ok && e.sameVal(o.st, s.f[nj.nID], args[1]) && e.sameVal(o.st, s.f[nj.nRev], rc.n.f[nj.nRev]) && (nj.provablyInvalid(e, o.st, s) || e.sameVal(o.st, s.f[nj.nDoc], rc.n.f[nj.nDoc])), "the reference with the id given, same document and revision"
		}})
		runs = append(runs, run{"TypeError", bad, func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return c.typeErr(e, o.st, o.ret[0], func(st *State, v Val) bool {
				l, ok := v.(*Lin)
				return ok && st.F.EntailsEq(l.AddC(-nj.kinds["TypeInvalid"]))
			}, args[1]), "an error with TypeInvalid and the type wanted"
		}})
	}
	for _, x := range runs {
		fn := c.P.fn("", "Node."+x.m)
		if !c.Anchor(fn != nil, "njson.Node."+x.m) {
			continue
		}
		r := c.runner(nj)
		rc := x.rc()
		cons := "Node." + x.m + " (" + rc.name + ")"
		c.access(nj, r, rc, fn, nj.symArgs(rc.st, fn, rc.n), cons, x.want)
	}
}

func (c *Ctx) access(nj *Njson, r *runner, rc nodeRecv, fn *ssa.Function, args []Val, cons string, want func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string)) {
	e := r.e
	noPanic(e, cons)
	e.H.Call = chain(textContract, popCount)
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		if rc.d != nil && p.o == rc.d.o {
			e.Fail(st, ins, "write", cons, "%s writes to the document", cons)
		}
	}
	c.returns(nj, r, rc, fn, args, cons, func(o *Outcome) (bool, string) { return want(e, o, rc, args) })
	r.done()
}

// typeErr: v is an error that names the type found and the type wanted, in
// this order, as its Error method reads them.
func (c *Ctx) typeErr(e *Engine, st *State, v Val, got func(st *State, v Val) bool, want Val) bool {
	i, ok := v.(*IfaceV)
	if !ok || i.t == nil {
		return false
	}
	if isNil, known := st.isNilKnown(i); known && isNil {
		return false
	}
	t := i.t
	val := i.v
	if p, ok := val.(*PtrV); ok {
		t = t.Underlying().(*types.Pointer).Elem()
		val = st.load(p.o, p.p, t)
	}
	s, ok := val.(*StructV)
	u, isS := t.Underlying().(*types.Struct)
	if !ok || !isS {
		return false
	}
	var ts []Val
	var names []string
	for k := 0; k < u.NumFields(); k++ {
		if n, ok := u.Field(k).Type().(*types.Named); ok && n.Obj().Name() == "Type" {
			ts = append(ts, s.f[k])
			names = append(names, u.Field(k).Name())
		}
	}
	if len(ts) != 2 {
		return false
	}
	if names[0] == "Want" {
		ts[0], ts[1] = ts[1], ts[0]
	}
	return got(st, ts[0]) && e.sameVal(st, ts[1], want)
}

func (c *Ctx) accessDoc(nj *Njson) {
	type run struct {
		m    string
		want func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string)
	}
	for _, x := range []run{
		{"Root", func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return e.sameVal(o.st, o.ret[0], nj.nodeVal(LC(0), nj.rev(pre(o.st), rc.d), rc.d)), "a reference to node 0 at the current revision"
		}},
		{"Node", func(e *Engine, o *Outcome, rc nodeRecv, args []Val) (bool, string) {
			return e.sameVal(o.st, o.ret[0], nj.nodeVal(args[1].(*Lin), nj.rev(pre(o.st), rc.d), rc.d)), "a reference to the node with the id given at the current revision"
		}},
	} {
		fn := c.P.fn("", "Document."+x.m)
		if !c.Anchor(fn != nil, "njson.Document."+x.m) {
			continue
		}
		r := c.runner(nj)
		st := newState()
		d := nj.doc("doc")
		rc := nodeRecv{"document", st, nil, d, nil}
		nj.nodes(st, d)
		c.access(nj, r, rc, fn, nj.symArgs(st, fn, d), "Document."+x.m, x.want)
	}
	for _, m := range []string{"Key", "ID"} {
		fn := c.P.fn("", "V."+m)
		if !c.Anchor(fn != nil, "njson.V."+m) {
			continue
		}
		r := c.runner(nj)
		st := newState()
		o := newObj("v", nj.V)
		o.name = "v"
		v := &PtrV{o: o}
		f := nj.vKey
		if m == "ID" {
			f = nj.vID
		}
		cons := "V." + m
		noPanic(r.e, cons)
		c.returns(nj, r, nodeRecv{st: st}, fn, []Val{v}, cons, func(oc *Outcome) (bool, string) {
			return r.e.sameVal(oc.st, oc.ret[0], pre(oc.st).load(o, fpath(f), fieldTyp(nj.V, f))), "the entry's " + m
		})
		r.done()
	}
}

// accessTypes checks the methods of type masks for every mask.
func (c *Ctx) accessTypes(nj *Njson) {
	tt := c.P.typ("", "Type")
	fn := c.P.fn("", "Type.Types")
	if c.Anchor(tt != nil && fn != nil, "njson.Type.Types") {
		r := c.runner(nj)
		r.e.constLim = 1000
		shapeConst = 16
		st := newState()
		b := newByteSym("mask")
		// masks that differ in a bit already looked at stay apart
		st.mon = &RefMon{step: func(e *Engine, st *State, m *RefMon) *RefMon {
			known := ""
			for i := 0; i < 8; i++ {
				var one Set256
				for v := 0; v < 256; v++ {
					if v>>uint(i)&1 == 1 {
						one.Add(v)
					}
				}
				known += map[int]string{-1: "0", 0: "?", 1: "1"}[byteIn(st, LS(b), one)]
			}
			if known == m.ctl {
				return nil
			}
			return m.to(known)
		}}
		cons := "Type.Types"
		noPanic(r.e, cons)
		r.e.H.Call = popCount
		// a list of known length is copied: whether it grows in place is not at stake
		r.e.H.Append = func(e *Engine, st *State, ins ssa.Instruction, dst *SliceV, ch Chunk) ([]appRes, bool) {
			n, ok := st.F.norm(dst.n).constInt()
			if !ok || len(ch.bytes) != 1 || n > 8 {
				return nil, false
			}
			o := newObj("types", tt)
			o.region, o.fresh = true, true
			st.heap[o] = &ObjState{}
			for i := int64(0); i <= n; i++ {
				v := Val(ch.bytes[0])
				if i < n {
					v = st.load(dst.o, Path{{f: -1, idx: st.F.norm(dst.off.AddC(i))}}, tt)
				}
				st.store(o, Path{{f: -1, idx: LC(i)}}, tt, v)
			}
			return []appRes{{st, &SliceV{o: o, off: LC(0), n: LC(n + 1), cap: LC(n + 1)}}}, true
		}
		c.returns(nj, r, nodeRecv{st: st}, fn, []Val{LS(b)}, cons, func(o *Outcome) (bool, string) {
			const want = "its single types, in increasing order"
			sl, ok := o.ret[0].(*SliceV)
			if !ok {
				return false, want
			}
			set := o.st.F.setOf(b)
			for m := 0; m < 256; m++ {
				if !set.Has(m) {
					continue
				}
				s2 := o.st.clone()
				s2.F.AssumeEq(LS(b).AddC(int64(-m)))
				if !s2.F.Feasible() {
					continue
				}
				if !s2.F.EntailsEq(sl.n.AddC(int64(-bits.OnesCount(uint(m))))) {
					return false, fmt.Sprintf("%s (%d)", want, m)
				}
				k := int64(0)
				for i := 0; i < 8; i++ {
					if m>>uint(i)&1 == 0 {
						continue
					}
					v := s2.load(sl.o, Path{{f: -1, idx: s2.F.norm(sl.off.AddC(k))}}, tt)
					l, ok := v.(*Lin)
					if !ok || !s2.F.EntailsEq(l.AddC(int64(-(1 << uint(i))))) {
						return false, fmt.Sprintf("%s (%d: element %d is %s)", want, m, k, keyOf(v))
					}
					k++
				}
				c.count["masks"]++
			}
			return true, want
		})
		r.done()
	}
	fn = c.P.fn("", "Type.String")
	if c.Anchor(fn != nil, "njson.Type.String") {
		for _, k := range []string{"TypeInvalid", "TypeString", "TypeObject", "TypeArray", "TypeNumber", "TypeBoolean", "TypeNull", "TypeAnyValue"} {
			r := c.runner(nj)
			r.e.constLim = 24
			cons := "Type.String (" + k + ")"
			noPanic(r.e, cons)
			r.e.H.Call = popCount
			name := k[len("Type"):]
			if k == "TypeInvalid" {
				name = "InvalidToken"
			}
			c.returns(nj, r, nodeRecv{st: newState()}, fn, []Val{LC(nj.kinds[k])}, cons, func(o *Outcome) (bool, string) {
				return r.e.sameVal(o.st, o.ret[0], strLit(name)), fmt.Sprintf("%q", name)
			})
			r.done()
		}
	}
}

func init() {
	register(&Prop{
		ID:      "C14",
		Rule:    "Every accessor is interpreted abstractly from an arbitrary live node (any type, text and values), and With and TypeError also from every kind of dead reference; what it returns must be provably the stored value (text, type, id, document, the reference with another id at the same revision), Unescaped the unescaped text of string nodes and empty for all other types, TypeError the type found and the one wanted. Document.Root and Document.Node designate the given node of the document at its current revision. Type.Types is decided for each of the 256 masks, Type.String for each type. No accessor writes to the document or panics.",
		Explain: "Abstract interpretation of each accessor against a pre/post specification.",
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			c.accessNode(nj)
			c.accessDoc(nj)
			c.accessTypes(nj)
		},
	})
}
