package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- receivers of a given kind ----

// lowByte is the part of an info value that holds the Type.
func lowByte(l *Lin) *Lin {
	for _, t := range l.t {
		if t.k == 1 && t.s.base == nil {
			return LS(t.s)
		}
	}
	return nil
}

func highPart(l *Lin) *Lin {
	if b := lowByte(l); b != nil {
		return l.Sub(b)
	}
	return l
}

// rootKind is the root of a document, of the given Type.
func (nj *Njson) rootKind(kind string) nodeRecv {
	st := newState()
	d := nj.doc("doc")
	id := LC(0)
	st.F.AssumeGe(nj.nodes(st, d).n.AddC(-1))
	return nj.ofKind(nodeRecv{"live", st, nj.nodeVal(id, nj.rev(st, d), d), d, id}, kind)
}

// liveKind is a live reference to a node of the given Type.
func (nj *Njson) liveKind(kind string) nodeRecv { return nj.ofKind(nj.validRecv(), kind) }

func (nj *Njson) ofKind(rc nodeRecv, kind string) nodeRecv {
	inf := nj.infoOf(rc.st, rc.d, rc.id)
	if b := lowByte(inf); b != nil {
		rc.st.F.AssumeEq(b.AddC(-nj.kinds[kind]))
	}
	rc.name = kind
	nj.values(rc.st, rc.d, rc.id)
	return rc
}

// liveNotKind is a live reference to a node of any other Type.
func (nj *Njson) liveNotKind(kind string) nodeRecv {
	rc := nj.validRecv()
	inf := nj.infoOf(rc.st, rc.d, rc.id)
	if b := lowByte(inf); b != nil {
		rc.st.F.AssumeNe(b.AddC(-nj.kinds[kind]))
	}
	rc.name = "not " + kind
	nj.values(rc.st, rc.d, rc.id)
	return rc
}

// field reads a field of node id in the current state.
func (nj *Njson) field(st *State, d *PtrV, id *Lin, f int) Val {
	p := nj.nodePath(nj.nodes(st, d), id, f)
	return st.load(p.o, p.p, fieldTyp(nj.node, f))
}
func (nj *Njson) values(st *State, d *PtrV, id *Lin) *SliceV {
	v, _ := nj.field(st, d, id, nj.iValues).(*SliceV)
	return v
}
func (nj *Njson) raw(st *State, d *PtrV, id *Lin) StrV {
	v, _ := nj.field(st, d, id, nj.iRaw).(StrV)
	return v
}

// elem reads field f of element k of a values slice.
func (nj *Njson) elem(st *State, vs *SliceV, k *Lin, f int) Val {
	return st.load(vs.o, Path{{f: -1, idx: st.F.norm(vs.off.Add(k))}, {f: f}}, fieldTyp(nj.V, f))
}
func (nj *Njson) elemID(st *State, vs *SliceV, k *Lin) *Lin {
	l, _ := nj.elem(st, vs, k, nj.vID).(*Lin)
	return l
}
func (nj *Njson) elemKey(st *State, vs *SliceV, k *Lin) StrV {
	s, _ := nj.elem(st, vs, k, nj.vKey).(StrV)
	return s
}

// sameVal reports that two values are equal in st.
func (e *Engine) sameVal(st *State, a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *Lin:
		y, ok := b.(*Lin)
		return ok && (st.F.EntailsEq(x.Sub(y)) || st.sameOrg(linOrg(x), linOrg(y)))
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			return false
		}
		lx, okx := x.lit()
		ly, oky := y.lit()
		if okx && oky {
			return lx == ly
		}
		if okx && lx == "" {
			return st.F.EntailsEq(y.length())
		}
		if oky && ly == "" {
			return st.F.EntailsEq(x.length())
		}
		if x.B == y.B && st.F.EntailsEq(x.lo.Sub(y.lo)) && st.F.EntailsEq(x.hi.Sub(y.hi)) {
			return true
		}
		if baseOrg[x.B] != nil && st.sameOrg(baseOrg[x.B], baseOrg[y.B]) && st.F.EntailsEq(x.lo) && st.F.EntailsEq(y.lo) && st.F.EntailsEq(x.hi.Sub(x.B.n)) && st.F.EntailsEq(y.hi.Sub(y.B.n)) {
			return true
		}
		c := e.compare(st, tokEQL, x, y, types.Typ[types.String], types.Typ[types.String])
		v, known := st.knownCond(c)
		return known && v
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return false
		}
		if x.isNil || y.isNil {
			return x.isNil == y.isNil || x.isNil && st.F.EntailsEq(y.n) || y.isNil && st.F.EntailsEq(x.n)
		}
		if st.F.EntailsEq(x.n) && st.F.EntailsEq(y.n) {
			return true
		}
		return x.o == y.o && st.F.EntailsEq(x.off.Sub(y.off)) && st.F.EntailsEq(x.n.Sub(y.n))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.sameVal(st, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.o == y.o && st.cmpPath(x.p, y.p) == idxEq
	}
	return keyOf(a) == keyOf(b)
}

// frame checks that nodes other than the excepted ids, and the values they
// hold, are as before the call. n0 is the number of nodes before the call.
func (nj *Njson) frame(e *Engine, o *Outcome, d *PtrV, cons string, except ...*Lin) {
	st := o.st.clone()
	st0 := pre(st)
	n0 := nj.nodes(st0, d)
	j := symVal("other.id", types.Typ[types.Uint]).(*Lin)
	if x, ok := st.ext["frame.j"].(*Lin); ok {
		j = x
	}
	st.F.AssumeGe(j)
	if !st.F.AssumeGe(n0.n.Sub(j).AddC(-1)) {
		return
	}
	for _, x := range except {
		if !st.F.AssumeNe(j.Sub(x)) {
			return
		}
	}
	if !st.F.Feasible() {
		return
	}
	cur := nj.nodes(st, d)
	e.Check(st.F.Entails(cur.n.Sub(n0.n)), st, o.site, "frame", cons+" nodes kept", "%s: the document loses nodes", cons)
	for f := 0; f < nj.node.Underlying().(*types.Struct).NumFields(); f++ {
		a := nj.field(st0, d, j, f)
		b := nj.field(st, d, j, f)
		ok := e.sameVal(st, a, b)
		if sa, isS := a.(*SliceV); isS && ok {
			if sb, isS := b.(*SliceV); isS && !sb.isNil && sb.o != nil {
				k := symVal("other.k", types.Typ[types.Int]).(*Lin)
				s2 := st.clone()
				s2.F.AssumeGe(k)
				if s2.F.AssumeGe(sa.n.Sub(k).AddC(-1)) && s2.F.Feasible() {
					for g := 0; g < nj.V.Underlying().(*types.Struct).NumFields(); g++ {
						ok = ok && e.sameVal(s2, nj.elem(pre(s2), sa, k, g), nj.elem(s2, sb, k, g))
					}
				}
			}
		}
		fn := nj.node.Underlying().(*types.Struct).Field(f).Name()
		e.Check(ok, st, o.site, "frame", cons+" other nodes' "+fn, "%s changes the %s of a node it must not touch (%s, was %s)", cons, fn, keyOf(b), keyOf(a))
	}
}

// frameIndex fixes the index frame checks, before the call, for contracts
// that only keep the cells a state mentions.
func (nj *Njson) frameIndex(st *State, d *PtrV) {
	j := symVal("other.id", types.Typ[types.Uint]).(*Lin)
	st.F.AssumeGe(j)
	st.F.AssumeGe(nj.nodes(st, d).n.Sub(j).AddC(-1))
	for f := 0; f < nj.node.Underlying().(*types.Struct).NumFields(); f++ {
		nj.field(st, d, j, f)
	}
	st.ext["frame.j"] = j
}

// noPanic turns every possible panic into a failure.
func noPanic(e *Engine, cons string) {
	e.H.NilDer = func(e *Engine, st *State, ins ssa.Instruction, v Val) {
		if st.F.Feasible() {
			e.Fail(st, ins, "panic", cons, "%s may dereference nil (%s)", cons, keyOf(v))
		}
	}
	e.H.Bounds = func(e *Engine, st *State, ins ssa.Instruction, what string, ok bool) {
		e.Check(ok, st, ins, "panic", cons+" "+shortFn(ins.Parent())+" "+what, "%s: %s may be out of range", cons, what)
	}
	e.H.Panic = func(e *Engine, st *State, ins ssa.Instruction, msg string) {
		e.Fail(st, ins, "panic", cons, "%s: %s", cons, msg)
	}
}

// ---- contracts for the text layer ----

// textFn reports the name of a strjson/numjson function.
func textFn(ci *callInfo) string {
	if ci.fn == nil || ci.fn.Pkg == nil {
		return ""
	}
	p := ci.fn.Pkg.Pkg.Path()
	if p == repoMod+"/strjson" || p == repoMod+"/numjson" {
		return ci.fn.Name()
	}
	return ""
}

// textContract replaces the text conversion functions by function symbols;
// the functions themselves have their own properties.
func textContract(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	arg := func(i int) string { return keyOf(st.F.normVal(ci.args[i])) }
	one := func(v Val) ([]Outcome, bool) {
		st.assumeValid(v)
		return []Outcome{{st: st, ret: []Val{v}}}, true
	}
	str := types.Typ[types.String]
	switch textFn(ci) {
	case "Escaped":
		return one(symVal(fmt.Sprintf("Escaped(%s,%s,%s)", arg(0), arg(1), arg(2)), str))
	case "Unescaped":
		return one(symVal(fmt.Sprintf("Unescaped(%s)", arg(0)), str))
	case "FormatFloat":
		return one(symVal(fmt.Sprintf("FormatFloat(%s,%s)", arg(0), arg(1)), str))
	case "ParseFloat":
		return one(&TermV{key: fmt.Sprintf("ParseFloat(%s)", arg(0)), op: "ParseFloat", args: ci.args, typ: types.Typ[types.Float64]})
	case "AppendEscaped", "AppendUnescaped", "AppendFloat":
		if dst, ok := ci.args[0].(*SliceV); ok {
			t := &TermV{key: fmt.Sprintf("%s(%s)", textFn(ci), strings.TrimPrefix(keyOf(st.F.normVal(&TupleV{ci.args[1:]})), "")), op: textFn(ci), args: ci.args[1:]}
			return e.appendChunk(st, ci, dst, Chunk{val: t}), true
		}
	}
	return nil, false
}

// hooksChain tries handlers in order.
func chain(hs ...func(e *Engine, st *State, c *callInfo) ([]Outcome, bool)) func(e *Engine, st *State, c *callInfo) ([]Outcome, bool) {
	return func(e *Engine, st *State, c *callInfo) ([]Outcome, bool) {
		for _, h := range hs {
			if h == nil {
				continue
			}
			if o, ok := h(e, st, c); ok {
				return o, true
			}
		}
		return nil, false
	}
}

// linOrg is the origin of a value that is a single symbol.
func linOrg(l *Lin) *org {
	if len(l.t) == 1 && l.t[0].k == 1 && l.c.Sign() == 0 {
		return symOrg[l.t[0].s]
	}
	return nil
}

// sameOrg: two names of the initial contents of one cell.
func (st *State) sameOrg(a, b *org) bool {
	return a != nil && b != nil && a.o == b.o && a.part == b.part && len(a.p) == len(b.p) && st.cmpPath(a.p, b.p) == idxEq
}
