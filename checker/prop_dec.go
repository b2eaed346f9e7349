package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decRun is the analysis of one decoder: the decoder of type T, of a given
// kind and with given unmarshaler interfaces, applied to a node.
type decRun struct {
	c      *Ctx
	nj     *Njson
	e      *Engine
	x      *refl
	cons   string
	kind   string // the kind of T
	how    string // how T is decoded: its kind or an unmarshaler interface
	node   string // what the node is
	st     *State
	d      *PtrV
	id     *Lin
	n      *StructV
	vs     *SliceV
	raw    StrV
	t      *TermV // the value decoded to
	parsed map[string]*TermV
	keys   map[string]*StructV
	sc     *structShape
	fs     *SliceV
}

var decNodes = []string{"TypeString", "TypeNumber", "true", "false", "TypeNull", "TypeObject", "TypeArray", "no node"}

func (c *Ctx) newDec(nj *Njson, cons, node string) *decRun {
	r := c.runner(nj)
	e := r.e
	x := &decRun{c: c, nj: nj, e: e, cons: cons, node: node, parsed: map[string]*TermV{}}
	x.x = newRefl(c, e, cons)
	x.x.set = x.setHook
	x.x.forkNil = true
	x.x.made = x.madeHook
	x.x.subjects["T"], x.x.subjects["*T"] = true, true
	var rc nodeRecv
	switch node {
	case "true", "false":
		rc = nj.liveKind("TypeBoolean")
	case "no node":
		rc = nj.validRecv()
		rc.st = newState()
		rc.n = nj.nodeVal(LC(0), LC(0), &NilV{types.NewPointer(nj.Document)})
	default:
		rc = nj.liveKind(node)
	}
	x.st, x.d, x.id, x.n = rc.st, rc.d, rc.id, rc.n
	if node != "no node" {
		x.vs = nj.values(x.st, x.d, x.id)
		if node == "true" || node == "false" {
			p := nj.nodePath(nj.nodes(x.st, x.d), x.id, nj.iRaw)
			x.st.store(p.o, p.p, fieldTyp(nj.node, nj.iRaw), strLit(node))
		}
		x.raw = nj.raw(x.st, x.d, x.id)
		keepVals(x.vs.n, x.vs.off)
	}
	x.st.ext["the node"] = x.n // it is there when the decoder is used
	if x.id != nil {
		keepVals(x.id)
	}
	noPanic(e, cons)
	e.H.Call = x.call
	return x
}

func (x *decRun) mon(st *State) *RefMon {
	m, _ := st.mon.(*RefMon)
	return m
}

func (x *decRun) fail(st *State, ins ssa.Instruction, f string, a ...interface{}) {
	m := x.mon(st)
	if m.ctl != "bad" && st.F.Feasible() {
		x.e.Fail(st, ins, "decode", x.cons+" "+m.ctl, "%s: %s (%s)", x.cons, fmt.Sprintf(f, a...), m.ctl)
	}
	st.mon = m.to("bad", m.r...)
}

// entry: n is the node entry k of the node refers to.
func (x *decRun) entry(st *State, n Val, k *Lin) bool {
	if x.vs == nil {
		return false
	}
	id, ok := x.nj.liveRef(st, n, x.d)
	return ok && st.F.Entails(x.vs.n.Sub(k).AddC(-1)) && st.F.EntailsEq(id.Sub(x.nj.elemID(pre(st), x.vs, st.F.norm(k))))
}

func (x *decRun) curLen(st *State, v *TermV) *Lin { return x.x.curLen(st, v) }

// madeHook: new values are zero.
func (x *decRun) madeHook(st *State, v *TermV) {
	if v.op == "new" && x.sc == nil {
		k := strings.TrimPrefix(x.x.vt[v.key], "*")
		st.ext["cur:Elem("+v.key+")"] = x.x.val("zero:"+k, k, "zero")
	}
}

// setHook is a change of a value.
func (x *decRun) setHook(e *Engine, st *State, ins ssa.Instruction, m string, v *TermV, args []Val) {
	if m != "SetMapIndex" && x.x.addr[v.key] <= 0 && !x.walked(v) {
		x.fail(st, ins, "%s of %s that is not addressable panics", m, v.key)
		return
	}
	switch m {
	case "Set":
		w, ok := args[0].(*TermV)
		k, known := "", false
		if ok {
			k, known = x.x.typeOf(w)
		}
		t, _ := x.x.typeOf(v)
		if x.walked(v) {
			t = k
		}
		switch {
		case !known || k == "":
			x.fail(st, ins, "%s is set to %s, which may be no value", v.key, keyOf(args[0]))
			return
		case k != t && !(x.x.isKind(t, "Ptr") && k == "*"+x.x.elemOf(t)) && !(strings.HasPrefix(k, "dyn:") && x.x.isKind(t, "Interface") && st.F.EntailsEq(keepSym("nummethod:"+t, 0, 1<<20))):
			x.fail(st, ins, "%s of type %s is set to a value of type %s", v.key, t, k)
			return
		}
		if b, ok := st.F.atoms["isnil:"+w.key]; ok {
			st.F.atoms["isnil:"+v.key] = b
		} else {
			delete(st.F.atoms, "isnil:"+v.key)
		}
		if x.x.isKind(t, "Slice") {
			st.ext["len:"+v.key], st.ext["cap:"+v.key] = x.curLen(st, w), x.x.curCap(st, w)
		}
		x.setCur(st, v, w)
	case "SetLen":
		n, ok := args[0].(*Lin)
		cp := x.x.curCap(st, v)
		if !ok || !st.F.Entails(n) || !st.F.Entails(cp.Sub(n)) {
			x.fail(st, ins, "SetLen(%s) may be more than the capacity", keyOf(args[0]))
			return
		}
		st.ext["len:"+v.key] = n
	case "SetMapIndex":
		if b, ok := st.F.atoms["isnil:"+v.key]; !ok || b {
			x.fail(st, ins, "assignment to an entry of a map that may be nil")
			return
		}
	default:
		x.setCur(st, v, &TermV{key: m, op: m})
	}
	if v.op == "Elem" && len(v.args) == 1 {
		if p, ok := v.args[0].(*TermV); ok && p.op == "new" && m != "SetMapIndex" {
			return // a temporary
		}
	}
	if x.mon(st).ctl == "failed" {
		return
	}
	x.change(st, ins, m, v, args)
}

// setCur records what a value made here holds.
func (x *decRun) setCur(st *State, v *TermV, w *TermV) {
	if v.op == "Elem" {
		if p, ok := v.args[0].(*TermV); ok && p.op == "new" {
			st.ext["cur:"+v.key] = w
		}
	}
}

func (x *decRun) zero(st *State, v Val, k string) bool {
	t, ok := v.(*TermV)
	return ok && t.key == "zero:"+k
}

// change is a change of the target or a part of it.
func (x *decRun) change(st *State, ins ssa.Instruction, m string, v *TermV, args []Val) {
	mon := x.mon(st)
	if x.t == nil {
		x.fail(st, ins, "%s changes %s", m, v.key)
		return
	}
	whole := x.x.sameRV(st, v, x.t)
	elT := x.x.elemOf(x.x.vt[x.t.key])
	null := x.node == "TypeNull"
	if whole && m == "Set" && null && x.zero(st, args[0], "T") && (mon.ctl == "start" || x.sc != nil) {
		st.mon = mon.to("done")
		return
	}
	arg := func() Val {
		if len(args) > 0 {
			return args[0]
		}
		return nil
	}
	done := func(ok bool) {
		if !ok || mon.ctl != "start" || !whole {
			x.fail(st, ins, "%s is given %s(%s)", v.key, m, keyOf(&TupleV{args}))
			return
		}
		st.mon = mon.to("done")
	}
	is := func(n string) bool { return x.node == n }
	switch x.how {
	case "Bool":
		c, ok := arg().(*Cond)
		b, known := false, false
		if ok {
			b, known = st.knownCond(c)
		}
		done(m == "SetBool" && known && (b && is("true") || !b && (is("false") || null)))
	case "int", "uint":
		n, ok := arg().(*Lin)
		want := map[string]string{"int": "SetInt", "uint": "SetUint"}[x.how]
		done(m == want && ok && (null && st.F.EntailsEq(n) || is("TypeNumber") && x.isParsed(st, n, x.how) && x.fits(st, n)))
	case "float32", "float64":
		if l, ok := arg().(*TermV); m == "SetFloat" && ok {
			f := x.parsed[l.key]
			k := keyOf(st.F.normVal(l))
			no := func(n string) bool { b, ok := st.F.atoms[n+":"+k]; return ok && !b }
			switch {
			case null && (l.key == "const:0" || l.key == "const:0:float64"):
				done(true)
				return
			case is("TypeNumber") && f != nil && f.op == "float":
				done(no("posinf") && no("neginf") && x.fits(st, l))
				return
			}
		}
		done(false)
	case "String":
		s, ok := arg().(StrV)
		if !ok || m != "SetString" {
			done(false)
			return
		}
		if null {
			done(st.F.EntailsEq(s.length()))
			return
		}
		done(is("TypeString") && x.unescaped(st, s, x.raw))
	case "Interface":
		w, ok := arg().(*TermV)
		if !ok || m != "Set" {
			done(false)
			return
		}
		switch b, known := st.F.atoms["nil:any"]; {
		case w.key == "valueof:any":
			done(known && !b)
		case x.zero(st, w, "T"):
			done(known && b)
		default:
			done(false)
		}
	case "Ptr":
		w, ok := arg().(*TermV)
		if whole && m == "Set" && ok && w.op == "new" && mon.ctl == "start" && !null {
			if st.ext["wasnil"] == nil {
				x.fail(st, ins, "a pointer that is not nil is replaced")
			}
			return
		}
		done(false)
	case "Slice":
		switch {
		case whole && mon.ctl == "start" && is("TypeArray") && (m == "SetLen" || m == "Set" && x.made(arg(), "makeslice")):
			if !st.F.EntailsEq(x.curLen(st, v).Sub(x.vs.n)) {
				x.fail(st, ins, "the slice is made %s long for %s values", st.F.norm(x.curLen(st, v)).Key(), st.F.norm(x.vs.n).Key())
				return
			}
			st.mon = mon.to("sized", LC(0))
		case whole && null && m == "SetLen" && st.F.EntailsEq(x.curLen(st, v)):
			st.mon = mon.to("done")
		default:
			done(false)
		}
	case "Array":
		k := LC(0)
		if len(mon.r) > 0 {
			k = mon.r[0]
		}
		el := x.x.derived(st, "Index", elT, x.t, st.F.norm(k))
		over := null || is("TypeArray") && st.F.Entails(k.Sub(x.vs.n))
		if m == "Set" && mon.ctl == "start" && over && x.x.sameRV(st, v, el) && x.zero(st, arg(), elT) {
			st.mon = mon.to("start", st.F.norm(k.AddC(1)))
			return
		}
		done(false)
	case "Map":
		if whole && m == "Set" && x.made(arg(), "makemap") && is("TypeObject") {
			if st.ext["wasnil"] == nil || mon.ctl != "start" || !st.F.EntailsEq(mon.r[0]) {
				x.fail(st, ins, "a map that is not nil is replaced")
			}
			return
		}
		if whole && m == "SetMapIndex" && mon.ctl == "value" && len(args) == 2 {
			k := mon.r[0]
			w, _ := args[1].(*TermV)
			if w == nil || !x.holds(st, w, k) {
				x.fail(st, ins, "%s is stored for entry %s", keyOf(args[1]), st.F.norm(k).Key())
				return
			}
			if !x.isKey(st, args[0], k) {
				x.fail(st, ins, "entry %s is stored under %s", st.F.norm(k).Key(), keyOf(args[0]))
				return
			}
			st.mon = mon.to("start", st.F.norm(k.AddC(1)))
			return
		}
		done(false)
	case "Struct":
		done(false)
	default: // an unmarshaler: a nil pointer is allocated
		w, ok := arg().(*TermV)
		if x.kind == "Ptr" && whole && m == "Set" && ok && w.op == "new" && mon.ctl == "start" {
			if st.ext["wasnil"] == nil {
				x.fail(st, ins, "a pointer that is not nil is replaced")
			}
			return
		}
		done(false)
	}
}

func (x *decRun) made(v Val, op string) bool {
	t, ok := v.(*TermV)
	return ok && t.op == op
}

func (x *decRun) isParsed(st *State, n *Lin, how string) bool {
	n = st.F.norm(n)
	for _, t := range n.t {
		if p := x.parsed[t.s.name]; p != nil && p.op == how && st.F.EntailsEq(n.Sub(LS(t.s))) {
			return true
		}
	}
	return false
}

// fits: the number is known not to overflow the target's type.
func (x *decRun) fits(st *State, n Val) bool {
	b, ok := st.F.atoms["overflow:"+x.t.key+":"+keyOf(st.F.normVal(n))]
	return ok && !b
}

// unescaped: s is the unescaped form of raw.
func (x *decRun) unescaped(st *State, s StrV, raw StrV) bool {
	src := srcOf(s)
	if src == nil || !strings.HasSuffix(src.op, "/strjson.Unescaped") || len(src.args) != 1 {
		return false
	}
	return st.F.EntailsEq(s.lo) && st.F.EntailsEq(s.hi.Sub(s.B.n)) && x.e.sameVal(st, src.args[0], raw)
}

// holds: the temporary was zero and then entry k was decoded to it.
func (x *decRun) holds(st *State, w *TermV, k *Lin) bool {
	c, ok := st.ext["cur:"+w.key].(*TermV)
	if !ok || c.op != "decoded" {
		return false
	}
	l, ok := c.args[0].(*Lin)
	return ok && st.F.EntailsEq(l.Sub(k))
}

// isKey: the value is the key of entry k.
func (x *decRun) isKey(st *State, v Val, k *Lin) bool {
	t, ok := v.(*TermV)
	if !ok {
		return false
	}
	raw := x.nj.elemKey(pre(st), x.vs, st.F.norm(k))
	if t.op == "convert" && x.x.vt[t.key] == "T.key" {
		t, ok = t.args[0].(*TermV)
		if !ok {
			return false
		}
	}
	if t.op == "ofstring" {
		s, ok := t.args[0].(StrV)
		return ok && x.unescaped(st, s, raw)
	}
	if x.x.vt[t.key] != "T.key" && !(t.op == "new" && x.x.elemOf("T.key") == strings.TrimPrefix(x.x.vt[t.key], "*")) {
		return false
	}
	p := t
	if t.op == "Elem" {
		p, _ = t.args[0].(*TermV)
	}
	if p == nil || p.op != "new" {
		return false
	}
	c, ok := st.ext["cur:Elem("+p.key+")"].(*TermV)
	if !ok || c.op != "text" {
		return false
	}
	s, ok := c.args[0].(StrV)
	return ok && x.unescaped(st, s, raw)
}

// decoded is the decoding of node n to v with a decoder for elements: it
// succeeds or fails.
func (x *decRun) decoded(st *State, ins ssa.Instruction, dec *IfaceV, v Val, n Val) []Outcome {
	bad := st.clone()
	bad.ext["nested.err"] = LC(1)
	err := someErr(bad, "nested.err")
	bad.mon = x.mon(bad).to("failed", x.mon(bad).r...)
	t, ok := v.(*TermV)
	if x.mon(st).ctl != "failed" {
		if !ok {
			x.fail(st, ins, "something is decoded to %s", keyOf(v))
		} else {
			if k := strings.TrimPrefix(dec.key, "dec:"); k != dec.key {
				if vt, known := x.x.typeOf(t); known && vt != k {
					x.fail(st, ins, "the decoder of %s is given a value of type %s", k, vt)
				}
			}
			x.element(st, ins, dec, t, n)
		}
	}
	return []Outcome{{st: st, ret: []Val{&IfaceV{isNil: true}}}, {st: bad, ret: []Val{err}}}
}

// element: node n is decoded to v.
func (x *decRun) element(st *State, ins ssa.Instruction, dec *IfaceV, v *TermV, n Val) {
	mon := x.mon(st)
	elT := x.x.elemOf("T")
	k := LC(0)
	if len(mon.r) > 0 {
		k = mon.r[0]
	}
	if x.x.addr[v.key] <= 0 && !x.walked(v) {
		x.fail(st, ins, "a node is decoded to %s, which is not addressable", v.key)
		return
	}
	switch x.how {
	case "Ptr":
		if mon.ctl == "start" && x.x.sameRV(st, v, x.x.derived(st, "Elem", elT, x.t)) && x.e.sameVal(st, n, x.n) && x.node != "TypeNull" {
			if b, ok := st.F.atoms["isnil:"+x.t.key]; ok && !b {
				st.mon = mon.to("done")
				return
			}
		}
		x.fail(st, ins, "%s is decoded to %s", keyOf(n), v.key)
	case "Slice":
		if mon.ctl == "sized" && x.x.sameRV(st, v, x.x.derived(st, "Index", elT, x.t, st.F.norm(k))) && x.entry(st, n, k) && st.F.EntailsEq(x.curLen(st, x.t).Sub(x.vs.n)) {
			st.mon = mon.to("sized", st.F.norm(k.AddC(1)))
			return
		}
		x.fail(st, ins, "%s is decoded to %s where entry %s is next", keyOf(n), v.key, st.F.norm(k).Key())
	case "Array":
		if mon.ctl == "start" && x.node == "TypeArray" && x.x.sameRV(st, v, x.x.derived(st, "Index", elT, x.t, st.F.norm(k))) && x.entry(st, n, k) {
			st.mon = mon.to("start", st.F.norm(k.AddC(1)))
			return
		}
		x.fail(st, ins, "%s is decoded to %s where entry %s is next", keyOf(n), v.key, st.F.norm(k).Key())
	case "Map":
		if mon.ctl == "start" && x.node == "TypeObject" && x.entry(st, n, k) {
			if !x.zero(st, st.ext["cur:"+v.key], elT) {
				x.fail(st, ins, "entry %s is decoded to %s, which may not be zero", st.F.norm(k).Key(), v.key)
				return
			}
			x.setCur(st, v, &TermV{key: "decoded(" + v.key + ")", op: "decoded", args: []Val{st.F.norm(k)}})
			st.mon = mon.to("value", k)
			return
		}
		x.fail(st, ins, "%s is decoded where entry %s is next", keyOf(n), st.F.norm(k).Key())
	case "Struct":
		if x.sc != nil {
			x.fieldDecoded(st, ins, dec, v, n)
			return
		}
		x.fail(st, ins, "%s is decoded to %s", keyOf(n), v.key)
	default:
		x.fail(st, ins, "%s is decoded to %s", keyOf(n), v.key)
	}
}

// unmarshal is a call of an unmarshaler's method.
func (x *decRun) unmarshal(st *State, ins ssa.Instruction, method string, recv Val, arg Val) []Outcome {
	iv, _ := recv.(*IfaceV)
	var v *TermV
	if iv != nil {
		if v = x.x.ifc[iv.key]; v == nil {
			v = x.x.x[iv.key]
		}
	}
	bad := st.clone()
	bad.ext["nested.err"] = LC(1)
	err := someErr(bad, "nested.err")
	bad.mon = x.mon(bad).to("failed", x.mon(bad).r...)
	mon := x.mon(st)
	outs := []Outcome{{st: st, ret: []Val{&IfaceV{isNil: true}}}, {st: bad, ret: []Val{err}}}
	if mon.ctl == "failed" {
		return outs
	}
	if v == nil {
		x.fail(st, ins, "%s of %s is called", method, keyOf(recv))
		return outs
	}
	if x.how == "Map" && method == "UnmarshalText" && v.op == "new" {
		// the text of a map key
		s, ok := arg.(*SliceV)
		if ok && s.o.src != nil && st.F.EntailsEq(s.off) && st.F.EntailsEq(s.n.Sub(s.o.src.hi.Sub(s.o.src.lo))) {
			st.ext["cur:Elem("+v.key+")"] = &TermV{key: "text(" + v.key + ")", op: "text", args: []Val{*s.o.src}}
		} else {
			x.fail(st, ins, "a key is made from %s", keyOf(arg))
		}
		return outs
	}
	subj := x.t != nil && (x.x.sameRV(st, v, x.t) || v.op == "addr" && x.x.sameRV(st, v.args[0], x.t))
	if x.t != nil && x.t.op == "Elem" && x.x.sameRV(st, v, x.t.args[0]) {
		subj = true // the pointer given
	}
	if x.kind == "Ptr" && x.t != nil && x.x.sameRV(st, v, x.t) {
		if b, ok := st.F.atoms["isnil:"+x.t.key]; !ok || b {
			subj = false
		}
	}
	if method == x.how && subj && mon.ctl == "start" && x.e.sameVal(st, arg, x.n) {
		st.mon = mon.to("done")
		return outs
	}
	x.fail(st, ins, "%s of %s is called with %s", method, v.key, keyOf(arg))
	return outs
}

// call models what decoders rely on.
func (x *decRun) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	if x.sc != nil {
		if outs, ok := x.walk(e, st, ci); ok {
			return outs, true
		}
	}
	if ci.name == "reflect.ValueOf" {
		if iv, ok := ci.args[0].(*IfaceV); ok && iv.key == "any" {
			if b, known := st.F.atoms["nil:any"]; known && b {
				return []Outcome{{st: st, ret: []Val{x.x.val("invalid", "", "zero")}}}, true
			}
			v := x.x.val("valueof:any", "dyn:any", "")
			return []Outcome{{st: st, ret: []Val{v}}}, true
		}
	}
	if outs, ok := x.x.call(e, st, ci); ok {
		return outs, true
	}
	if k, ok := x.typeArg(ci); ok {
		x.c.count["nested decoders"]++
		x.c.nested(ci.fn, decSig)
		bad := st.clone()
		err := someErr(bad, "nested.err")
		bad.ext["nested.err"] = LC(1)
		iv := &IfaceV{key: "dec:" + k}
		st.F.atoms["nil:"+iv.key] = false
		return []Outcome{{st: st, ret: []Val{iv, &IfaceV{isNil: true}}}, {st: bad, ret: []Val{zeroVal(ci.sig.Results().At(0).Type()), err}}}, true
	}
	if ci.iface != nil && ci.fn == nil {
		recv, _ := ci.args[0].(*IfaceV)
		switch {
		case recv == nil:
		case sigKey(ci.sig) == decSig:
			return x.decoded(st, ci.ins, recv, ci.args[1], ci.args[2]), true
		case ci.method == "UnmarshalNodeJSON" || ci.method == "UnmarshalText" || ci.method == "UnmarshalJSON":
			return x.unmarshal(st, ci.ins, ci.method, recv, ci.args[1]), true
		}
	}
	if ci.fn != nil && x.c.P.isRepoFn(ci.fn) && len(ci.args) > 0 {
		n, _ := ci.args[0].(*StructV)
		switch nm := shortFn(ci.fn); nm {
		case "(njson.Node).WrapUnmarshalJSON", "(njson.Node).WrapUnmarshalText":
			m := strings.TrimPrefix(nm, "(njson.Node).Wrap")
			if x.e.sameVal(st, n, x.n) && (x.node == "no node" || m == "UnmarshalText" && x.node != "TypeString") {
				st.ext["nested.err"] = LC(1)
				return []Outcome{{st: st, ret: []Val{someErr(st, "wrap")}}}, true
			}
			return x.unmarshal(st, ci.ins, m, ci.args[1], n), true
		case "(njson.Node).ToInterface":
			if !x.e.sameVal(st, n, x.n) {
				x.fail(st, ci.ins, "%s is converted", keyOf(n))
			}
			no := st.clone()
			no.ext["nested.err"] = LC(1)
			outs := []Outcome{{st: no, ret: []Val{&IfaceV{isNil: true}, cBool(false)}}}
			if x.node != "no node" {
				st.F.atoms["nil:any"] = x.node == "TypeNull"
				outs = append(outs, Outcome{st: st, ret: []Val{&IfaceV{key: "any"}, cBool(true)}})
			}
			return outs, true
		case "strjson.Unescaped":
			return []Outcome{{st: st, ret: e.termResults(st, ci)}}, true
		case "numjson.ParseInt", "numjson.ParseUint", "numjson.ParseFloat":
			return x.parse(st, ci, strings.ToLower(strings.TrimPrefix(nm, "numjson.Parse")), false), true
		}
	}
	switch ci.name {
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
		return x.parse(st, ci, strings.ToLower(strings.TrimPrefix(ci.name, "strconv.Parse")), true), true
	case "math.IsNaN":
		return []Outcome{{st: st, ret: []Val{cAtom("isnan:" + keyOf(st.F.normVal(ci.args[0])))}}}, true
	case "math.IsInf":
		if s, ok := ci.args[1].(*Lin); ok {
			if c, ok := st.F.norm(s).constInt(); ok {
				var outs []Outcome
				for cl, s := range (&encRun{}).floatClasses(st, ci.args[0]) {
					if s != nil {
						outs = append(outs, Outcome{st: s, ret: []Val{cBool(cl == 0 && c >= 0 || cl == 1 && c <= 0)}})
					}
				}
				return outs, true
			}
		}
	}
	return nil, false
}

// parse is a number parser: it gives the number the text denotes, or fails.
func (x *decRun) parse(st *State, ci *callInfo, how string, std bool) []Outcome {
	s, ok := ci.args[0].(StrV)
	ok = ok && x.node == "TypeNumber" && x.e.sameVal(st, s, x.raw)
	if std {
		want := []int64{10, 64}
		if how == "float" {
			want = []int64{64}
		}
		for i, w := range want {
			l, isLin := ci.args[i+1].(*Lin)
			ok = ok && isLin && (st.F.EntailsEq(l.AddC(-w)) || w == 10 && st.F.EntailsEq(l))
		}
	}
	havocN++
	n := symVal(fmt.Sprintf("parsed%d", havocN), ci.sig.Results().At(0).Type())
	bad := st.clone()
	junk := symVal(fmt.Sprintf("unparsed%d", havocN), ci.sig.Results().At(0).Type())
	switch v := n.(type) {
	case *Lin:
		st.assumeValid(v)
		if ok {
			x.parsed[v.t[0].s.name] = &TermV{op: how}
		}
	case *TermV:
		st.F.atoms["isnan:"+v.key], st.F.atoms["nan:"+v.key] = false, false
		if ok {
			x.parsed[v.key] = &TermV{op: how}
		}
	}
	if j, ok := junk.(*TermV); ok && !std {
		bad.F.atoms["isnan:"+j.key], bad.F.atoms["nan:"+j.key] = true, true
	}
	if ci.sig.Results().Len() == 1 {
		return []Outcome{{st: st, ret: []Val{n}}, {st: bad, ret: []Val{junk}}}
	}
	if std {
		bad.ext["nested.err"] = LC(1)
		err := someErr(bad, "parse")
		return []Outcome{{st: st, ret: []Val{n, &IfaceV{isNil: true}}}, {st: bad, ret: []Val{junk, err}}}
	}
	return []Outcome{{st: st, ret: []Val{n, cBool(true)}}, {st: bad, ret: []Val{junk, cBool(false)}}}
}

// typeArg is the opaque type a function that makes decoders is called with.
func (x *decRun) typeArg(ci *callInfo) (string, bool) {
	if ci.fn == nil || !x.c.P.isRepoFn(ci.fn) {
		return "", false
	}
	res := ci.sig.Results()
	if res.Len() != 2 || res.At(1).Type().String() != "error" {
		return "", false
	}
	for _, a := range ci.args {
		if k, ok := x.x.typeKey(a); ok && !x.x.subjects[k] {
			return k, true
		}
	}
	return "", false
}

func (x *decRun) walked(v *TermV) bool { return v.op == "walk" }

// accepts says whether nodes of this kind can be decoded to T.
func (x *decRun) accepts() bool {
	in := func(l ...string) bool {
		for _, s := range l {
			if s == x.node {
				return true
			}
		}
		return false
	}
	switch x.how {
	case "Bool":
		return in("true", "false", "TypeNull")
	case "int", "uint", "float32", "float64":
		return in("TypeNumber", "TypeNull")
	case "String":
		return in("TypeString", "TypeNull")
	case "Slice", "Array":
		return in("TypeArray", "TypeNull")
	case "Map", "Struct":
		return in("TypeObject", "TypeNull")
	case "UnmarshalText":
		return in("TypeString")
	case "Interface", "UnmarshalJSON":
		return !in("no node")
	}
	return true
}

// start begins the decoding of the node to v.
func (x *decRun) start(st *State, v *TermV) {
	x.t = v
	st.mon = &RefMon{ctl: "start", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon { return nil }}
	if x.sc != nil {
		st.mon = x.fieldMon()
	}
}

// finish checks how a decoding ended.
func (x *decRun) finish(outs []Outcome, errOnly string) int {
	e := x.e
	good := 0
	for i := range outs {
		r := &outs[i]
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		st := r.st
		if x.sc != nil {
			st.mon.Sync(e, st)
		}
		m := x.mon(st)
		if m.ctl == "bad" {
			continue
		}
		failed := st.ext["nested.err"] != nil
		switch errNil(st, r.ret[0]) {
		case 1:
			good++
			e.Check(errOnly == "", st, r.site, "accepted", x.cons, "%s: %s is accepted", x.cons, errOnly)
			e.Check(!failed || x.parsedOK(st), st, r.site, "error-lost", x.cons, "%s: an error is lost", x.cons)
			e.Check(errOnly != "" || x.complete(st, m), st, r.site, "stored", x.cons, "%s: it ends without an error although the node is not stored completely (%s)", x.cons, m.Key())
		case -1:
			e.Check(errOnly != "" || failed || !x.accepts() || x.overflow(st) || x.noMethod(st) || x.how == "Map" && x.x.isKind("T.key", "Interface"), st, r.site, "error", x.cons, "%s: an error is returned although nothing failed (%s)", x.cons, m.Key())
			if errOnly == "" && !x.accepts() {
				e.Check(m.ctl == "start" || x.sc != nil && m.ctl == "next" || m.ctl == "failed" || x.how == "Ptr", st, r.site, "untouched", x.cons, "%s: the value is changed although the node does not fit", x.cons)
			}
		default:
			e.Check(false, st, r.site, "error", x.cons, "%s: error unknown %s", x.cons, keyOf(r.ret[0]))
		}
	}
	return good
}

func (x *decRun) parsedOK(st *State) bool { return false }

// noMethod: a nil interface has no methods.
func (x *decRun) noMethod(st *State) bool {
	b, ok := st.F.atoms["isnil:"+x.t.key]
	return x.kind == "Interface" && x.how != "Interface" && (!ok || b)
}

func (x *decRun) overflow(st *State) bool {
	for a, b := range st.F.atoms {
		if b && (strings.HasPrefix(a, "overflow:") || strings.HasPrefix(a, "posinf:") || strings.HasPrefix(a, "neginf:")) {
			return true
		}
	}
	return false
}

// complete: everything the node holds was stored.
func (x *decRun) complete(st *State, m *RefMon) bool {
	if m.ctl == "done" {
		return true
	}
	if !x.accepts() {
		return false
	}
	null := x.node == "TypeNull"
	nb, known := st.F.atoms["isnil:"+keyOf(x.t)]
	isNil, notNil := known && nb, known && !nb
	switch x.how {
	case "Ptr":
		return null && m.ctl == "start" && isNil
	case "Slice":
		if null {
			return m.ctl == "start" && isNil
		}
		return m.ctl == "sized" && st.F.EntailsEq(m.r[0].Sub(x.vs.n)) && notNil
	case "Array":
		return m.ctl == "start" && st.F.EntailsEq(m.r[0].Sub(x.x.lenOf("T")))
	case "Map":
		if null {
			return m.ctl == "start" // left as it is
		}
		return m.ctl == "start" && st.F.EntailsEq(m.r[0].Sub(x.vs.n)) && notNil
	case "Struct":
		return m.ctl == "end"
	}
	return false
}

// ---- scenarios ----

type decCase struct {
	kind, how, name string
	on              map[string][]string
	key             string // the kind of map keys
}

// apply says which types a case is about.
func (x *refl) applyCase(k decCase) {
	x.kind["T"] = x.kinds[k.kind]
	if k.kind == "Map" {
		key := k.key
		if key == "" {
			key = "String"
		}
		x.kind["T.key"] = x.kinds[key]
		if key == "Ptr" {
			x.elem["T.key"] = "T.key.elem"
		}
	}
	x.shape(k.on)
}

func decCases(x *refl) []decCase {
	var out []decCase
	for _, k := range encKinds {
		out = append(out, decCase{kind: k, how: x.howKind(k)})
	}
	for _, k := range []string{"String", "Struct", "Ptr", "Int", "Interface"} {
		out = append(out, decCase{kind: "Map", how: "Map", name: "by " + k + " with UnmarshalText", key: k, on: map[string][]string{"T.key": {"TextUnmarshaler"}}})
		out = append(out, decCase{kind: "Map", how: "Map", name: "by " + k, key: k})
	}
	for _, m := range []struct{ how, name string }{{"UnmarshalNodeJSON", "njson.Unmarshaler"}, {"UnmarshalJSON", "json.Unmarshaler"}, {"UnmarshalText", "TextUnmarshaler"}} {
		for _, k := range []string{"Ptr", "Interface"} {
			out = append(out, decCase{kind: k, how: m.how, name: "with " + m.how, on: map[string][]string{"T": {m.name}}})
		}
		for _, k := range []string{"Struct", "Slice", "Int", "Map", "String"} {
			out = append(out, decCase{kind: k, how: m.how, name: "with " + m.how, on: map[string][]string{"*T": {m.name}}})
		}
	}
	all := []string{"njson.Unmarshaler", "json.Unmarshaler", "TextUnmarshaler"}
	for i := 0; i < 2; i++ {
		how := []string{"UnmarshalNodeJSON", "UnmarshalJSON"}[i]
		out = append(out, decCase{kind: "Struct", how: how, name: "with several methods", on: map[string][]string{"*T": all[i:]}})
		out = append(out, decCase{kind: "Ptr", how: how, name: "with several methods", on: map[string][]string{"T": all[i:]}})
	}
	return out
}

// badKeys: nothing says how to make the keys of the map.
func (x *decRun) badKeys() bool {
	i, ok := x.x.ifaceNamed("TextUnmarshaler")
	return x.how == "Map" && ok && !x.x.isKind("T.key", "String") && !x.x.impl["T.key "+i]
}

func (x *decRun) refusable(st *State) bool {
	switch x.kind {
	case "Interface":
		return st.F.Entails(keepSym("nummethod:T", 0, 1<<20).AddC(-1))
	case "Map":
		return x.badKeys()
	}
	return false
}

// decoder analyses the decoder NewTypeDecoder makes for pointers to T.
func (c *Ctx) decoder(nj *Njson, k decCase) {
	fn := c.P.fn("unjson", "NewTypeDecoder")
	if !c.Anchor(fn != nil, "unjson.NewTypeDecoder") {
		return
	}
	c.saw(fn)
	cons := "decoder of " + k.kind
	if k.name != "" {
		cons += " " + k.name
	}
	method := k.how != "Interface" && strings.HasPrefix(k.how, "Unmarshal")
	for _, node := range decNodes {
		for _, sc := range []string{"pointer", "nil pointer", "nil", "other type"} {
			if sc == "nil pointer" && method && len(k.on["*T"]) > 0 {
				continue
			}
			if (sc == "nil" || sc == "other type") && node != "TypeNull" && node != "TypeNumber" {
				continue
			}
			x := c.newDec(nj, cons+", "+node+" to "+sc, node)
			x.kind, x.how = k.kind, k.how
			x.x.applyCase(k)
			st := x.st
			distinct(st, "T", "*T", "U", "*U", "T.elem", "U.elem", "T.key")
			x.start(st, nil)
			outs := x.e.Run(st, fn, []Val{x.x.rtype(st, "*T"), symVal("tag", fn.Params[1].Type())}, nil, nil)
			good := 0
			for i := range outs {
				o := &outs[i]
				if o.panic || !o.st.F.Feasible() {
					continue
				}
				switch errNil(o.st, o.ret[1]) {
				case 1:
					x.decode(o, sc)
					good++
				case -1:
					x.e.Check(o.st.ext["nested.err"] != nil || x.refusable(o.st), o.st, o.site, "refused", x.cons, "%s: the type is refused", x.cons)
				default:
					x.e.Check(false, o.st, o.site, "error", x.cons, "%s: error unknown %s", x.cons, keyOf(o.ret[1]))
				}
			}
			x.e.Check(good > 0 || k.kind == "Interface" && method || x.badKeys(), nil, nil, "returns", x.cons, "%s: there is none", x.cons)
			c.Merge(x.e)
		}
	}
}

// decode runs the Decode method of a decoder.
func (x *decRun) decode(o *Outcome, sc string) {
	e, st := x.e, o.st.clone()
	delete(st.ext, "nested.err")
	ev, ok := o.ret[0].(*IfaceV)
	if !e.Check(ok && ev.t != nil, st, o.site, "decoder", x.cons, "%s: unknown decoder %s", x.cons, keyOf(o.ret[0])) {
		return
	}
	meth := x.c.P.method(ev.t, "Decode")
	if !e.Check(meth != nil, st, o.site, "decoder", x.cons, "%s has no Decode", x.cons) {
		return
	}
	arg := &IfaceV{key: "x"}
	st.F.atoms["nil:x"] = false
	errOnly := ""
	impl := func(k string) {
		for _, i := range x.x.ifaceOf {
			st.F.atoms["is:x:"+i] = x.x.impl[k+" "+i]
		}
	}
	p := x.x.val("p", "*T", "")
	var states []*State
	switch sc {
	case "pointer":
		st.F.atoms["isnil:p"] = false
		x.x.x["x"] = p
		impl("*T")
		v := x.x.derived(st, "Elem", "T", p)
		x.x.addr[v.key] = 1
		x.start(st, v)
		states = x.nilCases(st, v)
	case "nil pointer":
		st.F.atoms["isnil:p"] = true
		x.x.x["x"] = p
		impl("*T")
		x.start(st, nil)
		if x.node != "TypeNull" {
			errOnly = "a nil pointer"
		} else {
			st.mon = x.mon(st).to("done")
		}
		states = []*State{st}
	case "nil":
		arg = &IfaceV{isNil: true}
		x.start(st, nil)
		errOnly = "nil"
		states = []*State{st}
	case "other type":
		u := x.x.val("u", "*U", "")
		st.F.atoms["isnil:u"] = false
		x.x.x["x"] = u
		impl("*U")
		x.start(st, nil)
		errOnly = "a value of another type"
		states = []*State{st}
	}
	good := 0
	for _, s := range states {
		good += x.finish(e.Run(s, meth, []Val{ev.v, arg, x.n}, nil, nil), errOnly)
	}
	e.Check(good > 0 || errOnly != "" || !x.accepts() || x.kind == "Interface" && x.how != "Interface", nil, nil, "returns", x.cons, "%s never succeeds", x.cons)
}

// nilCases distinguishes targets that are nil at first from others.
func (x *decRun) nilCases(st *State, v *TermV) []*State {
	if !x.x.isKind(x.x.vt[v.key], "Ptr", "Map", "Slice", "Interface") {
		return []*State{st}
	}
	b := st.clone()
	st.F.atoms["isnil:"+v.key] = false
	b.F.atoms["isnil:"+v.key] = true
	b.ext["wasnil"] = LC(1)
	if x.x.isKind(x.x.vt[v.key], "Slice") {
		b.ext["len:"+v.key], b.ext["cap:"+v.key] = LC(0), LC(0)
		n := x.x.valLen(st, v)
		st.ext["len:"+v.key] = n
		cp := symRange("cap:"+v.key, 0, 1<<40)
		keepVals(cp)
		st.F.AssumeGe(cp.Sub(n))
		st.ext["cap:"+v.key] = cp
	}
	return []*State{st, b}
}

// decMakers analyses the functions that make the decoders of elements, with
// any content of the cache they share.
func (c *Ctx) decMakers(nj *Njson, cases []decCase) {
	var fns []*ssa.Function
	for fn, sig := range c.made {
		if sig == decSig && isMaker(fn) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		c.saw(fn)
		for _, k := range cases {
			cons := "decoder of elements of kind " + k.kind
			if k.name != "" {
				cons += " " + k.name
			}
			for _, node := range decNodes {
				c.decMaker(nj, fn, k, cons, node)
			}
		}
	}
}

func (c *Ctx) decMaker(nj *Njson, fn *ssa.Function, k decCase, cons, node string) {
	x := c.newDec(nj, cons+", "+node, node)
	x.kind, x.how, x.keys = k.kind, k.how, map[string]*StructV{}
	x.x.applyCase(k)
	st := x.st
	distinct(st, "T", "*T", "U", "*U", "T.elem", "U.elem", "T.key")
	keyOK := func(s *StructV) bool {
		for _, f := range s.f {
			if iv, ok := f.(*IfaceV); ok {
				t, is := x.x.typeKey(iv)
				return is && t == "T"
			}
		}
		return false
	}
	x.e.H.Lookup = func(e *Engine, st *State, ins *ssa.Lookup, m, key Val) (Val, bool) {
		ks, ok := key.(*StructV)
		if t, isT := m.(*TermV); !ok || !isT || t.key != "cache" || ins.CommaOk {
			return nil, false
		}
		havocN++
		n := fmt.Sprintf("cached%d", havocN)
		x.keys[n] = ks
		return &IfaceV{key: n}, true
	}
	x.e.H.MapUpd = func(e *Engine, st *State, ins *ssa.MapUpdate, m, key, v Val) {
		if t, isT := m.(*TermV); !isT || t.key != "cache" {
			return
		}
		ks, ok := key.(*StructV)
		e.Check(ok && keyOK(ks), st, ins, "cache", cons, "%s: it is stored under the key %s", cons, keyOf(key))
	}
	x.start(st, nil)
	var args []Val
	for _, q := range fn.Params {
		switch {
		case types.TypeString(q.Type(), nil) == "reflect.Type":
			args = append(args, x.x.rtype(st, "T"))
		default:
			name := q.Name()
			if _, ok := q.Type().Underlying().(*types.Map); ok {
				name = "cache"
			}
			v := symVal(name, q.Type())
			st.nonNil(v)
			args = append(args, v)
		}
	}
	good := 0
	outs := x.e.Run(st, fn, args, nil, nil)
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		if errNil(o.st, o.ret[1]) != 1 {
			x.e.Check(o.st.ext["nested.err"] != nil || x.refusable(o.st), o.st, o.site, "refused", x.cons, "%s is refused", x.cons)
			continue
		}
		good++
		iv, ok := o.ret[0].(*IfaceV)
		if !x.e.Check(ok && !iv.isNil, o.st, o.site, "decoder", x.cons, "%s: unknown decoder %s", x.cons, keyOf(o.ret[0])) {
			continue
		}
		if ks := x.keys[iv.key]; ks != nil || iv.t == nil || isPtrParam(iv) {
			x.e.Check(k.how == x.x.howKind(k.kind), o.st, o.site, "cached", x.cons, "%s: a decoder from the cache is used instead of the type's method", x.cons)
			x.e.Check(ks == nil && k.kind == "Struct" || ks != nil && keyOK(ks), o.st, o.site, "cached", x.cons, "%s: the decoder of another type is used", x.cons)
			continue
		}
		if k.how == "Struct" {
			continue
		}
		m := c.P.methodOf(iv.t, decSig)
		if !x.e.Check(m != nil, o.st, o.site, "decoder", x.cons, "%s: %s does not decode", x.cons, iv.t) {
			continue
		}
		s := o.st
		delete(s.ext, "nested.err")
		v := x.x.val("v", "T", "")
		x.x.addr[v.key] = 1
		x.start(s, v)
		n := 0
		for _, s := range x.nilCases(s, v) {
			n += x.finish(x.e.Run(s, m, []Val{iv.v, v, x.n}, nil, nil), "")
		}
		x.e.Check(n > 0 || !x.accepts(), nil, nil, "returns", x.cons, "%s never succeeds", x.cons)
	}
	x.e.Check(good > 0 || k.kind == "Interface" && k.how != "Interface" || x.badKeys(), nil, nil, "returns", x.cons, "%s: there is none", x.cons)
	c.Merge(x.e)
}

func init() {
	register(&Prop{
		ID:      "C21",
		Rule:    "For every kind of type and every combination of unmarshaler methods, NewTypeDecoder is interpreted abstractly on a pointer type of which only these are known, and the Decode method of the decoder it returns on every kind of node (and a reference to no node) with a pointer, a nil pointer, nil and a pointer to another type. In product with a reference machine each change made through reflection must be the one the node calls for, entries are decoded in order to the elements they belong to, an error is returned exactly when the node does not fit, a number overflows or a part failed, and every reflect operation is one its operand allows. The same holds for the decoders made for elements whatever their cache holds.",
		Explain: "Product of construction and decoding with a reference machine over reflection events by abstract interpretation; induction on the type for elements.",
		Assume:  []string{"reflect behaves as documented (model in prop_refl.go)", "unmarshalers do not modify the document", "numjson and strconv parse exactly or report failure (numbers), strjson.Unescaped as in property C16", "the decoder made for an element type decodes values of that type (induction)"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			cases := decCases(newRefl(c, nil, ""))
			only := os.Getenv("NJ_KIND")
			for _, k := range cases {
				if k.how == "Struct" || only != "" && only != k.kind {
					continue
				}
				c.decoder(nj, k)
			}
			if only == "" || only == "Struct" {
				c.decStructs(nj)
			}
			c.decMakers(nj, cases)
			c.count["kinds and shapes"] = len(cases)
		},
	})
}

// ---- structs ----

// The machine for a struct looks for the entries of the object in order:
// "next" k j: entries before k are settled and the fields before j have other
// keys than entry k; "hit" k j: field j is the first with the key of entry k;
// "end": all entries are settled.
func (x *decRun) fieldMon() *RefMon {
	un := x.c.P.fn("strjson", "Unescaped")
	return &RefMon{ctl: "next", r: []*Lin{LC(0), LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon {
		if m.ctl != "next" || x.node != "TypeObject" {
			return nil
		}
		k, j := st.F.norm(m.r[0]), st.F.norm(m.r[1])
		switch sign(st, x.vs.n.Sub(k).AddC(-1)) {
		case -1:
			return m.to("end", k, LC(0))
		case 0:
			return nil
		}
		switch sign(st, x.fs.n.Sub(j).AddC(-1)) {
		case -1:
			return m.to("next", k.AddC(1), LC(0))
		case 0:
			return nil
		}
		raw := x.nj.elemKey(pre(st), x.vs, k)
		txt := e.termResults(st, &callInfo{fn: un, name: un.String(), args: []Val{raw}, sig: un.Signature})[0].(StrV)
		key, _ := x.sc.of(pre(st), x.fs, j, x.sc.key).(StrV)
		switch e.strEq(st, key, txt) {
		case 1:
			ix := x.indexOf(st, j)
			st.F.AssumeGe(ix.n.AddC(-1)) // the paths of fields are not empty
			if l, ok := pre(st).load(ix.o, Path{{f: -1, idx: st.F.norm(ix.off)}}, types.Typ[types.Int]).(*Lin); ok {
				st.F.AssumeGe(l) // a struct is not a pointer
			}
			return m.to("hit", k, j)
		case -1:
			return m.to("next", k, j.AddC(1))
		}
		return nil
	}}
}

// indexOf is the index path of field j.
func (x *decRun) indexOf(st *State, j *Lin) *SliceV {
	return x.sc.of(pre(st), x.fs, st.F.norm(j), x.sc.index).(*SliceV)
}

// at is how far along the path of the field in turn a value is.
func (x *decRun) at(st *State, v *TermV) (*Lin, bool) {
	m := x.mon(st)
	if m.ctl != "hit" {
		return nil, false
	}
	if x.t != nil && x.x.sameRV(st, v, x.t) {
		return LC(0), true
	}
	if !x.walked(v) {
		return nil, false
	}
	return v.args[1].(*Lin), st.F.EntailsEq(v.args[0].(*Lin).Sub(m.r[1]))
}

func (x *decRun) walkTerm(st *State, q *Lin) *TermV {
	return mkTerm("walk", x.t.typ, st.F.norm(x.mon(st).r[1]), st.F.norm(q))
}

// walk models the access to fields along their index paths.
func (x *decRun) walk(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	m := strings.TrimPrefix(ci.name, "(reflect.Value).")
	if m == ci.name {
		return nil, false
	}
	v, ok := ci.args[0].(*TermV)
	if !ok || m != "Field" && !x.walked(v) {
		return nil, false
	}
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	st.mon.Sync(e, st)
	q, ok := x.at(st, v)
	if !ok {
		x.fail(st, ci.ins, "%s of %s where %s is next", m, v.key, x.mon(st).Key())
		return one(e.termResults(st, ci)...)
	}
	ix := x.indexOf(st, x.mon(st).r[1])
	elem := func() *Lin {
		if !st.F.Entails(ix.n.Sub(q).AddC(-1)) {
			return nil
		}
		l, _ := pre(st).load(ix.o, Path{{f: -1, idx: st.F.norm(ix.off.Add(q))}}, types.Typ[types.Int]).(*Lin)
		if l != nil {
			st.F.AssumeGe(l.AddC(1))
			if st.F.EntailsEq(q) {
				st.F.AssumeGe(l) // a struct is not a pointer
			}
		}
		return l
	}
	isPtr := func() bool {
		l := elem()
		return l != nil && st.F.EntailsEq(l.AddC(1))
	}
	switch m {
	case "Field":
		i, _ := ci.args[1].(*Lin)
		l := elem()
		if i == nil || l == nil || !st.F.EntailsEq(i.Sub(l)) || !st.F.Entails(i) {
			x.fail(st, ci.ins, "field %s of %s is taken", keyOf(ci.args[1]), v.key)
			return one(e.termResults(st, ci)...)
		}
		return one(x.walkTerm(st, q.AddC(1)))
	case "Elem":
		if nb, known := st.F.atoms["isnil:"+v.key]; !isPtr() || !known || nb {
			x.fail(st, ci.ins, "Elem of %s, which may be nil or no pointer", v.key)
			return one(e.termResults(st, ci)...)
		}
		return one(x.walkTerm(st, q.AddC(1)))
	case "IsNil":
		if !isPtr() {
			x.fail(st, ci.ins, "IsNil of %s may panic", v.key)
		}
		return one(cAtom("isnil:" + v.key))
	case "Kind":
		if isPtr() {
			return one(LC(x.x.kinds["Ptr"]))
		}
	case "IsValid", "CanAddr", "CanSet", "CanInterface":
		return one(cBool(true))
	case "Type":
		x.x.kind["walked"] = x.x.kinds["Ptr"]
		if isPtr() {
			st.ext["typed"] = v
			return one(x.x.rtype(st, "walked"))
		}
	case "Set":
		w, ok := ci.args[1].(*TermV)
		nb, known := st.F.atoms["isnil:"+v.key]
		if !ok || w.op != "new" || !isPtr() || x.x.vt[w.key] != "*walked.elem" || !x.x.sameRV(st, st.ext["typed"], v) || !known || !nb {
			x.fail(st, ci.ins, "%s is set to %s", v.key, keyOf(ci.args[1]))
		}
		st.F.atoms["isnil:"+v.key] = false
		delete(st.ext, "typed")
		return one()
	}
	return one(e.termResults(st, ci)...)
}

func (x *decRun) fieldDecoded(st *State, ins ssa.Instruction, dec *IfaceV, v *TermV, n Val) {
	st.mon.Sync(x.e, st)
	m := x.mon(st)
	if m.ctl == "bad" {
		return
	}
	q, ok := x.at(st, v)
	if !ok {
		x.fail(st, ins, "%s is decoded to %s", keyOf(n), v.key)
		return
	}
	k, j := m.r[0], m.r[1]
	switch {
	case !st.F.EntailsEq(q.Sub(x.indexOf(st, j).n)):
		x.fail(st, ins, "entry %s is decoded to %s, which is not its field (%s)", k.Key(), v.key, x.indexOf(st, j).n.Key())
	case !x.entry(st, n, k):
		x.fail(st, ins, "%s is decoded to the field of entry %s", keyOf(n), k.Key())
	case !x.e.sameVal(st, dec, x.sc.of(pre(st), x.fs, st.F.norm(j), x.sc.dec)):
		x.fail(st, ins, "entry %s is decoded with %s", k.Key(), dec.key)
	default:
		st.mon = m.to("next", st.F.norm(k.AddC(1)), LC(0))
	}
}

// structs analyses the decoding to a struct with any list of fields.
func (c *Ctx) decStructs(nj *Njson) {
	sh := c.structShape()
	if !c.Anchor(sh != nil, "the codec of structs") {
		return
	}
	fn := c.methodSig(sh.typ, decSig)
	if !c.Anchor(fn != nil, "the decode method of the codec of structs") {
		return
	}
	c.saw(fn)
	for _, node := range decNodes {
		x := c.newDec(nj, "decoder of Struct, "+node, node)
		x.kind, x.how, x.sc = "Struct", "Struct", sh
		x.x.kind["T"] = x.x.kinds["Struct"]
		st := x.st
		o := newObj("codec", sh.typ)
		o.name = "codec"
		p := &PtrV{o: o}
		x.fs, _ = st.load(o, fpath(sh.fields), fieldTyp(sh.typ, sh.fields)).(*SliceV)
		st.assumeValid(x.fs)
		keepVals(x.fs.n, x.fs.off)
		s := sh.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			switch t := s.Field(i).Type(); {
			case isReflectValue(t):
				st.store(o, fpath(i), t, x.x.val("zero:T", "T", "zero"))
			case types.TypeString(t, nil) == "reflect.Type":
				st.store(o, fpath(i), t, x.x.rtype(st, "T"))
			}
		}
		nilDer := x.e.H.NilDer
		x.e.H.NilDer = func(e *Engine, st *State, ins ssa.Instruction, v Val) {
			if iv, ok := v.(*IfaceV); ok && strings.HasPrefix(iv.key, "arr(codec.") {
				return // the fields of a codec are complete
			}
			nilDer(e, st, ins, v)
		}
		v := x.x.val("v", "T", "")
		x.x.addr[v.key] = 1
		x.start(st, v)
		n := x.finish(x.e.Run(st, fn, []Val{p, v, x.n}, nil, nil), "")
		x.e.Check(n > 0 || !x.accepts(), nil, nil, "returns", x.cons, "%s never succeeds", x.cons)
		c.Merge(x.e)
	}
}
