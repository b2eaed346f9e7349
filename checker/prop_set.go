package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

const tokEQL = token.EQL

var strT = types.Typ[types.String]

// setter specifies a scalar setter or constructor: the kind it gives the node
// and its raw text.
type setter struct {
	name, kind string
	raw        func(e *Engine, st *State, raw StrV, args []Val) (bool, string)
}

func rawLit(l string) func(e *Engine, st *State, raw StrV, args []Val) (bool, string) {
	return func(e *Engine, st *State, raw StrV, args []Val) (bool, string) {
		return e.sameVal(st, raw, strLit(l)), fmt.Sprintf("%q", l)
	}
}
func rawTerm(alts ...string) func(e *Engine, st *State, raw StrV, args []Val) (bool, string) {
	return func(e *Engine, st *State, raw StrV, args []Val) (bool, string) {
		a := keyOf(st.F.normVal(args[1]))
		if !st.F.EntailsEq(raw.lo) || !st.F.EntailsEq(raw.hi.Sub(raw.B.n)) {
			return false, "the whole text"
		}
		for _, t := range alts {
			if raw.B.name == strings.ReplaceAll(t, "$", a) {
				return true, ""
			}
		}
		return false, strings.ReplaceAll(alts[0], "$", a)
	}
}
func rawArg(e *Engine, st *State, raw StrV, args []Val) (bool, string) {
	return e.sameVal(st, raw, args[1]), "the text given"
}

var escPlain = []string{"Escaped($,false,false)"}
var escHTML = []string{"Escaped($,true,false)"}

var nodeSetters = []setter{
	{"SetInt", "TypeNumber", rawTerm("strconv.FormatInt($,10)", "strconv.Itoa($)")},
	{"SetUint", "TypeNumber", rawTerm("strconv.FormatUint($,10)")},
	{"SetFloat", "TypeNumber", rawTerm("FormatFloat($,64)")},
	{"SetString", "TypeString", rawTerm(escPlain...)},
	{"SetStringHTML", "TypeString", rawTerm(escHTML...)},
	{"SetStringRaw", "TypeString", rawArg},
	{"SetFalse", "TypeBoolean", rawLit("false")},
	{"SetTrue", "TypeBoolean", rawLit("true")},
	{"SetNull", "TypeNull", rawLit("null")},
}
var docMakers = []setter{
	{"Null", "TypeNull", rawLit("null")},
	{"False", "TypeBoolean", rawLit("false")},
	{"True", "TypeBoolean", rawLit("true")},
	{"TextRaw", "TypeString", rawArg},
	{"Text", "TypeString", rawTerm(escPlain...)},
	{"TextHTML", "TypeString", rawTerm(escHTML...)},
	{"Object", "TypeObject", rawLit("")},
	{"Array", "TypeArray", rawLit("")},
	{"Number", "TypeNumber", rawTerm("FormatFloat($,64)")},
}

// scalarState checks node id's contents.
func (nj *Njson) scalarState(e *Engine, o *Outcome, d *PtrV, id *Lin, s setter, args []Val, cons string) {
	st := o.st
	inf := asLin(nj.field(st, d, id, nj.iInfo), fieldTyp(nj.node, nj.iInfo))
	k := nj.kinds[s.kind]
	okKind := false
	if b := lowByte(st.F.norm(inf)); b != nil {
		okKind = st.F.EntailsEq(b.AddC(-k))
	} else if c, ok := st.F.norm(inf).constInt(); ok {
		okKind = c&0xff == k
	} else {
		okKind = nj.kindIs(st, inf, k)
	}
	e.Check(okKind, st, o.site, "kind", cons, "%s leaves a node of type %s, not %s", cons, keyOf(st.F.norm(inf)), s.kind)
	raw := nj.raw(st, d, id)
	ok := false
	want := "?"
	if raw.B != nil {
		ok, want = s.raw(e, st, raw, args)
	}
	e.Check(ok, st, o.site, "raw", cons, "%s stores the text %s instead of %s", cons, keyOf(raw), want)
	vs := nj.values(st, d, id)
	e.Check(vs != nil && (vs.isNil || st.F.EntailsEq(vs.n)), st, o.site, "values", cons, "%s leaves the node with values from before", cons)
}

// kindIs decides the low byte of an info expression built from byte-sized parts.
func (nj *Njson) kindIs(st *State, inf *Lin, k int64) bool {
	if b, v, ok := st.F.norm(inf).asFin(); ok {
		set := st.F.setOf(b)
		for j := 0; j < 256; j++ {
			if set.Has(j) && v[j]&0xff != k {
				return false
			}
		}
		return true
	}
	ok, masks, _ := maskDecomp(st.F, st.F.norm(&Lin{c: bi(0), t: inf.t}))
	if !ok || !inf.c.IsInt64() {
		return false
	}
	for _, m := range masks {
		if m&0xff != 0 {
			return false
		}
	}
	return inf.c.Int64()&0xff == k
}

func (nj *Njson) hasRoot(st *State, inf *Lin) bool {
	inf = st.F.norm(inf)
	if c, ok := inf.constInt(); ok {
		return c&nj.infRoot != 0
	}
	return false
}

func init() {
	register(&Prop{
		ID:      "C08",
		Rule:    "Each scalar setter and each node constructor is interpreted abstractly from a live symbolic node (arbitrary previous type, text, values) or an arbitrary document (any length and capacity, arbitrary leftover contents beyond its length). Obligations on every return: type, text (literal, argument, or the function symbol of the conversion), no leftover values, flags kept (setters) or root flag set (constructors), returned reference designates exactly the new last node, every other node and the revision unchanged (checked at an arbitrary symbolic index); no reachable panic.",
		Explain: "Abstract interpretation of the 9 setters and 9 constructors against a state specification.",
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			for _, s := range nodeSetters {
				fn := c.P.fn("", "Node."+s.name)
				if !c.Anchor(fn != nil, "njson.Node."+s.name) {
					continue
				}
				cons := "Node." + s.name
				r := c.runner(nj)
				e := r.e
				rc := nj.validRecv()
				noPanic(e, cons)
				e.H.Call = textContract
				args := nj.symArgs(rc.st, fn, rc.n)
				inf0 := nj.infoOf(rc.st, rc.d, rc.id)
				nj.values(rc.st, rc.d, rc.id)
				outs := r.run(rc.st, fn, args...)
				n := 0
				for i := range outs {
					o := &outs[i]
					if o.panic || !o.st.F.Feasible() {
						continue
					}
					n++
					nj.scalarState(e, o, rc.d, rc.id, s, args, cons)
					inf := nj.infoOf(o.st, rc.d, rc.id)
					e.Check(o.st.F.EntailsEq(inf.Sub(highPart(inf0)).AddC(-nj.kinds[s.kind])), o.st, o.site, "flags", cons, "%s does not keep the node's flags (%s)", cons, keyOf(o.st.F.norm(inf)))
					nj.frame(e, o, rc.d, cons, rc.id)
					e.Check(o.st.F.EntailsEq(nj.rev(o.st, rc.d).Sub(nj.rev(pre(o.st), rc.d))), o.st, o.site, "rev", cons, "%s changes the document revision", cons)
					e.Check(o.st.F.EntailsEq(nj.nodes(o.st, rc.d).n.Sub(nj.nodes(pre(o.st), rc.d).n)), o.st, o.site, "count", cons, "%s changes the number of nodes", cons)
				}
				e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
				r.done()
			}
			for _, s := range docMakers {
				fn := c.P.fn("", "Document."+s.name)
				if !c.Anchor(fn != nil, "njson.Document."+s.name) {
					continue
				}
				cons := "Document." + s.name
				r := c.runner(nj)
				e := r.e
				st := newState()
				d := nj.doc("doc")
				nodes0 := nj.nodes(st, d)
				rev0 := nj.rev(st, d)
				noPanic(e, cons)
				e.H.Call = textContract
				args := nj.symArgs(st, fn, d)
				outs := r.run(st, fn, args...)
				n := 0
				for i := range outs {
					o := &outs[i]
					if o.panic || !o.st.F.Feasible() {
						continue
					}
					n++
					nv, ok := o.ret[0].(*StructV)
					if !e.Check(ok, o.st, o.site, "result", cons, "%s returns %s", cons, keyOf(o.ret[0])) {
						continue
					}
					id := asLin(nv.f[nj.nID], nil)
					same := func(v Val, p *PtrV) bool { q, ok := v.(*PtrV); return ok && q.o == p.o && len(q.p) == len(p.p) }
					e.Check(o.st.F.EntailsEq(id.Sub(nodes0.n)) && o.st.F.EntailsEq(asLin(nv.f[nj.nRev], nil).Sub(rev0)) && same(nv.f[nj.nDoc], d), o.st, o.site, "result", cons, "%s does not return a live reference to the node it added (%s)", cons, keyOf(nv))
					e.Check(o.st.F.EntailsEq(nj.nodes(o.st, d).n.Sub(nodes0.n).AddC(-1)), o.st, o.site, "count", cons, "%s does not add exactly one node", cons)
					nj.scalarState(e, o, d, nodes0.n, s, args, cons)
					e.Check(nj.hasRoot(o.st, nj.infoOf(o.st, d, nodes0.n)), o.st, o.site, "flags", cons, "%s does not mark the node as free-standing", cons)
					nj.frame(e, o, d, cons)
					e.Check(o.st.F.EntailsEq(nj.rev(o.st, d).Sub(rev0)), o.st, o.site, "rev", cons, "%s changes the document revision", cons)
				}
				e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
				r.done()
			}
			c.count["operations"] = len(nodeSetters) + len(docMakers)
			_ = types.Typ
		},
	})
}
