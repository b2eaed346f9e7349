package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// jsonSpec is the reference serializer of one node: it prescribes the bytes
// appended for node id of document d from the node's own type, text and
// values; values are prescribed as one nested serialization each.
func (nj *Njson) jsonSpec(d *PtrV, id *Lin, kind string, cons string) *Out {
	vs := func(st *State) *SliceV { return nj.values(pre(st), d, id) }
	step := func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
		fail := func(want string) *Out {
			if m.ctl != "bad" {
				e.Fail(st, ins, "output", cons+" "+m.ctl, "%s of %s appends %s where %s belongs", cons, kind, t, want)
			}
			return m.to("bad")
		}
		isStr := func(want StrV) bool {
			s, ok := t.v.(StrV)
			return t.b < 0 && ok && e.sameVal(st, s, want)
		}
		nested := func(k *Lin) bool {
			n, ok := t.v.(*TermV)
			if t.b >= 0 || !ok || n.op != "nested" {
				return false
			}
			l, ok := n.args[0].(*Lin)
			return ok && st.F.EntailsEq(l.Sub(nj.elemID(pre(st), vs(st), k)))
		}
		switch m.ctl {
		case "bad":
			return m
		case "start":
			switch kind {
			case "TypeString":
				if t.b == '"' {
					return m.to("string")
				}
				return fail("a quote")
			case "TypeObject":
				if t.b == '{' {
					return m.to("object", LC(0))
				}
				return fail("{")
			case "TypeArray":
				if t.b == '[' {
					return m.to("array", LC(0))
				}
				return fail("[")
			}
			if isStr(nj.raw(pre(st), d, id)) {
				return m.to("done")
			}
			return fail("the node's text")
		case "string":
			if isStr(nj.raw(pre(st), d, id)) {
				return m.to("string-end")
			}
			if t.b == '"' && st.F.EntailsEq(nj.raw(pre(st), d, id).length()) {
				return m.to("done")
			}
			return fail("the node's text")
		case "string-end":
			if t.b == '"' {
				return m.to("done")
			}
			return fail("a quote")
		case "object", "array":
			k := m.r[0]
			n := vs(st).n
			end := 0
			if st.F.EntailsEq(n.Sub(k)) {
				end = 1
			} else if st.F.Entails(n.Sub(k).AddC(-1)) {
				end = -1
			}
			first := 0
			if st.F.EntailsEq(k) {
				first = 1
			} else if st.F.Entails(k.AddC(-1)) {
				first = -1
			}
			cl := byte(']')
			if m.ctl == "object" {
				cl = '}'
			}
			if t.b == int(cl) && end == 1 {
				return m.to("done")
			}
			if t.b == ',' && end == -1 && first == -1 {
				return m.to(m.ctl+"-next", k)
			}
			if end == -1 && first == 1 {
				m = m.to(m.ctl+"-next", k)
				return m.step(e, st, ins, m, t)
			}
			return fail(fmt.Sprintf("the separator or the closing %c at entry %s of %s", cl, st.F.norm(k).Key(), n.Key()))
		case "object-next":
			if t.b == '"' {
				return m.to("key", m.r[0])
			}
			return fail("the quote of a key")
		case "key":
			key := nj.elemKey(pre(st), vs(st), m.r[0])
			if isStr(key) {
				return m.to("key-end", m.r[0])
			}
			if t.b == '"' && st.F.EntailsEq(key.length()) {
				return m.to("colon", m.r[0])
			}
			return fail("the key of the entry")
		case "key-end":
			if t.b == '"' {
				return m.to("colon", m.r[0])
			}
			return fail("the quote after a key")
		case "colon":
			if t.b == ':' {
				return m.to("object-value", m.r[0])
			}
			return fail("a colon")
		case "object-value", "array-next":
			if nested(m.r[0]) {
				c := "object"
				if m.ctl == "array-next" {
					c = "array"
				}
				return m.to(c, st.F.norm(m.r[0].AddC(1)))
			}
			return fail("the value of the entry")
		}
		return fail("nothing more")
	}
	return &Out{ctl: "start", step: step}
}

// outDone: the machine has nothing left to emit.
func (nj *Njson) outDone(st *State, m *Out, d *PtrV, id *Lin, kind string) bool {
	if m == nil {
		return false
	}
	if m.ctl == "done" {
		return true
	}
	if m.ctl == "start" {
		switch kind {
		case "TypeNumber", "TypeBoolean", "TypeNull":
			return st.F.EntailsEq(nj.raw(pre(st), d, id).length())
		}
	}
	return false
}

// nestedJSON is the contract of a function that serializes a node, used where
// it is already running: it appends one nested serialization, or fails.
func (nj *Njson) nestedJSON(d *PtrV, cons string, active func(e *Engine, st *State, ci *callInfo) bool) func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	return func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.fn == nil || !active(e, st, ci) {
			return nil, false
		}
		res := ci.sig.Results()
		if res.Len() != 2 || !types.Identical(res.At(0).Type(), types.NewSlice(types.Typ[types.Uint8])) {
			return nil, false
		}
		var dst *SliceV
		var id *Lin
		isNil := false
		docOK := true
		for i, a := range ci.args {
			t := ci.fn.Params[i].Type()
			switch {
			case isByteSlice(t):
				dst, _ = a.(*SliceV)
			case types.Identical(t, nj.Node):
				if s, ok := a.(*StructV); ok {
					id, _ = s.f[nj.nID].(*Lin)
					docOK = docOK && sameDoc(s.f[nj.nDoc], d) && st.F.EntailsEq(asLin(s.f[nj.nRev], nil).Sub(nj.rev(st, d)))
				}
			case types.Identical(t, types.NewPointer(nj.node)):
				switch p := a.(type) {
				case *NilV:
					isNil = true
				case *PtrV:
					ns := nj.nodes(st, d)
					if p.o == ns.o && len(p.p) == 1 && p.p[0].f < 0 {
						id = st.F.norm(p.p[0].idx.Sub(ns.off))
					}
				}
			case types.Identical(t, types.Typ[types.Uint]):
				id, _ = a.(*Lin)
			case types.Identical(t, types.NewPointer(nj.Document)):
				docOK = docOK && sameDoc(a, d)
			}
		}
		if dst == nil {
			return nil, false
		}
		m := outOf(dst)
		fresh := func(s *State) *SliceV {
			return outBuf(s, fmt.Sprintf("partial%d", havocN), &Out{ctl: "error", step: func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out { return m }})
		}
		var outs []Outcome
		bad := st.clone()
		err := someErr(bad, "nested.err")
		outs = append(outs, Outcome{st: bad, ret: []Val{fresh(bad), err}})
		if isNil {
			return outs, true
		}
		if m == nil || id == nil || !docOK {
			e.Fail(st, ci.ins, "nested", cons, "%s: cannot tell what is serialized by %s(%s)", cons, shortName(ci.name), keyOf(&TupleV{ci.args}))
			return outs, true
		}
		t := &TermV{key: "nested(" + id.Key() + ")", op: "nested", args: []Val{id}}
		m = m.step(e, st, ci.ins, m, Tok{b: -1, v: t})
		k := newLenSym("nestedlen")
		outs = append(outs, Outcome{st: st, ret: []Val{dst.grown(st, m, LS(k)), &IfaceV{isNil: true}}})
		return outs, true
	}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteT(s.Elem())
}

func init() {
	register(&Prop{
		ID:      "C13",
		Rule:    "Node.AppendJSON and Document.AppendJSON are interpreted abstractly on a live node of each type in an arbitrary document, into an arbitrary buffer, in product with a reference serializer derived from the node: every byte appended must be the one prescribed (brackets, separators exactly between entries, keys in order in quotes, each value as one nested serialization of the node the entry refers to, scalar text), nothing but appends happens to the buffer, and an error is returned exactly when a nested serialization failed or there is no node. Recursive calls are replaced by the contract being verified.",
		Explain: "Product of the serializer with a reference grammar machine by abstract interpretation; induction on the document for nested values.",
		Assume:  []string{"the buffer handed in does not alias the document's memory", "an entry's nested serialization fails only if some node is missing"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			kinds := []string{"TypeString", "TypeNumber", "TypeBoolean", "TypeNull", "TypeObject", "TypeArray"}
			for _, recv := range []string{"Node", "Document"} {
				fn := c.P.fn("", recv+".AppendJSON")
				if !c.Anchor(fn != nil, "njson."+recv+".AppendJSON") {
					continue
				}
				for _, kind := range kinds {
					c.appendJSON(nj, fn, recv, kind)
				}
				if recv == "Document" {
					c.appendEmpty(nj, fn)
				}
			}
			c.count["kinds"] = len(kinds)
		},
	})
}

func (c *Ctx) appendJSON(nj *Njson, fn *ssa.Function, recv, kind string) {
	r := c.runner(nj)
	e := r.e
	cons := recv + ".AppendJSON"
	rc := nj.liveKind(kind)
	if recv == "Document" {
		rc = nj.rootKind(kind)
	}
	nj.raw(rc.st, rc.d, rc.id)
	m := nj.jsonSpec(rc.d, rc.id, kind, cons)
	dst := outBuf(rc.st, "dst", m)
	noPanic(e, cons)
	e.H.Append = outAppend
	e.H.Write = nil
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		for _, o := range p.o.leaves() {
			if !o.fresh && !o.stack {
				e.Fail(st, ins, "writes", cons, "%s writes to %s", cons, o.name)
			}
		}
	}
	e.H.Copy = func(e *Engine, st *State, ins ssa.Instruction, d *SliceV, src Val, n *Lin) {
		if d.o != nil && !d.o.fresh {
			e.Fail(st, ins, "writes", cons, "%s copies into %s", cons, d.o.name)
		}
	}
	e.H.Call = nj.nestedJSON(rc.d, cons, func(e *Engine, st *State, ci *callInfo) bool {
		return c.P.isRepoFn(ci.fn) && e.depth(st, ci.fn) > 0
	})
	var arg Val = rc.n
	if recv == "Document" {
		arg = rc.d
	}
	outs := r.run(rc.st, fn, arg, dst)
	good := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		m := outOf(o.ret[0])
		failed := false
		if m != nil && m.ctl == "error" {
			failed = true
		}
		switch errNil(o.st, o.ret[1]) {
		case 1:
			good++
			e.Check(nj.outDone(o.st, m, rc.d, rc.id, kind), o.st, o.site, "output", cons+" "+kind+" end", "%s of %s returns success although the value is not written to the end (%s)", cons, kind, keyOf(o.ret[0]))
		case -1:
			e.Check(failed, o.st, o.site, "error", cons+" "+kind, "%s of %s returns an error although nothing it wrote failed", cons, kind)
		default:
			e.Check(false, o.st, o.site, "error", cons+" "+kind, "%s of %s: error unknown %s", cons, kind, keyOf(o.ret[1]))
		}
	}
	e.Check(good > 0, nil, nil, "returns", cons+" "+kind, "%s of %s never succeeds", cons, kind)
	r.done()
}

// appendEmpty: a document without nodes.
func (c *Ctx) appendEmpty(nj *Njson, fn *ssa.Function) {
	r := c.runner(nj)
	e := r.e
	cons := "Document.AppendJSON"
	st := newState()
	d := nj.doc("doc")
	st.F.AssumeEq(nj.nodes(st, d).n)
	m := &Out{ctl: "start"}
	m.step = func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
		e.Fail(st, ins, "output", cons+" empty", "%s of an empty document appends %s", cons, t)
		return m
	}
	noPanic(e, cons)
	e.H.Append = outAppend
	outs := r.run(st, fn, d, outBuf(st, "dst", m))
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		e.Check(errNil(o.st, o.ret[1]) == -1, o.st, o.site, "error", cons+" empty", "%s of an empty document reports no error", cons)
	}
	e.Check(len(outs) > 0, nil, nil, "returns", cons+" empty", "%s of an empty document never returns", cons)
	r.done()
}
