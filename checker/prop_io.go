package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ioRun analyses a function that serializes into a pooled buffer and hands
// the buffer to somebody.
type ioRun struct {
	c    *Ctx
	nj   *Njson
	e    *Engine
	cons string
	spec *Out   // what has to be in the buffer handed over
	dst  string // the method that receives it
	done func(st *State, m *Out) bool
}

// content is the machine for the bytes of a slice.
func (x *ioRun) content(st *State, ins ssa.Instruction, v Val) *Out {
	sl, ok := v.(*SliceV)
	if !ok {
		return nil
	}
	if m := outOf(sl); m != nil {
		return m
	}
	m := x.spec
	n, ok := st.F.norm(sl.n).constInt()
	if !ok || n > 64 {
		return nil
	}
	for _, t := range toks(st, x.e.chunkOf(st, sl)) {
		m = m.step(x.e, st, ins, m, t)
	}
	return m
}

func putKey(o *Obj) string { return "put:" + o.name }

func (x *ioRun) usable(st *State, ins ssa.Instruction, v Val, what string) {
	if sl, ok := v.(*SliceV); ok && sl.o != nil && st.ext[putKey(sl.o)] != nil {
		x.e.Fail(st, ins, "after-put", x.cons, "%s %s a buffer it has already given back to the pool", x.cons, what)
	}
}

func (x *ioRun) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	switch ci.name {
	case "(*sync.Pool).Get":
		outs := e.poolGet(st, ci)
		for i := range outs {
			iv, ok := outs[i].ret[0].(*IfaceV)
			if !ok || iv.isNil {
				continue
			}
			s := outs[i].st
			mk := func() *SliceV {
				havocN++
				old := &Out{ctl: "old contents", step: x.spec.step, empty: x.spec}
				return outBuf(s, fmt.Sprintf("pooled%d", havocN), old)
			}
			if iv.t != nil && isByteSlice(iv.t) {
				b := mk()
				outs[i].ret[0] = &IfaceV{t: iv.t, v: b}
			} else if p, ok := iv.v.(*PtrV); ok && iv.t != nil {
				if pt, ok := iv.t.Underlying().(*types.Pointer); ok && isByteSlice(pt.Elem()) {
					s.store(p.o, p.p, pt.Elem(), mk())
				}
			}
		}
		return outs, true
	case "(*sync.Pool).Put":
		v := ci.args[1]
		if i, ok := v.(*IfaceV); ok {
			v = i.v
		}
		if p, ok := v.(*PtrV); ok {
			if pt, ok := ci.args[1].(*IfaceV).t.Underlying().(*types.Pointer); ok {
				v = st.load(p.o, p.p, pt.Elem())
			}
		}
		if sl, ok := v.(*SliceV); ok && sl.o != nil && !sl.isNil {
			x.usable(st, ci.ins, sl, "gives back")
			st.ext[putKey(sl.o)] = LC(1)
		}
		return []Outcome{{st: st}}, true
	}
	if ci.iface != nil && ci.fn == nil && ci.method == x.dst {
		var arg Val
		for i, a := range ci.args {
			if i < ci.sig.Params().Len()+1 {
				if sl, ok := a.(*SliceV); ok {
					arg = sl
				}
			}
		}
		x.usable(st, ci.ins, arg, "hands over")
		m := x.content(st, ci.ins, arg)
		e.Check(m != nil && x.done(st, m), st, ci.ins, "handed-over", x.cons, "%s hands %s to %s instead of the complete value", x.cons, keyOf(arg), x.dst)
		n := countExt(st, "calls")
		e.Check(n == 0, st, ci.ins, "once", x.cons, "%s calls %s more than once", x.cons, x.dst)
		st.ext["calls"] = LC(n + 1)
		rs := e.freshResults(ci)
		for i, r := range rs {
			st.assumeValid(r)
			st.ext[fmt.Sprintf("res%d", i)] = r
		}
		return []Outcome{{st: st, ret: rs}}, true
	}
	return nil, false
}

// serialize is the contract of AppendJSON: it appends the whole value, or
// fails and returns whatever it likes.
func (x *ioRun) serialize(e *Engine, st *State, ci *callInfo, id *Lin) []Outcome {
	var dst *SliceV
	for _, a := range ci.args {
		if sl, ok := a.(*SliceV); ok {
			dst = sl
		}
	}
	x.usable(st, ci.ins, dst, "appends to")
	n := countExt(st, "serialized")
	st.ext["serialized"] = LC(n + 1)
	bad := st.clone()
	err := someErr(bad, "append.err")
	bad.ext["append.err"] = err
	part := outBuf(bad, fmt.Sprintf("partial%d", havocN), &Out{ctl: "partial", step: x.spec.step, empty: x.spec})
	if dst != nil {
		part.o = dst.o
	}
	none := bad.clone()
	outs := []Outcome{{st: bad, ret: []Val{part, err}}, {st: none, ret: []Val{zeroVal(types.NewSlice(types.Typ[types.Uint8])), err}}}
	m := outOf(dst)
	if m == nil && dst != nil {
		if st.F.EntailsEq(dst.n) {
			m = x.spec
		}
	}
	if m == nil {
		e.Fail(st, ci.ins, "handed-over", x.cons, "%s: cannot tell what %s is appended to (%s)", x.cons, shortName(ci.name), keyOf(dst))
		return outs
	}
	t := &TermV{key: "nested(" + id.Key() + ")", op: "nested", args: []Val{id}}
	m = m.step(e, st, ci.ins, m, Tok{b: -1, v: t})
	outs = append(outs, Outcome{st: st, ret: []Val{dst.grown(st, m, LS(newLenSym("nestedlen"))), &IfaceV{isNil: true}}})
	return outs
}

// wholeSpec accepts one nested serialization of the subject, or its bytes.
func wholeSpec(inner *Out, id *Lin, cons string) *Out {
	m := &Out{ctl: "start"}
	m.step = func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
		if m.ctl == "start" && t.b < 0 {
			if n, ok := t.v.(*TermV); ok && n.op == "nested" {
				if l, ok := n.args[0].(*Lin); ok && st.F.EntailsEq(l.Sub(id)) {
					return m.to("done")
				}
			}
		}
		if m.ctl == "old contents" || m.ctl == "partial" || inner == nil {
			e.Fail(st, ins, "handed-over", cons, "%s appends %s to %s", cons, t, m.ctl)
			return m.to("bad")
		}
		i := &Out{ctl: m.ctl, r: m.r, step: inner.step}
		i = inner.step(e, st, ins, i, t)
		return m.to(i.ctl, i.r...)
	}
	m.empty = m
	return m
}

func init() {
	register(&Prop{
		ID:      "C20",
		Rule:    "PrintJSON (function and method), WrapUnmarshalJSON and WrapUnmarshalText are interpreted abstractly for every kind of node and of AppendJSON result: the consumer (Write, UnmarshalJSON, UnmarshalText) is called exactly once when serialization succeeded, with exactly the complete value (its JSON; for text the unescaped string), never when it failed; its results, or else the serialization error, are what is returned; a pooled buffer is cut to nothing before use, given back at most once and not touched after that.",
		Explain: "Abstract interpretation with a typestate for pooled buffers and a content machine for what is handed over.",
		Assume:  []string{"AppendJSON satisfies its own contract (property C13)", "consumers do not keep the bytes they are given (as io.Writer and json.Unmarshaler require)"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			c.printJSON(nj)
			c.wrapUnmarshal(nj)
		},
	})
}

// result checks the returned error (and count) of a finished run.
func (x *ioRun) result(o *Outcome, errIx int, cnt int) {
	e := x.e
	err := o.ret[errIx]
	if countExt(o.st, "calls") == 1 {
		want := "res0"
		if cnt >= 0 {
			want = "res1"
			e.Check(e.sameVal(o.st, o.ret[cnt], o.st.ext["res0"]), o.st, o.site, "count", x.cons, "%s returns the count %s instead of the one %s reported", x.cons, keyOf(o.ret[cnt]), x.dst)
		}
		w := o.st.ext[want]
		a, b := errNil(o.st, w), errNil(o.st, err)
		e.Check(keyOf(err) == keyOf(w) || a == 1 && b == 1, o.st, o.site, "error", x.cons, "%s returns the error %s instead of the one %s reported", x.cons, keyOf(err), x.dst)
		return
	}
	ae := o.st.ext["append.err"]
	if !e.Check(ae != nil, o.st, o.site, "called", x.cons, "%s returns without calling %s although the value could be serialized", x.cons, x.dst) {
		return
	}
	e.Check(keyOf(err) == keyOf(ae) || errNil(o.st, err) == -1, o.st, o.site, "error", x.cons+" failed", "%s loses the serialization error (returns %s)", x.cons, keyOf(err))
	if cnt >= 0 {
		e.Check(o.st.F.EntailsEq(asLin(o.ret[cnt], nil)), o.st, o.site, "count", x.cons+" failed", "%s reports %s bytes although nothing was written", x.cons, keyOf(o.ret[cnt]))
	}
}

func (c *Ctx) printJSON(nj *Njson) {
	for _, name := range []string{"PrintJSON", "Node.PrintJSON"} {
		fn := c.P.fn("", name)
		if !c.Anchor(fn != nil, "njson."+name) {
			continue
		}
		r := c.runner(nj)
		e := r.e
		rc := nj.validRecv()
		st := rc.st
		x := &ioRun{c: c, nj: nj, e: e, cons: name, dst: "Write"}
		x.spec = wholeSpec(nil, rc.id, name)
		x.done = func(st *State, m *Out) bool { return m.ctl == "done" }
		noPanic(e, name)
		e.H.Append = outAppend
		e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
			if ci.fn == nil && ci.iface != nil && ci.method == "AppendJSON" {
				return x.serialize(e, st, ci, rc.id), true
			}
			if ci.fn != nil && ci.fn.Name() == "AppendJSON" && len(ci.fn.Params) > 0 && types.Identical(ci.fn.Params[0].Type(), nj.Node) && ci.fn.Synthetic == "" {
				s, ok := ci.args[0].(*StructV)
				if ok && e.sameVal(st, s, rc.n) {
					return x.serialize(e, st, ci, rc.id), true
				}
			}
			return x.call(e, st, ci)
		}
		args := nj.symArgs(st, fn, nil)
		if name == "Node.PrintJSON" {
			args[0] = rc.n
		} else {
			args = nil
			for _, q := range fn.Params {
				v := symVal(q.Name(), q.Type())
				st.nonNil(v)
				args = append(args, v)
			}
		}
		outs := r.run(st, fn, args...)
		n := 0
		for i := range outs {
			o := &outs[i]
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			n++
			x.result(o, 1, 0)
		}
		e.Check(n > 0, nil, nil, "returns", name, "%s never returns", name)
		r.done()
	}
}

func (c *Ctx) wrapUnmarshal(nj *Njson) {
	kinds := []string{"TypeString", "TypeNumber", "TypeBoolean", "TypeNull", "TypeObject", "TypeArray", "TypeInvalid"}
	for _, name := range []string{"Node.WrapUnmarshalJSON", "Node.WrapUnmarshalText"} {
		fn := c.P.fn("", name)
		if !c.Anchor(fn != nil, "njson."+name) {
			continue
		}
		for _, kind := range kinds {
			r := c.runner(nj)
			e := r.e
			rc := nj.liveKind(kind)
			st := rc.st
			cons := name + " of " + kind
			x := &ioRun{c: c, nj: nj, e: e, cons: cons, dst: "UnmarshalJSON"}
			isText := name == "Node.WrapUnmarshalText"
			never := kind == "TypeInvalid" || isText && kind != "TypeString"
			raw := nj.raw(st, rc.d, rc.id)
			if isText {
				x.dst = "UnmarshalText"
				x.spec = &Out{ctl: "start"}
				x.spec.step = func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
					if tv, ok := t.v.(*TermV); ok && t.b < 0 && m.ctl == "start" && (tv.op == "AppendUnescaped" || tv.op == "Unescaped") && e.sameVal(st, tv.args[0], raw) {
						return m.to("done")
					}
					e.Fail(st, ins, "handed-over", cons, "%s puts %s in the text (%s)", cons, t, m.ctl)
					return m.to("bad")
				}
				x.spec.empty = x.spec
				x.done = func(st *State, m *Out) bool {
					return m.ctl == "done" || m.ctl == "start" && st.F.EntailsEq(raw.length())
				}
			} else {
				inner := nj.jsonSpec(rc.d, rc.id, kind, cons)
				x.spec = wholeSpec(inner, rc.id, cons)
				x.done = func(st *State, m *Out) bool {
					if m.ctl == "start" {
						return false
					}
					return nj.outDone(st, m, rc.d, rc.id, kind)
				}
			}
			noPanic(e, cons)
			e.H.Append = outAppend
			e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
				if ci.fn != nil && ci.fn.Name() == "AppendJSON" && len(ci.fn.Params) > 0 && types.Identical(ci.fn.Params[0].Type(), nj.Node) && ci.fn.Synthetic == "" {
					s, ok := ci.args[0].(*StructV)
					if ok && e.sameVal(st, s, rc.n) {
						return x.serialize(e, st, ci, rc.id), true
					}
				}
				if isText && textFn(ci) == "Unescaped" {
					v := symVal("unescaped", types.Typ[types.String]).(StrV)
					v.B.emit = x.spec.step(e, st, ci.ins, x.spec, Tok{b: -1, v: &TermV{key: "unescaped", op: "Unescaped", args: ci.args}})
					return []Outcome{{st: st, ret: []Val{v}}}, true
				}
				if o, ok := textContract(e, st, ci); ok {
					return o, true
				}
				return x.call(e, st, ci)
			}
			outs := r.run(st, fn, nj.symArgs(st, fn, rc.n)...)
			n := 0
			for i := range outs {
				o := &outs[i]
				if o.panic || !o.st.F.Feasible() {
					continue
				}
				n++
				if never {
					e.Check(countExt(o.st, "calls") == 0, o.st, o.site, "called", cons, "%s calls %s", cons, x.dst)
					e.Check(errNil(o.st, o.ret[0]) == -1, o.st, o.site, "error", cons, "%s reports no error", cons)
					continue
				}
				x.result(o, 0, -1)
			}
			e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
			r.done()
		}
	}
}
