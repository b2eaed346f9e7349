package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- package level functions and streams of unjson ----

// facRun analyses a function that finds an encoder or decoder for a value and
// runs it, reading from or writing to a stream.
type facRun struct {
	c    *Ctx
	nj   *Njson
	e    *Engine
	cons string
	x    Val  // the value
	own  Val  // the encoder or decoder of the stream
	recv *Obj // the stream
	n    Val  // the node to decode, if it is given
	text func(st *State, s StrV) bool
	read bool // text comes from a stream
	spec *Out
}

func (x *facRun) ok(good bool, st *State, ins ssa.Instruction, rule, f string, a ...interface{}) {
	x.e.Check(good, st, ins, rule, x.cons, "%s: "+f, append([]interface{}{x.cons}, a...)...)
}

func (x *facRun) ctl(st *State) string         { return st.mon.(*RefMon).ctl }
func (x *facRun) cnt(st *State) *Lin           { return st.mon.(*RefMon).r[0] }
func (x *facRun) set(st *State, c string)      { st.mon = st.mon.(*RefMon).to(c, x.cnt(st)) }
func (x *facRun) isNil(st *State, v Val) bool  { return errNil(st, v) == 1 }
func (x *facRun) notNil(st *State, v Val) bool { return errNil(st, v) == -1 }

// stream machine states: "start", "more", "last", "ended" count the fragments
// of the line read; "eof", "ioerr": reading failed; "parsed", "junk", "bad":
// the text was parsed, with data after the value, or refused; "failed": no
// encoder or decoder; "ran": encoded or decoded; "written".
func (x *facRun) begin(st *State) {
	st.mon = &RefMon{ctl: "start", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon { return nil }}
}

// buffers: how many fragments of the line, or which output, a buffer holds.
func (x *facRun) step(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
	if x.read {
		sl, ok := t.v.(*SliceV)
		frag, _ := st.ext["frag"].(*SliceV)
		if t.b < 0 && ok && frag != nil && m.ctl == "text" && sl.o == frag.o && st.F.EntailsEq(sl.off.Sub(frag.off)) && st.F.EntailsEq(sl.n.Sub(frag.n)) && st.F.EntailsEq(m.r[0].AddC(1).Sub(x.cnt(st))) {
			return m.to("text", x.cnt(st))
		}
		if s, ok := t.v.(StrV); ok && t.b < 0 && frag != nil && m.ctl == "text" {
			if sl, ok := srcVal(s).(*SliceV); ok && sl.o == frag.o && st.F.EntailsEq(sl.n.Sub(frag.n)) && st.F.EntailsEq(m.r[0].AddC(1).Sub(x.cnt(st))) {
				return m.to("text", x.cnt(st))
			}
		}
		x.ok(false, st, ins, "text", "%s is added to the text of the line", t)
		return m.to("bad", LC(0))
	}
	lit := "null"
	switch {
	case t.b < 0 && m.ctl == "start" && isOp(t.v, "encoded"):
		return m.to("value", LC(0))
	case t.b == '\n' && (m.ctl == "value" || m.ctl == "null4"):
		return m.to("line", LC(0))
	case t.b == 'n' && m.ctl == "start":
		return m.to("null1", LC(0))
	}
	for i := 1; i < len(lit); i++ {
		if m.ctl == fmt.Sprintf("null%d", i) && t.b == int(lit[i]) {
			return m.to(fmt.Sprintf("null%d", i+1), LC(0))
		}
	}
	x.ok(false, st, ins, "output", "%s is appended to %s", t, m.ctl)
	return m.to("bad", LC(0))
}

func srcVal(s StrV) Val {
	if s.B == nil {
		return nil
	}
	return s.B.src
}

func isOp(v Val, op string) bool {
	t, ok := v.(*TermV)
	return ok && t.op == op
}

// machine of an empty buffer.
func (x *facRun) fresh() *Out {
	m := &Out{ctl: "start", r: []*Lin{LC(0)}, step: x.step}
	if x.read {
		m.ctl = "text"
	}
	m.empty = m
	return m
}

func (x *facRun) append(e *Engine, st *State, ins ssa.Instruction, dst *SliceV, ch Chunk) ([]appRes, bool) {
	if outOf(dst) == nil {
		if !isByteT(sliceElem(dst)) || !st.F.EntailsEq(dst.n) || !(dst.isNil || dst.o == nil || dst.o.fresh) {
			return nil, false
		}
		d := *dst
		d.emit = x.fresh()
		dst = &d
	}
	return outAppend(e, st, ins, dst, ch)
}

func sliceElem(s *SliceV) types.Type {
	if s.o != nil && s.o.typ != nil {
		return s.o.typ
	}
	return types.Typ[types.Uint8]
}

// holdsText: the string is the whole line.
func (x *facRun) holdsText(st *State, s StrV) bool {
	if s.B == nil || !st.F.EntailsEq(s.lo) || !st.F.EntailsEq(s.hi.Sub(s.B.n)) {
		return false
	}
	m, _ := s.B.emit.(*Out)
	if m == nil {
		switch t := srcVal(s).(type) {
		case *TermV:
			if t.op == "string" && len(t.args) == 1 {
				m = outOf(t.args[0])
			}
		case *SliceV:
			m = outOf(t)
			if f, _ := st.ext["frag"].(*SliceV); m == nil && f != nil && f.o == t.o && st.F.EntailsEq(t.n.Sub(f.n)) {
				return st.F.EntailsEq(x.cnt(st).AddC(-1))
			}
		}
	}
	return m != nil && m.ctl == "text" && st.F.EntailsEq(m.r[0].Sub(x.cnt(st)))
}

func (x *facRun) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	switch ci.name {
	case "(*bufio.Reader).ReadLine":
		c := x.ctl(st)
		x.ok(c == "start" || c == "more", st, ci.ins, "read", "it reads on after %s", c)
		frag := func(s *State, last string, min int64) []Val {
			v := symVal(fmt.Sprintf("frag%d", havocN), types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
			s.assumeValid(v)
			s.F.AssumeGe(v.n.AddC(-min))
			s.ext["frag"] = v
			s.mon = s.mon.(*RefMon).to(last, s.F.norm(x.cnt(s).AddC(1)))
			return []Val{v, cBool(last == "more"), &IfaceV{isNil: true}}
		}
		havocN++
		fail := func(s *State, ctl string) []Val {
			delete(s.ext, "frag")
			var err *IfaceV
			if ctl == "ioerr" {
				err = someErr(s, "read.err")
				s.ext["err"] = err
				a, b := err.key, keyOf(x.eof(s))
				if a > b {
					a, b = b, a
				}
				s.F.atoms["eq:"+a+"=="+b] = false
			} else {
				err = x.eof(s).(*IfaceV)
				s.ext["err"] = err
			}
			s.mon = s.mon.(*RefMon).to(ctl, x.cnt(s))
			return []Val{nilSlice(types.NewSlice(types.Typ[types.Uint8])), cBool(false), err}
		}
		eof := "eof"
		if c == "more" {
			eof = "ended"
		}
		var outs []Outcome
		for _, k := range []string{"more", "last", eof, "ioerr"} {
			s := st.clone()
			havocN++
			switch k {
			case "more":
				outs = append(outs, Outcome{st: s, ret: frag(s, k, 1)})
			case "last":
				outs = append(outs, Outcome{st: s, ret: frag(s, k, 0)})
			default:
				outs = append(outs, Outcome{st: s, ret: fail(s, k)})
			}
		}
		return outs, true
	case "strings.TrimSpace":
		if s, ok := ci.args[0].(StrV); ok && s.B != nil && strings.HasPrefix(s.B.name, "tail") {
			blank := x.ctl(st) != "junk"
			if blank {
				return one(strLit(""))
			}
			havocN++
			r := strSym(fmt.Sprintf("junk%d", havocN))
			st.F.AssumeGe(r.length().AddC(-1))
			return one(r)
		}
	case "(io.Writer).Write":
	}
	if ci.iface != nil && ci.fn == nil {
		switch ci.method {
		case "Write":
			sl, _ := ci.args[1].(*SliceV)
			m := outOf(sl)
			x.ok((x.ctl(st) == "ran" || x.ctl(st) == "start" && x.isNil(st, x.x)) && m != nil && m.ctl == "line", st, ci.ins, "written", "%s is written instead of the value and a newline (%s)", keyOf(ci.args[1]), x.ctl(st))
			rs := e.freshResults(ci)
			for _, r := range rs {
				st.assumeValid(r)
			}
			st.ext["err"] = rs[1]
			x.set(st, "written")
			return one(rs...)
		case "Decode":
			x.runs(st, ci, "Decoder")
			if len(ci.args) != 3 {
				return nil, false
			}
			x.ok(e.sameVal(st, ci.args[1], x.x), st, ci.ins, "decoded", "it decodes to %s", keyOf(ci.args[1]))
			var good bool
			if x.n != nil {
				good = x.ctl(st) == "start" && e.sameVal(st, ci.args[2], x.n)
			} else {
				good = x.ctl(st) == "parsed" && st.ext["node"] != nil && e.sameVal(st, ci.args[2], st.ext["node"])
			}
			x.ok(good, st, ci.ins, "decoded", "%s is decoded (%s)", keyOf(ci.args[2]), x.ctl(st))
			x.ok(st.ext["closed"] == nil, st, ci.ins, "closed", "a node of a document given back is decoded")
			rs := e.freshResults(ci)
			st.ext["err"] = rs[0]
			x.set(st, "ran")
			return one(rs...)
		case "Encode":
			x.runs(st, ci, "Encoder")
			if len(ci.args) != 3 {
				return nil, false
			}
			x.ok(x.ctl(st) == "start" && e.sameVal(st, ci.args[2], x.x), st, ci.ins, "encoded", "%s is encoded (%s)", keyOf(ci.args[2]), x.ctl(st))
			dst, _ := ci.args[1].(*SliceV)
			bad := st.clone()
			err := someErr(bad, "encode.err")
			bad.ext["err"] = err
			x.set(bad, "encode failed")
			part := outBuf(bad, fmt.Sprintf("partial%d", havocN), &Out{ctl: "partial", r: []*Lin{LC(0)}, step: x.step, empty: x.fresh()})
			outs := []Outcome{{st: bad, ret: []Val{part, err}}}
			havocN++
			rs, ok := x.append(e, st, ci.ins, dst, Chunk{val: &TermV{key: fmt.Sprintf("encoded%d", havocN), op: "encoded", args: []Val{x.x}}})
			if !ok {
				x.ok(false, st, ci.ins, "output", "the value is appended to %s", keyOf(dst))
				return outs, true
			}
			for _, r := range rs {
				x.set(r.st, "ran")
				outs = append(outs, Outcome{st: r.st, ret: []Val{r.v, &IfaceV{isNil: true}}})
			}
			return outs, true
		}
	}
	if ci.fn == nil || !x.c.P.isRepoFn(ci.fn) {
		return nil, false
	}
	switch nm := shortFn(ci.fn); nm {
	case "(*unjson.Cache).Decoder", "(*unjson.Cache).Encoder":
		p, _ := ci.args[0].(*PtrV)
		g := x.c.P.ssaPkg("unjson").Var("defaultCache")
		x.ok(p != nil && g != nil && len(p.p) == 0 && p.o == e.globalObj(g), st, ci.ins, "cache", "another cache than the default one is used")
		t, _ := ci.args[1].(*IfaceV)
		x.ok(t != nil && t.key == x.typeKey(st), st, ci.ins, "cache", "an encoder or decoder for %s is used", keyOf(ci.args[1]))
		x.ok(x.notNil(st, x.x), st, ci.ins, "cache", "there is no type of nil")
		iv := &IfaceV{key: "cached:" + ci.fn.Name()}
		st.F.atoms["nil:"+iv.key] = false
		bad := st.clone()
		err := someErr(bad, "cache.err")
		bad.ext["err"] = err
		x.set(bad, "failed")
		return []Outcome{{st: st, ret: []Val{iv, &IfaceV{isNil: true}}}, {st: bad, ret: []Val{&IfaceV{isNil: true}, err}}}, true
	case "njson.Blank":
		rs := e.freshResults(ci)
		st.nonNil(rs[0])
		x.ok(st.ext["doc"] == nil, st, ci.ins, "closed", "a second document is borrowed")
		st.ext["doc"] = rs[0]
		st.ext["clean"] = LC(1)
		return one(rs...)
	case "(*njson.Document).Close":
		x.ok(x.borrowed(st, ci.args[0]), st, ci.ins, "closed", "%s is given back", keyOf(ci.args[0]))
		st.ext["closed"] = LC(1)
		return one(&IfaceV{isNil: true})
	case "(*njson.Document).Reset":
		x.ok(x.isDoc(st, ci.args[0]), st, ci.ins, "reset", "%s is reset", keyOf(ci.args[0]))
		x.ok(x.ctl(st) != "parsed", st, ci.ins, "reset", "the document is reset while its node is needed")
		st.ext["clean"] = LC(1)
		return one()
	case "(*njson.Document).Parse":
		x.ok(x.isDoc(st, ci.args[0]), st, ci.ins, "parsed", "%s is used to parse", keyOf(ci.args[0]))
		x.ok(st.ext["clean"] != nil, st, ci.ins, "reset", "the document keeps the nodes of previous lines")
		delete(st.ext, "clean")
		s, ok := ci.args[1].(StrV)
		c := x.ctl(st)
		if x.read {
			x.ok(ok && (c == "last" || c == "ended") && x.holdsText(st, s), st, ci.ins, "text", "%s is parsed after %s instead of the line", keyOf(ci.args[1]), c)
		} else {
			x.ok(ok && c == "start" && x.text(st, s), st, ci.ins, "text", "%s is parsed", keyOf(ci.args[1]))
		}
		havocN++
		var outs []Outcome
		for _, k := range []string{"parsed", "junk", "bad"} {
			t := st.clone()
			n := symVal(fmt.Sprintf("node%d", havocN), x.nj.Node)
			tail := strSym(fmt.Sprintf("tail%d", havocN))
			var err Val = &IfaceV{isNil: true}
			x.set(t, k)
			switch k {
			case "parsed":
				t.ext["node"] = n
			case "junk":
				t.F.AssumeGe(tail.length().AddC(-1))
			case "bad":
				er := someErr(t, "parse.err")
				t.ext["err"] = er
				err = er
			}
			outs = append(outs, Outcome{st: t, ret: []Val{n, tail, err}})
		}
		return outs, true
	}
	return nil, false
}

func (x *facRun) typeKey(st *State) string { return "typeof:" + keyOf(x.x) }

func (x *facRun) eof(st *State) Val {
	for _, k := range x.c.P.prog.AllPackages() {
		if k.Pkg.Path() == "io" {
			if g := k.Var("EOF"); g != nil {
				v := st.load(x.e.globalObj(g), nil, types.Universe.Lookup("error").Type())
				st.F.atoms["nil:"+keyOf(v)] = false
				return v
			}
		}
	}
	return nil
}

// borrowed: the document taken from the pool, not yet given back.
func (x *facRun) borrowed(st *State, d Val) bool {
	return st.ext["doc"] != nil && st.ext["closed"] == nil && x.e.sameVal(st, d, st.ext["doc"])
}

func (x *facRun) isDoc(st *State, d Val) bool {
	if x.borrowed(st, d) {
		return true
	}
	p, ok := d.(*PtrV)
	return ok && x.recv != nil && p.o == x.recv && st.ext["doc"] == nil
}

// runs: the encoder or decoder used is the right one.
func (x *facRun) runs(st *State, ci *callInfo, kind string) {
	r, _ := ci.args[0].(*IfaceV)
	good := r != nil && r.key == "cached:"+kind
	if x.own != nil {
		o := x.own.(*IfaceV)
		if x.notNil(st, o) {
			good = r != nil && r.key == o.key
		} else {
			good = good && x.isNil(st, o)
		}
	}
	x.ok(good, st, ci.ins, "codec", "%s of %s is used", ci.method, keyOf(ci.args[0]))
}

// finish checks how the function ended.
func (x *facRun) finish(outs []Outcome, encode, stream bool, out *SliceV) {
	good := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		st, c := o.st, x.ctl(o.st)
		errV := o.ret[len(o.ret)-1]
		want := st.ext["err"]
		if st.ext["doc"] != nil {
			x.ok(st.ext["closed"] != nil, st, o.site, "closed", "the document is not given back")
		}
		final := "ran"
		if stream && encode {
			final = "written"
		}
		// appending null needs no encoder
		null := encode && c == "start" && x.isNil(st, x.x)
		if stream && encode && c == "written" || c == final || null {
			if !encode || stream {
				x.ok(want != nil && (keyOf(want) == keyOf(errV) || x.isNil(st, want) && x.isNil(st, errV)), st, o.site, "error", "the error %s is returned instead of %s", keyOf(errV), keyOf(want))
			} else {
				x.ok(x.isNil(st, errV), st, o.site, "error", "an error is returned although nothing failed")
				sl, _ := o.ret[0].(*SliceV)
				m := outOf(sl)
				res := "value"
				if x.isNil(st, x.x) {
					res = "null4"
				}
				x.ok(m != nil && m.ctl == res, st, o.site, "output", "%s is returned instead of the %s", keyOf(o.ret[0]), res)
			}
			good++
			continue
		}
		switch c {
		case "ioerr", "eof":
			x.ok(keyOf(want) == keyOf(errV), st, o.site, "error", "the error %s is returned instead of the reader's", keyOf(errV))
		case "junk", "bad", "failed", "encode failed":
			x.ok(x.notNil(st, errV), st, o.site, "error", "it succeeds although it %s", c)
		case "start", "parsed":
			// nothing to decode to
			fine := !encode && x.isNil(st, x.x) && x.notNil(st, errV)
			x.ok(fine, st, o.site, "error", "it ends (%s) without doing anything", c)
		default:
			x.ok(false, st, o.site, "ends", "it ends after %s", c)
		}
	}
	x.ok(good > 0, nil, nil, "returns", "it never succeeds")
}

func (c *Ctx) facade(nj *Njson, name string, xnil bool) {
	fn := c.P.fn("unjson", name)
	if !c.Anchor(fn != nil, "unjson."+name) {
		return
	}
	c.saw(fn)
	e := c.runner(nj).e
	cons := name
	if xnil {
		cons += " of nil"
	}
	x := &facRun{c: c, nj: nj, e: e, cons: cons}
	st := newState()
	stream := fn.Signature.Recv() != nil
	encode := strings.HasSuffix(name, "Encode") || name == "Marshal" || name == "AppendJSON"
	x.read = stream && !encode
	noPanic(e, cons)
	e.H.Append = x.append
	e.H.NewBuf = func(e *Engine, st *State, ins ssa.Instruction) *SliceV { return newOutBuf(x.fresh()) }
	e.H.Copy = outCopy
	var out *SliceV
	var args []Val
	iface := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	for i, q := range fn.Params {
		v := symVal("arg."+q.Name(), q.Type())
		switch {
		case i == 0 && stream:
			p := v.(*PtrV)
			st.nonNil(v)
			x.recv = p.o
			s := p.o.typ.Underlying().(*types.Struct)
			for f := 0; f < s.NumFields(); f++ {
				ft := s.Field(f).Type()
				switch {
				case ft == c.P.typ("unjson", "Decoder") || ft == c.P.typ("unjson", "Encoder"):
					x.own = st.load(p.o, Path{{f: f}}, ft)
				case isByteSlice(ft):
					old := outBuf(st, "buffer", &Out{ctl: "old contents", r: []*Lin{LC(0)}, step: x.step, empty: x.fresh()})
					st.store(p.o, Path{{f: f}}, ft, old)
				default:
					if _, ok := ft.Underlying().(*types.Struct); !ok {
						// NewLineDecoder and NewLineEncoder set these
						st.nonNil(st.load(p.o, Path{{f: f}}, ft))
					}
				}
			}
		case iface(q.Type()):
			x.x = v
			st.F.atoms["nil:"+keyOf(v)] = xnil
			if xnil {
				v = &IfaceV{isNil: true}
				x.x = v
			}
		case types.Identical(q.Type(), nj.Node):
			x.n = v
		case isStr(q.Type()):
			s := v.(StrV)
			x.text = func(st *State, t StrV) bool { return e.sameVal(st, s, t) }
		case isByteSlice(q.Type()) && encode:
			m := x.fresh()
			m.empty = nil // what it holds must not be lost
			out = outBuf(st, "out", m)
			v = out
		case isByteSlice(q.Type()):
			sl := v.(*SliceV)
			st.assumeValid(sl)
			x.text = func(st *State, t StrV) bool {
				w, ok := srcVal(t).(*SliceV)
				return ok && w.o == sl.o && st.F.EntailsEq(w.off.Sub(sl.off)) && st.F.EntailsEq(w.n.Sub(sl.n)) && st.F.EntailsEq(t.length().Sub(sl.n))
			}
		}
		args = append(args, v)
	}
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.name == "reflect.TypeOf" {
			return []Outcome{{st: st, ret: []Val{&IfaceV{key: "typeof:" + keyOf(ci.args[0])}}}}, true
		}
		return x.call(e, st, ci)
	}
	x.eof(st) // is not nil
	x.begin(st)
	outs := e.Run(st, fn, args, nil, nil)
	if xnil && !encode && !stream {
		// there is nothing to decode to
		for i := range outs {
			if o := &outs[i]; !o.panic && o.st.F.Feasible() {
				x.ok(x.notNil(o.st, o.ret[0]), o.st, o.site, "error", "it succeeds")
			}
		}
	} else {
		x.finish(outs, encode, stream, out)
	}
	c.Merge(e)
}

// streamOf checks a constructor of streams: nothing comes from a nil reader or
// writer, otherwise the stream reads from it through a bufio.Reader or writes
// to it, and has no encoder or decoder of its own.
func (c *Ctx) streamOf(nj *Njson, name string) {
	fn := c.P.fn("unjson", name)
	if !c.Anchor(fn != nil && len(fn.Params) == 1 && fn.Signature.Results().Len() == 1, "unjson."+name) {
		return
	}
	c.saw(fn)
	e := c.runner(nj).e
	ok := func(good bool, st *State, ins ssa.Instruction, f string, a ...interface{}) {
		e.Check(good, st, ins, "stream", name, "%s: "+f, append([]interface{}{name}, a...)...)
	}
	noPanic(e, name)
	st := newState()
	arg := symVal("arg", fn.Params[0].Type()).(*IfaceV)
	buffered := func(st *State) (string, bool) {
		for a, v := range st.F.atoms {
			if v && strings.HasPrefix(a, "is:"+arg.key+":") && strings.HasSuffix(a, "bufio.Reader") {
				t := strings.TrimPrefix(a, "is:"+arg.key+":")
				return "&*" + arg.key + ".(" + t + ")", true
			}
		}
		return "", false
	}
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		switch ci.name {
		case "bufio.NewReader", "bufio.NewReaderSize":
			r, _ := ci.args[0].(*IfaceV)
			own, is := buffered(st)
			ok(r != nil && r.t == nil && r.key == arg.key || is && r != nil && keyOf(r.v) == own, st, ci.ins, "it reads from %s", keyOf(ci.args[0]))
			ok(errNil(st, arg) == -1, st, ci.ins, "it reads from nil")
			rs := e.freshResults(ci)
			st.nonNil(rs[0])
			st.ext["reader"] = rs[0]
			return []Outcome{{st: st, ret: rs}}, true
		}
		return nil, false
	}
	good := 0
	for _, o := range e.Run(st, fn, []Val{arg}, nil, nil) {
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		st := o.st
		p, _ := o.ret[0].(*PtrV)
		if errNil(st, arg) == 1 {
			ok(p == nil, st, o.site, "a stream is made of nil")
			continue
		}
		if p == nil {
			ok(errNil(st, arg) == 1, st, o.site, "no stream is made")
			continue
		}
		ok(errNil(st, arg) == -1, st, o.site, "a stream is made of nil")
		s, _ := p.o.typ.Underlying().(*types.Struct)
		used := false
		for f := 0; s != nil && f < s.NumFields(); f++ {
			ft := s.Field(f).Type()
			v := st.load(p.o, append(append(Path{}, p.p...), pe{f: f}), ft)
			switch {
			case ft == c.P.typ("unjson", "Decoder") || ft == c.P.typ("unjson", "Encoder"):
				ok(errNil(st, v) == 1, st, o.site, "the stream has the codec %s", keyOf(v))
			case ft.String() == "*bufio.Reader":
				own, is := buffered(st)
				ok(is && keyOf(v) == own || st.ext["reader"] != nil && e.sameVal(st, v, st.ext["reader"]), st, o.site, "the stream reads from %s", keyOf(v))
				used = true
			case ft.String() == "io.Writer" || ft.String() == "io.Reader":
				i, _ := v.(*IfaceV)
				ok(i != nil && i.t == nil && i.key == arg.key, st, o.site, "the stream uses %s", keyOf(v))
				used = true
			}
		}
		ok(used, st, o.site, "the stream has no reader or writer")
		good++
	}
	ok(good > 0, nil, nil, "it makes no stream")
	c.Merge(e)
}

func init() {
	register(&Prop{
		ID:      "C27",
		Rule:    "Unmarshal, UnmarshalFromString, UnmarshalFromNode, Marshal, AppendJSON, LineDecoder.Decode and LineEncoder.Encode are interpreted abstractly with every outcome of the reader, the parser, the default cache, encoders, decoders and the writer. A machine follows the text: the fragments of exactly one line, all of them in order, are what is parsed, by a document without old nodes; the value parsed (with nothing but space after it) is decoded once, to the value given, by the stream's own decoder or the default cache's for its type; what is written is one encoded value and a newline, in one Write. Every failure is returned, nothing is decoded or written after one, and a borrowed document is given back exactly once, after its last use.",
		Explain: "Abstract interpretation in product with a typestate machine for the stream and the borrowed document, and a content machine for buffers.",
		Assume:  []string{"bufio.Reader.ReadLine behaves as documented", "Document.Parse (C03, C04), Cache (C26), encoders (C24) and decoders (C21) satisfy their own properties"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			for _, n := range []string{"Unmarshal", "UnmarshalFromString", "UnmarshalFromNode", "Marshal", "AppendJSON", "LineDecoder.Decode", "LineEncoder.Encode"} {
				c.facade(nj, n, false)
				c.facade(nj, n, true)
			}
			c.streamOf(nj, "NewLineDecoder")
			c.streamOf(nj, "NewLineEncoder")
		},
	})
}
