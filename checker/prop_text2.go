package main

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// unescaper is the reference for unescaping s, which is assumed to be valid
// JSON string content: the scan machine (register 0 of the monitor) knows how
// far s is free of backslashes, the output machine how much of s the output
// stands for.
type unescaper struct {
	e    *Engine
	s    StrV
	dst  *SliceV // the buffer of Unescape
	cons string
}

var simpleEsc, hexDigits, notEsc, notU Set256

func init() {
	for i := 0; i < 256; i++ {
		if _, ok := escVal(int64(i)); ok {
			simpleEsc.Add(i)
		}
		if _, ok := hexVal(int64(i)); ok {
			hexDigits.Add(i)
		}
		if i != '\\' {
			notEsc.Add(i)
		}
		if i != 'u' {
			notU.Add(i)
		}
	}
}

func only(b byte) (s Set256) {
	s.Add(int(b))
	return s
}

// assumeByte assumes that a byte lies in a set.
func assumeByte(st *State, l *Lin, set Set256) bool {
	l = st.F.norm(l)
	switch byteIn(st, l, set) {
	case 1:
		return true
	case -1:
		return false
	}
	s, v, ok := l.asFin()
	if !ok {
		return true // nothing learnt
	}
	cur := st.F.setOf(s)
	var nx Set256
	for j := 0; j < 256; j++ {
		if cur.Has(j) && set.Has(int(v[j]&255)) {
			nx.Add(j)
		}
	}
	return st.F.setSet(s, nx)
}

func (x *unescaper) n() *Lin { return x.s.length() }
func (x *unescaper) at(st *State, q *Lin, i int64) *Lin {
	return st.byteAt(x.s, st.F.norm(q.AddC(i)))
}
func (x *unescaper) room(st *State, q *Lin, k int64) bool {
	return st.F.AssumeGe(x.n().Sub(q).AddC(-k))
}

// unit is the code unit of the \u escape at q.
func (x *unescaper) unit(st *State, q *Lin) *Lin {
	u := LC(0)
	for i := int64(2); i < 6; i++ {
		h := finMap(st, x.at(st, q, i), func(c int64) (int64, bool) {
			v, ok := hexVal(c)
			return v << uint(4*(5-i)), ok
		})
		if h == nil {
			return nil
		}
		u = st.F.norm(u.Add(h))
	}
	return u
}

func (x *unescaper) isU(st *State, q *Lin) bool {
	ok := x.room(st, q, 6) && assumeByte(st, x.at(st, q, 0), only('\\')) && assumeByte(st, x.at(st, q, 1), only('u'))
	for i := int64(2); ok && i < 6; i++ {
		ok = assumeByte(st, x.at(st, q, i), hexDigits)
	}
	return ok && st.F.Feasible()
}

// valid assumes that s is valid string content as far as that matters to what
// is known at q.
func (x *unescaper) valid(st *State, q *Lin) byte {
	if !st.F.Entails(x.n().Sub(q).AddC(-1)) || byteIn(st, x.at(st, q, 0), only('\\')) != 1 {
		return 0
	}
	if m := st.mon.(*RefMon); q == m.r[1] {
		st.F.AssumeEq(st.F.norm(q.Sub(m.r[0]))) // the scan has not passed it
	}
	var after = simpleEsc
	after.Add('u')
	x.room(st, q, 2)
	assumeByte(st, x.at(st, q, 1), after)
	if byteIn(st, x.at(st, q, 1), only('u')) == 1 {
		x.isU(st, q)
		return 'u'
	}
	return '\\'
}

// escCase is one way the character at q may be written.
type escCase struct {
	st  *State
	r   *Lin  // what it is
	n   int64 // how many bytes of s it takes
	raw bool  // a byte of s as it is
}

func (x *unescaper) cases(st *State, q *Lin) []escCase {
	var out []escCase
	add := func(s *State, r *Lin, n int64, raw bool) {
		if r != nil && s.F.Feasible() {
			out = append(out, escCase{s, s.F.norm(r), n, raw})
		}
	}
	with := func(s *State, f func(*State) bool, g func(*State)) {
		c := s.clone()
		if f(c) && c.F.Feasible() {
			g(c)
		}
	}
	ge := func(ls ...*Lin) func(*State) bool {
		return func(s *State) bool {
			for _, l := range ls {
				if !s.F.AssumeGe(s.F.norm(l)) {
					return false
				}
			}
			return true
		}
	}
	with(st, func(s *State) bool { return x.room(s, q, 1) && assumeByte(s, x.at(s, q, 0), notEsc) }, func(s *State) {
		add(s, x.at(s, q, 0), 1, true)
	})
	esc := st.clone()
	if p := st.mon.(*RefMon).r[0]; st.F.Entails(p.Sub(q)) {
		esc.F.AssumeEq(esc.F.norm(p.Sub(q))) // the scan has not passed it
	}
	with(esc, func(s *State) bool {
		return x.room(s, q, 2) && assumeByte(s, x.at(s, q, 0), only('\\')) && assumeByte(s, x.at(s, q, 1), simpleEsc)
	}, func(s *State) {
		add(s, finMap(s, x.at(s, q, 1), escVal), 2, false)
	})
	with(esc, func(s *State) bool { return x.isU(s, q) }, func(s *State) {
		u := x.unit(s, q)
		if u == nil {
			return
		}
		plain := func(s *State) { add(s, u, 6, false) }
		lone := func(s *State) { add(s, LC(0xfffd), 6, false) }
		with(s, ge(u.Neg().AddC(0xd7ff)), plain)
		with(s, ge(u.AddC(-0xe000)), plain)
		with(s, ge(u.AddC(-0xdc00), u.Neg().AddC(0xdfff)), lone)
		with(s, ge(u.AddC(-0xd800), u.Neg().AddC(0xdbff)), func(s *State) {
			p := s.F.norm(q.AddC(6))
			with(s, func(s *State) bool { return s.F.AssumeEq(x.n().Sub(p)) }, lone)
			with(s, func(s *State) bool { return x.room(s, p, 1) && assumeByte(s, x.at(s, p, 0), notEsc) }, lone)
			with(s, func(s *State) bool {
				return x.room(s, p, 2) && assumeByte(s, x.at(s, p, 0), only('\\')) && assumeByte(s, x.at(s, p, 1), simpleEsc)
			}, lone)
			with(s, func(s *State) bool { return x.isU(s, p) }, func(s *State) {
				v := x.unit(s, p)
				if v == nil {
					return
				}
				with(s, ge(v.Neg().AddC(0xdbff)), lone)
				with(s, ge(v.AddC(-0xe000)), lone)
				with(s, ge(v.AddC(-0xdc00), v.Neg().AddC(0xdfff)), func(s *State) {
					add(s, u.AddC(-0xd800).Scale(1024).Add(v.AddC(-0xdc00)).AddC(0x10000), 12, false)
				})
			})
		})
	})
	return out
}

// char checks that a byte or rune written is what s has at q, and gives the
// position after it.
func (x *unescaper) char(st *State, q, l *Lin, rune bool) (*Lin, bool) {
	n := int64(-1)
	for _, c := range x.cases(st, q) {
		eq := c.st.F.EntailsEq(c.r.Sub(l))
		switch {
		case c.raw:
			if !eq || rune && !c.st.F.Entails(c.r.Neg().AddC(0x7f)) {
				if os.Getenv("NJ_DBG") != "" {
					println("MISMATCH", l.Key(), c.r.Key(), c.n, c.raw, c.st.F.String())
				}
				return nil, false
			}
		case !rune:
			if !eq || !c.st.F.Entails(c.r.Neg().AddC(0x7f)) {
				if os.Getenv("NJ_DBG") != "" {
					println("MISMATCH", l.Key(), c.r.Key(), c.n, c.raw, c.st.F.String())
				}
				return nil, false
			}
		default:
			// a surrogate is written as U+FFFD
			sur := c.st.F.Entails(l.AddC(-0xd800)) && c.st.F.Entails(l.Neg().AddC(0xdfff)) && c.st.F.EntailsEq(c.r.AddC(-0xfffd))
			if !eq && !sur {
				if os.Getenv("NJ_DBG") != "" {
					println("MISMATCH", l.Key(), c.r.Key(), c.n, c.raw, c.st.F.String())
				}
				return nil, false
			}
		}
		if n >= 0 && n != c.n {
			return nil, false
		}
		n = c.n
	}
	if n < 0 {
		return q, true // not reachable for valid content
	}
	return st.F.norm(q.AddC(n)), true
}

// consume is the position up to which the output stands for s after t, written
// when it stood for s up to q.
func (x *unescaper) consume(st *State, q *Lin, t Tok) (*Lin, string) {
	past := func(q *Lin) (*Lin, string) {
		m := st.ref(x.e)
		switch {
		case st.F.Entails(m.r[0].Sub(q)):
			st.mon = m.to(m.ctl, append([]*Lin{m.r[0], q}, m.r[2:]...)...)
		case st.F.Entails(q.Sub(m.r[0])):
			st.mon = m.to(m.ctl, append([]*Lin{q, q}, m.r[2:]...)...)
		default:
			return nil, "where the position in the input is unknown"
		}
		return q, ""
	}
	st.ref(x.e)
	if l := t.lin(); l != nil {
		if nx, ok := x.char(st, q, l, false); ok {
			return past(nx)
		}
		return nil, "which is not the next character of the input"
	}
	if tv, ok := t.v.(*TermV); ok && tv.op == "utf8" {
		if nx, ok := x.char(st, q, tv.args[0].(*Lin), true); ok {
			return past(nx)
		}
		return nil, "which is not the next character of the input"
	}
	s, ok := t.v.(StrV)
	if sl, isS := t.v.(*SliceV); isS {
		if c := x.e.chunkOf(st, sl); c.str != nil {
			s, ok = *c.str, true
		}
	}
	if !ok || s.B != x.s.B || !st.F.EntailsEq(s.lo.Sub(x.s.lo).Sub(q)) {
		return nil, "instead of the input from where the output has got to"
	}
	hi := st.F.norm(s.hi.Sub(x.s.lo))
	if !st.F.Entails(st.ref(x.e).r[0].Sub(hi)) {
		return nil, "which may contain an escape"
	}
	return past(hi)
}

func (x *unescaper) scan(e *Engine, st *State, m *RefMon) *RefMon {
	p := m.r[0]
	if len(m.r) == 3 {
		// both established by consume and write
		st.F.AssumeGe(st.F.norm(m.r[1].Sub(m.r[2])))
	}
	st.F.AssumeGe(st.F.norm(p.Sub(m.r[1])))
	x.valid(st, p)
	to := func(p *Lin) *RefMon {
		r := append([]*Lin{st.F.norm(p)}, m.r[1:]...)
		return m.to(m.ctl, r...)
	}
	// the scan keeps pace with the code: looking ahead is not advancing
	far := p
	for k := int64(1); k <= 8 && st.F.Entails(x.n().Sub(p).AddC(-k)) && byteIn(st, x.at(st, p, k-1), notEsc) == 1; k++ {
		if x.reached(st, p.AddC(k)) {
			far = p.AddC(k)
		}
	}
	if far != p {
		return to(far)
	}
	for _, sc := range st.F.scans {
		if sc.base == x.s.B && sc.kind == "" && sc.set.And(only('\\')).Empty() &&
			st.F.Entails(p.Add(x.s.lo).Sub(sc.lo)) && st.F.Entails(sc.hi.Sub(x.s.lo).Sub(p).AddC(-1)) {
			if hi := st.F.norm(sc.hi.Sub(x.s.lo)); x.reached(st, hi) {
				return to(hi)
			}
		}
	}
	return nil
}

// reached: some variable has the value q.
func (x *unescaper) reached(st *State, q *Lin) bool {
	q = st.F.norm(q)
	if st.F.EntailsEq(x.n().Sub(q)) {
		return true
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			if l, ok := v.(*Lin); ok && st.F.EntailsEq(l.Sub(q)) {
				return true
			}
		}
	}
	return false
}

// out is the output machine of the versions that append.
func (x *unescaper) out() *Out {
	return &Out{ctl: "text", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
		if m.ctl == "bad" {
			return m
		}
		q, why := x.consume(st, m.r[0], t)
		if why != "" {
			e.Fail(st, ins, "unescape", x.cons, "%s writes %s %s (%s)", x.cons, t, why, m.Key())
			return m.to("bad", m.r[0])
		}
		return m.to("text", q)
	}}
}

// write is a write of tokens at offset at (k bytes in all) of dst.
func (x *unescaper) write(st *State, ins ssa.Instruction, at *Lin, ts []Tok, k *Lin) {
	m := st.ref(x.e)
	if m.ctl == "bad" || st.F.EntailsEq(k) {
		return
	}
	bad := func(why string) {
		x.e.Fail(st, ins, "unescape", x.cons, "%s %s (%s)", x.cons, why, m.Key())
		st.mon = m.to("bad", m.r...)
	}
	j := m.r[2]
	if !st.F.EntailsEq(at.Sub(j)) {
		if !st.F.Entails(at.Sub(j)) {
			bad("writes at an offset that may hold finished output")
		}
		return
	}
	q := m.r[1]
	for _, t := range ts {
		var why string
		if q, why = x.consume(st, q, t); why != "" {
			bad("writes " + t.String() + " " + why)
			return
		}
	}
	m = st.ref(x.e)
	nj := st.F.norm(j.Add(k))
	if !st.F.Entails(st.F.norm(q.Sub(nj))) {
		bad("writes more than the input it stands for")
		return
	}
	st.mon = m.to("text", m.r[0], q, nj)
	st.ref(x.e)
}

func (c *Ctx) unescSetup(cons string, mem bool) (*unescaper, *State) {
	e := newEngine(c.P)
	e.widenDbg = os.Getenv("NJ_WIDEN") != ""
	st := newState()
	x := &unescaper{e: e, cons: cons}
	x.s = symVal("s", types.Typ[types.String]).(StrV)
	st.assumeValid(x.s)
	r := []*Lin{LC(0), LC(0)}
	if mem {
		r = append(r, LC(0))
	}
	st.mon = &RefMon{ctl: "text", r: r, step: x.scan}
	keepVals(x.s)
	noPanic(e, cons)
	e.H.Assumed = func(e *Engine, st *State) {
		m := st.mon.(*RefMon)
		if p := m.r[1]; x.valid(st, p) == 'u' {
			x.valid(st, st.F.norm(p.AddC(6)))
		}
		if p := m.r[0]; p != m.r[1] && x.valid(st, p) == 'u' {
			x.valid(st, st.F.norm(p.AddC(6)))
		}
	}
	return x, st
}

func (x *unescaper) finished(st *State, ins ssa.Instruction, q *Lin, bad bool) {
	if bad {
		return
	}
	x.e.Check(st.F.EntailsEq(x.n().Sub(q)), st, ins, "complete", x.cons, "%s returns when its output stands for the input only up to %s", x.cons, q.Key())
}

// inMemory analyses Unescape, which writes into a buffer of sufficient size.
func (c *Ctx) unescapeMem(fn *ssa.Function) {
	cons := "Unescape"
	x, st := c.unescSetup(cons, true)
	e := x.e
	x.dst = symVal("dst", types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
	st.assumeValid(x.dst)
	keepVals(x.dst)
	st.F.AssumeGe(x.dst.n.Sub(x.n()))
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		if p.o != x.dst.o || len(p.p) == 0 || p.p[0].idx == nil {
			return
		}
		l := asLin(v, types.Typ[types.Uint8])
		x.write(st, ins, st.F.norm(p.p[0].idx.Sub(x.dst.off)), toks(st, Chunk{bytes: []*Lin{l}, k: LC(1)}), LC(1))
	}
	e.H.Copy = func(e *Engine, st *State, ins ssa.Instruction, d *SliceV, src Val, n *Lin) {
		if d.o != x.dst.o {
			return
		}
		var ts []Tok
		switch s := src.(type) {
		case StrV:
			cut := StrV{s.B, s.lo, st.F.norm(s.lo.Add(n))}
			ts = toks(st, Chunk{str: &cut, k: n})
		default:
			ts = []Tok{{b: -1, v: src}}
		}
		x.write(st, ins, st.F.norm(d.off.Sub(x.dst.off)), ts, n)
	}
	c.saw(fn)
	outs := e.Run(st, fn, []Val{x.dst, x.s}, nil, nil)
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		m := o.st.ref(e)
		l, ok := o.ret[0].(*Lin)
		if m.ctl == "bad" {
			continue
		}
		e.Check(ok && o.st.F.EntailsEq(l.Sub(m.r[2])), o.st, o.site, "size", cons, "%s returns %s after writing %s bytes", cons, keyOf(o.ret[0]), m.r[2].Key())
		x.finished(o.st, o.site, m.r[1], false)
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	c.Merge(e)
}

// unescapeOut analyses Unescaped and AppendUnescaped. A call of Unescape is
// taken at its contract.
func (c *Ctx) unescapeOut(fn *ssa.Function, cons string, unescape *ssa.Function) {
	x, st := c.unescSetup(cons, false)
	e := x.e
	m := x.out()
	e.H.Append = outAppend
	e.H.Copy = outCopy
	e.H.NewBuf = func(e *Engine, st *State, ins ssa.Instruction) *SliceV { return newOutBuf(m) }
	var args []Val
	var dst *SliceV
	for _, q := range fn.Params {
		if isStr(q.Type()) {
			args = append(args, x.s)
		} else {
			dst = outBuf(st, "dst", m)
			keepVals(dst)
			args = append(args, dst)
		}
	}
	// a byte of the buffer as it was, at an arbitrary position
	var k, was *Lin
	if dst != nil {
		k = LS(newLenSym("k"))
		keepVals(k)
		st.F.AssumeGe(dst.n.Sub(k).AddC(-1))
		was, _ = st.load(dst.o, Path{{f: -1, idx: st.F.norm(dst.off.Add(k))}}, types.Typ[types.Uint8]).(*Lin)
		keepVals(was)
	}
	_ = was
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.fn == nil || ci.fn != unescape {
			return nil, false
		}
		buf, _ := ci.args[0].(*SliceV)
		s, _ := ci.args[1].(StrV)
		if buf == nil || s.B != x.s.B || !st.F.EntailsEq(s.lo.Sub(x.s.lo)) || !st.F.EntailsEq(s.hi.Sub(x.s.hi)) {
			e.Fail(st, ci.ins, "unescape", cons, "%s unescapes something else than its argument", cons)
			return nil, false
		}
		e.Check(st.F.Entails(buf.n.Sub(x.n())), st, ci.ins, "room", cons, "%s calls Unescape with a buffer that may be shorter than the string", cons)
		j := LS(newLenSym("written"))
		st.F.AssumeGe(x.n().Sub(j))
		st.ext["unescaped"] = &SliceV{o: buf.o, off: buf.off, n: j, cap: buf.n}
		return []Outcome{{st: st, ret: []Val{j}}}, true
	}
	c.saw(fn)
	outs := e.Run(st, fn, args, nil, nil)
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		switch v := o.ret[0].(type) {
		case *SliceV:
			if r := outOf(v); r != nil && o.st.ext["unescaped"] == nil {
				x.finished(o.st, o.site, r.r[0], r.ctl == "bad")
				continue
			}
			w, _ := o.st.ext["unescaped"].(*SliceV)
			if w == nil {
				e.Fail(o.st, o.site, "complete", cons, "%s returns a buffer that does not hold the unescaped string", cons)
				continue
			}
			F := o.st.F
			at := F.norm(v.off.Add(dst.n))
			e.Check(!v.isNil && v.o == w.o && F.EntailsEq(w.off.Sub(at)) && F.EntailsEq(v.n.Sub(dst.n).Sub(w.n)), o.st, o.site, "complete", cons, "%s returns %s, which is not the buffer's contents followed by what was unescaped (%s)", cons, keyOf(v), keyOf(w))
			now, _ := o.st.load(v.o, Path{{f: -1, idx: F.norm(v.off.Add(k))}}, types.Typ[types.Uint8]).(*Lin)
			same := v.o == dst.o && F.EntailsEq(v.off.Sub(dst.off)) || now != nil && F.EntailsEq(now.Sub(was))
			e.Check(same, o.st, o.site, "prefix", cons, "%s does not keep what the buffer held", cons)
		case StrV:
			var r *Out
			if v.B.src != nil {
				if t, ok := v.B.src.(*TermV); ok && t.op == "string" {
					r = outOf(t.args[0])
				}
			}
			if r == nil {
				r = m
				for _, t := range toks(o.st, e.chunkOf(o.st, v)) {
					r = r.step(e, o.st, o.site, r, t)
				}
			}
			x.finished(o.st, o.site, r.r[0], r.ctl == "bad")
		default:
			e.Fail(o.st, o.site, "complete", cons, "%s returns %s", cons, keyOf(o.ret[0]))
		}
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	c.Merge(e)
}

func init() {
	register(&Prop{
		ID:      "C16",
		Rule:    "Unescaped, Unescape and AppendUnescaped are interpreted abstractly on arbitrary valid JSON string content (and buffers), in product with a reference decoder: a scan machine knows how far the input is free of backslashes, and every piece written must be the literal input from where the output has got to, or exactly the character the escape there stands for (all forms enumerated: simple escapes, code units, surrogate pairs, lone surrogates as U+FFFD). At return the output must stand for the whole input and the size returned must be what was written.",
		Explain: "Product of the unescaping code with a reference decoder by abstract interpretation; loop invariants over input and output positions are inferred.",
		Assume:  []string{"the input is valid JSON string content (what the parser accepts)", "Unescape is given a buffer at least as long as the string (its documented precondition)"},
		Run: func(c *Ctx) {
			ue := c.P.fn("strjson", "Unescape")
			if c.Anchor(ue != nil, "strjson.Unescape") {
				c.unescapeMem(ue)
			}
			for _, name := range []string{"Unescaped", "AppendUnescaped"} {
				fn := c.P.fn("strjson", name)
				if c.Anchor(fn != nil, "strjson."+name) {
					c.unescapeOut(fn, name, ue)
				}
			}
		},
	})
}
