package main

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// finMap applies f to a byte-valued term, if f is defined on all its values.
func finMap(st *State, l *Lin, f func(int64) (int64, bool)) *Lin {
	l = st.F.norm(l)
	if c, ok := l.constInt(); ok {
		if v, ok := f(c); ok {
			return LC(v)
		}
		return nil
	}
	s, v, ok := l.asFin()
	if !ok {
		return nil
	}
	cur := st.F.setOf(s)
	var out [256]int64
	for j := 0; j < 256; j++ {
		if cur.Has(j) {
			r, ok := f(v[j])
			if !ok {
				return nil
			}
			out[j] = r
		}
	}
	return st.F.norm(linOfFin(s, out))
}

func hexVal(c int64) (int64, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// escVal is the byte a two-character escape stands for.
func escVal(c int64) (int64, bool) {
	switch c {
	case '"', '\\', '/':
		return c, true
	case 'b':
		return '\b', true
	case 'f':
		return '\f', true
	case 'n':
		return '\n', true
	case 'r':
		return '\r', true
	case 't':
		return '\t', true
	}
	return 0, false
}

// tokLin is the byte of a token.
func (t Tok) lin() *Lin {
	if t.b >= 0 {
		return LC(int64(t.b))
	}
	l, _ := t.v.(*Lin)
	return l
}

func decided(st *State, a *Lin) int {
	if st.F.EntailsEq(a) {
		return 1
	}
	if st.F.EntailsNeq(a) {
		return -1
	}
	return 0
}

// escaper is the reference for escaping string s: the scan machine knows how
// far s may be copied literally, the output machine that what is written
// decodes to s up to some position and nothing in it is unsafe.
type escaper struct {
	e      *Engine
	s      StrV
	html   bool
	quoted bool
	cons   string
}

func (x *escaper) n() *Lin { return x.s.length() }

func (x *escaper) plain() Set256 {
	var p Set256
	for i := 0x20; i < 0x80; i++ {
		if i == '"' || i == '\\' || x.html && (i == '<' || i == '>' || i == '&') {
			continue
		}
		p.Add(i)
	}
	return p
}

// runeAt is what is known about the multi-byte character at p of s: its code
// and the position after it.
func (x *escaper) runeAt(st *State, p *Lin) (r, next *Lin) {
	for _, sc := range st.F.scans {
		if sc.base != x.s.B || sc.kind == "" || !st.F.EntailsEq(sc.lo.Sub(x.s.lo).Sub(p)) {
			continue
		}
		next := st.F.norm(sc.hi.Sub(x.s.lo))
		if sc.kind == "bad" {
			return LC(0xfffd), next
		}
		if v := runeTab[sc.kind]; v != nil {
			return st.F.norm(v), next
		}
	}
	return nil, nil
}

func isBad(st *State, x *escaper, p *Lin) bool {
	for _, sc := range st.F.scans {
		if sc.base == x.s.B && sc.kind == "bad" && st.F.EntailsEq(sc.lo.Sub(x.s.lo).Sub(p)) {
			return true
		}
	}
	return false
}

// scan is the scan machine: r[0] is how far s is known to be literal.
func (x *escaper) scan() *RefMon {
	return &RefMon{ctl: "scan", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon {
		p := m.r[0]
		if !st.F.Entails(x.n().Sub(p).AddC(-1)) {
			return nil
		}
		b := st.byteAt(x.s, p)
		if byteIn(st, b, x.plain()) == 1 {
			return m.to("scan", st.F.norm(p.AddC(1)))
		}
		if r, next := x.runeAt(st, p); r != nil && !isBad(st, x, p) {
			for _, c := range []int64{0xfffd, 0x2028, 0x2029} {
				if decided(st, r.AddC(-c)) != -1 {
					return nil
				}
			}
			return m.to("scan", next)
		}
		return nil
	}}
}

// past records that the output covers s up to q.
func (x *escaper) past(st *State, q *Lin) bool {
	m := st.ref(x.e)
	switch {
	case st.F.Entails(m.r[0].Sub(q)):
		return true
	case st.F.Entails(q.Sub(m.r[0])):
		st.mon = m.to("scan", q)
		return true
	}
	return false
}

// out is the output machine: r[0] is how much of s the output stands for.
func (x *escaper) out() *Out {
	start := "text"
	if x.quoted {
		start = "open"
	}
	return &Out{ctl: start, r: []*Lin{LC(0)}, step: func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
		fail := func(why string) *Out {
			if m.ctl != "bad" {
				e.Fail(st, ins, "escape", x.cons+" "+m.ctl, "%s writes %s %s (state %s)", x.cons, t, why, m.Key())
			}
			return m.to("bad", m.r[0])
		}
		q := m.r[0]
		done := func(q *Lin) *Out {
			q = st.F.norm(q)
			if !x.past(st, q) {
				return fail("where the position in the input is unknown")
			}
			return m.to("text", q)
		}
		l := t.lin()
		inRange := st.F.Entails(x.n().Sub(q).AddC(-1))
		switch m.ctl {
		case "bad":
			return m
		case "open":
			if t.b == '"' {
				return m.to("text", q)
			}
			return fail("where the opening quote belongs")
		case "text":
			switch {
			case t.b == '\\':
				if !inRange {
					return fail("after the end of the input")
				}
				return m.to("esc", q)
			case x.quoted && t.b == '"' && st.F.EntailsEq(x.n().Sub(q)):
				return m.to("closed", q)
			case l != nil:
				if inRange && st.F.EntailsEq(st.byteAt(x.s, q).Sub(l)) && st.F.Entails(st.ref(e).r[0].Sub(q).AddC(-1)) {
					return m.to("text", st.F.norm(q.AddC(1)))
				}
				return fail("which is not the next byte of the input or must be escaped")
			}
			s, ok := t.v.(StrV)
			if sl, isS := t.v.(*SliceV); isS {
				if c := e.chunkOf(st, sl); c.str != nil {
					s, ok = *c.str, true
				}
			}
			if !ok || s.B != x.s.B || !st.F.EntailsEq(s.lo.Sub(x.s.lo).Sub(q)) {
				return fail("instead of the input from where the output has got to")
			}
			hi := st.F.norm(s.hi.Sub(x.s.lo))
			if !st.F.Entails(st.ref(e).r[0].Sub(hi)) {
				return fail("which may contain bytes that must be escaped")
			}
			return m.to("text", hi)
		case "esc":
			if t.b == 'u' {
				return m.to("u0", q, LC(0))
			}
			if l == nil {
				return fail("after a backslash")
			}
			if v := finMap(st, l, escVal); v != nil && st.F.EntailsEq(st.byteAt(x.s, q).Sub(v)) {
				return done(q.AddC(1))
			}
			return fail("after a backslash, which does not stand for the next byte of the input")
		case "u0", "u1", "u2", "u3":
			if l == nil {
				return fail("as a hex digit")
			}
			h := finMap(st, l, hexVal)
			if h == nil {
				return fail("as a hex digit")
			}
			acc := st.F.norm(m.r[1].Scale(16).Add(h))
			if m.ctl != "u3" {
				return m.to("u"+string(m.ctl[1]+1), q, acc)
			}
			if r, next := x.runeAt(st, q); r != nil {
				if st.F.EntailsEq(r.Sub(acc)) {
					return done(next)
				}
				return fail("to complete a code that is not the next character of the input")
			}
			b := st.byteAt(x.s, q)
			if st.F.EntailsEq(b.Sub(acc)) && st.F.Entails(b.Neg().AddC(0x7f)) {
				return done(q.AddC(1))
			}
			return fail("to complete a code that is not the next character of the input")
		}
		return fail("after the end")
	}}
}

// finished: the output stands for all of s.
func (x *escaper) finished(st *State, ins ssa.Instruction, m *Out) {
	want := "text"
	if x.quoted {
		want = "closed"
	}
	ok := m != nil && m.ctl == want && st.F.EntailsEq(x.n().Sub(m.r[0]))
	k := "nothing"
	if m != nil {
		k = m.Key()
	}
	x.e.Check(ok || m != nil && m.ctl == "bad", st, ins, "complete", x.cons, "%s returns although the output does not stand for all of the input (%s)", x.cons, k)
}

func escSetup(c *Ctx, cons string, html, quoted bool) (*escaper, *State) {
	e := newEngine(c.P)
	e.widenDbg = os.Getenv("NJ_WIDEN") != ""
	st := newState()
	x := &escaper{e: e, cons: cons, html: html, quoted: quoted}
	x.s = symVal("s", types.Typ[types.String]).(StrV)
	st.assumeValid(x.s)
	st.mon = x.scan()
	keepVals(x.s)
	noPanic(e, cons)
	e.H.Append = outAppend
	e.H.Copy = outCopy
	return x, st
}

func init() {
	register(&Prop{
		ID:      "C15",
		Rule:    "Escaped and AppendEscaped are interpreted abstractly on an arbitrary string (and buffer), for both values of each flag, in product with a reference: a scan machine that knows how far the input is literal (plain ASCII and well-formed characters other than U+2028/9) and an output machine that decodes every piece written. Each literal piece must continue the input where the output has got to and stay within the literal part, each escape must decode to exactly the next character (ill-formed bytes to U+FFFD), and at return the output must stand for the whole input.",
		Explain: "Product of the escaping code with a reference decoder by abstract interpretation; loop invariants over input and output position are inferred.",
		Assume:  []string{"utf8.DecodeRuneInString reports an ill-formed byte as (U+FFFD, 1) and any other character with its size"},
		Run: func(c *Ctx) {
			for _, name := range []string{"Escaped", "AppendEscaped"} {
				fn := c.P.fn("strjson", name)
				if !c.Anchor(fn != nil, "strjson."+name) {
					continue
				}
				for v := 0; v < 4; v++ {
					html, quoted := v&1 != 0, v&2 != 0
					if quoted && name == "AppendEscaped" {
						continue
					}
					cons := name
					if html {
						cons += " HTML"
					}
					if quoted {
						cons += " quoted"
					}
					c.escapeRun(fn, name, cons, html, quoted)
				}
			}
		},
	})
}

func (c *Ctx) escapeRun(fn *ssa.Function, name, cons string, html, quoted bool) {
	x, st := escSetup(c, cons, html, quoted)
	e := x.e
	m := x.out()
	e.H.NewBuf = func(e *Engine, st *State, ins ssa.Instruction) *SliceV {
		return newOutBuf(m)
	}
	var args []Val
	bools := []bool{html, quoted}
	var dst *SliceV
	for _, q := range fn.Params {
		switch {
		case isStr(q.Type()):
			args = append(args, x.s)
		case isByteSlice(q.Type()):
			dst = outBuf(st, "dst", m)
			args = append(args, dst)
		default:
			args = append(args, cBool(bools[0]))
			bools = bools[1:]
		}
	}
	c.saw(fn)
	outs := e.Run(st, fn, args, nil, nil)
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		switch v := o.ret[0].(type) {
		case *SliceV:
			x.finished(o.st, o.site, outOf(v))
		case StrV:
			var r *Out
			if v.B.src != nil {
				if t, ok := v.B.src.(*TermV); ok && t.op == "string" {
					r = outOf(t.args[0])
				}
			}
			if r == nil {
				r = m
				for _, t := range toks(o.st, e.chunkOf(o.st, v)) {
					r = r.step(e, o.st, o.site, r, t)
				}
			}
			x.finished(o.st, o.site, r)
		default:
			e.Fail(o.st, o.site, "complete", cons, "%s returns %s", cons, keyOf(o.ret[0]))
		}
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	c.Merge(e)
}
