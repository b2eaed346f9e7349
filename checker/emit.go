package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tok is one piece appended to an output buffer: a known byte or opaque data.
type Tok struct {
	b int // 0..255; -1: opaque
	v Val
}

func (t Tok) String() string {
	if t.b >= 0 {
		return fmt.Sprintf("%q", rune(t.b))
	}
	return keyOf(t.v)
}

// Out is the abstraction of what was appended to an output buffer: the control
// state of a grammar machine and its registers.
type Out struct {
	ctl   string
	r     []*Lin
	step  func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out
	empty *Out // the machine of the buffer cut to nothing; nil: losing it is fatal
}

func (m *Out) Skel() string { return "out:" + m.ctl }
func (m *Out) Key() string {
	var b strings.Builder
	b.WriteString("out:" + m.ctl)
	for _, l := range m.r {
		b.WriteString(" " + l.Key())
	}
	return b.String()
}
func (m *Out) Ints() []*Lin                  { return m.r }
func (m *Out) WithInts(r []*Lin) Emit        { return &Out{m.ctl, r, m.step, m.empty} }
func (m *Out) to(ctl string, r ...*Lin) *Out { return &Out{ctl, r, m.step, m.empty} }
func (m *Out) Reslice(e *Engine, st *State, ins ssa.Instruction, lo, hi *Lin) Emit {
	if m.empty != nil && st.F.EntailsEq(lo) && st.F.EntailsEq(hi) {
		return m.empty
	}
	return nil
}

// outBuf is a symbolic output buffer with arbitrary previous contents.
func outBuf(st *State, name string, m *Out) *SliceV {
	v := symVal(name, types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
	st.assumeValid(v)
	v.emit = m
	return v
}

// newOutBuf is a new, empty output buffer.
func newOutBuf(m *Out) *SliceV {
	o := newObj("buf", types.Typ[types.Uint8])
	o.region, o.fresh = true, true
	return &SliceV{o: o, off: LC(0), n: LC(0), cap: LC(0), emit: m}
}

// outCopy is the Copy hook of output buffers: a slice all of which is a copy
// of a buffer has the buffer's contents.
func outCopy(e *Engine, st *State, ins ssa.Instruction, dst *SliceV, src Val, n *Lin) {
	s, ok := src.(*SliceV)
	m := outOf(src)
	if !ok || m == nil || dst.o == nil || !dst.o.fresh || !st.F.EntailsEq(dst.off) || !st.F.EntailsEq(n.Sub(s.n)) {
		return
	}
	f := st.top()
	for r, v := range f.regs {
		if b, ok := v.(*SliceV); ok && b.o == dst.o && st.F.EntailsEq(b.off) && st.F.EntailsEq(b.n.Sub(n)) {
			c := *b
			c.emit = m
			f.regs[r] = &c
		}
	}
}

func outOf(v Val) *Out {
	s, ok := v.(*SliceV)
	if !ok || s.emit == nil {
		return nil
	}
	m, _ := s.emit.(*Out)
	return m
}

// toks splits a chunk into known bytes and opaque pieces.
func toks(st *State, ch Chunk) []Tok {
	one := func(l *Lin) Tok {
		l = st.F.norm(l)
		if c, ok := l.constInt(); ok {
			return Tok{b: int(c & 255)}
		}
		return Tok{b: -1, v: l}
	}
	switch {
	case len(ch.bytes) > 0:
		var out []Tok
		for _, b := range ch.bytes {
			out = append(out, one(b))
		}
		return out
	case ch.str != nil:
		if s, ok := st.F.normVal(*ch.str).(StrV).lit(); ok {
			var out []Tok
			for i := 0; i < len(s); i++ {
				out = append(out, Tok{b: int(s[i])})
			}
			return out
		}
		return []Tok{{b: -1, v: *ch.str}}
	case ch.sl != nil:
		return []Tok{{b: -1, v: ch.sl}}
	case ch.val != nil:
		return []Tok{{b: -1, v: ch.val}}
	}
	return nil
}

// outAppend is the Append hook of buffers that carry a grammar machine.
func outAppend(e *Engine, st *State, ins ssa.Instruction, dst *SliceV, ch Chunk) ([]appRes, bool) {
	m := outOf(dst)
	if m == nil {
		return nil, false
	}
	if ch.k != nil {
		if c, ok := st.F.norm(ch.k).constInt(); ok && c == 0 {
			return []appRes{{st, dst}}, true
		}
	}
	for _, t := range toks(st, ch) {
		m = m.step(e, st, ins, m, t)
	}
	return []appRes{{st, dst.grown(st, m, ch.k)}}, true
}

// grown is the buffer after an append. What it holds is m's business only; the
// cells are those of the buffer before.
func (s *SliceV) grown(st *State, m *Out, k *Lin) *SliceV {
	o := s.o
	if o == nil || s.isNil {
		o = newObj("outbuf", types.Typ[types.Uint8])
		o.region = true
	}
	havocN++
	ln := newLenSym(fmt.Sprintf("len(out%d)", havocN))
	n := LS(ln) // how long it is by now does not matter
	if k != nil {
		st.F.AssumeGe(n.Sub(k))
	}
	cp := newSym("cap(out)", bi(0), maxLen)
	st.F.AssumeGe(LS(cp).Sub(n))
	return &SliceV{o: o, off: s.off, n: n, cap: LS(cp), emit: m}
}

// someErr is an unknown error that is not nil.
func someErr(st *State, name string) *IfaceV {
	havocN++
	v := symVal(fmt.Sprintf("%s%d", name, havocN), types.Universe.Lookup("error").Type()).(*IfaceV)
	st.F.atoms["nil:"+v.key] = false
	return v
}

// errNil decides an error result: 1 nil, -1 not nil, 0 open.
func errNil(st *State, v Val) int {
	isNil, known := st.isNilKnown(v)
	switch {
	case !known:
		return 0
	case isNil:
		return 1
	}
	return -1
}
