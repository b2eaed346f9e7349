package main

import (
	"strings"
)

// RefMon runs a reference machine alongside the interpreted code: a discrete
// control state and linear registers. step advances it as far as the facts of
// the state decide its guards; it never guesses, so at a return the machine is
// where every concrete run of the reference on the same input would be.
type RefMon struct {
	ctl  string
	r    []*Lin
	step func(e *Engine, st *State, m *RefMon) *RefMon // nil: stuck
}

func (m *RefMon) Skel() string { return m.ctl }
func (m *RefMon) Key() string {
	var b strings.Builder
	b.WriteString(m.ctl)
	for _, l := range m.r {
		b.WriteString(" " + l.Key())
	}
	return b.String()
}
func (m *RefMon) Ints() []*Lin { return m.r }
func (m *RefMon) WithInts(r []*Lin) Mon {
	return &RefMon{m.ctl, r, m.step}
}
func (m *RefMon) Sync(e *Engine, st *State) {
	cur := m
	for i := 0; i < 64; i++ {
		n := cur.step(e, st, cur)
		if n == nil {
			break
		}
		cur = n
	}
	st.mon = cur
}
func (m *RefMon) to(ctl string, r ...*Lin) *RefMon { return &RefMon{ctl, r, m.step} }

// ref is the machine of a state after advancing it.
func (st *State) ref(e *Engine) *RefMon {
	st.mon.Sync(e, st)
	return st.mon.(*RefMon)
}

// known decides string equality from the facts: 1 equal, -1 different, 0 open.
func (e *Engine) strEq(st *State, a, b StrV) int {
	if st.F.EntailsNeq(a.length().Sub(b.length())) {
		return -1
	}
	if e.sameVal(st, a, b) {
		return 1
	}
	c := e.compare(st, tokEQL, a, b, strT, strT)
	if v, ok := st.knownCond(c); ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// byteCmp decides whether byte b lies in set: 1 yes, -1 no, 0 open.
func byteIn(st *State, b *Lin, set Set256) int {
	b = st.F.norm(b)
	if c, ok := b.constInt(); ok {
		if set.Has(int(c & 255)) {
			return 1
		}
		return -1
	}
	if s, v, ok := b.asFin(); ok {
		in, out := false, false
		cur := st.F.setOf(s)
		for j := 0; j < 256; j++ {
			if cur.Has(j) {
				if v[j] >= 0 && v[j] < 256 && set.Has(int(v[j])) {
					in = true
				} else {
					out = true
				}
			}
		}
		switch {
		case in && !out:
			return 1
		case out && !in:
			return -1
		}
	}
	return 0
}

// sign decides l >= 0: 1, l < 0: -1, open: 0.
func sign(st *State, l *Lin) int {
	if st.F.Entails(l) {
		return 1
	}
	if st.F.Entails(l.Neg().AddC(-1)) {
		return -1
	}
	return 0
}
