package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Set256 is a set of byte values.
type Set256 [4]uint64

func (s Set256) Has(b int) bool { return s[b>>6]&(1<<(uint(b)&63)) != 0 }
func (s *Set256) Add(b int)     { s[b>>6] |= 1 << (uint(b) & 63) }
func (s *Set256) Del(b int)     { s[b>>6] &^= 1 << (uint(b) & 63) }
func (s Set256) And(o Set256) (r Set256) {
	for i := range s {
		r[i] = s[i] & o[i]
	}
	return
}
func (s Set256) Or(o Set256) (r Set256) {
	for i := range s {
		r[i] = s[i] | o[i]
	}
	return
}
func (s Set256) Minus(o Set256) (r Set256) {
	for i := range s {
		r[i] = s[i] &^ o[i]
	}
	return
}
func (s Set256) Empty() bool         { return s == Set256{} }
func (s Set256) SubOf(o Set256) bool { return s.Minus(o).Empty() }
func (s Set256) Single() (int, bool) {
	n, v := 0, 0
	for i := 0; i < 256; i++ {
		if s.Has(i) {
			n++
			v = i
			if n > 1 {
				return 0, false
			}
		}
	}
	return v, n == 1
}
func fullSet() (s Set256) { return Set256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }
func setOf(bs ...byte) (s Set256) {
	for _, b := range bs {
		s.Add(int(b))
	}
	return
}
func setStr(str string) (s Set256) { return setOf([]byte(str)...) }
func setRange(lo, hi int) (s Set256) {
	for i := lo; i <= hi; i++ {
		s.Add(i)
	}
	return
}
func (s Set256) String() string {
	if s == fullSet() {
		return "any"
	}
	var sb strings.Builder
	for i := 0; i < 256; i++ {
		if s.Has(i) {
			j := i
			for j < 255 && s.Has(j+1) {
				j++
			}
			if j > i+1 {
				fmt.Fprintf(&sb, "%s-%s", bstr(i), bstr(j))
			} else if j == i+1 {
				fmt.Fprintf(&sb, "%s%s", bstr(i), bstr(j))
			} else {
				sb.WriteString(bstr(i))
			}
			i = j
		}
	}
	return "{" + sb.String() + "}"
}
func bstr(i int) string {
	if i > 32 && i < 127 {
		return string(rune(i))
	}
	return fmt.Sprintf("\\x%02x", i)
}

// Sym is an integer symbol. A finite symbol is a byte-valued base (fin) or a
// function (vec) of a finite base.
type Sym struct {
	id     int
	name   string
	lo, hi *big.Int
	fin    bool
	base   *Sym        // finite function: value = vec[base]
	vec    *[256]int64 //
}

func (s *Sym) String() string { return s.name }

var symN int
var allSyms []*Sym

func newSym(name string, lo, hi *big.Int) *Sym {
	symN++
	s := &Sym{id: symN, name: fmt.Sprintf("%s#%d", name, symN), lo: lo, hi: hi}
	return s
}
func newByteSym(name string) *Sym {
	s := newSym(name, big.NewInt(0), big.NewInt(255))
	s.fin = true
	return s
}

type finKey struct {
	base *Sym
	vec  [256]int64
}

var finTab = map[finKey]*Sym{}
var identVec = func() (v [256]int64) {
	for i := range v {
		v[i] = int64(i)
	}
	return
}()

func finSym(base *Sym, vec [256]int64) *Sym {
	if vec == identVec {
		return base
	}
	k := finKey{base, vec}
	if s := finTab[k]; s != nil {
		return s
	}
	lo, hi := vec[0], vec[0]
	for _, x := range vec {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	symN++
	s := &Sym{id: symN, name: fmt.Sprintf("f%d(%s)", symN, base.name), lo: big.NewInt(lo), hi: big.NewInt(hi), base: base, vec: &vec}
	finTab[k] = s
	return s
}
func (s *Sym) finite() bool { return s.fin || s.base != nil }
func (s *Sym) finBase() *Sym {
	if s.fin {
		return s
	}
	return s.base
}
func (s *Sym) finVec() *[256]int64 {
	if s.fin {
		return &identVec
	}
	return s.vec
}

type term struct {
	s *Sym
	k int64
}

// Lin is an integer linear expression c + Σ k·s.
type Lin struct {
	c *big.Int
	t []term // sorted by sym id
	k string // cached key
}

func bi(i int64) *big.Int { return big.NewInt(i) }

func LC(i int64) *Lin        { return &Lin{c: big.NewInt(i)} }
func LB(b *big.Int) *Lin     { return &Lin{c: b} }
func LS(s *Sym) *Lin         { return &Lin{c: bi(0), t: []term{{s, 1}}} }
func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) constInt() (int64, bool) {
	if len(l.t) == 0 && l.c.IsInt64() {
		return l.c.Int64(), true
	}
	return 0, false
}

func (l *Lin) Key() string {
	if l.k == "" {
		var sb strings.Builder
		for i, t := range l.t {
			if i > 0 || t.k < 0 {
				if t.k < 0 {
					sb.WriteByte('-')
				} else {
					sb.WriteByte('+')
				}
			}
			a := t.k
			if a < 0 {
				a = -a
			}
			if a != 1 {
				fmt.Fprintf(&sb, "%d*", a)
			}
			sb.WriteString(t.s.name)
		}
		if l.c.Sign() != 0 || len(l.t) == 0 {
			if l.c.Sign() > 0 && len(l.t) > 0 {
				sb.WriteByte('+')
			}
			sb.WriteString(l.c.String())
		}
		l.k = sb.String()
	}
	return l.k
}
func (l *Lin) String() string { return l.Key() }

// addScaled returns a + k*b.
func addScaled(a *Lin, k int64, b *Lin) *Lin {
	if k == 0 {
		return a
	}
	c := new(big.Int).Mul(b.c, bi(k))
	c.Add(c, a.c)
	if len(b.t) == 0 {
		return &Lin{c: c, t: a.t}
	}
	out := make([]term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s.id < b.t[j].s.id:
			out = append(out, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s.id < a.t[i].s.id:
			out = append(out, term{b.t[j].s, b.t[j].k * k})
			j++
		default:
			if n := a.t[i].k + b.t[j].k*k; n != 0 {
				out = append(out, term{a.t[i].s, n})
			}
			i++
			j++
		}
	}
	r := &Lin{c: c, t: out}
	return r.combineFinite()
}

// combineFinite merges terms over the same finite base into one function.
func (l *Lin) combineFinite() *Lin {
	n := 0
	for _, t := range l.t {
		if t.s.finite() {
			n++
		}
	}
	if n < 2 {
		return l
	}
	cnt := map[*Sym]int{}
	for _, t := range l.t {
		if t.s.finite() {
			cnt[t.s.finBase()]++
		}
	}
	dup := false
	for _, c := range cnt {
		if c > 1 {
			dup = true
		}
	}
	if !dup {
		return l
	}
	vecs := map[*Sym]*[256]int64{}
	var out []term
	var order []*Sym
	for _, t := range l.t {
		if t.s.finite() && cnt[t.s.finBase()] > 1 {
			b := t.s.finBase()
			v := vecs[b]
			if v == nil {
				v = new([256]int64)
				vecs[b] = v
				order = append(order, b)
			}
			tv := t.s.finVec()
			for i := range v {
				v[i] += t.k * tv[i]
			}
		} else {
			out = append(out, t)
		}
	}
	c := new(big.Int).Set(l.c)
	for _, b := range order {
		v := vecs[b]
		same := true
		for i := range v {
			if v[i] != v[0] {
				same = false
			}
		}
		if same {
			c.Add(c, bi(v[0]))
			continue
		}
		out = append(out, term{finSym(b, *v), 1})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].s.id < out[j].s.id })
	return &Lin{c: c, t: out}
}

func (l *Lin) Add(o *Lin) *Lin      { return addScaled(l, 1, o) }
func (l *Lin) Sub(o *Lin) *Lin      { return addScaled(l, -1, o) }
func (l *Lin) AddC(i int64) *Lin    { return addScaled(l, 1, LC(i)) }
func (l *Lin) Neg() *Lin            { return addScaled(LC(0), -1, l) }
func (l *Lin) Scale(k int64) *Lin   { return addScaled(LC(0), k, l) }
func (l *Lin) AddB(b *big.Int) *Lin { return addScaled(l, 1, LB(b)) }
func (l *Lin) coef(s *Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}
func (l *Lin) subst(s *Sym, r *Lin) *Lin {
	k := l.coef(s)
	if k == 0 {
		return l
	}
	out := make([]term, 0, len(l.t)-1)
	for _, t := range l.t {
		if t.s != s {
			out = append(out, t)
		}
	}
	return addScaled(&Lin{c: l.c, t: out}, k, r)
}

// substAll applies a simultaneous substitution.
func (l *Lin) substAll(m map[*Sym]*Lin) *Lin {
	hit := false
	for _, t := range l.t {
		if _, ok := m[t.s]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	r := LB(l.c)
	for _, t := range l.t {
		if e, ok := m[t.s]; ok {
			r = addScaled(r, t.k, e)
		} else {
			r = addScaled(r, t.k, LS(t.s))
		}
	}
	return r
}

// asFin returns the expression as a function of a single finite base.
func (l *Lin) asFin() (*Sym, *[256]int64, bool) {
	if len(l.t) != 1 || !l.t[0].s.finite() || !l.c.IsInt64() {
		return nil, nil, false
	}
	t := l.t[0]
	var v [256]int64
	tv := t.s.finVec()
	c := l.c.Int64()
	for i := range v {
		v[i] = t.k*tv[i] + c
	}
	return t.s.finBase(), &v, true
}

func linOfFin(base *Sym, vec [256]int64) *Lin {
	same := true
	for i := range vec {
		if vec[i] != vec[0] {
			same = false
			break
		}
	}
	if same {
		return LC(vec[0])
	}
	// pull out constant offset only if it is the identity
	return LS(finSym(base, vec))
}
