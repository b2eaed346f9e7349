package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Scan is the fact that every byte of base in [lo,hi) is in set.
type Scan struct {
	base   *StrBase
	lo, hi *Lin
	set    Set256
	kind   string // "" bytes; otherwise a named span fact (e.g. a decoded rune)
}

// ByteAt names the byte of a string base at an index.
type ByteAt struct {
	base *StrBase
	idx  *Lin
	sym  *Sym
}

// Facts is the conjunction of what is known on a path.
type Facts struct {
	lin   []*Lin
	sub   map[*Sym]*Lin
	set   map[*Sym]Set256
	atoms map[string]bool
	neq   []*Lin
	scans []Scan
	bytes []ByteAt
	dead  bool

	models []*model
	mver   factsVer
	mdone  bool
	ver    int
}

func newFacts() *Facts {
	return &Facts{sub: map[*Sym]*Lin{}, set: map[*Sym]Set256{}, atoms: map[string]bool{}}
}
func (f *Facts) clone() *Facts {
	g := &Facts{
		lin:    append([]*Lin(nil), f.lin...),
		sub:    make(map[*Sym]*Lin, len(f.sub)),
		set:    make(map[*Sym]Set256, len(f.set)),
		atoms:  make(map[string]bool, len(f.atoms)),
		neq:    append([]*Lin(nil), f.neq...),
		scans:  append([]Scan(nil), f.scans...),
		bytes:  append([]ByteAt(nil), f.bytes...),
		dead:   f.dead,
		models: f.models[:len(f.models):len(f.models)], mver: f.mver, mdone: f.mdone, ver: f.ver,
	}
	for k, v := range f.sub {
		g.sub[k] = v
	}
	for k, v := range f.set {
		g.set[k] = v
	}
	for k, v := range f.atoms {
		g.atoms[k] = v
	}
	return g
}

// setOf returns the set of a finite base.
func (f *Facts) setOf(b *Sym) Set256 {
	if s, ok := f.set[b]; ok {
		return s
	}
	return fullSet()
}

// norm applies known equalities.
func (f *Facts) norm(l *Lin) *Lin {
	for iter := 0; iter < 20; iter++ {
		changed := false
		for _, t := range l.t {
			if r, ok := f.sub[t.s]; ok {
				l = l.subst(t.s, r)
				changed = true
				break
			}
			if t.s.finite() {
				st := f.setOf(t.s.finBase())
				v := t.s.finVec()
				var val int64
				first, same := true, true
				for i := 0; i < 256; i++ {
					if st.Has(i) {
						if first {
							val, first = v[i], false
						} else if v[i] != val {
							same = false
							break
						}
					}
				}
				if !first && same {
					l = l.subst(t.s, LC(val))
					changed = true
					break
				}
				if t.s.base != nil && !first {
					if k, c, ok := affine(st, v); ok {
						l = l.subst(t.s, LS(t.s.base).Scale(k).AddC(c))
						changed = true
						break
					}
				}
			}
		}
		if !changed {
			return l
		}
	}
	return l
}

func (f *Facts) symBounds(s *Sym) (lo, hi *big.Int) {
	if s.finite() {
		st := f.setOf(s.finBase())
		v := s.finVec()
		first := true
		var a, b int64
		for i := 0; i < 256; i++ {
			if st.Has(i) {
				if first {
					a, b, first = v[i], v[i], false
				} else {
					if v[i] < a {
						a = v[i]
					}
					if v[i] > b {
						b = v[i]
					}
				}
			}
		}
		if first {
			return s.lo, s.hi
		}
		return bi(a), bi(b)
	}
	return s.lo, s.hi
}

// bounds computes interval bounds from intrinsic symbol ranges only.
func (f *Facts) bounds(l *Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, t := range l.t {
		a, b := f.symBounds(t.s)
		if t.k < 0 {
			a, b = b, a
		}
		if lo != nil {
			if a == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(a, bi(t.k)))
			}
		}
		if hi != nil {
			if b == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(b, bi(t.k)))
			}
		}
	}
	return
}

var fmCalls, fmCapped int

// Entails reports whether l >= 0 follows from the facts.
func (f *Facts) Entails(l *Lin) bool {
	if f.dead {
		return true
	}
	l = f.norm(l)
	if l.isConst() {
		return l.c.Sign() >= 0
	}
	if _, v, ok := l.asFin(); ok {
		st := f.setOf(l.t[0].s.finBase())
		for i := 0; i < 256; i++ {
			if st.Has(i) && v[i] < 0 {
				return false
			}
		}
		return true
	}
	lo, hi := f.bounds(l)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	_ = hi
	if f.refuted(l) {
		return false
	}
	return f.infeasibleWith(addScaled(LC(-1), -1, l))
}

// EntailsEq reports whether l == 0 follows.
func (f *Facts) EntailsEq(l *Lin) bool {
	if f.dead {
		return true
	}
	l = f.norm(l)
	if l.isConst() {
		return l.c.Sign() == 0
	}
	return f.Entails(l) && f.Entails(l.Neg())
}
func (f *Facts) EntailsNeq(l *Lin) bool {
	l = f.norm(l)
	if l.isConst() {
		return l.c.Sign() != 0
	}
	if b, v, ok := l.asFin(); ok {
		st := f.setOf(b)
		for i := 0; i < 256; i++ {
			if st.Has(i) && v[i] == 0 {
				return false
			}
		}
		return true
	}
	k, nk := l.Key(), l.Neg().Key()
	for _, n := range f.neq {
		n = f.norm(n)
		if n.Key() == k || n.Key() == nk {
			return true
		}
	}
	return f.Entails(l.AddC(-1)) || f.Entails(l.Neg().AddC(-1))
}

// infeasibleWith decides by Fourier–Motzkin elimination whether facts ∧ g≥0 is
// unsatisfiable (sound: true only if it is).
func (f *Facts) infeasibleWith(g *Lin) bool {
	fmCalls++
	cons := []*Lin{g}
	seen := map[*Sym]bool{}
	inSet := map[string]bool{g.Key(): true}
	var todo []*Sym
	addSyms := func(l *Lin) {
		for _, t := range l.t {
			if !seen[t.s] {
				seen[t.s] = true
				todo = append(todo, t.s)
			}
		}
	}
	addSyms(g)
	var pool []*Lin
	for _, l := range f.lin {
		pool = append(pool, f.norm(l))
	}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		lo, hi := f.symBounds(s)
		if lo != nil {
			cons = append(cons, LS(s).AddB(new(big.Int).Neg(lo)))
		}
		if hi != nil {
			cons = append(cons, addScaled(LB(hi), -1, LS(s)))
		}
		for _, l := range pool {
			if l.coef(s) != 0 && !inSet[l.Key()] {
				inSet[l.Key()] = true
				cons = append(cons, l)
				addSyms(l)
			}
		}
		if len(cons) > 90 {
			break
		}
	}
	return fmInfeasible(cons)
}

func tighten(l *Lin) *Lin {
	var g int64
	for _, t := range l.t {
		a := t.k
		if a < 0 {
			a = -a
		}
		for a != 0 {
			g, a = a, g%a
		}
	}
	if g <= 1 {
		return l
	}
	out := make([]term, len(l.t))
	for i, t := range l.t {
		out[i] = term{t.s, t.k / g}
	}
	c := new(big.Int)
	c.Div(l.c, bi(g)) // Euclidean: floor for positive divisor
	return &Lin{c: c, t: out}
}

// octInfeasible decides constraints over at most two symbols with coefficients
// +-1 by looking for a negative cycle; when there are others it can still find
// that the rest contradicts itself.
func octInfeasible(cons []*Lin) (decided, infeasible bool) {
	type edge struct {
		from, to int
		w        int64
	}
	ids := map[*Sym]int{}
	node := func(t term, neg bool) int {
		i, ok := ids[t.s]
		if !ok {
			i = len(ids)
			ids[t.s] = i
		}
		if (t.k < 0) != neg {
			return 2*i + 1
		}
		return 2 * i
	}
	all := true
	edges := make([]edge, 0, 2*len(cons))
	for _, l := range cons {
		if len(l.t) == 0 {
			if l.c.Sign() < 0 {
				return true, true
			}
			continue
		}
		ok := len(l.t) <= 2 && l.c.IsInt64()
		for _, t := range l.t {
			ok = ok && (t.k == 1 || t.k == -1)
		}
		var c int64
		if ok {
			c = l.c.Int64()
			if c > 1<<58 || c < -(1<<58) {
				ok = false
			}
		}
		if !ok {
			all = false
			continue
		}
		// u + v + c >= 0
		if len(l.t) == 1 {
			edges = append(edges, edge{node(l.t[0], false), node(l.t[0], true), 2 * c})
			continue
		}
		u, v := l.t[0], l.t[1]
		edges = append(edges, edge{node(v, false), node(u, true), c}, edge{node(u, false), node(v, true), c})
	}
	const limit = int64(1) << 62
	dist := make([]int64, 2*len(ids))
	for round := 0; ; round++ {
		changed := false
		for _, e := range edges {
			if d := dist[e.from] + e.w; d < dist[e.to] {
				if d < -limit {
					return false, false
				}
				dist[e.to] = d
				changed = true
			}
		}
		if !changed {
			return all, false
		}
		if round > len(dist) {
			return true, true
		}
	}
}

func fmInfeasible(cons []*Lin) bool {
	if decided, inf := octInfeasible(cons); decided {
		return inf
	}
	// dedupe by variable part keeping the strongest constant
	reduce := func(in []*Lin) ([]*Lin, bool) {
		m := map[string]*Lin{}
		var order []string
		for _, l := range in {
			l = tighten(l)
			if l.isConst() {
				if l.c.Sign() < 0 {
					return nil, true
				}
				continue
			}
			k := (&Lin{c: bi(0), t: l.t}).Key()
			if o := m[k]; o == nil {
				m[k] = l
				order = append(order, k)
			} else if l.c.Cmp(o.c) < 0 {
				m[k] = l
			}
		}
		out := make([]*Lin, len(order))
		for i, k := range order {
			out[i] = m[k]
		}
		return out, false
	}
	cons, bad := reduce(cons)
	if bad {
		return true
	}
	for {
		type pn struct{ p, n int }
		cnt := map[*Sym]*pn{}
		for _, l := range cons {
			for _, t := range l.t {
				c := cnt[t.s]
				if c == nil {
					c = &pn{}
					cnt[t.s] = c
				}
				if t.k > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var best *Sym
		bestCost := 0
		for s, c := range cnt {
			cost := c.p*c.n - c.p - c.n
			if best == nil || cost < bestCost || cost == bestCost && s.id < best.id {
				best, bestCost = s, cost
			}
		}
		var pos, neg, rest []*Lin
		for _, l := range cons {
			switch k := l.coef(best); {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				kp, kn := p.coef(best), -n.coef(best)
				r := addScaled(p.Scale(kn), kp, n)
				rest = append(rest, r)
			}
		}
		if len(rest) > 4000 {
			fmCapped++
			return false
		}
		cons, bad = reduce(rest)
		if bad {
			return true
		}
	}
}

// AssumeGe adds l >= 0; false if that is contradictory.
func (f *Facts) AssumeGe(l *Lin) bool {
	if f.dead {
		return false
	}
	l = f.norm(l)
	if l.isConst() {
		if l.c.Sign() < 0 {
			f.dead = true
		}
		return !f.dead
	}
	if b, v, ok := l.asFin(); ok {
		st := f.setOf(b)
		for i := 0; i < 256; i++ {
			if v[i] < 0 {
				st.Del(i)
			}
		}
		return f.setSet(b, st)
	}
	if f.Entails(l) {
		return true
	}
	if f.Entails(addScaled(LC(-1), -1, l)) {
		f.dead = true
		return false
	}
	// l >= 0 and l != 0 known => l >= 1
	for _, n := range f.neq {
		n = f.norm(n)
		if n.Key() == l.Key() || n.Neg().Key() == l.Key() {
			l = l.AddC(-1)
			break
		}
	}
	f.ver++
	f.lin = append(f.lin, l)
	// a pair l>=0 and -l>=0 is an equality
	if f.Entails(l.Neg()) {
		return f.AssumeEq(l)
	}
	return true
}

func (f *Facts) setSet(b *Sym, st Set256) bool {
	if st.Empty() {
		f.dead = true
		return false
	}
	f.ver++
	f.set[b] = st
	return true
}

// AssumeEq adds l == 0.
func (f *Facts) AssumeEq(l *Lin) bool {
	if f.dead {
		return false
	}
	l = f.norm(l)
	if l.isConst() {
		if l.c.Sign() != 0 {
			f.dead = true
		}
		return !f.dead
	}
	if b, v, ok := l.asFin(); ok {
		st := f.setOf(b)
		for i := 0; i < 256; i++ {
			if v[i] != 0 {
				st.Del(i)
			}
		}
		return f.setSet(b, st)
	}
	if f.EntailsNeq(l) {
		f.dead = true
		return false
	}
	// eliminate the newest non-finite symbol with a unit coefficient
	var best *Sym
	var bk int64
	for _, t := range l.t {
		if !t.s.finite() && (t.k == 1 || t.k == -1) && (best == nil || t.s.id > best.id) {
			best, bk = t.s, t.k
		}
	}
	if best == nil {
		// two finite bases, or non-unit: keep as inequalities
		f.ver++
		f.lin = append(f.lin, l, l.Neg())
		return true
	}
	// best*bk + rest == 0  =>  best = -rest/bk
	rest := l.subst(best, LC(0))
	var e *Lin
	if bk == 1 {
		e = rest.Neg()
	} else {
		e = rest
	}
	if best.lo != nil && !f.AssumeGe(e.AddB(new(big.Int).Neg(best.lo))) {
		return false
	}
	if best.hi != nil && !f.AssumeGe(addScaled(LB(best.hi), -1, e)) {
		return false
	}
	e = f.norm(e)
	if e.coef(best) != 0 {
		return true
	}
	f.ver++
	f.sub[best] = e
	old := f.lin
	f.lin = nil
	for _, o := range old {
		n := f.norm(o)
		if n.isConst() {
			if n.c.Sign() < 0 {
				f.dead = true
				return false
			}
			continue
		}
		f.lin = append(f.lin, n)
	}
	for _, n := range f.neq {
		if x := f.norm(n); x.isConst() && x.c.Sign() == 0 {
			f.dead = true
			return false
		}
	}
	return true
}

// AssumeNe adds l != 0.
func (f *Facts) AssumeNe(l *Lin) bool {
	if f.dead {
		return false
	}
	l = f.norm(l)
	if l.isConst() {
		if l.c.Sign() == 0 {
			f.dead = true
		}
		return !f.dead
	}
	if b, v, ok := l.asFin(); ok {
		st := f.setOf(b)
		for i := 0; i < 256; i++ {
			if v[i] == 0 {
				st.Del(i)
			}
		}
		return f.setSet(b, st)
	}
	if f.EntailsEq(l) {
		f.dead = true
		return false
	}
	if f.Entails(l) {
		return f.AssumeGe(l.AddC(-1))
	}
	if f.Entails(l.Neg()) {
		return f.AssumeGe(l.Neg().AddC(-1))
	}
	f.ver++
	f.neq = append(f.neq, l)
	return true
}

// Feasible re-checks the whole conjunction (used before reporting).
func (f *Facts) Feasible() bool {
	if f.dead {
		return false
	}
	if len(f.neq) == 0 && len(f.modelsNow()) > 0 {
		return true
	}
	var cons []*Lin
	seen := map[*Sym]bool{}
	for _, l := range f.lin {
		n := f.norm(l)
		cons = append(cons, n)
		for _, t := range n.t {
			if !seen[t.s] {
				seen[t.s] = true
				lo, hi := f.symBounds(t.s)
				if lo != nil {
					cons = append(cons, LS(t.s).AddB(new(big.Int).Neg(lo)))
				}
				if hi != nil {
					cons = append(cons, addScaled(LB(hi), -1, LS(t.s)))
				}
			}
		}
	}
	if fmInfeasible(cons) {
		return false
	}
	for _, n := range f.neq {
		if f.EntailsEq(n) {
			return false
		}
	}
	return true
}

func (f *Facts) String() string {
	var ss []string
	for _, l := range f.lin {
		ss = append(ss, f.norm(l).Key()+">=0")
	}
	for s, l := range f.sub {
		ss = append(ss, s.name+"="+l.Key())
	}
	for s, x := range f.set {
		ss = append(ss, s.name+"∈"+x.String())
	}
	for a, v := range f.atoms {
		ss = append(ss, fmt.Sprintf("%s=%v", a, v))
	}
	for _, n := range f.neq {
		ss = append(ss, n.Key()+"≠0")
	}
	for _, s := range f.scans {
		ss = append(ss, fmt.Sprintf("%s[%s:%s)∈%s%s", s.base.name, f.norm(s.lo), f.norm(s.hi), s.set, s.kind))
	}
	sort.Strings(ss)
	return strings.Join(ss, " ∧ ")
}

// affine reports that v is k*x+c on a set of at least two values.
func affine(st Set256, v *[256]int64) (k, c int64, ok bool) {
	x0, x1 := -1, -1
	for i := 0; i < 256; i++ {
		if !st.Has(i) {
			continue
		}
		switch {
		case x0 < 0:
			x0 = i
		case x1 < 0:
			x1 = i
			d := int64(x1 - x0)
			if (v[x1]-v[x0])%d != 0 {
				return 0, 0, false
			}
			k = (v[x1] - v[x0]) / d
			c = v[x0] - k*int64(x0)
		default:
			if v[i] != k*int64(i)+c {
				return 0, 0, false
			}
		}
	}
	return k, c, x1 >= 0
}
