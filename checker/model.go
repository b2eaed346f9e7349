package main

import "math/big"

// A model is a concrete assignment used only to refute entailments quickly:
// if a model of the facts makes l negative, l >= 0 does not follow.
type model struct {
	v    map[*Sym]int64
	seed uint64
}

func (m *model) rnd(s *Sym) uint64 {
	x := m.seed*0x9E3779B97F4A7C15 + uint64(s.id)*0xBF58476D1CE4E5B9
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	x ^= x >> 32
	return x
}

var bigSmall = bi(1 << 40)
var bigNegSmall = bi(-(1 << 40))

func (m *model) get(f *Facts, s *Sym) (int64, bool) {
	if s.finite() {
		b := s.finBase()
		st := f.setOf(b)
		x, ok := m.v[b]
		if !ok {
			n := 0
			for i := 0; i < 256; i++ {
				if st.Has(i) {
					n++
				}
			}
			if n == 0 {
				return 0, false
			}
			k := int(m.rnd(b) % uint64(n))
			for i := 0; i < 256; i++ {
				if st.Has(i) {
					if k == 0 {
						x = int64(i)
						break
					}
					k--
				}
			}
			m.v[b] = x
		}
		if x < 0 || x > 255 || !st.Has(int(x)) {
			return 0, false
		}
		return s.finVec()[x], true
	}
	x, ok := m.v[s]
	if !ok {
		lo, hi := int64(-50), int64(2000)
		if s.lo != nil && s.lo.Cmp(bigNegSmall) > 0 && s.lo.IsInt64() {
			lo = s.lo.Int64()
			hi = lo + 2000
		}
		if s.hi != nil && s.hi.IsInt64() && s.hi.Int64() < hi {
			hi = s.hi.Int64()
			if lo > hi {
				lo = hi
			}
		}
		x = lo + int64(m.rnd(s)%uint64(hi-lo+1))
		m.v[s] = x
	}
	return x, true
}

// eval gives the sign-carrying value of l in the model.
func (m *model) eval(f *Facts, l *Lin) (int64, bool) {
	var sum int64
	for _, t := range l.t {
		x, ok := m.get(f, t.s)
		if !ok {
			return 0, false
		}
		if t.k > 1<<20 || t.k < -(1<<20) || x > 1<<40 || x < -(1<<40) {
			return 0, false
		}
		sum += t.k * x
	}
	if l.c.IsInt64() {
		c := l.c.Int64()
		if c > 1<<61 {
			return 1 << 61, sum > -(1 << 60)
		}
		if c < -(1 << 61) {
			return -(1 << 61), sum < 1<<60
		}
		return sum + c, true
	}
	if l.c.Sign() > 0 {
		return 1 << 61, true
	}
	return -(1 << 61), true
}

func (m *model) sat(f *Facts, ls []*Lin) bool {
	for _, l := range ls {
		if x, ok := m.eval(f, l); !ok || x < 0 {
			return false
		}
	}
	return true
}

// repair moves a model towards satisfying the facts.
func (m *model) repair(f *Facts, ls, neq []*Lin) bool {
	rng := m.seed
	next := func(n int) int {
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		return int(rng % uint64(n))
	}
	for iter := 0; iter < 300; iter++ {
		bad := -1
		var val int64
		off := 0
		if len(ls) > 0 {
			off = next(len(ls))
		}
		for i := range ls {
			k := (i + off) % len(ls)
			x, ok := m.eval(f, ls[k])
			if !ok {
				// a byte outside its set: choose again
				for _, t := range ls[k].t {
					if t.s.finite() {
						b := t.s.finBase()
						if v, ok := m.v[b]; !ok || v < 0 || v > 255 || !f.setOf(b).Has(int(v)) {
							delete(m.v, b)
						}
					}
				}
				if x, ok = m.eval(f, ls[k]); !ok {
					return false
				}
			}
			if x < 0 {
				bad, val = k, x
				break
			}
		}
		if bad < 0 {
			hit := false
			for _, n := range neq {
				if x, ok := m.eval(f, n); ok && x == 0 && len(n.t) > 0 {
					t := n.t[next(len(n.t))]
					if !t.s.finite() {
						d := int64(1)
						if next(2) == 0 {
							d = -1
						}
						m.set(t.s, m.v[t.s]+d)
					}
					hit = true
					break
				}
			}
			if !hit {
				return true
			}
			continue
		}
		l := ls[bad]
		if len(l.t) == 0 {
			return false
		}
		start := next(len(l.t))
		moved := false
		for i := range l.t {
			t := l.t[(start+i)%len(l.t)]
			if t.s.finite() {
				b := t.s.finBase()
				// the value helping most
				best, bv := -1, int64(0)
				st := f.setOf(b)
				for j := 0; j < 256; j++ {
					if st.Has(j) {
						if w := t.k * t.s.finVec()[j]; best < 0 || w > bv {
							best, bv = j, w
						}
					}
				}
				if best >= 0 && m.v[b] != int64(best) {
					m.v[b] = int64(best)
					moved = true
					break
				}
				continue
			}
			need := -val
			k := t.k
			if k < 0 {
				k = -k
			}
			d := (need + k - 1) / k
			if t.k < 0 {
				d = -d
			}
			if m.set(t.s, m.v[t.s]+d) {
				moved = true
				break
			}
		}
		if !moved {
			return false
		}
	}
	return false
}

func (m *model) set(s *Sym, x int64) bool {
	old := m.v[s]
	if s.lo != nil && s.lo.IsInt64() && x < s.lo.Int64() {
		x = s.lo.Int64()
	}
	if s.hi != nil && s.hi.IsInt64() && x > s.hi.Int64() {
		x = s.hi.Int64()
	}
	if x > 1<<40 || x < -(1<<40) {
		return false
	}
	m.v[s] = x
	return x != old
}

type factsVer struct{ lin, neq, sub, ver int }

// models returns assignments satisfying the facts (possibly none).
func (f *Facts) modelsNow() []*model {
	v := factsVer{len(f.lin), len(f.neq), len(f.sub), f.ver}
	if f.mver == v && f.mdone {
		return f.models
	}
	ls := make([]*Lin, 0, len(f.lin))
	for _, l := range f.lin {
		ls = append(ls, f.norm(l))
	}
	// intrinsic bounds of the symbols involved are respected by get/set
	var neq []*Lin
	for _, n := range f.neq {
		neq = append(neq, f.norm(n))
	}
	var out []*model
	for _, m := range f.models {
		if m.sat(f, ls) {
			out = append(out, m)
		}
	}
	if len(out) < 3 {
		src := f.models
		for i := 0; i < 6 && len(out) < 5; i++ {
			modelSeed++
			m := &model{v: map[*Sym]int64{}, seed: uint64(modelSeed)*7919 + 1}
			if i < len(src) && i < 3 {
				for k, x := range src[i].v {
					m.v[k] = x
				}
			}
			if m.repair(f, ls, neq) {
				out = append(out, m)
			}
		}
	}
	f.models = out
	f.mver, f.mdone = v, true
	return out
}

var modelSeed int64

// refuted reports that some model of the facts makes l negative.
func (f *Facts) refuted(l *Lin) bool {
	for _, m := range f.modelsNow() {
		if x, ok := m.eval(f, l); ok && x < 0 {
			return true
		}
	}
	return false
}

var _ = big.NewInt
