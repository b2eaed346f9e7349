package main

import (
	"math/big"
	"sort"
)

// linsIn calls f for every linear form inside a value.
func linsIn(v Val, f func(*Lin)) {
	switch v := v.(type) {
	case *Lin:
		f(v)
	case *Cond:
		if v.l != nil {
			f(v.l)
		}
		if v.kind == 's' {
			linsIn(v.s, f)
		}
		for _, c := range v.sub {
			linsIn(c, f)
		}
	case StrV:
		f(v.lo)
		f(v.hi)
		f(v.B.n)
	case *SliceV:
		if v.o != nil && v.o.src != nil {
			linsIn(*v.o.src, f)
		}
		f(v.off)
		f(v.n)
		f(v.cap)
		if ie, ok := v.emit.(intsEmit); ok {
			for _, l := range ie.Ints() {
				f(l)
			}
		}
	case *PtrV:
		for _, p := range v.p {
			if p.f < 0 {
				f(p.idx)
			}
		}
	case *StructV:
		for _, x := range v.f {
			linsIn(x, f)
		}
	case *TupleV:
		for _, x := range v.f {
			linsIn(x, f)
		}
	case *IfaceV:
		if v.v != nil {
			linsIn(v.v, f)
		}
	case *FuncV:
		for _, x := range v.free {
			linsIn(x, f)
		}
	case *TermV:
		for _, x := range v.args {
			linsIn(x, f)
		}
	}
}

// keepSyms are symbols never projected away (lengths of parameters and the like).
var keepSyms = map[*Sym]bool{}

// project removes facts about symbols that no live value mentions.
func (st *State) project() {
	live := map[*Sym]bool{}
	F := st.F
	var mark func(l *Lin)
	mark = func(l *Lin) {
		if l == nil {
			return
		}
		for _, t := range l.t {
			for _, s := range []*Sym{t.s, t.s.base} {
				if s != nil && !live[s] {
					live[s] = true
					if r, ok := F.sub[s]; ok {
						mark(r)
					}
				}
			}
		}
	}
	for s := range keepSyms {
		mark(LS(s))
	}
	for _, fr := range st.frames {
		for _, v := range fr.regs {
			linsIn(v, mark)
		}
		for _, d := range fr.defers {
			for _, v := range d.args {
				linsIn(v, mark)
			}
			linsIn(d.fn, mark)
		}
	}
	for _, v := range st.ext {
		linsIn(v, mark)
	}
	for _, os := range st.heap {
		for _, c := range os.cells {
			linsIn(c.v, mark)
			for _, p := range c.p {
				if p.f < 0 {
					mark(p.idx)
				}
			}
		}
	}
	if st.mon != nil {
		for _, l := range st.mon.Ints() {
			mark(l)
		}
	}
	for b := range trackedBases {
		if x := baseTab[b]; x != nil {
			mark(x.n)
		}
	}
	// the initial contents of memory at a live index can be named again
	var orgLive func(g *org, depth int) bool
	orgLive = func(g *org, depth int) bool {
		if depth > 4 {
			return false
		}
		for _, p := range g.p {
			if p.f >= 0 {
				continue
			}
			for _, t := range F.norm(p.idx).t {
				if live[t.s] || (t.s.base != nil && live[t.s.base]) {
					continue
				}
				if h := symOrg[t.s]; h == nil || !orgLive(h, depth+1) {
					return false
				}
			}
		}
		if h := objOrg[g.o]; h != nil {
			return orgLive(h, depth+1)
		}
		return true
	}
	for _, l := range F.lin {
		for _, t := range F.norm(l).t {
			if !live[t.s] && !t.s.finite() {
				if g := symOrg[t.s]; g != nil && orgLive(g, 0) {
					live[t.s] = true
				}
			}
		}
	}
	var subs []*Sym
	for s := range F.sub {
		if !live[s] && symOrg[s] != nil {
			subs = append(subs, s)
		}
	}
	sort.Slice(subs, func(i, j int) bool { return subs[i].id < subs[j].id })
	for _, s := range subs {
		if orgLive(symOrg[s], 0) {
			mark(LS(s))
		}
	}
	okLin := func(l *Lin) bool {
		for _, t := range F.norm(l).t {
			if !live[t.s] && !(t.s.base != nil && live[t.s.base]) {
				return false
			}
		}
		return true
	}
	// bytes at live indexes stay live
	var bs []ByteAt
	for _, b := range F.bytes {
		if okLin(b.idx) {
			bs = append(bs, b)
			live[b.sym] = true
		}
	}
	F.bytes = bs
	var sc []Scan
	for _, s := range F.scans {
		if okLin(s.lo) && okLin(s.hi) {
			sc = append(sc, s)
		}
	}
	F.scans = sc
	var ne []*Lin
	for _, n := range F.neq {
		if okLin(n) {
			ne = append(ne, F.norm(n))
		}
	}
	F.neq = ne
	// normalise inequalities, then eliminate dead symbols
	var lin []*Lin
	seen := map[string]bool{}
	for _, l := range F.lin {
		l = F.norm(l)
		if l.isConst() || seen[l.Key()] {
			continue
		}
		seen[l.Key()] = true
		lin = append(lin, l)
	}
	for rounds := 0; rounds < 64; rounds++ {
		var dead *Sym
		for _, l := range lin {
			for _, t := range l.t {
				if !live[t.s] && !(t.s.base != nil && live[t.s.base]) && (dead == nil || t.s.id < dead.id) {
					dead = t.s
				}
			}
		}
		if dead == nil {
			break
		}
		var lo, hi, rest []*Lin
		for _, l := range lin {
			switch k := l.coef(dead); {
			case k > 0:
				lo = append(lo, l)
			case k < 0:
				hi = append(hi, l)
			default:
				rest = append(rest, l)
			}
		}
		a, b := F.symBounds(dead)
		if a != nil {
			lo = append(lo, LS(dead).AddB(new(big.Int).Neg(a)))
		}
		if b != nil && len(lo) > 0 {
			hi = append(hi, addScaled(LB(b), -1, LS(dead)))
		}
		if len(lo)*len(hi) <= 24 {
			for _, x := range lo {
				for _, y := range hi {
					kx, ky := x.coef(dead), -y.coef(dead)
					n := F.norm(x.Scale(ky).Add(y.Scale(kx)))
					n = tighten(n)
					if n.isConst() {
						if n.c.Sign() < 0 {
							F.dead = true
						}
						continue
					}
					// implied by bounds alone?
					if l, _ := F.bounds(n); l != nil && l.Sign() >= 0 {
						continue
					}
					if !seen[n.Key()] {
						seen[n.Key()] = true
						rest = append(rest, n)
					}
				}
			}
		}
		lin = rest
	}
	F.lin = lin
	for s := range F.set {
		if !live[s] {
			delete(F.set, s)
		}
	}
	for s := range F.sub {
		if !live[s] {
			delete(F.sub, s)
		}
	}
	// drop redundant inequalities
	if len(F.lin) > 24 {
		for i := 0; i < len(F.lin); i++ {
			l := F.lin[i]
			rest := append(append([]*Lin(nil), F.lin[:i]...), F.lin[i+1:]...)
			save := F.lin
			F.lin = rest
			if F.Entails(l) {
				i--
			} else {
				F.lin = save
			}
		}
	}
}

// dropCached forgets region cells that were only read (they still hold the
// unknown initial contents) at indexes nothing live mentions any more.
func (st *State) dropCached() {
	F := st.F
	live := map[*Sym]bool{}
	var mark func(l *Lin)
	mark = func(l *Lin) {
		if l == nil {
			return
		}
		for _, t := range l.t {
			for _, s := range []*Sym{t.s, t.s.base} {
				if s != nil && !live[s] {
					live[s] = true
					if r, ok := F.sub[s]; ok {
						mark(r)
					}
				}
			}
		}
	}
	for s := range keepSyms {
		mark(LS(s))
	}
	for _, fr := range st.frames {
		for _, v := range fr.regs {
			linsIn(v, mark)
		}
		for _, d := range fr.defers {
			for _, v := range d.args {
				linsIn(v, mark)
			}
			linsIn(d.fn, mark)
		}
	}
	for _, v := range st.ext {
		linsIn(v, mark)
	}
	if st.mon != nil {
		for _, l := range st.mon.Ints() {
			mark(l)
		}
	}
	type ref struct {
		o *Obj
		i int
	}
	var cached []ref
	for o, os := range st.heap {
		for i, c := range os.cells {
			if o.region && os.origin != "" && o.src == nil && st.isInit(o, os, c) {
				cached = append(cached, ref{o, i})
				continue
			}
			linsIn(c.v, mark)
			for _, p := range c.p {
				if p.f < 0 {
					mark(p.idx)
				}
			}
		}
	}
	keep := map[*Obj]map[int]bool{}
	for changed := true; changed; {
		changed = false
		for _, r := range cached {
			if keep[r.o][r.i] {
				continue
			}
			c := st.heap[r.o].cells[r.i]
			ok := true
			for _, p := range c.p {
				if p.f < 0 {
					for _, t := range F.norm(p.idx).t {
						if !live[t.s] && !(t.s.base != nil && live[t.s.base]) {
							ok = false
						}
					}
				}
			}
			if ok {
				if keep[r.o] == nil {
					keep[r.o] = map[int]bool{}
				}
				keep[r.o][r.i] = true
				linsIn(c.v, mark)
				changed = true
			}
		}
	}
	drop := map[*Obj]map[int]bool{}
	for _, r := range cached {
		if !keep[r.o][r.i] {
			if drop[r.o] == nil {
				drop[r.o] = map[int]bool{}
			}
			drop[r.o][r.i] = true
		}
	}
	for o, d := range drop {
		os := st.heap[o]
		n := &ObjState{origin: os.origin}
		for i, c := range os.cells {
			if !d[i] {
				n.cells = append(n.cells, c)
			}
		}
		if len(n.cells) == 0 && n.origin == o.name {
			delete(st.heap, o)
		} else {
			st.setOState(o, n)
		}
	}
}
