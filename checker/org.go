package main

import (
	"go/types"
	"sort"
)

// An org says that a symbol, string or region is (part of) the initial
// contents of a memory cell: the function symbol "contents of obj at path".
// Loop generalisation uses it to generalise under the index instead of
// forgetting the relation.
type org struct {
	o    *Obj
	p    Path
	t    types.Type
	part int // which symbol of the value
}

var symOrg = map[*Sym]*org{}
var baseOrg = map[*StrBase]*org{}
var objOrg = map[*Obj]*org{}

func symsOf(v Val) []*Sym {
	var out []*Sym
	linsIn(v, func(l *Lin) {
		for _, t := range l.t {
			out = append(out, t.s)
		}
	})
	return out
}

func regOrg(v Val, o *Obj, p Path, t types.Type) {
	idx := false
	for _, e := range p {
		if e.f < 0 {
			idx = true
		}
	}
	if !idx && objOrg[o] == nil {
		return
	}
	switch x := v.(type) {
	case *Lin, StrV, *SliceV:
		if s, ok := x.(StrV); ok {
			if baseOrg[s.B] != nil {
				return
			}
			baseOrg[s.B] = &org{o: o, p: p, t: t}
		}
		if s, ok := x.(*SliceV); ok {
			if objOrg[s.o] != nil {
				return
			}
			objOrg[s.o] = &org{o: o, p: p, t: t}
		}
		for i, s := range symsOf(v) {
			if symOrg[s] == nil {
				symOrg[s] = &org{o: o, p: p, t: t, part: i}
			}
		}
	}
}

func orgVal(o *Obj, p Path, t types.Type) Val {
	v := symVal(o.name+p.Key(), t)
	regOrg(v, o, p, t)
	return v
}

// joinOrg generalises two origins.
func (j *joiner) joinOrg(a, b *org) Val {
	if a == nil || b == nil || a.part != b.part || len(a.p) != len(b.p) {
		return nil
	}
	o := a.o
	if a.o != b.o {
		if o = j.orgObj(a.o, b.o); o == nil {
			return nil
		}
	}
	p := make(Path, len(a.p))
	for i := range a.p {
		if a.p[i].f != b.p[i].f {
			return nil
		}
		p[i] = a.p[i]
		if a.p[i].f >= 0 {
			continue
		}
		x, y := j.A.F.norm(a.p[i].idx), j.B.F.norm(b.p[i].idx)
		if x.Key() == y.Key() {
			p[i].idx = x
			continue
		}
		found := false
		for _, c := range j.comps {
			if c.a.Key() == x.Key() && c.b.Key() == y.Key() {
				p[i].idx = c.g
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	v := orgVal(o, p, a.t)
	j.valid = append(j.valid, v)
	return v
}

func (j *joiner) orgObj(a, b *Obj) *Obj {
	if v, ok := j.joinOrg(objOrg[a], objOrg[b]).(*SliceV); ok {
		return v.o
	}
	return nil
}

// substOrg applies a substitution, also below function symbols.
func (st *State) substOrg(l *Lin, sigma map[*Sym]*Lin, depth int) *Lin {
	if depth > 6 {
		return l.substAll(sigma)
	}
	rep := map[*Sym]*Lin{}
	for _, t := range l.t {
		if r, ok := sigma[t.s]; ok {
			rep[t.s] = r
			continue
		}
		g := symOrg[t.s]
		if g == nil {
			continue
		}
		o, p, ch := st.substPath(g, sigma, depth)
		if !ch {
			continue
		}
		ss := symsOf(orgVal(o, p, g.t))
		if g.part < len(ss) {
			rep[t.s] = LS(ss[g.part])
		}
	}
	return l.substAll(rep)
}

func (st *State) substPath(g *org, sigma map[*Sym]*Lin, depth int) (*Obj, Path, bool) {
	ch := false
	p := make(Path, len(g.p))
	for i, e := range g.p {
		p[i] = e
		if e.f < 0 {
			n := st.F.norm(st.substOrg(e.idx, sigma, depth+1))
			if n.Key() != e.idx.Key() {
				ch = true
				p[i].idx = n
			}
		}
	}
	o := st.substObj(g.o, sigma, depth+1)
	return o, p, ch || o != g.o
}

func (st *State) substObj(o *Obj, sigma map[*Sym]*Lin, depth int) *Obj {
	g := objOrg[o]
	if g == nil || depth > 6 {
		return o
	}
	o2, p, ch := st.substPath(g, sigma, depth)
	if !ch {
		return o
	}
	if v, ok := orgVal(o2, p, g.t).(*SliceV); ok {
		return v.o
	}
	return o
}

func orgOf(v Val) *org {
	switch x := v.(type) {
	case *Lin:
		if ss := symsOf(x); len(ss) > 0 {
			return symOrg[ss[0]]
		}
	case StrV:
		return baseOrg[x.B]
	case *SliceV:
		return objOrg[x.o]
	}
	return nil
}

// isInit reports that a cell still holds its object's unknown initial contents.
func (st *State) isInit(o *Obj, os *ObjState, c cell) bool {
	if os.origin == "" {
		return keyOf(c.v) == keyOf(zeroVal(c.t))
	}
	if keyOf(c.v) == keyOf(st.initCell(o, os, c.p, c.t)) {
		return true
	}
	g := orgOf(c.v)
	if g == nil || g.o != o || os.origin != o.name || len(g.p) != len(c.p) {
		return false
	}
	if keyOf(symVal(o.name+g.p.Key(), c.t)) != keyOf(c.v) {
		return false
	}
	return st.cmpPath(g.p, c.p) == idxEq
}

// congruence equates function symbols whose arguments became equal.
func (st *State) congruence() bool {
	seen := map[*Sym]bool{}
	var syms []*Sym
	add := func(l *Lin) {
		if l == nil {
			return
		}
		for _, t := range l.t {
			if !seen[t.s] && symOrg[t.s] != nil {
				seen[t.s] = true
				syms = append(syms, t.s)
			}
		}
	}
	for _, l := range st.F.lin {
		add(l)
	}
	for _, fr := range st.frames {
		for _, v := range fr.regs {
			linsIn(v, add)
		}
	}
	for _, os := range st.heap {
		for _, c := range os.cells {
			linsIn(c.v, add)
		}
	}
	if st.mon != nil {
		for _, l := range st.mon.Ints() {
			add(l)
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].id < syms[j].id })
	for _, s := range syms {
		l := st.substOrg(LS(s), nil, 0)
		if d := l.Sub(LS(s)); !d.isConst() && !st.F.EntailsEq(d) {
			if !st.F.AssumeEq(d) {
				return false
			}
		}
	}
	return true
}

func (st *State) substBase(b *StrBase, sigma map[*Sym]*Lin) *StrBase {
	g := baseOrg[b]
	if g == nil {
		return b
	}
	o, p, ch := st.substPath(g, sigma, 0)
	if !ch {
		return b
	}
	if v, ok := orgVal(o, p, g.t).(StrV); ok {
		return v.B
	}
	return b
}
