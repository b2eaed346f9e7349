package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- shape of a state ----

type shaper struct {
	st     *State
	full   strings.Builder // with small constants
	nc     strings.Builder // without constants
	exact  strings.Builder // everything
	objs   map[*Obj]int
	order  []*Obj
	names  map[string]int
	wantEx bool
}

func (s *shaper) both(x string) {
	s.full.WriteString(x)
	s.nc.WriteString(x)
	s.exact.WriteString(x)
}
func (s *shaper) obj(o *Obj) {
	n, ok := s.objs[o]
	if !ok {
		n = len(s.objs)
		s.objs[o] = n
		s.order = append(s.order, o)
	}
	cl := "o"
	if !o.fresh && !o.plain {
		// memory that existed before is told apart from allocated memory
		cl = "i"
		if g := objOrg[o]; g != nil {
			cl = "i(" + g.o.name + ")"
		}
	}
	fmt.Fprintf(&s.full, "%s%d", cl, n)
	fmt.Fprintf(&s.nc, "%s%d", cl, n)
	s.exact.WriteString(o.name)
}
func (s *shaper) name(k string) {
	n, ok := s.names[k]
	if !ok {
		n = len(s.names)
		s.names[k] = n
	}
	fmt.Fprintf(&s.full, "n%d", n)
	fmt.Fprintf(&s.nc, "n%d", n)
	s.exact.WriteString(k)
}

// shapeConst is the largest constant that keeps loop states apart.
var shapeConst int64 = 1

func (s *shaper) lin(l *Lin) {
	l = s.st.F.norm(l)
	s.exact.WriteString(l.Key())
	s.nc.WriteByte('#')
	if c, ok := l.constInt(); ok && c >= -1 && c <= shapeConst {
		fmt.Fprintf(&s.full, "%d", c)
	} else {
		s.full.WriteByte('#')
	}
}
func (s *shaper) val(v Val) {
	switch v := v.(type) {
	case nil:
		s.both("_")
	case *Lin:
		s.lin(v)
	case *Cond:
		if v.kind == 'c' {
			s.both(v.Key())
		} else if v.kind == 'a' {
			// a decided atom is a constant
			if b, ok := s.st.F.atoms[v.atom]; ok {
				s.both(fmt.Sprint(b != v.neg))
			} else {
				s.full.WriteString("b")
				s.nc.WriteString("b")
				s.exact.WriteString(v.Key())
			}
		} else {
			s.full.WriteString("b")
			s.nc.WriteString("b")
			s.exact.WriteString(v.Key())
		}
	case StrV:
		if l, ok := v.lit(); ok {
			s.both(fmt.Sprintf("%q", l))
			return
		}
		if v.B.isLit {
			s.both(v.B.name)
		} else {
			s.both("s")
			s.name(v.B.name)
		}
		s.both("[")
		s.lin(v.lo)
		s.both(":")
		s.lin(v.hi)
		s.both("]")
	case *SliceV:
		if v.isNil {
			s.both("nil[]")
			return
		}
		s.both("sl(")
		s.obj(v.o)
		s.lin(v.off)
		s.lin(v.n)
		s.lin(v.cap)
		if v.emit != nil {
			s.both("|" + v.emit.Skel())
			s.exact.WriteString(v.emit.Key())
			if iv, ok := v.emit.(intsEmit); ok {
				for _, l := range iv.Ints() {
					s.lin(l)
				}
			}
		}
		s.both(")")
	case *PtrV:
		if b, ok := s.st.isNilKnown(v); ok && b {
			s.both("nilptr")
			return
		}
		s.both("&")
		s.obj(v.o)
		for _, p := range v.p {
			if p.f >= 0 {
				s.both(fmt.Sprintf(".%d", p.f))
			} else {
				s.both("[")
				s.lin(p.idx)
				s.both("]")
			}
		}
	case *StructV:
		s.both("{")
		for _, f := range v.f {
			s.val(f)
			s.both(",")
		}
		s.both("}")
	case *TupleV:
		s.both("(")
		for _, f := range v.f {
			s.val(f)
			s.both(",")
		}
		s.both(")")
	case *IfaceV:
		if v.isNil {
			s.both("nilI")
		} else if v.t != nil {
			s.both("I:" + v.t.String() + ":")
			s.val(v.v)
		} else {
			if b, ok := s.st.F.atoms["nil:"+v.key]; ok {
				s.both(fmt.Sprint("i", b))
			} else {
				s.both("i")
			}
			s.name(v.key)
		}
	case *FuncV:
		s.both("F:" + v.fn.String())
		for _, f := range v.free {
			s.val(f)
		}
	case *TermV:
		if v.structural() {
			s.both("T" + v.op + "(")
			for _, a := range v.args {
				s.val(a)
			}
			s.both(")")
			return
		}
		s.both("T" + v.op)
		s.name(v.key)
	case *NilV:
		s.both("nil")
	default:
		s.both("?" + keyOf(v))
	}
}

func sortedRegs(fr *Frame) []ssa.Value {
	var vs []ssa.Value
	for v := range fr.regs {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}

func extKeys(st *State) []string {
	var ks []string
	for k := range st.ext {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// shape computes the discrete skeleton of a state.
func (st *State) shape(exact bool) *shaper {
	s := &shaper{st: st, objs: map[*Obj]int{}, names: map[string]int{}, wantEx: exact}
	// objects visible to callers keep their identity
	fr := st.top()
	for _, v := range sortedRegs(fr) {
		s.both(v.Name() + "=")
		s.val(fr.regs[v])
		s.both(";")
	}
	for i, d := range fr.defers {
		s.both(fmt.Sprintf("defer%d:%s", i, d.ins.String()))
	}
	if st.mon != nil {
		s.both("M:" + st.mon.Skel())
		for _, l := range st.mon.Ints() {
			s.lin(l)
		}
	}
	for _, k := range extKeys(st) {
		s.both("X" + k + "=")
		s.val(st.ext[k])
	}
	// non-region objects: modified cells
	extra := append([]*Obj(nil), s.order...)
	var rest []*Obj
	for o := range st.heap {
		if _, ok := s.objs[o]; !ok {
			rest = append(rest, o)
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	reached := map[*Obj]bool{}
	var lowRoots []Val
	for _, f := range st.frames[:len(st.frames)-1] {
		for _, v := range f.regs {
			lowRoots = append(lowRoots, v)
		}
	}
	for _, v := range entryRoots(st) {
		lowRoots = append(lowRoots, v)
	}
	low := st.reach(lowRoots)
	for i := 0; i < len(s.order); i++ {
		o := s.order[i]
		reached[o] = true
		s.objCells(o)
	}
	_ = extra
	for _, o := range rest {
		if !reached[o] && low[o] {
			if _, ok := s.objs[o]; !ok {
				if o.region && !exact {
					continue // contents are not part of the shape
				}
				s.both("low:" + o.name)
				s.objs[o] = len(s.objs)
				s.objCells(o)
			}
		}
	}
	return s
}

func entryRoots(st *State) []Val {
	var vs []Val
	for _, v := range st.ext {
		vs = append(vs, v)
	}
	return vs
}

func (s *shaper) objCells(o *Obj) {
	os := s.st.heap[o]
	if os == nil {
		return
	}
	type kc struct {
		k string
		c cell
	}
	var ks []kc
	for _, c := range os.cells {
		var k strings.Builder
		for _, p := range c.p {
			if p.f >= 0 {
				fmt.Fprintf(&k, ".%d", p.f)
			} else {
				k.WriteString("[" + s.st.F.norm(p.idx).Key() + "]")
			}
		}
		ks = append(ks, kc{k.String(), c})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
	if o.region {
		if s.wantEx {
			s.exact.WriteString("R" + o.name + os.origin + "{")
			for _, c := range ks {
				if s.st.isInit(o, os, c.c) {
					continue
				}
				s.exact.WriteString(c.k + "=" + keyOf(c.c.v) + ";")
			}
			s.exact.WriteString("}")
		}
		return
	}
	s.both("{")
	s.exact.WriteString(os.origin)
	for _, c := range ks {
		if s.st.isInit(o, os, c.c) {
			continue
		}
		s.both(c.k + "=")
		s.val(c.c.v)
		s.both(";")
	}
	s.both("}")
}

func (s *State) initCellPeek(o *Obj, st *ObjState, c cell) Val {
	return s.initCell(o, st, c.p, c.t)
}

// ---- headers ----

func (a *activation) atHeader(b *ssa.BasicBlock, st *State, back bool) *State {
	e := a.e
	if !st.congruence() {
		return nil
	}
	if e.opaque != nil {
		e.forgetOpaque(st)
	}
	st.gc()
	sh := st.shape(false)
	full, nc := sh.full.String(), sh.nc.String()
	if back {
		// the first pass of a loop is kept apart from the later ones
		full, nc = "B:"+full, "B:"+nc
	}
	var exact, general *hdrRec
	n := 0
	for _, r := range a.recs[b] {
		if r.key == full {
			exact = r
		}
		if r.key == "G:"+nc {
			general = r
		}
		if strings.HasPrefix(r.key, "") && r.mask[nc] {
			n++
		}
	}
	r := exact
	if r == nil {
		r = general
	}
	if r == nil {
		lim := 3
		if e.constLim > 0 {
			lim = e.constLim - 1
		}
		if n >= lim {
			full = "G:" + nc
		}
		if len(a.recs[b]) > 200+4*e.constLim {
			e.Undecided(st, b.Instrs[0], "engine", "loop:"+a.fn.String(), "too many loop states in %s", a.fn)
			return nil
		}
		if e.widenDbg {
			fmt.Printf("== new record %s block %d: %s\n", a.fn.Name(), b.Index, full)
		}
		r = &hdrRec{key: full, base: st, cur: st.clone(), group: map[string]string{}, mask: map[string]bool{nc: true}}
		a.recs[b] = append(a.recs[b], r)
		r.contribute(st)
		out := st.clone()
		out.lin = map[linRef]bool{{r, 0}: true}
		return out
	}
	r.arr++
	if r.ver > 80 || r.arr > 20000 {
		e.Undecided(st, b.Instrs[0], "engine", "loop:"+a.fn.String(), "no loop fixpoint in %s (block %d)", a.fn, b.Index)
		return nil
	}
	wasLive := r.live()
	r.contribute(st)
	if e.subsumed(r, st) {
		if wasLive {
			return nil
		}
		// what was derived from the record has been dropped meanwhile
		r.ver++
		lineEpoch++
		out := r.cur.clone()
		out.lin = map[linRef]bool{{r, r.ver}: true}
		return out
	}
	var g *State
	if e.weak != nil && r.ver > 5 {
		g = e.weak
	} else {
		g = e.join(r, st)
	}
	if g == nil {
		e.Undecided(st, b.Instrs[0], "engine", "loop:"+a.fn.String(), "cannot generalise loop state in %s (block %d)", a.fn, b.Index)
		return nil
	}
	g.strBounds()
	e.loopsGen++
	r.cur = g
	r.ver++
	lineEpoch++
	out := g.clone()
	out.lin = map[linRef]bool{{r, r.ver}: true}
	if e.widenDbg {
		fmt.Printf("-- generalised %s block %d rec %p v%d: facts %s\n", a.fn.Name(), b.Index, r, r.ver, g.F)
		for _, v := range sortedRegs(g.top()) {
			fmt.Printf("     %s = %s\n", v.Name(), keyOf(g.F.normVal(g.top().regs[v])))
		}
		if g.mon != nil {
			fmt.Printf("     mon %s", g.mon.Skel())
			for _, l := range g.mon.Ints() {
				fmt.Printf(" %s", g.F.norm(l))
			}
			fmt.Println()
		}
	}
	return out
}

func (f *Facts) normVal(v Val) Val {
	switch v := v.(type) {
	case *Lin:
		return f.norm(v)
	case StrV:
		return StrV{v.B, f.norm(v.lo), f.norm(v.hi)}
	case *SliceV:
		w := *v
		w.off, w.n, w.cap = f.norm(v.off), f.norm(v.n), f.norm(v.cap)
		return &w
	case *PtrV:
		q := &PtrV{o: v.o}
		for _, p := range v.p {
			if p.f < 0 {
				p.idx = f.norm(p.idx)
			}
			q.p = append(q.p, p)
		}
		return q
	case *TermV:
		if v.structural() {
			var args []Val
			for _, a := range v.args {
				args = append(args, f.normVal(a))
			}
			return mkTerm(v.op, v.typ, args...)
		}
	case *StructV:
		w := &StructV{}
		for _, x := range v.f {
			w.f = append(w.f, f.normVal(x))
		}
		return w
	}
	return v
}

// forgetOpaque replaces references to memory that is not tracked by
// references to one object per element type.
func (e *Engine) forgetOpaque(st *State) {
	canon := func(t types.Type) *Obj {
		k := t.String()
		o := e.opaqueObj[k]
		if o == nil {
			o = newObj("any:"+k, t)
			o.region, o.fresh = true, true
			if e.opaqueObj == nil {
				e.opaqueObj = map[string]*Obj{}
			}
			e.opaqueObj[k] = o
		}
		return o
	}
	var fv func(v Val) Val
	fv = func(v Val) Val {
		switch v := v.(type) {
		case *SliceV:
			if v.o != nil && !v.isNil && e.opaque(v.o) {
				if e.opaqueKeep != nil {
					c := *v
					c.o = e.opaqueKeep(v.o)
					return &c
				}
				havocN++
				n, c := symRange(fmt.Sprintf("anylen%d", havocN), 0, 1<<46), symRange(fmt.Sprintf("anycap%d", havocN), 0, 1<<46)
				st.F.AssumeGe(c.Sub(n))
				return &SliceV{o: canon(v.o.typ), off: LC(0), n: n, cap: c, nilKey: v.nilKey}
			}
		case *PtrV:
			if e.opaque(v.o) {
				if e.opaqueKeep != nil {
					return &PtrV{e.opaqueKeep(v.o), v.p}
				}
				p := append(Path{}, v.p...)
				for i := range p {
					if p[i].f < 0 {
						havocN++
						p[i].idx = symRange(fmt.Sprintf("anyidx%d", havocN), 0, 1<<46)
					}
				}
				return &PtrV{canon(v.o.typ), p}
			}
		case *StructV:
			c := *v
			c.f = append([]Val(nil), v.f...)
			for i := range c.f {
				c.f[i] = fv(c.f[i])
			}
			return &c
		case *TupleV:
			c := *v
			c.f = append([]Val(nil), v.f...)
			for i := range c.f {
				c.f[i] = fv(c.f[i])
			}
			return &c
		}
		return v
	}
	top := st.top()
	for _, v := range sortedRegs(top) {
		top.regs[v] = fv(top.regs[v])
	}
	for o, os := range st.heap {
		if e.opaque(o) {
			delete(st.heap, o)
			continue
		}
		var ns *ObjState
		for i, c := range os.cells {
			if v := fv(c.v); v != c.v {
				if ns == nil {
					cp := *os
					cp.cells = append([]cell(nil), os.cells...)
					ns = &cp
				}
				ns.cells[i].v = v
			}
		}
		if ns != nil {
			st.heap[o] = ns
		}
	}
}

// gc drops heap objects that nothing refers to.
func (st *State) gc() {
	var roots []Val
	for _, f := range st.frames {
		for _, v := range f.regs {
			roots = append(roots, v)
		}
		for _, d := range f.defers {
			roots = append(roots, d.args...)
			roots = append(roots, d.fn)
		}
	}
	for _, v := range st.ext {
		roots = append(roots, v)
	}
	// memory that existed before stays observable
	for o, os := range st.heap {
		if !o.fresh && len(o.alts) == 0 {
			for _, c := range os.cells {
				roots = append(roots, c.v)
			}
		}
	}
	live := st.reach(roots)
	for o := range st.heap {
		if (o.fresh || len(o.alts) > 0) && !live[o] {
			delete(st.heap, o)
		}
	}
	st.dropCached()
	st.project()
}

// ---- anti-unification ----

type joiner struct {
	e        *Engine
	r        *hdrRec
	A, B     *State // instance 1 (current generalisation) and 2 (arrival)
	G        *State
	comps    []*comp
	objs     map[[2]*Obj]*Obj
	doneObj  map[*Obj]bool
	names    map[string]string
	bases    map[[2]*StrBase]*StrBase
	ok       bool
	newBytes map[*Sym]Set256
	valid    []Val
}

type comp struct {
	path       string
	a, b       *Lin // instance values
	base       *Lin
	phi        *Sym
	g          *Lin // value in G
	lengthLike bool
	changed    bool
}

func (j *joiner) lin(path string, x, y *Lin, lenLike bool) *Lin {
	same := x.Key() == y.Key()
	x0 := x
	x, y = j.A.F.norm(x), j.B.F.norm(y)
	if same && x.Key() != y.Key() {
		j.comps = append(j.comps, &comp{path: path, a: x, b: y, g: x0, lengthLike: lenLike})
		return x0
	}
	if x.Key() == y.Key() {
		j.comps = append(j.comps, &comp{path: path, a: x, b: y, g: x, lengthLike: lenLike})
		return x
	}
	if !y.isConst() && j.A.F.EntailsEq(x.Sub(y)) {
		j.comps = append(j.comps, &comp{path: path, a: x, b: y, g: y, lengthLike: lenLike})
		return y
	}
	if !x.isConst() && j.B.F.EntailsEq(x.Sub(y)) {
		j.comps = append(j.comps, &comp{path: path, a: x, b: y, g: x, lengthLike: lenLike})
		return x
	}
	if len(x.t) == 1 && len(y.t) == 1 && x.t[0].k == 1 && y.t[0].k == 1 && x.c.Sign() == 0 && y.c.Sign() == 0 {
		ga, gb := symOrg[x.t[0].s], symOrg[y.t[0].s]
		if v := j.joinOrg(ga, gb); v != nil {
			if ss := symsOf(v); ga.part < len(ss) {
				g := LS(ss[ga.part])
				if !ss[ga.part].finite() {
					j.comps = append(j.comps, &comp{path: path, a: x, b: y, phi: ss[ga.part], g: g, lengthLike: lenLike, changed: true})
				} else {
					j.newBytes[ss[ga.part].finBase()] = j.A.F.setOf(x.t[0].s.finBase()).Or(j.B.F.setOf(y.t[0].s.finBase()))
				}
				return g
			}
		}
	}
	// byte values
	if fx, okx := j.finRange(j.A.F, x); okx {
		if fy, oky := j.finRange(j.B.F, y); oky {
			_, _, f1 := x.asFin()
			_, _, f2 := y.asFin()
			if f1 || f2 {
				s := newByteSym("phi." + path)
				j.newBytes[s] = fx.Or(fy)
				return LS(s)
			}
		}
	}
	phi := newSym("phi."+path, nil, nil)
	if strings.HasSuffix(path, ".len") || strings.HasSuffix(path, ".cap") {
		phi.lo, phi.hi = bi(0), maxLen // holds for every length
	}
	c := &comp{path: path, a: x, b: y, phi: phi, lengthLike: lenLike, changed: true, g: LS(phi)}
	j.comps = append(j.comps, c)
	return c.g
}

func (j *joiner) finRange(f *Facts, l *Lin) (Set256, bool) {
	var out Set256
	if c, ok := l.constInt(); ok {
		if c < 0 || c > 255 {
			return out, false
		}
		out.Add(int(c))
		return out, true
	}
	b, v, ok := l.asFin()
	if !ok {
		return out, false
	}
	st := f.setOf(b)
	for i := 0; i < 256; i++ {
		if st.Has(i) {
			if v[i] < 0 || v[i] > 255 {
				return out, false
			}
			out.Add(int(v[i]))
		}
	}
	return out, true
}

func (j *joiner) fresh(kind, ka, kb string) string {
	k := kind + "|" + ka + "|" + kb
	if n, ok := j.names[k]; ok {
		return n
	}
	havocN++
	n := fmt.Sprintf("phi%d.%s", havocN, kind)
	j.names[k] = n
	return n
}

func (j *joiner) val(path string, x, y Val) Val {
	switch a := x.(type) {
	case nil:
		return nil
	case *Lin:
		if b, ok := y.(*Lin); ok {
			return j.lin(path, a, b, false)
		}
	case *Cond:
		b, ok := y.(*Cond)
		if !ok {
			break
		}
		va, ka := j.A.knownCond(a)
		vb, kb := j.B.knownCond(b)
		if ka && kb && va == vb {
			return cBool(va)
		}
		if a.Key() == b.Key() {
			return a
		}
		return cAtom(j.fresh("bool", a.Key(), b.Key()))
	case StrV:
		b, ok := y.(StrV)
		if !ok {
			break
		}
		la, oka := a.lit()
		lb, okb := b.lit()
		if oka && okb && la == lb {
			return a
		}
		if a.B == b.B {
			return StrV{a.B, j.lin(path+".lo", a.lo, b.lo, false), j.lin(path+".hi", a.hi, b.hi, true)}
		}
		k := [2]*StrBase{a.B, b.B}
		nb := j.bases[k]
		if nb == nil && a.lo.Key() == "0" && b.lo.Key() == "0" && a.hi.Key() == a.B.n.Key() && b.hi.Key() == b.B.n.Key() {
			if v, ok := j.joinOrg(baseOrg[a.B], baseOrg[b.B]).(StrV); ok {
				nb = v.B
				j.bases[k] = nb
				j.comps = append(j.comps, &comp{path: path + ".strlen", a: j.A.F.norm(a.length()), b: j.B.F.norm(b.length()), phi: nb.n.t[0].s, lengthLike: true, changed: true, g: nb.n})
			}
		}
		if nb == nil {
			nb = strBase(j.fresh("str", a.B.name, b.B.name))
			nb.src = mergeSrc(a, b)
			j.bases[k] = nb
			j.comps = append(j.comps, &comp{path: path + ".strlen", a: j.A.F.norm(a.length()), b: j.B.F.norm(b.length()), phi: nb.n.t[0].s, lengthLike: true, changed: true, g: nb.n})
		}
		// the whole string is unknown
		return StrV{nb, LC(0), nb.n}
	case *SliceV:
		b, ok := y.(*SliceV)
		if !ok {
			break
		}
		if a.isNil && b.isNil {
			return a
		}
		if a.isNil != b.isNil {
			j.ok = false
			return a
		}
		g := &SliceV{o: j.obj(a.o, b.o)}
		g.off = j.lin(path+".off", a.off, b.off, false)
		g.n = j.lin(path+".len", a.n, b.n, true)
		g.cap = j.lin(path+".cap", a.cap, b.cap, true)
		if a.nilKey == b.nilKey {
			g.nilKey = a.nilKey
		} else {
			g.nilKey = j.fresh("nil:", a.nilKey, b.nilKey)
		}
		if a.emit != nil && b.emit != nil {
			if a.emit.Skel() != b.emit.Skel() {
				j.ok = false
			}
			g.emit = a.emit
			if ie, ok := a.emit.(intsEmit); ok {
				ib := b.emit.(intsEmit)
				ia, ibs := ie.Ints(), ib.Ints()
				var out []*Lin
				for i := range ia {
					out = append(out, j.lin(fmt.Sprintf("%s.emit%d", path, i), ia[i], ibs[i], false))
				}
				g.emit = ie.WithInts(out)
			}
		} else if a.emit != nil || b.emit != nil {
			j.ok = false
		}
		return g
	case *PtrV:
		b, ok := y.(*PtrV)
		if !ok || len(a.p) != len(b.p) {
			break
		}
		g := &PtrV{o: j.obj(a.o, b.o)}
		for i := range a.p {
			if a.p[i].f != b.p[i].f {
				j.ok = false
				return a
			}
			if a.p[i].f >= 0 {
				g.p = append(g.p, a.p[i])
			} else {
				g.p = append(g.p, pe{f: -1, idx: j.lin(fmt.Sprintf("%s[%d]", path, i), a.p[i].idx, b.p[i].idx, false)})
			}
		}
		return g
	case *StructV:
		b, ok := y.(*StructV)
		if !ok || len(a.f) != len(b.f) {
			break
		}
		g := &StructV{}
		for i := range a.f {
			g.f = append(g.f, j.val(fmt.Sprintf("%s.%d", path, i), a.f[i], b.f[i]))
		}
		return g
	case *TupleV:
		b, ok := y.(*TupleV)
		if !ok || len(a.f) != len(b.f) {
			break
		}
		g := &TupleV{}
		for i := range a.f {
			g.f = append(g.f, j.val(fmt.Sprintf("%s.%d", path, i), a.f[i], b.f[i]))
		}
		return g
	case *IfaceV:
		b, ok := y.(*IfaceV)
		if !ok {
			break
		}
		if a.Key() == b.Key() {
			return a
		}
		if a.t != nil && b.t != nil && a.t.String() == b.t.String() {
			return &IfaceV{t: a.t, v: j.val(path+".dyn", a.v, b.v)}
		}
		if a.isNil || b.isNil || a.t != nil || b.t != nil {
			j.ok = false
			return a
		}
		k := j.fresh("iface", a.key, b.key)
		va, ka := j.A.F.atoms["nil:"+a.key]
		vb, kb := j.B.F.atoms["nil:"+b.key]
		if ka && kb && va == vb {
			j.G.F.atoms["nil:"+k] = va
		}
		return &IfaceV{key: k}
	case *FuncV:
		if a.Key() == keyOf(y) {
			return a
		}
		b, ok := y.(*FuncV)
		if ok && b.fn == a.fn && len(a.free) == len(b.free) {
			g := &FuncV{fn: a.fn}
			for i := range a.free {
				g.free = append(g.free, j.val(fmt.Sprintf("%s.fv%d", path, i), a.free[i], b.free[i]))
			}
			return g
		}
	case *TermV:
		if a.Key() == keyOf(y) {
			return a
		}
		if b, ok := y.(*TermV); ok {
			if a.structural() || b.structural() {
				if a.op != b.op || len(a.args) != len(b.args) {
					break
				}
				var args []Val
				for i := range a.args {
					args = append(args, j.val(fmt.Sprintf("%s.arg%d", path, i), a.args[i], b.args[i]))
				}
				return mkTerm(a.op, a.typ, args...)
			}
			k := j.fresh("term", a.key, b.key)
			return &TermV{key: k, typ: a.typ, op: phiOp(a.op, b.op)}
		}
	case *NilV:
		if _, ok := y.(*NilV); ok {
			return a
		}
	}
	j.ok = false
	return x
}

func phiOp(a, b string) string {
	if a == b {
		return a
	}
	return "phi"
}

func mergeSrc(a, b StrV) Val { return nil }

type intsEmit interface {
	Ints() []*Lin
	WithInts([]*Lin) Emit
}

func (st *State) knownCond(c *Cond) (bool, bool) {
	switch c.kind {
	case 'c':
		return c.b != c.neg, true
	case 'a':
		if v, ok := st.F.atoms[c.atom]; ok {
			return v != c.neg, true
		}
	}
	return false, false
}

func (j *joiner) obj(a, b *Obj) *Obj {
	k := [2]*Obj{a, b}
	if o := j.objs[k]; o != nil {
		return o
	}
	if a == b {
		j.objs[k] = a
		return a
	}
	if o := j.orgObj(a, b); o != nil {
		j.objs[k] = o
		return o
	}
	o := newObj("phi", a.typ)
	if a.src != nil && b.src != nil {
		if v, ok := j.val("src"+a.name, *a.src, *b.src).(StrV); ok {
			o.src = &v
		}
	}
	o.alts = []*Obj{a, b}
	o.region, o.fresh, o.maybeNil = a.region, a.fresh && b.fresh, a.maybeNil || b.maybeNil
	o.plain = (a.fresh || a.plain) && (b.fresh || b.plain)
	o.tag = a.tag
	if a.maybeNil && b.maybeNil {
		va, ka := j.A.F.atoms["nil:"+a.name]
		vb, kb := j.B.F.atoms["nil:"+b.name]
		if ka && kb && va == vb {
			j.G.F.atoms["nil:"+o.name] = va
		}
	} else if o.maybeNil {
		x, s := a, j.A
		if b.maybeNil {
			x, s = b, j.B
		}
		if v, ok := s.F.atoms["nil:"+x.name]; ok && !v {
			o.maybeNil = false
		}
	}
	j.objs[k] = o
	return o
}

// mergeObj merges the contents of (a in A, b in B) into g.
func (j *joiner) mergeObj(a, b, g *Obj) {
	sa, sb := j.A.ostate(a), j.B.ostate(b)
	mark := j.r.base.symMark()
	newIdx := func(p Path) bool {
		for _, e := range p {
			if e.f < 0 {
				for _, t := range e.idx.t {
					if t.s.id > mark && !t.s.finite() {
						return true
					}
				}
			}
		}
		return false
	}
	keyIn := func(st *State, p Path) string {
		if watched(p) {
			return p.Key()
		}
		q := make(Path, len(p))
		for i, e := range p {
			if e.f < 0 {
				e.idx = st.F.norm(e.idx)
			}
			q[i] = e
		}
		return q.Key()
	}
	sameOrigin := sa.origin == sb.origin || sa.origin == a.name && sb.origin == b.name && objOrg[g] != nil
	havoc := !sameOrigin
	ma, mb := map[string]cell{}, map[string]cell{}
	var keys []string
	for _, c := range sa.cells {
		k := keyIn(j.A, c.p)
		if _, ok := ma[k]; !ok {
			keys = append(keys, k)
		}
		ma[k] = c
	}
	for _, c := range sb.cells {
		k := keyIn(j.B, c.p)
		if _, ok := mb[k]; !ok {
			if _, ok := ma[k]; !ok {
				keys = append(keys, k)
			}
		}
		mb[k] = c
	}
	out := &ObjState{}
	if len(watchSyms) > 0 {
		// locations the specification looks at: found by address, not by name
		settle := func(own, oth map[string]cell, st *State, o *Obj) {
			for k, c := range own {
				if _, ok := oth[k]; ok || !watched(c.p) {
					continue
				}
				if i, _ := st.lookupCell(o, c.p); i >= 0 {
					oth[k] = st.ostate(o).cells[i]
				}
			}
		}
		settle(ma, mb, j.B, b)
		settle(mb, ma, j.A, a)
	}
	for _, k := range keys {
		ca, oka := ma[k]
		cb, okb := mb[k]
		c := ca
		if !oka {
			c = cb
		}
		if newIdx(c.p) {
			// location only meaningful inside the loop
			modA := oka && !j.A.isInit(a, sa, ca)
			modB := okb && !j.B.isInit(b, sb, cb)
			if modA || modB {
				havoc = true
			}
			continue
		}
		if sameOrigin && sa.origin != "" && (!oka || j.A.isInit(a, sa, ca)) && (!okb || j.B.isInit(b, sb, cb)) && a == b {
			out.cells = append(out.cells, c)
			continue
		}
		var va, vb Val
		if oka {
			va = ca.v
		} else {
			va = j.A.initCellPeek(a, sa, cb)
		}
		if okb {
			vb = cb.v
		} else {
			vb = j.B.initCellPeek(b, sb, ca)
		}
		sk1, sk2 := skelOf(j.A, va), skelOf(j.B, vb)
		var gv Val
		if keyOf(va) == keyOf(vb) {
			gv = va
		} else if w := j.e.watchVal(j.A, j.B, c.p, va, vb); w != nil {
			gv = w
		} else if len(j.e.watch) > 0 && old(vb, mark) && j.e.sameVal(j.A, va, vb) {
			gv = vb
		} else if len(j.e.watch) > 0 && old(va, mark) && j.e.sameVal(j.B, va, vb) {
			gv = va
		} else if sk1 == sk2 {
			gv = j.val("H"+g.name+k, va, vb)
		} else if p1, p2 := weaken(va), weaken(vb); p1 != nil && p2 != nil {
			gv = symVal(j.fresh("cell", keyOf(va), keyOf(vb)), c.t)
		} else {
			gv = symVal(j.fresh("cell", keyOf(va), keyOf(vb)), c.t)
		}
		if j.e.widenDbg && keyOf(va) != keyOf(vb) {
			fmt.Printf("   merge %s%s: %s | %s -> %s\n", g.name, k, keyOf(j.A.F.normVal(va)), keyOf(j.B.F.normVal(vb)), keyOf(gv))
		}
		out.cells = append(out.cells, cell{c.p, gv, c.t})
	}
	out.origin = sa.origin
	if objOrg[g] != nil && sa.origin == a.name {
		out.origin = g.name
	}
	if !havoc && g.region && j.r.ver > 2 && g.typ != nil && types.TypeString(g.typ, nil) == "byte" && g.src == nil {
		for _, c := range out.cells {
			if ca, ok := ma[keyIn(j.A, c.p)]; !ok || keyOf(ca.v) != keyOf(c.v) {
				havoc = true
			}
		}
	}
	if g.region && j.r.ver > 8 && g.src == nil {
		// still growing: forget entries that are not settled
		var keep []cell
		for _, c := range out.cells {
			ca, ok := ma[keyIn(j.A, c.p)]
			if ok && keyOf(ca.v) == keyOf(c.v) {
				keep = append(keep, c)
			} else {
				havoc = true
			}
		}
		out.cells = keep
	}
	if havoc {
		if g.region && j.r.ver > 2 && g.typ != nil && types.TypeString(g.typ, nil) == "byte" {
			out.cells = nil
		}
		havocN++
		out.origin = fmt.Sprintf("loop%d:%s", havocN, g.name)
	}
	if g.src != nil {
		out.origin = "bytesof"
	}
	j.G.heap[g] = out
}

// watchSyms are symbols of the specification; cells whose index mentions one
// keep that index as their name.
var watchSyms = map[*Sym]bool{}

// watchVal is the value of the specification that a watched cell holds in both states.
func (e *Engine) watchVal(A, B *State, p Path, va, vb Val) Val {
	if !watched(p) {
		return nil
	}
	for _, w := range e.watchVals {
		if e.sameVal(A, va, w) && e.sameVal(B, vb, w) {
			return w
		}
	}
	return nil
}

func watched(p Path) bool {
	if len(watchSyms) == 0 {
		return false
	}
	for _, e := range p {
		if e.f < 0 {
			for _, t := range e.idx.t {
				if watchSyms[t.s] {
					return true
				}
			}
		}
	}
	return false
}

// old reports that v only mentions symbols that exist before the loop.
func old(v Val, mark int) bool {
	ok := true
	lin := func(l *Lin) {
		for _, t := range l.t {
			if t.s.id > mark {
				ok = false
			}
		}
	}
	switch v := v.(type) {
	case *Lin:
		lin(v)
	case StrV:
		lin(v.lo)
		lin(v.hi)
		lin(v.B.n)
	default:
		return false
	}
	return ok
}

func weaken(v Val) Val { return nil }

func skelOf(st *State, v Val) string {
	s := &shaper{st: st, objs: map[*Obj]int{}, names: map[string]int{}}
	s.val(v)
	return s.nc.String()
}

func (st *State) symMark() int {
	if m, ok := st.ext["$mark"].(*Lin); ok {
		c, _ := m.constInt()
		return int(c)
	}
	return 0
}

func (e *Engine) join(r *hdrRec, S *State) *State {
	if _, ok := r.base.ext["$mark"]; !ok {
		r.base.ext = copyExt(r.base.ext)
		r.base.ext["$mark"] = LC(int64(r.markID()))
	}
	A := r.cur
	G := A.clone()
	G.F = newFacts()
	j := &joiner{e: e, r: r, A: A, B: S, G: G, objs: map[[2]*Obj]*Obj{}, doneObj: map[*Obj]bool{}, names: map[string]string{}, bases: map[[2]*StrBase]*StrBase{}, ok: true, newBytes: map[*Sym]Set256{}}
	fa, fs := A.top(), S.top()
	gf := &Frame{fn: fa.fn, site: fa.site, defers: fa.defers, regs: map[ssa.Value]Val{}}
	for pass := 0; pass < 2; pass++ {
		for _, v := range sortedRegs(fa) {
			y, ok := fs.regs[v]
			if !ok {
				continue
			}
			if _, isPtr := fa.regs[v].(*PtrV); isPtr == (pass == 0) {
				gf.regs[v] = j.val(v.Name(), fa.regs[v], y)
			}
		}
	}
	G.frames = append([]*Frame(nil), A.frames...)
	G.frames[len(G.frames)-1] = gf
	if A.mon != nil {
		ia, ib := A.mon.Ints(), S.mon.Ints()
		if len(ia) != len(ib) {
			return nil
		}
		var out []*Lin
		for i := range ia {
			out = append(out, j.lin(fmt.Sprintf("mon%d", i), ia[i], ib[i], false))
		}
		G.mon = A.mon.WithInts(out)
	}
	G.ext = map[string]Val{}
	for _, k := range extKeys(A) {
		if y, ok := S.ext[k]; ok {
			G.ext[k] = j.val("ext."+k, A.ext[k], y)
		}
	}
	// heap
	G.heap = map[*Obj]*ObjState{}
	for n := 0; n < 8; n++ {
		var todo [][2]*Obj
		for k, g := range j.objs {
			if !j.doneObj[g] {
				todo = append(todo, k)
			}
		}
		if n == 0 {
			for o := range A.heap {
				if _, ok := j.objs[[2]*Obj{o, o}]; !ok {
					if _, inS := S.heap[o]; inS || !o.fresh {
						j.objs[[2]*Obj{o, o}] = o
						todo = append(todo, [2]*Obj{o, o})
					}
				}
			}
			for o := range S.heap {
				if _, ok := A.heap[o]; !ok && !o.fresh {
					if _, ok := j.objs[[2]*Obj{o, o}]; !ok {
						j.objs[[2]*Obj{o, o}] = o
						todo = append(todo, [2]*Obj{o, o})
					}
				}
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Slice(todo, func(a, b int) bool {
			if todo[a][0].id != todo[b][0].id {
				return todo[a][0].id < todo[b][0].id
			}
			return todo[a][1].id < todo[b][1].id
		})
		for _, k := range todo {
			g := j.objs[k]
			if j.doneObj[g] {
				continue
			}
			j.doneObj[g] = true
			_, inA := A.heap[k[0]]
			_, inS := S.heap[k[1]]
			if !inA && !inS && k[0] == k[1] {
				continue
			}
			j.mergeObj(k[0], k[1], g)
		}
	}
	if !j.ok {
		return nil
	}
	j.facts()
	for _, v := range j.valid {
		G.assumeValid(v)
	}
	G.project()
	G.trace = append(append([]string(nil), A.trace...), "(loop)")
	return G
}

// strBounds: no string starts before its text or ends before it starts, and
// nothing unsigned is negative.
func (st *State) strBounds() {
	for _, v := range sortedRegs(st.top()) {
		if g, ok := st.top().regs[v].(StrV); ok && g.B != nil {
			for _, l := range []*Lin{g.lo, g.length()} {
				if !l.isConst() && !st.F.Entails(l) {
					st.F.AssumeGe(l)
				}
			}
		}
		b, ok := v.Type().Underlying().(*types.Basic)
		if l, isL := st.top().regs[v].(*Lin); ok && isL && b.Info()&types.IsUnsigned != 0 && !l.isConst() && !st.F.Entails(l) {
			st.F.AssumeGe(l)
		}
	}
}

func copyExt(m map[string]Val) map[string]Val {
	n := make(map[string]Val, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (r *hdrRec) markID() int {
	// the newest symbol that existed in the base state
	max := 0
	see := func(l *Lin) {
		for _, t := range l.t {
			if t.s.id > max {
				max = t.s.id
			}
		}
	}
	var seeVal func(v Val)
	seeVal = func(v Val) {
		switch v := v.(type) {
		case *Lin:
			see(v)
		case StrV:
			see(v.lo)
			see(v.hi)
		case *SliceV:
			see(v.off)
			see(v.n)
			see(v.cap)
		case *StructV:
			for _, f := range v.f {
				seeVal(f)
			}
		case *TupleV:
			for _, f := range v.f {
				seeVal(f)
			}
		case *TermV:
			if v.structural() {
				for _, a := range v.args {
					seeVal(a)
				}
			}
		case *PtrV:
			for _, p := range v.p {
				if p.f < 0 {
					see(p.idx)
				}
			}
		}
	}
	for _, f := range r.base.frames {
		for _, v := range f.regs {
			seeVal(v)
		}
	}
	for _, os := range r.base.heap {
		for _, c := range os.cells {
			seeVal(c.v)
			for _, p := range c.p {
				if p.f < 0 {
					see(p.idx)
				}
			}
		}
	}
	for _, l := range r.base.F.lin {
		see(l)
	}
	if r.base.mon != nil {
		for _, l := range r.base.mon.Ints() {
			see(l)
		}
	}
	return max
}

// facts computes the facts of G: everything both instances entail among the
// candidate templates.
func (j *joiner) facts() {
	A, B, G := j.A, j.B, j.G
	f := G.F
	// shared substitutions
	for s, l := range A.F.sub {
		if l2, ok := B.F.sub[s]; ok && l2.Key() == l.Key() {
			f.sub[s] = l
		}
	}
	// sets
	for s, st := range A.F.set {
		if st2, ok := B.F.set[s]; ok {
			f.set[s] = st.Or(st2)
		}
	}
	for s, st := range j.newBytes {
		f.set[s] = st
	}
	for k, v := range A.F.atoms {
		if v2, ok := B.F.atoms[k]; ok && v == v2 {
			f.atoms[k] = v
		}
	}
	// groups of components that move together
	type grp struct {
		phi  *Sym
		lead *comp
	}
	groups := map[string]*grp{}
	var order []*grp
	for _, c := range j.comps {
		if !c.changed {
			continue
		}
		base := c.a
		if b, ok := j.r.baseInts()[c.path]; ok {
			base = b
		} else {
			j.r.baseInts()[c.path] = base
		}
		c.base = base
		key := A.F.norm(c.a.Sub(base)).Key() + "|" + B.F.norm(c.b.Sub(base)).Key()
		g := groups[key]
		if g == nil {
			g = &grp{phi: c.phi, lead: c}
			groups[key] = g
			order = append(order, g)
			c.g = LS(c.phi)
			continue
		}
		if c.phi == g.phi {
			c.g = LS(c.phi)
			continue
		}
		c.g = base.Sub(g.lead.base).Add(LS(g.phi))
		if c.g.coef(c.phi) == 0 {
			f.sub[c.phi] = c.g
		}
	}
	for _, g := range order {
		da, db := g.lead.a.Sub(g.lead.base), g.lead.b.Sub(g.lead.base)
		if A.F.Entails(da) && B.F.Entails(db) {
			f.AssumeGe(LS(g.phi).Sub(g.lead.base))
		} else if A.F.Entails(da.Neg()) && B.F.Entails(db.Neg()) {
			f.AssumeGe(g.lead.base.Sub(LS(g.phi)))
		}
	}
	// plain facts entailed by the other side
	seen := map[string]bool{}
	keep := func(l *Lin, own, other *Facts) {
		l = own.norm(l)
		if l.isConst() || seen[l.Key()] {
			return
		}
		seen[l.Key()] = true
		if other.Entails(l) {
			f.AssumeGe(l)
		}
	}
	for _, l := range A.F.lin {
		keep(l, A.F, B.F)
	}
	for _, l := range B.F.lin {
		keep(l, B.F, A.F)
	}
	// equalities lost as substitutions
	for s, l := range A.F.sub {
		if _, ok := f.sub[s]; !ok {
			_ = l
		}
	}
	for _, n := range A.F.neq {
		if B.F.EntailsNeq(n) {
			f.neq = append(f.neq, n)
		}
	}
	// templates over component pairs
	type trip struct{ a, b, g *Lin }
	var pool []trip
	pseen := map[string]bool{}
	addP := func(a, b, g *Lin) {
		k := g.Key()
		if pseen[k] {
			return
		}
		pseen[k] = true
		pool = append(pool, trip{a, b, g})
	}
	addP(LC(0), LC(0), LC(0))
	for i, w := range j.e.watch {
		addP(w, w, w)
		for k, w2 := range j.e.watch {
			for c := int64(-1); c <= 0 && i != k; c++ {
				if d := w.Sub(w2).AddC(c); A.F.Entails(d) && B.F.Entails(d) {
					f.AssumeGe(d)
					break
				}
			}
		}
	}
	var changed []trip
	cseen := map[string]bool{}
	for _, c := range j.comps {
		if c.changed {
			k := c.g.Key()
			if !cseen[k] {
				cseen[k] = true
				changed = append(changed, trip{c.a, c.b, c.g})
			}
		}
		if !strings.HasPrefix(c.path, "H") || c.changed || related(A.F, c.a) || related(B.F, c.b) {
			addP(c.a, c.b, c.g)
		}
	}
	// affine equalities among the components that hold in both instances
	{
		var vs []trip
		vseen := map[string]bool{}
		any := false
		for _, c := range j.comps {
			k := c.g.Key()
			if vseen[k] || c.g.isConst() || !c.changed && strings.HasPrefix(c.path, "H") && !related(A.F, c.a) && !related(B.F, c.b) {
				continue
			}
			vseen[k] = true
			any = any || c.changed
			vs = append(vs, trip{c.a, c.b, c.g})
		}
		if any && len(vs) > 1 {
			a, b, g := make([]*Lin, len(vs)), make([]*Lin, len(vs)), make([]*Lin, len(vs))
			for i, v := range vs {
				a[i], b[i], g[i] = A.F.norm(v.a), B.F.norm(v.b), v.g
			}
			for _, eq := range affineHull(a, b, g) {
				f.AssumeEq(eq)
			}
		}
	}
	// lengths of strings and slices in registers
	addLens := func() {
		for _, v := range sortedRegs(G.top()) {
			x, y, g := A.top().regs[v], B.top().regs[v], G.top().regs[v]
			if a, ok := x.(StrV); ok {
				if b, ok := y.(StrV); ok {
					if gg, ok := g.(StrV); ok && gg.B == a.B && gg.B == b.B {
						addP(a.length(), b.length(), f.norm(gg.length()))
						addP(gg.B.n, gg.B.n, gg.B.n)
					}
				}
			}
		}
		// lengths of tracked string bases
		var bs []string
		for n := range trackedBases {
			bs = append(bs, n)
		}
		sort.Strings(bs)
		for _, n := range bs {
			if b := baseTab[n]; b != nil {
				addP(b.n, b.n, b.n)
			}
		}
	}
	addLens()
	// lengths that facts relate to something
	lens := func(F *Facts) []*Sym {
		var out []*Sym
		seen := map[*Sym]bool{}
		for _, l := range F.lin {
			for _, t := range F.norm(l).t {
				if !seen[t.s] && strings.HasPrefix(t.s.name, "len(") && !t.s.finite() {
					seen[t.s] = true
					out = append(out, t.s)
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		return out
	}
	la, lb := lens(A.F), lens(B.F)
	var orgs []trip
	if len(la) <= 16 && len(lb) <= 16 {
		for _, x := range la {
			for _, y := range lb {
				if x == y {
					addP(LS(x), LS(x), LS(x))
					continue
				}
				ga, gb := symOrg[x], symOrg[y]
				if ga == nil || gb == nil {
					continue
				}
				if v := j.joinOrg(ga, gb); v != nil {
					if ss := symsOf(v); ga.part < len(ss) && !ss[ga.part].finite() {
						addP(LS(x), LS(y), LS(ss[ga.part]))
						orgs = append(orgs, trip{LS(x), LS(y), LS(ss[ga.part])})
					}
				}
			}
		}
	}
	// the same fact about corresponding memory
	for _, o := range orgs {
		x, y := o.a.t[0].s, o.b.t[0].s
		for _, l := range A.F.lin {
			if l = A.F.norm(l); l.coef(x) != 0 && B.F.Entails(l.subst(x, o.b)) {
				f.AssumeGe(l.subst(x, o.g))
			}
		}
		for _, l := range B.F.lin {
			if l = B.F.norm(l); l.coef(y) != 0 && A.F.Entails(l.subst(y, o.a)) {
				f.AssumeGe(l.subst(y, o.g))
			}
		}
	}
	for _, x := range changed {
		for _, y := range pool {
			if x.g.Key() == y.g.Key() {
				continue
			}
			try := func(k int64) bool {
				// x - y - k >= 0
				la, lb := x.a.Sub(y.a).AddC(-k), x.b.Sub(y.b).AddC(-k)
				if A.F.Entails(la) && B.F.Entails(lb) {
					f.AssumeGe(x.g.Sub(y.g).AddC(-k))
					return true
				}
				return false
			}
			if !try(1) {
				if !try(0) {
					try(-1)
				}
			}
			tryR := func(k int64) bool {
				la, lb := y.a.Sub(x.a).AddC(-k), y.b.Sub(x.b).AddC(-k)
				if A.F.Entails(la) && B.F.Entails(lb) {
					f.AssumeGe(y.g.Sub(x.g).AddC(-k))
					return true
				}
				return false
			}
			if !tryR(1) {
				if !tryR(0) {
					tryR(-1)
				}
			}
		}
	}
	// scans and named bytes present on both sides
	for _, s := range A.F.scans {
		for _, t := range B.F.scans {
			if s.base == t.base && s.kind == t.kind && A.F.norm(s.lo).Key() == B.F.norm(t.lo).Key() && A.F.norm(s.hi).Key() == B.F.norm(t.hi).Key() {
				u := s
				u.set = s.set.Or(t.set)
				f.scans = append(f.scans, u)
				break
			}
		}
	}
	for _, s := range A.F.bytes {
		for _, t := range B.F.bytes {
			if s.sym == t.sym && s.base == t.base && A.F.norm(s.idx).Key() == B.F.norm(t.idx).Key() {
				f.bytes = append(f.bytes, ByteAt{s.base, A.F.norm(s.idx), s.sym})
				break
			}
		}
	}
	// bytes at corresponding places
	have := map[*Sym]bool{}
	for _, b := range f.bytes {
		have[b.sym] = true
	}
	for _, s := range A.F.bytes {
		sa := A.F.setOf(s.sym)
		if sa == fullSet() {
			continue
		}
		for _, t := range B.F.bytes {
			sb := B.F.setOf(t.sym)
			if t.base != s.base || sb == fullSet() {
				continue
			}
			u := sa.Or(sb)
			if u == fullSet() {
				continue
			}
			for _, c := range changed {
				k := A.F.norm(s.idx.Sub(c.a))
				if !k.isConst() || B.F.norm(t.idx.Sub(c.b)).Key() != k.Key() {
					continue
				}
				idx := f.norm(c.g.Add(k))
				name := s.base.name + "[" + idx.Key() + "]"
				sym := byteTab[name]
				if sym == nil {
					sym = newByteSym(name)
					byteTab[name] = sym
				}
				if have[sym] {
					break
				}
				have[sym] = true
				f.bytes = append(f.bytes, ByteAt{s.base, idx, sym})
				f.set[sym] = u
				break
			}
		}
	}
	_ = big.NewInt
}

// related: a single symbol that facts relate to something.
func related(F *Facts, l *Lin) bool {
	l = F.norm(l)
	for _, t := range l.t {
		if t.s.finite() {
			return false
		}
	}
	if len(l.t) > 2 {
		return false
	}
	for _, t := range l.t {
		for _, x := range F.lin {
			if len(x.t) > 1 && x.coef(t.s) != 0 {
				return true
			}
		}
	}
	return false
}

var recBase = map[*hdrRec]map[string]*Lin{}

func (r *hdrRec) baseInts() map[string]*Lin {
	m := recBase[r]
	if m == nil {
		m = map[string]*Lin{}
		recBase[r] = m
	}
	return m
}

// ---- subsumption ----

type matcher struct {
	e     *Engine
	watch bool
	mark  int
	lateB [][2]*StrBase
	dbg   bool
	G, S  *State
	sigma map[*Sym]*Lin
	eqs   [][2]*Lin
	names map[string]string
	objs  map[*Obj]*Obj
	late  [][2]*Obj
	ok    bool
}

func (m *matcher) lin(g, s *Lin) {
	g, s = m.G.F.norm(g), m.S.F.norm(s)
	m.eqs = append(m.eqs, [2]*Lin{g, s})
}
func isPhi(s *Sym) bool {
	return strings.HasPrefix(s.name, "d.") || strings.HasPrefix(s.name, "phi.")
}

func (m *matcher) val(g, s Val) {
	if !m.ok {
		return
	}
	switch a := g.(type) {
	case nil:
		return
	case *Lin:
		if b, ok := s.(*Lin); ok {
			m.lin(a, b)
			return
		}
	case *Cond:
		b, ok := s.(*Cond)
		if !ok {
			break
		}
		if va, ka := m.G.knownCond(a); ka {
			vb, kb := m.S.knownCond(b)
			if kb && va == vb {
				return
			}
			m.ok = false
			return
		}
		if a.Key() == b.Key() || a.kind == 'a' && strings.HasPrefix(a.atom, "phi") {
			return
		}
	case StrV:
		b, ok := s.(StrV)
		if !ok {
			break
		}
		la, oka := a.lit()
		lb, okb := b.lit()
		if oka && okb && la == lb {
			return
		}
		if a.B == b.B {
			m.lin(a.lo, b.lo)
			m.lin(a.hi, b.hi)
			return
		}
		if strings.HasPrefix(a.B.name, "phi") && a.lo.Key() == "0" && a.hi.Key() == a.B.n.Key() {
			if o, ok := m.names[a.B.name]; ok && o != b.Key() {
				m.ok = false
				return
			}
			m.names[a.B.name] = b.Key()
			m.sigma[a.B.n.t[0].s] = m.S.F.norm(b.length())
			return
		}
		if baseOrg[a.B] != nil {
			m.lateB = append(m.lateB, [2]*StrBase{a.B, b.B})
			m.lin(a.lo, b.lo)
			m.lin(a.hi, b.hi)
			return
		}
	case *SliceV:
		b, ok := s.(*SliceV)
		if !ok {
			break
		}
		if a.isNil || b.isNil {
			m.ok = a.isNil == b.isNil
			return
		}
		if a.nilKey != b.nilKey && !strings.HasPrefix(a.nilKey, "phi") {
			break
		}
		m.obj(a.o, b.o)
		m.lin(a.off, b.off)
		m.lin(a.n, b.n)
		m.lin(a.cap, b.cap)
		if (a.emit == nil) != (b.emit == nil) {
			break
		}
		if a.emit != nil {
			if a.emit.Skel() != b.emit.Skel() {
				break
			}
			if ie, ok := a.emit.(intsEmit); ok {
				ia, ib := ie.Ints(), b.emit.(intsEmit).Ints()
				for i := range ia {
					m.lin(ia[i], ib[i])
				}
			} else if a.emit.Key() != b.emit.Key() {
				break
			}
		}
		return
	case *PtrV:
		b, ok := s.(*PtrV)
		if !ok || len(a.p) != len(b.p) {
			break
		}
		m.obj(a.o, b.o)
		for i := range a.p {
			if a.p[i].f != b.p[i].f {
				m.ok = false
				return
			}
			if a.p[i].f < 0 {
				m.lin(a.p[i].idx, b.p[i].idx)
			}
		}
		return
	case *StructV:
		b, ok := s.(*StructV)
		if !ok || len(a.f) != len(b.f) {
			break
		}
		for i := range a.f {
			m.val(a.f[i], b.f[i])
		}
		return
	case *TupleV:
		b, ok := s.(*TupleV)
		if !ok || len(a.f) != len(b.f) {
			break
		}
		for i := range a.f {
			m.val(a.f[i], b.f[i])
		}
		return
	case *IfaceV:
		b, ok := s.(*IfaceV)
		if !ok {
			break
		}
		if a.Key() == b.Key() {
			return
		}
		if a.t != nil && b.t != nil && a.t.String() == b.t.String() {
			m.val(a.v, b.v)
			return
		}
		if strings.HasPrefix(a.key, "phi") && b.t == nil && !b.isNil {
			va, ka := m.G.F.atoms["nil:"+a.key]
			vb, kb := m.S.F.atoms["nil:"+b.key]
			if ka && (!kb || va != vb) {
				break
			}
			return
		}
	case *FuncV:
		if a.Key() == keyOf(s) {
			return
		}
	case *TermV:
		if b, ok := s.(*TermV); ok && a.structural() && a.op == b.op && len(a.args) == len(b.args) {
			for i := range a.args {
				m.val(a.args[i], b.args[i])
			}
			return
		}
		if a.Key() == keyOf(s) || strings.HasPrefix(a.key, "phi") {
			if o, ok := m.names[a.key]; ok && o != keyOf(s) {
				break
			}
			m.names[a.key] = keyOf(s)
			return
		}
	case *NilV:
		if _, ok := s.(*NilV); ok {
			return
		}
	}
	m.ok = false
}

func (m *matcher) obj(g, s *Obj) {
	if o, ok := m.objs[g]; ok {
		if o != s {
			m.ok = false
		}
		return
	}
	m.objs[g] = s
	if g.src != nil && g != s {
		if s.src == nil {
			m.ok = false
			return
		}
		m.val(*g.src, *s.src)
	}
	if g != s && !strings.HasPrefix(g.name, "phi") {
		if objOrg[g] != nil && objOrg[s] != nil {
			m.late = append(m.late, [2]*Obj{g, s})
			return
		}
		m.ok = false
		return
	}
}

func (e *Engine) subsumed(r *hdrRec, S *State) bool {
	G := r.cur
	e.weak = nil
	m := &matcher{e: e, watch: len(e.watch) > 0, mark: r.base.symMark(), G: G, S: S, sigma: map[*Sym]*Lin{}, names: map[string]string{}, objs: map[*Obj]*Obj{}, ok: true, dbg: e.widenDbg}
	fg, fs := G.top(), S.top()
	for _, v := range sortedRegs(fg) {
		y, ok := fs.regs[v]
		if !ok {
			return e.notSub(1)
		}
		m.val(fg.regs[v], y)
	}
	if G.mon != nil {
		a, b := G.mon.Ints(), S.mon.Ints()
		for i := range a {
			m.lin(a[i], b[i])
		}
	}
	for k, v := range G.ext {
		if k == "$mark" {
			continue
		}
		y, ok := S.ext[k]
		if !ok {
			return e.notSub(2)
		}
		m.val(v, y)
	}
	if !m.ok {
		return e.notSub(3)
	}
	// heap: every object of S must be matched by G
	done := map[*Obj]bool{}
	for n := 0; n < 8; n++ {
		prog := false
		pairs := map[*Obj]*Obj{}
		for g, s := range m.objs {
			pairs[g] = s
		}
		if n == 0 {
			for o := range G.heap {
				if _, ok := pairs[o]; !ok {
					if _, inS := S.heap[o]; inS || !o.fresh {
						pairs[o] = o
					}
				}
			}
			for o := range S.heap {
				if _, ok := pairs[o]; !ok && !o.fresh {
					pairs[o] = o
				}
			}
		}
		var gs []*Obj
		for g := range pairs {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
		for _, g := range gs {
			if done[g] {
				continue
			}
			done[g] = true
			prog = true
			if !m.matchObj(g, pairs[g]) {
				if e.widenDbg {
					fmt.Printf("   object %s / %s: %v / %v\n", g.name, pairs[g].name, G.heap[g], S.heap[pairs[g]])
				}
				return e.notSub(4)
			}
		}
		if !prog {
			break
		}
	}
	if !m.ok {
		return e.notSub(5)
	}
	// solve for the generalised symbols
	pend := m.eqs
	// symbols the general state expresses through others follow them
	derived := func() {
		for again := true; again; {
			again = false
			for s, l := range G.F.sub {
				if _, done := m.sigma[s]; done || !isPhi(s) || s.finite() {
					continue
				}
				solved := true
				for _, t := range l.t {
					if _, done := m.sigma[t.s]; isPhi(t.s) && !t.s.finite() && !done {
						solved = false
					}
				}
				if solved {
					m.sigma[s] = S.F.norm(S.substOrg(l, m.sigma, 0))
					again = true
				}
			}
		}
	}
	var checks [][2]*Lin
	for pass := 0; pass < 12 && len(pend) > 0; pass++ {
		var next [][2]*Lin
		for _, q := range pend {
			// only phi symbols not yet solved may be defined
			if q[0].Key() == q[1].Key() && !m.hasUnsolved(q[0]) {
				continue
			}
			var u *Sym
			var uk int64
			nU := 0
			for _, t := range q[0].t {
				if _, done := m.sigma[t.s]; isPhi(t.s) && !t.s.finite() && !done {
					u, uk = t.s, t.k
					nU++
				}
			}
			if nU == 1 && (uk == 1 || uk == -1) {
				rest := q[0].subst(u, LC(0)).substAll(m.sigma)
				d := q[1].Sub(rest)
				if uk == -1 {
					d = d.Neg()
				}
				m.sigma[u] = S.F.norm(d)
				continue
			}
			if nU > 1 {
				next = append(next, q)
				continue
			}
			checks = append(checks, q)
		}
		derived()
		if len(next) == len(pend) {
			// what was there before the loop stays what it is
			rigid := false
			for _, q := range next {
				for _, t := range q[0].t {
					if _, done := m.sigma[t.s]; isPhi(t.s) && !t.s.finite() && !done && t.s.id <= m.mark {
						m.sigma[t.s] = S.F.norm(LS(t.s))
						rigid = true
					}
				}
			}
			if !rigid {
				// neither does what both states are expressed through
				for _, q := range next {
					for _, t := range q[0].t {
						if _, done := m.sigma[t.s]; isPhi(t.s) && !t.s.finite() && !done && q[1].coef(t.s) != 0 {
							m.sigma[t.s] = S.F.norm(LS(t.s))
							rigid = true
							break
						}
					}
				}
			}
			if !rigid {
				return e.notSub(7)
			}
		}
		pend = next
	}
	derived()
	for _, q := range checks {
		g := S.substOrg(q[0], m.sigma, 0)
		// finite phi bytes
		if b, v, ok := g.asFin(); ok && isPhi(b) && *v == identVec {
			jn := &joiner{}
			rs, ok := jn.finRange(S.F, q[1])
			if ok && rs.SubOf(G.F.setOf(b)) {
				continue
			}
		}
		if !S.F.EntailsEq(g.Sub(q[1])) {
			if e.widenDbg {
				fmt.Printf("   eq %s = %s (from %s)\n", g, q[1], q[0])
			}
			return e.notSub(6)
		}
	}
	for _, p := range m.lateB {
		if b := S.substBase(p[0], m.sigma); b != p[1] && b != S.substBase(p[1], nil) {
			if e.widenDbg {
				fmt.Printf("   base %s => %s / %s\n", p[0].name, b.name, p[1].name)
			}
			return e.notSub(16)
		}
	}
	for _, p := range m.late {
		if o := S.substObj(p[0], m.sigma, 0); o != p[1] && o != S.substObj(p[1], nil, 0) {
			return e.notSub(8)
		}
	}
	// facts; once only facts are in the way, e.weak is the general state
	// without those that do not carry over
	var badLin, badNeq []int
	var badAtom []string
	for i, l := range G.F.lin {
		if !S.F.Entails(S.substOrg(G.F.norm(l), m.sigma, 0)) {
			if e.widenDbg {
				fmt.Println("   fact lost:", G.F.norm(l), "=>", S.substOrg(G.F.norm(l), m.sigma, 0))
			}
			badLin = append(badLin, i)
		}
	}
	moved := map[*Sym]bool{}
	for _, b := range G.F.bytes {
		idx := G.F.norm(b.idx)
		to := S.F.norm(S.substOrg(idx, m.sigma, 0))
		if to.Key() == S.F.norm(idx).Key() {
			continue
		}
		moved[b.sym] = true
		if _, ok := G.F.set[b.sym]; !ok {
			continue
		}
		l := S.byteAt(StrV{b.base, LC(0), b.base.n}, to)
		rs, ok := (&joiner{}).finRange(S.F, S.F.norm(l))
		if !ok || !rs.SubOf(G.F.setOf(b.sym)) {
			return e.notSub(17)
		}
	}
	for s, st := range G.F.set {
		if isPhi(s) || moved[s] {
			continue
		}
		l := S.F.norm(S.substOrg(LS(s), m.sigma, 0))
		if len(l.t) == 1 && l.t[0].s == s {
			if !S.F.setOf(s).SubOf(st) {
				return e.notSub(10)
			}
			continue
		}
		rs, ok := (&joiner{}).finRange(S.F, l)
		if !ok || !rs.SubOf(st) {
			return e.notSub(11)
		}
	}
	for s, l := range G.F.sub {
		if isPhi(s) {
			continue
		}
		if !S.F.EntailsEq(S.substOrg(LS(s).Sub(l), m.sigma, 0)) {
			return e.notSub(12)
		}
	}
	for k, v := range G.F.atoms {
		if strings.Contains(k, "phi") {
			moved := false
			for s, l := range m.sigma {
				if strings.Contains(k, s.String()) && l.Key() != LS(s).Key() {
					moved = true
				}
			}
			if moved {
				badAtom = append(badAtom, k)
				continue
			}
		}
		if v2, ok := S.F.atoms[k]; !ok || v2 != v {
			badAtom = append(badAtom, k)
		}
	}
	for i, n := range G.F.neq {
		if !S.F.EntailsNeq(S.substOrg(n, m.sigma, 0)) {
			badNeq = append(badNeq, i)
		}
	}
	for _, sc := range G.F.scans {
		found := false
		for _, t := range S.F.scans {
			if sc.base == t.base && sc.kind == t.kind && G.F.norm(sc.lo).Key() == S.F.norm(t.lo).Key() && G.F.norm(sc.hi).Key() == S.F.norm(t.hi).Key() && t.set.SubOf(sc.set) {
				found = true
			}
		}
		if !found {
			return e.notSub(15)
		}
	}
	if len(badLin)+len(badNeq)+len(badAtom) == 0 {
		return true
	}
	w := G.clone()
	w.F.dropFacts(badLin, badNeq, badAtom)
	// what the facts dropped said together with others may still hold
	if len(badLin) <= 12 {
		tried := map[string]bool{}
		for _, i := range badLin {
			d := G.F.norm(G.F.lin[i])
			for j, r := range G.F.lin {
				if r = G.F.norm(r); j == i || len(r.t) == 0 || len(r.t) > 2 || len(d.t) > 2 {
					continue
				}
				l := d.Add(r)
				if len(l.t) != 2 || tried[l.Key()] || l.t[0].k*l.t[1].k != -1 {
					continue
				}
				tried[l.Key()] = true
				if S.F.Entails(S.substOrg(l, m.sigma, 0)) {
					w.F.AssumeGe(l)
				}
			}
		}
	}
	e.weak = w
	return e.notSub(9)
}

func (f *Facts) dropFacts(lin, neq []int, atoms []string) {
	cut := func(ls []*Lin, bad []int) []*Lin {
		var out []*Lin
		for i, l := range ls {
			drop := false
			for _, b := range bad {
				drop = drop || b == i
			}
			if !drop {
				out = append(out, l)
			}
		}
		return out
	}
	f.lin = cut(f.lin, lin)
	f.neq = cut(f.neq, neq)
	for _, k := range atoms {
		delete(f.atoms, k)
	}
}

func (e *Engine) notSub(n int) bool {
	if e.widenDbg {
		fmt.Println("   not subsumed: site", n)
	}
	return false
}

func (m *matcher) hasUnsolved(l *Lin) bool {
	for _, t := range l.t {
		if isPhi(t.s) && !t.s.finite() {
			if _, ok := m.sigma[t.s]; !ok {
				return true
			}
		}
	}
	return false
}

func (m *matcher) matchObj(g, s *Obj) bool {
	og, inG := m.G.heap[g]
	os, inS := m.S.heap[s]
	if !inG && !inS {
		return true
	}
	if og == nil {
		og = m.G.ostate(g)
	}
	if os == nil {
		os = m.S.ostate(s)
	}
	wild := strings.HasPrefix(og.origin, "loop")
	if !inG && strings.Contains(g.name, "(loop") && !m.G.mentions(g) {
		return true // arbitrary contents nobody has looked at
	}
	initG := og.origin == g.name
	if !wild && og.origin != os.origin && !(initG && os.origin == s.name && objOrg[g] != nil) {
		return false
	}
	norm := func(st *State, p Path) string {
		if watched(p) {
			return p.Key()
		}
		q := make(Path, len(p))
		for i, e := range p {
			if e.f < 0 {
				e.idx = st.F.norm(e.idx)
			}
			q[i] = e
		}
		return q.Key()
	}
	ms := map[string]cell{}
	for _, c := range os.cells {
		ms[norm(m.S, c.p)] = c
	}
	mg := map[string]bool{}
	for _, c := range og.cells {
		k := norm(m.G, c.p)
		if _, ok := ms[k]; !ok && watched(c.p) {
			if i, _ := m.S.lookupCell(s, c.p); i >= 0 {
				ms[k] = os.cells[i]
			}
		}
		if !wild && og.origin != "" && m.G.isInit(g, og, c) {
			// still the initial contents; any change in S is found below
			if sv, ok := ms[k]; !ok || m.S.isInit(s, os, sv) {
				continue
			}
		}
		mg[k] = true
		sv, ok := ms[k]
		var v Val
		if !ok && watched(c.p) {
			if i, _ := m.S.lookupCell(s, c.p); i >= 0 {
				sv, ok = os.cells[i], true
				ms[k] = sv
			}
		}
		if ok {
			v = sv.v
		} else {
			v = m.S.initCellPeek(s, os, c)
		}
		if m.watch && old(c.v, m.mark) && m.e.sameVal(m.S, c.v, v) {
			continue
		}
		m.val(c.v, v)
		if !m.ok {
			if m.dbg {
				fmt.Printf("   cell %s of %s: %s / %s\n", k, g.name, keyOf(c.v), keyOf(v))
			}
			return false
		}
	}
	if !wild {
		for _, c := range os.cells {
			k := norm(m.S, c.p)
			if mg[k] {
				continue
			}
			if !m.S.isInit(s, os, c) {
				return false
			}
		}
	}
	return true
}

// ---- plain joins ----

func (e *Engine) mergeStates(sts []*State) []*State {
	if len(sts) < 2 {
		return sts
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		s.gc()
		k := s.shape(true).exact.String()
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		out = append(out, e.mergeFactsOnly(groups[k])...)
	}
	return out
}

const lossyJoin = 12

func (e *Engine) mergeFactsOnly(g []*State) []*State {
	var keep []*State
	for _, s := range g {
		sub := false
		for i := 0; i < len(keep); i++ {
			k := keep[i]
			if factsImply(s.F, k.F) {
				sub = true
				mergeLin(k, s)
				break
			}
			if factsImply(k.F, s.F) {
				mergeLin(s, k)
				keep[i] = s
				sub = true
				break
			}
		}
		if !sub {
			keep = append(keep, s)
		}
	}
	if len(keep) > lossyJoin {
		m := keep[0]
		for _, s := range keep[1:] {
			m = weakJoin(m, s)
		}
		keep = []*State{m}
	}
	return keep
}

// mergeLin: the merged state lives as long as either part does.
func mergeLin(dst, src *State) {
	if len(dst.lin) == 0 || len(src.lin) == 0 {
		dst.lin = map[linRef]bool{}
		return
	}
	m := make(map[linRef]bool, len(dst.lin)+len(src.lin))
	for l := range dst.lin {
		m[l] = true
	}
	for l := range src.lin {
		m[l] = true
	}
	dst.lin = m
}

// factsImply: a's facts imply b's.
func factsImply(a, b *Facts) bool {
	for k, v := range b.atoms {
		if v2, ok := a.atoms[k]; !ok || v2 != v {
			return false
		}
	}
	for s, st := range b.set {
		if !a.setOf(s).SubOf(st) {
			return false
		}
	}
	for _, sc := range b.scans {
		ok := false
		for _, t := range a.scans {
			if sc.base == t.base && sc.kind == t.kind && sc.set == t.set && a.EntailsEq(sc.lo.Sub(t.lo)) && a.EntailsEq(sc.hi.Sub(t.hi)) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	for s, l := range b.sub {
		if !a.EntailsEq(LS(s).Sub(l)) {
			return false
		}
	}
	for _, l := range b.lin {
		if !a.Entails(l) {
			return false
		}
	}
	for _, n := range b.neq {
		if !a.EntailsNeq(n) {
			return false
		}
	}
	return true
}

func weakJoin(a, b *State) *State {
	g := a.clone()
	f := newFacts()
	for s, l := range a.F.sub {
		if b.F.EntailsEq(LS(s).Sub(l)) {
			f.sub[s] = l
		}
	}
	for _, l := range a.F.lin {
		if b.F.Entails(l) {
			f.lin = append(f.lin, l)
		}
	}
	for _, l := range b.F.lin {
		if a.F.Entails(l) {
			f.lin = append(f.lin, l)
		}
	}
	for s, st := range a.F.set {
		if st2, ok := b.F.set[s]; ok {
			f.set[s] = st.Or(st2)
		}
	}
	for k, v := range a.F.atoms {
		if v2, ok := b.F.atoms[k]; ok && v2 == v {
			f.atoms[k] = v
		}
	}
	for _, n := range a.F.neq {
		if b.F.EntailsNeq(n) {
			f.neq = append(f.neq, n)
		}
	}
	for _, s := range a.F.scans {
		for _, t := range b.F.scans {
			if s.base == t.base && s.kind == t.kind && s.lo.Key() == t.lo.Key() && s.hi.Key() == t.hi.Key() {
				u := s
				u.set = s.set.Or(t.set)
				f.scans = append(f.scans, u)
				break
			}
		}
	}
	for _, s := range a.F.bytes {
		for _, t := range b.F.bytes {
			if s.sym == t.sym && s.idx.Key() == t.idx.Key() {
				f.bytes = append(f.bytes, s)
				break
			}
		}
	}
	g.F = f
	mergeLin(g, b)
	return g
}

// mergeOutcomes merges identical return states.
func (e *Engine) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string][]Outcome{}
	var order []string
	var res []Outcome
	for _, o := range outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		if o.st.mon != nil {
			o.st.mon.Sync(e, o.st)
		}
		s := o.st
		if len(s.frames) == 0 {
			res = append(res, o)
			continue
		}
		sh := s.shape(true)
		for _, r := range o.ret {
			sh.both("R=")
			sh.val(r)
		}
		k := sh.exact.String()
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	for _, k := range order {
		g := groups[k]
		var sts []*State
		for _, o := range g {
			sts = append(sts, o.st)
		}
		for _, s := range e.mergeFactsOnly(sts) {
			res = append(res, Outcome{st: s, ret: g[0].ret, site: g[0].site})
		}
	}
	return res
}

// mentions reports that a register holds part of the initial contents of o.
func (st *State) mentions(o *Obj) bool {
	hit := false
	for _, fr := range st.frames {
		for _, v := range fr.regs {
			linsIn(v, func(l *Lin) {
				if l == nil {
					return
				}
				for _, t := range l.t {
					if strings.Contains(t.s.name, o.name) {
						hit = true
					}
				}
			})
		}
	}
	return hit
}
