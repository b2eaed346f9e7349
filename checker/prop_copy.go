package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// copier is the pair of recursive functions behind Set, Append and Replace:
// the deep copy (returns the id of the copy) and the search for a node among
// the descendants of another (returns a bool), found by their signatures.
type copier struct {
	nj                 *Njson
	moves              bool // the copies made move the array of nodes
	either             bool // or do not
	movesNow           bool // this one does
	copy, has          *ssa.Function
	cD, cOther, cN, cI int // parameters of copy: document, source document, source node or its id
	hD, hID, hTarget   int
}

func (c *Ctx) copier(nj *Njson) *copier {
	cp := &copier{nj: nj, cD: -1, cOther: -1, cN: -1, cI: -1, hD: -1, hID: -1, hTarget: -1}
	seen := map[*ssa.Function]bool{}
	for _, m := range []string{"Set", "Append", "Replace"} {
		fn := c.P.fn("", "Node."+m)
		if !c.Anchor(fn != nil, "njson.Node."+m) {
			return nil
		}
		for _, h := range c.P.recursionHeads(fn) {
			if seen[h] {
				continue
			}
			seen[h] = true
			res := h.Signature.Results()
			if res.Len() != 1 {
				continue
			}
			if isBoolT(res.At(0).Type()) {
				cp.has = h
			} else if isInt(res.At(0).Type()) {
				cp.copy = h
			}
		}
	}
	if !c.Anchor(cp.copy != nil && cp.has != nil && len(seen) == 2, "the recursive copy and containment functions behind Set, Append and Replace") {
		return nil
	}
	docP := types.NewPointer(nj.Document)
	for i, q := range cp.copy.Params {
		switch {
		case types.Identical(q.Type(), docP) && cp.cD < 0:
			cp.cD = i
		case types.Identical(q.Type(), docP):
			cp.cOther = i
		case types.Identical(q.Type(), types.NewPointer(nj.node)):
			cp.cN = i
		case isInt(q.Type()):
			cp.cI = i
		}
	}
	for i, q := range cp.has.Params {
		switch {
		case types.Identical(q.Type(), docP):
			cp.hD = i
		case isInt(q.Type()) && cp.hID < 0:
			cp.hID = i
		case isInt(q.Type()):
			cp.hTarget = i
		}
	}
	ok := cp.cD >= 0 && cp.cOther >= 0 && (cp.cN >= 0) != (cp.cI >= 0) && cp.hD >= 0 && cp.hID >= 0 && cp.hTarget >= 0
	if !c.Anchor(ok, "parameters of "+cp.copy.Name()+" (document, source, node) and "+cp.has.Name()+" (document, id, target)") {
		return nil
	}
	return cp
}

// hasAtom is the outcome of a containment query as a condition.
func hasKey(st *State, d *PtrV, id, target *Lin) string {
	return fmt.Sprintf("contains(%s,%s,%s)", d.o.name, keyOf(st.F.norm(id)), keyOf(st.F.norm(target)))
}

// contract interprets calls of the two functions. Both preserve every node
// that exists; copy adds nodes, the first of which is the copy.
func (cp *copier) contract(onCopy func(e *Engine, st *State, ci *callInfo, d, other *PtrV, src *PtrV, id *Lin) []Outcome, skip *ssa.Function) func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	nj := cp.nj
	return func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		switch {
		case ci.fn == cp.has && !(ci.fn == skip && e.depth(st, ci.fn) == 0):
			d, ok := ci.args[cp.hD].(*PtrV)
			if !ok {
				return nil, false
			}
			id, tgt := asLin(ci.args[cp.hID], nil), asLin(ci.args[cp.hTarget], nil)
			k := hasKey(st, d, id, tgt)
			st.ext["has:"+k] = LC(1)
			return []Outcome{{st: st, ret: []Val{cAtom(k)}}}, true
		case ci.fn == cp.copy && !(ci.fn == skip && e.depth(st, ci.fn) == 0):
			d, ok := ci.args[cp.cD].(*PtrV)
			other, ok2 := ci.args[cp.cOther].(*PtrV)
			if !ok || !ok2 {
				return nil, false
			}
			var src *PtrV
			var outs []Outcome
			if cp.cN >= 0 {
				src, _ = ci.args[cp.cN].(*PtrV)
			}
			id := st.F.norm(nj.nodes(st, d).n)
			for _, moves := range []bool{false, true} {
				if moves != cp.moves && !cp.either {
					continue
				}
				cp.movesNow = moves
				nj.grown(e, st.clone(), d, moves, func(st *State) {
					if onCopy == nil {
						outs = append(outs, Outcome{st: st, ret: []Val{id}})
						return
					}
					outs = append(outs, onCopy(e, st, ci, d, other, src, id)...)
				})
			}
			return outs, true
		}
		return nil, false
	}
}

// grown adds an unknown positive number of nodes to d, in place or in a new
// array; existing nodes keep their contents, pointers to them see the old
// array in the second case.
func (nj *Njson) grown(e *Engine, st *State, d *PtrV, moves bool, f func(st *State)) {
	cur := nj.nodes(st, d)
	n := cur.n
	keep := func(st *State, from *SliceV) *ObjState {
		havocN++
		ns := &ObjState{origin: fmt.Sprintf("grown%d", havocN)}
		for _, c := range st.ostate(from.o).cells {
			if len(c.p) > 0 && c.p[0].f < 0 && st.F.Entails(from.off.Add(n).Sub(c.p[0].idx).AddC(-1)) {
				ns.cells = append(ns.cells, c)
			}
		}
		return ns
	}
	more := func(st *State) *Lin {
		havocN++
		n2 := symRange(fmt.Sprintf("nodes'%d", havocN), 0, 1<<46)
		st.F.AssumeGe(n2.Sub(n).AddC(-1))
		return n2
	}
	set := func(st *State, sl *SliceV) {
		st.store(d.o, d.p.with(pe{f: nj.dNodes}), fieldTyp(nj.Document, nj.dNodes), sl)
	}
	if !moves {
		n2 := more(st)
		if st.F.AssumeGe(cur.cap.Sub(n2)) && st.F.Feasible() {
			st.setOState(cur.o, keep(st, cur))
			set(st, &SliceV{o: cur.o, off: cur.off, n: n2, cap: cur.cap})
			f(st)
		}
		return
	}
	// moved: the array in use keeps its identity, everything that pointed to it
	// now points to the one left behind
	n2 := more(st)
	havocN++
	c2 := symRange(fmt.Sprintf("cap'%d", havocN), 0, 1<<46)
	st.F.AssumeGe(c2.Sub(n2))
	if !st.F.Feasible() {
		return
	}
	old := newObj(cur.o.name+" (left behind)", cur.o.typ)
	old.region, old.fresh, old.name, old.tag = true, true, cur.o.name+" (left behind)", "stale"
	ns := keep(st, cur)
	havocN++
	st.setOState(old, &ObjState{origin: fmt.Sprintf("left%d", havocN), cells: ns.cells})
	st.replaceObj(cur.o, old)
	st.setOState(cur.o, ns)
	set(st, &SliceV{o: cur.o, off: cur.off, n: n2, cap: c2})
	f(st)
}

// replaceObj redirects every register and memory cell that points into a to b.
func (st *State) replaceObj(a, b *Obj) {
	var sub func(v Val) Val
	sub = func(v Val) Val {
		switch v := v.(type) {
		case *PtrV:
			if v.o == a {
				c := *v
				c.o = b
				return &c
			}
		case *SliceV:
			if v.o == a {
				c := *v
				c.o = b
				return &c
			}
		case *StructV:
			ch := false
			c := &StructV{f: append([]Val(nil), v.f...)}
			for i := range c.f {
				n := sub(c.f[i])
				ch = ch || n != c.f[i]
				c.f[i] = n
			}
			if ch {
				return c
			}
		case *TupleV:
			c := *v
			_ = c
		case *IfaceV:
			if v.v != nil {
				if n := sub(v.v); n != v.v {
					c := *v
					c.v = n
					return &c
				}
			}
		}
		return v
	}
	for i, f := range st.frames {
		g := f.clone()
		for r, v := range g.regs {
			g.regs[r] = sub(v)
		}
		st.frames[i] = g
	}
	for o, os := range st.heap {
		ch := false
		cs := make([]cell, len(os.cells))
		for i, c := range os.cells {
			n := sub(c.v)
			if n != c.v {
				ch = true
			}
			cs[i] = cell{c.p, n, c.t}
		}
		if ch {
			st.heap[o] = &ObjState{origin: os.origin, cells: cs}
		}
	}
	for k, v := range st.ext {
		st.ext[k] = sub(v)
	}
}

// oneArray gives the one array of the type of a that the running function
// builds (a itself or one allocated since) the name dst.
func (st *State) oneArray(a, not, dst *Obj) {
	if len(st.frames) != 1 {
		return
	}
	var found *Obj
	for _, v := range st.frames[len(st.frames)-1].regs {
		s, ok := v.(*SliceV)
		if !ok || s.isNil || s.o == nil || s.o == not || s.o == dst || s.o != a && (!s.o.fresh || !types.Identical(s.o.typ, a.typ)) {
			continue
		}
		if z, ok := st.F.norm(s.off).constInt(); !ok || z != 0 || found != nil && found != s.o {
			return
		}
		found = s.o
	}
	if found == nil {
		return
	}
	dst.typ = a.typ
	state := st.ostate(found)
	st.replaceObj(found, dst)
	delete(st.heap, found)
	st.setOState(dst, &ObjState{origin: state.origin, cells: state.cells})
}

// onlyEntry forgets the elements of a but the one at index k.
func (st *State) onlyEntry(a *Obj, k *Lin) {
	state := st.heap[a]
	if state == nil {
		return
	}
	ns := &ObjState{origin: "other copied values"}
	for _, c := range state.cells {
		if len(c.p) == 0 || c.p[0].f >= 0 {
			return
		}
		switch {
		case st.F.EntailsEq(c.p[0].idx.Sub(k)):
			p := append(Path{{f: -1, idx: k}}, c.p[1:]...)
			ns.cells = append(ns.cells, cell{p, c.v, c.t})
		case !st.F.EntailsNeq(c.p[0].idx.Sub(k)):
			return
		}
	}
	st.setOState(a, ns)
}

// ---- Set, Replace, Append ----

// given is one configuration of a value passed to an edit.
type given struct {
	name string
	v    *StructV
	d    *PtrV // its document
	id   *Lin
	live bool
}

// given adds a value passed to an edit of the receiver to the state of rc.
// Everything that decides what becomes of it is known from the start.
func (nj *Njson) given(rc nodeRecv, cp *copier, which, tag string, before []given) given {
	uintT := types.Typ[types.Uint]
	st := rc.st
	id := symVal(tag+".id", uintT).(*Lin)
	g := given{name: which, id: id}
	docP := types.NewPointer(nj.Document)
	keepVals(id)
	other := func() *PtrV {
		d := nj.doc("other" + tag[len("value"):])
		a, b := keyOf(rc.d), keyOf(d)
		if b < a {
			a, b = b, a
		}
		st.F.atoms["eq:"+a+"=="+b] = false
		return d
	}
	of := func(d *PtrV, live bool) {
		g.d, g.live = d, live
		for _, b := range before {
			if b.d == d && b.live == live && b.id != g.id {
				st.F.AssumeNe(b.id.Sub(g.id))
			}
		}
		g.v = nj.nodeVal(g.id, nj.rev(st, d), d)
		if live {
			st.F.AssumeGe(nj.nodes(st, d).n.Sub(g.id).AddC(-1))
			nj.raw(st, d, g.id)
			nj.values(st, d, g.id)
		} else {
			st.F.AssumeGe(g.id.Sub(nj.nodes(st, d).n))
		}
	}
	stale := func(d *PtrV) {
		g.d = d
		rev := symVal(tag+".rev", uintT).(*Lin)
		keepVals(rev)
		st.F.AssumeNe(rev.Sub(nj.rev(st, d)))
		g.v = nj.nodeVal(id, rev, d)
	}
	switch which {
	case "the same again":
		f := before[0]
		g.id, g.d, g.v, g.live = f.id, f.d, f.v, f.live
	case "itself", "itself, the root", "itself, part of a value":
		g.id = rc.id
		of(rc.d, true)
		st.F.atoms[hasKey(st, rc.d, g.id, rc.id)] = true
		if which != "itself, the root" {
			st.F.AssumeNe(rc.id)
		}
		nj.setRoot(st, rc.d, rc.id, which != "itself, part of a value")
	case "the root of the same document":
		st.F.AssumeEq(id)
		st.F.AssumeNe(id.Sub(rc.id))
		of(rc.d, true)
		nj.setRoot(st, rc.d, id, true)
	case "a free-standing value", "a free-standing value around it", "a part of a value of the same document":
		st.F.AssumeNe(id)
		st.F.AssumeNe(id.Sub(rc.id))
		of(rc.d, true)
		nj.setRoot(st, rc.d, id, which != "a part of a value of the same document")
		if which != "a part of a value of the same document" {
			st.F.atoms[hasKey(st, rc.d, id, rc.id)] = which == "a free-standing value around it"
		}
	case "a node of another document":
		of(other(), true)
		nj.infoOf(st, g.d, id)
	case "a reference without a document":
		g.v = nj.nodeVal(id, symVal(tag+".rev", uintT).(*Lin), &NilV{docP})
	case "a stale reference":
		stale(other())
	case "a stale reference to the same document":
		stale(rc.d)
	case "a missing node of the same document":
		of(rc.d, false)
	case "a missing node of another document":
		of(other(), false)
	}
	return g
}

// setRoot assumes the free-standing flag of a node.
func (nj *Njson) setRoot(st *State, d *PtrV, id *Lin, on bool) {
	inf := st.F.norm(nj.infoOf(st, d, id))
	for _, t := range inf.t {
		if !t.s.finite() {
			continue
		}
		set, v := st.F.setOf(t.s.finBase()), t.s.finVec()
		var keep Set256
		any := false
		for i := 0; i < 256; i++ {
			if set.Has(i) && (v[i]*t.k&nj.infRoot != 0) == on {
				keep.Add(i)
			}
			any = any || set.Has(i) && v[i]*t.k&nj.infRoot != 0
		}
		if any {
			st.F.setSet(t.s.finBase(), keep)
		}
	}
}

var givenKinds = []string{"a free-standing value", "itself", "itself, the root", "itself, part of a value", "the root of the same document", "a free-standing value around it", "a part of a value of the same document", "a node of another document", "a reference without a document", "a stale reference", "a stale reference to the same document", "a missing node of the same document", "a missing node of another document"}

// attached checks that id x, now referred to by the receiver, is the given
// value itself (when that may be attached) or a fresh copy of it.
func (cp *copier) attached(e *Engine, o *Outcome, rc nodeRecv, g given, x *Lin, cons string) {
	nj, st := cp.nj, o.st
	s0 := pre(st)
	copies := countExt(st, "copies")
	ck := func(ok bool, what, f string, a ...interface{}) bool {
		return e.Check(ok, st, o.site, "attach", cons+" "+what, f, a...)
	}
	if g.name == "a free-standing value" {
		ck(copies == 0 && st.F.EntailsEq(x.Sub(g.id)), "value", "%s attaches node %s instead of the value", cons, keyOf(st.F.norm(x)))
		inf0, inf := nj.infoOf(s0, g.d, g.id), nj.infoOf(st, g.d, g.id)
		ck(rootBit(nj, st, inf0) == 1 && st.F.EntailsEq(inf0.Sub(inf).AddC(-nj.infRoot)), "flags", "%s: the attached node's flags are %s, not what they were (%s) without the mark of free-standing nodes", cons, keyOf(st.F.norm(inf)), keyOf(st.F.norm(inf0)))
		return
	}
	id, _ := st.ext["copy.id"].(*Lin)
	if ck(copies == 1 && id != nil, "copy", "%s attaches node %s and makes %d copies instead of one", cons, keyOf(st.F.norm(x)), copies) {
		ck(st.F.EntailsEq(x.Sub(id)), "copy", "%s attaches node %s instead of the copy it made", cons, keyOf(st.F.norm(x)))
	}
}

// rootBit decides the free-standing flag of an info value: 1 set, -1 clear, 0 open.
func rootBit(nj *Njson, st *State, inf *Lin) int {
	inf = st.F.norm(inf)
	if c, ok := inf.constInt(); ok {
		if c&nj.infRoot != 0 {
			return 1
		}
		return -1
	}
	if ok, _, _ := maskDecomp(st.F, inf); !ok || inf.c.Sign() < 0 {
		return 0
	}
	res := -1
	if inf.c.Uint64()&uint64(nj.infRoot) != 0 {
		res = 1
	}
	for _, t := range inf.t {
		set, v := st.F.setOf(t.s.finBase()), t.s.finVec()
		on, off := false, false
		for i := 0; i < 256; i++ {
			if set.Has(i) {
				if v[i]*t.k&nj.infRoot != 0 {
					on = true
				} else {
					off = true
				}
			}
		}
		if on && off {
			return 0
		}
		if on {
			res = 1
		}
	}
	return res
}

func (c *Ctx) editAttach(nj *Njson, cp *copier, name string) {
	fn := c.P.fn("", "Node."+name)
	kind := map[string]string{"Set": "TypeObject", "Replace": "TypeArray"}[name]
	for _, gk := range givenKinds {
		for _, moves := range []bool{false, true} {
			for _, mode := range []string{"node", "entries", "frame"} {
				cp.moves = moves
				c.attach1(nj, cp, fn, name, kind, gk, mode, false)
			}
		}
	}
	cp.moves = false
	for _, mode := range []string{"node", "entries", "frame"} {
		c.attach1(nj, cp, fn, name, kind, givenKinds[0], mode, true)
	}
}

func (c *Ctx) attach1(nj *Njson, cp *copier, fn *ssa.Function, name, kind, gk string, mode string, otherKind bool) {
	frame, entries := mode == "frame", mode == "entries"
	r := c.runner(nj)
	e := r.e
	rc := nj.liveKind(kind)
	if gk == "itself, the root" {
		st := newState()
		d := nj.doc("doc")
		n := nj.nodeVal(LC(0), nj.rev(st, d), d)
		st.F.AssumeGe(nj.nodes(st, d).n.AddC(-1))
		rc = nj.ofKind(nodeRecv{"live", st, n, d, LC(0)}, kind)
	}
	cons := "Node." + name + " of " + gk
	if otherKind {
		rc = nj.liveNotKind(kind)
		cons += " on another type"
	}
	if cp.moves {
		cons += ", the nodes move"
	}
	g := nj.given(rc, cp, gk, "value", nil)
	if cp.moves && !g.live {
		return
	}
	args := nj.symArgs(rc.st, fn, rc.n)
	vi := -1
	for i, q := range fn.Params {
		if i > 0 && types.Identical(q.Type(), nj.Node) {
			vi = i
		}
	}
	if !c.Anchor(vi > 0, "the value parameter of Node."+name) {
		return
	}
	args[vi] = g.v
	k := symVal("k", types.Typ[types.Int]).(*Lin)
	vs0 := nj.values(rc.st, rc.d, rc.id)
	inf0, raw0 := nj.infoOf(rc.st, rc.d, rc.id), nj.raw(rc.st, rc.d, rc.id)
	rev0 := nj.rev(rc.st, rc.d)
	n0 := nj.nodes(rc.st, rc.d).n
	keepVals(vs0.n, vs0.off, rc.id, n0, k)
	keepVals(args[1:]...)
	if entries {
		e.watch = []*Lin{k}
		watchSyms[k.t[0].s] = true
		for f := 0; f < nj.V.Underlying().(*types.Struct).NumFields(); f++ {
			e.watchVals = append(e.watchVals, nj.elem(rc.st, vs0, k, f))
		}
		rc.st.F.AssumeGe(k)
		rc.st.F.AssumeGe(vs0.n.Sub(k).AddC(-1))
	}
	except := []*Lin{rc.id}
	if g.live && g.d.o == rc.d.o && g.id != rc.id {
		except = append(except, g.id)
	}
	if frame {
		nj.frameIndex(rc.st, rc.d)
		j := rc.st.ext["frame.j"].(*Lin)
		keepVals(j)
		for _, x := range except {
			rc.st.F.AssumeNe(j.Sub(x))
		}
	}
	if name == "Set" {
		rc.st.mon = nj.searchMon(rc.d, rc.id, args[1].(StrV))
	} else {
		i := args[1].(*Lin)
		rc.st.mon = rangeMon(func() []*Lin { return []*Lin{i, vs0.n.Sub(i).AddC(-1)} })
	}
	noPanic(e, cons)
	e.H.Call = cp.contract(func(e *Engine, st *State, ci *callInfo, d, other, src *PtrV, id *Lin) []Outcome {
		site := ci.ins.(ssa.Instruction)
		st.ext["copies"] = LC(countExt(st, "copies") + 1)
		st.ext["copy.id"] = id
		ok := d.o == rc.d.o && g.live && other.o == g.d.o
		ok = ok && cp.isSource(st, ci, g.d, g.id)
		e.Check(ok, st, site, "attach", cons+" source", "%s copies something else than the value (%s)", cons, keyOf(src))
		return []Outcome{{st: st, ret: []Val{id}}}
	}, nil)
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		for _, o := range p.o.leaves() {
			e.Check(o.tag != "stale", st, ins, "stale-pointer", cons, "%s writes to a node through a pointer taken before the document grew", cons)
		}
	}
	outs := r.run(rc.st, fn, args...)
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		st := o.st
		dbgVals(o, nj, rc)
		if frame {
			nj.frame(e, o, rc.d, cons, except...)
			continue
		}
		e.Check(st.F.EntailsEq(nj.rev(st, rc.d).Sub(rev0)), st, o.site, "rev", cons, "%s changes the document revision", cons)
		e.Check(st.F.EntailsEq(nj.infoOf(st, rc.d, rc.id).Sub(inf0)), st, o.site, "type", cons, "%s changes the node's type or flags", cons)
		e.Check(e.sameVal(st, nj.raw(st, rc.d, rc.id), raw0), st, o.site, "text", cons, "%s changes the node's text", cons)
		vs := nj.values(st, rc.d, rc.id)
		m := st.ref(e)
		nothing := !g.live || otherKind || m.ctl == "out"
		if g.live && g.d.o == rc.d.o && g.id != rc.id {
			// the value itself, apart from its flag
			e.Check(e.sameVal(st, nj.raw(st, g.d, g.id), nj.raw(pre(st), g.d, g.id)), st, o.site, "frame", cons+" value text", "%s changes the value's text", cons)
			if nothing || gk != "a free-standing value" {
				e.Check(e.sameVal(st, nj.infoOf(st, g.d, g.id), nj.infoOf(pre(st), g.d, g.id)), st, o.site, "frame", cons+" value type", "%s changes the value's type or flags", cons)
			}
		}
		if nothing {
			e.Check(countExt(st, "copies") == 0 && st.F.EntailsEq(nj.nodes(st, rc.d).n.Sub(n0)), st, o.site, "count", cons, "%s adds nodes although there is nothing to attach", cons)
			if e.Check(vs != nil && st.F.EntailsEq(vs.n.Sub(vs0.n)), st, o.site, "values", cons+" count", "%s changes the number of values to %s", cons, keyOf(vs)) && entries {
				nj.elemIs(e, st, o, vs, k, vs0, k, cons, "unchanged")
			}
			continue
		}
		switch {
		case m.ctl == "hit" || m.ctl == "in":
			at := LC(0)
			if m.ctl == "hit" {
				at = st.F.norm(m.r[0])
			} else {
				at = args[1].(*Lin)
			}
			if !e.Check(vs != nil && st.F.EntailsEq(vs.n.Sub(vs0.n)), st, o.site, "values", cons+" count", "%s changes the number of values to %s", cons, keyOf(vs)) {
				continue
			}
			cp.attached(e, o, rc, g, nj.elemID(st, vs, at), cons)
			key := nj.elemKey(st, vs, at)
			want := strLit("")
			if m.ctl == "hit" {
				want = args[1].(StrV)
			}
			e.Check(e.sameVal(st, key, want) || m.ctl == "hit" && e.sameVal(st, key, nj.elemKey(pre(st), vs0, at)), st, o.site, "values", cons+" key", "%s: the entry replaced gets key %s", cons, keyOf(key))
			if t := st.clone(); entries && t.F.AssumeNe(k.Sub(at)) {
				nj.elemIs(e, t, o, vs, k, vs0, k, cons, "other entries")
			}
		case m.ctl == "miss":
			if !e.Check(vs != nil && st.F.EntailsEq(vs.n.Sub(vs0.n).AddC(-1)), st, o.site, "values", cons+" count", "%s: the node has %s values instead of one more than %s", cons, keyOf(vs), keyOf(vs0.n)) {
				continue
			}
			cp.attached(e, o, rc, g, nj.elemID(st, vs, vs0.n), cons)
			key := nj.elemKey(st, vs, vs0.n)
			e.Check(e.sameVal(st, key, args[1]), st, o.site, "values", cons+" key", "%s: the new entry gets key %s", cons, keyOf(key))
			if t := st.clone(); entries {
				nj.elemIs(e, t, o, vs, k, vs0, k, cons, "other entries")
			}
		default:
			e.Check(false, st, o.site, "search", cons, "%s returns before it is determined where the value goes (%s)", cons, m.Key())
		}
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	r.done()
}

// appends decides Append of up to two values: each live one ends up, in
// order, behind the existing entries, itself or as a copy.
func (c *Ctx) appends(nj *Njson, cp *copier, kinds []string, mode string, otherKind bool) {
	fn := c.P.fn("", "Node.Append")
	frame, entries := mode == "frame", mode == "entries"
	r := c.runner(nj)
	e := r.e
	rc := nj.liveKind("TypeArray")
	e.constLim = 24 // the number of values is known: their loop is unrolled
	cons := "Node.Append of " + strings.Join(kinds, " and ")
	if len(kinds) == 0 {
		cons += "nothing"
	}
	if otherKind {
		rc = nj.liveNotKind("TypeArray")
		cons += " to another type"
	}
	if cp.moves {
		cons += ", the nodes move"
	}
	var gs []given
	any := false
	for i, k := range kinds {
		tag := "value"
		if i > 0 {
			tag = fmt.Sprint("value", i+1)
		}
		g := nj.given(rc, cp, k, tag, gs)
		gs = append(gs, g)
		any = any || g.live
	}
	if cp.moves && (!any || otherKind) {
		return
	}
	s := rc.st
	sig := fn.Signature
	if !c.Anchor(sig.Variadic() && sig.Params().Len() == 1, "the values of Node.Append") {
		return
	}
	var vals Val
	if sl := sig.Params().At(0).Type(); len(gs) == 0 {
		vals = zeroVal(sl)
	} else {
		o := newObj("values", nj.Node)
		o.region = true
		for i, g := range gs {
			s.store(o, Path{{f: -1, idx: LC(int64(i))}}, nj.Node, g.v)
		}
		vals = &SliceV{o: o, off: LC(0), n: LC(int64(len(gs))), cap: LC(int64(len(gs)))}
	}
	k := symRange("k", 0, 1<<46)
	vs0 := nj.values(s, rc.d, rc.id)
	vs0.o.plain = true
	inf0, raw0 := nj.infoOf(s, rc.d, rc.id), nj.raw(s, rc.d, rc.id)
	rev0 := nj.rev(s, rc.d)
	n0 := nj.nodes(s, rc.d).n
	keepVals(vs0.n, vs0.off, rc.id, n0, k)
	if entries {
		e.watch = []*Lin{k}
		watchSyms[k.t[0].s] = true
		for f := 0; f < nj.V.Underlying().(*types.Struct).NumFields(); f++ {
			e.watchVals = append(e.watchVals, nj.elem(s, vs0, k, f))
		}
		s.F.AssumeGe(vs0.n.Sub(k).AddC(-1))
	}
	except := []*Lin{rc.id}
	for _, g := range gs {
		if g.live && g.d.o == rc.d.o && g.id != rc.id {
			except = append(except, g.id)
		}
	}
	if frame {
		nj.frameIndex(s, rc.d)
		j := s.ext["frame.j"].(*Lin)
		keepVals(j)
		for _, x := range except {
			s.F.AssumeNe(j.Sub(x))
		}
	}
	noPanic(e, cons)
	e.H.Call = cp.contract(func(e *Engine, st *State, ci *callInfo, d, other, src *PtrV, id *Lin) []Outcome {
		n := countExt(st, "copies")
		st.ext["copies"] = LC(n + 1)
		st.ext[fmt.Sprint("copy.", n)] = id
		ok := false
		for _, g := range gs {
			ok = ok || d.o == rc.d.o && g.live && other.o == g.d.o && cp.isSource(st, ci, g.d, g.id)
		}
		st.ext[fmt.Sprint("copy.of.", n)] = LC(-1)
		for i, g := range gs {
			if g.live && other.o == g.d.o && cp.isSource(st, ci, g.d, g.id) {
				st.ext[fmt.Sprint("copy.of.", n)] = LC(int64(i))
				if kinds[i] != "a free-standing value" {
					break
				}
			}
		}
		e.Check(ok, st, ci.ins.(ssa.Instruction), "attach", cons+" source", "%s copies something else than a value (%s)", cons, keyOf(src))
		return []Outcome{{st: st, ret: []Val{id}}}
	}, nil)
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		for _, o := range p.o.leaves() {
			e.Check(o.tag != "stale", st, ins, "stale-pointer", cons, "%s writes to a node through a pointer taken before the document grew", cons)
		}
	}
	n := 0
	for _, o := range r.run(s, fn, rc.n, vals) {
		o := o
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		st := o.st
		if frame {
			nj.frame(e, &o, rc.d, cons, except...)
			continue
		}
		e.Check(st.F.EntailsEq(nj.rev(st, rc.d).Sub(rev0)), st, o.site, "rev", cons, "%s changes the document revision", cons)
		e.Check(st.F.EntailsEq(nj.infoOf(st, rc.d, rc.id).Sub(inf0)), st, o.site, "type", cons, "%s changes the node's type or flags", cons)
		e.Check(e.sameVal(st, nj.raw(st, rc.d, rc.id), raw0), st, o.site, "text", cons, "%s changes the node's text", cons)
		vs := nj.values(st, rc.d, rc.id)
		at, copies := int64(0), int64(0)
		for i, g := range gs {
			if !g.live || otherKind {
				continue
			}
			id := g.id
			if kinds[i] != "a free-standing value" {
				id, _ = st.ext[fmt.Sprint("copy.", copies)].(*Lin)
				if of, ok := st.ext[fmt.Sprint("copy.of.", copies)].(*Lin); !e.Check(ok && id != nil && (of.Key() == fmt.Sprint(i) || g.id == gs[0].id), st, o.site, "attach", cons+" copy", "%s does not copy the values that have to be copied, in order", cons) {
					break
				}
				copies++
			} else {
				inf1, inf := nj.infoOf(pre(st), g.d, id), nj.infoOf(st, g.d, id)
				e.Check(st.F.EntailsEq(inf1.Sub(inf).AddC(-nj.infRoot)), st, o.site, "attach", cons+" flags", "%s: the attached node's flags are %s, not what they were (%s) without the mark of free-standing nodes", cons, keyOf(st.F.norm(inf)), keyOf(st.F.norm(inf1)))
			}
			p := vs0.n.AddC(at)
			at++
			if vs == nil || !st.F.Entails(vs.n.Sub(p).AddC(-1)) {
				continue // reported below
			}
			x := nj.elemID(st, vs, p)
			e.Check(st.F.EntailsEq(x.Sub(id)), st, o.site, "attach", cons+" entry", "%s: entry %s is node %s instead of %s", cons, keyOf(st.F.norm(p)), keyOf(st.F.norm(x)), keyOf(id))
			key := nj.elemKey(st, vs, p)
			e.Check(e.sameVal(st, key, strLit("")), st, o.site, "values", cons+" key", "%s: the new entry gets key %s", cons, keyOf(key))
		}
		e.Check(countExt(st, "copies") == copies, st, o.site, "attach", cons+" copies", "%s makes %d copies instead of %d", cons, countExt(st, "copies"), copies)
		if copies == 0 {
			e.Check(st.F.EntailsEq(nj.nodes(st, rc.d).n.Sub(n0)), st, o.site, "count", cons, "%s adds nodes although there is nothing to copy", cons)
		}
		if e.Check(vs != nil && st.F.EntailsEq(vs.n.Sub(vs0.n).AddC(-at)), st, o.site, "values", cons+" count", "%s: the node has %s values instead of %d more than %s", cons, keyOf(vs), at, keyOf(vs0.n)) && entries {
			nj.elemIs(e, st, &o, vs, k, vs0, k, cons, "other entries")
		}
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	r.done()
}

// isSource: what is copied is node id of d.
func (cp *copier) isSource(st *State, ci *callInfo, d *PtrV, id *Lin) bool {
	nj := cp.nj
	if cp.cN < 0 {
		return st.F.EntailsEq(asLin(ci.args[cp.cI], nil).Sub(id))
	}
	src, _ := ci.args[cp.cN].(*PtrV)
	if src == nil || len(src.p) != 1 || src.p[0].f >= 0 {
		return false
	}
	ns := nj.nodes(pre(st), d)
	for _, o := range src.o.leaves() {
		if o != ns.o && o != nj.nodes(st, d).o && o.tag != "stale" {
			return false
		}
	}
	return st.F.EntailsEq(src.p[0].idx.Sub(ns.off).Sub(id))
}

// copies decides the deep copy: one new node after the existing ones, with
// the type and text of the source and a copy of every value of it in order.
func (cp *copier) copies(c *Ctx, same bool, mode string, root bool) {
	nj, fn := cp.nj, cp.copy
	frame, entries := mode == "frame", mode == "entries"
	r := c.runner(nj)
	e := r.e
	st := newState()
	d := nj.doc("doc")
	other, cons := d, "copy within a document"
	if !same {
		other, cons = nj.doc("other"), "copy from another document"
		a, b := keyOf(d), keyOf(other)
		if b < a {
			a, b = b, a
		}
		st.F.atoms["eq:"+a+"=="+b] = false
	}
	sid := symVal("source.id", types.Typ[types.Uint]).(*Lin)
	ns := nj.nodes(st, other)
	st.F.AssumeGe(ns.n.Sub(sid).AddC(-1))
	n0 := nj.nodes(st, d).n
	inf0, raw0, vs0 := nj.infoOf(st, other, sid), nj.raw(st, other, sid), nj.values(st, other, sid)
	if mode == "node" {
		nj.setRoot(st, other, sid, root)
	}
	k := symRange("k", 0, 1<<46)
	K := symVal("copy of entry k", types.Typ[types.Uint]).(*Lin)
	keepVals(sid, n0, ns.n, vs0.n, vs0.off, k, K)
	var args []Val
	for i, q := range fn.Params {
		switch i {
		case cp.cD:
			args = append(args, d)
		case cp.cOther:
			args = append(args, other)
		case cp.cN:
			args = append(args, &PtrV{o: ns.o, p: Path{{f: -1, idx: st.F.norm(ns.off.Add(sid))}}})
		case cp.cI:
			args = append(args, sid)
		default:
			v := symVal(q.Name(), q.Type())
			st.assumeValid(v)
			args = append(args, v)
		}
	}
	if entries {
		st.F.AssumeGe(k)
		st.F.AssumeGe(vs0.n.Sub(k).AddC(-1))
		e.watch = []*Lin{k}
		watchSyms[k.t[0].s] = true
		for f := 0; f < nj.V.Underlying().(*types.Struct).NumFields(); f++ {
			e.watchVals = append(e.watchVals, nj.elem(st, vs0, k, f))
		}
		e.watchVals = append(e.watchVals, K)
	}
	if frame {
		nj.frameIndex(st, d)
		keepVals(st.ext["frame.j"])
		if same {
			st.F.AssumeNe(st.ext["frame.j"].(*Lin).Sub(sid))
		}
	}
	child := func(st *State, i *Lin) *Lin { return nj.elemID(pre(st), vs0, st.F.norm(i)) }
	dst := newObj("copied values", nil)
	dst.region, dst.fresh = true, true
	rec := nj.values(st, d, n0)
	st.F.AssumeEq(rec.off)
	st.mon = &RefMon{ctl: "at", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon {
		if entries {
			// the machine is past entry k exactly from its copy on
			if strings.ContainsAny(m.ctl, ">!") {
				st.F.AssumeGe(m.r[0].Sub(k).AddC(-1))
			} else {
				st.F.AssumeGe(k.Sub(m.r[0]))
			}
			st.oneArray(rec.o, vs0.o, dst)
			st.onlyEntry(dst, k)
			if strings.Contains(m.ctl, "!") && st.heap[dst] != nil {
				for _, c := range st.heap[dst].cells {
					if l, ok := c.v.(*Lin); ok && st.F.EntailsEq(l.Sub(K)) {
						return m.to(strings.Replace(m.ctl, "!", ">", 1), m.r[0])
					}
				}
			}
		}
		if !strings.HasPrefix(m.ctl, "at") {
			return nil
		}
		switch sign(st, vs0.n.Sub(m.r[0]).AddC(-1)) {
		case -1:
			return m.to("done"+m.ctl[2:], m.r[0])
		case 1:
			// values belong to the document
			st.F.AssumeGe(ns.n.Sub(child(st, m.r[0])).AddC(-1))
		}
		return nil
	}}
	noPanic(e, cons)
	e.H.Call = cp.contract(func(e *Engine, st *State, ci *callInfo, dst, from, src *PtrV, id *Lin) []Outcome {
		site := ci.ins.(ssa.Instruction)
		m := st.ref(e)
		if !strings.HasPrefix(m.ctl, "at") || sign(st, vs0.n.Sub(m.r[0]).AddC(-1)) != 1 {
			e.Check(false, st, site, "order", cons, "%s copies something after or before the values (%s)", cons, m.Key())
			return nil
		}
		ok := dst.o == d.o && from.o == other.o && cp.isSource(st, ci, other, child(st, m.r[0]))
		if !e.Check(ok, st, site, "source", cons, "%s copies something else than value %s", cons, keyOf(m.r[0])) {
			return nil
		}
		movedNow := cp.movesNow
		ret := func(st *State, ctl string, v *Lin) []Outcome {
			if movedNow && !strings.Contains(ctl, "m") {
				ctl = "atm" + ctl[2:]
			}
			st.mon = m.to(ctl, m.r[0].AddC(1))
			st.F.AssumeGe(v.Sub(n0).AddC(-1))
			st.F.AssumeGe(nj.nodes(st, d).n.Sub(v).AddC(-1))
			return []Outcome{{st: st, ret: []Val{v}}}
		}
		havocN++
		x := symVal(fmt.Sprintf("copied%d", havocN), types.Typ[types.Uint]).(*Lin)
		if !entries || strings.ContainsAny(m.ctl, ">!") {
			return ret(st, m.ctl, x)
		}
		var outs []Outcome
		a := st.clone()
		if a.F.AssumeEq(k.Sub(m.r[0])) && a.F.Feasible() {
			outs = append(outs, ret(a, m.ctl+"!", K)...)
		}
		if st.F.AssumeNe(k.Sub(m.r[0])) && st.F.Feasible() {
			outs = append(outs, ret(st, m.ctl, x)...)
		}
		return outs
	}, fn)
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		for _, o := range p.o.leaves() {
			e.Check(o.tag != "stale", st, ins, "stale-pointer", cons, "%s writes to a node through a pointer taken before the document grew", cons)
		}
	}
	n := 0
	for _, o := range r.run(st, fn, args...) {
		o := o
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		st := o.st
		if frame {
			nj.frame(e, &o, d, cons)
			continue
		}
		id := asLin(o.ret[0], nil)
		m := st.ref(e)
		if !e.Check(strings.HasPrefix(m.ctl, "done"), st, o.site, "all", cons, "%s returns before all values are copied (%s)", cons, m.Key()) {
			continue
		}
		if !e.Check(st.F.EntailsEq(id.Sub(n0)), st, o.site, "id", cons, "%s returns %s and not the first new node", cons, keyOf(st.F.norm(id))) {
			continue
		}
		inf, raw, vs := nj.infoOf(st, d, id), nj.raw(st, d, id), nj.values(st, d, id)
		if mode == "node" {
			off := 0
			if root {
				off = int(nj.infRoot)
			}
			e.Check(st.F.EntailsEq(inf0.Sub(inf).AddC(-int64(off))), st, o.site, "type", cons, "%s: the copy of a node of type and flags %s has %s", cons, keyOf(st.F.norm(inf0)), keyOf(st.F.norm(inf)))
		}
		e.Check(e.sameVal(st, raw, raw0), st, o.site, "text", cons, "%s: the copy's text is %s", cons, keyOf(raw))
		e.Check(e.sameVal(st, nj.infoOf(st, other, sid), inf0) && e.sameVal(st, nj.raw(st, other, sid), raw0) && e.sameVal(st, nj.values(st, other, sid), vs0), st, o.site, "frame", cons+" source", "%s changes the node copied", cons)
		if !e.Check(vs != nil && st.F.EntailsEq(vs.n.Sub(vs0.n)), st, o.site, "values", cons+" count", "%s: the copy has %s values instead of %s", cons, keyOf(vs), keyOf(vs0.n)) {
			continue
		}
		e.Check(vs.isNil || vs.o != vs0.o, st, o.site, "values", cons+" shared", "%s: the copy shares its values with the source", cons)
		if entries && strings.Contains(m.ctl, ">") {
			e.Check(st.F.EntailsEq(nj.elemID(st, vs, k).Sub(K)), st, o.site, "values", cons+" entries", "%s: entry k of the copy is %s and not the copy of entry k", cons, keyOf(nj.elemID(st, vs, k)))
			e.Check(e.sameVal(st, nj.elemKey(st, vs, k), nj.elemKey(pre(st), vs0, k)), st, o.site, "values", cons+" keys", "%s: the key of entry k of the copy is %s", cons, keyOf(nj.elemKey(st, vs, k)))
		}
		e.Check(!entries || strings.Contains(m.ctl, ">"), st, o.site, "all", cons, "%s never copies entry k", cons)
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	r.done()
}

// contains decides the search: it reports whether the id is the target or
// one of the values of the node (if there is one) contains it.
func (cp *copier) contains(c *Ctx, what string) {
	nj, fn := cp.nj, cp.has
	r := c.runner(nj)
	e := r.e
	st := newState()
	d := nj.doc("doc")
	id := symVal("id", types.Typ[types.Uint]).(*Lin)
	target := symVal("target", types.Typ[types.Uint]).(*Lin)
	cons := "containment of " + what
	var vs0 *SliceV
	k := symRange("k", 0, 1<<46)
	keepVals(id, target, k)
	switch what {
	case "a node in itself":
		target = id
	default:
		st.F.AssumeNe(id.Sub(target))
	}
	if what == "a node in a missing one" {
		st.F.AssumeGe(id.Sub(nj.nodes(st, d).n))
	} else if what == "a node in another" {
		st.F.AssumeGe(nj.nodes(st, d).n.Sub(id).AddC(-1))
		vs0 = nj.values(st, d, id)
		keepVals(vs0.n, vs0.off)
		st.F.AssumeGe(vs0.n.Sub(k).AddC(-1))
		e.watch = []*Lin{k}
		watchSyms[k.t[0].s] = true
	}
	var args []Val
	for i, q := range fn.Params {
		switch i {
		case cp.hD:
			args = append(args, d)
		case cp.hID:
			args = append(args, id)
		case cp.hTarget:
			args = append(args, target)
		default:
			v := symVal(q.Name(), q.Type())
			st.assumeValid(v)
			args = append(args, v)
		}
	}
	st.mon = &RefMon{ctl: "at", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon {
		if vs0 == nil {
			return nil
		}
		switch m.ctl {
		case "at":
			st.F.AssumeGe(k.Sub(m.r[0]))
		case "at>":
			st.F.AssumeGe(m.r[0].Sub(k).AddC(-1))
		default:
			return nil
		}
		if sign(st, vs0.n.Sub(m.r[0]).AddC(-1)) == -1 {
			return m.to("none"+m.ctl[2:], m.r[0])
		}
		return nil
	}}
	noPanic(e, cons)
	pure := func(st *State, ins ssa.Instruction, o *Obj) {
		for _, o := range o.leaves() {
			e.Check(o.fresh, st, ins, "pure", cons, "%s writes memory", cons)
		}
	}
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) { pure(st, ins, p.o) }
	e.H.Write = func(e *Engine, st *State, ins ssa.Instruction, o *Obj) { pure(st, ins, o) }
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.fn != fn || e.depth(st, fn) == 0 {
			return nil, false
		}
		site := ci.ins.(ssa.Instruction)
		m := st.ref(e)
		q, _ := ci.args[cp.hD].(*PtrV)
		ok := vs0 != nil && strings.HasPrefix(m.ctl, "at") && q != nil && q.o == d.o && st.F.EntailsEq(asLin(ci.args[cp.hTarget], nil).Sub(target)) && sign(st, vs0.n.Sub(m.r[0]).AddC(-1)) == 1
		ok = ok && st.F.EntailsEq(asLin(ci.args[cp.hID], nil).Sub(nj.elemID(pre(st), vs0, m.r[0])))
		if !e.Check(ok, st, site, "search", cons, "%s searches something else than value %s", cons, keyOf(m.r[0])) {
			return nil, true
		}
		hit := st.clone()
		hit.mon = m.to("hit", m.r[0])
		outs := []Outcome{{st: hit, ret: []Val{cBool(true)}}}
		a := st.clone()
		if a.F.AssumeEq(k.Sub(m.r[0])) && a.F.Feasible() {
			a.mon = m.to("at>", m.r[0].AddC(1))
			outs = append(outs, Outcome{st: a, ret: []Val{cBool(false)}})
		}
		if st.F.AssumeNe(k.Sub(m.r[0])) && st.F.Feasible() {
			st.mon = m.to(m.ctl, m.r[0].AddC(1))
			outs = append(outs, Outcome{st: st, ret: []Val{cBool(false)}})
		}
		return outs, true
	}
	n := 0
	for _, o := range r.run(st, fn, args...) {
		o := o
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		m := o.st.ref(e)
		yes, no := e.boolStates(o.st, o.ret[0])
		for _, t := range yes {
			e.Check(what == "a node in itself" || m.ctl == "hit", t, o.site, "contains", cons, "%s is found (%s)", cons, m.Key())
		}
		for _, t := range no {
			e.Check(what != "a node in itself" && (vs0 == nil || m.ctl == "none>"), t, o.site, "contains", cons, "%s is not found (%s)", cons, m.Key())
		}
	}
	e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	r.done()
}

func init() {
	register(&Prop{
		ID:      "C10",
		Rule:    "what Set, Replace and Append do with each kind of value they can be given (free-standing, the receiver itself, an ancestor, the root, part of a value, of another document, stale, missing, without document): a free-standing node that does not contain the receiver is attached itself and loses its free-standing mark; any other existing node is copied exactly once and the copy attached; nothing else is attached. It becomes the value of the first entry with the key or a new last entry (Set), of entry i (Replace), a new last entry (Append). The copy is the first new node, with the type and text of the source, not free-standing, with a copy of every value of it in order under its key and nothing shared; all existing nodes, entries and the revision are unchanged; no write goes through a pointer from before the node array grew; the containment search answers true exactly when the target is found",
		Explain: "all paths of Node.Set, Node.Replace and Node.Append (of up to two values) from symbolic documents for every combination of value kind, node array that moves or not, compared with the state before at a symbolic entry and a symbolic node; the deep copy and the containment search by induction (their recursive calls follow the same contract), loops by inferred invariants",
		Assume:  []string{"documents are trees: values refer to existing nodes of the same document and not to an ancestor (kept by every edit, this property included)"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			cp := c.copier(nj)
			if cp == nil {
				return
			}
			cp.either = true
			for _, same := range []bool{true, false} {
				for _, mode := range []string{"node", "entries", "frame"} {
					cp.copies(c, same, mode, false)
				}
				cp.copies(c, same, "node", true)
			}
			cp.either = false
			for _, what := range []string{"a node in itself", "a node in a missing one", "a node in another"} {
				cp.contains(c, what)
			}
			c.editAttach(nj, cp, "Set")
			c.editAttach(nj, cp, "Replace")
			lists := [][]string{{}}
			for _, k := range givenKinds {
				if k != "itself, the root" {
					lists = append(lists, []string{k})
				}
			}
			two := []string{"a free-standing value", "a node of another document", "a missing node of another document", "a part of a value of the same document"}
			for _, a := range two {
				for _, b := range append(two, "the same again") {
					lists = append(lists, []string{a, b})
				}
			}
			for _, l := range lists {
				for _, mode := range []string{"node", "entries", "frame"} {
					for _, moves := range []bool{false, true} {
						cp.moves = moves
						c.appends(nj, cp, l, mode, false)
					}
				}
			}
			cp.moves = false
			c.appends(nj, cp, two[:1], "node", true)
			c.appends(nj, cp, two[:1], "frame", true)
		},
	})
}
