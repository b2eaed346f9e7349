package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the tree Parse builds ----

// treeRun proves what the node of a value holds: its type, its text and its
// values, of which entry k stands for all. The value is one of the kinds;
// nested values by induction.
type treeRun struct {
	ps       *Parser
	c        *Ctx
	kind     string // "scalar", "arr" or "obj"
	entries  bool
	p        *PtrV
	N        *Obj // the array of nodes in use
	old      *Obj // an array of nodes left behind
	V        *Obj // the array of values, once it is a new one
	n0       *Lin
	k        *Lin
	K        *Lin // the node of value k, and its key
	klo, khi *Lin
	// of the values the node had: their number and what there is room for
	len0, cap0 *Lin
	s          StrV
}

func (x *treeRun) want(ctl string) bool {
	switch ctl {
	case "str", "num", "lit true", "lit false", "lit null":
		return x.kind == "scalar"
	case "arr0":
		return x.kind == "arr"
	case "obj0":
		return x.kind == "obj"
	case "bad", "eof":
		return false
	}
	return true
}

// flags of the machine behind its place in the grammar: "=" entry k is next,
// "!" its value was parsed, ">" and is stored, "m" the nodes moved, "v" the
// values, "c" there were as many as the node had room for, "0" the text is empty.
func splitFlags(ctl string) (string, string) {
	if i := strings.IndexByte(ctl, '|'); i >= 0 {
		return ctl[:i], ctl[i:]
	}
	return ctl, ""
}

func (x *treeRun) machine(s StrV) *RefMon {
	g := x.ps.grammar(s)
	inner := g.step
	return &RefMon{ctl: "value|", r: g.r, step: func(e *Engine, st *State, m *RefMon) *RefMon {
		base, flags := splitFlags(m.ctl)
		x.tidy(st, m.r[gCnt])
		if x.entries {
			switch {
			case strings.ContainsAny(flags, ">!"):
				st.F.AssumeGe(m.r[gCnt].Sub(x.k).AddC(-1))
			case strings.Contains(flags, "="):
				st.F.AssumeEq(x.k.Sub(m.r[gCnt]))
			default:
				st.F.AssumeGe(x.k.Sub(m.r[gCnt]).AddC(-1))
			}
			if strings.Contains(flags, "!") && x.stored(e, st) {
				return m.to(base+strings.Replace(flags, "!", ">", 1), m.r...)
			}
		}
		moved := "|"
		for _, f := range []string{"m", "v", "c"} {
			if st.ext["moved "+f] != nil {
				moved += f
			}
		}
		if f := moved + strings.Trim(flags, "|mvc"); f != flags {
			return m.to(base+f, m.r...)
		}
		n := inner(e, st, &RefMon{base, m.r, m.step})
		if n == nil {
			return nil
		}
		if !x.want(n.ctl) || x.entries && strings.HasPrefix(n.ctl, "done") && !strings.ContainsAny(flags, ">!") {
			// another case, or there is no value k
			st.F.AssumeGe(LC(-1))
			return nil
		}
		if n.ctl == "done str" && !strings.Contains(flags, "0") && st.F.EntailsEq(n.r[gP].Sub(n.r[gT]).AddC(-1)) {
			flags += "0"
		}
		return n.to(n.ctl+flags, n.r...)
	}}
}

// stored: some array of values holds entry k, which gets its canonical names.
func (x *treeRun) stored(e *Engine, st *State) bool {
	nj := x.ps.nj
	key := Val(strLit(""))
	if x.kind == "obj" {
		key = StrV{x.s.B, x.klo, x.khi}
	}
	var in []*Obj
	for o, os := range st.heap {
		if o != x.V && (o.typ == nil || !types.Identical(o.typ, nj.V)) {
			continue
		}
		id, text := false, false
		for _, c := range os.cells {
			if len(c.p) != 2 || c.p[0].f >= 0 || !st.F.EntailsEq(c.p[0].idx.Sub(x.k)) {
				continue
			}
			switch c.p[1].f {
			case nj.vID:
				l, ok := c.v.(*Lin)
				id = ok && st.F.EntailsEq(l.Sub(x.K))
			case nj.vKey:
				text = e.sameVal(st, c.v, key)
			}
		}
		if id && text {
			in = append(in, o)
		}
	}
	for _, o := range in {
		st.store(o, Path{{f: -1, idx: x.k}, {f: nj.vID}}, fieldTyp(nj.V, nj.vID), x.K)
		st.store(o, Path{{f: -1, idx: x.k}, {f: nj.vKey}}, fieldTyp(nj.V, nj.vKey), key)
	}
	return len(in) > 0
}

// tidy gives the memory of a state its canonical names: the array of nodes in
// use is N, the array of values being built is the node's or V, and only the
// node of the value and entry k are remembered.
func (x *treeRun) tidy(st *State, cnt *Lin) {
	nj := x.ps.nj
	cur := x.ps.read(st, x.p)
	if cur.nodes != nil && cur.nodes.o != nil && cur.nodes.o != x.N && st.F.EntailsEq(cur.nodes.off) {
		x.leave(st)
		o := cur.nodes.o
		os := st.ostate(o)
		st.replaceObj(o, x.N)
		delete(st.heap, o)
		st.setOState(x.N, os)
	}
	for _, f := range []int{nj.iInfo, nj.iRaw, nj.iValues} {
		p := Path{{f: -1, idx: x.n0}, {f: f}}
		t := fieldTyp(nj.node, f)
		v := st.load(x.N, p, t)
		if s, ok := v.(StrV); ok && st.F.EntailsEq(s.length()) {
			v = strLit("")
		}
		st.store(x.N, p, t, v)
	}
	st.onlyEntry(x.N, x.n0)
	var found *Obj
	for _, f := range st.frames {
		for _, v := range f.regs {
			s, ok := v.(*SliceV)
			if !ok || s.isNil || s.o == nil || s.o == x.V || s.o.tag == "left" || !s.o.fresh || s.o.typ == nil || !types.Identical(s.o.typ, nj.V) {
				continue
			}
			if found != nil && found != s.o || !st.F.EntailsEq(s.off) {
				return
			}
			found = s.o
		}
	}
	if st.ext["moved c"] != nil {
		st.F.AssumeGe(cnt.Sub(x.cap0))
		st.F.AssumeGe(x.cap0.Sub(x.len0))
	}
	if found != nil {
		if st.heap[x.V] != nil {
			o := newObj("values left behind", nj.V)
			o.region, o.fresh, o.plain, o.tag = true, true, true, "left"
			st.replaceObj(x.V, o)
			havocN++
			st.setOState(o, &ObjState{origin: fmt.Sprintf("left%d", havocN)})
			delete(st.heap, x.V)
		}
		os := st.ostate(found)
		if st.ext["moved v"] == nil && st.F.Entails(cnt.Sub(x.cap0)) {
			st.ext["moved c"] = LC(1)
		}
		st.ext["moved v"] = LC(1)
		st.replaceObj(found, x.V)
		delete(st.heap, found)
		st.setOState(x.V, &ObjState{origin: os.origin, cells: os.cells})
	}
	for o := range st.heap {
		if o == x.V || o.typ != nil && types.Identical(o.typ, nj.V) {
			if x.entries {
				st.onlyEntry(o, x.k)
			} else {
				st.setOState(o, &ObjState{origin: "values not looked at"})
			}
		}
	}
}

// leave makes every pointer into the array of nodes one into an array left
// behind.
func (x *treeRun) leave(st *State) {
	o := x.old
	if st.heap[o] != nil || st.ext["moved m"] != nil {
		o = newObj("nodes left behind", x.ps.nj.node)
		o.region, o.fresh, o.tag = true, true, "stale"
	}
	os := st.ostate(x.N)
	st.replaceObj(x.N, o)
	havocN++
	st.setOState(o, &ObjState{origin: fmt.Sprintf("left%d", havocN), cells: os.cells})
}

// grow is the effect of parsing a nested value on the nodes.
func (x *treeRun) grow(st *State, f func(st *State)) {
	ps := x.ps
	keep := func(st *State) *ObjState {
		havocN++
		ns := &ObjState{origin: fmt.Sprintf("parsed%d", havocN)}
		for _, c := range st.ostate(x.N).cells {
			if len(c.p) > 0 && c.p[0].f < 0 && st.F.EntailsEq(c.p[0].idx.Sub(x.n0)) {
				ns.cells = append(ns.cells, c)
			}
		}
		return ns
	}
	// both the count and the length are new, so that they stay together
	sizes := func(st *State) (*Lin, *Lin) {
		havocN++
		n := symRange(fmt.Sprintf("n'%d", havocN), 0, 1<<46)
		l := symRange(fmt.Sprintf("len(nodes')%d", havocN), 1, 1<<46)
		st.F.AssumeGe(n.Sub(x.n0).AddC(-1))
		st.F.AssumeGe(l.Sub(n))
		return n, l
	}
	write := func(st *State) {
		n, l := sizes(st)
		ps.write(st, x.p, &SliceV{o: x.N, off: LC(0), n: l, cap: l}, n, &IfaceV{isNil: true})
	}
	a := st.clone()
	a.setOState(x.N, keep(a))
	write(a)
	f(a)
	ns := keep(st)
	x.leave(st)
	st.ext["moved m"] = LC(1)
	st.setOState(x.N, ns)
	write(st)
	f(st)
}

func (ps *Parser) runTree(c *Ctx, kind string, entries, full bool) {
	nj := ps.nj
	r := c.runner(nj)
	e := r.e
	fn := ps.value
	cons := shortFn(fn) + " of " + map[string]string{"scalar": "scalars", "arr": "arrays", "obj": "objects"}[kind]
	if entries {
		cons += ", entries"
	}
	st := newState()
	po := newObj("parser", ps.pt)
	po.name = "parser"
	x := &treeRun{ps: ps, c: c, kind: kind, entries: entries, p: &PtrV{o: po}}
	s := symVal("s", strT).(StrV)
	x.s = s
	trackedBases["s"] = true
	defer delete(trackedBases, "s")
	pos := symVal("pos", fn.Params[ps.pPos].Type()).(*Lin)
	in := ps.read(st, x.p)
	mk := func(name string, t types.Type) *Obj {
		o := newObj(name, t)
		o.region, o.fresh, o.name, o.plain = true, true, name, true
		return o
	}
	x.N, x.old, x.V = mk("nodes", nj.node), mk("nodes left behind", nj.node), mk("values built", nj.V)
	x.old.tag = "stale"
	st.setOState(x.N, &ObjState{origin: "nodes0"})
	in.nodes = &SliceV{o: x.N, off: LC(0), n: in.nodes.n, cap: in.nodes.n}
	if full {
		in.nodes.n, in.nodes.cap = in.n, in.n
	} else {
		st.F.AssumeGe(in.nodes.n.Sub(in.n).AddC(-1))
	}
	ps.write(st, x.p, in.nodes, in.n, &IfaceV{isNil: true})
	st.F.AssumeGe(in.n)
	st.F.AssumeGe(LC(1 << 46).Sub(in.n)) // there are that many nodes in memory
	st.F.AssumeGe(pos)
	st.F.AssumeGe(s.length().Sub(pos))
	x.n0 = in.n
	x.k = symRange("k", 0, 1<<46)
	x.K = symVal("node of value k", uintT).(*Lin)
	x.klo, x.khi = symRange("key k from", 0, 1<<47), symRange("key k to", 0, 1<<47)
	keepVals(x.n0, x.k, x.K, x.klo, x.khi)
	fld := func(st *State, f int) Val {
		q := nj.nodePath(in.nodes, x.n0, f)
		return st.load(q.o, q.p, fieldTyp(nj.node, f))
	}
	vs0, _ := fld(st, nj.iValues).(*SliceV)
	if !c.Anchor(vs0 != nil, "the values of a node") {
		return
	}
	st.F.AssumeEq(vs0.off)
	vs0.o.plain = true
	x.len0, x.cap0 = vs0.n, vs0.cap
	keepVals(vs0.n, vs0.cap)
	e.zeroAt = []*Lin{x.n0}
	if entries {
		e.watch = []*Lin{x.k}
		watchSyms[x.k.t[0].s] = true
		e.watchVals = append(e.watchVals, x.K)
	}
	noPanic(e, cons)
	g := x.machine(s)
	zero := LC(0)
	g.r = []*Lin{pos, pos, zero, zero, zero, zero, zero, zero, zero}
	st.mon = g
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.fn != fn {
			return nil, false
		}
		m := st.ref(e)
		if !st.F.Feasible() {
			return nil, true
		}
		site := ci.ins.(ssa.Instruction)
		base, flags := splitFlags(m.ctl)
		if base != "arr elem" && base != "obj elem" {
			e.Check(false, st, site, "element", cons, "a nested value is parsed where the grammar expects %s", grammarName(base))
			return nil, true
		}
		ss, _ := ci.args[ps.pS].(StrV)
		q, isP := ci.args[ps.pSelf].(*PtrV)
		at, _ := ci.args[ps.pPos].(*Lin)
		if !e.Check(isP && q.o == x.p.o && at != nil && ss.B == s.B && st.F.EntailsEq(ss.lo), st, site, "element", cons+" input", "a nested value is not parsed from the same input") {
			return nil, true
		}
		cur := ps.read(st, x.p)
		if !e.Check(cur.nodes.o == x.N && st.F.Entails(cur.n.Sub(x.n0).AddC(-1)) && st.F.Entails(cur.nodes.n.Sub(cur.n)), st, site, "element", cons+" nodes", "a nested value is parsed into node %s (of %s), its parent is %s", keyOf(st.F.norm(cur.n)), keyOf(st.F.norm(cur.nodes.n)), keyOf(x.n0)) {
			return nil, true
		}
		var outs []Outcome
		next, cnt := base[:3]+" next", st.F.norm(m.r[gCnt].AddC(1))
		cont := func(st *State, flags string) {
			x.grow(st, func(st *State) {
				havocN++
				end := symRange(fmt.Sprintf("end%d", havocN), 1, 1<<47)
				if !st.F.AssumeGe(end.Sub(m.r[gP]).AddC(-1)) || !st.F.AssumeGe(s.length().Sub(end)) || !st.F.Feasible() {
					return
				}
				r := append([]*Lin(nil), m.r...)
				r[gP], r[gT], r[gKLo], r[gKHi], r[gCnt] = end, zero, zero, zero, cnt
				st.mon = m.to(next+flags, r...)
				outs = append(outs, Outcome{st: st, ret: []Val{end}})
			})
		}
		switch {
		case !entries || strings.ContainsAny(flags, ">!"):
			cont(st, flags)
		case strings.Contains(flags, "="):
			ok := st.F.AssumeEq(cur.n.Sub(x.K))
			if base == "obj elem" {
				ok = ok && st.F.AssumeEq(m.r[gKLo].Sub(x.klo)) && st.F.AssumeEq(m.r[gKHi].Sub(x.khi))
			}
			if ok && st.F.Feasible() {
				cont(st, strings.Replace(flags, "=", "!", 1))
			}
		default:
			a := st.clone()
			if a.F.AssumeEq(cnt.Sub(x.k)) && a.F.Feasible() {
				cont(a, flags+"=")
			}
			if st.F.AssumeGe(x.k.Sub(cnt).AddC(-1)) && st.F.Feasible() {
				cont(st, flags)
			}
		}
		return outs, true
	}
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		_, zero := v.(*SliceV)
		for _, o := range p.o.leaves() {
			e.Check(o.tag != "stale" || zero, st, ins, "stale-pointer", cons, "%s writes to a node through a pointer taken before the nodes moved", cons)
		}
	}
	args := make([]Val, len(fn.Params))
	for i, q := range fn.Params {
		switch i {
		case ps.pSelf:
			args[i] = x.p
		case ps.pS:
			args[i] = s
		case ps.pPos:
			args[i] = pos
		default:
			args[i] = symVal(q.Name(), q.Type())
		}
	}
	n := map[string]int{}
	var outs []Outcome
	if entries {
		first := st.clone()
		first.F.AssumeEq(x.k)
		first.mon = g.to("value|=", g.r...)
		outs = r.run(first, fn, args...)
		st.F.AssumeGe(x.k.AddC(-1))
	}
	outs = append(outs, r.run(st, fn, args...)...)
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		m := o.st.ref(e)
		if !o.st.F.Feasible() {
			continue
		}
		out := ps.read(o.st, x.p)
		if ps.errClass(o.st, out.err) != "nil" {
			continue // C03: the input is refused by the grammar as well
		}
		base, flags := splitFlags(m.ctl)
		if !e.Check(strings.HasPrefix(base, "done "), o.st, o.site, "end", cons, "%s returns where the grammar has %s", cons, grammarName(base)) {
			continue
		}
		n[base]++
		x.check(e, o, m, base[5:], flags, out, s, cons)
	}
	for _, b := range map[string][]string{"scalar": {"str", "num", "true", "false", "null"}, "arr": {"arr"}, "obj": {"obj"}}[kind] {
		e.Check(n["done "+b] > 0, nil, nil, "returns", cons+" "+b, "%s never returns for a %s", cons, b)
	}
	r.done()
}

var tokKinds = map[string]string{"str": "TypeString", "num": "TypeNumber", "true": "TypeBoolean", "false": "TypeBoolean", "null": "TypeNull", "arr": "TypeArray", "obj": "TypeObject"}

// check checks the node made for a value.
func (x *treeRun) check(e *Engine, o *Outcome, m *RefMon, what, flags string, out parserState, s StrV, cons string) {
	nj, st := x.ps.nj, o.st
	if !e.Check(out.nodes.o == x.N && st.F.EntailsEq(out.nodes.off), st, o.site, "nodes", cons, "%s leaves unknown nodes", cons) {
		return
	}
	fld := func(f int) Val {
		q := nj.nodePath(out.nodes, x.n0, f)
		return st.load(q.o, q.p, fieldTyp(nj.node, f))
	}
	what0 := "the node of a value (" + what + ")"
	vs, _ := fld(nj.iValues).(*SliceV)
	if !e.Check(vs != nil, st, o.site, "values", cons+" "+what, "%s: its values are unknown", what0) {
		return
	}
	if x.entries {
		if !e.Check(strings.Contains(flags, ">"), st, o.site, "entry", cons+" stored", "%s: value k is not stored", what0) || vs.isNil {
			return
		}
		id, key := nj.elemID(st, vs, x.k), nj.elemKey(st, vs, x.k)
		e.Check(id != nil && st.F.EntailsEq(id.Sub(x.K)), st, o.site, "entry", cons+" id", "%s: entry k is node %s instead of the one parsed for it", what0, keyOf(st.F.normVal(id)))
		want := strLit("")
		if what == "obj" {
			want = StrV{s.B, x.klo, x.khi}
		}
		e.Check(e.sameVal(st, key, want), st, o.site, "entry", cons+" key", "%s: the key of entry k is %s instead of %s", what0, keyOf(st.F.normVal(key)), keyOf(st.F.normVal(want)))
		return
	}
	inf := st.F.norm(asLin(fld(nj.iInfo), fieldTyp(nj.node, nj.iInfo)))
	e.Check(st.F.EntailsEq(inf.AddC(-nj.kinds[tokKinds[what]])), st, o.site, "type", cons+" "+what, "%s gets type %s", what0, keyOf(inf))
	raw, _ := fld(nj.iRaw).(StrV)
	ok := raw.B != nil
	if ok {
		switch what {
		case "str":
			ok = e.sameVal(st, raw, StrV{s.B, m.r[gT], m.r[gP].AddC(-1)})
		case "num":
			ok = e.sameVal(st, raw, StrV{s.B, m.r[gT], m.r[gP]})
		case "true", "false", "null":
			ok = e.sameVal(st, raw, strLit(what)) || e.sameVal(st, raw, StrV{s.B, m.r[gT], m.r[gP]})
		default:
			ok = e.sameVal(st, raw, strLit(""))
		}
	}
	e.Check(ok, st, o.site, "text", cons+" "+what, "%s gets the text %s (the token starts at %s and ends at %s)", what0, keyOf(raw), keyOf(st.F.norm(m.r[gT])), keyOf(st.F.norm(m.r[gP])))
	cnt := LC(0)
	if what == "arr" || what == "obj" {
		cnt = m.r[gCnt]
	}
	e.Check(st.F.EntailsEq(vs.n.Sub(cnt)), st, o.site, "values", cons+" "+what+" count", "%s gets %s values, the input has %s", what0, keyOf(st.F.norm(vs.n)), keyOf(st.F.norm(cnt)))
}

func init() {
	tree := func(c *Ctx, kinds []string, entries bool) *Parser {
		ps := parserAnchors(c)
		if ps == nil {
			return nil
		}
		for _, k := range kinds {
			for _, full := range []bool{false, true} {
				ps.runTree(c, k, entries, full)
			}
		}
		return ps
	}
	register(&Prop{
		ID:      "C06",
		Rule:    "Product of the parser with the JSON grammar in which every token's place is known: at every successful return the node allocated for the value has the type of its token, the token's text (nothing for arrays and objects) and as many values as the grammar counted; no node is written through a pointer taken before the nodes moved. Document.Parse with that contract: the node returned is the one of the value, live, marked free-standing, and no node of the tree is changed.",
		Explain: "Abstract interpretation of the parser in product with the grammar, with a canonical heap (the nodes in use, the nodes left behind, the values being built).",
		Assume:  []string{"nested values by induction over the depth of the input"},
		Run: func(c *Ctx) {
			if ps := tree(c, []string{"scalar", "arr", "obj"}, false); ps != nil {
				ps.runParse(c, parseOpts{tree: true})
			}
		}})
	register(&Prop{
		ID:      "C30",
		Rule:    "The same product for an arbitrary k: when the node of an array or object is complete its value k is the node that the k-th element was parsed into, and its key is the text between the quotes of the k-th name (nothing in arrays).",
		Explain: "Abstract interpretation of the parser in product with the grammar for an arbitrary entry k.",
		Assume:  []string{"nested values by induction over the depth of the input"},
		Run:     func(c *Ctx) { tree(c, []string{"arr", "obj"}, true) },
	})
}
