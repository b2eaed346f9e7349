package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Parser holds the anchors of the recursive parser: the function at which
// Document.Parse enters the recursion, its parameters, and the fields of the
// parser state it works on.
type Parser struct {
	nj                     *Njson
	lax                    bool // node memory is not tracked
	anyNodes, ownV, otherV *Obj
	parse, value           *ssa.Function
	pt                     types.Type // the parser struct
	pS, pPos, pSelf        int        // parameter indexes
	fNodes, fN, fErr       int
	eofT, perrT            types.Type
	perrPos                *ssa.Function
}

// sccRecursive reports the repository functions that can (statically) reach themselves.
func (p *Program) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 && p.isRepoFn(f) {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (p *Program) reaches(from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, g := range p.callees(f) {
			if g == to {
				return true
			}
			if !seen[g] {
				seen[g] = true
				if walk(g) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

// recursionHeads are the recursive functions entered from fn through
// non-recursive ones.
func (p *Program) recursionHeads(fn *ssa.Function) []*ssa.Function {
	var heads []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if p.reaches(f, f) {
			heads = append(heads, f)
			return
		}
		for _, g := range p.callees(f) {
			walk(g)
		}
	}
	walk(fn)
	return heads
}

func parserAnchors(c *Ctx) *Parser {
	nj := njsonAnchors(c)
	if nj == nil {
		return nil
	}
	ps := &Parser{nj: nj, pS: -1, pPos: -1, pSelf: -1, fNodes: -1, fN: -1, fErr: -1}
	ps.parse = c.P.fn("", "Document.Parse")
	if !c.Anchor(ps.parse != nil, "njson.Document.Parse") {
		return nil
	}
	hs := c.P.recursionHeads(ps.parse)
	if !c.Anchor(len(hs) == 1, "the recursive function of the parser") {
		return nil
	}
	ps.value = hs[0]
	for i, q := range ps.value.Params {
		if isStr(q.Type()) {
			ps.pS = i
		} else if isInt(q.Type()) {
			ps.pPos = i
		} else if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for f := 0; f < s.NumFields(); f++ {
					ft := s.Field(f).Type()
					switch {
					case types.Identical(ft, types.NewSlice(nj.node)):
						ps.fNodes = f
					case isInt(ft):
						ps.fN = f
					case types.Identical(ft, types.Universe.Lookup("error").Type()):
						ps.fErr = f
					}
				}
				ps.pSelf, ps.pt = i, pt.Elem()
			}
		}
	}
	ok := ps.pS >= 0 && ps.pPos >= 0 && ps.pSelf >= 0 && ps.fNodes >= 0 && ps.fN >= 0 && ps.fErr >= 0
	ok = ok && ps.value.Signature.Results().Len() == 1 && isInt(ps.value.Signature.Results().At(0).Type())
	if !c.Anchor(ok, "parameters of "+ps.value.Name()+" (parser state, input, position)") {
		return nil
	}
	ps.eofT = c.P.typ("", "UnexpectedEOF")
	pe := c.P.typ("", "ParseError")
	ps.perrPos = c.P.fn("", "ParseError.Pos")
	if !c.Anchor(ps.eofT != nil && pe != nil && ps.perrPos != nil, "njson.UnexpectedEOF, njson.ParseError") {
		return nil
	}
	ps.perrT = types.NewPointer(pe)
	return ps
}

// ---- the reference grammar ----

var (
	spaceSet = setStr(" \t\r\n")
	numStart = setStr("-0123456789")
	numEnd   = setStr(" \t\r\n,]}")
	quoteSet = setOf('"')
	escSet   = setOf('\\')
)

// registers of the grammar machine
const (
	gP   = iota // frontier: input before it is accounted for
	gT          // start of the current token / element
	gCnt        // elements seen so far
	gKLo        // key of the current member
	gKHi
	gFloor // nodes below belong to finished values
	gCid   // child c0: node id and key
	gCLo
	gCHi
	gRegs
)

// grammar is the reference machine of one JSON value in s.
func (ps *Parser) grammar(s StrV) *RefMon {
	n := s.length()
	end := func(st *State, p *Lin) int { return -sign(st, n.Sub(p).AddC(-1)) } // 1: at end
	set := func(m *RefMon, ctl string, kv ...interface{}) *RefMon {
		r := append([]*Lin(nil), m.r...)
		for i := 0; i < len(kv); i += 2 {
			r[kv[i].(int)] = kv[i+1].(*Lin)
		}
		return m.to(ctl, r...)
	}
	at := func(st *State, p *Lin) *Lin { return st.byteAt(s, p) }
	bad := func(m *RefMon, p *Lin) *RefMon { return set(m, "bad", gP, p) }
	// ws: skip space; dispatch on the first other byte
	ws := func(st *State, m *RefMon, next func(c *Lin, p *Lin) *RefMon) *RefMon {
		p := m.r[gP]
		switch end(st, p) {
		case 1:
			return set(m, "eof")
		case 0:
			return nil
		}
		c := at(st, p)
		switch byteIn(st, c, spaceSet) {
		case 1:
			return set(m, m.ctl, gP, p.AddC(1))
		case 0:
			return nil
		}
		return next(c, p)
	}
	// str: after an opening quote; done(e): e is the closing quote
	str := func(st *State, m *RefMon, done func(q *Lin) *RefMon) *RefMon {
		p := m.r[gP]
		switch end(st, p) {
		case 1:
			return set(m, "eof")
		case -1:
			c := at(st, p)
			if byteIn(st, c, quoteSet) == 1 {
				return done(p)
			}
			switch byteIn(st, c, escSet) {
			case 1:
				return set(m, m.ctl, gP, p.AddC(2))
			case -1:
				if byteIn(st, c, quoteSet) == -1 {
					return set(m, m.ctl, gP, p.AddC(1))
				}
			}
		}
		// no quote in [p,q): the string ends at q unless q follows an escape
		for _, sc := range st.F.scans {
			if sc.base != s.B || sc.kind != "" || sc.set.Has('"') || !st.F.Entails(p.Sub(sc.lo)) {
				continue
			}
			q := st.F.norm(sc.hi.Sub(s.lo))
			if st.F.Entails(q.Sub(n)) {
				return set(m, "eof", gP, n)
			}
			if !st.F.Entails(q.Sub(p)) || end(st, q) != -1 || byteIn(st, at(st, q), quoteSet) != 1 {
				continue
			}
			if st.F.EntailsEq(q.Sub(p)) || st.F.Entails(q.Sub(p).AddC(-1)) && byteIn(st, at(st, q.AddC(-1)), escSet) == -1 {
				return done(q)
			}
		}
		return nil
	}
	is := func(st *State, c *Lin, b byte) bool { return byteIn(st, c, setOf(b)) == 1 }
	not := func(st *State, c *Lin, bs string) bool { return byteIn(st, c, setStr(bs)) == -1 }
	return &RefMon{ctl: "value", step: func(e *Engine, st *State, m *RefMon) *RefMon {
		p := m.r[gP]
		switch m.ctl {
		case "value":
			return ws(st, m, func(c, p *Lin) *RefMon {
				switch {
				case is(st, c, '"'):
					return set(m, "str", gP, p.AddC(1), gT, p.AddC(1))
				case is(st, c, '{'):
					return set(m, "obj0", gP, p.AddC(1))
				case is(st, c, '['):
					return set(m, "arr0", gP, p.AddC(1))
				case is(st, c, 't'):
					return set(m, "lit true", gP, p, gT, p)
				case is(st, c, 'f'):
					return set(m, "lit false", gP, p, gT, p)
				case is(st, c, 'n'):
					return set(m, "lit null", gP, p, gT, p)
				case byteIn(st, c, numStart) == 1:
					return set(m, "num", gP, p, gT, p)
				case byteIn(st, c, numStart) == -1 && not(st, c, "\"{[tfn"):
					return bad(m, p)
				}
				return nil
			})
		case "str":
			return str(st, m, func(q *Lin) *RefMon { return set(m, "done str", gP, q.AddC(1)) })
		case "num":
			switch end(st, p) {
			case 1:
				return set(m, "done num")
			case -1:
				switch byteIn(st, at(st, p), numEnd) {
				case 1:
					return set(m, "done num")
				case -1:
					return set(m, "num", gP, p.AddC(1))
				}
			}
		case "lit true", "lit false", "lit null":
			w := m.ctl[4:]
			switch sign(st, n.Sub(p).AddC(-int64(len(w)))) {
			case -1:
				return set(m, "eof")
			case 0:
				return nil
			}
			all := true
			for i := 0; i < len(w); i++ {
				switch byteIn(st, at(st, p.AddC(int64(i))), setOf(w[i])) {
				case -1:
					return bad(m, p)
				case 0:
					all = false
				}
			}
			if all {
				return set(m, "done "+w, gP, p.AddC(int64(len(w))))
			}
		case "arr0":
			return ws(st, m, func(c, p *Lin) *RefMon {
				if is(st, c, ']') {
					return set(m, "done arr", gP, p.AddC(1))
				}
				if not(st, c, "]") {
					return set(m, "arr elem", gP, p, gT, p)
				}
				return nil
			})
		case "arr elem", "obj elem":
			// white space before the value belongs to it
			if end(st, p) == -1 && byteIn(st, at(st, p), spaceSet) == 1 {
				return set(m, m.ctl, gP, p.AddC(1))
			}
		case "arr next":
			return ws(st, m, func(c, p *Lin) *RefMon {
				switch {
				case is(st, c, ','):
					return set(m, "arr elem", gP, p.AddC(1), gT, p.AddC(1))
				case is(st, c, ']'):
					return set(m, "done arr", gP, p.AddC(1))
				case not(st, c, ",]"):
					return bad(m, p)
				}
				return nil
			})
		case "obj0", "obj key":
			return ws(st, m, func(c, p *Lin) *RefMon {
				switch {
				case is(st, c, '"'):
					return set(m, "key", gP, p.AddC(1), gKLo, p.AddC(1))
				case m.ctl == "obj0" && is(st, c, '}'):
					return set(m, "done obj", gP, p.AddC(1))
				case not(st, c, "\"}") || m.ctl == "obj key" && not(st, c, "\""):
					return bad(m, p)
				}
				return nil
			})
		case "key":
			return str(st, m, func(q *Lin) *RefMon { return set(m, "colon", gP, q.AddC(1), gKHi, q) })
		case "colon":
			return ws(st, m, func(c, p *Lin) *RefMon {
				switch {
				case is(st, c, ':'):
					return set(m, "obj elem", gP, p.AddC(1), gT, p.AddC(1))
				case not(st, c, ":"):
					return bad(m, p)
				}
				return nil
			})
		case "obj next":
			return ws(st, m, func(c, p *Lin) *RefMon {
				switch {
				case is(st, c, ','):
					return set(m, "obj key", gP, p.AddC(1))
				case is(st, c, '}'):
					return set(m, "done obj", gP, p.AddC(1))
				case not(st, c, ",}"):
					return bad(m, p)
				}
				return nil
			})
		}
		return nil
	}}
}

// ---- contract of the recursive function ----

type parserState struct {
	nodes *SliceV
	n     *Lin
	err   Val
}

func (ps *Parser) read(st *State, p *PtrV) parserState {
	ld := func(f int) Val { return st.load(p.o, p.p.with(pe{f: f}), fieldTyp(ps.pt, f)) }
	nodes, _ := ld(ps.fNodes).(*SliceV)
	return parserState{nodes, asLin(ld(ps.fN), fieldTyp(ps.pt, ps.fN)), ld(ps.fErr)}
}

func (ps *Parser) write(st *State, p *PtrV, nodes *SliceV, n *Lin, err Val) {
	s := func(f int, v Val) { st.store(p.o, p.p.with(pe{f: f}), fieldTyp(ps.pt, f), v) }
	s(ps.fNodes, nodes)
	s(ps.fN, n)
	s(ps.fErr, err)
}

var uintT = types.Typ[types.Uint]

// advanceNodes applies the effect of parsing a value on the parser state:
// nodes from n on are new or arbitrary, possibly in a new array.
func (ps *Parser) advanceNodes(st *State, p *PtrV, err Val, f func(st *State, n2 *Lin)) {
	cur := ps.read(st, p)
	if ps.lax {
		havocN++
		n2 := symRange(fmt.Sprintf("n'%d", havocN), 0, 1<<62)
		nodes := symVal(fmt.Sprintf("nodes'%d", havocN), types.NewSlice(ps.nj.node)).(*SliceV)
		st.assumeValid(nodes)
		if !st.F.AssumeGe(n2.Sub(cur.n).AddC(-1)) || !st.F.AssumeGe(nodes.n.Sub(n2)) || !st.F.AssumeGe(nodes.n.Sub(cur.nodes.n)) {
			return
		}
		if ps.anyNodes != nil {
			nodes.o = ps.anyNodes
			nodes.off = LC(0)
		}
		ps.write(st, p, nodes, n2, err)
		f(st, n2)
		return
	}
	keep := func(st *State, from *SliceV, to *Obj) {
		os := st.ostate(from.o)
		havocN++
		ns := &ObjState{origin: fmt.Sprintf("parsed%d", havocN)}
		for _, c := range os.cells {
			if len(c.p) > 0 && c.p[0].f < 0 && st.F.Entails(from.off.Add(cur.n).Sub(c.p[0].idx).AddC(-1)) {
				q := append(Path{}, c.p...)
				if to != from.o {
					q[0].idx = st.F.norm(q[0].idx.Sub(from.off))
				}
				ns.cells = append(ns.cells, cell{q, c.v, c.t})
			}
		}
		st.setOState(to, ns)
	}
	mk := func(st *State) *Lin {
		havocN++
		n2 := symRange(fmt.Sprintf("n'%d", havocN), 0, 1<<62)
		st.F.AssumeGe(n2.Sub(cur.n).AddC(-1))
		return n2
	}
	// in place
	a := st.clone()
	n2 := mk(a)
	if a.F.AssumeGe(cur.nodes.n.Sub(n2)) && a.F.Feasible() {
		keep(a, cur.nodes, cur.nodes.o)
		ps.write(a, p, cur.nodes, n2, err)
		f(a, n2)
	}
	// into a new array
	n2 = mk(st)
	havocN++
	o := newObj("grown", ps.nj.node)
	o.region, o.fresh = true, true
	keep(st, cur.nodes, o)
	// the array left behind was written as well
	keep(st, cur.nodes, cur.nodes.o)
	l := symRange(fmt.Sprintf("len(grown%d)", havocN), 1, 1<<46)
	if st.F.AssumeGe(l.Sub(n2)) && st.F.AssumeGe(l.Sub(cur.nodes.n).AddC(-1)) && st.F.Feasible() {
		ps.write(st, p, &SliceV{o: o, off: LC(0), n: l, cap: l}, n2, err)
		f(st, n2)
	}
}

func (ps *Parser) eofErr() Val {
	havocN++
	return &IfaceV{t: ps.eofT, v: symVal(fmt.Sprintf("eof%d", havocN), ps.eofT)}
}
func (ps *Parser) badErr() (*IfaceV, *Lin) {
	havocN++
	o := newObj("parseerr", ps.perrT.(*types.Pointer).Elem())
	return &IfaceV{t: ps.perrT, v: &PtrV{o: o}}, symRange(fmt.Sprintf("errpos%d", havocN), 0, 1<<62)
}

// posOf evaluates ParseError.Pos on err.
func (ps *Parser) posOf(e *Engine, st *State, err *IfaceV) *Lin {
	p, ok := err.v.(*PtrV)
	if !ok {
		return nil
	}
	h := e.H
	e.H = Hooks{}
	outs := e.Run(st.clone(), ps.perrPos, []Val{p}, nil, nil)
	e.H = h
	if len(outs) != 1 || len(outs[0].ret) != 1 {
		return nil
	}
	return asLin(outs[0].ret[0], types.Typ[types.Int])
}

// errClass names the classes of the error in v: "nil", "eof", "bad", "?".
func (ps *Parser) errClass(st *State, v Val) string {
	i, ok := v.(*IfaceV)
	if !ok {
		return "?"
	}
	if nil1, known := st.isNilKnown(i); known && nil1 {
		return "nil"
	}
	switch {
	case i.t == nil:
		return "?"
	case types.Identical(i.t, ps.eofT):
		return "eof"
	case types.Identical(i.t, ps.perrT):
		return "bad"
	}
	return "other"
}

// parseOpts selects the obligations of a run.
type parseOpts struct {
	grammar, errs, effects, tree bool
}

// runValue proves the contract of the recursive function.
func (ps *Parser) runValue(c *Ctx, opt parseOpts) {
	nj := ps.nj
	r := c.runner(nj)
	e := r.e
	fn := ps.value
	cons := shortFn(fn)
	st := newState()
	po := newObj("parser", ps.pt)
	po.name = "parser"
	p := &PtrV{o: po}
	s := symVal("s", strT).(StrV)
	trackedBases["s"] = true
	defer delete(trackedBases, "s")
	pos := symVal("pos", fn.Params[ps.pPos].Type()).(*Lin)
	in := ps.read(st, p)
	st.store(p.o, fpath(ps.fErr), fieldTyp(ps.pt, ps.fErr), &IfaceV{isNil: true})
	st.F.AssumeGe(in.nodes.n.Sub(in.n))
	st.F.AssumeGe(in.n)
	st.F.AssumeGe(pos)
	st.F.AssumeGe(s.length().Sub(pos))
	n0 := in.n
	zero := LC(0)
	ps.lax = true
	ps.anyNodes = nil
	g := ps.grammar(s)
	g.r = []*Lin{pos, pos, zero, zero, zero, n0, zero, zero, zero}
	if ps.lax {
		g.r[gFloor] = zero
	}
	st.mon = g
	keepSyms[n0.t[0].s] = true
	st.ext["n0"] = n0
	if ps.lax {
		e.opaque = func(o *Obj) bool {
			return o.region && o.typ != nil && (types.Identical(o.typ, nj.V) || types.Identical(o.typ, nj.node))
		}
	}
	if opt.effects {
		ps.effectClasses(e, st, in)
	}

	isSelf := func(v Val) bool { q, ok := v.(*PtrV); return ok && q.o == p.o && len(q.p) == 0 }
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.fn != fn {
			return nil, false
		}
		m := st.ref(e)
		site := ci.ins.(ssa.Instruction)
		if m.ctl != "arr elem" && m.ctl != "obj elem" {
			if opt.grammar {
				e.Check(false, st, site, "element", cons, "a nested value is parsed where the grammar expects %s", grammarName(m.ctl))
			}
			return nil, true
		}
		q, _ := ci.args[ps.pPos].(*Lin)
		ss, _ := ci.args[ps.pS].(StrV)
		okArgs := q != nil && ss.B == s.B && st.F.EntailsEq(ss.lo) && st.F.EntailsEq(ss.hi.Sub(s.B.n)) && isSelf(ci.args[ps.pSelf])
		e.Check(okArgs, st, site, "element", cons+" input", "a nested value is not parsed from the same input")
		if !okArgs {
			return nil, true
		}
		if opt.grammar {
			e.Check(st.F.Entails(q.Sub(m.r[gT])) && st.F.Entails(m.r[gP].Sub(q)), st, site, "element", cons+" start", "the nested value is parsed from %s, the grammar expects it at %s", keyOf(st.F.norm(q)), keyOf(st.F.norm(m.r[gT])))
		}
		cur := ps.read(st, p)
		e.Check(ps.errClass(st, cur.err) == "nil" && (ps.lax && !opt.effects || st.F.Entails(cur.nodes.n.Sub(cur.n)) && st.F.Entails(cur.n.Sub(n0))), st, site, "contract", cons+" precondition", "nested parse starts from a bad parser state (err %s, n %s of %s)", keyOf(cur.err), keyOf(cur.n), keyOf(cur.nodes.n))
		var outs []Outcome
		cnt := m.r[gCnt]
		next := "arr next"
		if m.ctl == "obj elem" {
			next = "obj next"
		}
		// the value
		cont := func(st *State, r []*Lin) {
			if st == nil || !st.F.Feasible() {
				return
			}
			bs := st.clone()
			es := st.clone()
			ps.advanceNodes(st, p, &IfaceV{isNil: true}, func(st *State, n2 *Lin) {
				havocN++
				end := symRange(fmt.Sprintf("end%d", havocN), 1, 1<<47)
				if !st.F.AssumeGe(end.Sub(m.r[gP]).AddC(-1)) || !st.F.AssumeGe(s.length().Sub(end)) || !st.F.Feasible() {
					return
				}
				r2 := append([]*Lin(nil), r...)
				r2[gP], r2[gT] = end, zero
				if !ps.lax {
					r2[gCnt], r2[gFloor] = cnt.AddC(1), n2
				}
				r2[gKLo], r2[gKHi] = zero, zero
				st.mon = m.to(next, r2...)
				outs = append(outs, Outcome{st: st, ret: []Val{end}})
			})
			// cut short
			ps.advanceNodes(es, p, ps.eofErr(), func(st *State, n2 *Lin) {
				havocN++
				r2 := append([]*Lin(nil), r...)
				st.mon = m.to("eof", r2...)
				outs = append(outs, Outcome{st: st, ret: []Val{symVal(fmt.Sprintf("eofpos%d", havocN), uintT)}})
			})
			// malformed
			err, at := ps.badErr()
			ps.advanceNodes(bs, p, err, func(st *State, n2 *Lin) {
				havocN++
				st.store(err.v.(*PtrV).o, fpath(fieldIx(ps.perrT, "pos")), types.Typ[types.Int], at)
				r2 := append([]*Lin(nil), r...)
				r2[gP] = at
				st.mon = m.to("bad", r2...)
				outs = append(outs, Outcome{st: st, ret: []Val{symVal(fmt.Sprintf("badpos%d", havocN), uintT)}})
			})
		}
		cont(st, m.r)
		return outs, true
	}
	if opt.effects {
		e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, q *PtrV, t types.Type, v Val) {
			ps.checkStore(e, st, ins, q, v, in, p)
		}
		e.H.Write = func(e *Engine, st *State, ins ssa.Instruction, o *Obj) {
			if _, isStore := ins.(*ssa.Store); isStore {
				return // Store hook
			}
			site := shortFn(ins.Parent())
			for _, o := range o.leaves() {
				e.Check(o.fresh || o == ps.ownV, st, ins, "effect", site+" bulk", "%s overwrites %s wholesale", site, o.name)
			}
		}
	}
	args := make([]Val, len(fn.Params))
	for i, q := range fn.Params {
		switch i {
		case ps.pSelf:
			args[i] = p
		case ps.pS:
			args[i] = s
		case ps.pPos:
			args[i] = pos
		default:
			args[i] = symVal(q.Name(), q.Type())
		}
	}
	outs := r.run(st, fn, args...)
	n := map[string]int{}
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		st := o.st
		m := st.ref(e)
		dbgOut(o, m, o.ret[0].(*Lin))
		out := ps.read(st, p)
		cls := ps.errClass(st, out.err)
		n[cls]++
		ret, _ := o.ret[0].(*Lin)
		ps.checkReturn(e, o, m, cls, ret, out, in, p, s, cons, opt)
	}
	for _, k := range []string{"nil", "eof", "bad"} {
		e.Check(n[k] > 0, nil, nil, "returns", cons+" "+k, "%s never returns with result class %s", cons, k)
	}
	r.done()
}

func grammarName(ctl string) string {
	switch ctl {
	case "value":
		return "a value"
	case "bad":
		return "a ParseError"
	case "eof":
		return "an UnexpectedEOF error"
	}
	return "state " + ctl
}

func (ps *Parser) checkReturn(e *Engine, o *Outcome, m *RefMon, cls string, ret *Lin, out, in parserState, p *PtrV, s StrV, cons string, opt parseOpts) {
	st := o.st
	done := len(m.ctl) > 5 && m.ctl[:5] == "done "
	e.Check(ps.lax && !opt.effects || st.F.Entails(out.nodes.n.Sub(out.n)) && (cls != "nil" || st.F.Entails(out.n.Sub(in.n).AddC(-1))), st, o.site, "contract", cons+" nodes", "%s leaves the parser with n=%s of %s nodes", cons, keyOf(st.F.norm(out.n)), keyOf(st.F.norm(out.nodes.n)))
	if opt.grammar {
		if cls == "nil" {
			if e.Check(done, st, o.site, "accept", cons, "%s accepts input where the grammar has %s (at %s)", cons, grammarName(m.ctl), m.Key()) {
				e.Check(st.F.EntailsEq(ret.Sub(m.r[gP])), st, o.site, "extent", cons, "%s ends the value at %s, the grammar at %s", cons, keyOf(st.F.norm(ret)), keyOf(st.F.norm(m.r[gP])))
			}
		} else {
			e.Check(!done && (m.ctl == "eof" || m.ctl == "bad"), st, o.site, "reject", cons, "%s rejects input where the grammar has %s (%s)", cons, m.ctl, m.Key())
		}
	}
	if opt.errs && cls != "nil" {
		switch cls {
		case "eof", "bad":
			if m.ctl == "eof" || m.ctl == "bad" {
				e.Check(cls == m.ctl, st, o.site, "class", cons, "%s reports %s where the grammar has %s", cons, map[string]string{"eof": "UnexpectedEOF", "bad": "a ParseError"}[cls], grammarName(m.ctl))
			} else {
				e.Check(false, st, o.site, "class", cons, "%s reports an error where the grammar has %s", cons, m.ctl)
			}
			if cls == "bad" && m.ctl == "bad" {
				at := ps.posOf(e, st, out.err.(*IfaceV))
				e.Check(at != nil && st.F.EntailsEq(at.Sub(m.r[gP])), st, o.site, "position", cons, "the ParseError's position is %s, the offending byte is at %s", keyOf(at), keyOf(st.F.norm(m.r[gP])))
			}
		default:
			e.Check(false, st, o.site, "class", cons, "%s returns an error of unknown kind %s", cons, keyOf(out.err))
		}
	}
}

// effectClasses sets up the classes of memory the effect analysis tells
// apart: the document's nodes (positions are kept), values of nodes from n0
// on, values of earlier nodes, and memory allocated since.
func (ps *Parser) effectClasses(e *Engine, st *State, in parserState) {
	nj := ps.nj
	ps.anyNodes = in.nodes.o
	mk := func(name string) *Obj {
		o := newObj(name, nj.V)
		o.region, o.name = true, name
		return o
	}
	ps.ownV, ps.otherV = mk("values of a new node"), mk("values of an earlier node")
	fresh := map[string]*Obj{}
	e.opaqueKeep = func(o *Obj) *Obj {
		if types.Identical(o.typ, nj.node) {
			return ps.anyNodes
		}
		if o == ps.otherV || o == ps.ownV {
			return o
		}
		if !o.fresh {
			return ps.otherV
		}
		if fresh["V"] == nil {
			f := newObj("values", nj.V)
			f.region, f.fresh = true, true
			fresh["V"] = f
		}
		return fresh["V"]
	}
	e.opaqueLoad = func(st *State, p *PtrV, v Val) Val {
		own := types.Identical(p.o.typ, nj.node) && len(p.p) > 0 && p.p[0].f < 0 && (p.o.fresh && p.o != ps.anyNodes || st.F.Entails(p.p[0].idx.Sub(in.nodes.off).Sub(in.n)))
		if p.o.fresh && own && !st.F.Entails(p.p[0].idx.Sub(in.n)) {
			own = false // copies of earlier nodes share their values
		}
		var fix func(v Val) Val
		fix = func(v Val) Val {
			switch v := v.(type) {
			case *SliceV:
				if v.o != nil && types.Identical(v.o.typ, nj.V) {
					c := *v
					c.o = ps.otherV
					if own {
						c.o = ps.ownV
					}
					return &c
				}
			case *StructV:
				c := &StructV{f: append([]Val(nil), v.f...)}
				for i := range c.f {
					c.f[i] = fix(c.f[i])
				}
				return c
			}
			return v
		}
		return fix(v)
	}
}

// checkStore decides where the parser writes.
func (ps *Parser) checkStore(e *Engine, st *State, ins ssa.Instruction, q *PtrV, v Val, in parserState, p *PtrV) {
	nj := ps.nj
	site := shortFn(ins.Parent())
	if q.o == p.o {
		return
	}
	for _, o := range q.o.leaves() {
		if o == in.nodes.o {
			ok := len(q.p) > 0 && q.p[0].f < 0 && st.F.Entails(q.p[0].idx.Sub(in.nodes.off).Sub(in.n))
			e.Check(ok, st, ins, "effect", site+" node", "%s writes a node of the document that existed before", site)
			continue
		}
		if o.fresh || o == ps.ownV {
			continue
		}
		if o == ps.otherV {
			e.Fail(st, ins, "effect", site+" values", "%s writes values of a node that existed before", site)
			continue
		}
		e.Fail(st, ins, "effect", site+" other", "%s writes %s", site, o.name)
	}
	var foreign func(v Val) bool
	foreign = func(v Val) bool {
		switch v := v.(type) {
		case *SliceV:
			return v.o == ps.otherV
		case *StructV:
			for _, f := range v.f {
				if foreign(f) {
					return true
				}
			}
		}
		return false
	}
	if types.Identical(q.o.typ, nj.node) {
		e.Check(!foreign(v), st, ins, "effect", site+" shares", "%s makes a node share the values of an earlier one", site)
	}
}

var _ = token.NoPos

func init() {
	reg := func(id string, opt parseOpts, rule, explain string) {
		register(&Prop{
			ID: id, Rule: rule, Explain: explain,
			Run: func(c *Ctx) {
				if ps := parserAnchors(c); ps != nil {
					ps.runValue(c, opt)
					ps.runParse(c, opt)
				}
			},
		})
	}
	reg("C03", parseOpts{grammar: true},
		"The recursive parse function is interpreted abstractly on a symbolic input and position, in product with a reference machine of the JSON grammar that advances only on established facts about input bytes; nested values by induction (they must start where the machine expects an element). Every return without error must find the machine at the end of a value with the returned position equal to its frontier; every return with error must find it at end of input or at a violation. Document.Parse is then interpreted with that contract: input parsed from offset 0, tail is exactly the rest, zero Node on failure.",
		"Product of parser and reference grammar; all paths, inferred loop invariants, induction over nesting.")
	reg("C04", parseOpts{errs: true},
		"Same product as C03: on every return with an error its dynamic type must match the reference machine's verdict (end of input / violation) and ParseError.Pos, evaluated on it, must equal the offset of the violation; Document.Parse must hand on that error with the whole input (end of input) or an empty tail (violation).",
		"Product of parser and reference grammar; error class, position and tail obligations on every error return.")
	reg("C05", parseOpts{effects: true},
		"Effect analysis of the recursive parse function on a symbolic parser whose nodes from n on are spare: every store must go to a node at index >= n, to values loaded from such a node, to memory allocated since, or to the parser state; no node may be made to share values of an earlier node; nested parses start at an index >= n. Document.Parse with that contract: parser starts at len(nodes), on error the node count is unchanged, on every return all earlier nodes (checked at an arbitrary index), their values and the revision are unchanged.",
		"Effect (mod) analysis of the parser with classes of memory, and frame of Document.Parse.")
}
