package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// kindSym is an info value of one of the seven kinds, without flags.
func (ps *Parser) kindSym() (*Lin, *Sym) {
	havocN++
	s := newByteSym(fmt.Sprintf("kind%d", havocN))
	return LS(s), s
}

// runParse interprets Document.Parse with the recursive function replaced by
// its contract (proved by runValue).
// seeNode remembers what a node of the parser holds.
func (ps *Parser) seeNode(st *State, id *Lin) {
	nj := ps.nj
	ns := st.ext["pnodes"].(*SliceV)
	for f, n := range map[int]string{nj.iInfo: "info", nj.iRaw: "raw", nj.iValues: "values"} {
		q := nj.nodePath(ns, id, f)
		st.ext["seen "+n] = st.load(q.o, q.p, fieldTyp(nj.node, f))
	}
}

func (ps *Parser) runParse(c *Ctx, opt parseOpts) {
	ps.runParse1(c, opt, false)
	if opt.effects {
		ps.runParse1(c, opt, true)
	}
}

func (ps *Parser) runParse1(c *Ctx, opt parseOpts, frame bool) {
	nj := ps.nj
	r := c.runner(nj)
	e := r.e
	ps.lax = false
	cons := "Document.Parse"
	st := newState()
	d := nj.doc("doc")
	nodes0, rev0 := nj.nodes(st, d), nj.rev(st, d)
	n0 := nodes0.n
	keepSyms[n0.t[0].s] = true
	s := symVal("s", strT).(StrV)
	if frame {
		nj.frameIndex(st, d)
	}
	noPanic(e, cons)
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.fn != ps.value {
			return nil, false
		}
		site := ci.ins.(ssa.Instruction)
		p, _ := ci.args[ps.pSelf].(*PtrV)
		q, _ := ci.args[ps.pPos].(*Lin)
		ss, _ := ci.args[ps.pS].(StrV)
		if !e.Check(p != nil && q != nil && ss.B != nil, st, site, "entry", cons, "Document.Parse calls %s in an unknown way", shortFn(ps.value)) {
			return nil, true
		}
		if opt.grammar {
			e.Check(e.sameVal(st, ss, s) && st.F.EntailsEq(q), st, site, "entry", cons+" input", "the input is parsed from %s of %s instead of its start", keyOf(q), keyOf(ss))
		}
		cur := ps.read(st, p)
		e.Check(ps.errClass(st, cur.err) == "nil" && st.F.Entails(cur.nodes.n.Sub(cur.n)), st, site, "entry", cons+" parser", "the parser starts from a bad state (err %s, n %s of %s nodes)", keyOf(cur.err), keyOf(cur.n), keyOf(cur.nodes.n))
		if opt.effects || opt.tree {
			e.Check(st.F.Entails(cur.n.Sub(n0)) && (cur.nodes.o == nodes0.o && st.F.EntailsEq(cur.nodes.off.Sub(nodes0.off)) || cur.nodes.o.fresh), st, site, "entry", cons+" nodes", "the parser starts at node %s of a document that has %s nodes", keyOf(st.F.norm(cur.n)), keyOf(n0))
		}
		var outs []Outcome
		as := func(cls string, st *State, err Val) {
			ps.advanceNodes(st, p, err, func(st *State, n2 *Lin) {
				havocN++
				end := symRange(fmt.Sprintf("end%d", havocN), 0, 1<<47)
				if cls == "nil" {
					if !st.F.AssumeGe(end.Sub(q).AddC(-1)) || !st.F.AssumeGe(s.length().Sub(end)) || !st.F.Feasible() {
						return
					}
				}
				k, sym := ps.kindSym()
				var set Set256
				for _, n := range []string{"TypeString", "TypeNumber", "TypeBoolean", "TypeNull", "TypeArray", "TypeObject"} {
					set.Add(int(nj.kinds[n]))
				}
				st.F.setSet(sym, set)
				now := ps.read(st, p)
				np := nj.nodePath(now.nodes, cur.n, nj.iInfo)
				st.store(np.o, np.p, fieldTyp(nj.node, nj.iInfo), k)
				st.ext["cls"] = LC(map[string]int64{"nil": 0, "eof": 1, "bad": 2}[cls])
				st.ext["end"], st.ext["n2"], st.ext["pn"] = end, n2, cur.n
				st.ext["pnodes"] = now.nodes
				st.ext["perr"] = err
				if opt.tree && cls == "nil" {
					// what the parser made of the value, and of any other node
					b := st.clone()
					j := symRange("some node", 0, 1<<46)
					ps.seeNode(st, cur.n)
					if b.F.AssumeGe(j.Sub(n0)) && b.F.AssumeGe(n2.Sub(j).AddC(-1)) && b.F.AssumeNe(j.Sub(cur.n)) && b.F.Feasible() {
						b.ext["node j"] = j
						ps.seeNode(b, j)
						outs = append(outs, Outcome{st: b, ret: []Val{end}})
					}
				}
				outs = append(outs, Outcome{st: st, ret: []Val{end}})
			})
		}
		a, b := st.clone(), st.clone()
		as("nil", st, &IfaceV{isNil: true})
		as("eof", a, ps.eofErr())
		bad, _ := ps.badErr()
		as("bad", b, bad)
		return outs, true
	}
	outs := r.run(st, ps.parse, d, s)
	n := map[int64]int{}
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		st := o.st
		ck := func(ok bool, rule, what, f string, a ...interface{}) bool {
			return e.Check(ok, st, o.site, rule, cons+" "+what, f, a...)
		}
		cl, ok := st.ext["cls"].(*Lin)
		if !ck(ok, "entry", "result", "Document.Parse returns without parsing the input") {
			continue
		}
		cls, _ := cl.constInt()
		n[cls]++
		nv, _ := o.ret[0].(*StructV)
		tail, _ := o.ret[1].(StrV)
		err, _ := o.ret[2].(*IfaceV)
		if !ck(nv != nil && tail.B != nil && err != nil, "result", "values", "Document.Parse returns unknown values") {
			continue
		}
		name := []string{"a complete value", "input that ends early", "malformed input"}[cls]
		end := st.ext["end"].(*Lin)
		errIs := ps.errClass(st, err)
		sameErr := cls == 0 && errIs == "nil" || cls != 0 && keyOf(err) == keyOf(st.ext["perr"])
		if opt.errs || opt.grammar {
			ck(sameErr, "error", name, "on %s Document.Parse returns error %s", name, keyOf(err))
		}
		zero := zeroVal(nj.Node)
		if opt.grammar {
			if cls == 0 {
				ck(e.sameVal(st, tail, StrV{s.B, end, s.hi}), "tail", name, "the value ends at %s but the tail is %s", keyOf(st.F.norm(end)), keyOf(st.F.normVal(tail)))
			} else {
				ck(e.sameVal(st, nv, zero), "node", name, "on %s Document.Parse returns the node %s", name, keyOf(nv))
			}
		}
		if opt.errs {
			switch cls {
			case 1:
				ck(e.sameVal(st, tail, s), "tail", name, "on %s the tail is %s instead of the whole input", name, keyOf(tail))
			case 2:
				ck(e.sameVal(st, tail, strLit("")), "tail", name, "on %s the tail is %s", name, keyOf(tail))
			}
		}
		cur := nj.nodes(st, d)
		if opt.effects {
			ck(st.F.EntailsEq(nj.rev(st, d).Sub(rev0)), "rev", name, "Document.Parse changes the revision of the document")
			if cls != 0 {
				ck(st.F.EntailsEq(cur.n.Sub(n0)), "count", name, "on %s the document has %s nodes, before %s", name, keyOf(st.F.norm(cur.n)), keyOf(n0))
			} else {
				ck(st.F.Entails(cur.n.Sub(n0)), "count", name, "Document.Parse drops nodes: %s, before %s", keyOf(st.F.norm(cur.n)), keyOf(n0))
			}
			if frame {
				nj.frame(e, o, d, cons)
			}
		}
		if opt.tree && cls == 0 {
			at := st.ext["pn"].(*Lin)
			if j, ok := st.ext["node j"].(*Lin); ok {
				at = j
				ck(e.sameVal(st, nj.infoOf(st, d, at), st.ext["seen info"]), "nodes", "info", "Document.Parse changes the type of a value inside the one parsed")
			}
			ck(e.sameVal(st, nj.raw(st, d, at), st.ext["seen raw"]), "nodes", "raw", "Document.Parse changes the text of a value parsed")
			vs, was := nj.values(st, d, at), st.ext["seen values"]
			ck(keyOf(st.F.normVal(vs)) == keyOf(st.F.normVal(was)), "nodes", "values", "Document.Parse changes the values of a value parsed: %s, before %s", keyOf(vs), keyOf(was))
			id := asLin(nv.f[nj.nID], nil)
			pn := st.ext["pn"].(*Lin)
			same := func(v Val) bool { q, ok := v.(*PtrV); return ok && q.o == d.o && len(q.p) == 0 }
			ck(st.F.EntailsEq(id.Sub(pn)) && st.F.EntailsEq(asLin(nv.f[nj.nRev], nil).Sub(rev0)) && same(nv.f[nj.nDoc]), "result", "node", "Document.Parse returns %s instead of a live reference to the value parsed", keyOf(nv))
			pn2 := st.ext["pnodes"].(*SliceV)
			ck(cur.o == pn2.o && st.F.EntailsEq(cur.off.Sub(pn2.off)) && st.F.Entails(cur.n.Sub(st.ext["n2"].(*Lin))), "result", "commit", "the nodes parsed are not in the document (%s nodes, the parser has %s)", keyOf(st.F.norm(cur.n)), keyOf(st.ext["n2"]))
			inf := st.F.norm(nj.infoOf(st, d, id))
			b, v, isFin := inf.asFin()
			root, kind := isFin, isFin
			if isFin {
				set := st.F.setOf(b)
				for j := 0; j < 256; j++ {
					if set.Has(j) {
						root = root && v[j]&nj.infRoot != 0
						kind = kind && v[j] == int64(j)|nj.infRoot
					}
				}
			}
			ck(root, "flags", "root", "the value parsed is not marked free-standing")
			ck(kind, "type", "kind", "Document.Parse changes the type of the value parsed (%s)", keyOf(inf))
		}
	}
	for k, w := range []string{"complete", "cut short", "malformed"} {
		e.Check(n[int64(k)] > 0, nil, nil, "returns", cons+" "+w, "Document.Parse never returns when the input is %s", w)
	}
	r.done()
	_ = types.Typ
}
