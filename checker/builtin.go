package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) builtin(st *State, ins ssa.CallInstruction, name string, args []Val, cc *ssa.CallCommon) []Outcome {
	one := func(v Val) []Outcome { return []Outcome{{st: st, ret: []Val{v}}} }
	switch name {
	case "len":
		switch v := args[0].(type) {
		case StrV:
			return one(st.F.norm(v.length()))
		case *SliceV:
			return one(st.F.norm(v.n))
		}
		l := LS(newLenSym("len(" + keyOf(args[0]) + ")"))
		return one(l)
	case "cap":
		if v, ok := args[0].(*SliceV); ok {
			return one(st.F.norm(v.cap))
		}
		return one(LS(newLenSym("cap(" + keyOf(args[0]) + ")")))
	case "append":
		return e.appendB(st, ins, args[0], args[1], cc)
	case "copy":
		return e.copyB(st, ins, args[0], args[1])
	case "min", "max":
		a, b := asLin(args[0], cc.Args[0].Type()), asLin(args[1], cc.Args[1].Type())
		f := st.clone()
		var out []Outcome
		le := b.Sub(a) // a <= b
		for _, s := range e.assume(st, cGe(le), true) {
			v := a
			if name == "max" {
				v = b
			}
			out = append(out, Outcome{st: s, ret: []Val{v}})
		}
		for _, s := range e.assume(f, cGe(le), false) {
			v := b
			if name == "max" {
				v = a
			}
			out = append(out, Outcome{st: s, ret: []Val{v}})
		}
		return out
	case "panic":
		if e.H.Panic != nil {
			e.H.Panic(e, st, ins, "explicit panic")
		}
		return nil
	case "delete", "print", "println", "close":
		return []Outcome{{st: st}}
	case "clear":
		if v, ok := args[0].(*SliceV); ok {
			if e.H.Write != nil {
				e.H.Write(e, st, ins, v.o)
			}
			st.havocObj(v.o, "clear")
		}
		return []Outcome{{st: st}}
	case "recover":
		return one(&IfaceV{isNil: true})
	case "ssa:wrapnilchk":
		p := e.deref(st, ins, args[0])
		if p == nil {
			return nil
		}
		return one(args[0])
	}
	havocN++
	sig := cc.Signature()
	if sig.Results().Len() == 1 {
		return one(symVal(fmt.Sprintf("builtin%d:%s", havocN, name), sig.Results().At(0).Type()))
	}
	return []Outcome{{st: st}}
}

var lenTab = map[string]*Sym{}

func newLenSym(k string) *Sym {
	if s := lenTab[k]; s != nil {
		return s
	}
	s := newSym(k, bi(0), maxLen)
	lenTab[k] = s
	return s
}

// chunkOf describes appended data.
func (e *Engine) chunkOf(st *State, v Val) Chunk {
	switch v := v.(type) {
	case StrV:
		s := StrV{v.B, st.F.norm(v.lo), st.F.norm(v.hi)}
		if l, ok := s.lit(); ok {
			c := Chunk{k: LC(int64(len(l)))}
			for i := 0; i < len(l); i++ {
				c.bytes = append(c.bytes, LC(int64(l[i])))
			}
			return c
		}
		return Chunk{str: &s, k: st.F.norm(s.length())}
	case *SliceV:
		if v.isNil {
			return Chunk{k: LC(0)}
		}
		if n, ok := st.F.norm(v.n).constInt(); ok && n <= 64 && v.emit == nil && isByteT(v.o.typ) {
			c := Chunk{k: LC(n)}
			for i := int64(0); i < n; i++ {
				b := st.load(v.o, Path{{f: -1, idx: st.F.norm(v.off.AddC(i))}}, v.o.typ)
				c.bytes = append(c.bytes, st.F.norm(asLin(b, v.o.typ)))
			}
			return c
		}
		if v.o.src != nil {
			s := *v.o.src
			ss := StrV{s.B, st.F.norm(s.lo.Add(v.off)), st.F.norm(s.lo.Add(v.off).Add(v.n))}
			return Chunk{str: &ss, k: st.F.norm(v.n)}
		}
		return Chunk{sl: v, k: st.F.norm(v.n)}
	}
	return Chunk{val: v}
}

func isByteT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) appendB(st *State, ins ssa.CallInstruction, d, x Val, cc *ssa.CallCommon) []Outcome {
	dst, ok := d.(*SliceV)
	if !ok {
		havocN++
		return []Outcome{{st: st, ret: []Val{symVal(fmt.Sprintf("append%d(%s)", havocN, keyOf(d)), cc.Args[0].Type())}}}
	}
	elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	ch := Chunk{}
	if isByteT(elem) {
		ch = e.chunkOf(st, x)
	} else if sv, ok := x.(*SliceV); ok {
		ch = Chunk{sl: sv, k: st.F.norm(sv.n)}
	}
	if e.H.Append != nil {
		if rs, ok := e.H.Append(e, st, ins, dst, ch); ok {
			var outs []Outcome
			for _, r := range rs {
				outs = append(outs, Outcome{st: r.st, ret: []Val{r.v}})
			}
			return outs
		}
	}
	if k, ok := ch.k, ch.k != nil; ok {
		if c, isC := k.constInt(); isC && c == 0 {
			return []Outcome{{st: st, ret: []Val{d}}}
		}
	}
	k := ch.k
	if k == nil {
		k = LS(newLenSym("len(" + keyOf(x) + ")"))
	}
	n2 := dst.n.Add(k)
	var outs []Outcome
	// contents written at off+n .. off+n+k
	write := func(s *State, o *Obj, off *Lin) {
		if c, isC := k.constInt(); isC && c <= 16 {
			for i := int64(0); i < c; i++ {
				var v Val
				if len(ch.bytes) > 0 {
					v = ch.bytes[i]
				} else if ch.str != nil {
					v = s.byteAt(*ch.str, LC(i))
				} else if ch.sl != nil {
					v = s.load(ch.sl.o, Path{{f: -1, idx: s.F.norm(ch.sl.off.AddC(i))}}, elem)
				} else {
					havocN++
					v = symVal(fmt.Sprintf("app%d", havocN), elem)
				}
				p := &PtrV{o: o, p: Path{{f: -1, idx: s.F.norm(off.Add(dst.n).AddC(i))}}}
				if e.H.Store != nil {
					e.H.Store(e, s, ins, p, elem, v)
				}
				s.store(o, p.p, elem, v)
			}
		} else {
			// unknown number of elements: forget the tail, keep what is provably before it
			if ch.sl != nil && ch.sl.o != nil {
				s.moveCells(o, off.Add(dst.n), ch.sl.o, ch.sl.off, k, "app")
			} else {
				s.moveCells(o, off.Add(dst.n), nil, nil, k, "app")
			}
		}
	}
	// in place
	if !dst.isNil {
		s := st.clone()
		if s.F.AssumeGe(dst.cap.Sub(n2)) && s.F.Feasible() {
			if e.H.Write != nil {
				e.H.Write(e, s, ins, dst.o)
			}
			write(s, dst.o, dst.off)
			outs = append(outs, Outcome{st: s, ret: []Val{&SliceV{o: dst.o, off: dst.off, n: s.F.norm(n2), cap: dst.cap, emit: dst.emit}}})
		}
	}
	// grow
	s := st
	if s.F.AssumeGe(n2.Sub(dst.cap).AddC(-1)) || dst.isNil {
		o := newObj("grow:"+dst.o.name, elem)
		o.region, o.fresh = true, true
		o.tag = dst.o.tag
		os := s.ostate(dst.o)
		ns := &ObjState{origin: os.origin}
		zero := LC(0)
		sameOff := s.F.EntailsEq(dst.off)
		for _, c := range os.cells {
			if len(c.p) > 0 && c.p[0].f < 0 {
				q := append(Path{}, c.p...)
				if !sameOff {
					q[0].idx = s.F.norm(q[0].idx.Sub(dst.off))
				}
				ns.cells = append(ns.cells, cell{q, c.v, c.t})
			}
		}
		if !sameOff && ns.origin != "" {
			ns.origin = "shift(" + ns.origin + "," + dst.off.Key() + ")"
		}
		s.setOState(o, ns)
		cp := newSym("cap(grow)", bi(0), maxLen)
		s.F.AssumeGe(LS(cp).Sub(n2))
		write(s, o, zero)
		outs = append(outs, Outcome{st: s, ret: []Val{&SliceV{o: o, off: zero, n: s.F.norm(n2), cap: LS(cp), emit: dst.emit}}})
	}
	return outs
}

func (e *Engine) copyB(st *State, ins ssa.CallInstruction, d, x Val) []Outcome {
	dst, ok := d.(*SliceV)
	if !ok {
		return []Outcome{{st: st, ret: []Val{LS(newLenSym("copyn"))}}}
	}
	var sn *Lin
	switch v := x.(type) {
	case StrV:
		sn = v.length()
	case *SliceV:
		sn = v.n
	default:
		sn = LS(newLenSym("len(" + keyOf(x) + ")"))
	}
	var outs []Outcome
	do := func(s *State, n *Lin) {
		n = s.F.norm(n)
		if e.H.Copy != nil {
			e.H.Copy(e, s, ins, dst, x, n)
		}
		if c, ok := n.constInt(); ok && c == 0 {
			outs = append(outs, Outcome{st: s, ret: []Val{n}})
			return
		}
		if e.H.Write != nil {
			e.H.Write(e, s, ins, dst.o)
		}
		src, isS := x.(*SliceV)
		os := s.ostate(dst.o)
		if isS && dst.o.fresh && len(os.cells) == 0 && os.origin == "" && s.F.EntailsEq(dst.off) && (s.F.EntailsEq(n.Sub(src.n)) || s.F.EntailsEq(n.Sub(dst.cap))) {
			// whole-array copy into a fresh array
			ss := s.ostate(src.o)
			ns := &ObjState{origin: ss.origin}
			same := s.F.EntailsEq(src.off)
			if !same && ns.origin != "" {
				ns.origin = "shift(" + ns.origin + "," + src.off.Key() + ")"
			}
			for _, c := range ss.cells {
				if len(c.p) > 0 && c.p[0].f < 0 && s.F.Entails(src.off.Add(n).Sub(c.p[0].idx).AddC(-1)) && s.F.Entails(c.p[0].idx.Sub(src.off)) {
					q := append(Path{}, c.p...)
					q[0].idx = s.F.norm(q[0].idx.Sub(src.off))
					ns.cells = append(ns.cells, cell{q, c.v, c.t})
				}
			}
			s.setOState(dst.o, ns)
			for _, k := range e.zeroAt {
				if s.F.Entails(k.Sub(n)) && s.F.Entails(dst.cap.Sub(k).AddC(-1)) {
					elem := ins.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
					s.store(dst.o, Path{{f: -1, idx: k}}, elem, zeroVal(elem))
				}
			}
		} else if c, ok := n.constInt(); ok && c <= 16 && dst.o.region {
			elem := ins.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			var vs []Val
			for i := int64(0); i < c; i++ {
				switch v := x.(type) {
				case StrV:
					vs = append(vs, s.byteAt(v, LC(i)))
				case *SliceV:
					vs = append(vs, s.load(v.o, Path{{f: -1, idx: s.F.norm(v.off.AddC(i))}}, elem))
				default:
					havocN++
					vs = append(vs, symVal(fmt.Sprintf("copied%d", havocN), elem))
				}
			}
			for i, v := range vs {
				s.store(dst.o, Path{{f: -1, idx: s.F.norm(dst.off.AddC(int64(i)))}}, elem, v)
			}
		} else {
			if isS {
				s.moveCells(dst.o, dst.off, src.o, src.off, n, "copy")
			} else {
				s.moveCells(dst.o, dst.off, nil, nil, n, "copy")
			}
		}
		outs = append(outs, Outcome{st: s, ret: []Val{n}})
	}
	a := st.clone()
	if a.F.AssumeGe(dst.n.Sub(sn)) && a.F.Feasible() {
		do(a, sn)
	}
	if st.F.AssumeGe(sn.Sub(dst.n).AddC(-1)) && st.F.Feasible() {
		do(st, dst.n)
	}
	return outs
}

// moveCells overwrites n elements of d from doff with those of src from soff
// (src nil: with unknown ones). Cells that are provably outside stay, cells
// provably inside the source are carried over, the rest is forgotten.
func (s *State) moveCells(d *Obj, doff *Lin, src *Obj, soff, n *Lin, why string) {
	os := s.ostate(d)
	havocN++
	ns := &ObjState{origin: fmt.Sprintf("%s%d:%s", why, havocN, d.name)}
	ix := func(c cell) *Lin {
		if len(c.p) > 0 && c.p[0].f < 0 {
			return c.p[0].idx
		}
		return nil
	}
	for _, c := range os.cells {
		if i := ix(c); i != nil && (s.F.Entails(doff.Sub(i).AddC(-1)) || s.F.Entails(i.Sub(doff.Add(n)))) {
			ns.cells = append(ns.cells, c)
		}
	}
	if src != nil {
		for _, c := range s.ostate(src).cells {
			if i := ix(c); i != nil && s.F.Entails(i.Sub(soff)) && s.F.Entails(soff.Add(n).Sub(i).AddC(-1)) {
				q := append(Path{}, c.p...)
				q[0].idx = s.F.norm(i.Sub(soff).Add(doff))
				ns.cells = append(ns.cells, cell{q, c.v, c.t})
			}
		}
	}
	s.setOState(d, ns)
}
