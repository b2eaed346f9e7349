package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// runeTab maps the name of a decoded rune to its value symbol.
var runeTab = map[string]*Lin{}

// nonNil marks a nilable value as non-nil on this path.
func (st *State) nonNil(v Val) Val {
	if c := nilCond(v); c.kind == 'a' {
		st.F.atoms[c.atom] = c.neg
	}
	return v
}

func symRange(name string, lo, hi int64) *Lin {
	k := "range:" + name
	if v, ok := initTab[k]; ok {
		return v.(*Lin)
	}
	l := LS(newSym(name, big.NewInt(lo), big.NewInt(hi)))
	initTab[k] = l
	return l
}

// pureExtern lists packages whose functions have no effect on the caller's
// memory and whose results depend on the arguments only.
func pureExtern(name string) bool {
	for _, p := range []string{"strconv.", "math.", "math/bits.", "unicode.", "unicode/utf8.", "unicode/utf16.", "strings.", "(time.", "reflect.TypeOf", "reflect.ValueOf", "reflect.PtrTo", "reflect.PointerTo", "reflect.SliceOf", "reflect.MapOf", "reflect.Zero", "bytes.Equal", "bytes.IndexByte", "bytes.Compare", "errors.Is", "encoding/json.Valid"} {
		if strings.HasPrefix(name, p) {
			return !strings.HasPrefix(name, "strconv.Append")
		}
	}
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return true
	}
	return false
}

func strOf(st *State, v Val) (StrV, bool) {
	switch v := v.(type) {
	case StrV:
		return StrV{v.B, st.F.norm(v.lo), st.F.norm(v.hi)}, true
	}
	return StrV{}, false
}

func (e *Engine) extern(st *State, ci *callInfo) ([]Outcome, bool) {
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	name := ci.name
	switch name {
	case "strings.IndexByte":
		s, ok := strOf(st, ci.args[0])
		c, okc := ci.args[1].(*Lin)
		if !ok || !okc {
			break
		}
		c = st.F.norm(c)
		cc, isC := c.constInt()
		n := st.F.norm(s.length())
		var outs []Outcome
		if lit, ok := s.lit(); ok && isC {
			return one(LC(int64(strings.IndexByte(lit, byte(cc)))))
		}
		set := fullSet()
		if isC {
			set.Del(int(cc))
		}
		// not found
		a := st.clone()
		if isC {
			a.addScan(Scan{base: s.B, lo: s.lo, hi: s.hi, set: set})
		}
		if a.F.Feasible() {
			outs = append(outs, Outcome{st: a, ret: []Val{LC(-1)}})
		}
		// found at k
		k := symRange(fmt.Sprintf("idx(%s,%s)", s.Key(), c.Key()), 0, 1<<62)
		if st.F.AssumeGe(n.Sub(k).AddC(-1)) && st.F.Feasible() {
			if isC {
				st.addScan(Scan{base: s.B, lo: s.lo, hi: st.F.norm(s.lo.Add(k)), set: set})
				b := st.byteAt(s, k)
				if !st.F.AssumeEq(b.AddC(-cc)) {
					return outs, true
				}
			}
			outs = append(outs, Outcome{st: st, ret: []Val{st.F.norm(k)}})
		}
		return outs, true
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		var s StrV
		ok := false
		switch x := ci.args[0].(type) {
		case StrV:
			s, ok = strOf(st, x)
		case *SliceV:
			if x.o.src != nil {
				s, ok = StrV{x.o.src.B, st.F.norm(x.o.src.lo.Add(x.off)), st.F.norm(x.o.src.lo.Add(x.off).Add(x.n))}, true
			}
		}
		if !ok {
			break
		}
		return e.decodeRune(st, s), true
	case "unicode/utf16.IsSurrogate":
		if r, ok := ci.args[0].(*Lin); ok {
			return one(cAnd(cGe(r.AddC(-0xd800)), cGe(r.Neg().AddC(0xdfff))))
		}
	case "unicode/utf8.ValidRune":
		if r, ok := ci.args[0].(*Lin); ok {
			sur := cAnd(cGe(r.AddC(-0xd800)), cGe(r.Neg().AddC(0xdfff)))
			return one(cAnd(cGe(r), cGe(r.Neg().AddC(0x10ffff)), cNot(sur)))
		}
	case "unicode/utf16.DecodeRune":
		a, ok1 := ci.args[0].(*Lin)
		b, ok2 := ci.args[1].(*Lin)
		if ok1 && ok2 {
			good := cAnd(cGe(a.AddC(-0xd800)), cGe(a.Neg().AddC(0xdbff)), cGe(b.AddC(-0xdc00)), cGe(b.Neg().AddC(0xdfff)))
			var outs []Outcome
			f := st.clone()
			for _, s := range e.assume(st, good, true) {
				r := s.F.norm(a.AddC(-0xd800).Scale(1024).Add(b.AddC(-0xdc00)).AddC(0x10000))
				outs = append(outs, Outcome{st: s, ret: []Val{r}})
			}
			for _, s := range e.assume(f, good, false) {
				outs = append(outs, Outcome{st: s, ret: []Val{LC(0xfffd)}})
			}
			return outs, true
		}
	case "unicode/utf8.EncodeRune":
		dst, ok := ci.args[0].(*SliceV)
		r, ok2 := ci.args[1].(*Lin)
		if !ok || !ok2 {
			break
		}
		var outs []Outcome
		for _, x := range e.runeSizes(st, r) {
			n := x.ret[0].(*Lin)
			if e.H.Bounds != nil {
				e.H.Bounds(e, x.st, ci.ins, "utf8.EncodeRune", x.st.F.Entails(dst.n.Sub(n)))
			}
			if !x.st.F.AssumeGe(dst.n.Sub(n)) {
				continue
			}
			if e.H.Write != nil {
				e.H.Write(e, x.st, ci.ins, dst.o)
			}
			if e.H.Copy != nil {
				e.H.Copy(e, x.st, ci.ins, dst, &TermV{key: "utf8(" + r.Key() + ")", op: "utf8", args: []Val{r}}, n)
			}
			os := x.st.ostate(dst.o)
			havocN++
			ns := &ObjState{origin: fmt.Sprintf("enc%d:%s", havocN, dst.o.name)}
			for _, c := range os.cells {
				if len(c.p) > 0 && c.p[0].f < 0 && (x.st.F.Entails(dst.off.Sub(c.p[0].idx).AddC(-1)) || x.st.F.Entails(c.p[0].idx.Sub(dst.off.Add(n)))) {
					ns.cells = append(ns.cells, c)
				}
			}
			x.st.setOState(dst.o, ns)
			outs = append(outs, x)
		}
		return outs, true
	case "unicode/utf8.RuneLen":
		if r, ok := ci.args[0].(*Lin); ok {
			_ = r
		}
	case "errors.New", "fmt.Errorf", "encoding/json.Marshal":
		rs := e.freshResults(ci)
		if name != "encoding/json.Marshal" {
			st.nonNil(rs[0])
		}
		return one(rs...)
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.Pool).Put":
		return one()
	case "(*sync.Pool).Get":
		return e.poolGet(st, ci), true
	case "\x00":
		rs := e.freshResults(ci)
		return one(rs...)
	case "strconv.AppendInt", "strconv.AppendUint", "strconv.AppendFloat", "strconv.AppendBool", "strconv.AppendQuote", "unicode/utf8.AppendRune":
		dst, ok := ci.args[0].(*SliceV)
		if !ok {
			break
		}
		ch := Chunk{val: &TermV{key: name + "(" + keyOf(&TupleV{ci.args[1:]}) + ")", op: name, args: ci.args[1:]}}
		return e.appendChunk(st, ci, dst, ch), true
	case "bytes.NewBuffer", "bufio.NewReader", "bufio.NewWriter", "bytes.NewReader", "strings.NewReader":
		rs := e.freshResults(ci)
		st.nonNil(rs[0])
		return one(rs...)
	}
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		if outs, ok := e.builder(st, ci, name[strings.LastIndex(name, ".")+1:]); ok {
			return outs, true
		}
	}
	if strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "(*reflect.rtype).") || strings.HasPrefix(name, "(reflect.Kind).") || strings.HasPrefix(name, "(reflect.StructTag).") {
		return one(e.termResults(st, ci)...)
	}
	if pureExtern(name) {
		return one(e.termResults(st, ci)...)
	}
	return nil, false
}

// appendChunk appends opaque data through the Append hook.
func (e *Engine) appendChunk(st *State, ci *callInfo, dst *SliceV, ch Chunk) []Outcome {
	if e.H.Append != nil {
		if rs, ok := e.H.Append(e, st, ci.ins, dst, ch); ok {
			var outs []Outcome
			for _, r := range rs {
				outs = append(outs, Outcome{st: r.st, ret: []Val{r.v}})
			}
			return outs
		}
	}
	if e.H.Write != nil {
		e.H.Write(e, st, ci.ins, dst.o)
	}
	havocN++
	v := symVal(fmt.Sprintf("append%d", havocN), types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
	st.F.AssumeGe(v.n.Sub(dst.n))
	st.assumeValid(v)
	v2 := *v
	v2.emit = dst.emit
	if dst.o != nil && v.o != nil {
		// grown in place or moved to an array of its own
		v.o.alts = []*Obj{dst.o}
	}
	return []Outcome{{st: st, ret: []Val{&v2}}}
}

func (st *State) addScan(sc Scan) {
	st.F.scans = append(st.F.scans, sc)
	if sc.kind != "" {
		return
	}
	for _, b := range st.F.bytes {
		if b.base == sc.base {
			if st.F.Entails(b.idx.Sub(sc.lo)) && st.F.Entails(sc.hi.Sub(b.idx).AddC(-1)) {
				st.F.setSet(b.sym, st.F.setOf(b.sym).And(sc.set))
			}
		}
	}
}

// decodeRune models utf8.DecodeRuneInString.
func (e *Engine) decodeRune(st *State, s StrV) []Outcome {
	n := st.F.norm(s.length())
	var outs []Outcome
	a := st.clone()
	if a.F.AssumeEq(n) && a.F.Feasible() {
		outs = append(outs, Outcome{st: a, ret: []Val{LC(0xfffd), LC(0)}})
	}
	if !st.F.AssumeGe(n.AddC(-1)) || !st.F.Feasible() {
		return outs
	}
	b := st.byteAt(s, LC(0))
	asc := cGe(b.Neg().AddC(0x7f))
	f := st.clone()
	for _, x := range e.assume(f, asc, true) {
		outs = append(outs, Outcome{st: x, ret: []Val{x.F.norm(b), LC(1)}})
	}
	for _, x := range e.assume(st, asc, false) {
		nm := fmt.Sprintf("rune(%s[%s:%s])", s.B.name, s.lo.Key(), s.hi.Key())
		// invalid encoding
		y := x.clone()
		y.F.scans = append(y.F.scans, Scan{base: s.B, lo: s.lo, hi: y.F.norm(s.lo.AddC(1)), set: fullSet(), kind: "bad"})
		outs = append(outs, Outcome{st: y, ret: []Val{LC(0xfffd), LC(1)}})
		// valid multi-byte rune
		r := symRange(nm, 0x80, 0x10ffff)
		sz := symRange("size:"+nm, 2, 4)
		runeTab["rune:"+nm] = r
		if x.F.AssumeGe(n.Sub(sz)) && x.F.Feasible() {
			x.F.scans = append(x.F.scans, Scan{base: s.B, lo: s.lo, hi: x.F.norm(s.lo.Add(sz)), set: fullSet(), kind: "rune:" + nm})
			outs = append(outs, Outcome{st: x, ret: []Val{r, sz}})
		}
	}
	return outs
}

// runeSizes forks on the number of bytes of the UTF-8 form of a rune.
func (e *Engine) runeSizes(st *State, r *Lin) []Outcome {
	var outs []Outcome
	cur := []*State{st}
	for _, c := range []struct {
		cond *Cond
		n    int64
	}{
		{cAnd(cGe(r), cGe(r.Neg().AddC(0x7f))), 1},
		{cAnd(cGe(r), cGe(r.Neg().AddC(0x7ff))), 2},
		{cAnd(cGe(r.AddC(-0x10000)), cGe(r.Neg().AddC(0x10ffff))), 4},
	} {
		var nx []*State
		for _, s := range cur {
			f := s.clone()
			for _, x := range e.assume(f, c.cond, true) {
				outs = append(outs, Outcome{st: x, ret: []Val{LC(c.n)}})
			}
			nx = append(nx, e.assume(s, c.cond, false)...)
		}
		cur = nx
	}
	for _, s := range cur {
		outs = append(outs, Outcome{st: s, ret: []Val{LC(3)}})
	}
	return outs
}

// builder models strings.Builder and bytes.Buffer as an append-only buffer
// kept in an analysis register keyed by the receiver.
func (e *Engine) builder(st *State, ci *callInfo, m string) ([]Outcome, bool) {
	p, ok := ci.args[0].(*PtrV)
	if !ok {
		return nil, false
	}
	key := "sb:" + p.Key()
	cur, _ := st.ext[key].(*SliceV)
	if cur == nil {
		cur = nilSlice(types.NewSlice(types.Typ[types.Uint8]))
		if e.H.NewBuf != nil {
			cur = e.H.NewBuf(e, st, ci.ins)
		}
	}
	put := func(ch Chunk, rets func(*State) []Val) ([]Outcome, bool) {
		if e.H.Append == nil {
			return nil, false
		}
		rs, ok := e.H.Append(e, st, ci.ins, cur, ch)
		if !ok {
			return nil, false
		}
		var outs []Outcome
		for _, r := range rs {
			r.st.ext[key] = r.v
			outs = append(outs, Outcome{st: r.st, ret: rets(r.st)})
		}
		return outs, true
	}
	nilErr := func() Val { return &IfaceV{isNil: true} }
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	switch m {
	case "Grow":
		return one()
	case "WriteString", "Write":
		ch := e.chunkOf(st, ci.args[1])
		return put(ch, func(s *State) []Val {
			n := ch.k
			if n == nil {
				n = LS(newLenSym("len(" + keyOf(ci.args[1]) + ")"))
			}
			return []Val{n, nilErr()}
		})
	case "WriteByte":
		l := asLin(ci.args[1], types.Typ[types.Uint8])
		return put(Chunk{bytes: []*Lin{st.F.norm(l)}, k: LC(1)}, func(s *State) []Val { return []Val{nilErr()} })
	case "WriteRune":
		r, ok := ci.args[1].(*Lin)
		if !ok {
			return nil, false
		}
		var outs []Outcome
		for _, x := range e.runeSizes(st, r) {
			if e.H.Append == nil {
				return nil, false
			}
			n := x.ret[0].(*Lin)
			ch := Chunk{val: &TermV{key: "utf8(" + r.Key() + ")", op: "utf8", args: []Val{r}}, k: n}
			if k, _ := n.constInt(); k == 1 {
				ch = Chunk{bytes: []*Lin{x.st.F.norm(r)}, k: n}
			}
			rs, ok := e.H.Append(e, x.st, ci.ins, cur, ch)
			if !ok {
				return nil, false
			}
			for _, r := range rs {
				r.st.ext[key] = r.v
				outs = append(outs, Outcome{st: r.st, ret: []Val{n, nilErr()}})
			}
		}
		return outs, true
	case "String":
		c := *cur
		b := strBase("str(" + c.Key() + ")")
		b.src = &TermV{key: "str(" + c.Key() + ")", op: "string", args: []Val{&c}}
		return one(StrV{b, LC(0), b.n})
	case "Len":
		return one(cur.n)
	case "Reset":
		delete(st.ext, key)
		return one()
	}
	return nil, false
}
