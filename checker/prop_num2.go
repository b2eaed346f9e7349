package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- numbers as integers, and the other accessors of a node's text ----

// region is a set of values that ParseFloat may give for a text: the floats
// from lo to hi, or NaN, with the kind of text it can be.
type region struct {
	lo, hi float64
	nan    bool
	frac   bool // not an integer
	small  bool // an integer that the float represents exactly if any
	class  string
	elo    *big.Int // bounds of the exact value, if the text is in integer notation
	ehi    *big.Int
}

func (r *region) String() string {
	if r.nan {
		return "NaN (" + r.class + ")"
	}
	s := fmt.Sprintf("%g..%g", r.lo, r.hi)
	if r.lo == r.hi {
		s = fmt.Sprintf("%g", r.lo)
	}
	switch {
	case r.frac:
		return s + ", not an integer"
	case r.lo > -1<<53 && r.hi < 1<<53:
		s += ", an integer"
	}
	return s + " (" + r.class + ")"
}

const (
	intText   = "integer notation"
	otherText = "other notation"
)

// regions lists them all: each constant that matters is a region of its own or
// the end of one.
func numRegions() []*region {
	up := func(f float64) float64 { return math.Nextafter(f, math.Inf(1)) }
	down := func(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }
	p53, p63, p64 := float64(1<<53), float64(1<<63), float64(1<<64)
	big0 := func(f float64) *big.Int { n, _ := new(big.Float).SetFloat64(f).Int(nil); return n }
	out := []*region{{nan: true, class: otherText}, {nan: true, class: intText}}
	add := func(lo, hi float64) {
		out = append(out, &region{lo: lo, hi: hi, class: otherText})
		r := &region{lo: lo, hi: hi, class: intText}
		if !math.IsInf(lo, 0) && !math.IsInf(hi, 0) {
			// a float stands for the integers that are nearer to it than to others
			r.elo, r.ehi = big0(lo), big0(hi)
			if math.Abs(lo) >= p53 && lo != -math.MaxFloat64 {
				d := new(big.Int).Sub(r.elo, big0(down(lo)))
				r.elo = new(big.Int).Sub(r.elo, d.Rsh(d, 1))
			}
			if math.Abs(hi) >= p53 && hi != math.MaxFloat64 {
				d := new(big.Int).Sub(big0(up(hi)), r.ehi)
				r.ehi = new(big.Int).Add(r.ehi, d.Rsh(d, 1))
			}
		}
		out = append(out, r)
	}
	small := func(lo, hi float64) {
		out = append(out, &region{lo: lo, hi: hi, frac: true, class: otherText})
		// integers in this range are not its ends, which are not excluded
		for _, c := range []string{otherText, intText} {
			l, h := math.Ceil(lo), math.Floor(hi)
			if l == 0 {
				l = 1
			}
			if h == 0 {
				h = -1
			}
			out = append(out, &region{lo: l, hi: h, small: true, class: c, elo: big0(l), ehi: big0(h)})
		}
	}
	add(math.Inf(-1), math.Inf(-1))
	add(-math.MaxFloat64, down(-p64))
	add(-p64, down(-p63))
	add(-p63, -p63)
	add(up(-p63), down(-p53))
	add(-p53, -p53)
	small(up(-p53), down(0))
	out = append(out, &region{small: true, class: otherText, elo: bi(0), ehi: bi(0)}, &region{small: true, class: intText, elo: bi(0), ehi: bi(0)})
	small(up(0), down(p53))
	add(p53, p53)
	add(up(p53), down(p63))
	add(p63, p63)
	add(up(p63), down(p64))
	add(p64, p64)
	add(up(p64), math.MaxFloat64)
	add(math.Inf(1), math.Inf(1))
	return out
}

// floatRun interprets a function that reads the text as a number in a region.
type floatRun struct {
	c    *Ctx
	e    *Engine
	g    *region
	text StrV
	f    *TermV
	i    *Lin // the exact value of the text, if it is in integer notation
}

// fval is a float computed from f: what is known of its value.
type fval struct {
	lo, hi float64
	nan    bool
	name   string // values of the same name are equal
	rel    int    // -1: less than f, 1: greater, 2: different
}

func (x *floatRun) fval(v Val) *fval {
	t, ok := v.(*TermV)
	if !ok {
		return nil
	}
	g := x.g
	if strings.HasPrefix(t.key, "const:") {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(strings.TrimPrefix(t.key, "const:"), ":float64"))
		if !ok {
			return nil
		}
		f, _ := r.Float64()
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			f32, _ := r.Float32()
			f = float64(f32)
		}
		return &fval{lo: f, hi: f, name: fmt.Sprint("const ", f)}
	}
	if t.key == x.f.key {
		return &fval{lo: g.lo, hi: g.hi, nan: g.nan, name: "f"}
	}
	if t.op == "nan" {
		return &fval{nan: true}
	}
	var a []*fval
	for _, q := range t.args {
		a = append(a, x.fval(q))
	}
	if len(a) == 0 {
		return nil
	}
	isF := a[0] != nil && a[0].name == "f"
	if a[0] != nil && a[0].nan {
		return a[0]
	}
	inf := math.IsInf(g.lo, 0)
	switch t.op {
	case "math.Trunc", "math.Floor", "math.Ceil", "math.Round", "math.RoundToEven":
		if !isF {
			return nil
		}
		if !g.frac {
			return a[0]
		}
		r := &fval{lo: math.Floor(g.lo), hi: math.Ceil(g.hi), rel: 2, name: t.op}
		switch {
		case t.op == "math.Floor", t.op == "math.Trunc" && g.lo > 0:
			r.rel, r.hi = -1, math.Floor(g.hi)
		case t.op == "math.Ceil", t.op == "math.Trunc" && g.hi < 0:
			r.rel, r.lo = 1, math.Ceil(g.lo)
		}
		return r
	case "math.Abs":
		switch {
		case a[0] == nil:
		case a[0].lo >= 0:
			return a[0]
		case a[0].hi <= 0:
			return &fval{lo: -a[0].hi, hi: -a[0].lo, name: "abs " + a[0].name}
		}
		return nil
	case "neg":
		if a[0] != nil {
			return &fval{lo: -a[0].hi, hi: -a[0].lo, name: "neg " + a[0].name}
		}
	case "conv:float32":
		if a[0] != nil {
			return &fval{lo: float64(float32(a[0].lo)), hi: float64(float32(a[0].hi)), name: "float32 " + a[0].name}
		}
	case "conv:float64":
		if a[0] != nil {
			return a[0]
		}
		l, ok := t.args[0].(*Lin)
		if !ok {
			return nil
		}
		k := l.Key()
		switch {
		case k == x.conv("int64").Key() || k == x.conv("int").Key():
			if !g.nan && !inf && g.lo >= -1<<63 && g.hi < 1<<63 {
				if g.frac {
					return &fval{lo: math.Ceil(g.lo), hi: math.Floor(g.hi), rel: 2, name: "trunc"}
				}
				return &fval{lo: g.lo, hi: g.hi, name: "f"}
			}
			return &fval{lo: -1 << 63, hi: 1 << 63} // any integer
		case k == x.conv("uint64").Key():
			if !g.nan && !inf && g.lo >= 0 && g.hi < 1<<64 {
				if g.frac {
					return &fval{lo: 0, hi: math.Floor(g.hi), rel: 2, name: "trunc"}
				}
				return &fval{lo: g.lo, hi: g.hi, name: "f"}
			}
			return &fval{lo: 0, hi: 1 << 64}
		}
	case "-":
		if isF && a[1] != nil && !inf {
			switch {
			case a[1].name == "f":
				return &fval{}
			case a[1].rel == 0:
			case g.lo > 0 && a[1].rel == -1 || g.hi < 0 && a[1].rel == -1:
				return &fval{lo: math.SmallestNonzeroFloat64, hi: 1}
			case a[1].rel == 1:
				return &fval{lo: -1, hi: -math.SmallestNonzeroFloat64}
			}
		}
	case "math.Mod":
		if isF && a[1] != nil && a[1].lo == 1 && a[1].hi == 1 {
			switch {
			case inf:
				return &fval{nan: true}
			case !g.frac:
				return &fval{}
			case g.lo > 0:
				return &fval{lo: math.SmallestNonzeroFloat64, hi: 1}
			default:
				return &fval{lo: -1, hi: -math.SmallestNonzeroFloat64}
			}
		}
	}
	return nil
}

// conv is the value of f converted to an integer type.
func (x *floatRun) conv(typ string) *Lin {
	for _, k := range []types.BasicKind{types.Int64, types.Uint64, types.Int} {
		if t := types.Typ[k]; t.Name() == typ {
			l, _ := symVal("conv:"+typ+"("+x.f.key+")", t).(*Lin)
			return l
		}
	}
	return nil
}

func (x *floatRun) cmp(e *Engine, st *State, op token.Token, u, v Val) *Cond {
	a, b := x.fval(u), x.fval(v)
	if a == nil || b == nil {
		return nil
	}
	if a.nan || b.nan {
		return cBool(false)
	}
	switch op {
	case token.GTR:
		a, b, op = b, a, token.LSS
	case token.GEQ:
		a, b, op = b, a, token.LEQ
	}
	same := a.name != "" && a.name == b.name || a.lo == a.hi && b.lo == b.hi && a.lo == b.lo
	lt := a.hi < b.lo || a.name == "f" && b.rel == 1 || b.name == "f" && a.rel == -1
	gt := a.lo > b.hi || a.name == "f" && b.rel == -1 || b.name == "f" && a.rel == 1
	ne := lt || gt || a.name == "f" && b.rel != 0 || b.name == "f" && a.rel != 0
	switch {
	case op == token.EQL && same, op == token.LSS && lt, op == token.LEQ && (same || lt || a.hi <= b.lo):
		return cBool(true)
	case op == token.EQL && ne, op == token.LSS && (same || gt || a.lo >= b.hi), op == token.LEQ && gt:
		return cBool(false)
	}
	return nil
}

// numError is an error of package strconv.
func (x *floatRun) numError(st *State, which string) Val {
	errT := types.Universe.Lookup("error").Type()
	pkg := x.c.P.prog.ImportedPackage("strconv")
	if pkg == nil || pkg.Type("NumError") == nil {
		return someErr(st, "strconv")
	}
	t := pkg.Type("NumError").Type()
	o := newObj("numerr", t)
	o.fresh = true
	st.heap[o] = &ObjState{origin: "numerr"}
	var ks []string
	for _, n := range []string{"ErrRange", "ErrSyntax"} {
		g, ok := pkg.Members[n].(*ssa.Global)
		if !ok {
			return someErr(st, "strconv")
		}
		v := st.load(x.e.globalObj(g), nil, errT)
		st.nonNil(v)
		ks = append(ks, keyOf(v))
		if n == which {
			st.store(o, Path{{f: fieldIx(t, "Err")}}, errT, v)
		}
	}
	if ks[1] < ks[0] {
		ks[0], ks[1] = ks[1], ks[0]
	}
	st.F.atoms["eq:"+ks[0]+"=="+ks[1]] = false
	return &IfaceV{t: types.NewPointer(t), v: &PtrV{o: o}, key: "numerr:" + which}
}

func (x *floatRun) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	name := ci.name
	if ci.fn != nil && x.c.P.isRepoFn(ci.fn) {
		name = shortFn(ci.fn)
	}
	switch name {
	case "numjson.ParseFloat":
		s, ok := ci.args[0].(StrV)
		if ok && e.sameVal(st, s, x.text) {
			return one(x.f)
		}
		return one(e.freshResults(ci)...)
	case "math.NaN":
		return one(nanTerm())
	case "math.IsNaN":
		if v := x.fval(ci.args[0]); v != nil {
			return one(cBool(v.nan))
		}
	case "math.IsInf":
		v := x.fval(ci.args[0])
		s, _ := ci.args[1].(*Lin)
		if v != nil && s != nil {
			if c, ok := st.F.norm(s).constInt(); ok {
				switch {
				case v.nan, !math.IsInf(v.lo, 0) && !math.IsInf(v.hi, 0):
					return one(cBool(false))
				case v.lo == v.hi:
					return one(cBool(math.IsInf(v.lo, int(c))))
				}
			}
		}
	case "math.Modf":
		return one(mkTerm("math.Trunc", types.Typ[types.Float64], ci.args[0]), mkTerm("math.Mod", types.Typ[types.Float64], ci.args[0], &TermV{key: "const:1", typ: types.Typ[types.Float64]}))
	case "math.Trunc", "math.Floor", "math.Ceil", "math.Round", "math.RoundToEven", "math.Abs", "math.Mod":
		return one(mkTerm(name, types.Typ[types.Float64], ci.args...))
	case "errors.Is":
		if v, ok := ci.args[0].(*IfaceV); ok && strings.HasPrefix(v.key, "numerr:") {
			if k := keyOf(ci.args[1]); strings.Contains(k, "strconv.ErrRange") || strings.Contains(k, "strconv.ErrSyntax") {
				return one(cBool(strings.HasSuffix(k, strings.TrimPrefix(v.key, "numerr:"))))
			}
		}
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi":
		s, ok := ci.args[0].(StrV)
		ok = ok && e.sameVal(st, s, x.text)
		for i, w := range []int64{10, 64} {
			if len(ci.args) > i+1 {
				l, isLin := ci.args[i+1].(*Lin)
				ok = ok && isLin && st.F.EntailsEq(l.AddC(-w))
			}
		}
		if !ok {
			return one(e.freshResults(ci)...)
		}
		res := ci.sig.Results().At(0).Type()
		lo, hi, _ := intRange(res)
		_, uns := intBits(res)
		var outs []Outcome
		add := func(st *State, v *Lin, which string) {
			var err Val = &IfaceV{isNil: true}
			if which != "" {
				err = x.numError(st, which)
			}
			outs = append(outs, Outcome{st: st, ret: []Val{v, err}})
		}
		if x.g.class != intText {
			add(st, LC(0), "ErrSyntax")
			return outs, true
		}
		if x.g.nan {
			// a text with a plus sign is an integer for strconv
			if uns {
				add(st, LC(0), "ErrSyntax")
				return outs, true
			}
			r := st.clone()
			add(r, LB(hi), "ErrRange")
			add(st, x.i, "")
			return outs, true
		}
		if uns && (x.g.hi < 0 || x.g.lo == 0 && x.g.hi == 0) {
			if x.g.hi == 0 && x.g.lo == 0 {
				add(st.clone(), LC(0), "")
			}
			add(st, LC(0), "ErrSyntax") // the sign
			return outs, true
		}
		if x.g.elo == nil {
			// infinite
			if x.g.lo < 0 {
				add(st, LB(lo), "ErrRange")
			} else {
				add(st, LB(hi), "ErrRange")
			}
			return outs, true
		}
		if x.i == nil {
			return nil, false
		}
		in, less, more := st.clone(), st.clone(), st
		if in.F.AssumeGe(x.i.Sub(LB(lo))) && in.F.AssumeGe(LB(hi).Sub(x.i)) {
			add(in, x.i, "")
		}
		if less.F.AssumeGe(LB(lo).Sub(x.i).AddC(-1)) {
			add(less, LB(lo), "ErrRange")
		}
		if more.F.AssumeGe(x.i.Sub(LB(hi)).AddC(-1)) {
			add(more, LB(hi), "ErrRange")
		}
		return outs, true
	}
	return nil, false
}

// newFloatRun prepares the reading of text in region g.
func (c *Ctx) newFloatRun(r *runner, st *State, text StrV, g *region) *floatRun {
	x := &floatRun{c: c, e: r.e, g: g, text: text}
	x.f = mkTerm("f", types.Typ[types.Float64], text)
	r.e.H.FloatCmp = x.cmp
	r.e.H.Call = x.call
	// facts of these matter to the end
	keepVals(x.conv("int64"), x.conv("uint64"), x.conv("int"))
	if g.class == intText {
		// any integer: it need not fit a machine's
		x.i = LS(newSym("exact", nil, nil))
		keepVals(x.i)
		if g.elo != nil {
			st.F.AssumeGe(x.i.Sub(LB(g.elo)))
			st.F.AssumeGe(LB(g.ehi).Sub(x.i))
		}
	}
	if !g.nan && !math.IsInf(g.lo, 0) {
		b := func(f float64) *Lin { n, _ := new(big.Float).SetFloat64(f).Int(nil); return LB(n) }
		for _, t := range []string{"int64", "int", "uint64"} {
			cv := x.conv(t)
			lo, hi := -float64(1<<63), float64(1<<63)
			if t == "uint64" {
				lo, hi = 0, 1<<64
			}
			if g.lo < lo || g.hi >= hi {
				continue
			}
			st.F.AssumeGe(cv.Sub(b(g.lo)))
			st.F.AssumeGe(b(g.hi).Sub(cv))
			if t != "int64" && g.lo >= -1<<63 && g.hi < 1<<63 {
				st.F.AssumeEq(cv.Sub(x.conv("int64")))
			}
			if x.i != nil && g.small {
				st.F.AssumeEq(cv.Sub(x.i))
			}
		}
	}
	return x
}

// boolStates are the states of st in which the result is true and false.
func (e *Engine) boolStates(st *State, v Val) (yes, no []*State) {
	c := e.cond(st, v)
	return e.assume(st.clone(), c, true), e.assume(st.clone(), c, false)
}

// intAccessor decides ParseInt, ParseUint and the like.
func (c *Ctx) intAccessor(nj *Njson, fn *ssa.Function, cons string, mk func() (*State, []Val, StrV)) {
	res := fn.Signature.Results()
	if !c.Anchor(res.Len() == 2 && isInt(res.At(0).Type()), cons) {
		return
	}
	lo, hi, _ := intRange(res.At(0).Type())
	_, uns := intBits(res.At(0).Type())
	for _, g := range numRegions() {
		r := c.runner(nj)
		noPanic(r.e, cons)
		st, args, text := mk()
		x := c.newFloatRun(r, st, text, g)
		n := 0
		for _, o := range r.run(st, fn, args...) {
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			n++
			yes, no := r.e.boolStates(o.st, o.ret[1])
			v, _ := o.ret[0].(*Lin)
			for k, states := range [][]*State{no, yes} {
				for _, s := range states {
					if !s.F.Feasible() {
						continue
					}
					// the value it should give, if any
					var want *Lin
					switch {
					case g.nan || g.frac:
					case x.i != nil && g.elo != nil:
						in := s.clone()
						if in.F.AssumeGe(x.i.Sub(LB(lo))) && in.F.AssumeGe(LB(hi).Sub(x.i)) {
							want = x.i
							s = in
						}
					case x.i == nil && !math.IsInf(g.lo, 0):
						flo, fhi := new(big.Float).SetFloat64(g.lo), new(big.Float).SetFloat64(g.hi)
						if flo.Cmp(new(big.Float).SetInt(lo)) >= 0 && fhi.Cmp(new(big.Float).SetInt(hi)) <= 0 {
							want = x.conv("int64")
							if uns {
								want = x.conv("uint64")
							}
						}
					}
					got := "refused"
					if k == 1 {
						got = "read as " + keyOf(o.ret[0])
					}
					switch {
					case want == nil:
						r.e.Check(k == 0, s, o.site, "refuse", cons, "%s: a text with the value %s is %s", cons, g, got)
					case k == 0:
						r.e.Check(false, s, o.site, "value", cons, "%s: a text with the value %s is refused", cons, g)
					default:
						r.e.Check(v != nil && s.F.EntailsEq(v.Sub(want)), s, o.site, "value", cons, "%s: a text with the value %s is %s", cons, g, got)
					}
				}
			}
		}
		r.e.Check(n > 0, nil, nil, "value", cons, "%s: no result for the value %s", cons, g)
		c.count["regions"]++
		r.done()
	}
}

func (c *Ctx) floatAccessor(nj *Njson, fn *ssa.Function, cons string, mk func() (*State, []Val, StrV)) {
	for _, g := range numRegions() {
		r := c.runner(nj)
		noPanic(r.e, cons)
		st, args, text := mk()
		x := c.newFloatRun(r, st, text, g)
		for _, o := range r.run(st, fn, args...) {
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			yes, no := r.e.boolStates(o.st, o.ret[1])
			for k, states := range [][]*State{no, yes} {
				for _, s := range states {
					if s.F.Feasible() {
						r.e.Check((k == 1) != g.nan, s, o.site, "refuse", cons, "%s: a text with the value %s gives %v", cons, g, k == 1)
						r.e.Check(k == 0 || keyOf(o.ret[0]) == x.f.key, s, o.site, "value", cons, "%s: a text with the value %s gives %s", cons, g, keyOf(o.ret[0]))
					}
				}
			}
		}
		c.count["regions"]++
		r.done()
	}
}

func (c *Ctx) boolAccessor(nj *Njson, fn *ssa.Function, cons string) {
	for _, text := range []string{"true", "false", ""} {
		r := c.runner(nj)
		noPanic(r.e, cons)
		var rc nodeRecv
		if text != "" {
			rc = nj.liveKind("TypeBoolean")
			p := nj.nodePath(nj.nodes(rc.st, rc.d), rc.id, nj.iRaw)
			rc.st.store(p.o, p.p, types.Typ[types.String], strLit(text))
		} else {
			rc = nj.liveNotKind("TypeBoolean")
		}
		for _, o := range r.run(rc.st, fn, rc.n) {
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			for i, want := range []bool{text == "true", text != ""} {
				yes, no := r.e.boolStates(o.st, o.ret[i])
				bad := yes
				if want {
					bad = no
				}
				for _, s := range bad {
					if s.F.Feasible() {
						r.e.Fail(s, o.site, "value", cons, "%s of a node of type %s with the text %q: result %d is %v", cons, rc.name, text, i, !want)
					}
				}
				r.e.Check(true, o.st, o.site, "value", cons, "")
			}
		}
		r.done()
	}
}

func init() {
	register(&Prop{
		ID:      "C19",
		Rule:    "ParseInt, ParseUint and Node.ToInt, ToUint, ToFloat are interpreted abstractly for each region of the float64 value of the text (cut at 0, ±2^53, ±2^63, ±2^64, the infinities; integers and others apart; NaN) and for texts in integer notation or not. A text in integer notation is read exactly if its value fits the type, others if their float64 is an integer that fits, as that; everything else is refused. ToFloat gives ParseFloat of the node's text unless it is NaN; ToBool gives the value of boolean nodes and refuses all others.",
		Explain: "Abstract interpretation per region: comparisons of floats are decided from the region's ends; package strconv's integer parsers give the exact value, a range error or a syntax error.",
		Assume:  []string{"numjson.ParseFloat as in property C18", "package strconv's integer parsers as documented", "the text of a boolean node is true or false (C03, C08)"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			for _, n := range []string{"ParseInt", "ParseUint"} {
				fn := c.P.fn("numjson", n)
				if !c.Anchor(fn != nil && len(fn.Params) == 1, "numjson."+n) {
					continue
				}
				c.intAccessor(nj, fn, n, func() (*State, []Val, StrV) {
					s := strSym("text")
					return newState(), []Val{s}, s
				})
			}
			node := func() (*State, []Val, StrV) {
				rc := nj.validRecv()
				return rc.st, []Val{rc.n}, nj.raw(rc.st, rc.d, rc.id)
			}
			for _, n := range []string{"ToInt", "ToUint", "ToFloat", "ToBool"} {
				fn := c.P.fn("", "Node."+n)
				if !c.Anchor(fn != nil && len(fn.Params) == 1, "Node."+n) {
					continue
				}
				switch n {
				case "ToFloat":
					c.floatAccessor(nj, fn, "Node."+n, node)
				case "ToBool":
					c.boolAccessor(nj, fn, "Node."+n)
				default:
					c.intAccessor(nj, fn, "Node."+n, node)
				}
			}
			c.min("regions", c.count["regions"], 5*30)
		},
	})
}
