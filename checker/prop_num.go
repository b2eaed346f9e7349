package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- numbers: reading floats ----

// numRun is the reference for reading the number text s. The registers of its
// machine are the position, the value of the digits before the exponent (its
// mantissa, as an unbounded integer), how many they are, how many of them are
// behind the point, and the value of the exponent. The control state is the
// place in the grammar, with the signs: [+-]<place>[+-].
type numRun struct {
	e *Engine
	s StrV
}

const (
	rPos = iota
	rMant
	rDigits
	rFrac
	rExp
)

// as many digits always fit a uint64
const maxDigits = 19

// beyond any exponent for which a product with an exact power of ten is exact
const expMany = 60

var numEnds = map[string]bool{"int": true, "frac": true, "exp": true, "expbig": true}

func (x *numRun) machine() *RefMon {
	var digits, es Set256
	for c := '0'; c <= '9'; c++ {
		digits.Add(int(c))
	}
	es.Add('e')
	es.Add('E')
	is := func(st *State, b *Lin, s Set256) int { return byteIn(st, b, s) }
	return &RefMon{ctl: "start", r: []*Lin{LC(0), LC(0), LC(0), LC(0), LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon {
		p := m.r[rPos]
		if m.ctl == "reject" || m.ctl == "end" || m.ctl == "bad end" {
			return nil
		}
		if len(m.ctl) >= 5 && m.ctl[1:4] == "exp" && m.ctl[4] != 'b' && st.F.Entails(m.r[rExp].AddC(-expMany)) {
			// the exact value does not matter any more
			return m.to(m.ctl[:4]+"big"+m.ctl[4:], p, m.r[rMant], m.r[rDigits], m.r[rFrac], LC(0))
		}
		if !st.F.Entails(x.s.length().Sub(p).AddC(-1)) {
			if !strings.HasSuffix(m.ctl, "$") && st.F.EntailsEq(x.s.length().Sub(p)) {
				// keeps this case apart
				return m.to(m.ctl+"$", m.r...)
			}
			return nil
		}
		b := st.byteAt(x.s, p)
		next := func(ctl string) *RefMon {
			return m.to(ctl, st.F.norm(p.AddC(1)), m.r[rMant], m.r[rDigits], m.r[rFrac], m.r[rExp])
		}
		reject := func() *RefMon { return m.to("reject", LC(0), LC(0), LC(0), LC(0), LC(0)) }
		digit := func() *Lin {
			return finMap(st, b, func(c int64) (int64, bool) { return c - '0', '0' <= c && c <= '9' })
		}
		mant := func(ctl string, frac int64) *RefMon {
			d := digit()
			if d == nil {
				return nil
			}
			return m.to(ctl, st.F.norm(p.AddC(1)), st.F.norm(m.r[rMant].Scale(10).Add(d)), st.F.norm(m.r[rDigits].AddC(1)), st.F.norm(m.r[rFrac].AddC(frac)), m.r[rExp])
		}
		sg, place := "+", m.ctl
		if m.ctl != "start" {
			sg, place = m.ctl[:1], m.ctl[1:]
		}
		esg := ""
		if strings.HasPrefix(place, "exp") || strings.HasPrefix(place, "esign") {
			esg = place[len(place)-1:]
			if esg == "+" || esg == "-" {
				place = place[:len(place)-1]
			} else {
				esg = ""
			}
		}
		one := func(c byte) Set256 { return only(c) }
		var alts []struct {
			s Set256
			f func() *RefMon
		}
		on := func(s Set256, f func() *RefMon) {
			alts = append(alts, struct {
				s Set256
				f func() *RefMon
			}{s, f})
		}
		expDigit := func(big bool) func() *RefMon {
			return func() *RefMon {
				d := digit()
				if d == nil {
					return nil
				}
				g := esg
				if g == "" {
					g = "+"
				}
				if big {
					return m.to(sg+"expbig"+g, st.F.norm(p.AddC(1)), m.r[rMant], m.r[rDigits], m.r[rFrac], m.r[rExp])
				}
				return m.to(sg+"exp"+g, st.F.norm(p.AddC(1)), m.r[rMant], m.r[rDigits], m.r[rFrac], st.F.norm(m.r[rExp].Scale(10).Add(d)))
			}
		}
		switch place {
		case "start":
			on(one('-'), func() *RefMon { return next("-sign") })
			on(digits, func() *RefMon { return mant("+int", 0) })
		case "sign":
			on(digits, func() *RefMon { return mant(sg+"int", 0) })
		case "int":
			on(digits, func() *RefMon { return mant(sg+"int", 0) })
			on(one('.'), func() *RefMon { return next(sg + "dot") })
			on(es, func() *RefMon { return next(sg + "e") })
		case "dot":
			on(digits, func() *RefMon { return mant(sg+"frac", 1) })
		case "frac":
			on(digits, func() *RefMon { return mant(sg+"frac", 1) })
			on(es, func() *RefMon { return next(sg + "e") })
		case "e":
			on(one('-'), func() *RefMon { return next(sg + "esign-") })
			on(one('+'), func() *RefMon { return next(sg + "esign+") })
			on(digits, expDigit(false))
		case "esign":
			on(digits, expDigit(false))
		case "exp":
			on(digits, expDigit(false))
		case "expbig":
			on(digits, expDigit(true))
		}
		out := 0
		for _, a := range alts {
			switch is(st, b, a.s) {
			case 1:
				return a.f()
			case -1:
				out++
			}
		}
		if out == len(alts) {
			return reject()
		}
		return nil
	}}
}

// place is the place in the grammar and the signs of the state.
func numPlace(ctl string) (place string, neg, eneg bool) {
	ctl = strings.TrimSuffix(ctl, "$")
	if ctl == "reject" || ctl == "start" {
		return ctl, false, false
	}
	neg = ctl[0] == '-'
	place = ctl[1:]
	if strings.HasPrefix(place, "exp") || strings.HasPrefix(place, "esign") {
		eneg = strings.HasSuffix(place, "-")
		place = strings.TrimRight(place, "+-")
	}
	return
}

// guard holds if there are few enough digits for their value to fit.
func (x *numRun) guard(st *State) *Cond {
	m := st.ref(x.e)
	g := m.r[rDigits].Neg().AddC(maxDigits)
	st.F.AssumeGe(g)
	x.few(st)
	return cGe(g)
}

// few assumes what follows from few digits: their value is small.
func (x *numRun) few(st *State) bool {
	m, ok := st.mon.(*RefMon)
	if !ok || !st.F.Entails(m.r[rDigits].Neg().AddC(maxDigits)) {
		return false
	}
	lim := new(big.Int).Exp(bi(10), bi(maxDigits), nil)
	st.F.AssumeGe(addScaled(LB(new(big.Int).Sub(lim, bi(1))), -1, m.r[rMant]))
	return true
}

// floatTerm is a float computed from integers: ±m·10^±k.
type floatTerm struct {
	neg    bool
	m      *Lin
	k      *Lin // nil if there is no power of ten
	div    bool
	parsed bool // strconv.ParseFloat of the text
	nan    bool
}

func (x *numRun) eval(st *State, v Val) *floatTerm {
	t, ok := v.(*TermV)
	if !ok {
		return nil
	}
	pow := func(v Val) *Lin {
		if p, ok := v.(*TermV); ok && p.op == "pow10" {
			return p.args[0].(*Lin)
		}
		return nil
	}
	switch {
	case t.op == "nan":
		return &floatTerm{nan: true}
	case t.op == "parsed":
		return &floatTerm{parsed: true}
	case t.op == "neg":
		f := x.eval(st, t.args[0])
		if f == nil || f.nan || f.parsed {
			return nil
		}
		f.neg = !f.neg
		return f
	case strings.HasPrefix(t.op, "conv:float64"):
		if l, ok := t.args[0].(*Lin); ok {
			return &floatTerm{m: l}
		}
	case strings.HasPrefix(t.key, "const:"):
		if n, ok := new(big.Int).SetString(strings.TrimSuffix(strings.TrimPrefix(t.key, "const:"), ":float64"), 10); ok {
			return &floatTerm{m: LB(n)}
		}
	case (t.op == "*" || t.op == "/") && len(t.args) == 2:
		a, b := t.args[0], t.args[1]
		if t.op == "*" && pow(a) != nil {
			a, b = b, a
		}
		k := pow(b)
		f := x.eval(st, a)
		if k == nil || f == nil || f.m == nil || f.k != nil {
			return nil
		}
		f.k, f.div = k, t.op == "/"
		return f
	}
	return nil
}

// nans stores NaN in the package variables initialised with it.
func (c *Ctx) nans(st *State, e *Engine, pkg *ssa.Package) {
	for _, mem := range pkg.Members {
		g, ok := mem.(*ssa.Global)
		if !ok || !isFloat(g.Type().(*types.Pointer).Elem()) {
			continue
		}
		n, good := 0, true
		for _, fn := range c.P.allFn {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						switch q := ins.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							call, ok := q.Val.(*ssa.Call)
							if !ok || fn.Name() != "init" || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "math.NaN" {
								good = false
							}
							n++
						default:
							good = false
						}
					}
				}
			}
		}
		if good && n == 1 {
			st.store(e.globalObj(g), nil, g.Type().(*types.Pointer).Elem(), nanTerm())
		}
	}
}

func nanTerm() Val { return mkTerm("nan", types.Typ[types.Float64]) }

func (c *Ctx) parseFloat(nj *Njson) {
	fn := c.P.fn("numjson", "ParseFloat")
	if !c.Anchor(fn != nil && len(fn.Params) == 1, "numjson.ParseFloat") {
		return
	}
	c.saw(fn)
	e := c.runner(nj).e
	cons := "ParseFloat"
	noPanic(e, cons)
	st := newState()
	x := &numRun{e: e, s: strSym("text")}
	e.watch = append(e.watch, LC(expMany), LC(1<<40))
	e.modular = true
	e.H.Exact = x.guard
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
		switch ci.name {
		case "math.NaN":
			return one(nanTerm())
		case "math.Pow10":
			if l, ok := ci.args[0].(*Lin); ok {
				return one(mkTerm("pow10", types.Typ[types.Float64], l))
			}
		case "strconv.ParseFloat":
			s, ok := ci.args[0].(StrV)
			bits, _ := ci.args[1].(*Lin)
			rs := e.freshResults(ci)
			if ok && bits != nil && e.sameVal(st, s, x.s) && st.F.EntailsEq(bits.AddC(-64)) {
				rs[0] = mkTerm("parsed", types.Typ[types.Float64])
			}
			return one(rs...)
		}
		return nil, false
	}
	c.nans(st, e, fn.Pkg)
	keepVals(x.s.length())
	st.mon = x.machine()
	good := 0
	check := func(ok bool, o *Outcome, rule, f string, a ...interface{}) {
		e.Check(ok, o.st, o.site, rule, cons, "%s: "+f, append([]interface{}{cons}, a...)...)
	}
	for _, o := range e.Run(st, fn, []Val{x.s}, nil, nil) {
		o := o
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		st := o.st
		m := st.ref(e)
		place, neg, eneg := numPlace(m.ctl)
		t := x.eval(st, o.ret[0])
		end := strings.HasSuffix(m.ctl, "$")
		if place == "reject" || end && !numEnds[place] {
			check(t != nil && t.nan, &o, "grammar", "%s is returned for a text that is not a number", keyOf(o.ret[0]))
			continue
		}
		if !end {
			check(false, &o, "grammar", "%s is returned when the text is read up to %s only (%s)", keyOf(o.ret[0]), m.r[rPos].Key(), m.ctl)
			continue
		}
		good++
		if t == nil || t.nan {
			check(false, &o, "value", "%s is returned for a number (%s)", keyOf(o.ret[0]), m.ctl)
			continue
		}
		if t.parsed {
			check(true, &o, "value", "")
			continue
		}
		x.few(st)
		check(st.F.Entails(m.r[rDigits].Neg().AddC(maxDigits)), &o, "exact", "the digits may not fit an integer")
		check(st.F.EntailsEq(t.m.Sub(m.r[rMant])), &o, "value", "the digits are %s instead of %s", t.m.Key(), m.r[rMant].Key())
		check(t.neg == neg, &o, "value", "the sign is wrong")
		exp := m.r[rExp]
		if eneg {
			exp = exp.Neg()
		}
		exp = exp.Sub(m.r[rFrac])
		switch {
		case place == "expbig":
			check(false, &o, "exact", "the power of ten may not be exact")
		case t.k == nil:
			check(st.F.EntailsEq(exp), &o, "value", "the power of ten is lost")
		default:
			k := t.k
			if t.div {
				k = k.Neg()
			}
			check(st.F.EntailsEq(exp.Sub(k)), &o, "value", "the power of ten is %s instead of %s", k.Key(), exp.Key())
			check(st.F.Entails(t.k) && st.F.Entails(t.k.Neg().AddC(22)), &o, "exact", "the power of ten may not be exact")
			check(st.F.Entails(t.m.Neg().AddC(1<<53)), &o, "exact", "the digits may not be exact")
		}
	}
	e.Check(good > 0, nil, nil, "value", cons, "%s: no number is read", cons)
	c.Merge(e)
}

func init() {
	register(&Prop{
		ID:      "C18",
		Rule:    "ParseFloat is interpreted abstractly on an arbitrary text in product with a machine of the number grammar that keeps the value of the digits as an unbounded integer, their number, how many are fraction digits and the exponent. On each return the text was read up to its end or to a byte that no number has there; the value is NaN exactly if the text is not a number, otherwise it is strconv.ParseFloat of the text or a term ±m·10^k over the digits' value and exponent with at most one rounding (at most 19 digits; with a power of ten m <= 2^53 and |k| <= 22).",
		Explain: "Abstract interpretation with inferred linear loop invariants; integer arithmetic is taken modulo 2^64 and used as exact only where at most 19 digits were read.",
		Assume:  []string{"strconv.ParseFloat returns the nearest float64", "math.Pow10 is exact for 0..22", "float64 arithmetic is IEEE 754 with rounding to nearest"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			c.parseFloat(nj)
		},
	})
}
