package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// ---- numbers: writing floats ----

// fmtRun interprets a function that writes float f of a region with a given
// size: the buffer that strconv.AppendFloat returns has n bytes, the exponent
// of its text has the given form.
type fmtRun struct {
	*floatRun
	bits  int64
	fmt   byte
	tail  string // "e-0d", "edd", "eddd" or ""
	dst   *SliceV
	out   *SliceV // the buffer from strconv
	start *State  // when it did return it
	calls int
	wrong string
	cons  string
}

// cut is the least float that is not less than c once rounded to bits.
func floatCut(c float64, bits int64) float64 {
	if bits == 64 {
		return c
	}
	x := c * 0.9999
	y := c * 1.0001
	for math.Nextafter(x, y) != y {
		m := x + (y-x)/2
		if float32(m) >= float32(c) {
			y = m
		} else {
			x = m
		}
	}
	return y
}

func fmtRegions(bits int64) (out []*region) {
	lo, hi := floatCut(1e-6, bits), floatCut(1e21, bits)
	down := func(f float64) float64 { return math.Nextafter(f, 0) }
	add := func(f rune, a, b float64) {
		out = append(out, &region{lo: a, hi: b, class: string(f)}, &region{lo: -b, hi: -a, class: string(f)})
	}
	out = append(out, &region{nan: true, class: "f"}, &region{class: "f"})
	least, most := math.SmallestNonzeroFloat64, math.MaxFloat64
	if bits == 32 {
		least, most = math.SmallestNonzeroFloat32, math.MaxFloat32
	}
	add('e', least, down(lo))
	add('f', lo, down(hi))
	add('e', hi, most)
	out = append(out, &region{lo: math.Inf(1), hi: math.Inf(1), class: "*"}, &region{lo: math.Inf(-1), hi: math.Inf(-1), class: "*"})
	return
}

func (x *fmtRun) at(st *State, o *Obj, i *Lin) *Lin {
	l, _ := st.load(o, Path{{f: -1, idx: st.F.norm(i)}}, types.Typ[types.Uint8]).(*Lin)
	return l
}

// formatted is the result of strconv.AppendFloat and FormatFloat.
func (x *fmtRun) formatted(e *Engine, st *State, ci *callInfo, dst *SliceV, args []Val) ([]Outcome, bool) {
	x.calls++
	ints := make([]*Lin, 4)
	for i := range args {
		ints[i], _ = args[i].(*Lin)
	}
	is := func(i int, c int64) bool { return ints[i] != nil && st.F.EntailsEq(ints[i].AddC(-c)) }
	switch {
	case keyOf(args[0]) != x.f.key:
		x.wrong = "another number is written: " + keyOf(args[0])
	case !is(2, -1):
		x.wrong = "it is written with a fixed precision"
	case !is(3, x.bits):
		x.wrong = "it is written with another size"
	case x.fmt == '*':
	case x.tail == "" && !is(1, 'f'):
		x.wrong = "it is not written in decimal notation"
	case x.tail != "" && !is(1, 'e'):
		x.wrong = "it is not written with an exponent"
	}
	if x.wrong != "" && !x.g.nan && x.fmt != '*' {
		e.Fail(st, ci.ins, "format", x.cons, "%s: for %s (%d bits) %s", x.cons, x.g, x.bits, x.wrong)
	}
	o := newObj("text of f", types.Typ[types.Uint8])
	o.region, o.fresh = true, true
	st.heap[o] = &ObjState{origin: "formatted"}
	n := LS(newSym("formatted", bi(1), bi(math.MaxInt64)))
	k := LS(newSym("appended", bi(1), bi(400)))
	cp := LS(newSym("capacity", bi(1), bi(math.MaxInt64)))
	var before = LC(0)
	if dst != nil {
		before = dst.n
	}
	st.F.AssumeEq(n.Sub(before).Sub(k))
	st.F.AssumeGe(cp.Sub(n))
	in := func(i int64, lo, hi int64) {
		b := x.at(st, o, n.AddC(-i))
		st.F.AssumeGe(b.AddC(-lo))
		st.F.AssumeGe(b.Neg().AddC(hi))
	}
	eq := func(i int64, c byte) { in(i, int64(c), int64(c)) }
	if x.fmt == '*' {
		st.F.AssumeEq(k.AddC(-4))
		eq(1, 'f')
		eq(2, 'n')
		eq(3, 'I')
		in(4, '+', '-')
	}
	switch x.tail {
	case "e-0d":
		st.F.AssumeGe(k.AddC(-5))
		eq(4, 'e')
		eq(3, '-')
		eq(2, '0')
		in(1, '1', '9')
	case "edd":
		st.F.AssumeGe(k.AddC(-5))
		eq(4, 'e')
		in(3, '+', '-')
		in(2, '1', '9')
		in(1, '0', '9')
	case "eddd":
		st.F.AssumeGe(k.AddC(-6))
		eq(5, 'e')
		in(4, '+', '-')
		in(3, '1', '9')
		in(2, '0', '9')
		in(1, '0', '9')
	}
	x.out = &SliceV{o: o, off: LC(0), n: n, cap: cp}
	keepVals(n, k, cp)
	st.ext["out"] = x.out
	x.start = st.clone()
	return []Outcome{{st: st, ret: []Val{x.out}}}, true
}

func (c *Ctx) appendFloat(nj *Njson, fn *ssa.Function, str bool) {
	cons := fn.Name()
	for _, bits := range []int64{32, 64} {
		for _, g := range fmtRegions(bits) {
			tails := []string{""}
			if g.class == "e" {
				tails = []string{"e-0d", "edd", "eddd"}
			}
			for _, tail := range tails {
				r := c.runner(nj)
				noPanic(r.e, cons)
				st := newState()
				x := &fmtRun{cons: cons, bits: bits, fmt: g.class[0], tail: tail}
				x.floatRun = &floatRun{c: c, e: r.e, g: g}
				x.f = mkTerm("f", types.Typ[types.Float64])
				r.e.H.FloatCmp = x.cmp
				r.e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
					if ci.name == "strconv.AppendFloat" {
						dst, ok := ci.args[0].(*SliceV)
						if ok {
							if x.dst != nil && (dst.o != x.dst.o || !st.F.EntailsEq(dst.n.Sub(x.dst.n)) || !st.F.EntailsEq(dst.off.Sub(x.dst.off))) {
								e.Fail(st, ci.ins, "buffer", cons, "%s: the text is not appended to the given buffer", cons)
							}
							if x.dst == nil && !st.F.EntailsEq(dst.n) {
								e.Fail(st, ci.ins, "buffer", cons, "%s: the text is appended to %s", cons, keyOf(dst))
							}
							return x.formatted(e, st, ci, dst, ci.args[1:])
						}
					}
					return x.call(e, st, ci)
				}
				args := []Val{x.f, LC(bits)}
				if !str {
					x.dst, _ = symVal("dst", types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
					st.assumeValid(x.dst)
					args = append([]Val{x.dst}, args...)
				}
				n := 0
				what := fmt.Sprintf("%s: for %s (%d bits)", cons, g, bits)
				for _, o := range r.run(st, fn, args...) {
					if o.panic || !o.st.F.Feasible() {
						continue
					}
					n++
					if g.nan || math.IsInf(g.lo, 0) {
						continue // no JSON text
					}
					s := o.st
					var out *SliceV
					switch v := o.ret[0].(type) {
					case *SliceV:
						out = v
					case StrV:
						out, _ = v.B.src.(*SliceV)
						if out != nil && !(s.F.EntailsEq(v.lo) && s.F.EntailsEq(v.hi.Sub(out.n))) {
							out = nil
						}
					}
					if out == nil || x.out == nil || out.o != x.out.o || !s.F.EntailsEq(out.off.Sub(x.out.off)) {
						r.e.Fail(s, o.site, "text", cons, "%s the result is not what strconv.AppendFloat gives: %s", what, keyOf(o.ret[0]))
						continue
					}
					want := x.out.n
					end := want
					if x.tail == "e-0d" {
						want = want.AddC(-1)
						end = want.AddC(-1)
						a, b := x.at(s, out.o, end), x.at(x.start, out.o, want)
						r.e.Check(a != nil && b != nil && s.F.EntailsEq(a.Sub(b)), s, o.site, "text", cons, "%s the digit of the exponent is lost", what)
					}
					r.e.Check(s.F.EntailsEq(out.n.Sub(want)), s, o.site, "text", cons, "%s the text has the length %s instead of %s", what, s.F.norm(out.n).Key(), s.F.norm(want).Key())
					// all else is as it was
					j := LS(newSym("any", bi(0), bi(math.MaxInt64)))
					s.F.AssumeGe(end.Sub(j).AddC(-1))
					x.start.F.AssumeGe(end.Sub(j).AddC(-1))
					a, b := x.at(s, out.o, j), x.at(x.start, out.o, j)
					r.e.Check(a != nil && b != nil && s.F.EntailsEq(a.Sub(b)), s, o.site, "text", cons, "%s other bytes are changed", what)
				}
				r.e.Check(n > 0 && (x.calls > 0 || g.nan || x.fmt == '*'), nil, nil, "text", cons, "%s nothing is written", what)
				c.count["regions"]++
				r.done()
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:      "C22",
		Rule:    "AppendFloat and FormatFloat are interpreted abstractly for 32 and 64 bits and each region of the float (zero, below 1e-6, below 1e21, from 1e21, after rounding to its size, infinite, NaN, of either sign). strconv.AppendFloat is called for the number and size with the shortest precision, with an exponent exactly below 1e-6 and from 1e21 on; the result is its text, without the zero of an exponent e-0d, each byte before it unchanged.",
		Explain: "Abstract interpretation per region and form of the exponent; the text strconv gives is a buffer of unknown bytes but for the last ones.",
		Assume:  []string{"strconv.AppendFloat as documented: shortest text, exponents have at least two digits", "no text ends in e+0d or e-00"},
		Run: func(c *Ctx) {
			nj := njsonAnchors(c)
			if nj == nil {
				return
			}
			for _, n := range []string{"AppendFloat", "FormatFloat"} {
				fn := c.P.fn("numjson", n)
				if c.Anchor(fn != nil, "numjson."+n) {
					c.appendFloat(nj, fn, n == "FormatFloat")
				}
			}
			c.min("regions", c.count["regions"], 2*(2*2+2*10))
		},
	})
}
