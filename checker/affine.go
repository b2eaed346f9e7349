package main

import (
	"math/big"
	"sort"
)

// affineHull returns equations e == 0 over the terms g that hold whenever
// g[i] == a[i] for all i, and whenever g[i] == b[i] for all i: every integer
// combination of the rows for which the two right sides agree. Combinations
// with other coefficients than 0, 1 and -1 are coincidences and are left out.
func affineHull(a, b, g []*Lin) []*Lin {
	cols := map[*Sym]int{}
	var syms []*Sym
	d := make([]*Lin, len(a))
	for i := range a {
		d[i] = a[i].Sub(b[i])
		for _, t := range d[i].t {
			if _, ok := cols[t.s]; !ok {
				cols[t.s] = 0
				syms = append(syms, t.s)
			}
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].id < syms[j].id })
	for i, s := range syms {
		cols[s] = i
	}
	nc := len(syms) + 1
	type row struct {
		v []*big.Rat // difference
		w []*big.Rat // combination of the inputs
	}
	var pivots []row
	var piv []int
	var out []*Lin
	for i := range a {
		r := row{make([]*big.Rat, nc), make([]*big.Rat, len(a))}
		for k := range r.v {
			r.v[k] = new(big.Rat)
		}
		for k := range r.w {
			r.w[k] = new(big.Rat)
		}
		for _, t := range d[i].t {
			r.v[cols[t.s]].SetInt64(t.k)
		}
		r.v[nc-1].SetInt(d[i].c)
		r.w[i].SetInt64(1)
		for p, pr := range pivots {
			c := r.v[piv[p]]
			if c.Sign() == 0 {
				continue
			}
			q := new(big.Rat).Quo(c, pr.v[piv[p]])
			for k := range r.v {
				if pr.v[k].Sign() != 0 {
					r.v[k] = new(big.Rat).Sub(r.v[k], new(big.Rat).Mul(q, pr.v[k]))
				}
			}
			for k := range r.w {
				if pr.w[k].Sign() != 0 {
					r.w[k] = new(big.Rat).Sub(r.w[k], new(big.Rat).Mul(q, pr.w[k]))
				}
			}
		}
		pc := -1
		for k, x := range r.v {
			if x.Sign() != 0 {
				pc = k
				break
			}
		}
		if pc >= 0 {
			pivots = append(pivots, r)
			piv = append(piv, pc)
			continue
		}
		// an equation; clear denominators
		den := big.NewInt(1)
		for _, x := range r.w {
			den.Mul(den, new(big.Int).Div(x.Denom(), new(big.Int).GCD(nil, nil, den, x.Denom())))
		}
		if !den.IsInt64() || den.Int64() > 8 {
			continue
		}
		eq, ok, n := LC(0), true, 0
		for k, x := range r.w {
			if x.Sign() == 0 {
				continue
			}
			y := new(big.Rat).Mul(x, new(big.Rat).SetInt(den))
			if !y.IsInt() || !y.Num().IsInt64() || y.Num().Int64() > 1 || y.Num().Int64() < -1 {
				ok = false
				break
			}
			n++
			eq = eq.Add(g[k].Sub(a[k]).Scale(y.Num().Int64()))
		}
		if ok && n > 0 && !eq.isConst() {
			out = append(out, eq)
		}
	}
	return out
}
