package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// poolInfo is what the repository does with one sync.Pool.
type poolInfo struct {
	key    string
	types  map[string]types.Type // dynamic types of everything put in or made by New
	hasNew bool
	unk    bool
	puts   []ssa.CallInstruction
	gets   []ssa.CallInstruction
}

// poolKey names the pool a receiver value denotes: a global or a struct field.
func poolKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		return poolKey(v.X)
	case *ssa.Global:
		return "glob:" + v.String()
	case *ssa.FieldAddr:
		t := v.X.Type().Underlying().(*types.Pointer).Elem()
		return "field:" + types.TypeString(t, nil) + fmt.Sprintf(".%d", v.Field)
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == v {
				return poolKey(s.Addr)
			}
		}
	}
	return ""
}

func dynTypes(v ssa.Value, out map[string]types.Type, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		out[v.X.Type().String()] = v.X.Type()
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !dynTypes(e, out, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// pools finds every sync.Pool of the repository.
func (p *Program) pools() map[string]*poolInfo {
	if p.poolTab != nil {
		return p.poolTab
	}
	tab := map[string]*poolInfo{}
	get := func(k string) *poolInfo {
		if tab[k] == nil {
			tab[k] = &poolInfo{key: k, types: map[string]types.Type{}}
		}
		return tab[k]
	}
	for _, fn := range p.allFn {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case ssa.CallInstruction:
					cc := ins.Common()
					if cc.IsInvoke() {
						continue
					}
					sc := cc.StaticCallee()
					if sc == nil {
						continue
					}
					switch sc.String() {
					case "(*sync.Pool).Put":
						i := get(poolKey(cc.Args[0]))
						i.puts = append(i.puts, ins)
						if !dynTypes(cc.Args[1], i.types, 0) {
							i.unk = true
						}
					case "(*sync.Pool).Get":
						i := get(poolKey(cc.Args[0]))
						i.gets = append(i.gets, ins)
					}
				case *ssa.Store:
					fa, ok := ins.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt, ok := fa.X.Type().Underlying().(*types.Pointer)
					if !ok || pt.Elem().String() != "sync.Pool" {
						continue
					}
					i := get(poolKey(fa.X))
					i.hasNew = true
					var f *ssa.Function
					switch v := ins.Val.(type) {
					case *ssa.Function:
						f = v
					case *ssa.MakeClosure:
						f, _ = v.Fn.(*ssa.Function)
					}
					if f == nil {
						i.unk = true
						continue
					}
					for _, b := range f.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							if len(r.Results) != 1 || !dynTypes(r.Results[0], i.types, 0) {
								i.unk = true
							}
						}
					}
				}
			}
		}
	}
	p.poolTab = tab
	return tab
}

// poolGet models (*sync.Pool).Get.
func (e *Engine) poolGet(st *State, ci *callInfo) []Outcome {
	fresh := func() []Outcome { return []Outcome{{st: st, ret: e.freshResults(ci)}} }
	cc := ci.ins.Common()
	if cc.IsInvoke() || len(cc.Args) == 0 {
		return fresh()
	}
	k := poolKey(cc.Args[0])
	i := e.P.pools()[k]
	if k == "" || i == nil || i.unk || len(i.types) == 0 {
		return fresh()
	}
	var outs []Outcome
	if !i.hasNew {
		f := st.clone()
		outs = append(outs, Outcome{st: f, ret: []Val{&IfaceV{isNil: true}}})
	}
	for _, ty := range i.types {
		s := st.clone()
		havocN++
		v := symVal(fmt.Sprintf("pooled%d", havocN), ty)
		s.nonNil(v)
		s.assumeValid(v)
		outs = append(outs, Outcome{st: s, ret: []Val{&IfaceV{t: ty, v: v}}})
	}
	return outs
}
