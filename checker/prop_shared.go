package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- effects on shared memory ----
//
// An interprocedural, flow-insensitive analysis of what reaches memory shared
// between calls: package-level variables and the encoders and decoders
// themselves. A value is shared (2) if it points into such memory and holds (1)
// if it is a copy of such memory, or points to local memory, that contains
// shared pointers.

type level int8

type shared struct {
	c      *Ctx
	lv     map[ssa.Value]level // free variables
	scopes map[string]*scope
	order  []*scope
	cur    *scope
	fns    map[*ssa.Function]bool
	impl   map[string][]*ssa.Function
	change bool
}

// scope is a function called with arguments of some levels.
type scope struct {
	fn    *ssa.Function
	lv    map[ssa.Value]level
	ret   level
	retIx map[int]level
}

// scope of a call of fn with arguments of these levels.
func (s *shared) scope(fn *ssa.Function, args ...level) *scope {
	var ls []level
	for i, p := range fn.Params {
		l := level(0)
		if i < len(args) && refs(p.Type()) {
			l = args[i]
		}
		ls = append(ls, l)
	}
	key := fmt.Sprintf("%p %v", fn, ls)
	if sc, ok := s.scopes[key]; ok {
		return sc
	}
	sc := &scope{fn: fn, lv: map[ssa.Value]level{}, retIx: map[int]level{}}
	for i, p := range fn.Params {
		if ls[i] > 0 {
			sc.lv[p] = ls[i]
		}
	}
	s.scopes[key] = sc
	s.order = append(s.order, sc)
	s.change = true
	return sc
}

// called is the scope of a call of f.
func (s *shared) called(cc *ssa.CallCommon, f *ssa.Function) *scope {
	var ls []level
	if cc.IsInvoke() {
		ls = append(ls, s.get(cc.Value))
	}
	for _, a := range cc.Args {
		ls = append(ls, s.get(a))
	}
	return s.scope(f, ls...)
}

// refs says whether values of a type can hold pointers to mutable memory.
func refs(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Array:
		return refs(t.Elem())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if refs(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if refs(t.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// loaded is the level of a value of type t read from shared memory.
func loaded(t types.Type) level {
	if !refs(t) {
		return 0
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		return 1
	}
	return 2
}

// hasLock: the struct guards its fields with a lock.
func hasLock(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		switch types.TypeString(s.Field(i).Type(), nil) {
		case "sync.Mutex", "sync.RWMutex":
			return true
		}
	}
	return false
}

func isSyncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func (s *shared) get(v ssa.Value) level {
	if _, ok := v.(*ssa.Global); ok {
		return 2
	}
	if _, ok := v.(*ssa.FreeVar); ok {
		return s.lv[v]
	}
	return s.cur.lv[v]
}

func (s *shared) raise(v ssa.Value, l level) {
	m := s.cur.lv
	if _, ok := v.(*ssa.FreeVar); ok {
		m = s.lv
	}
	if l > m[v] && refs(v.Type()) {
		m[v] = l
		s.change = true
	}
}

// root of local memory an address points into.
func localRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// callees of a call in the repository.
func (s *shared) targets(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		key := cc.Value.Type().String() + "." + cc.Method.Name()
		if fs, ok := s.impl[key]; ok {
			return fs
		}
		var out []*ssa.Function
		for _, p := range s.c.P.pkgs {
			for _, n := range p.Types.Scope().Names() {
				tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if it == nil || !types.Implements(t, it) {
						continue
					}
					if sel := types.NewMethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
						if f := s.c.P.prog.MethodValue(sel); f != nil {
							out = append(out, f)
						}
					}
				}
			}
		}
		s.impl[key] = out
		return out
	}
	if f := cc.StaticCallee(); f != nil && len(f.Blocks) > 0 {
		return []*ssa.Function{f}
	}
	return nil
}

func (s *shared) flow(sc *scope) {
	s.cur = sc
	fn := sc.fn
	if !s.fns[fn] {
		return
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if l := s.get(x.Val); l > 0 {
					if r := localRoot(x.Addr); s.get(r) < 2 {
						s.raise(r, 1)
					}
				}
			case *ssa.FieldAddr:
				if !isLocked(x) {
					s.raise(x, s.get(x.X))
				}
			case *ssa.IndexAddr:
				s.raise(x, s.get(x.X))
			case *ssa.UnOp:
				if x.Op == token.MUL && s.get(x.X) > 0 {
					s.raise(x, loaded(x.Type()))
				}
			case *ssa.Field:
				if s.get(x.X) > 0 {
					s.raise(x, loaded(x.Type()))
				}
			case *ssa.Index:
				if s.get(x.X) > 0 {
					s.raise(x, loaded(x.Type()))
				}
			case *ssa.Lookup:
				if s.get(x.X) > 0 {
					s.raise(x, loaded(x.Type()))
				}
			case *ssa.Next:
				if s.get(x.Iter) > 0 {
					s.raise(x, loaded(x.Type()))
				}
			case *ssa.Range:
				s.raise(x, s.get(x.X))
			case *ssa.Extract:
				if s.get(x.Tuple) > 0 {
					if c, ok := x.Tuple.(*ssa.Call); ok {
						l := level(0)
						for _, f := range s.targets(&c.Call) {
							if k := s.called(&c.Call, f).retIx[x.Index]; k > l {
								l = k
							}
						}
						s.raise(x, l)
					} else {
						s.raise(x, loaded(x.Type()))
					}
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					s.raise(x, s.get(e))
				}
			case *ssa.ChangeType:
				s.raise(x, s.get(x.X))
			case *ssa.ChangeInterface:
				s.raise(x, s.get(x.X))
			case *ssa.Convert:
				if !isStr(x.Type()) && !isStr(x.X.Type()) {
					s.raise(x, s.get(x.X))
				}
			case *ssa.MakeInterface:
				s.raise(x, s.get(x.X))
			case *ssa.Slice:
				if !isStr(x.Type()) {
					s.raise(x, s.get(x.X))
				}
			case *ssa.TypeAssert:
				s.raise(x, s.get(x.X))
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					s.raise(f.FreeVars[i], s.get(bd))
				}
			case *ssa.Return:
				for i, r := range x.Results {
					l := s.get(r)
					if l > sc.ret {
						sc.ret = l
						s.change = true
					}
					if l > sc.retIx[i] {
						sc.retIx[i] = l
						s.change = true
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				v, _ := ins.(ssa.Value)
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && v != nil {
						s.raise(v, s.get(cc.Args[0]))
						if len(cc.Args) > 1 && s.get(cc.Args[1]) > 0 {
							if sl, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && refs(sl.Elem()) {
								s.raise(v, 1)
							}
						}
					}
					break
				}
				for _, f := range s.targets(cc) {
					if r := s.called(cc, f).ret; v != nil {
						s.raise(v, r)
					}
				}
			}
		}
	}
}

// isLocked: the field is of a struct that guards it with a lock.
func isLocked(x *ssa.FieldAddr) bool {
	p, ok := x.X.Type().Underlying().(*types.Pointer)
	return ok && hasLock(p.Elem())
}

// mutates says whether a method of reflect.Value changes what it refers to.
func mutates(name string) bool {
	m := strings.TrimPrefix(name, "(reflect.Value).")
	return m != name && (strings.HasPrefix(m, "Set") || m == "Grow" || m == "Clear")
}

// check reports writes to shared memory.
func (s *shared) check(sc *scope) {
	s.cur = sc
	c, fn := s.c, sc.fn
	if !s.fns[fn] {
		return
	}
	ok := func(good bool, ins ssa.Instruction, what string, v ssa.Value) {
		c.count["writes"]++
		c.Check(good, ins.Pos(), "shared", fn.String()+": "+what, "%s: %s memory that is shared between calls (%s)", shortFn(fn), what, v.Name())
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				ok(s.get(x.Addr) < 2, ins, "stores to", x.Addr)
			case *ssa.MapUpdate:
				ok(s.get(x.Map) < 2, ins, "updates a map in", x.Map)
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, isB := cc.Value.(*ssa.Builtin); isB {
					switch bi.Name() {
					case "append", "copy", "delete", "clear":
						ok(s.get(cc.Args[0]) < 2, ins, bi.Name()+" to", cc.Args[0])
					}
					break
				}
				if len(s.targets(cc)) > 0 || cc.IsInvoke() {
					break
				}
				f := cc.StaticCallee()
				if f == nil {
					break
				}
				if len(cc.Args) > 0 && f.Signature.Recv() != nil && isSyncType(cc.Args[0].Type()) {
					break
				}
				if len(cc.Args) > 0 && mutates(f.String()) {
					ok(s.get(cc.Args[0]) == 0, ins, f.Name()+" of", cc.Args[0])
				}
				for _, a := range cc.Args {
					switch a.Type().Underlying().(type) {
					case *types.Pointer, *types.Slice, *types.Map:
						ok(s.get(a) < 2 || f.Pkg != nil && readsOnly(f.String()), ins, f.String()+" is given", a)
					}
				}
			}
		}
	}
	if o := fn.Object(); o != nil && o.Exported() && fn.Parent() == nil && recvExported(fn) {
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			switch res.At(i).Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				c.count["results"]++
				c.Check(sc.retIx[i] < 2 || isPoolType(res.At(i).Type()), fn.Pos(), "shared", fn.String()+": result", "%s returns memory that is shared between calls", shortFn(fn))
			}
		}
	}
}

func recvExported(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return true
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

func isPoolType(t types.Type) bool { return isSyncType(t) }

// readsOnly: functions of the standard library known to only read what they are given.
func readsOnly(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "unicode/utf8.", "reflect.", "fmt."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// libraryFns are the functions of the library reachable from its users.
func (s *shared) reach() {
	pkgs := map[string]bool{}
	for _, r := range []string{"", "strjson", "numjson", "unjson"} {
		if k := s.c.P.ssaPkg(r); k != nil {
			pkgs[k.Pkg.Path()] = true
		}
	}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 && !s.fns[f] && s.c.P.isRepoFn(f) {
			s.fns[f] = true
			work = append(work, f)
		}
	}
	for _, f := range s.c.P.allFn {
		if !pkgs[fnPkgPath(f)] || f.Parent() != nil {
			continue
		}
		if f.Signature.Recv() != nil {
			add(f)
			continue
		}
		if o := f.Object(); o != nil && o.Exported() {
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var once ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok {
					cc := ci.Common()
					for _, t := range s.targets(cc) {
						add(t)
					}
					if f := cc.StaticCallee(); f != nil && f.String() == "(*sync.Once).Do" {
						once = cc.Args[1]
					}
				}
				for _, op := range ins.Operands(nil) {
					if *op == once {
						continue
					}
					switch g := (*op).(type) {
					case *ssa.Function:
						add(g)
					}
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:      "C25",
		Rule:    "Levels of sharing (points into shared memory, holds pointers to it, neither) are propagated from package-level variables and from the receivers of the methods of encoders and decoders through every function of the library reachable from outside, over assignments, fields, calls (class hierarchy for interfaces) and results. No store, map update, append, copy, mutating reflect call or external call with a pointer may have a shared destination, and no exported function may return shared memory, save through package sync. Fields of structs with a lock are covered by property C26.",
		Explain: "Interprocedural flow-insensitive taint and effect analysis on SSA (no false negatives within the library's own code; dynamic calls of user code excluded).",
		Assume:  []string{"functions of the standard library that take pointers, slices or maps write to them unless known to only read; others do not write", "user code called through interfaces does not write to shared memory", "functions run only by package initialisation or sync.Once may write"},
		Run: func(c *Ctx) {
			s := &shared{c: c, lv: map[ssa.Value]level{}, scopes: map[string]*scope{}, fns: map[*ssa.Function]bool{}, impl: map[string][]*ssa.Function{}}
			s.reach()
			n := 0
			for _, name := range []string{"Decoder", "Encoder"} {
				t := c.P.typ("unjson", name)
				if !c.Anchor(t != nil, "unjson."+name) {
					return
				}
				it, ok := t.Underlying().(*types.Interface)
				if !c.Anchor(ok, "interface unjson."+name) {
					return
				}
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i)
					for f := range s.fns {
						r := f.Signature.Recv()
						if r == nil || f.Name() != m.Name() || len(f.Params) == 0 || !types.Identical(sigOnly(f.Signature), sigOnly(m.Type().(*types.Signature))) {
							continue
						}
						n++
						s.scope(f, loaded(f.Params[0].Type()))
					}
				}
			}
			c.min("methods of encoders and decoders", n, 10)
			for _, f := range c.P.allFn {
				if s.fns[f] {
					c.saw(f)
					s.scope(f)
				}
			}
			for s.change = true; s.change; {
				s.change = false
				for i := 0; i < len(s.order); i++ {
					s.flow(s.order[i])
				}
			}
			for _, sc := range s.order {
				s.check(sc)
				c.count["shared values"] += len(sc.lv)
			}
			c.count["contexts"] = len(s.order)
		},
	})
}

// sigOnly is a signature without its receiver.
func sigOnly(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}
