package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the cache of encoders and decoders ----

// cacheRun analyses one method of Cache for every interleaving: what other
// goroutines may do shows as maps with any content each time the lock is taken.
type cacheRun struct {
	c      *Ctx
	e      *Engine
	cons   string
	typ    types.Type
	guard  map[int]string // guarded maps by field
	o      *Obj
	p      Path
	typArg Val
	opts   func(st *State, want types.Type) Val
	ctor   map[string]string // constructor by result interface
}

func (x *cacheRun) mon(st *State) *RefMon { return st.mon.(*RefMon) }

func (x *cacheRun) ok(good bool, st *State, ins ssa.Instruction, rule, f string, a ...interface{}) {
	x.e.Check(good, st, ins, rule, x.cons, "%s: "+f, append([]interface{}{x.cons}, a...)...)
}

// field is which guarded map a place is.
func (x *cacheRun) field(p *PtrV) (int, bool) {
	if p.o != x.o || len(p.p) != len(x.p)+1 {
		return 0, false
	}
	f := p.p[len(p.p)-1].f
	_, ok := x.guard[f]
	return f, ok
}

// take is a lock taken.
func (x *cacheRun) take(st *State, mode string) {
	havocN++
	n := havocN
	st.mon = x.mon(st).to(mode)
	st.ext["epoch"] = LC(int64(n))
	for f, name := range x.guard {
		t := x.typ.Underlying().(*types.Struct).Field(f).Type()
		m := &TermV{key: fmt.Sprintf("map.%s.%d", name, n), typ: t}
		st.store(x.o, x.p.with(pe{f: f}), t, m)
		delete(st.ext, "put."+name)
	}
}

// of says which guarded map a map value is, if the lock was held all along.
func (x *cacheRun) of(st *State, m Val) (string, bool) {
	t, ok := m.(*TermV)
	if !ok {
		if n, isNil := m.(*NilV); isNil && n != nil {
			return "", false
		}
		return "", false
	}
	if ep, ok := st.ext["epoch"].(*Lin); ok {
		n, _ := ep.constInt()
		for _, name := range x.guard {
			if t.key == fmt.Sprintf("map.%s.%d", name, n) {
				return name, true
			}
			if v, ok := st.ext["map."+name].(*TermV); ok && v.key == t.key {
				return name, true
			}
		}
	}
	return "", false
}

func (x *cacheRun) isShared(m Val) bool {
	t, ok := m.(*TermV)
	return ok && strings.HasPrefix(t.key, "map.")
}

func (x *cacheRun) entry(st *State, name string, m Val) Val {
	if v, ok := st.ext["put."+name]; ok {
		return v
	}
	k := keyOf(m)
	if b, ok := st.F.atoms["nil:"+k]; ok && b || strings.HasPrefix(k, "makemap") {
		return &IfaceV{isNil: true}
	}
	return &IfaceV{key: "entry." + strings.TrimPrefix(k, "map.")}
}

func (x *cacheRun) hooks() {
	e := x.e
	e.H.Load = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type) {
		if p.o == x.o && len(p.p) == len(x.p) {
			x.ok(false, st, ins, "copied", "the cache is copied")
			return
		}
		if f, ok := x.field(p); ok {
			x.ok(x.mon(st).ctl != "unlocked", st, ins, "unlocked", "%s is read without the lock", x.guard[f])
		}
	}
	e.H.Store = func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
		if p.o != x.o {
			return
		}
		f, ok := x.field(p)
		if !ok {
			x.ok(false, st, ins, "options", "the cache's options are changed")
			return
		}
		name := x.guard[f]
		x.ok(x.mon(st).ctl == "W", st, ins, "unlocked", "%s is replaced without the lock", name)
		cur := st.load(x.o, x.p.with(pe{f: f}), t)
		b, known := st.F.atoms["nil:"+keyOf(cur)]
		w, isT := v.(*TermV)
		x.ok(known && b && isT && w.op == "makemap", st, ins, "replaced", "%s is replaced by %s although it may hold entries", name, keyOf(v))
		st.ext["map."+name] = v
		if isT {
			if n, ok := st.ext["new:"+w.key]; ok {
				iv, _ := n.(*IfaceV)
				x.ok(iv != nil && strings.HasPrefix(iv.key, "made."+name), st, ins, "entry", "%s is stored in %s", keyOf(n), name)
				st.ext["put."+name] = n
			}
		}
	}
	e.H.Lookup = func(e *Engine, st *State, ins *ssa.Lookup, m, k Val) (Val, bool) {
		name, ok := x.of(st, m)
		if !ok {
			if x.isShared(m) {
				x.ok(false, st, ins, "unlocked", "%s is searched after the lock was released", keyOf(m))
			}
			return nil, false
		}
		x.ok(x.mon(st).ctl != "unlocked", st, ins, "unlocked", "%s is searched without the lock", name)
		x.ok(e.sameVal(st, k, x.typArg), st, ins, "key", "%s is searched for %s", name, keyOf(k))
		v := x.entry(st, name, m)
		if ins.CommaOk {
			iv := v.(*IfaceV)
			has := cBool(false)
			if !iv.isNil {
				has = cNot(cAtom("nil:" + iv.key))
			}
			return &TupleV{f: []Val{v, has}}, true
		}
		return v, true
	}
	e.H.MapUpd = func(e *Engine, st *State, ins *ssa.MapUpdate, m, k, v Val) {
		name, ok := x.of(st, m)
		if !ok {
			x.ok(!x.isShared(m), st, ins, "unlocked", "%s is changed after the lock was released", keyOf(m))
			if t, isT := m.(*TermV); isT && t.op == "makemap" && e.sameVal(st, k, x.typArg) {
				if iv, _ := v.(*IfaceV); iv != nil && st.ext["new:"+t.key] == nil {
					st.ext["new:"+t.key] = v
				} else {
					st.ext["new:"+t.key] = &TermV{key: "several"}
				}
			}
			return
		}
		x.ok(x.mon(st).ctl == "W", st, ins, "unlocked", "%s is changed without the lock", name)
		x.ok(e.sameVal(st, k, x.typArg), st, ins, "key", "an entry of %s is stored under %s", name, keyOf(k))
		iv, _ := v.(*IfaceV)
		x.ok(iv != nil && strings.HasPrefix(iv.key, "made."+name), st, ins, "entry", "%s is stored in %s", keyOf(v), name)
		mk := keyOf(m)
		b, known := st.F.atoms["nil:"+mk]
		x.ok(known && !b, st, ins, "nil", "an entry is stored in %s, which may be nil", name)
		old := x.entry(st, name, m).(*IfaceV)
		b, known = st.F.atoms["nil:"+old.key]
		// a map made in this section is empty
		x.ok(old.isNil || known && b, st, ins, "replaced", "an entry of %s is replaced: callers hold different ones", name)
		st.ext["put."+name] = v
	}
	e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.fn == nil {
			return nil, false
		}
		one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
		switch ci.name {
		case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock", "(*sync.RWMutex).RLock":
			mode := "W"
			if strings.HasSuffix(ci.name, "RLock") {
				mode = "R"
			}
			x.ok(x.mon(st).ctl == "unlocked", st, ci.ins, "lock", "the lock is taken while it is held")
			x.take(st, mode)
			return one()
		case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RUnlock":
			mode := "W"
			if strings.HasSuffix(ci.name, "RUnlock") {
				mode = "R"
			}
			x.ok(x.mon(st).ctl == mode, st, ci.ins, "lock", "%s of a lock that is not held like this", ci.fn.Name())
			st.mon = x.mon(st).to("unlocked")
			delete(st.ext, "epoch")
			for _, name := range x.guard {
				if v, ok := st.ext["put."+name]; ok {
					st.ext["stored."+name] = v
				}
			}
			return one()
		}
		for res, name := range x.ctor {
			f := x.c.P.fn("unjson", name)
			if ci.fn != f {
				continue
			}
			_ = res
			x.ok(e.sameVal(st, ci.args[0], x.typArg), st, ci.ins, "made", "%s is called for %s", name, keyOf(ci.args[0]))
			want := x.opts(st, f.Params[1].Type())
			x.ok(want != nil && e.sameVal(st, ci.args[1], want), st, ci.ins, "made", "%s is not called with the options of the cache", name)
			bad := st.clone()
			err := someErr(bad, "ctor.err")
			bad.ext["failed"] = err
			havocN++
			iv := &IfaceV{key: fmt.Sprintf("made.%s.%d", x.mapOf(res), havocN)}
			st.F.atoms["nil:"+iv.key] = false
			junk := &IfaceV{key: fmt.Sprintf("junk%d", havocN)}
			return []Outcome{{st: st, ret: []Val{iv, &IfaceV{isNil: true}}}, {st: bad, ret: []Val{junk, err}}}, true
		}
		return nil, false
	}
}

// mapOf is the guarded map of values of an interface.
func (x *cacheRun) mapOf(res string) string {
	s := x.typ.Underlying().(*types.Struct)
	for f, name := range x.guard {
		if m, ok := s.Field(f).Type().Underlying().(*types.Map); ok && m.Elem().String() == res {
			return name
		}
	}
	return "?"
}

func init() {
	register(&Prop{
		ID:      "C26",
		Rule:    "Every exported method of Cache is interpreted abstractly with a lock typestate (unlocked, read, write). The guarded maps get arbitrary contents whenever the lock is taken (what other goroutines may have done). Maps are read only with the lock held and changed only with the write lock, by values loaded in the same critical section; an entry is added only for the type asked for, with the encoder or decoder made for it with the cache's own options, where this critical section found none; entries are never replaced or removed, so all callers get the same one. Every lock is released on each way out, in the mode it was taken, and never taken twice. Without an error the result is what the cache holds; errors of the constructor are returned and not cached. No other function touches the maps, and the cache is never copied.",
		Explain: "Lock-set typestate and value analysis by abstract interpretation with rely conditions at lock acquisition; syntactic ownership rule for the guarded fields.",
		Assume:  []string{"sync.RWMutex excludes as documented", "constructors return a non-nil encoder or decoder when they report no error (C21, C24)"},
		Run:     runCache,
	})
}

func runCache(c *Ctx) {
	t := c.P.typ("unjson", "Cache")
	if !c.Anchor(t != nil, "unjson.Cache") {
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !c.Anchor(ok && hasLock(t), "the lock of unjson.Cache") {
		return
	}
	guard := map[int]string{}
	optIx, locks := -1, 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case types.TypeString(f.Type(), nil) == "sync.Mutex" || types.TypeString(f.Type(), nil) == "sync.RWMutex":
			locks++
		case f.Type() == c.P.typ("unjson", "Options"):
			optIx = i
		default:
			if _, ok := f.Type().Underlying().(*types.Map); ok {
				guard[i] = f.Name()
			} else {
				c.Check(false, f.Pos(), "field", f.Name(), "field %s of the cache is not known to be guarded", f.Name())
			}
		}
	}
	if !c.Anchor(optIx >= 0 && len(guard) > 0 && locks == 1, "the options, maps and only lock of unjson.Cache") {
		return
	}
	methods := c.P.methodsOf(t)
	sort.Slice(methods, func(i, j int) bool { return methods[i].String() < methods[j].String() })
	seen := map[*ssa.Function]bool{}
	n := 0
	for _, fn := range methods {
		if o := fn.Object(); o == nil || !o.Exported() || fn.Synthetic != "" {
			continue
		}
		c.saw(fn)
		e := c.runner(nil).e
		st := newState()
		x := &cacheRun{c: c, e: e, cons: shortFn(fn), typ: t, guard: guard, ctor: map[string]string{}}
		for _, k := range []string{"Decoder", "Encoder"} {
			if it := c.P.typ("unjson", k); it != nil {
				x.ctor[it.String()] = "NewType" + k
			}
		}
		var args []Val
		for i, q := range fn.Params {
			v := symVal("arg."+q.Name(), q.Type())
			if i == 0 {
				p := v.(*PtrV)
				x.o, x.p = p.o, p.p
			}
			if types.TypeString(q.Type(), nil) == "reflect.Type" {
				x.typArg = v
			}
			args = append(args, v)
		}
		st.nonNil(args[0])
		x.opts = func(st *State, want types.Type) Val {
			ot := s.Field(optIx).Type()
			at := x.p.with(pe{f: optIx})
			if types.Identical(want, ot) {
				return pre(st).load(x.o, at, ot)
			}
			tag := fieldIx(ot, "Tag")
			if tag < 0 || !isStr(want) {
				return nil
			}
			return pre(st).load(x.o, at.with(pe{f: tag}), want)
		}
		st.mon = &RefMon{ctl: "unlocked", step: func(e *Engine, st *State, m *RefMon) *RefMon { return nil }}
		x.hooks()
		good := 0
		outs := e.Run(st, fn, args, nil, nil)
		for i := range outs {
			o := &outs[i]
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			st := o.st
			x.ok(x.mon(st).ctl == "unlocked", st, o.site, "lock", "the lock is still held at the end")
			res := fn.Signature.Results()
			if res.Len() != 2 || x.ctor[res.At(0).Type().String()] == "" {
				continue
			}
			name := x.mapOf(res.At(0).Type().String())
			err, failed := st.ext["failed"]
			_, stored := st.ext["stored."+name]
			switch errNil(st, o.ret[1]) {
			case 1:
				good++
				iv, _ := o.ret[0].(*IfaceV)
				known, fine := false, false
				if iv != nil {
					b, k := st.F.atoms["nil:"+iv.key]
					known = k && !b
					fine = strings.HasPrefix(iv.key, "entry."+name+".") || stored && e.sameVal(st, st.ext["stored."+name], iv)
				}
				x.ok(!failed, st, o.site, "error", "the error of the constructor is lost")
				x.ok(known && fine, st, o.site, "result", "the result %s is not what the cache holds for the type", keyOf(o.ret[0]))
			case -1:
				x.ok(failed && e.sameVal(st, err, o.ret[1]), st, o.site, "error", "an error is returned although the constructor did not fail")
				x.ok(!stored, st, o.site, "error", "something is stored although the constructor failed")
			default:
				x.ok(false, st, o.site, "error", "error unknown %s", keyOf(o.ret[1]))
			}
		}
		if x.typArg != nil {
			n++
			x.ok(good > 0, nil, nil, "returns", "it never succeeds")
		}
		for f := range e.fnsSeen {
			seen[f] = true
		}
		c.Merge(e)
	}
	c.min("methods that look up types", n, 2)
	// ownership of the fields
	for _, fn := range c.P.allFn {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.FieldAddr:
					if p, ok := i.X.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) && guard[i.Field] != "" {
						c.count["accesses"]++
						c.Check(seen[fn], ins.Pos(), "owner", fn.String(), "%s uses %s outside of the methods of the cache", shortFn(fn), guard[i.Field])
					}
				case *ssa.UnOp:
					if i.Op == token.MUL && types.Identical(i.Type(), t) {
						c.Check(false, ins.Pos(), "copied", fn.String(), "%s copies a cache", shortFn(fn))
					}
				}
			}
		}
	}
	c.min("accesses to the maps", c.count["accesses"], 4)
}
