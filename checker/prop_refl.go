package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// refl is the model of package reflect used to analyse encoders and decoders:
// a type is an identity with a kind, a value is a term with a type, and every
// method of a value demands the kinds package reflect demands.
type refl struct {
	c        *Ctx
	e        *Engine
	cons     string
	kind     map[string]int64 // kind of a type
	vt       map[string]string
	addr     map[string]int    // addressable: 1 yes, -1 no
	impl     map[string]bool   // type + " " + interface
	ifaceOf  map[string]string // global -> interface it stands for
	kinds    map[string]int64  // name -> value
	ifc      map[string]*TermV // interface key -> value it was made from
	x        map[string]*TermV // interface key -> its reflect.Value
	subjects map[string]bool   // types that are analysed; others are opaque
	elem     map[string]string // element type if it is not derived from the name
	set      func(e *Engine, st *State, ins ssa.Instruction, m string, v *TermV, args []Val)
	lens     map[string]*Lin
	forkNil  bool // IsNil distinguishes both cases at once
	made     func(st *State, v *TermV)
	keysOf   map[string]string   // prefix of the keys of a map -> their type
	fleet    func(k string) bool // types whose kind may be forgotten
}

func newRefl(c *Ctx, e *Engine, cons string) *refl {
	x := &refl{c: c, e: e, cons: cons, kind: map[string]int64{}, vt: map[string]string{}, addr: map[string]int{}, impl: map[string]bool{}, ifaceOf: map[string]string{}, kinds: map[string]int64{}, ifc: map[string]*TermV{}, x: map[string]*TermV{}, subjects: map[string]bool{}, elem: map[string]string{}, lens: map[string]*Lin{}, keysOf: map[string]string{}}
	rp := c.P.prog.ImportedPackage("reflect")
	for _, n := range rp.Pkg.Scope().Names() {
		if k, ok := rp.Pkg.Scope().Lookup(n).(*types.Const); ok && k.Type().String() == "reflect.Kind" {
			v, _ := constToInt(k)
			x.kinds[n] = v
		}
	}
	// globals initialised with reflect.TypeOf((*I)(nil)).Elem()
	sp := c.P.ssaPkg("unjson")
	for _, b := range sp.Func("init").Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			call, ok2 := s.Val.(*ssa.Call)
			if !ok || !ok2 || !call.Call.IsInvoke() || call.Call.Method.Name() != "Elem" {
				continue
			}
			in, ok := call.Call.Value.(*ssa.Call)
			if !ok || in.Call.StaticCallee() == nil || in.Call.StaticCallee().String() != "reflect.TypeOf" {
				continue
			}
			mi, ok := in.Call.Args[0].(*ssa.MakeInterface)
			if !ok {
				continue
			}
			if p, ok := mi.X.Type().(*types.Pointer); ok {
				x.ifaceOf[g.String()] = p.Elem().String()
			}
		}
	}
	return x
}

func (x *refl) rtype(st *State, k string) *IfaceV {
	st.F.atoms["nil:rtype:"+k] = false
	return &IfaceV{key: "rtype:" + k}
}

// typeKey is the type a reflect.Type value stands for.
func (x *refl) typeKey(v Val) (string, bool) {
	iv, ok := v.(*IfaceV)
	if !ok || !strings.HasPrefix(iv.key, "rtype:") {
		return "", false
	}
	return strings.TrimPrefix(iv.key, "rtype:"), true
}

func (x *refl) elemOf(k string) string {
	if e, ok := x.elem[k]; ok {
		return e
	}
	if strings.HasPrefix(k, "*") {
		return k[1:]
	}
	return k + ".elem"
}

func (x *refl) kindOf(k string) (int64, bool) {
	if strings.HasPrefix(k, "*") {
		return x.kinds["Ptr"], true
	}
	v, ok := x.kind[k]
	return v, ok
}

func (x *refl) kindVal(k string) *Lin {
	if v, ok := x.kindOf(k); ok {
		return LC(v)
	}
	if x.fleet != nil && x.fleet(k) {
		return symRange("kind:"+k, 0, 26)
	}
	return keepSym("kind:"+k, 0, 26)
}

func (x *refl) isKind(k string, names ...string) bool {
	v, ok := x.kindOf(k)
	for _, n := range names {
		if ok && x.kinds[n] == v {
			return true
		}
	}
	return false
}

func kindsOf(names string) []string {
	m := map[string][]string{
		"int":   {"Int", "Int8", "Int16", "Int32", "Int64"},
		"uint":  {"Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Uintptr"},
		"float": {"Float32", "Float64"},
		"nil":   {"Ptr", "Map", "Slice", "Interface", "Func", "Chan", "UnsafePointer"},
		"len":   {"Array", "Chan", "Map", "Slice", "String"},
	}
	var out []string
	for _, n := range strings.Fields(names) {
		if l, ok := m[n]; ok {
			out = append(out, l...)
		} else {
			out = append(out, n)
		}
	}
	return out
}

// val is the value named key of type k.
func (x *refl) val(key, k string, op string, args ...Val) *TermV {
	x.vt[key] = k
	rv := x.c.P.prog.ImportedPackage("reflect").Type("Value").Type()
	return &TermV{key: key, typ: rv, op: op, args: args}
}

func (x *refl) derived(st *State, op, k string, args ...Val) *TermV {
	var ks []string
	for _, a := range args {
		ks = append(ks, keyOf(st.F.normVal(a)))
	}
	return x.val(op+"("+strings.Join(ks, ",")+")", k, op, args...)
}

func (x *refl) lenOf(k string) *Lin {
	if x.isKind(k, "Array") {
		return keepSym("len("+k+")", 0, 1<<40)
	}
	return nil
}

// valLen is the length of a value.
func (x *refl) valLen(st *State, v *TermV) *Lin {
	if l := x.lenOf(x.vt[v.key]); l != nil {
		return l
	}
	l := keepSym("len("+v.key+")", 0, 1<<40)
	if b, ok := st.F.atoms["isnil:"+v.key]; ok && b {
		st.F.AssumeEq(l)
	}
	return l
}

func (x *refl) fail(st *State, ci *callInfo, f string, a ...interface{}) {
	if st.F.Feasible() {
		x.e.Fail(st, ci.ins, "reflect", x.cons+" "+shortFn(ci.ins.Parent())+" "+shortName(ci.name), "%s: %s", x.cons, fmt.Sprintf(f, a...))
	}
}

// typeOf is the type of a value.
func (x *refl) typeOf(v *TermV) (string, bool) {
	if k, ok := x.vt[v.key]; ok {
		return k, true
	}
	for m, k := range x.keysOf {
		if strings.HasPrefix(v.key, m) {
			x.vt[v.key] = k
			x.addr[v.key] = -1
			return k, true
		}
	}
	return "", false
}

// need demands one of the kinds of v's type.
func (x *refl) need(st *State, ci *callInfo, v *TermV, names string) bool {
	k, known := x.typeOf(v)
	if !known {
		return true
	}
	if k == "" {
		x.fail(st, ci, "%s of the zero reflect.Value", ci.name)
		return false
	}
	if _, ok := x.kindOf(k); !ok {
		l := x.kindVal(k)
		ok := map[int64]bool{}
		for _, n := range kindsOf(names) {
			ok[x.kinds[n]] = true
		}
		for i := int64(0); i <= 26; i++ {
			if !ok[i] && !st.F.EntailsNeq(l.AddC(-i)) {
				x.fail(st, ci, "%s of a value of type %s of unknown kind may panic", ci.name, k)
				return false
			}
		}
		return true
	}
	if !x.isKind(k, kindsOf(names)...) {
		x.fail(st, ci, "%s of a value of type %s panics", ci.name, k)
		return false
	}
	return true
}

// iface is the interface value that holds v.
func (x *refl) iface(st *State, v *TermV) *IfaceV {
	key := "ifc(" + v.key + ")"
	x.ifc[key] = v
	k := x.vt[v.key]
	if x.isKind(k, "Interface") {
		if b, ok := st.F.atoms["isnil:"+v.key]; ok {
			st.F.atoms["nil:"+key] = b
		}
	} else {
		st.F.atoms["nil:"+key] = false
	}
	for _, i := range x.ifaceOf {
		b, ok := x.implements(k, i)
		if !ok {
			b, ok = st.F.atoms["impl:"+k+":"+i]
		}
		if ok {
			// an interface value that is nil implements nothing
			if nb, known := st.F.atoms["nil:"+key]; !known {
				_ = nb
				continue
			} else if nb {
				b = false
			}
			st.F.atoms["is:"+key+":"+i] = b
		}
	}
	return &IfaceV{key: key}
}

func (x *refl) implements(k, i string) (bool, bool) {
	b, ok := x.impl[k+" "+i]
	if e := strings.TrimPrefix(k, "*"); !ok && e != k {
		switch kd := x.isKind(e, "Ptr", "Interface"); {
		case kd:
			return false, true // no method sets
		case x.impl[e+" "+i]:
			return true, true
		}
		for p, el := range x.elem {
			if el == e && x.isKind(p, "Ptr") {
				b, ok = x.impl[p+" "+i]
			}
		}
	}
	return b, ok
}

// call models the functions of package reflect.
func (x *refl) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	if ci.iface != nil && types.TypeString(ci.iface, nil) == "reflect.Type" {
		k, ok := x.typeKey(ci.args[0])
		if !ok {
			return nil, false
		}
		switch ci.method {
		case "Kind":
			return one(x.kindVal(k))
		case "Elem":
			if _, known := x.kindOf(k); known && !x.isKind(k, "Ptr", "Slice", "Array", "Map", "Chan") {
				x.fail(st, ci, "Elem of type %s panics", k)
				return nil, true
			}
			return one(x.rtype(st, x.elemOf(k)))
		case "Key":
			if _, known := x.kindOf(k); known && !x.isKind(k, "Map") {
				x.fail(st, ci, "Key of type %s panics", k)
				return nil, true
			}
			return one(x.rtype(st, k+".key"))
		case "Len":
			if _, known := x.kindOf(k); known && !x.isKind(k, "Array") {
				x.fail(st, ci, "Len of type %s panics", k)
				return nil, true
			}
			return one(keepSym("len("+k+")", 0, 1<<40))
		case "NumMethod":
			return one(keepSym("nummethod:"+k, 0, 1<<20))
		case "Implements":
			if iv, ok := ci.args[1].(*IfaceV); ok {
				for g, i := range x.ifaceOf {
					if strings.HasPrefix(iv.key, "glob:"+g) {
						if b, known := x.implements(k, i); known {
							return one(cBool(b))
						}
						return one(cAtom("impl:" + k + ":" + i))
					}
				}
			}
			return one(cAtom("impl:" + k + ":" + keyOf(ci.args[1])))
		}
		return one(e.termResults(st, ci)...)
	}
	switch ci.name {
	case "reflect.PtrTo", "reflect.PointerTo":
		if k, ok := x.typeKey(ci.args[0]); ok {
			return one(x.rtype(st, "*"+k))
		}
	case "reflect.ValueOf":
		if iv, ok := ci.args[0].(*IfaceV); ok {
			if v, ok := x.x[iv.key]; ok {
				return one(v)
			}
			if v, ok := x.ifc[iv.key]; ok && !x.isKind(x.vt[v.key], "Interface") {
				return one(x.val(v.key+"'", x.vt[v.key], "copy", v))
			}
			if b, ok := iv.t.(*types.Basic); ok && b.Kind() == types.String {
				x.kind["string"] = x.kinds["String"]
				return one(x.derived(st, "ofstring", "string", iv.v))
			}
		}
	case "reflect.TypeOf":
		if iv, ok := ci.args[0].(*IfaceV); ok {
			if v, ok := x.x[iv.key]; ok {
				return one(x.rtype(st, x.vt[v.key]))
			}
			return one(x.rtype(st, "typeof("+keyOf(iv)+")"))
		}
	case "reflect.New":
		if k, ok := x.typeKey(ci.args[0]); ok {
			v := x.val("new"+x.at(st, ci)+":"+k, "*"+k, "new")
			st.F.atoms["isnil:"+v.key] = false
			if x.made != nil {
				x.made(st, v)
			}
			return one(v)
		}
	case "reflect.Zero":
		if k, ok := x.typeKey(ci.args[0]); ok {
			v := x.val("zero:"+k, k, "zero")
			if x.isKind(k, kindsOf("nil")...) {
				st.F.atoms["isnil:"+v.key] = true
			}
			return one(v)
		}
	case "reflect.MakeSlice":
		if k, ok := x.typeKey(ci.args[0]); ok {
			v := x.val("makeslice"+x.at(st, ci)+":"+k, k, "makeslice")
			st.F.atoms["isnil:"+v.key] = false
			n, ok := ci.args[1].(*Lin)
			cp, ok2 := ci.args[2].(*Lin)
			if !ok || !ok2 || !st.F.Entails(n) || !st.F.Entails(cp.Sub(n)) {
				x.fail(st, ci, "MakeSlice(%s, %s) may panic", keyOf(ci.args[1]), keyOf(ci.args[2]))
				return nil, true
			}
			st.ext["len:"+v.key], st.ext["cap:"+v.key] = st.F.norm(n), st.F.norm(cp)
			return one(v)
		}
	case "reflect.MakeMap", "reflect.MakeMapWithSize":
		if k, ok := x.typeKey(ci.args[0]); ok {
			v := x.val("makemap"+x.at(st, ci)+":"+k, k, "makemap")
			st.F.atoms["isnil:"+v.key] = false
			return one(v)
		}
	}
	if strings.HasPrefix(ci.name, "(*reflect.MapIter).") {
		return x.mapIter(e, st, ci)
	}
	if !strings.HasPrefix(ci.name, "(reflect.Value).") {
		return nil, false
	}
	v, ok := ci.args[0].(*TermV)
	if !ok {
		return nil, false
	}
	k, typed := x.typeOf(v)
	switch m := strings.TrimPrefix(ci.name, "(reflect.Value)."); m {
	case "Kind":
		if typed {
			if k == "" {
				return one(LC(0))
			}
			return one(x.kindVal(k))
		}
	case "Type":
		if typed {
			if k == "" {
				x.fail(st, ci, "Type of the zero reflect.Value")
				return nil, true
			}
			return one(x.rtype(st, k))
		}
	case "IsValid":
		if typed {
			return one(cBool(k != ""))
		}
	case "IsNil":
		if !x.need(st, ci, v, "nil") {
			return nil, true
		}
		if _, known := st.F.atoms["isnil:"+v.key]; !known && (x.isKind(k, "Slice", "Map") || x.forkNil && typed) {
			b := st.clone()
			st.F.atoms["isnil:"+v.key] = false
			b.F.atoms["isnil:"+v.key] = true
			x.valLen(b, v)
			outs := []Outcome{{st: st, ret: []Val{cBool(false)}}}
			if b.F.Feasible() {
				outs = append(outs, Outcome{st: b, ret: []Val{cBool(true)}})
			}
			return outs, true
		}
		return one(cAtom("isnil:" + v.key))
	case "CanAddr", "CanSet":
		if a := x.addr[v.key]; a != 0 {
			return one(cBool(a > 0))
		}
		return one(cAtom("canaddr:" + v.key))
	case "CanInterface":
		return one(cBool(true))
	case "Len":
		if !x.need(st, ci, v, "len") {
			return nil, true
		}
		if typed {
			return one(x.curLen(st, v))
		}
	case "Cap":
		if !x.need(st, ci, v, "Slice Array Chan") {
			return nil, true
		}
		if typed {
			if cp, ok := st.ext["cap:"+v.key].(*Lin); ok {
				return one(cp)
			}
			n := x.valLen(st, v)
			cp := symRange("cap:"+v.key, 0, 1<<40)
			st.F.AssumeGe(cp.Sub(n))
			return one(cp)
		}
	case "Index":
		if !x.need(st, ci, v, "Array Slice String") {
			return nil, true
		}
		if i, ok := ci.args[1].(*Lin); ok && typed {
			n := x.curLen(st, v)
			if !(st.F.Entails(i) && st.F.Entails(n.Sub(i).AddC(-1))) {
				x.fail(st, ci, "index %s of %s may be out of range", st.F.norm(i).Key(), v.key)
				return nil, true
			}
			el := x.derived(st, "Index", x.elemOf(k), v, st.F.norm(i))
			if x.isKind(k, "Slice") || x.addr[v.key] > 0 {
				x.addr[el.key] = 1
			}
			return one(el)
		}
	case "Elem":
		if !x.need(st, ci, v, "Ptr Interface") {
			return nil, true
		}
		if typed {
			nb, known := st.F.atoms["isnil:"+v.key]
			if known && nb {
				return one(x.val("invalid", "", "zero"))
			}
			if !known {
				x.fail(st, ci, "Elem of %s that may be nil", v.key)
				return nil, true
			}
			el := x.derived(st, "Elem", x.elemOf(k), v)
			if strings.HasPrefix(k, "*") || x.isKind(k, "Ptr") {
				x.addr[el.key] = 1
			}
			if v.op == "addr" {
				return one(v.args[0])
			}
			return one(el)
		}
	case "Addr":
		if typed {
			ok := x.addr[v.key] > 0
			if b, known := st.F.atoms["canaddr:"+v.key]; known && b {
				ok = true
			}
			if !ok {
				x.fail(st, ci, "Addr of %s that may not be addressable", v.key)
				return nil, true
			}
			p := x.derived(st, "addr", "*"+k, v)
			st.F.atoms["isnil:"+p.key] = false
			return one(p)
		}
	case "MapKeys":
		if !x.need(st, ci, v, "Map") {
			return nil, true
		}
		n := x.valLen(st, v)
		key := "keys(" + v.key + ")"
		s := symVal(key, types.NewSlice(v.typ)).(*SliceV)
		st.assumeValid(s)
		st.F.AssumeEq(s.n.Sub(n))
		x.keysOf["arr("+key+")"] = k + ".key"
		return one(s)
	case "MapRange":
		if !x.need(st, ci, v, "Map") {
			return nil, true
		}
		p := symVal("mapiter", ci.sig.Results().At(0).Type())
		st.nonNil(p)
		x.keysOf["arr(keys("+v.key+"))"] = k + ".key"
		st.ext["mapiter.pos"] = LC(-1)
		st.ext["mapiter.map"] = v
		return one(p)
	case "MapIndex":
		if !x.need(st, ci, v, "Map") {
			return nil, true
		}
		el := x.derived(st, "MapIndex", x.elemOf(k), v, ci.args[1])
		x.addr[el.key] = -1
		return one(el)
	case "Interface":
		return one(x.iface(st, v))
	case "Int":
		if !x.need(st, ci, v, "int") {
			return nil, true
		}
		return one(x.num("Int", v, types.Typ[types.Int64]))
	case "Uint":
		if !x.need(st, ci, v, "uint") {
			return nil, true
		}
		return one(x.num("Uint", v, types.Typ[types.Uint64]))
	case "Float":
		if !x.need(st, ci, v, "float") {
			return nil, true
		}
	case "Bool":
		if !x.need(st, ci, v, "Bool") {
			return nil, true
		}
		return one(cAtom("bool:" + v.key))
	case "String":
		// String of a value that is no string does not panic but is never meant
		if !x.need(st, ci, v, "String") {
			return nil, true
		}
		s := symVal("string("+v.key+")", types.Typ[types.String]).(StrV)
		s.B.src = &TermV{key: s.B.name, op: "String", args: []Val{v}}
		return one(s)
	case "OverflowInt", "OverflowUint", "OverflowFloat":
		if !x.need(st, ci, v, map[string]string{"OverflowInt": "int", "OverflowUint": "uint", "OverflowFloat": "float"}[m]) {
			return nil, true
		}
		return one(cAtom("overflow:" + v.key + ":" + keyOf(st.F.normVal(ci.args[1]))))
	case "Convert":
		if k2, ok := x.typeKey(ci.args[1]); ok {
			if k == "string" && !st.F.EntailsEq(x.kindVal(k2).AddC(-x.kinds["String"])) {
				x.fail(st, ci, "conversion of a string to %s may panic", k2)
				return nil, true
			}
			return one(x.derived(st, "convert", k2, v))
		}
	case "NumField":
		if !x.need(st, ci, v, "Struct") {
			return nil, true
		}
	case "Field":
		if !x.need(st, ci, v, "Struct") {
			return nil, true
		}
		if typed {
			f := x.derived(st, "Field", k+".field("+keyOf(st.F.normVal(ci.args[1]))+")", v, st.F.normVal(ci.args[1]))
			x.addr[f.key] = x.addr[v.key]
			return one(f)
		}
	case "Set", "SetBool", "SetInt", "SetUint", "SetFloat", "SetString", "SetLen", "SetMapIndex", "SetBytes", "SetCap":
		names := map[string]string{"SetBool": "Bool", "SetInt": "int", "SetUint": "uint", "SetFloat": "float", "SetString": "String", "SetLen": "Slice", "SetMapIndex": "Map", "SetBytes": "Slice", "SetCap": "Slice"}
		if n := names[m]; n != "" && !x.need(st, ci, v, n) {
			return nil, true
		}
		if x.set != nil {
			x.set(e, st, ci.ins, m, v, ci.args[1:])
			return one()
		}
	}
	return one(e.termResults(st, ci)...)
}

// at names the call and what it was called from: what is made there replaces
// what was made there before.
func (x *refl) at(st *State, ci *callInfo) string {
	var b strings.Builder
	for _, fr := range st.frames {
		if fr.site != nil {
			fmt.Fprintf(&b, "%d.", fr.site.Pos())
		}
	}
	fmt.Fprintf(&b, "%d", ci.ins.Pos())
	return b.String()
}

func (x *refl) curLen(st *State, v *TermV) *Lin {
	if n, ok := st.ext["len:"+v.key].(*Lin); ok {
		return n
	}
	if n, ok := x.lens[v.key]; ok {
		return n
	}
	return x.valLen(st, v)
}

func (x *refl) curCap(st *State, v *TermV) *Lin {
	if n, ok := st.ext["cap:"+v.key].(*Lin); ok {
		return n
	}
	return x.curLen(st, v)
}

func (x *refl) num(op string, v *TermV, t types.Type) *Lin {
	lo, hi, _ := intRange(t)
	k := "range:" + op + "(" + v.key + ")"
	if l, ok := initTab[k]; ok {
		return l.(*Lin)
	}
	l := LS(newSym(op+"("+v.key+")", lo, hi))
	initTab[k] = l
	return l
}

// mapIter models iteration with MapRange: the n-th entry has the n-th key of
// MapKeys.
func (x *refl) mapIter(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	v, ok := st.ext["mapiter.map"].(*TermV)
	pos, ok2 := st.ext["mapiter.pos"].(*Lin)
	if !ok || !ok2 {
		return nil, false
	}
	key := func() Val {
		s := symVal("keys("+v.key+")", types.NewSlice(v.typ)).(*SliceV)
		return st.load(s.o, Path{{f: -1, idx: s.off.Add(pos)}}, v.typ)
	}
	switch strings.TrimPrefix(ci.name, "(*reflect.MapIter).") {
	case "Next":
		n := x.valLen(st, v)
		var outs []Outcome
		a := st.clone()
		if a.F.AssumeEq(n.Sub(pos).AddC(-1)) && a.F.Feasible() {
			outs = append(outs, Outcome{st: a, ret: []Val{cBool(false)}})
		}
		if st.F.AssumeGe(n.Sub(pos).AddC(-2)) && st.F.Feasible() {
			st.ext["mapiter.pos"] = st.F.norm(pos.AddC(1))
			outs = append(outs, Outcome{st: st, ret: []Val{cBool(true)}})
		}
		return outs, true
	case "Key":
		k := key()
		return []Outcome{{st: st, ret: []Val{k}}}, true
	case "Value":
		el := x.derived(st, "MapIndex", x.elemOf(x.vt[v.key]), v, key())
		return []Outcome{{st: st, ret: []Val{el}}}, true
	}
	return nil, false
}

// sameRV: a and b are the same reflect.Value.
func (x *refl) sameRV(st *State, a, b Val) bool {
	ta, ok := a.(*TermV)
	tb, ok2 := b.(*TermV)
	if !ok || !ok2 {
		return false
	}
	if ta.key == tb.key {
		return true
	}
	if ta.op != tb.op || ta.op == "" || len(ta.args) != len(tb.args) || len(ta.args) == 0 {
		return false
	}
	for i := range ta.args {
		if la, ok := ta.args[i].(*Lin); ok {
			lb, ok := tb.args[i].(*Lin)
			if !ok || !st.F.EntailsEq(la.Sub(lb)) {
				return false
			}
			continue
		}
		if !x.sameRV(st, ta.args[i], tb.args[i]) && !x.e.sameVal(st, ta.args[i], tb.args[i]) {
			return false
		}
	}
	return true
}

// keepSym is a symbol whose facts are never dropped.
func keepSym(name string, lo, hi int64) *Lin {
	l := symRange(name, lo, hi)
	keepVals(l)
	return l
}

var _ = big.NewInt
