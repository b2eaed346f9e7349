package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// omitRun is the analysis of the rule for omitting values of type T.
type omitRun struct {
	c      *Ctx
	e      *Engine
	x      *refl
	cons   string
	entry  *ssa.Function
	has    map[string]bool // types with a method of the name asked for
	name   StrV
	good   map[string]*Cond // the method has the right signature
	sh     *structShape
	fs     *SliceV
	subj   *TermV
	reads  int
	lookup int
}

// omitMaker: a function that makes the rule for omitting values of a type.
func omitMaker(sig *types.Signature) bool {
	p := sig.Params()
	return p.Len() == 2 && sig.Results().Len() == 1 && types.TypeString(p.At(0).Type(), nil) == "reflect.Type" && isStr(p.At(1).Type()) && ifaceTakes(sig.Results().At(0).Type(), omitSig)
}

// omitEntry is the function that makes the rules for fields: one that is used
// by others than functions of its kind.
func (c *Ctx) omitEntry() *ssa.Function {
	var out *ssa.Function
	sh := c.structShape()
	for _, fn := range c.P.allFn {
		if sh == nil || !c.P.isRepoFn(fn) || fn.Signature.Recv() != nil && !types.Identical(fn.Signature.Recv().Type(), types.NewPointer(sh.typ)) || omitMaker(fn.Signature) || sigKey(fn.Signature) == "string,->"+omiterRes(fn.Signature) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && f.Signature.Recv() == nil && omitMaker(f.Signature) {
						out = f
					}
				}
			}
		}
	}
	return out
}

// omiterRes is the name of the result if it is a rule, and "" otherwise.
func omiterRes(s *types.Signature) string {
	if s.Results().Len() == 1 && ifaceTakes(s.Results().At(0).Type(), omitSig) {
		return types.TypeString(s.Results().At(0).Type(), nil) + ","
	}
	return ""
}

func (c *Ctx) newOmit(cons string) *omitRun {
	e := newEngine(c.P)
	x := &omitRun{c: c, e: e, cons: cons, has: map[string]bool{}, good: map[string]*Cond{}, sh: c.structShape()}
	x.x = newRefl(c, e, cons)
	x.x.subjects["T"], x.x.subjects["*T"] = true, true
	x.x.set = x.setHook
	noPanic(e, cons)
	e.H.Call = x.call
	e.H.FloatCmp = func(e *Engine, st *State, op token.Token, a, b Val) *Cond {
		for i, v := range []Val{a, b} {
			w := []Val{b, a}[i]
			if t, ok := v.(*TermV); ok && isZeroFloat(w) && (op == token.EQL || op == token.NEQ) {
				return cAtom("zero:" + t.key)
			}
		}
		return nil
	}
	return x
}

func isZeroFloat(v Val) bool {
	switch k := keyOf(v); k {
	case "const:0":
		return true
	}
	return false
}

func (x *omitRun) check(good bool, st *State, ins ssa.Instruction, rule, f string, a ...interface{}) bool {
	return x.e.Check(good, st, ins, rule, x.cons, x.cons+": "+f, a...)
}

// setHook follows copies made with reflect.New.
func (x *omitRun) setHook(e *Engine, st *State, ins ssa.Instruction, m string, v *TermV, args []Val) {
	if m == "Set" && v.op == "Elem" {
		if p, ok := v.args[0].(*TermV); ok && p.op == "new" {
			if w, ok := args[0].(*TermV); ok {
				st.ext["copy:"+p.key] = w
				return
			}
		}
	}
	x.check(false, st, ins, "pure", "%s of %s", m, v.key)
}

// receiver says which value's method is called: T or *T, of the value in question.
func (x *omitRun) receiver(st *State, v *TermV) string {
	if x.x.sameRV(st, v, x.subj) {
		return "T"
	}
	switch v.op {
	case "addr":
		if x.x.sameRV(st, v.args[0], x.subj) {
			return "*T"
		}
	case "new":
		if w, ok := st.ext["copy:"+v.key].(*TermV); ok && x.x.sameRV(st, w, x.subj) {
			return "*T"
		}
	case "Elem":
		if x.x.sameRV(st, v.args[0], x.subj) {
			return "T.elem"
		}
	}
	return ""
}

// goodSig: the method of k takes nothing and returns a bool.
func (x *omitRun) goodSig(st *State, k string) (good, known bool) {
	in := int64(1)
	if x.x.isKind(k, "Interface") {
		in = 0
	}
	m := x.method(k)
	good, known = true, true
	for _, l := range []*Lin{x.sym("numin:", m).AddC(-in), x.sym("numout:", m).AddC(-1), x.x.kindVal("out:" + m).AddC(-x.x.kinds["Bool"])} {
		switch {
		case st.F.EntailsNeq(l):
			return false, true
		case !st.F.EntailsEq(l):
			known = false
		}
	}
	return good, known
}

// method names the method of the type k: pointers share those of their type.
func (x *omitRun) method(k string) string {
	switch {
	case k == "*T" && x.has["T"]:
		return "T"
	case k == "T" && x.has["T.elem"] && x.x.isKind("T", "Ptr"):
		return "T.elem"
	}
	return k
}

func (x *omitRun) sym(what, m string) *Lin { return keepSym(what+m, 0, 100) }

// sameName: the name asked for is the given one, or the default.
func (x *omitRun) sameName(st *State, v Val) bool {
	s, ok := v.(StrV)
	if !ok {
		return false
	}
	if x.e.sameVal(st, s, x.name) && st.F.Entails(x.name.length().AddC(-1)) {
		return true
	}
	return st.F.EntailsEq(x.name.length()) && x.e.strEq(st, s, strLit("Omit")) == 1
}

func (x *omitRun) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	if x.sh != nil && x.fs != nil {
		if outs, ok := x.field(e, st, ci); ok {
			return outs, true
		}
	}
	// the rule for elements
	if ci.fn != nil && ci.fn == x.entry {
		if k, ok := x.x.typeKey(ci.args[0]); ok && k != "T" {
			s, isS := ci.args[1].(StrV)
			x.check(isS && (x.e.sameVal(st, s, x.name) || x.sameName(st, s)), st, ci.ins, "name", "the rule for elements of %s uses the method %s", k, keyOf(ci.args[1]))
			st.F.atoms["nil:rule:"+k] = false
			return one(&IfaceV{key: "rule:" + k})
		}
	}
	if ci.iface != nil && ci.fn == nil && sigKey(ci.sig) == omitSig {
		iv, ok := ci.args[0].(*IfaceV)
		el, ok2 := ci.args[1].(*TermV)
		if ok && ok2 && iv.key == "rule:T.elem" {
			m, _ := st.mon.(*RefMon)
			good := m != nil && m.ctl == "next" && el.op == "Index" && x.x.sameRV(st, el.args[0], x.subj)
			if good {
				i, ok := el.args[1].(*Lin)
				good = ok && st.F.EntailsEq(i.Sub(m.r[0]))
			}
			if !x.check(good, st, ci.ins, "elements", "%s is asked for where %s is next", el.key, keyOf(m)) {
				return one(cAtom("?"))
			}
			no := st.clone()
			no.mon = m.to("keep", m.r[0])
			st.mon = m.to("next", st.F.norm(m.r[0].AddC(1)))
			return []Outcome{{st: st, ret: []Val{cBool(true)}}, {st: no, ret: []Val{cBool(false)}}}, true
		}
	}
	if ci.iface != nil && types.TypeString(ci.iface, nil) == "reflect.Type" {
		k, ok := x.x.typeKey(ci.args[0])
		if !ok {
			return nil, false
		}
		if m := strings.TrimPrefix(k, "method:"); m != k {
			return x.methodType(st, ci, x.method(m))
		}
		if ci.method == "MethodByName" {
			if !x.check(x.sameName(st, ci.args[1]), st, ci.ins, "name", "the method %s is looked for", keyOf(ci.args[1])) {
				return one(e.termResults(st, ci)...)
			}
			x.lookup++
			if !x.has[k] {
				// the zero Method: its parts are not to be used
				return one(symVal("nomethod", ci.sig.Results().At(0).Type()), cBool(false))
			}
			s := ci.sig.Results().At(0).Type().Underlying().(*types.Struct)
			ms := &StructV{f: make([]Val, s.NumFields())}
			for i := 0; i < s.NumFields(); i++ {
				ms.f[i] = symVal("method("+k+")."+s.Field(i).Name(), s.Field(i).Type())
				switch s.Field(i).Name() {
				case "Type":
					ms.f[i] = x.x.rtype(st, "method:"+k)
				case "Func":
					ms.f[i] = x.x.val("func:"+k, "method:"+k, "func")
					if x.x.isKind(k, "Interface") {
						ms.f[i] = x.x.val("invalid", "", "zero")
					}
				case "Index":
					ms.f[i] = keepSym("methodix:"+k, 0, 1<<20)
				}
			}
			return one(ms, cBool(true))
		}
	}
	if m := strings.TrimPrefix(ci.name, "(reflect.Value)."); m != ci.name {
		v, ok := ci.args[0].(*TermV)
		if !ok {
			return nil, false
		}
		switch m {
		case "Method", "MethodByName":
			k := x.receiver(st, v)
			if !x.check(k != "" && x.has[k], st, ci.ins, "method", "a method of %s is called", v.key) {
				return one(e.termResults(st, ci)...)
			}
			if m == "Method" {
				i, _ := ci.args[1].(*Lin)
				x.check(i != nil && st.F.EntailsEq(i.Sub(keepSym("methodix:"+k, 0, 1<<20))), st, ci.ins, "method", "method %s of %s is called", keyOf(ci.args[1]), v.key)
			} else {
				x.check(x.sameName(st, ci.args[1]), st, ci.ins, "method", "method %s of %s is called", keyOf(ci.args[1]), v.key)
			}
			if x.x.isKind(k, "Ptr", "Interface") {
				nb, known := st.F.atoms["isnil:"+v.key]
				x.check(known && !nb, st, ci.ins, "nil", "the method of %s, which may be nil, is called", v.key)
			}
			return one(mkTerm("bound", v.typ, v, x.x.rtype(st, k)))
		case "Call":
			if v.op != "bound" {
				break
			}
			k, _ := x.x.typeKey(v.args[1])
			sl, _ := ci.args[1].(*SliceV)
			good, known := x.goodSig(st, k)
			x.check(known && good && sl != nil && (sl.isNil || st.F.EntailsEq(sl.n)), st, ci.ins, "method", "the method of %s is called with %s", k, keyOf(ci.args[1]))
			x.check(st.ext["answer"] == nil, st, ci.ins, "method", "the method is called twice")
			var outs []Outcome
			for i := int64(0); i < 2; i++ {
				s := st.clone()
				s.ext["answer"] = LC(i)
				r := symVal("results", ci.sig.Results().At(0).Type()).(*SliceV)
				s.assumeValid(r)
				s.F.AssumeEq(r.n.AddC(-1))
				a := x.x.val("answer", "bool", "answer")
				x.x.kind["bool"] = x.x.kinds["Bool"]
				s.store(r.o, Path{{f: -1, idx: s.F.norm(r.off)}}, v.typ, a)
				s.F.atoms["bool:answer"] = i == 1
				outs = append(outs, Outcome{st: s, ret: []Val{r}})
			}
			return outs, true
		}
	}
	return x.x.call(e, st, ci)
}

// methodType models the type of a method of type k.
func (x *omitRun) methodType(st *State, ci *callInfo, k string) ([]Outcome, bool) {
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	switch ci.method {
	case "NumIn":
		return one(keepSym("numin:"+k, 0, 100))
	case "NumOut":
		return one(keepSym("numout:"+k, 0, 100))
	case "Out", "In":
		i, _ := ci.args[1].(*Lin)
		n := keepSym(map[string]string{"Out": "numout:", "In": "numin:"}[ci.method]+k, 0, 100)
		if !x.check(i != nil && st.F.Entails(i) && st.F.Entails(n.Sub(i).AddC(-1)), st, ci.ins, "reflect", "%s(%s) of a method's type may panic", ci.method, keyOf(ci.args[1])) {
			return nil, true
		}
		if ci.method == "Out" && st.F.EntailsEq(i) {
			return one(x.x.rtype(st, "out:"+k))
		}
	case "Kind":
		return one(LC(x.x.kinds["Func"]))
	}
	return one(x.e.termResults(st, ci)...)
}

// field models the access to fields of a struct and their rules, in order.
func (x *omitRun) field(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	r := &encRun{c: x.c, e: x.e, x: x.x, cons: x.cons, sc: x.sh, fs: x.fs, subj: x.subj}
	m := r.mon(st)
	if m == nil {
		return nil, false
	}
	return r.field(e, st, ci)
}

// expected says whether the value is to be omitted: 1 yes, -1 no, 0 unknown.
func (x *omitRun) expected(st *State, kind string) int {
	b := func(v, known bool) int {
		switch {
		case !known:
			return 0
		case v:
			return 1
		}
		return -1
	}
	nilness := func(k string) int {
		v, ok := st.F.atoms["isnil:"+k]
		return b(v, ok)
	}
	for _, k := range []string{"T", "T.elem", "*T"} {
		if !x.has[k] || k == "T.elem" && kind != "Ptr" {
			continue
		}
		good, known := x.goodSig(st, k)
		if !known {
			return 0
		}
		if !good {
			continue
		}
		if kind == "Ptr" || kind == "Interface" {
			if n := nilness(x.subj.key); n != -1 {
				return n
			}
		}
		if k == "T.elem" && x.x.isKind(k, "Ptr", "Interface") {
			if n := nilness("Elem(" + x.subj.key + ")"); n != -1 {
				return n
			}
		}
		a, ok := st.ext["answer"].(*Lin)
		if !ok {
			return 0
		}
		return b(st.F.EntailsEq(a.AddC(-1)), true)
	}
	if st.ext["answer"] != nil {
		return 0
	}
	zero := func(l *Lin) int {
		switch {
		case st.F.EntailsEq(l):
			return 1
		case st.F.EntailsNeq(l):
			return -1
		}
		return 0
	}
	v := x.subj
	switch {
	case kind == "Ptr" || kind == "Interface":
		return nilness(v.key)
	case kind == "Slice" || kind == "Map" || kind == "String":
		return zero(x.x.valLen(st, v))
	case kind == "Array" || x.fs != nil:
		st.mon.Sync(x.e, st)
		m, _ := st.mon.(*RefMon)
		if m == nil || m.ctl == "keep" {
			return -1
		}
		n := x.x.lenOf("T")
		if x.fs != nil {
			n = x.fs.n
		}
		if m.ctl == "next" && st.F.EntailsEq(n.Sub(m.r[0])) {
			return 1
		}
		return 0
	case kind == "Bool":
		val, ok := st.F.atoms["bool:"+v.key]
		return b(!val, ok)
	case x.x.isKindName(kind, "int"):
		return zero(x.x.num("Int", v, types.Typ[types.Int64]))
	case kind != "Uintptr" && x.x.isKindName(kind, "uint"):
		return zero(x.x.num("Uint", v, types.Typ[types.Uint64]))
	case x.x.isKindName(kind, "float"):
		for k, val := range st.F.atoms {
			if strings.HasPrefix(k, "zero:") && strings.Contains(k, "Float("+v.key+")") {
				return b(val, true)
			}
		}
		return 0
	}
	return -1
}

// verify runs the rule iv on a value and compares its answer.
func (x *omitRun) verify(st *State, iv *IfaceV, kind string, ins ssa.Instruction) int {
	m := x.c.P.methodOf(iv.t, omitSig)
	if !x.check(m != nil, st, ins, "rule", "%s is no rule", iv.t) {
		return 0
	}
	x.c.saw(m)
	n := 0
	for _, r := range x.e.Run(st, m, []Val{iv.v, x.subj}, nil, nil) {
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		yes, no := x.e.boolStates(r.st, r.ret[0])
		for i, s := range append(append([]*State(nil), yes...), no...) {
			if !s.F.Feasible() {
				continue
			}
			if i < len(yes) {
				i = 0
			} else {
				i = 1
			}
			n++
			want := x.expected(s, kind)
			got := []int{1, -1}[i]
			word := map[int]string{1: "omitted", -1: "kept", 0: "undecided"}
			x.check(want == got, s, r.site, "omit", "the value is %s where it is to be %s", word[got], word[want])
		}
	}
	return n
}

// omitCase is the rule for types of one kind, with methods of the name on some types.
func (c *Ctx) omitCase(entry *ssa.Function, kind, elem string, has []string, addr int) {
	cons := "omitempty for " + kind
	if elem != "" {
		cons += " of " + elem
	}
	if len(has) > 0 {
		cons += ", method of " + strings.Join(has, " and ")
	}
	if addr < 0 {
		cons += ", not addressable"
	}
	x := c.newOmit(cons)
	x.entry = entry
	x.x.kind["T"] = x.x.kinds[kind]
	if elem != "" {
		x.x.kind["T.elem"] = x.x.kinds[elem]
	}
	for _, h := range has {
		x.has[h] = true
		x.x.kind["method:"+h] = x.x.kinds["Func"]
	}
	st := newState()
	distinct(st, "T", "*T", "T.elem")
	x.name, _ = symVal("method", types.Typ[types.String]).(StrV)
	keepVals(x.name.length())
	good := 0
	for _, o := range x.e.Run(st, entry, []Val{x.x.rtype(st, "T"), x.name}, nil, nil) {
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		iv, ok := o.ret[0].(*IfaceV)
		if !x.check(ok && !iv.isNil && iv.t != nil, o.st, o.site, "rule", "there is no rule: %s", keyOf(o.ret[0])) {
			continue
		}
		x.subj = x.x.val("v", "T", "")
		x.x.addr["v"] = addr
		s := o.st.clone()
		s.mon = &RefMon{ctl: "next", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon { return nil }}
		good += x.verify(s, iv, kind, o.site)
	}
	x.e.Check(good > 0, nil, nil, "returns", cons, "%s never answers", cons)
	c.Merge(x.e)
}

// omitStruct is the rule of the codec of structs.
func (c *Ctx) omitStruct(has []string) {
	sh := c.structShape()
	if !c.Anchor(sh != nil, "the codec of structs") {
		return
	}
	var fn *ssa.Function
	ms := c.P.prog.MethodSets.MethodSet(types.NewPointer(sh.typ))
	for i := 0; i < ms.Len(); i++ {
		s, ok := ms.At(i).Type().(*types.Signature)
		if ok && omiterRes(s) != "" && sigKey(s) == "string,->"+omiterRes(s) {
			fn = c.P.prog.MethodValue(ms.At(i))
		}
	}
	if !c.Anchor(fn != nil, "the method of struct codecs that makes their rule") {
		return
	}
	c.saw(fn)
	for _, addr := range []int{1, -1} {
		cons := "omitempty for structs with fields"
		if len(has) > 0 {
			cons += ", method of " + strings.Join(has, " and ")
		}
		if addr < 0 {
			cons += ", not addressable"
		}
		x := c.newOmit(cons)
		x.x.kind["T"] = x.x.kinds["Struct"]
		for _, h := range has {
			x.has[h] = true
			x.x.kind["method:"+h] = x.x.kinds["Func"]
		}
		st := newState()
		distinct(st, "T", "*T", "T.elem")
		x.name, _ = symVal("method", types.Typ[types.String]).(StrV)
		keepVals(x.name.length())
		o := newObj("codec", sh.typ)
		o.name = "codec"
		p := &PtrV{o: o}
		x.fs, _ = st.load(o, fpath(sh.fields), fieldTyp(sh.typ, sh.fields)).(*SliceV)
		st.assumeValid(x.fs)
		keepVals(x.fs.n, x.fs.off)
		s := sh.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			switch t := s.Field(i).Type(); {
			case isReflectValue(t):
				st.store(o, fpath(i), t, x.x.val("zero:T", "T", "zero"))
			case types.TypeString(t, nil) == "reflect.Type":
				st.store(o, fpath(i), t, x.x.rtype(st, "T"))
			}
		}
		nilDer := x.e.H.NilDer
		x.e.H.NilDer = func(e *Engine, st *State, ins ssa.Instruction, v Val) {
			if iv, ok := v.(*IfaceV); ok && strings.HasPrefix(iv.key, "arr(codec.") {
				return // the fields of a codec are complete
			}
			nilDer(e, st, ins, v)
		}
		good := 0
		for _, o := range x.e.Run(st, fn, []Val{p, x.name}, nil, nil) {
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			iv, ok := o.ret[0].(*IfaceV)
			if !x.check(ok && !iv.isNil && iv.t != nil, o.st, o.site, "rule", "there is no rule: %s", keyOf(o.ret[0])) {
				continue
			}
			x.subj = x.x.val("v", "T", "")
			x.x.addr["v"] = addr
			s := o.st.clone()
			s.mon = &RefMon{ctl: "next", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon { return nil }}
			good += x.verify(s, iv, "Struct", o.site)
		}
		x.e.Check(good > 0, nil, nil, "returns", cons, "%s never answers", cons)
		c.Merge(x.e)
	}
}

func init() {
	register(&Prop{
		ID:      "C29",
		Rule:    "For every kind of type, with and without a method of the name asked for on the type, the pointer to it or its element, the function that makes the rule for omitempty is interpreted abstractly on a type of which only these are known, and the rule it returns on any value of the type, addressable or not. On every path the answer must be the one prescribed for the facts of the path: the method's result if it takes nothing and returns a bool (nil pointers and interfaces being empty without a call), and otherwise nil, length zero, zero, false, all elements empty, or all fields left out. Methods are only called on the value, its address, or the address of a copy, and no reflect operation can panic.",
		Explain: "Path-sensitive abstract interpretation of rule construction followed by the rule's evaluation against a case table; induction for elements and fields.",
		Assume:  []string{"reflect behaves as documented (model in prop_refl.go)", "the rule for elements is the one for their type (induction)", "Omit methods do not change the value"},
		Run: func(c *Ctx) {
			entry := c.omitEntry()
			if !c.Anchor(entry != nil, "the function that makes the rule for omitempty") {
				return
			}
			c.saw(entry)
			kinds := append([]string{"Struct", "Chan", "Func", "Complex64", "Complex128", "UnsafePointer"}, encKinds...)
			for _, k := range kinds {
				if k == "Ptr" {
					for _, el := range []string{"Int", "Struct", "Ptr", "Interface"} {
						for _, has := range [][]string{nil, {"T"}, {"T", "T.elem"}, {"T.elem"}} {
							if (el == "Ptr" || el == "Interface") && len(has) > 0 && has[0] == "T" || el != "Ptr" && el != "Interface" && len(has) == 1 && has[0] == "T.elem" {
								continue // such method sets do not exist
							}
							c.omitCase(entry, k, el, has, 1)
						}
					}
					continue
				}
				c.omitCase(entry, k, "", nil, 1)
				if k == "Interface" {
					c.omitCase(entry, k, "", []string{"T"}, 1)
					continue
				}
				c.omitCase(entry, k, "", []string{"T", "*T"}, 1)
				c.omitCase(entry, k, "", []string{"*T"}, 1)
				c.omitCase(entry, k, "", []string{"*T"}, -1)
			}
			c.omitStruct(nil)
			c.omitStruct([]string{"T", "*T"})
			c.omitStruct([]string{"*T"})
			c.count["kinds"] = len(kinds)
		},
	})
}
