package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldsRun is the analysis of how the codec of a struct type is made: which
// of its fields it has, under which keys.
type fieldsRun struct {
	c                *Ctx
	e                *Engine
	x                *refl
	cons             string
	sh               *structShape
	merge            *ssa.Function // adds the fields of a type to a codec
	omit             *ssa.Function // makes the rule for omitting values
	codec            *Obj
	opt              *PtrV
	codecs           Val
	idx              *Obj // the buffer for index paths
	depth            *Lin
	n                *Lin
	init             *State
	pool             []*SliceV
	parT             *Obj
	bad              int
	stopped, running bool
	never            map[types.Type]bool
	par              *SliceV
	cmp              map[*ssa.Function]bool
	get              map[*ssa.Function]bool
}

const cmpSig = "[]int,[]int,->int,"

func hasParam(sig *types.Signature, is func(types.Type) bool) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if is(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func isRType(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Type" }
func isInts(t types.Type) bool  { return types.Identical(t, types.NewSlice(types.Typ[types.Int])) }

// takesCodec: the function has a codec of structs as receiver or argument.
func takesCodec(fn *ssa.Function, sh *structShape) bool {
	for _, p := range fn.Params {
		if types.Identical(p.Type(), types.NewPointer(sh.typ)) {
			return true
		}
	}
	return false
}

// mergeFn is the function that adds the fields of a type, and of those it
// embeds, to a codec.
func (c *Ctx) mergeFn(sh *structShape) *ssa.Function {
	for _, fn := range c.P.allFn {
		s := fn.Signature
		if c.P.isRepoFn(fn) && takesCodec(fn, sh) && hasParam(s, isRType) && hasParam(s, isInts) && s.Results().Len() == 1 && s.Results().At(0).Type().String() == "error" {
			return fn
		}
	}
	return nil
}

// makeFn is the function that makes the codec of a type.
func (c *Ctx) makeFn(sh *structShape) *ssa.Function {
	for _, fn := range c.P.allFn {
		s := fn.Signature
		if c.P.isRepoFn(fn) && s.Recv() == nil && hasParam(s, isRType) && s.Results().Len() == 2 && types.Identical(s.Results().At(0).Type(), types.NewPointer(sh.typ)) {
			return fn
		}
	}
	return nil
}

func (c *Ctx) newFields(cons string, sh *structShape) *fieldsRun {
	e := newEngine(c.P)
	x := &fieldsRun{c: c, e: e, cons: cons, sh: sh, never: map[types.Type]bool{}, cmp: map[*ssa.Function]bool{}, get: map[*ssa.Function]bool{}}
	x.x = newRefl(c, e, cons)
	x.x.subjects["T"] = true
	x.x.kind["T"] = x.x.kinds["Struct"]
	x.x.fleet = func(k string) bool { return strings.HasPrefix(k, "T.field(") }
	noPanic(e, cons)
	e.widenDbg = os.Getenv("NJ_WIDEN") != ""
	e.H.Call = x.call
	e.H.Append = x.append
	e.H.Store = x.store
	nilDer := e.H.NilDer
	e.H.NilDer = func(e *Engine, st *State, ins ssa.Instruction, v Val) {
		if iv, ok := v.(*IfaceV); ok && (strings.HasPrefix(iv.key, "enc:") || strings.HasPrefix(iv.key, "rtype:")) {
			return
		}
		nilDer(e, st, ins, v)
	}
	return x
}

func (x *fieldsRun) check(good bool, st *State, ins ssa.Instruction, rule, f string, a ...interface{}) bool {
	ok := x.e.Check(good, st, ins, rule, x.cons, x.cons+": "+f, a...)
	if !ok {
		if x.bad++; x.bad > 2 && x.running {
			panic(enough{})
		}
	}
	return ok
}

// enough: enough has been found to stop the analysis.
type enough struct{}

func (x *fieldsRun) run(st *State, fn *ssa.Function, args []Val) (outs []Outcome) {
	x.running = true
	defer func() {
		x.running = false
		if r := recover(); r != nil {
			if _, ok := r.(enough); !ok {
				panic(r)
			}
			x.stopped = true
		}
	}()
	return x.e.Run(st, fn, args, nil, nil)
}

func (x *fieldsRun) mon(st *State) *RefMon {
	st.mon.Sync(x.e, st)
	return st.mon.(*RefMon)
}

func (x *fieldsRun) ftype(st *State, k *Lin) string { return "T.field(" + st.F.norm(k).Key() + ")" }

// tag is the key of the field at hand.
func (x *fieldsRun) tag(st *State) (StrV, bool) {
	s, ok := st.ext["tag"].(StrV)
	return s, ok
}

// dash: the key of the field at hand is "-", that is, the field is excluded.
func (x *fieldsRun) dash(st *State) int {
	t, ok := x.tag(st)
	if !ok {
		return 0
	}
	yes, no := x.e.boolStates(st, x.e.compare(st, tokEQL, t, strLit("-"), strT, strT))
	switch {
	case len(no) == 0:
		return 1
	case len(yes) == 0:
		return -1
	}
	return 0
}

// isTag: v is the key of the field at hand.
func (x *fieldsRun) isTag(st *State, v Val) bool {
	t, ok := x.tag(st)
	return ok && x.e.sameVal(st, v, t)
}

// fieldExt is what is known about the field at hand.
var fieldExt = []string{"kind", "kind.elem", "tag", "found", "cmp", "hints", "adding"}

// forget drops what is known about field k.
func (x *fieldsRun) forget(st *State, k *Lin) {
	for _, k := range fieldExt {
		delete(st.ext, k)
	}
	t := x.ftype(st, k)
	for a := range st.F.atoms {
		if strings.HasSuffix(a, ":"+t) || strings.Contains(a, ":"+t+".") || strings.Contains(a, ":"+t+":") || strings.HasPrefix(a, "streq:tag(") {
			delete(st.F.atoms, a)
		}
	}
}

// anyFields gives the codec any fields.
func (x *fieldsRun) anyFields(st *State) {
	t := fieldTyp(x.sh.typ, x.sh.fields)
	st.store(x.codec, fpath(x.sh.fields), t, zeroVal(t))
	var roots []Val
	syms := map[*Sym]bool{}
	add := func(l *Lin) {
		if l != nil {
			for _, t := range l.t {
				syms[t.s] = true
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			roots = append(roots, v)
			linsIn(v, add)
		}
	}
	for _, v := range st.ext {
		roots = append(roots, v)
		linsIn(v, add)
	}
	for _, os := range st.heap {
		for _, c := range os.cells {
			linsIn(c.v, add)
		}
	}
	live := st.reach(roots)
	st.project()
	for _, l := range st.F.lin {
		add(l)
	}
	for _, l := range st.F.neq {
		add(l)
	}
	for s, l := range st.F.sub {
		add(LS(s))
		add(l)
	}
	for i := 0; ; i++ {
		if i == len(x.pool) {
			x.pool = append(x.pool, symVal(fmt.Sprintf("fields%d", i), t).(*SliceV))
		}
		v := x.pool[i]
		used := live[v.o]
		if !used {
			delete(st.heap, v.o)
		}
		linsIn(v, func(l *Lin) {
			for _, t := range l.t {
				used = used || syms[t.s]
			}
		})
		if !used {
			st.assumeValid(v)
			st.store(x.codec, fpath(x.sh.fields), t, v)
			return
		}
	}
}

// step settles fields that have no codec of their own.
func (x *fieldsRun) step(e *Engine, st *State, m *RefMon) *RefMon {
	if m.ctl == "again" {
		return nil
	}
	k := m.r[0]
	if m.ctl == "scan" {
		// a type that is being merged already is not merged into itself
		if x.par == nil || x.par.isNil || st.F.Entails(k.Sub(x.par.n)) {
			return m.to("next", LC(0))
		}
		if !st.F.Entails(x.par.n.Sub(k).AddC(-1)) {
			return nil
		}
		t := x.par.o.typ
		p := st.load(x.par.o, Path{{f: -1, idx: st.F.norm(x.par.off.Add(k))}}, t)
		switch b, known := st.knownCond(e.compare(st, tokEQL, p, x.x.rtype(st, "T"), t, t)); {
		case known && b:
			return m.to("again", LC(0))
		case known:
			return m.to("scan", st.F.norm(k.AddC(1)))
		}
		return nil
	}
	if m.ctl == "added" {
		x.forget(st, k)
		x.anyFields(st)
		return m.to("next", st.F.norm(k.AddC(1)))
	}
	if m.ctl != "field" {
		return nil
	}
	skip := x.shadowed(st) == 1
	if x.dash(st) == 1 {
		skip = true
	}
	if skip {
		x.forget(st, k)
		return m.to("next", st.F.norm(k.AddC(1)))
	}
	return nil
}

// at: v is the index k.
func (x *fieldsRun) at(st *State, v Val, k *Lin) bool {
	l, ok := v.(*Lin)
	return ok && st.F.EntailsEq(l.Sub(k))
}

// path: s is the index path of what is embedded here followed by tail.
func (x *fieldsRun) path(st *State, s *SliceV, tail ...*Lin) bool {
	if s == nil || s.isNil || !st.F.EntailsEq(s.n.Sub(x.depth).AddC(-int64(len(tail)))) {
		return false
	}
	it := types.Typ[types.Int]
	for i, t := range tail {
		l, ok := st.load(s.o, Path{{f: -1, idx: st.F.norm(s.off.Add(x.depth).AddC(int64(i)))}}, it).(*Lin)
		if !ok || !st.F.EntailsEq(l.Sub(t)) {
			return false
		}
	}
	if st.F.EntailsEq(x.depth) {
		return true
	}
	j := symRange("anyindex", 0, 1<<40)
	t := st.clone()
	if !t.F.AssumeGe(x.depth.Sub(j).AddC(-1)) {
		return true
	}
	a, ok := t.load(s.o, Path{{f: -1, idx: t.F.norm(s.off.Add(j))}}, it).(*Lin)
	b, ok2 := x.init.load(x.idx, Path{{f: -1, idx: j}}, it).(*Lin)
	return ok && ok2 && t.F.EntailsEq(a.Sub(b))
}

func (x *fieldsRun) fields(st *State) *SliceV {
	s, _ := st.load(x.codec, fpath(x.sh.fields), fieldTyp(x.sh.typ, x.sh.fields)).(*SliceV)
	return s
}

// embedded says whether field k is an embedded struct without a tag: 1 yes, -1
// no, 0 unknown; ptr tells whether by pointer.
func (x *fieldsRun) embedded(st *State, k *Lin) (how int, ptr bool) {
	t := x.ftype(st, k)
	tagged, known := st.F.atoms["tagged:"+t]
	if known && tagged {
		return -1, false
	}
	anon, known2 := st.F.atoms["anonymous:"+t]
	if known2 && !anon {
		return -1, false
	}
	is := func(t, kind string) int {
		l := x.x.kindVal(t).AddC(-x.x.kinds[kind])
		switch {
		case st.F.EntailsEq(l):
			return 1
		case st.F.EntailsNeq(l):
			return -1
		}
		return 0
	}
	p := is(t, "Ptr")
	how = is(t, "Struct")
	if p == 1 {
		how = is(x.x.elemOf(t), "Struct")
	} else if p == 0 && how == -1 {
		how = 0
		if is(x.x.elemOf(t), "Struct") == -1 {
			how = -1
		}
	}
	if how == 1 && !(known && known2) {
		how = 0
	}
	return how, p == 1
}

func (x *fieldsRun) omitBit() int64 {
	sc := x.c.P.pkg("unjson").Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && hintTyp(k.Type()) && strings.HasSuffix(strings.ToLower(n), "omitempty") {
			v, _ := constToInt(k)
			return v
		}
	}
	return 0
}

// isOmitMaker: a method that makes a rule, given the name of the method.
func isOmitMethod(s *types.Signature) bool {
	return omiterRes(s) != "" && sigKey(s) == "string,->"+omiterRes(s)
}

func (x *fieldsRun) methodName(st *State, v Val) bool {
	t := x.c.P.typ("unjson", "Options")
	o, _ := st.load(x.opt.o, nil, t).(*StructV)
	return o != nil && x.e.sameVal(st, v, o.f[fieldIx(t, "OmitMethod")])
}

func (x *fieldsRun) sameOpt(st *State, ci *callInfo) bool {
	t := x.c.P.typ("unjson", "Options")
	for i, a := range ci.args {
		if p, ok := a.(*PtrV); ok && p.o == x.opt.o && len(p.p) == 0 {
			return true
		}
		_ = i
	}
	return t == nil
}

func (x *fieldsRun) sameCache(ci *callInfo) bool {
	for _, a := range ci.args {
		if keyOf(a) == keyOf(x.codecs) {
			return true
		}
	}
	return false
}

func (x *fieldsRun) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	one := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: vs}}, true }
	res := ci.sig.Results()
	if ci.iface != nil && isRType(ci.iface) {
		k, ok := x.x.typeKey(ci.args[0])
		switch {
		case !ok:
			return nil, false
		case ci.method == "NumField" && (k == "T" || k == x.x.elemOf("T")):
			x.check(st.F.EntailsEq(x.x.kindVal(k).AddC(-x.x.kinds["Struct"])), st, ci.ins, "reflect", "NumField of what may be no struct may panic")
			return one(x.n)
		case ci.method == "Field" && k == "T":
			return x.typeField(st, ci)
		case ci.method == "Elem" && strings.HasPrefix(k, "T.field("):
			x.check(st.F.EntailsEq(x.x.kindVal(k).AddC(-x.x.kinds["Ptr"])), st, ci.ins, "reflect", "Elem of the type of a field that may be no pointer may panic")
		}
		return x.x.call(e, st, ci)
	}
	if m := strings.TrimPrefix(ci.name, "(reflect.Value)."); m != ci.name {
		v, ok := ci.args[0].(*TermV)
		if !ok {
			return nil, false
		}
		switch {
		case m == "NumField" && x.x.vt[v.key] == "T":
			return one(x.n)
		case m == "Field" && x.x.vt[v.key] == "T":
			i, ok := ci.args[1].(*Lin)
			if !x.check(ok && st.F.Entails(i) && st.F.Entails(x.n.Sub(i).AddC(-1)), st, ci.ins, "reflect", "Field(%s) may panic", keyOf(ci.args[1])) {
				return nil, true
			}
		case (m == "CanSet" || m == "CanInterface") && v.op == "Field":
			mn := x.mon(st)
			k := mn.r[0]
			if !x.check(mn.ctl == "next" && x.at(st, v.args[1], k), st, ci.ins, "field", "%s is asked for where field %s is next (%s)", v.key, k.Key(), mn.ctl) {
				return one(cAtom("?"))
			}
			no := st.clone()
			no.mon = mn.to("next", no.F.norm(k.AddC(1)))
			st.mon = mn.to("field", k)
			return []Outcome{{st: st, ret: []Val{cBool(true)}}, {st: no, ret: []Val{cBool(false)}}}, true
		}
		return x.x.call(e, st, ci)
	}
	if ci.iface != nil && ci.fn == nil && isOmitMethod(ci.sig) {
		iv, ok := ci.args[0].(*IfaceV)
		if ok && strings.HasPrefix(iv.key, "enc:") {
			x.check(x.methodName(st, ci.args[1]), st, ci.ins, "omit-name", "the rule for omitting uses the method %s", keyOf(ci.args[1]))
			k := "rule:" + iv.key
			st.F.atoms["nil:"+k] = false
			return one(&IfaceV{key: k})
		}
	}
	if ci.fn == nil || !x.c.P.isRepoFn(ci.fn) {
		return x.x.call(e, st, ci)
	}
	switch {
	case ci.fn == x.omit:
		k, ok := x.x.typeKey(ci.args[0])
		x.check(ok && x.methodName(st, ci.args[1]), st, ci.ins, "omit-name", "the rule for omitting uses the method %s", keyOf(ci.args[1]))
		st.F.atoms["nil:rule:"+k] = false
		return one(&IfaceV{key: "rule:" + k})
	case ci.fn == x.merge && e.depth(st, ci.fn) > 0:
		return x.recurse(st, ci)
	case hasParam(ci.fn.Signature, func(t types.Type) bool { return types.TypeString(t, nil) == "reflect.StructField" }) && res.Len() == 3:
		return x.parsed(st, ci)
	case sigKey(ci.sig) == cmpSig:
		return x.compared(st, ci)
	case takesCodec(ci.fn, x.sh) && res.Len() == 1 && types.Identical(res.At(0).Type(), types.NewPointer(x.sh.ft)):
		return x.lookup(st, ci)
	case res.Len() == 2 && res.At(1).Type().String() == "error" && (ifaceTakes(res.At(0).Type(), encSig) || ifaceTakes(res.At(0).Type(), decSig)):
		// the encoder or decoder of a field's type
		mn := x.mon(st)
		what := "enc:"
		if ifaceTakes(res.At(0).Type(), decSig) {
			what = "dec:"
		}
		k := ""
		for _, a := range ci.args {
			if t, ok := x.x.typeKey(a); ok {
				k = t
			}
			if h, ok := a.(*Lin); ok && what == "enc:" {
				hk, _ := st.ext["hints"].(*Lin)
				x.check(hk != nil && st.F.EntailsEq(h.Sub(hk)), st, ci.ins, "hints", "the encoder of a field is made with the hints %s instead of %s", keyOf(h), keyOf(hk))
			}
		}
		x.check(mn.ctl == "field" && k == x.ftype(st, mn.r[0]) && x.sameOpt(st, ci) && x.sameCache(ci), st, ci.ins, "coder", "the %s of %s is made where field %s is next (%s)", what, k, mn.r[0].Key(), mn.ctl)
		bad := st.clone()
		bad.ext["nested.err"] = LC(1)
		iv := &IfaceV{key: what + k}
		st.F.atoms["nil:"+iv.key] = false
		return []Outcome{{st: st, ret: []Val{iv, &IfaceV{isNil: true}}}, {st: bad, ret: []Val{zeroVal(res.At(0).Type()), someErr(bad, "nested.err")}}}, true
	}
	return x.x.call(e, st, ci)
}

// typeField models T.Field(i).
func (x *fieldsRun) typeField(st *State, ci *callInfo) ([]Outcome, bool) {
	i, ok := ci.args[1].(*Lin)
	if !x.check(ok && st.F.Entails(i) && st.F.Entails(x.n.Sub(i).AddC(-1)), st, ci.ins, "reflect", "Field(%s) may panic", keyOf(ci.args[1])) {
		return nil, true
	}
	i = st.F.norm(i)
	rt := ci.sig.Results().At(0).Type()
	s := rt.Underlying().(*types.Struct)
	k := x.ftype(st, i)
	v := &StructV{f: make([]Val, s.NumFields())}
	for j := 0; j < s.NumFields(); j++ {
		t := s.Field(j).Type()
		switch n := s.Field(j).Name(); n {
		case "Type":
			v.f[j] = x.x.rtype(st, k)
			st.ext["kind"], st.ext["kind.elem"] = x.x.kindVal(k), x.x.kindVal(x.x.elemOf(k))
		case "Anonymous":
			v.f[j] = cAtom("anonymous:" + k)
		case "Index":
			o := newObj("fieldindex", types.Typ[types.Int])
			o.region, o.fresh = true, true
			st.store(o, Path{{f: -1, idx: LC(0)}}, types.Typ[types.Int], i)
			v.f[j] = &SliceV{o: o, off: LC(0), n: LC(1), cap: LC(1)}
		default:
			v.f[j] = symVal(k+"."+n, t)
		}
	}
	return []Outcome{{st: st, ret: []Val{v}}}, true
}

// parsed models the reading of the tag of a field (property C30).
func (x *fieldsRun) parsed(st *State, ci *callInfo) ([]Outcome, bool) {
	m := x.mon(st)
	k := m.r[0]
	ok := false
	for _, a := range ci.args {
		if v, is := a.(*StructV); is {
			for _, f := range v.f {
				if t, isT := x.x.typeKey(f); isT {
					ok = t == x.ftype(st, k)
				}
			}
		}
	}
	x.check(ok && m.ctl == "field" && x.sameOpt(st, ci), st, ci.ins, "tag", "the tag of %s is read where field %s is next (%s)", keyOf(&TupleV{ci.args}), k.Key(), m.ctl)
	tagged := cAtom("tagged:" + x.ftype(st, k))
	dash := st.clone()
	dash.ext["tag"], dash.ext["hints"] = strLit("-"), LC(255)
	outs := []Outcome{{st: dash, ret: []Val{strLit("-"), LC(255), tagged}}}
	tag := symVal("tag("+st.F.norm(k).Key()+")", types.Typ[types.String])
	st.assumeValid(tag)
	st.ext["tag"] = tag
	key := "streq:" + keyOf(tag) + "=\"-\""
	_, others := x.e.boolStates(st, x.e.compare(st, tokEQL, tag, strLit("-"), strT, strT))
	for _, o := range others {
		if s := tag.(StrV); o.F.EntailsEq(s.length().AddC(-1)) {
			o.F.AssumeNe(o.byteAt(s, LC(0)).AddC(-'-'))
		}
	}
	var last *State
	for i := 0; i < 2*len(others); i++ {
		omit := i%2 == 0
		last = others[i/2]
		last.F.atoms[key] = false
		var set Set256
		for i := int64(0); i < 256; i++ {
			if (i&x.omitBit() != 0) == omit {
				set.Add(int(i))
			}
		}
		s := last.clone()
		h := newByteSym("hints")
		s.F.setSet(h, set)
		s.ext["hints"] = LS(h)
		outs = append(outs, Outcome{st: s, ret: []Val{tag, LS(h), tagged}})
	}
	return outs, true
}

// lookup models the search for a field by its key.
func (x *fieldsRun) lookup(st *State, ci *callInfo) ([]Outcome, bool) {
	x.get[ci.fn] = true
	m := x.mon(st)
	k := m.r[0]
	good := m.ctl == "field"
	for _, a := range ci.args {
		switch a := a.(type) {
		case StrV:
			good = good && x.isTag(st, a)
		case *PtrV:
			good = good && a.o == x.codec && len(a.p) == 0
		}
	}
	if !x.check(good, st, ci.ins, "lookup", "%s is looked up where field %s is next (%s)", keyOf(&TupleV{ci.args}), k.Key(), m.ctl) {
		return []Outcome{{st: st, ret: x.e.freshResults(ci)}}, true
	}
	fs := x.fields(st)
	none := st.clone()
	none.ext["found"] = LC(-1)
	outs := []Outcome{{st: none, ret: []Val{zeroVal(ci.sig.Results().At(0).Type())}}}
	havocN++
	j := LS(newSym(fmt.Sprintf("found%d", havocN), bi(0), maxLen))
	if fs != nil && st.F.AssumeGe(fs.n.Sub(j).AddC(-1)) && st.F.Feasible() {
		st.ext["found"] = j
		delete(st.ext, "cmp")
		outs = append(outs, Outcome{st: st, ret: []Val{&PtrV{o: fs.o, p: Path{{f: -1, idx: st.F.norm(fs.off.Add(j))}}}}})
	}
	return outs, true
}

// compared models the comparison of index paths: -1 if the first one is deeper,
// or as deep and behind the second one.
func (x *fieldsRun) compared(st *State, ci *callInfo) ([]Outcome, bool) {
	x.cmp[ci.fn] = true
	m := x.mon(st)
	k := m.r[0]
	fs := x.fields(st)
	j, ok := st.ext["found"].(*Lin)
	a, ok2 := ci.args[0].(*SliceV)
	b, ok3 := ci.args[1].(*SliceV)
	dir := int64(1)
	if ok && ok2 && ok3 && fs != nil && m.ctl == "field" {
		old := x.sh.of(st, fs, j, x.sh.index)
		switch {
		case x.e.sameVal(st, a, old) && x.path(st, b, k):
		case x.e.sameVal(st, b, old) && x.path(st, a, k):
			dir = -1
		default:
			ok = false
		}
	}
	x.check(ok && ok2 && ok3, st, ci.ins, "precedence", "%s is compared where field %s is next (%s)", keyOf(&TupleV{ci.args}), k.Key(), m.ctl)
	var outs []Outcome
	for r := int64(-1); r <= 1; r++ {
		s := st.clone()
		s.ext["cmp"] = LC(r * dir)
		outs = append(outs, Outcome{st: s, ret: []Val{LC(r)}})
	}
	return outs, true
}

// shadowed: a field that takes precedence has the key of field k.
func (x *fieldsRun) shadowed(st *State) int {
	j, ok := st.ext["found"].(*Lin)
	if !ok {
		return 0
	}
	if st.F.EntailsEq(j.AddC(1)) {
		return -1
	}
	switch c, _ := st.ext["cmp"].(*Lin); {
	case c == nil:
		return 0
	case st.F.EntailsEq(c.AddC(1)):
		return -1
	}
	return 1
}

// next starts the field after k.
func (x *fieldsRun) settle(st *State, m *RefMon) {
	st.mon = m.to("added", m.r[0])
}

// recurse models the merging of an embedded struct.
func (x *fieldsRun) recurse(st *State, ci *callInfo) ([]Outcome, bool) {
	m := x.mon(st)
	k := m.r[0]
	how, ptr := x.embedded(st, k)
	want := x.ftype(st, k)
	tail := []*Lin{k}
	if ptr {
		want = x.x.elemOf(want)
		tail = append(tail, LC(-1))
	}
	good := m.ctl == "field" && how == 1 && x.sameOpt(st, ci) && x.sameCache(ci)
	path, typ, par := false, false, x.par == nil
	for _, a := range ci.args {
		switch a := a.(type) {
		case *PtrV:
			if a.o == x.codec {
				good = good && len(a.p) == 0
			}
		case *IfaceV:
			if t, ok := x.x.typeKey(a); ok {
				typ = t == want
			}
		case *SliceV:
			if x.par != nil && a.o != nil && (a.o.typ == nil || !isInteger(a.o.typ)) {
				// the types on the way, so that none is merged into itself
				par = a.o.tag == "parents+T"
			} else {
				path = x.path(st, a, tail...)
			}
		}
	}
	if ptr {
		// a type may embed pointers to itself
		x.check(x.par != nil, st, ci.ins, "endless", "a type that embeds a pointer to itself is merged without end: nothing says which types are being merged")
	}
	x.check(good && path && typ && par, st, ci.ins, "embed", "%s is merged where field %s is next (%s, embedded %d, path %v, type %v, parents %v)", keyOf(&TupleV{ci.args}), k.Key(), m.ctl, how, path, typ, par)
	// any fields may have been added or replaced, and the buffer overwritten
	if !ptr {
		havocN++
		st.store(x.idx, Path{{f: -1, idx: st.F.norm(x.depth.AddC(1))}}, types.Typ[types.Int], LS(newSym(fmt.Sprintf("index%d", havocN), bi(0), maxLen)))
	}
	x.settle(st, m)
	bad := st.clone()
	bad.ext["nested.err"] = LC(1)
	return []Outcome{{st: st, ret: []Val{&IfaceV{isNil: true}}}, {st: bad, ret: []Val{someErr(bad, "nested.err")}}}, true
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// valid: v is the codec of field k.
func (x *fieldsRun) valid(st *State, v Val, k *Lin) (bool, string) {
	s, ok := v.(*StructV)
	if !ok {
		return false, "unknown"
	}
	t := x.ftype(st, k)
	if !x.isTag(st, s.f[x.sh.key]) {
		return false, "key " + keyOf(s.f[x.sh.key])
	}
	sl, ok := s.f[x.sh.index].(*SliceV)
	if !ok || !x.path(st, sl, k) {
		return false, "index path " + keyOf(s.f[x.sh.index])
	}
	for _, o := range sl.o.leaves() {
		if o == x.idx || o.tag == "buffer" {
			return false, "an index path in a buffer that is reused"
		}
	}
	if keyOf(s.f[x.sh.enc]) != keyOf(&IfaceV{key: "enc:" + t}) {
		return false, "encoder " + keyOf(s.f[x.sh.enc])
	}
	if keyOf(s.f[x.sh.dec]) != keyOf(&IfaceV{key: "dec:" + t}) {
		return false, "decoder " + keyOf(s.f[x.sh.dec])
	}
	h, ok := st.ext["hints"].(*Lin)
	if !ok {
		return false, "hints"
	}
	om, ok := s.f[x.sh.omit].(*IfaceV)
	if !ok {
		return false, "rule for omitting " + keyOf(s.f[x.sh.omit])
	}
	if !x.omits(st, h) {
		if om.t == nil || !x.isNever(om) {
			return false, "rule for omitting without omitempty " + om.Key()
		}
		return true, ""
	}
	switch om.key {
	case "rule:enc:" + t:
		return true, ""
	case "rule:" + t:
		for a, b := range st.F.atoms {
			if strings.HasPrefix(a, "is:enc:"+t+":") && !b {
				return true, ""
			}
		}
		return false, "the rule for omitting of the type, not of the encoder"
	}
	return false, "rule for omitting " + om.Key()
}

// omits: the hints ask for omitting empty values.
func (x *fieldsRun) omits(st *State, h *Lin) bool {
	if c, ok := h.constInt(); ok {
		return c&x.omitBit() != 0
	}
	s, v, ok := h.asFin()
	if !ok {
		return true
	}
	set := st.F.setOf(s)
	for i := 0; i < 256; i++ {
		if set.Has(i) {
			return v[i]&x.omitBit() != 0
		}
	}
	return false
}

// isNever: the rule omits nothing.
func (x *fieldsRun) isNever(om *IfaceV) bool {
	if b, ok := x.never[om.t]; ok {
		return b
	}
	m := x.c.P.methodOf(om.t, omitSig)
	ok := m != nil
	if ok {
		rv := x.c.P.prog.ImportedPackage("reflect").Type("Value").Type()
		st := newState()
		n := 0
		for _, r := range x.e.Run(st, m, []Val{symVal("rule", om.t), &TermV{key: "v", typ: rv}}, nil, nil) {
			c, isC := r.ret[0].(*Cond)
			if r.panic || !isC {
				ok = false
				continue
			}
			b, known := r.st.knownCond(c)
			ok = ok && known && !b
			n++
		}
		ok = ok && n > 0
	}
	x.never[om.t] = ok
	return ok
}

// added checks a codec that is added (j < 0) or replaces field j.
func (x *fieldsRun) added(st *State, ins ssa.Instruction, v Val, j *Lin) {
	m := x.mon(st)
	k := m.r[0]
	emb, _ := x.embedded(st, k)
	sh := x.shadowed(st)
	ok, why := x.valid(st, v, k)
	f, _ := st.ext["found"].(*Lin)
	place := f != nil && (j == nil && st.F.EntailsEq(f.AddC(1)) || j != nil && st.F.EntailsEq(f.Sub(j)))
	dash := x.dash(st) == -1
	x.check(m.ctl == "field" && emb == -1 && sh == -1 && ok && place && dash, st, ins, "add", "a field is added where field %s is next (%s; embedded %d, shadowed %d, in its place %v, not excluded %v; %s)", k.Key(), m.ctl, emb, sh, place, dash, why)
}

// isPar: s has the types being merged already.
func (x *fieldsRun) isPar(st *State, s *SliceV) bool {
	return s.isNil == x.par.isNil && s.o == x.par.o && st.F.EntailsEq(s.off.Sub(x.par.off)) && st.F.EntailsEq(s.n.Sub(x.par.n))
}

func isRTyp(ci ssa.CallInstruction) types.Type {
	return ci.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
}

func (x *fieldsRun) append(e *Engine, st *State, ins ssa.Instruction, dst *SliceV, ch Chunk) ([]appRes, bool) {
	if x.codec == nil || ch.sl == nil {
		return nil, false
	}
	it := types.Typ[types.Int]
	if ci, ok := ins.(ssa.CallInstruction); ok && x.par != nil && x.isPar(st, dst) {
		k, isC := st.F.norm(ch.sl.n).constInt()
		if isC && k == 1 && isRType(isRTyp(ci)) {
			if t, ok := x.x.typeKey(st.load(ch.sl.o, Path{{f: -1, idx: st.F.norm(ch.sl.off)}}, isRTyp(ci))); ok && t == "T" {
				o := x.parT
				if o == nil {
					o = newObj("parents+T", isRTyp(ci))
					o.region, o.tag = true, "parents+T"
					x.parT = o
				}
				n := st.F.norm(dst.n.AddC(1))
				return []appRes{{st, &SliceV{o: o, off: LC(0), n: n, cap: n}}}, true
			}
		}
	}
	if ci, ok := ins.(ssa.CallInstruction); ok && isInts(ci.Common().Args[0].Type()) {
		k := st.F.norm(ch.sl.n)
		c, isC := k.constInt()
		buf := false
		for _, l := range ch.sl.o.leaves() {
			buf = buf || l == x.idx
		}
		if dst.isNil && (!isC || buf) || st.F.EntailsEq(dst.cap) && !isC {
			// a copy
			o := newObj("copy", it)
			o.region, o.fresh = true, true
			if !st.F.EntailsEq(ch.sl.off) {
				return nil, false
			}
			os := st.ostate(ch.sl.o)
			ns := &ObjState{origin: os.origin, cells: append([]cell(nil), os.cells...)}
			st.setOState(o, ns)
			return []appRes{{st, &SliceV{o: o, off: LC(0), n: k, cap: k}}}, true
		}
		if !isC || c > 8 {
			return nil, false
		}
		// paths are built in a buffer
		o, off := dst.o, dst.off
		if dst.isNil || st.F.EntailsEq(dst.n) && x.depth != nil && st.F.EntailsEq(x.depth) {
			o, off = x.idx, LC(0)
		}
		in := false
		for _, l := range o.leaves() {
			in = in || l == x.idx
		}
		if !in {
			return nil, false
		}
		x.check(st.F.Entails(dst.n.Sub(x.depth)), st, ins, "path", "the path of an outer struct is overwritten at %s", dst.n.Key())
		for i := int64(0); i < c; i++ {
			v := st.load(ch.sl.o, Path{{f: -1, idx: st.F.norm(ch.sl.off.AddC(i))}}, it)
			st.store(o, Path{{f: -1, idx: st.F.norm(off.Add(dst.n).AddC(i))}}, it, v)
		}
		n := st.F.norm(dst.n.AddC(c))
		return []appRes{{st, &SliceV{o: o, off: off, n: n, cap: n.AddC(1 << 20)}}}, true
	}
	if ci, ok := ins.(ssa.CallInstruction); ok && types.Identical(ci.Common().Args[0].Type().Underlying(), types.NewSlice(x.sh.ft)) {
		fs := x.fields(st)
		same := fs != nil && e.sameVal(st, dst, fs)
		c, isC := st.F.norm(ch.sl.n).constInt()
		if !x.check(same && isC && c == 1, st, ins, "add", "%s is appended to fields other than those of the codec", keyOf(ch.sl)) {
			return nil, false
		}
		v := st.load(ch.sl.o, Path{{f: -1, idx: st.F.norm(ch.sl.off)}}, x.sh.ft)
		x.added(st, ins, v, nil)
		havocN++
		r := symVal(fmt.Sprintf("fields%d", havocN), ci.Common().Args[0].Type()).(*SliceV)
		st.assumeValid(r)
		st.F.AssumeEq(r.n.Sub(fs.n).AddC(-1))
		st.ext["adding"] = r
		return []appRes{{st, r}}, true
	}
	return nil, false
}

func (x *fieldsRun) store(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val) {
	if x.codec == nil || len(st.frames) == 0 {
		return
	}
	if p.o == x.codec {
		if !x.check(len(p.p) == 1 && p.p[0].f == x.sh.fields, st, ins, "codec", "the codec is changed") {
			return
		}
		m := x.mon(st)
		r, _ := st.ext["adding"].(*SliceV)
		sv, _ := v.(*SliceV)
		if x.check(r != nil && sv != nil && e.sameVal(st, r, sv), st, ins, "codec", "the fields of the codec become %s", keyOf(v)) {
			x.settle(st, m)
		}
		return
	}
	if p.o == x.idx {
		ok := len(p.p) == 1 && p.p[0].idx != nil && st.F.Entails(p.p[0].idx.Sub(x.depth))
		x.check(ok, st, ins, "path", "the path of an outer struct is changed at %s", keyOf(p))
		return
	}
	fs := x.fields(st)
	if fs == nil || p.o != fs.o || p.o.fresh {
		return
	}
	if !x.check(len(p.p) == 1, st, ins, "codec", "a part of a field is changed: %s", keyOf(p)) {
		return
	}
	m := x.mon(st)
	x.added(st, ins, v, st.F.norm(p.p[0].idx.Sub(fs.off)))
	x.settle(st, m)
}

// merged analyses the adding of the fields of T to a codec with any fields.
func (c *Ctx) merged(sh *structShape, merge *ssa.Function, nilPath bool, used map[*ssa.Function]bool) {
	cons := "fields of a struct"
	if !nilPath {
		cons = "fields of an embedded struct"
	}
	c.saw(merge)
	x := c.newFields(cons, sh)
	x.merge, x.omit = merge, c.omitEntry()
	st := newState()
	o := newObj("codec", sh.typ)
	o.name = "codec"
	x.n = keepSym("numfield:T", 0, 1<<20)
	x.idx = newObj("index", types.Typ[types.Int])
	x.idx.region, x.idx.name = true, "index"
	x.depth = LC(0)
	if !nilPath {
		x.depth = keepSym("depth", 1, 1<<20)
	}
	var args []Val
	for _, p := range merge.Params {
		t := p.Type()
		switch {
		case types.Identical(t, types.NewPointer(sh.typ)):
			args = append(args, &PtrV{o: o})
		case isRType(t):
			args = append(args, x.x.rtype(st, "T"))
		case isInts(t):
			if nilPath {
				args = append(args, zeroVal(t))
			} else {
				args = append(args, &SliceV{o: x.idx, off: LC(0), n: x.depth, cap: x.depth.AddC(1 << 20)})
			}
		default:
			v := symVal(p.Name(), t)
			if s, ok := v.(*SliceV); ok {
				if nilPath {
					v = zeroVal(t)
					s = v.(*SliceV)
				}
				st.assumeValid(s)
				if !nilPath {
					st.F.AssumeGe(s.n.AddC(-1))
					keepVals(s.n, s.off, s.cap)
				}
				if sl, ok := t.Underlying().(*types.Slice); ok && isRType(sl.Elem()) {
					x.par = s
				}
			}
			if q, ok := v.(*PtrV); ok {
				st.nonNil(q)
				x.opt = q
			} else {
				st.nonNil(v)
			}
			if _, ok := t.Underlying().(*types.Map); ok {
				x.codecs = v
			}
			args = append(args, v)
		}
	}
	if !c.Anchor(x.opt != nil && x.codecs != nil && x.omitBit() != 0 && x.omit != nil, "the arguments of "+shortFn(merge)) {
		return
	}
	x.codec = o
	x.anyFields(st)
	x.init = st.clone()
	st.mon = &RefMon{ctl: "scan", r: []*Lin{LC(0)}, step: x.step}
	good := 0
	for _, r := range x.run(st, merge, args) {
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		failed := r.st.ext["nested.err"] != nil
		switch errNil(r.st, r.ret[0]) {
		case 1:
			good++
			m := x.mon(r.st)
			x.check(!failed, r.st, r.site, "error-lost", "an error is lost")
			if !failed && m.ctl != "again" {
				x.check(m.ctl == "next" && r.st.F.EntailsEq(m.r[0].Sub(x.n)), r.st, r.site, "all", "returns where %s (%s)", m.Key(), m.ctl)
			}
		case -1:
			x.check(failed, r.st, r.site, "error", "an error is returned although nothing failed")
		default:
			x.check(false, r.st, r.site, "error", "error unknown %s", keyOf(r.ret[0]))
		}
	}
	if x.stopped {
		c.Merge(x.e)
		return
	}
	x.check(good > 0, nil, nil, "returns", "never succeeds")
	c.Merge(x.e)
	for fn := range x.cmp {
		used[fn] = true
	}
	for fn := range x.get {
		used[fn] = true
	}
}

// compares analyses the comparison of index paths.
func (c *Ctx) compares(fn *ssa.Function) {
	c.saw(fn)
	cons := "comparison of index paths"
	e := newEngine(c.P)
	noPanic(e, cons)
	st := newState()
	it := types.Typ[types.Int]
	a := symVal("a", fn.Params[0].Type()).(*SliceV)
	b := symVal("b", fn.Params[1].Type()).(*SliceV)
	for _, s := range []*SliceV{a, b} {
		st.assumeValid(s)
		keepVals(s.n, s.off)
	}
	at := func(st *State, s *SliceV, i *Lin) *Lin {
		l, _ := st.load(s.o, Path{{f: -1, idx: st.F.norm(s.off.Add(i))}}, it).(*Lin)
		return l
	}
	step := func(e *Engine, st *State, m *RefMon) *RefMon {
		switch m.ctl {
		case "start":
			d := a.n.Sub(b.n)
			switch {
			case st.F.Entails(d.AddC(-1)):
				return m.to("deeper")
			case st.F.Entails(d.Neg().AddC(-1)):
				return m.to("higher")
			case st.F.EntailsEq(d):
				return m.to("at", LC(0))
			}
		case "at":
			i := m.r[0]
			if st.F.Entails(i.Sub(a.n)) {
				return m.to("same")
			}
			if !st.F.Entails(a.n.Sub(i).AddC(-1)) {
				return nil
			}
			x, y := at(st, a, i), at(st, b, i)
			switch {
			case x == nil || y == nil:
			case st.F.EntailsEq(x.Sub(y)):
				return m.to("at", st.F.norm(i.AddC(1)))
			case st.F.Entails(x.Sub(y).AddC(-1)):
				return m.to("behind")
			case st.F.Entails(y.Sub(x).AddC(-1)):
				return m.to("before")
			}
		}
		return nil
	}
	st.mon = &RefMon{ctl: "start", step: step}
	want := map[string]int64{"deeper": -1, "behind": -1, "same": 0, "higher": 1, "before": 1}
	seen := map[string]bool{}
	for _, r := range e.Run(st, fn, []Val{a, b}, nil, nil) {
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		r.st.mon.Sync(e, r.st)
		m := r.st.mon.(*RefMon)
		w, ok := want[m.ctl]
		l, isL := r.ret[0].(*Lin)
		seen[m.ctl] = true
		e.Check(ok && isL && r.st.F.EntailsEq(l.AddC(-w)), r.st, r.site, "order", cons, "%s: %s for a path that is %s", cons, keyOf(r.ret[0]), m.ctl)
	}
	e.Check(len(seen) >= len(want), nil, nil, "returns", cons, "%s: only %d cases are told apart", cons, len(seen))
	c.Merge(e)
}

// finds analyses the search for a field by its key.
func (c *Ctx) finds(fn *ssa.Function, sh *structShape) {
	c.saw(fn)
	cons := "search for a field"
	e := newEngine(c.P)
	noPanic(e, cons)
	st := newState()
	o := newObj("codec", sh.typ)
	o.name = "codec"
	fs, _ := st.load(o, fpath(sh.fields), fieldTyp(sh.typ, sh.fields)).(*SliceV)
	st.assumeValid(fs)
	keepVals(fs.n, fs.off)
	var key StrV
	var args []Val
	for _, p := range fn.Params {
		switch {
		case types.Identical(p.Type(), types.NewPointer(sh.typ)):
			args = append(args, &PtrV{o: o})
		case types.Identical(p.Type(), types.Typ[types.String]):
			key = symVal("key", p.Type()).(StrV)
			st.assumeValid(key)
			keepVals(key)
			args = append(args, key)
		default:
			args = append(args, symVal(p.Name(), p.Type()))
		}
	}
	eq := func(st *State, k Val) int {
		s, ok := k.(StrV)
		if !ok {
			return 0
		}
		yes, no := e.boolStates(st, e.compare(st, tokEQL, s, key, strT, strT))
		switch {
		case len(no) == 0:
			return 1
		case len(yes) == 0:
			return -1
		}
		return 0
	}
	step := func(e *Engine, st *State, m *RefMon) *RefMon {
		if m.ctl != "at" {
			return nil
		}
		i := m.r[0]
		if st.F.Entails(i.Sub(fs.n)) {
			return m.to("none")
		}
		if !st.F.Entails(fs.n.Sub(i).AddC(-1)) {
			return nil
		}
		switch eq(st, sh.of(st, fs, i, sh.key)) {
		case 1:
			return m.to("found", i)
		case -1:
			return m.to("at", st.F.norm(i.AddC(1)))
		}
		return nil
	}
	st.mon = &RefMon{ctl: "at", r: []*Lin{LC(0)}, step: step}
	n := 0
	for _, r := range e.Run(st, fn, args, nil, nil) {
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		n++
		r.st.mon.Sync(e, r.st)
		m := r.st.mon.(*RefMon)
		good := false
		switch m.ctl {
		case "none":
			_, isNil := r.ret[0].(*NilV)
			p, isPtr := r.ret[0].(*PtrV)
			good = isNil || isPtr && p.o == nil
		case "found":
			p, ok := r.ret[0].(*PtrV)
			good = ok && p.o == fs.o && len(p.p) == 1 && p.p[0].idx != nil && r.st.F.EntailsEq(p.p[0].idx.Sub(fs.off).Sub(m.r[0]))
		}
		e.Check(good, r.st, r.site, "found", cons, "%s: %s is returned where the first field with the key is %s", cons, keyOf(r.ret[0]), m.Key())
	}
	e.Check(n > 1, nil, nil, "returns", cons, "%s: found or not found never happens", cons)
	c.Merge(e)
}

// makes analyses the making of the codec of a type.
func (c *Ctx) makes(sh *structShape, fn, merge *ssa.Function) {
	cons := "codec of a struct type"
	c.saw(fn)
	x := c.newFields(cons, sh)
	delete(x.x.kind, "T")
	x.n = keepSym("numfield:T", 0, 1<<20)
	st := newState()
	x.depth = LC(0)
	for _, k := range []string{"T", x.x.elemOf("T")} {
		keepVals(x.x.kindVal(k))
	}
	var args []Val
	for _, p := range fn.Params {
		t := p.Type()
		if isRType(t) {
			args = append(args, x.x.rtype(st, "T"))
			continue
		}
		v := symVal(p.Name(), t)
		st.nonNil(v)
		if q, ok := v.(*PtrV); ok {
			x.opt = q
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			x.codecs = v
		}
		args = append(args, v)
	}
	if !c.Anchor(x.opt != nil && x.codecs != nil, "the arguments of "+shortFn(fn)) {
		return
	}
	ptr := types.NewPointer(sh.typ)
	// what the codec is of: T or what it points to
	of := func(st *State) string {
		l := x.x.kindVal("T").AddC(-x.x.kinds["Ptr"])
		switch {
		case st.F.EntailsEq(l):
			return x.x.elemOf("T")
		case st.F.EntailsNeq(l):
			return "T"
		}
		return "?"
	}
	isKey := func(st *State, k Val) bool {
		s, ok := k.(*StructV)
		if !ok {
			return false
		}
		typ, zero := false, true
		for _, f := range s.f {
			if t, ok := x.x.typeKey(f); ok {
				typ = t == of(st)
			} else if l, ok := f.(*Lin); !ok || !st.F.EntailsEq(l) {
				zero = false
			}
		}
		return typ && zero
	}
	x.e.H.Lookup = func(e *Engine, st *State, ins *ssa.Lookup, m, k Val) (Val, bool) {
		if keyOf(m) != keyOf(x.codecs) {
			return nil, false
		}
		x.check(isKey(st, k) && st.ext["put"] == nil, st, ins, "cache-key", "%s is looked up for the codec of %s", keyOf(k), of(st))
		v := &IfaceV{key: "cached:" + of(st)}
		st.nonNil(symVal(v.key+".("+ptr.String()+")", ptr))
		if ins.CommaOk {
			return &TupleV{[]Val{v, cNot(cAtom("nil:" + v.key))}}, true
		}
		return v, true
	}
	x.e.H.MapUpd = func(e *Engine, st *State, ins *ssa.MapUpdate, m, k, v Val) {
		if keyOf(m) != keyOf(x.codecs) {
			return
		}
		iv, ok := v.(*IfaceV)
		p, isP := (*PtrV)(nil), false
		if ok {
			p, isP = iv.v.(*PtrV)
		}
		if x.check(isKey(st, k) && isP && types.Identical(iv.t, ptr) && st.ext["put"] == nil && p.o.fresh && len(p.p) == 0, st, ins, "cache-put", "%s is cached for %s", keyOf(v), keyOf(k)) {
			st.ext["put"] = p
		}
	}
	call := x.e.H.Call
	x.e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		if ci.fn != merge {
			return call(e, st, ci)
		}
		put, _ := st.ext["put"].(*PtrV)
		typ, own, empty := false, false, true
		for _, a := range ci.args {
			switch a := a.(type) {
			case *PtrV:
				if a.o == x.opt.o {
					break
				}
				own = put != nil && a.o == put.o && len(a.p) == 0
			case *IfaceV:
				if t, ok := x.x.typeKey(a); ok {
					typ = t == of(st) && st.F.EntailsEq(x.x.kindVal(t).AddC(-x.x.kinds["Struct"]))
				}
			case *SliceV:
				empty = empty && (a.isNil || st.F.EntailsEq(a.n))
			}
		}
		if own {
			fs, _ := st.load(put.o, fpath(sh.fields), fieldTyp(sh.typ, sh.fields)).(*SliceV)
			own = fs != nil && (fs.isNil || st.F.EntailsEq(fs.n))
		}
		if x.check(typ && own && empty && st.ext["merged"] == nil && x.sameOpt(st, ci) && x.sameCache(ci), st, ci.ins, "merge", "%s is merged for the codec of %s (type %v, new and empty %v, empty path %v)", keyOf(&TupleV{ci.args}), of(st), typ, own, empty) {
			st.ext["merged"] = LC(1)
			t := fieldTyp(sh.typ, sh.fields)
			fs := symVal("merged", t)
			st.assumeValid(fs)
			st.store(put.o, fpath(sh.fields), t, fs)
		}
		bad := st.clone()
		bad.ext["nested.err"] = LC(1)
		return []Outcome{{st: st, ret: []Val{&IfaceV{isNil: true}}}, {st: bad, ret: []Val{someErr(bad, "nested.err")}}}, true
	}
	seen := map[string]bool{}
	for _, r := range x.run(st, fn, args) {
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		S := of(r.st)
		is := x.x.kindVal(S).AddC(-x.x.kinds["Struct"])
		cached, known := r.st.F.atoms["is:cached:"+S+":"+ptr.String()]
		if b, ok := r.st.F.atoms["nil:cached:"+S]; ok && b {
			cached, known = false, true
		}
		p, _ := r.ret[0].(*PtrV)
		none := p == nil
		switch errNil(r.st, r.ret[1]) {
		case -1:
			why := r.st.F.EntailsNeq(is) || r.st.ext["nested.err"] != nil
			seen["error"] = true
			x.check(why && none, r.st, r.site, "error", "an error is returned with %s although nothing failed", keyOf(r.ret[0]))
		case 1:
			put, _ := r.st.ext["put"].(*PtrV)
			if cached && known {
				seen["cached"] = true
				x.check(r.st.F.EntailsEq(is) && put == nil && keyOf(r.ret[0]) == keyOf(symVal("cached:"+S+".("+ptr.String()+")", ptr)), r.st, r.site, "cached", "%s is returned where a codec is cached", keyOf(r.ret[0]))
				continue
			}
			seen["new"] = true
			good := r.st.F.EntailsEq(is) && known && put != nil && p != nil && p.o == put.o && len(p.p) == 0 && r.st.ext["merged"] != nil && r.st.ext["nested.err"] == nil
			why := ""
			if good {
				s := sh.typ.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					t := s.Field(i).Type()
					v := r.st.load(put.o, fpath(i), t)
					switch {
					case i == sh.fields:
						if !x.e.sameVal(r.st, v, symVal("merged", t)) {
							why += " fields " + keyOf(v)
						}
					case isRType(t):
						if k, ok := x.x.typeKey(v); !ok || k != S {
							why += " type " + keyOf(v)
						}
					case isReflectValue(t):
						if tv, ok := v.(*TermV); !ok || tv.key != "zero:"+S {
							why += " zero value " + keyOf(v)
						}
					}
				}
			}
			x.check(good && why == "", r.st, r.site, "new", "%s is returned for %s:%s", keyOf(r.ret[0]), S, why)
		default:
			x.check(false, r.st, r.site, "error", "error unknown %s", keyOf(r.ret[1]))
		}
	}
	if x.stopped {
		c.Merge(x.e)
		return
	}
	x.check(seen["new"] && seen["cached"] && seen["error"], nil, nil, "returns", "no codec, cached codec or error is ever returned")
	c.Merge(x.e)
}

func init() {
	register(&Prop{
		ID:      "C28",
		Rule:    "The function that merges the fields of a struct type into a codec is interpreted abstractly on an arbitrary type, from the start and at any depth of embedding: every field is looked at in order, fields that cannot be set and fields tagged - are left, untagged embedded structs and pointers to structs are merged in place unless they are being merged already, and every other one is given the key of its tag or its name, the hints of its tag and type, and the decoder, encoder and rule for omitempty of its type. It is added if the codec has no such key, replaces the one there exactly if it is less deep, and is dropped otherwise; an error is returned exactly if one of those calls fails. The order by depth, the search for a key and the function that makes codecs of types are checked against their own tables.",
		Explain: "Path-sensitive abstract interpretation with a control automaton over the calls of the merge; induction over embedded structs; the helpers for order and search are analysed on their own for arrays of any length.",
		Assume:  []string{"reflect behaves as documented (model in prop_refl.go)", "codecs, encoders and decoders of the fields' types are the ones their own checks describe (induction)", "paths of embedded fields are in increasing order of the merge"},
		Run: func(c *Ctx) {
			sh := c.structShape()
			if !c.Anchor(sh != nil, "the codec of structs") {
				return
			}
			merge := c.mergeFn(sh)
			if !c.Anchor(merge != nil, "the function that adds the fields of a type to a codec") {
				return
			}
			used := map[*ssa.Function]bool{}
			c.merged(sh, merge, true, used)
			c.merged(sh, merge, false, used)
			var fns []*ssa.Function
			for fn := range used {
				fns = append(fns, fn)
			}
			sort.Slice(fns, func(i, j int) bool { return shortFn(fns[i]) < shortFn(fns[j]) })
			for _, fn := range fns {
				if sigKey(fn.Signature) == cmpSig {
					c.compares(fn)
				} else {
					c.finds(fn, sh)
				}
			}
			c.count["helpers of the merge"] = len(fns)
			mk := c.makeFn(sh)
			if c.Anchor(mk != nil, "the function that makes the codec of a type") {
				c.makes(sh, mk, merge)
			}
		},
	})
}
