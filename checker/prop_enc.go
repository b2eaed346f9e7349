package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encRun is the analysis of one encoder: the encoder of type T, of a given
// kind and with given marshaler interfaces, applied to a value of T.
type encRun struct {
	c    *Ctx
	e    *Engine
	x    *refl
	cons string
	v    *TermV // the value that has to be encoded
	how  string // what its encoding is: a kind, a marshaler interface
	sl   map[*Obj]*TermV
	sln  map[*Obj]*Lin
	opt  *StructV
	st0  *State
	sc   *structShape
	fs   *SliceV             // the fields of the codec
	subj *TermV              // the struct
	kind string              // the kind of T
	hint *Lin                // the hints T is encoded with
	keys map[string]*StructV // cached value -> the key it is stored under
}

// typeArg is the opaque type a repository function is called with.
func (x *encRun) typeArg(ci *callInfo) (string, bool) {
	if ci.fn == nil || !x.c.P.isRepoFn(ci.fn) {
		return "", false
	}
	res := ci.sig.Results()
	if res.Len() != 2 || res.At(1).Type().String() != "error" {
		return "", false
	}
	for _, a := range ci.args {
		if k, ok := x.x.typeKey(a); ok && !x.x.subjects[k] {
			return k, true
		}
	}
	return "", false
}

// call models what the encoders rely on: reflection, the encoders of other
// types (which encode a value of their type, or fail), marshalers, and the
// escaping and formatting functions.
func (x *encRun) call(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	if outs, ok := x.field(e, st, ci); ok {
		return outs, true
	}
	if outs, ok := x.x.call(e, st, ci); ok {
		return outs, true
	}
	if k, ok := x.typeArg(ci); ok {
		// the encoder of another type
		x.c.count["nested encoders"]++
		x.c.nested(ci.fn, encSig)
		x.sameHint(st, ci)
		bad := st.clone()
		err := someErr(bad, "nested.err")
		bad.ext["nested.err"] = LC(1)
		iv := &IfaceV{key: "enc:" + k}
		st.F.atoms["nil:"+iv.key] = false
		return []Outcome{{st: st, ret: []Val{iv, &IfaceV{isNil: true}}}, {st: bad, ret: []Val{zeroVal(ci.sig.Results().At(0).Type()), err}}}, true
	}
	res := ci.sig.Results()
	encodes := res.Len() == 2 && isByteSlice(res.At(0).Type()) && res.At(1).Type().String() == "error"
	if encodes && len(ci.args) > 0 {
		recv, _ := ci.args[0].(*IfaceV)
		switch {
		case ci.iface != nil && ci.fn == nil && recv != nil && x.x.ifc[recv.key] != nil:
			return x.marshal(e, st, ci, x.x.ifc[recv.key])
		case ci.iface != nil && ci.fn == nil && recv != nil:
			// an encoder that is not known: encodes a value of its type
			var arg *TermV
			for _, a := range ci.args[1:] {
				if t, ok := a.(*TermV); ok {
					arg = t
				}
				if iv, ok := a.(*IfaceV); ok && x.x.ifc[iv.key] != nil {
					arg = x.x.ifc[iv.key]
				}
			}
			if arg == nil {
				break
			}
			if k := strings.TrimPrefix(recv.key, "enc:"); k != recv.key {
				if t, known := x.x.vt[arg.key]; known && t != k {
					x.e.Fail(st, ci.ins, "type", x.cons, "%s: the encoder of %s is given a value of type %s", x.cons, k, t)
				}
			}
			return x.nested(e, st, ci, &TermV{key: "value(" + recv.key + "," + arg.key + ")", op: "value", args: []Val{arg, recv}}), true
		case ci.fn != nil && ci.fn.Signature.Recv() == nil && ci.fn.Object() != nil && ci.fn.Object().Exported() && x.c.P.isRepoFn(ci.fn):
			// the encoding of an interface's value
			for _, a := range ci.args {
				if iv, ok := a.(*IfaceV); ok && x.x.ifc[iv.key] != nil {
					v := x.x.ifc[iv.key]
					return x.nested(e, st, ci, &TermV{key: "value(" + v.key + ")", op: "value", args: []Val{v}}), true
				}
			}
		}
	}
	if ci.fn != nil && x.c.P.isRepoFn(ci.fn) {
		switch n := shortFn(ci.fn); n {
		case "strjson.AppendEscaped", "numjson.AppendFloat":
			if dst, ok := ci.args[0].(*SliceV); ok {
				return e.appendChunk(st, ci, dst, Chunk{val: &TermV{key: n + "(" + keyOf(&TupleV{ci.args[1:]}) + ")", op: n, args: ci.args[1:]}}), true
			}
		case "strjson.Escaped", "numjson.FormatFloat":
			return []Outcome{{st: st, ret: e.termResults(st, ci)}}, true
		}
	}
	switch ci.name {
	case "math.IsInf":
		if s, ok := ci.args[1].(*Lin); ok {
			if c, ok := st.F.norm(s).constInt(); ok {
				var outs []Outcome
				for cl, s := range x.floatClasses(st, ci.args[0]) {
					if s != nil {
						outs = append(outs, Outcome{st: s, ret: []Val{cBool(cl == 0 && c >= 0 || cl == 1 && c <= 0)}})
					}
				}
				return outs, true
			}
		}
	case "math.IsNaN":
		var outs []Outcome
		for cl, s := range x.floatClasses(st, ci.args[0]) {
			if s != nil {
				outs = append(outs, Outcome{st: s, ret: []Val{cBool(cl == 2)}})
			}
		}
		return outs, true
	}
	if ci.iface != nil && ci.fn == nil && ci.sig.Params().Len() <= 1 && len(ci.args) > 0 {
		if recv, ok := ci.args[0].(*IfaceV); ok && x.x.ifc[recv.key] != nil && encodes {
			return x.marshal(e, st, ci, x.x.ifc[recv.key])
		}
	}
	return nil, false
}

// nested remembers the functions that make encoders or decoders of elements.
func (c *Ctx) nested(fn *ssa.Function, sig string) {
	if c.made == nil {
		c.made = map[*ssa.Function]string{}
	}
	c.made[fn] = sig
}

// hintTyp: the type of the hints of a struct tag.
func hintTyp(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	_, named := t.(*types.Named)
	return ok && named && b.Kind() == types.Uint8
}

// sameHint: elements are encoded with the hints of the value they belong to.
func (x *encRun) sameHint(st *State, ci *callInfo) {
	if x.hint == nil || x.kind != "Ptr" && x.kind != "Slice" && x.kind != "Array" {
		return
	}
	ok, have := false, false
	for i, q := range ci.fn.Params {
		if l, isLin := ci.args[i].(*Lin); isLin && hintTyp(q.Type()) {
			have = true
			ok = ok || st.F.EntailsEq(l.Sub(x.hint))
		}
	}
	x.e.Check(ok || !have, st, ci.ins, "hints", x.cons, "%s: the elements are encoded with other hints than the value", x.cons)
}

// keyOK: an encoder stored under this key encodes T with the hints asked for.
func (x *encRun) keyOK(st *State, k *StructV) bool {
	ok := false
	for _, f := range k.f {
		switch f := f.(type) {
		case *IfaceV:
			t, is := x.x.typeKey(f)
			if !is || t != "T" {
				return false
			}
			ok = true
		case *Lin:
			switch x.kind {
			case "String", "Ptr", "Slice", "Array":
				if x.hint != nil && !st.F.EntailsEq(f.Sub(x.hint)) {
					return false
				}
			}
		}
	}
	return ok
}

// isMaker: a function that makes an encoder or decoder using a cache.
func isMaker(fn *ssa.Function) bool {
	for _, q := range fn.Params {
		if _, ok := q.Type().Underlying().(*types.Map); ok {
			return true
		}
	}
	return false
}

// makers analyses the functions that make the encoders of elements, with any
// content of the cache they share.
func (c *Ctx) makers(cases []encCase) {
	var fns []*ssa.Function
	for fn, sig := range c.made {
		if sig == encSig && isMaker(fn) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		for _, k := range cases {
			if len(k.on["T"]) == 0 && len(k.on["*T"]) > 0 {
				continue // not addressable, so it has not the methods of its address
			}
			c.saw(fn)
			cons := "encoder of elements of kind " + k.kind
			if k.name != "" {
				cons += " " + k.name
			}
			for _, h := range []string{"any hints", "no hints"} {
				c.maker(fn, k, cons+", "+h, h == "no hints")
			}
		}
	}
}

func (c *Ctx) maker(fn *ssa.Function, k encCase, cons string, encode bool) {
	x := c.newEnc(cons)
	x.x.kind["T"] = x.x.kinds[k.kind]
	x.x.shape(k.on)
	x.how, x.kind, x.keys = k.how, k.kind, map[string]*StructV{}
	st := newState()
	distinct(st, "T", "*T", "U", "*U", "T.elem", "U.elem")
	var args []Val
	x.e.H.Lookup = func(e *Engine, st *State, ins *ssa.Lookup, m, key Val) (Val, bool) {
		ks, ok := key.(*StructV)
		if t, isT := m.(*TermV); !ok || !isT || t.key != "cache" || ins.CommaOk {
			return nil, false
		}
		havocN++
		n := fmt.Sprintf("cached%d", havocN)
		x.keys[n] = ks
		return &IfaceV{key: n}, true
	}
	x.e.H.MapUpd = func(e *Engine, st *State, ins *ssa.MapUpdate, m, key, v Val) {
		if t, isT := m.(*TermV); !isT || t.key != "cache" {
			return
		}
		ks, ok := key.(*StructV)
		e.Check(ok && x.keyOK(st, ks), st, ins, "cache", cons, "%s: it is stored under the key %s", cons, keyOf(key))
	}
	for _, q := range fn.Params {
		switch {
		case types.TypeString(q.Type(), nil) == "reflect.Type":
			args = append(args, x.x.rtype(st, "T"))
		case hintTyp(q.Type()):
			x.hint = symVal("hints", q.Type()).(*Lin)
			if encode {
				x.hint = LC(0)
			}
			args = append(args, x.hint)
		default:
			name := q.Name()
			if _, ok := q.Type().Underlying().(*types.Map); ok {
				name = "cache"
			}
			v := symVal(name, q.Type())
			st.nonNil(v)
			if p, ok := v.(*PtrV); ok {
				if t := c.P.typ("unjson", "Options"); t != nil && types.Identical(q.Type(), types.NewPointer(t)) {
					x.opt, _ = st.load(p.o, nil, t).(*StructV)
				}
			}
			args = append(args, v)
		}
	}
	good := 0
	for _, o := range x.e.Run(st, fn, args, nil, nil) {
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		if errNil(o.st, o.ret[1]) != 1 {
			x.e.Check(o.st.ext["nested.err"] != nil || x.refusable(o.st, k.kind), o.st, o.site, "refused", cons, "%s is refused", cons)
			continue
		}
		good++
		iv, ok := o.ret[0].(*IfaceV)
		if !x.e.Check(ok && !iv.isNil, o.st, o.site, "encoder", cons, "%s: unknown encoder %s", cons, keyOf(o.ret[0])) {
			continue
		}
		if ks := x.keys[iv.key]; ks != nil || iv.t == nil || isPtrParam(iv) {
			// out of the cache
			x.e.Check(k.how == x.x.howKind(k.kind), o.st, o.site, "cached", cons, "%s: an encoder from the cache is used instead of the type's method", cons)
			x.e.Check(ks == nil && k.kind == "Struct" || ks != nil && x.keyOK(o.st, ks), o.st, o.site, "cached", cons, "%s: the encoder of another type or of other hints is used", cons)
			continue
		}
		if !encode || k.how == "Struct" {
			continue
		}
		m := c.P.methodOf(iv.t, encSig)
		if !x.e.Check(m != nil, o.st, o.site, "encoder", cons, "%s: %s does not encode", cons, iv.t) {
			continue
		}
		for _, addr := range []int{1, -1} {
			s := o.st.clone()
			v := x.x.val(fmt.Sprintf("v%d", addr), "T", "")
			x.x.addr[v.key] = addr
			x.finish(s, m, iv.v, v)
		}
	}
	x.e.Check(good > 0, nil, nil, "returns", cons, "%s: there is none", cons)
	c.Merge(x.e)
}

// isPtrParam: the value is a pointer to something that existed before.
func isPtrParam(iv *IfaceV) bool {
	p, ok := iv.v.(*PtrV)
	return ok && p.o != nil && !p.o.fresh
}

// methodOf is the method of t with a signature.
func (p *Program) methodOf(t types.Type, want string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s, ok := ms.At(i).Type().(*types.Signature); ok && sigKey(s) == want {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// finish runs an encoder on a value and checks what it writes.
func (x *encRun) finish(st *State, m *ssa.Function, recv Val, v *TermV) {
	e := x.e
	dst := outBuf(st, "dst", x.spec(v))
	good := 0
	for _, r := range e.Run(st, m, []Val{recv, dst, v}, nil, nil) {
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		m := outOf(r.ret[0])
		failed := r.st.ext["nested.err"] != nil
		switch errNil(r.st, r.ret[1]) {
		case 1:
			good++
			e.Check(!failed, r.st, r.site, "error-lost", x.cons, "%s: an error of a nested encoding is lost", x.cons)
			if !failed {
				e.Check(m != nil && m.ctl == "done", r.st, r.site, "output", x.cons+" end", "%s returns success although the value is not written to the end (%s)", x.cons, keyOf(r.ret[0]))
			}
		case -1:
			e.Check(failed || x.badFloat(r.st, v), r.st, r.site, "error", x.cons, "%s returns an error although nothing failed", x.cons)
		default:
			e.Check(false, r.st, r.site, "error", x.cons, "%s: error unknown %s", x.cons, keyOf(r.ret[1]))
		}
	}
	e.Check(good > 0, nil, nil, "returns", x.cons, "%s never succeeds", x.cons)
}

// floatClasses splits a state by the class of a float: +Inf, -Inf, NaN, finite.
func (x *encRun) floatClasses(st *State, f Val) [4]*State {
	k := keyOf(st.F.normVal(f))
	var out [4]*State
	names := []string{"posinf:", "neginf:", "nan:"}
	for cl := 0; cl < 4; cl++ {
		ok := true
		for i, n := range names {
			if b, known := st.F.atoms[n+k]; known && b != (i == cl) {
				ok = false
			}
		}
		if ok {
			s := st.clone()
			for i, n := range names {
				s.F.atoms[n+k] = i == cl
			}
			out[cl] = s
		}
	}
	return out
}

// nested is one encoding that succeeds or fails.
func (x *encRun) nested(e *Engine, st *State, ci *callInfo, t *TermV) []Outcome {
	var dst *SliceV
	for _, a := range ci.args {
		if s, ok := a.(*SliceV); ok && dst == nil {
			dst = s
		}
	}
	bad := st.clone()
	bad.ext["nested.err"] = LC(1)
	err := someErr(bad, "nested.err")
	part := outBuf(bad, fmt.Sprintf("partial%d", havocN), &Out{ctl: "error", step: func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out { return m }})
	outs := []Outcome{{st: bad, ret: []Val{part, err}}, {st: bad.clone(), ret: []Val{zeroVal(ci.sig.Results().At(0).Type()), err}}}
	m := outOf(dst)
	if m == nil {
		e.Fail(st, ci.ins, "nested", x.cons, "%s: cannot tell what %s is appended to", x.cons, t.key)
		return outs
	}
	m = m.step(e, st, ci.ins, m, Tok{b: -1, v: t})
	return append(outs, Outcome{st: st, ret: []Val{dst.grown(st, m, LS(newLenSym("nestedlen"))), &IfaceV{isNil: true}}})
}

// marshal is a call of a marshaler's method.
func (x *encRun) marshal(e *Engine, st *State, ci *callInfo, v *TermV) ([]Outcome, bool) {
	t := &TermV{key: ci.method + "(" + v.key + ")", op: ci.method, args: []Val{v}}
	if ci.method == "AppendJSON" {
		return x.nested(e, st, ci, t), true
	}
	bad := st.clone()
	bad.ext["nested.err"] = LC(1)
	err := someErr(bad, "nested.err")
	junk := symVal(fmt.Sprintf("junk%d", havocN), types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
	bad.assumeValid(junk)
	havocN++
	s := symVal(fmt.Sprintf("out%d:%s", havocN, t.key), types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
	st.assumeValid(s)
	x.sl[s.o], x.sln[s.o] = t, s.n
	outs := []Outcome{{st: bad, ret: []Val{junk, err}}}
	empty := st.clone()
	if ci.method == "MarshalJSON" {
		if empty.F.AssumeEq(s.n) && empty.F.Feasible() {
			empty.ext["nested.err"] = LC(1)
			outs = append(outs, Outcome{st: empty, ret: []Val{s, &IfaceV{isNil: true}}})
		}
		if !st.F.AssumeGe(s.n.AddC(-1)) {
			return outs, true
		}
	}
	return append(outs, Outcome{st: st, ret: []Val{s, &IfaceV{isNil: true}}}), true
}

// isSubject: w is the value v, its address, or a pointer to a copy of it.
func (x *encRun) isSubject(st *State, w Val, v *TermV) bool {
	t, ok := w.(*TermV)
	if !ok {
		return false
	}
	if x.x.sameRV(st, t, v) {
		return true
	}
	switch t.op {
	case "addr", "copy":
		return len(t.args) == 1 && x.isSubject(st, t.args[0], v)
	case "new":
		w, ok := st.ext["copied:"+t.key].(*TermV)
		return ok && x.x.sameRV(st, w, v)
	}
	return false
}

// setHook follows copies made with reflect.New.
func (x *encRun) setHook(e *Engine, st *State, ins ssa.Instruction, m string, v *TermV, args []Val) {
	if m == "Set" && v.op == "Elem" && len(v.args) == 1 {
		if p, ok := v.args[0].(*TermV); ok && p.op == "new" {
			st.ext["copied:"+p.key] = args[0]
			return
		}
	}
	e.Fail(st, ins, "writes", x.cons, "%s: encoding changes %s (%s)", x.cons, v.key, m)
}

// strTok describes text made from another value.
type strTok struct {
	op    string
	args  []Val
	quote bool
}

// spec is the machine for the encoding of value v of type T.
func (x *encRun) spec(v *TermV) *Out {
	how := x.how
	step := func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
		fail := func(want string) *Out {
			if m.ctl != "bad" {
				e.Fail(st, ins, "output", x.cons+" "+m.ctl, "%s writes %s where %s belongs", x.cons, t, want)
			}
			return m.to("bad")
		}
		lit := func(s, next string, i int) *Out {
			if i < len(s) && t.b == int(s[i]) {
				if i+1 == len(s) {
					return m.to(next)
				}
				return m.to(fmt.Sprintf("lit:%s:%d", s, i+1))
			}
			return fail(fmt.Sprintf("%q", s))
		}
		ctl := m.ctl
		if strings.HasPrefix(ctl, "lit:") {
			i := strings.LastIndex(ctl, ":")
			n := 0
			fmt.Sscan(ctl[i+1:], &n)
			return lit(ctl[4:i], "done", n)
		}
		isValue := func(w *TermV, arg Val, k string) bool {
			n, ok := t.v.(*TermV)
			if t.b >= 0 || !ok || n.op != "value" || !x.x.sameRV(st, n.args[0], arg) {
				return false
			}
			return true
		}
		switch ctl {
		case "bad":
			return m
		case "done":
			return fail("nothing more")
		}
		if strings.HasPrefix(ctl, "text") {
			return x.text(e, st, m, t, x.textOf(st, v, how), "done", fail)
		}
		if ctl == "start" && x.nilV(st, v, how) {
			return lit("null", "done", 0)
		}
		switch how {
		case "AppendJSON":
			if n, ok := t.v.(*TermV); t.b < 0 && ok && n.op == "AppendJSON" && x.isSubject(st, n.args[0], v) {
				return m.to("done")
			}
			return fail("the value's own JSON")
		case "MarshalJSON":
			if s, ok := t.v.(*SliceV); t.b < 0 && ok && x.whole(st, s) {
				if n := x.sl[s.o]; n != nil && n.op == "MarshalJSON" && x.isSubject(st, n.args[0], v) {
					return m.to("done")
				}
			}
			return fail("the value's own JSON")
		case "MarshalText", "String", "raw":
			return x.text(e, st, m, t, x.textOf(st, v, how), "done", fail)
		case "Bool":
			b, known := st.F.atoms["bool:"+v.key]
			if !known {
				return fail("true or false depending on the value")
			}
			if b {
				return lit("true", "done", 0)
			}
			return lit("false", "done", 0)
		case "int", "uint":
			want := x.x.num("Int", v, types.Typ[types.Int64])
			if how == "uint" {
				want = x.x.num("Uint", v, types.Typ[types.Uint64])
			}
			if x.isNum(st, t, how, want) {
				return m.to("done")
			}
			return fail("the decimal value")
		case "float32", "float64":
			return x.float(e, st, m, t, v, lit, fail)
		case "Slice", "Array":
			n := x.x.valLen(st, v)
			if ctl == "start" {
				if t.b == '[' {
					return m.to("array", LC(0))
				}
				return fail("[")
			}
			k := m.r[0]
			switch ctl {
			case "array":
				end, first := sign2(st, n.Sub(k)), sign2(st, k)
				switch {
				case t.b == ']' && end == 0:
					return m.to("done")
				case t.b == ',' && end > 0 && first > 0:
					return m.to("array-next", k)
				case end > 0 && first == 0:
					m = m.to("array-next", k)
					return m.step(e, st, ins, m, t)
				}
				return fail(fmt.Sprintf("the separator or the end at element %s of %s", st.F.norm(k).Key(), st.F.norm(n).Key()))
			case "array-next":
				el := x.x.derived(st, "Index", x.x.elemOf(x.x.vt[v.key]), v, st.F.norm(k))
				if isValue(nil, el, "") {
					return m.to("array", st.F.norm(k.AddC(1)))
				}
				return fail("element " + st.F.norm(k).Key())
			}
		case "Map":
			n := x.x.valLen(st, v)
			if ctl == "start" {
				if t.b == '{' {
					return m.to("object", LC(0))
				}
				return fail("{")
			}
			k := m.r[0]
			keys := symVal("keys("+v.key+")", types.NewSlice(v.typ)).(*SliceV)
			key := func() *TermV {
				t, _ := st.load(keys.o, Path{{f: -1, idx: st.F.norm(keys.off.Add(k))}}, v.typ).(*TermV)
				return t
			}
			switch {
			case ctl == "object":
				end, first := sign2(st, n.Sub(k)), sign2(st, k)
				switch {
				case t.b == '}' && end == 0:
					return m.to("done")
				case t.b == ',' && end > 0 && first > 0:
					return m.to("object-next", k)
				case end > 0 && first == 0:
					m = m.to("object-next", k)
					return m.step(e, st, ins, m, t)
				}
				return fail(fmt.Sprintf("the separator or the end at entry %s of %s", st.F.norm(k).Key(), st.F.norm(n).Key()))
			case ctl == "object-next" || strings.HasPrefix(ctl, "key"):
				w := key()
				if w == nil {
					return fail("a key")
				}
				if ctl == "object-next" {
					m = m.to("key0", k)
				}
				return x.text(e, st, m, t, x.keyText(st, w, x.x.vt[v.key]+".key"), "colon", fail)
			case ctl == "colon":
				if t.b == ':' {
					return m.to("object-value", k)
				}
				return fail("a colon")
			case ctl == "object-value":
				w := key()
				if w != nil && isValue(nil, x.x.derived(st, "MapIndex", x.x.elemOf(x.x.vt[v.key]), v, w), "") {
					return m.to("object", st.F.norm(k.AddC(1)))
				}
				return fail("the value of the key")
			}
		case "Ptr":
			if isValue(nil, x.x.derived(st, "Elem", x.x.elemOf(x.x.vt[v.key]), v), "") {
				return m.to("done")
			}
			return fail("the value pointed to")
		case "Interface":
			if isValue(nil, v, "") {
				return m.to("done")
			}
			return fail("the value in the interface")
		case "Struct":
			return x.object(e, st, ins, m, t, v, fail)
		}
		return fail("nothing")
	}
	return &Out{ctl: "start", step: step}
}

// sign2 decides l ≥ 0: 0 when l = 0, 1 when l > 0, -1 otherwise or unknown.
func sign2(st *State, l *Lin) int {
	switch {
	case st.F.EntailsEq(l):
		return 0
	case st.F.Entails(l.AddC(-1)):
		return 1
	}
	return -1
}

func (x *encRun) whole(st *State, s *SliceV) bool {
	n := x.sln[s.o]
	return n != nil && st.F.EntailsEq(s.n.Sub(n))
}

// nilV: v is a nil pointer, interface or map.
func (x *encRun) nilV(st *State, v *TermV, how string) bool {
	if !x.x.isKind(x.x.vt[v.key], "Ptr", "Interface", "Map") {
		return false
	}
	if how == "MarshalText" || how == "MarshalJSON" || how == "AppendJSON" {
		// a nil map has the methods of its type
		if x.x.isKind(x.x.vt[v.key], "Map") {
			return false
		}
	}
	b, ok := st.F.atoms["isnil:"+v.key]
	return ok && b
}

// textOf says what v's text is: its string or its MarshalText.
func (x *encRun) textOf(st *State, v *TermV, how string) func(Val) bool {
	return func(s Val) bool {
		str, ok := s.(StrV)
		if !ok || str.B == nil || !st.F.EntailsEq(str.lo) || !st.F.EntailsEq(str.hi.Sub(str.B.n)) {
			return false
		}
		if how == "MarshalText" {
			sl, ok := str.B.src.(*SliceV)
			if !ok || !x.whole(st, sl) {
				return false
			}
			n := x.sl[sl.o]
			return n != nil && n.op == "MarshalText" && x.isSubject(st, n.args[0], v)
		}
		src := srcOf(str)
		return src != nil && src.op == "String" && x.x.sameRV(st, src.args[0], v)
	}
}

// keyText is the text of a map key: MarshalText if the type has it, and the
// string otherwise; a nil key has no text.
func (x *encRun) keyText(st *State, w *TermV, k string) func(Val) bool {
	how := "String"
	for _, i := range x.x.ifaceOf {
		if strings.HasSuffix(i, "TextMarshaler") {
			if b, ok := st.F.atoms["impl:"+k+":"+i]; ok && b {
				how = "MarshalText"
			}
		}
	}
	if b, ok := st.F.atoms["isnil:"+w.key]; ok && b && how == "MarshalText" {
		return nil
	}
	return x.textOf(st, w, how)
}

// text is the machine for a quoted string.
func (x *encRun) text(e *Engine, st *State, m *Out, t Tok, is func(Val) bool, next string, fail func(string) *Out) *Out {
	pre := "text"
	if next != "done" {
		pre = "key"
	}
	to := func(s string) *Out { return m.to(pre+s, m.r...) }
	end := func() *Out { return m.to(next, m.r...) }
	switch m.ctl {
	case "start", pre + "0":
		if t.b == '"' {
			return to("1")
		}
		if n := escapedTok(t); n != nil && is != nil && x.quoted(st, n) == 1 && is(n.args[0]) {
			return end()
		}
		return fail("a quoted string")
	case pre + "1":
		if is == nil {
			if t.b == '"' {
				return end()
			}
			return fail("the closing quote of an empty key")
		}
		if n, ok := t.v.(*TermV); t.b < 0 && ok && n.op == "strjson.AppendEscaped" && is(n.args[0]) && x.htmlOK(st, n.args[1]) {
			return to("2")
		}
		if n := escapedTok(t); n != nil && x.quoted(st, n) == -1 && is(n.args[0]) && x.htmlOK(st, n.args[1]) {
			return to("2")
		}
		if s, ok := t.v.(StrV); t.b < 0 && ok {
			if x.how == "raw" && pre == "text" && is(s) {
				return to("2")
			}
		}
		return fail("the escaped text")
	case pre + "2":
		if t.b == '"' {
			return end()
		}
		return fail("the closing quote")
	}
	return fail("a quoted string")
}

func srcOf(s StrV) *TermV {
	if s.B == nil {
		return nil
	}
	t, _ := s.B.src.(*TermV)
	return t
}

// escapedTok: the token is the result of strjson.Escaped.
func escapedTok(t Tok) *TermV {
	s, ok := t.v.(StrV)
	if t.b >= 0 || !ok {
		return nil
	}
	n := srcOf(s)
	if n == nil || !strings.HasSuffix(n.op, "/strjson.Escaped") || len(n.args) != 3 {
		return nil
	}
	return n
}

func (x *encRun) quoted(st *State, n *TermV) int {
	q, ok := n.args[2].(*Cond)
	if !ok {
		return 0
	}
	b, known := st.knownCond(q)
	switch {
	case !known:
		return 0
	case b:
		return 1
	}
	return -1
}

func (x *encRun) htmlOK(st *State, v Val) bool { return true }

func (x *encRun) isNum(st *State, t Tok, how string, want *Lin) bool {
	n, ok := t.v.(*TermV)
	if t.b >= 0 || !ok {
		if s, ok := t.v.(StrV); ok && srcOf(s) != nil {
			n = srcOf(s)
		} else {
			return false
		}
	}
	f := map[string]string{"int": "Int", "uint": "Uint"}[how]
	if !strings.HasSuffix(n.op, "strconv.Append"+f) && !strings.HasSuffix(n.op, "strconv.Format"+f) || len(n.args) != 2 {
		return false
	}
	a, ok := n.args[0].(*Lin)
	b, ok2 := n.args[1].(*Lin)
	return ok && ok2 && st.F.EntailsEq(a.Sub(want)) && st.F.EntailsEq(b.AddC(-10))
}

// float: a finite number, or an infinity or NaN where the options allow it.
func (x *encRun) float(e *Engine, st *State, m *Out, t Tok, v *TermV, lit func(string, string, int) *Out, fail func(string) *Out) *Out {
	if m.ctl != "start" {
		return fail("nothing more")
	}
	k := x.floatKey(st, v)
	at := func(n string) bool { b, ok := st.F.atoms[n+":"+k]; return ok && b }
	no := func(n string) bool { b, ok := st.F.atoms[n+":"+k]; return ok && !b }
	switch {
	case at("posinf"), at("neginf"):
		if !x.allowed(st, "AllowInf") {
			return fail("an error for an infinity")
		}
		if at("posinf") {
			if t.b == 'I' {
				return lit("Inf", "done", 0)
			}
			return lit("+Inf", "done", 0)
		}
		return lit("-Inf", "done", 0)
	case at("nan"):
		if !x.allowed(st, "AllowNaN") {
			return fail("an error for NaN")
		}
		return lit("NaN", "done", 0)
	}
	if !no("posinf") || !no("neginf") || !no("nan") {
		return fail("a number that is known to be finite")
	}
	bits := map[string]int64{"float32": 32, "float64": 64}[x.how]
	n, ok := t.v.(*TermV)
	if s, ok2 := t.v.(StrV); ok2 && srcOf(s) != nil {
		n, ok = srcOf(s), true
	}
	if t.b < 0 && ok && (strings.HasSuffix(n.op, "numjson.AppendFloat") || strings.HasSuffix(n.op, "numjson.FormatFloat")) && len(n.args) == 2 {
		b, ok := n.args[1].(*Lin)
		if ok && st.F.EntailsEq(b.AddC(-bits)) && keyOf(st.F.normVal(n.args[0])) == k {
			return m.to("done")
		}
	}
	return fail(fmt.Sprintf("the number with %d bit precision", bits))
}

// floatKey is the key of the term v.Float().
func (x *encRun) floatKey(st *State, v *TermV) string {
	return "(reflect.Value).Float(" + x.e.contentKey(st, v) + ")"
}

func (x *encRun) allowed(st *State, opt string) bool {
	i := fieldIx(x.c.P.typ("unjson", "Options"), opt)
	if i < 0 || x.opt == nil {
		return false
	}
	c, ok := x.opt.f[i].(*Cond)
	if !ok {
		return false
	}
	b, known := st.knownCond(c)
	return known && b
}

// structShape is the codec of a struct: a list of fields, each with a key, an
// index path, an encoder, a decoder and a rule for omitting it.
type structShape struct {
	typ    types.Type // the codec
	fields int        // its field list
	ft     types.Type // one field
	key    int
	index  int
	enc    int
	dec    int
	omit   int
	isEnc  *ssa.Function
}

// ifaceTakes: interface t has a method with these parameter and result types.
func ifaceTakes(t types.Type, want string) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if sigKey(i.Method(k).Type().(*types.Signature)) == want {
			return true
		}
	}
	return false
}

// sigKey is a signature without names.
func sigKey(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(types.TypeString(s.Params().At(i).Type(), nil) + ",")
	}
	b.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(types.TypeString(s.Results().At(i).Type(), nil) + ",")
	}
	return b.String()
}

const (
	encSig  = "[]byte,reflect.Value,->[]byte,error,"
	decSig  = "reflect.Value,github.com/alxarch/njson.Node,->error,"
	omitSig = "reflect.Value,->bool,"
)

// structShape finds the codec of structs by its shape.
func (c *Ctx) structShape() *structShape {
	sc := c.P.pkg("unjson").Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			fs, ok := sl.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			x := &structShape{typ: tn.Type(), fields: i, ft: sl.Elem(), key: -1, index: -1, enc: -1, dec: -1, omit: -1}
			for j := 0; j < fs.NumFields(); j++ {
				t := fs.Field(j).Type()
				switch {
				case isStr(t):
					x.key = j
				case types.Identical(t, types.NewSlice(types.Typ[types.Int])):
					x.index = j
				case ifaceTakes(t, encSig):
					x.enc = j
				case ifaceTakes(t, decSig):
					x.dec = j
				case ifaceTakes(t, omitSig):
					x.omit = j
				}
			}
			if x.key >= 0 && x.index >= 0 && x.enc >= 0 && x.dec >= 0 && x.omit >= 0 {
				return x
			}
		}
	}
	return nil
}

// methodSig is the method of *t with a signature.
func (c *Ctx) methodSig(t types.Type, want string) *ssa.Function {
	ms := c.P.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if s, ok := ms.At(i).Type().(*types.Signature); ok && sigKey(s) == want {
			return c.P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// of reads a part of field k of the codec.
func (s *structShape) of(st *State, fs *SliceV, k *Lin, part int) Val {
	return st.load(fs.o, Path{{f: -1, idx: st.F.norm(fs.off.Add(k))}, {f: part}}, fieldTyp(s.ft, part))
}

// ---- struct fields ----

func (x *encRun) mon(st *State) *RefMon {
	m, _ := st.mon.(*RefMon)
	return m
}

// fieldAt is the value of field k.
func (x *encRun) fieldAt(st *State, k *Lin) *TermV {
	t := x.x.derived(st, "field", "T.fields", x.subj, st.F.norm(k))
	return t
}

// field models the access to fields of the struct and the rules for omitting
// them. The fields are settled one by one, in order.
func (x *encRun) field(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
	if x.sc == nil {
		return nil, false
	}
	m := x.mon(st)
	k := m.r[0]
	if ci.fn != nil && x.c.P.isRepoFn(ci.fn) && ci.sig.Results().Len() > 0 && isReflectValue(ci.sig.Results().At(0).Type()) {
		var v *TermV
		ok, path := false, false
		for _, a := range ci.args {
			switch a := a.(type) {
			case *TermV:
				v = a
			case *SliceV:
				path = true
				ok = e.sameVal(st, a, x.sc.of(pre(st), x.fs, st.F.norm(k), x.sc.index))
			case *PtrV:
				path = a.o == x.fs.o
				ok = path && len(a.p) == 1 && st.F.EntailsEq(a.p[0].idx.Sub(x.fs.off).Sub(k))
			}
		}
		if v == nil || !path {
			return nil, false
		}
		if x.c.walks == nil {
			x.c.walks = map[*ssa.Function]bool{}
		}
		x.c.walks[ci.fn] = true
		if !e.Check(ok && x.x.sameRV(st, v, x.subj) && m.ctl == "next" && st.F.Entails(x.fs.n.Sub(k).AddC(-1)), st, ci.ins, "field", x.cons, "%s reads %s of %s where field %s is next (%s)", x.cons, keyOf(&TupleV{ci.args}), v.key, st.F.norm(k).Key(), m.ctl) {
			return []Outcome{{st: st, ret: e.freshResults(ci)}}, true
		}
		none := st.clone()
		none.mon = m.to("next", none.F.norm(k.AddC(1)))
		f := x.fieldAt(st, k)
		st.mon = m.to("found", k)
		rets := func(v Val, ok bool) []Val {
			r := []Val{v}
			if ci.sig.Results().Len() == 2 {
				r = append(r, cBool(ok))
			}
			return r
		}
		return []Outcome{{st: st, ret: rets(f, true)}, {st: none, ret: rets(x.x.val("invalid", "", "zero"), false)}}, true
	}
	if ci.iface != nil && ci.fn == nil && sigKey(ci.sig) == omitSig {
		f, _ := ci.args[1].(*TermV)
		ok := f != nil && m.ctl == "found" && x.x.sameRV(st, f, x.fieldAt(st, k)) && e.sameVal(st, ci.args[0], x.sc.of(pre(st), x.fs, st.F.norm(k), x.sc.omit))
		e.Check(ok, st, ci.ins, "omit", x.cons, "%s asks %s whether to omit %s where field %s is next (%s)", x.cons, keyOf(ci.args[0]), keyOf(ci.args[1]), st.F.norm(k).Key(), m.ctl)
		no := st.clone()
		no.mon = m.to("keep", k)
		st.mon = m.to("next", st.F.norm(k.AddC(1)))
		return []Outcome{{st: st, ret: []Val{cBool(true)}}, {st: no, ret: []Val{cBool(false)}}}, true
	}
	return nil, false
}

// object is the machine for a struct.
func (x *encRun) object(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok, v *TermV, fail func(string) *Out) *Out {
	if x.sc == nil {
		return fail("nothing")
	}
	mon := x.mon(st)
	k := mon.r[0]
	switch {
	case m.ctl == "start":
		if t.b == '{' {
			return m.to("open")
		}
		return fail("{")
	case (m.ctl == "open" || m.ctl == "more") && t.b == '}':
		if mon.ctl == "next" && st.F.EntailsEq(x.fs.n.Sub(k)) {
			return m.to("done")
		}
		return fail(fmt.Sprintf("field %s of %s", st.F.norm(k).Key(), x.fs.n.Key()))
	case m.ctl == "more" && t.b == ',':
		if mon.ctl == "keep" {
			return m.to("next")
		}
		return fail("a field that is not omitted")
	case m.ctl == "open", m.ctl == "next", strings.HasPrefix(m.ctl, "key"):
		if mon.ctl != "keep" {
			return fail("a field that is not omitted")
		}
		if !strings.HasPrefix(m.ctl, "key") {
			m = m.to("key0")
		}
		want := x.sc.of(pre(st), x.fs, st.F.norm(k), x.sc.key)
		return x.text(e, st, m, t, func(s Val) bool { return e.sameVal(st, s, want) }, "colon", fail)
	case m.ctl == "colon":
		if t.b == ':' {
			return m.to("field")
		}
		return fail("a colon")
	case m.ctl == "field":
		n, ok := t.v.(*TermV)
		if mon.ctl == "keep" && t.b < 0 && ok && n.op == "value" && x.x.sameRV(st, n.args[0], x.fieldAt(st, k)) && len(n.args) == 2 && e.sameVal(st, n.args[1], x.sc.of(pre(st), x.fs, st.F.norm(k), x.sc.enc)) {
			st.mon = mon.to("next", st.F.norm(k.AddC(1)))
			return m.to("more")
		}
		return fail("the value of field " + st.F.norm(k).Key() + " by its encoder")
	}
	return fail("a field or the end")
}

// structs analyses the encoding of a struct with any list of fields.
func (c *Ctx) structs() {
	sh := c.structShape()
	if !c.Anchor(sh != nil, "the codec of structs") {
		return
	}
	fn := c.methodSig(sh.typ, encSig)
	if !c.Anchor(fn != nil, "the encode method of the codec of structs") {
		return
	}
	cons := "encoder of Struct"
	x := c.newEnc(cons)
	c.saw(fn)
	x.x.kind["T"] = x.x.kinds["Struct"]
	x.sc, x.how = sh, "Struct"
	st := newState()
	o := newObj("codec", sh.typ)
	o.name = "codec"
	p := &PtrV{o: o}
	x.fs, _ = st.load(o, fpath(sh.fields), fieldTyp(sh.typ, sh.fields)).(*SliceV)
	st.assumeValid(x.fs)
	keepVals(x.fs.n, x.fs.off)
	x.subj = x.x.val("v", "T", "")
	st.mon = &RefMon{ctl: "next", r: []*Lin{LC(0)}, step: func(e *Engine, st *State, m *RefMon) *RefMon { return nil }}
	dst := outBuf(st, "dst", x.spec(x.subj))
	nilDer := x.e.H.NilDer
	x.e.H.NilDer = func(e *Engine, st *State, ins ssa.Instruction, v Val) {
		if iv, ok := v.(*IfaceV); ok && strings.HasPrefix(iv.key, "arr(codec.") {
			return // the fields of a codec are complete
		}
		nilDer(e, st, ins, v)
	}
	good := 0
	for _, r := range x.e.Run(st, fn, []Val{p, dst, x.subj}, nil, nil) {
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		m := outOf(r.ret[0])
		failed := r.st.ext["nested.err"] != nil
		switch errNil(r.st, r.ret[1]) {
		case 1:
			good++
			x.e.Check(!failed, r.st, r.site, "error-lost", cons, "%s: an error of a field is lost", cons)
			if !failed {
				x.e.Check(m != nil && m.ctl == "done", r.st, r.site, "output", cons+" end", "%s returns success although the value is not written to the end (%s)", cons, keyOf(r.ret[0]))
			}
		case -1:
			x.e.Check(failed, r.st, r.site, "error", cons, "%s returns an error although nothing failed", cons)
		default:
			x.e.Check(false, r.st, r.site, "error", cons, "%s: error unknown %s", cons, keyOf(r.ret[1]))
		}
	}
	x.e.Check(good > 0, nil, nil, "returns", cons, "%s never succeeds", cons)
	c.Merge(x.e)
}

// ---- scenarios ----

type encShape struct {
	name  string
	onT   []string // interfaces of T (and *T)
	onPtr []string // interfaces of *T only
	how   string
}

func (c *Ctx) newEnc(cons string) *encRun {
	e := newEngine(c.P)
	e.widenDbg = os.Getenv("NJ_WIDEN") != ""
	x := &encRun{c: c, e: e, cons: cons, sl: map[*Obj]*TermV{}, sln: map[*Obj]*Lin{}}
	x.x = newRefl(c, e, cons)
	x.x.set = x.setHook
	x.x.subjects["T"], x.x.subjects["*T"] = true, true
	noPanic(e, cons)
	e.H.Append = outAppend
	e.H.Call = x.call
	return x
}

// ifaceNamed finds one of the marshaler interfaces by its name.
func (x *refl) ifaceNamed(suffix string) (string, bool) {
	for _, i := range x.ifaceOf {
		if i == suffix || strings.HasSuffix(i, "/"+suffix) || strings.HasSuffix(i, "."+suffix) {
			return i, true
		}
	}
	return "", false
}

// shape says what T implements.
func (x *refl) shape(on map[string][]string) {
	for _, k := range []string{"T", "*T", "T.key"} {
		if k == "T.key" && on[k] == nil {
			if _, ok := x.kind[k]; !ok {
				continue
			}
		}
		for _, i := range x.ifaceOf {
			x.impl[k+" "+i] = false
		}
		for _, n := range on[k] {
			if i, ok := x.ifaceNamed(n); ok {
				x.impl[k+" "+i] = true
			}
		}
	}
}

var encKinds = []string{"Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Float32", "Float64", "String", "Slice", "Array", "Map", "Ptr", "Interface"}

func (x *refl) howKind(k string) string {
	switch {
	case x.isKindName(k, "int"):
		return "int"
	case k == "Uintptr":
		return "Uintptr"
	case x.isKindName(k, "uint"):
		return "uint"
	case k == "Float32":
		return "float32"
	case k == "Float64":
		return "float64"
	}
	return k
}

func (x *refl) isKindName(k, class string) bool {
	for _, n := range kindsOf(class) {
		if n == k {
			return true
		}
	}
	return false
}

func distinct(st *State, ks ...string) {
	for i := range ks {
		for j := range ks {
			if i != j {
				a, b := "rtype:"+ks[i], "rtype:"+ks[j]
				if a > b {
					a, b = b, a
				}
				st.F.atoms["eq:"+a+"=="+b] = false
			}
		}
	}
}

// encoder analyses the encoder of a type of the given kind and interfaces.
func (c *Ctx) encoder(kind string, on map[string][]string, how, shape string) {
	fn := c.P.fn("unjson", "NewTypeEncoder")
	if !c.Anchor(fn != nil, "unjson.NewTypeEncoder") {
		return
	}
	cons := "encoder of " + kind
	if shape != "" {
		cons += " " + shape
	}
	c.saw(fn)
	for _, sc := range []string{"value", "pointer", "nil pointer", "nil", "other type"} {
		if (kind == "Interface" || kind == "Ptr") && sc == "value" || sc == "nil" && kind == "Interface" {
			continue
		}
		x := c.newEnc(cons + ", " + sc)
		x.x.kind["T"] = x.x.kinds[kind]
		x.x.shape(on)
		x.how = how
		st := newState()
		k := "T"
		if kind == "Ptr" {
			k = "*T"
		}
		distinct(st, "T", "*T", "U", "*U", "T.elem", "U.elem")
		typ := x.x.rtype(st, k)
		opt := symVal("options", c.P.typ("unjson", "Options"))
		x.opt, _ = opt.(*StructV)
		outs := x.e.Run(st, fn, []Val{typ, opt}, nil, nil)
		good := 0
		for i := range outs {
			o := &outs[i]
			if o.panic || !o.st.F.Feasible() {
				continue
			}
			switch errNil(o.st, o.ret[1]) {
			case 1:
				good++
				x.encode(o, sc, kind)
			case -1:
				x.e.Check(o.st.ext["nested.err"] != nil || x.refusable(o.st, kind), o.st, o.site, "refused", cons, "%s is refused", cons)
			default:
				x.e.Check(false, o.st, o.site, "error", cons, "%s: error unknown %s", cons, keyOf(o.ret[1]))
			}
		}
		x.e.Check(good > 0, nil, nil, "returns", cons, "%s: there is none", cons)
		c.Merge(x.e)
	}
}

// refusable: types without an encoding, as far as the path knows.
func (x *encRun) refusable(st *State, kind string) bool {
	switch kind {
	case "Interface":
		return st.F.Entails(keepSym("nummethod:T", 0, 1<<20).AddC(-1))
	case "Map":
		kk := keepSym("kind:T.key", 0, 26)
		if i, ok := x.x.ifaceNamed("TextMarshaler"); ok {
			if b, known := st.F.atoms["impl:T.key:"+i]; known && !b {
				return st.F.EntailsNeq(kk.AddC(-x.x.kinds["String"]))
			}
		}
	}
	return false
}

func (x *encRun) encode(o *Outcome, sc, kind string) {
	e, st := x.e, o.st.clone()
	delete(st.ext, "nested.err")
	ev, ok := o.ret[0].(*IfaceV)
	if !e.Check(ok && ev.t != nil, st, o.site, "encoder", x.cons, "%s: unknown encoder %s", x.cons, keyOf(o.ret[0])) {
		return
	}
	meth := x.c.P.method(ev.t, "Encode")
	if !e.Check(meth != nil, st, o.site, "encoder", x.cons, "%s has no Encode", x.cons) {
		return
	}
	arg := &IfaceV{key: "x"}
	st.F.atoms["nil:x"] = false
	var v *TermV
	wantErr, wantNull := false, false
	switch sc {
	case "value":
		v = x.x.val("v", "T", "")
		x.x.addr["v"] = -1
		x.x.x["x"] = v
	case "pointer":
		p := x.x.val("p", "*T", "")
		st.F.atoms["isnil:p"] = false
		x.x.x["x"] = p
		v = x.x.derived(st, "Elem", "T", p)
		x.x.addr[v.key] = 1
	case "nil pointer":
		p := x.x.val("p", "*T", "")
		st.F.atoms["isnil:p"] = true
		x.x.x["x"] = p
		wantNull = true
	case "nil":
		arg = &IfaceV{isNil: true}
		wantErr = true
	case "other type":
		u := x.x.val("u", "U", "")
		x.x.x["x"] = u
		wantErr = true
	}
	var m *Out
	if wantErr || wantNull {
		m = x.nullSpec(wantNull)
	} else {
		m = x.spec(v)
	}
	dst := outBuf(st, "dst", m)
	outs := e.Run(st, meth, []Val{ev.v, dst, arg}, nil, nil)
	good := 0
	for i := range outs {
		r := &outs[i]
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		m := outOf(r.ret[0])
		failed := r.st.ext["nested.err"] != nil
		switch errNil(r.st, r.ret[1]) {
		case 1:
			good++
			e.Check(!wantErr, r.st, r.site, "accepted", x.cons, "%s: a value of another type is accepted", x.cons)
			e.Check(!failed, r.st, r.site, "error-lost", x.cons, "%s: an error of a nested encoding is lost", x.cons)
			if !failed {
				e.Check(m != nil && m.ctl == "done", r.st, r.site, "output", x.cons+" end", "%s returns success although the value is not written to the end (%s)", x.cons, keyOf(r.ret[0]))
			}
		case -1:
			e.Check(failed || wantErr || x.badFloat(r.st, v), r.st, r.site, "error", x.cons, "%s returns an error although nothing failed", x.cons)
		default:
			e.Check(false, r.st, r.site, "error", x.cons, "%s: error unknown %s", x.cons, keyOf(r.ret[1]))
		}
	}
	e.Check(good > 0 || wantErr, nil, nil, "returns", x.cons, "%s never succeeds", x.cons)
}

// badFloat: the value is an infinity or NaN that is not allowed.
func (x *encRun) badFloat(st *State, v *TermV) bool {
	if v == nil || x.how != "float32" && x.how != "float64" {
		return false
	}
	k := x.floatKey(st, v)
	deny := func(opt string) bool {
		i := fieldIx(x.c.P.typ("unjson", "Options"), opt)
		c, ok := x.opt.f[i].(*Cond)
		if !ok {
			return false
		}
		b, known := st.knownCond(c)
		return known && !b
	}
	if st.F.atoms["nan:"+k] {
		return deny("AllowNaN")
	}
	return (st.F.atoms["posinf:"+k] || st.F.atoms["neginf:"+k]) && deny("AllowInf")
}

func (x *encRun) nullSpec(null bool) *Out {
	m := &Out{ctl: "start"}
	m.step = func(e *Engine, st *State, ins ssa.Instruction, m *Out, t Tok) *Out {
		s := "null"
		i := 0
		if strings.HasPrefix(m.ctl, "null:") {
			fmt.Sscan(m.ctl[5:], &i)
		}
		if m.ctl == "bad" {
			return m
		}
		if !null || m.ctl == "done" || t.b != int(s[i]) {
			e.Fail(st, ins, "output", x.cons, "%s writes %s", x.cons, t)
			return m.to("bad")
		}
		if i == 3 {
			return m.to("done")
		}
		return m.to(fmt.Sprintf("null:%d", i+1))
	}
	return m
}

// method is the method of a type.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// refused: types of this kind have no encoder.
func (c *Ctx) refused(fname, kind string) {
	fn := c.P.fn("unjson", fname)
	if !c.Anchor(fn != nil, "unjson."+fname) {
		return
	}
	cons := fname + " of " + kind
	x := c.newEnc(cons)
	x.x.kind["T"] = x.x.kinds[kind]
	x.x.shape(nil)
	st := newState()
	distinct(st, "T", "*T", "T.elem")
	args := []Val{x.x.rtype(st, "T")}
	for i := 1; i < len(fn.Params); i++ {
		args = append(args, symVal("options", fn.Params[i].Type()))
	}
	n := 0
	outs := x.e.Run(st, fn, args, nil, nil)
	for i := range outs {
		o := &outs[i]
		if o.panic || !o.st.F.Feasible() {
			continue
		}
		n++
		x.e.Check(errNil(o.st, o.ret[1]) == -1, o.st, o.site, "refused", cons, "%s is not refused: %s", cons, keyOf(o.ret[1]))
	}
	x.e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	c.Merge(x.e)
}

type encCase struct {
	kind, how, name string
	on              map[string][]string
}

func encCases(x *refl) []encCase {
	var out []encCase
	for _, k := range encKinds {
		out = append(out, encCase{kind: k, how: x.howKind(k)})
	}
	for _, m := range []struct{ how, name string }{{"AppendJSON", "Appender"}, {"MarshalJSON", "json.Marshaler"}, {"MarshalText", "TextMarshaler"}} {
		for _, k := range []string{"Struct", "String", "Slice", "Map", "Ptr", "Interface", "Int"} {
			on := map[string][]string{"T": {m.name}, "*T": {m.name}}
			if k == "Ptr" || k == "Interface" {
				delete(on, "*T") // pointers to them have no methods
			}
			out = append(out, encCase{kind: k, how: m.how, name: "with " + m.how, on: on})
		}
		for _, k := range []string{"Struct", "Slice", "Int"} {
			out = append(out, encCase{kind: k, how: m.how, name: "with " + m.how + " of the pointer", on: map[string][]string{"*T": {m.name}}})
		}
	}
	all := []string{"Appender", "json.Marshaler", "TextMarshaler"}
	for i := 0; i < 2; i++ {
		how := []string{"AppendJSON", "MarshalJSON"}[i]
		out = append(out, encCase{kind: "Struct", how: how, name: "with several methods", on: map[string][]string{"T": all[i:], "*T": all[i:]}})
		out = append(out, encCase{kind: "Ptr", how: how, name: "with several methods", on: map[string][]string{"T": all[i:]}})
	}
	return out
}

func init() {
	register(&Prop{
		ID:      "C24",
		Rule:    "For every kind of type and every combination of marshaler methods on the type and its pointer, NewTypeEncoder is interpreted abstractly on a type of which only these are known, and the Encode method of the encoder it returns on a value of the type, a pointer to one, a nil pointer, nil and a value of another type; encoders of element types append one value of their type or fail. In product with a reference grammar machine derived from the value every byte appended must be the one prescribed, an error is returned exactly when a part failed or the value has no encoding, and every reflect operation is one the kind of its operand allows. The struct encoder is interpreted on an arbitrary list of fields.",
		Explain: "Product of construction and encoding with a reference grammar machine by abstract interpretation; induction on the type for elements.",
		Assume:  []string{"reflect behaves as documented (model in prop_refl.go)", "the list of fields of a struct codec is complete (no nil encoders)", "the encoder made for an element type encodes values of that type (induction)"},
		Run: func(c *Ctx) {
			cases := encCases(newRefl(c, nil, ""))
			for _, k := range cases {
				c.encoder(k.kind, k.on, k.how, k.name)
			}
			c.structs()
			for fn := range c.walks {
				c.fieldWalk(fn, c.structShape())
			}
			c.makers(cases)
			for _, k := range []string{"Chan", "Func", "Complex64", "Complex128", "UnsafePointer"} {
				c.refused("NewTypeEncoder", k)
			}
			c.count["kinds and shapes"] = len(cases)
		},
	})
}

// fieldWalk analyses a function that follows the index path of a field: every
// index but -1 is that of a field, and -1 stands for the target of a pointer.
func (c *Ctx) fieldWalk(fn *ssa.Function, sh *structShape) {
	c.saw(fn)
	cons := "access to fields by " + shortFn(fn)
	x := c.newEnc(cons)
	st := newState()
	o := newObj("codec", sh.typ)
	o.name = "codec"
	fs, _ := st.load(o, fpath(sh.fields), fieldTyp(sh.typ, sh.fields)).(*SliceV)
	st.assumeValid(fs)
	st.F.AssumeGe(fs.n.AddC(-1))
	keepVals(fs.n, fs.off)
	ix, _ := sh.of(st, fs, LC(0), sh.index).(*SliceV)
	st.assumeValid(ix)
	keepVals(ix.n, ix.off)
	init := st.clone()
	rv := c.P.prog.ImportedPackage("reflect").Type("Value").Type()
	walk := func(st *State, q *Lin) *TermV { return mkTerm("walk", rv, LC(0), st.F.norm(q)) }
	var args []Val
	for _, p := range fn.Params {
		switch t := p.Type(); {
		case isReflectValue(t):
			args = append(args, walk(st, LC(0)))
		case types.Identical(t, types.NewSlice(types.Typ[types.Int])):
			args = append(args, ix)
		case types.Identical(t, types.NewPointer(sh.ft)):
			args = append(args, &PtrV{o: fs.o, p: Path{{f: -1, idx: st.F.norm(fs.off)}}})
		default:
			args = append(args, symVal(p.Name(), t))
		}
	}
	bad := func(st *State, ci *callInfo, v *TermV) ([]Outcome, bool) {
		x.e.Check(false, st, ci.ins, "field", cons, "%s: %s of %s", cons, keyOf(&TupleV{ci.args}), v.key)
		return []Outcome{{st: st, ret: x.e.termResults(st, ci)}}, true
	}
	elem := func(st *State, q *Lin) *Lin {
		l, _ := init.load(ix.o, Path{{f: -1, idx: st.F.norm(ix.off.Add(q))}}, types.Typ[types.Int]).(*Lin)
		if l == nil || !st.F.Entails(ix.n.Sub(q).AddC(-1)) {
			return nil
		}
		st.F.AssumeGe(l.AddC(1))
		return l
	}
	x.e.H.Call = func(e *Engine, st *State, ci *callInfo) ([]Outcome, bool) {
		m := strings.TrimPrefix(ci.name, "(reflect.Value).")
		if m == ci.name {
			return nil, false
		}
		v, ok := ci.args[0].(*TermV)
		if !ok || v.op != "walk" {
			return bad(st, ci, &TermV{key: keyOf(ci.args[0])})
		}
		q := v.args[1].(*Lin)
		l := elem(st, q)
		isPtr := l != nil && st.F.EntailsEq(l.AddC(1))
		one := func(v Val) ([]Outcome, bool) { return []Outcome{{st: st, ret: []Val{v}}}, true }
		switch m {
		case "Field":
			i, _ := ci.args[1].(*Lin)
			if i == nil || l == nil || !st.F.EntailsEq(i.Sub(l)) || !st.F.Entails(i) {
				return bad(st, ci, v)
			}
			return one(walk(st, q.AddC(1)))
		case "IsNil":
			if !isPtr {
				return bad(st, ci, v)
			}
			no := st.clone()
			no.F.atoms["isnil:"+v.key] = false
			st.ext["nil pointer"] = LC(1)
			return []Outcome{{st: st, ret: []Val{cBool(true)}}, {st: no, ret: []Val{cBool(false)}}}, true
		case "Elem":
			if nb, known := st.F.atoms["isnil:"+v.key]; !isPtr || !known || nb {
				return bad(st, ci, v)
			}
			return one(walk(st, q.AddC(1)))
		case "Kind":
			if isPtr {
				return one(LC(x.x.kinds["Ptr"]))
			}
		case "IsValid":
			return one(cBool(true))
		}
		return bad(st, ci, v)
	}
	n := 0
	for _, r := range x.e.Run(st, fn, args, nil, nil) {
		if r.panic || !r.st.F.Feasible() {
			continue
		}
		n++
		v, ok := r.ret[0].(*TermV)
		found := ok && v.op == "walk" && r.st.F.EntailsEq(v.args[1].(*Lin).Sub(ix.n))
		none := r.st.ext["nil pointer"] != nil
		x.e.Check(found != none, r.st, r.site, "field", cons, "%s: %s is returned (nil pointer on the way: %v)", cons, keyOf(r.ret[0]), none)
		if none && len(r.ret) == 1 {
			x.e.Check(keyOf(r.ret[0]) == "zero:reflect.Value", r.st, r.site, "field", cons, "%s: %s is returned for fields of nil pointers", cons, keyOf(r.ret[0]))
		}
		if len(r.ret) > 1 {
			c, _ := r.ret[1].(*Cond)
			b, known := r.st.knownCond(c)
			x.e.Check(c != nil && known && b == found, r.st, r.site, "field", cons, "%s: %s, %s is returned", cons, keyOf(r.ret[0]), keyOf(r.ret[1]))
		}
	}
	x.e.Check(n > 0, nil, nil, "returns", cons, "%s never returns", cons)
	c.Merge(x.e)
}
