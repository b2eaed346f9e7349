package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
//
//	*Lin      integer
//	*Cond     boolean
//	StrV      string
//	*SliceV   slice
//	*PtrV     pointer to a location
//	*StructV  struct / array value
//	*IfaceV   interface
//	*FuncV    function / closure
//	*TupleV   multiple results
//	*TermV    opaque term (floats, maps, channels, reflect values, ...)
//	*NilV     nil pointer/map/func/chan
type Val interface{ Key() string }

// StrBase identifies the contents of a string.
type StrBase struct {
	name  string
	isLit bool
	lit   string
	n     *Lin // length
	src   Val  // provenance (opaque term it was made from), optional
	emit  interface{}
}

type StrV struct {
	B      *StrBase
	lo, hi *Lin
}

func (s StrV) Key() string {
	if l, ok := s.lit(); ok {
		return fmt.Sprintf("%q", l)
	}
	if s.lo.Key() == "0" && s.hi.Key() == s.B.n.Key() {
		return s.B.name
	}
	return s.B.name + "[" + s.lo.Key() + ":" + s.hi.Key() + "]"
}
func (s StrV) lit() (string, bool) {
	if !s.B.isLit {
		return "", false
	}
	a, ok1 := s.lo.constInt()
	b, ok2 := s.hi.constInt()
	if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(s.B.lit)) {
		return s.B.lit[a:b], true
	}
	return "", false
}
func (s StrV) length() *Lin { return s.hi.Sub(s.lo) }

var litTab = map[string]*StrBase{}

func litBase(s string) *StrBase {
	if b := litTab[s]; b != nil {
		return b
	}
	b := &StrBase{name: fmt.Sprintf("%q", s), isLit: true, lit: s, n: LC(int64(len(s)))}
	litTab[s] = b
	return b
}
func strLit(s string) StrV { return StrV{litBase(s), LC(0), LC(int64(len(s)))} }

var maxLen = new(big.Int).Lsh(bi(1), 47)

var baseTab = map[string]*StrBase{}

func strBase(name string) *StrBase {
	if b := baseTab[name]; b != nil {
		return b
	}
	b := &StrBase{name: name, n: LS(newSym("len("+name+")", bi(0), maxLen))}
	baseTab[name] = b
	return b
}
func strSym(name string) StrV { b := strBase(name); return StrV{b, LC(0), b.n} }

// Obj is an abstract memory object: an allocation, the target of a symbolic
// pointer, or the backing array of a slice (region).
type Obj struct {
	id       int
	name     string
	typ      types.Type // type of the object (region: element type)
	region   bool
	fresh    bool // allocated by the analysed code: cells start as zero values
	maybeNil bool // symbolic pointer that may be nil
	src      *StrV
	stack    bool
	tag      string
	plain    bool   // loop shapes do not tell it from allocated memory
	alts     []*Obj // the objects a generalised one stands for
}

// leaves lists the concrete objects o may be.
func (o *Obj) leaves() []*Obj {
	if len(o.alts) == 0 {
		return []*Obj{o}
	}
	seen := map[*Obj]bool{}
	var out []*Obj
	var walk func(o *Obj)
	walk = func(o *Obj) {
		if seen[o] {
			return
		}
		seen[o] = true
		if len(o.alts) == 0 {
			out = append(out, o)
		}
		for _, a := range o.alts {
			walk(a)
		}
	}
	walk(o)
	return out
}

var objN int

func newObj(name string, t types.Type) *Obj {
	objN++
	return &Obj{id: objN, name: fmt.Sprintf("%s@%d", name, objN), typ: t}
}

type pe struct {
	f   int // field index, or -1 for an element
	idx *Lin
}
type Path []pe

func (p Path) Key() string {
	var sb strings.Builder
	for _, e := range p {
		if e.f >= 0 {
			fmt.Fprintf(&sb, ".%d", e.f)
		} else {
			sb.WriteString("[" + e.idx.Key() + "]")
		}
	}
	return sb.String()
}
func (p Path) with(e pe) Path {
	q := make(Path, len(p)+1)
	copy(q, p)
	q[len(p)] = e
	return q
}

type PtrV struct {
	o *Obj
	p Path
}

func (p *PtrV) Key() string { return "&" + p.o.name + p.p.Key() }

type SliceV struct {
	o           *Obj // region
	off, n, cap *Lin
	nilKey      string // atom deciding nil-ness; "" = not nil
	isNil       bool
	emit        Emit // content monitor for byte buffers
}

func (s *SliceV) Key() string {
	if s.isNil {
		return "nil[]"
	}
	e := ""
	if s.emit != nil {
		e = "|" + s.emit.Key()
	}
	return "slice(" + s.o.name + "," + s.off.Key() + "," + s.n.Key() + "," + s.cap.Key() + e + ")"
}

// Emit is an abstraction of the bytes appended to a buffer.
type Emit interface {
	Key() string
	Skel() string
}

type StructV struct {
	f []Val
}

func (s *StructV) Key() string {
	var ks []string
	for _, f := range s.f {
		ks = append(ks, keyOf(f))
	}
	return "{" + strings.Join(ks, ",") + "}"
}

type IfaceV struct {
	isNil bool
	t     types.Type // dynamic type if known
	v     Val
	key   string // unknown: identity
}

func (i *IfaceV) Key() string {
	if i.isNil {
		return "nil-iface"
	}
	if i.t != nil {
		return "iface(" + i.t.String() + ":" + keyOf(i.v) + ")"
	}
	return i.key
}

type FuncV struct {
	fn   *ssa.Function
	free []Val
}

func (f *FuncV) Key() string {
	var ks []string
	for _, x := range f.free {
		ks = append(ks, keyOf(x))
	}
	return "func:" + f.fn.String() + "[" + strings.Join(ks, ",") + "]"
}

type TupleV struct{ f []Val }

func (t *TupleV) Key() string {
	var ks []string
	for _, x := range t.f {
		ks = append(ks, keyOf(x))
	}
	return "(" + strings.Join(ks, ",") + ")"
}

// TermV is an opaque value identified by its key.
type TermV struct {
	key  string
	typ  types.Type
	args []Val
	op   string
	site ssa.Instruction
}

func (t *TermV) Key() string { return t.key }

// structural terms are joined argument by argument.
func (t *TermV) structural() bool { return t.op == "walk" }

func mkTerm(op string, typ types.Type, args ...Val) *TermV {
	ks := make([]string, len(args))
	for i, a := range args {
		ks[i] = keyOf(a)
	}
	return &TermV{key: op + "(" + strings.Join(ks, ",") + ")", typ: typ, args: args, op: op}
}

type NilV struct{ typ types.Type }

func (n *NilV) Key() string { return "nil" }

func (l *Lin) isVal() {}

func keyOf(v Val) string {
	if v == nil {
		return "?"
	}
	return v.Key()
}

// Cond is a boolean value.
type Cond struct {
	kind byte // 'c' const, 'g' l>=0, 'e' l==0, 'a' atom, 's' string equality with literal, '&' conj, '|' disj
	b    bool
	l    *Lin
	atom string
	s    StrV
	lit  string
	neg  bool
	sub  []*Cond
	src  Val
}

func (c *Cond) Key() string {
	n := ""
	if c.neg {
		n = "!"
	}
	switch c.kind {
	case 'c':
		return fmt.Sprint(c.b != c.neg)
	case 'g':
		return n + "(" + c.l.Key() + ">=0)"
	case 'e':
		return n + "(" + c.l.Key() + "==0)"
	case 'a':
		return n + c.atom
	case 's':
		return n + "(" + c.s.Key() + "==" + fmt.Sprintf("%q", c.lit) + ")"
	default:
		var ks []string
		for _, x := range c.sub {
			ks = append(ks, x.Key())
		}
		return n + "(" + strings.Join(ks, string(c.kind)) + ")"
	}
}

func cBool(b bool) *Cond   { return &Cond{kind: 'c', b: b} }
func cGe(l *Lin) *Cond     { return &Cond{kind: 'g', l: l} }
func cEq(l *Lin) *Cond     { return &Cond{kind: 'e', l: l} }
func cAtom(k string) *Cond { return &Cond{kind: 'a', atom: k} }
func cNot(c *Cond) *Cond {
	d := *c
	d.neg = !d.neg
	return &d
}
func cAnd(cs ...*Cond) *Cond { return &Cond{kind: '&', sub: cs} }

// intRange returns the value range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		bits = 32
	}
	if b.Info()&types.IsUnsigned != 0 {
		hi = new(big.Int).Sub(new(big.Int).Lsh(bi(1), bits), bi(1))
		return bi(0), hi, true
	}
	hi = new(big.Int).Sub(new(big.Int).Lsh(bi(1), bits-1), bi(1))
	lo = new(big.Int).Neg(new(big.Int).Lsh(bi(1), bits-1))
	return lo, hi, true
}
func intBits(t types.Type) (bits uint, unsigned bool) {
	b := t.Underlying().(*types.Basic)
	bits = 64
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		bits = 32
	}
	return bits, b.Info()&types.IsUnsigned != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

var initTab = map[string]Val{}

// symVal makes (and caches by name) the symbolic value of a type.
func symVal(name string, t types.Type) Val {
	if v, ok := initTab[name]; ok {
		return v
	}
	v := mkSymVal(name, t)
	initTab[name] = v
	return v
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

// opaqueStruct types are kept as terms.
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if p := n.Obj().Pkg().Path(); p == "reflect" {
		return n.Obj().Name() != "Method" && n.Obj().Name() != "StructField"
	}
	return !strings.HasPrefix(n.Obj().Pkg().Path(), repoMod)
}

const repoMod = "github.com/alxarch/njson"

func mkSymVal(name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cAtom(name)
		case u.Info()&types.IsInteger != 0:
			bits, uns := intBits(t)
			if bits == 8 && uns {
				return LS(newByteSym(name))
			}
			if bits == 16 && uns {
				lo, hi := newByteSym(name+".lo"), newByteSym(name+".hi")
				return LS(lo).Add(linOfFin(hi, scaleVec(256)))
			}
			lo, hi, _ := intRange(t)
			return LS(newSym(name, lo, hi))
		case u.Info()&types.IsString != 0:
			return strSym(name)
		}
		return &TermV{key: name, typ: t}
	case *types.Struct:
		if opaqueStruct(t) {
			return &TermV{key: name, typ: t}
		}
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, symVal(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 16 {
			s := &StructV{}
			for i := int64(0); i < u.Len(); i++ {
				s.f = append(s.f, symVal(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
			}
			return s
		}
		return &TermV{key: name, typ: t}
	case *types.Pointer:
		o := newObj("*"+name, u.Elem())
		o.name = "*" + name
		o.maybeNil = true
		return &PtrV{o: o}
	case *types.Slice:
		o := newObj("arr("+name+")", u.Elem())
		o.name = "arr(" + name + ")"
		o.region = true
		n := newSym("len("+name+")", bi(0), maxLen)
		c := newSym("cap("+name+")", bi(0), maxLen)
		sliceCaps[n] = c
		return &SliceV{o: o, off: LC(0), n: LS(n), cap: LS(c), nilKey: "nil:" + name}
	case *types.Interface:
		return &IfaceV{key: name}
	}
	return &TermV{key: name, typ: t}
}

// sliceCaps records len<=cap pairs of symbolic slices; assumed when first used.
var sliceCaps = map[*Sym]*Sym{}

func scaleVec(k int64) (v [256]int64) {
	for i := range v {
		v[i] = int64(i) * k
	}
	return
}

// zeroVal is the zero value of a type.
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsInteger != 0:
			return LC(0)
		case u.Info()&types.IsString != 0:
			return strLit("")
		case u.Kind() == types.UntypedNil:
			return &NilV{t}
		}
		return &TermV{key: "const:0:" + u.String(), typ: t}
	case *types.Struct:
		if opaqueStruct(t) {
			return &TermV{key: "zero:" + t.String(), typ: t}
		}
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 16 {
			s := &StructV{}
			for i := int64(0); i < u.Len(); i++ {
				s.f = append(s.f, zeroVal(u.Elem()))
			}
			return s
		}
		return &TermV{key: "zero:" + t.String(), typ: t}
	case *types.Slice:
		return nilSlice(t)
	case *types.Interface:
		return &IfaceV{isNil: true}
	}
	return &NilV{t}
}

var nilRegion = func() *Obj { o := newObj("nilarr", nil); o.region = true; return o }()

func nilSlice(t types.Type) *SliceV {
	return &SliceV{o: nilRegion, off: LC(0), n: LC(0), cap: LC(0), isNil: true}
}
