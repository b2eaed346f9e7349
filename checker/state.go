package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cell struct {
	p Path
	v Val
	t types.Type
}

// ObjState is the state of one object; immutable once published.
type ObjState struct {
	origin string // names the unknown contents; "" zero-initialised
	cells  []cell
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []deferred
	site   ssa.Instruction
}
type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	ins  ssa.Instruction
}

func (f *Frame) clone() *Frame {
	g := &Frame{fn: f.fn, site: f.site, defers: append([]deferred(nil), f.defers...), regs: make(map[ssa.Value]Val, len(f.regs))}
	for k, v := range f.regs {
		g.regs[k] = v
	}
	return g
}

// Mon is a property monitor carried by the state.
type Mon interface {
	Key() string              // full key
	Skel() string             // discrete part
	Ints() []*Lin             // linear registers
	WithInts([]*Lin) Mon      // rebuild
	Sync(e *Engine, s *State) // advance as far as facts allow (called before merging)
}

type State struct {
	F      *Facts
	frames []*Frame
	heap   map[*Obj]*ObjState
	mon    Mon
	trace  []string
	ext    map[string]Val  // analysis specific registers
	lin    map[linRef]bool // loop records this state derives from (none: from the entry)
	isPre  bool            // a view of the memory before the call
}

// preTab records the names given to the initial contents of memory.
var preTab = map[*Obj][]cell{}

// pre is a view of the memory before the call, under the facts of st.
func pre(st *State) *State {
	p := newState()
	p.F = st.F
	p.isPre = true
	return p
}

func newState() *State {
	return &State{F: newFacts(), heap: map[*Obj]*ObjState{}, ext: map[string]Val{}, lin: map[linRef]bool{}}
}
func (s *State) clone() *State {
	t := &State{F: s.F.clone(), mon: s.mon, trace: s.trace[:len(s.trace):len(s.trace)]}
	t.frames = append([]*Frame(nil), s.frames...)
	if n := len(t.frames); n > 0 {
		t.frames[n-1] = t.frames[n-1].clone()
	}
	t.heap = make(map[*Obj]*ObjState, len(s.heap))
	for k, v := range s.heap {
		t.heap[k] = v
	}
	t.ext = make(map[string]Val, len(s.ext))
	for k, v := range s.ext {
		t.ext[k] = v
	}
	t.lin = make(map[linRef]bool, len(s.lin))
	for k, v := range s.lin {
		t.lin[k] = v
	}
	return t
}
func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }
func (s *State) note(f string, a ...interface{}) {
	s.trace = append(s.trace[:len(s.trace):len(s.trace)], fmt.Sprintf(f, a...))
}

func (s *State) ostate(o *Obj) *ObjState {
	if st := s.heap[o]; st != nil {
		return st
	}
	if o.fresh {
		return &ObjState{}
	}
	return &ObjState{origin: o.name}
}

func (s *State) setOState(o *Obj, st *ObjState) { s.heap[o] = st }

const (
	idxEq = iota
	idxNe
	idxMay
)

func (s *State) cmpPath(a, b Path) int {
	if len(a) != len(b) {
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		r := s.cmpPath(a[:n], b[:n])
		if r == idxNe {
			return idxNe
		}
		return idxMay
	}
	res := idxEq
	for i := range a {
		if (a[i].f >= 0) != (b[i].f >= 0) {
			return idxNe
		}
		if a[i].f >= 0 {
			if a[i].f != b[i].f {
				return idxNe
			}
			continue
		}
		if a[i].idx.Key() == b[i].idx.Key() {
			continue
		}
		d := a[i].idx.Sub(b[i].idx)
		if s.F.EntailsEq(d) {
			continue
		}
		if s.F.EntailsNeq(d) {
			return idxNe
		}
		res = idxMay
	}
	return res
}

// elemType resolves the type at a path of an object.
func typeAt(t types.Type, region bool, p Path) types.Type {
	if region {
		if len(p) == 0 {
			return t
		}
		p = p[1:] // element index
	}
	for _, e := range p {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(e.f).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return t
		}
	}
	return t
}

// aggregate types are exploded into leaf cells.
func explode(t types.Type) (n int, at func(i int) (types.Type, pe), ok bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(t) {
			return 0, nil, false
		}
		return u.NumFields(), func(i int) (types.Type, pe) { return u.Field(i).Type(), pe{f: i} }, true
	case *types.Array:
		if u.Len() > 16 {
			return 0, nil, false
		}
		return int(u.Len()), func(i int) (types.Type, pe) { return u.Elem(), pe{f: -1, idx: LC(int64(i))} }, true
	}
	return 0, nil, false
}

func (s *State) initCell(o *Obj, st *ObjState, p Path, t types.Type) Val {
	if st.origin == "" {
		return zeroVal(t)
	}
	q := make(Path, len(p))
	for i, e := range p {
		if e.f < 0 {
			e.idx = s.F.norm(e.idx)
		}
		q[i] = e
	}
	if s.isPre {
		for _, c := range preTab[o] {
			if types.Identical(c.t, t) && s.cmpPath(c.p, q) == idxEq {
				return c.v
			}
		}
	}
	v := symVal(st.origin+q.Key(), t)
	if st.origin == o.name {
		regOrg(v, o, q, t)
		if _, ok := preSeen[v]; !ok {
			if c, isC := v.(StrV); !isC || c.B != nil {
				preSeen[v] = true
				preTab[o] = append(preTab[o], cell{q, v, t})
			}
		}
	}
	return v
}

var preSeen = map[Val]bool{}

// lookupCell finds the cell for a leaf path. amb lists indexes of cells that
// may or may not be the same location.
func (s *State) lookupCell(o *Obj, p Path) (i int, amb []int) {
	st := s.ostate(o)
	i = -1
	if watched(p) {
		for k, c := range st.cells {
			if watched(c.p) && c.p.Key() == p.Key() {
				return k, nil
			}
		}
	}
	for k := len(st.cells) - 1; k >= 0; k-- {
		c := st.cells[k]
		switch s.cmpPath(c.p, p) {
		case idxEq:
			if len(watchSyms) > 0 && !watched(c.p) {
				// a location named by the specification is known more precisely
				for k2 := k - 1; k2 >= 0; k2-- {
					if watched(st.cells[k2].p) && s.cmpPath(st.cells[k2].p, p) == idxEq {
						return k2, amb
					}
				}
			}
			return k, amb
		case idxMay:
			amb = append(amb, k)
		}
	}
	return -1, amb
}

// readLeaf reads a leaf; the caller must have resolved ambiguity (forked).
func (s *State) readLeaf(o *Obj, p Path, t types.Type) Val {
	if o.src != nil && len(p) == 1 {
		if i, _ := s.lookupCell(o, p); i < 0 {
			return s.byteAt(*o.src, p[0].idx)
		}
	}
	i, amb := s.lookupCell(o, p)
	st := s.ostate(o)
	if i >= 0 {
		// every cell is right for its own location: a store that may hit it resets it
		return st.cells[i].v
	}
	n := 0
	for _, k := range amb {
		// a cell that still holds initial contents is just the same function symbol
		if !s.isInit(o, st, st.cells[k]) {
			n++
		}
	}
	if n > 0 {
		// ambiguous: unknown contents
		return symVal(fmt.Sprintf("amb:%s%s:%d", o.name, p.Key(), len(st.cells)), t)
	}
	v := s.initCell(o, st, p, t)
	s.setOState(o, &ObjState{origin: st.origin, cells: append(st.cells[:len(st.cells):len(st.cells)], cell{p, v, t})})
	s.assumeValid(v)
	return v
}

// assumeValid adds intrinsic facts of a symbolic value (len <= cap).
func (s *State) assumeValid(v Val) {
	switch v := v.(type) {
	case *SliceV:
		if len(v.n.t) == 1 {
			if c := sliceCaps[v.n.t[0].s]; c != nil {
				s.F.AssumeGe(LS(c).Sub(LS(v.n.t[0].s)))
			}
		}
	case *StructV:
		for _, f := range v.f {
			s.assumeValid(f)
		}
	}
}

func (s *State) writeLeaf(o *Obj, p Path, t types.Type, v Val) {
	st := s.ostate(o)
	var cs []cell
	done := false
	for _, c := range st.cells {
		switch s.cmpPath(c.p, p) {
		case idxEq:
			if watched(c.p) {
				cs = append(cs, cell{c.p, v, t})
			} else {
				cs = append(cs, cell{p, v, t})
			}
			done = true
		case idxMay:
			havocN++
			cs = append(cs, cell{c.p, symVal(fmt.Sprintf("may:%s%s:%d", o.name, c.p.Key(), havocN), c.t), c.t})
		default:
			cs = append(cs, c)
		}
	}
	if !done {
		cs = append(cs, cell{p, v, t})
	}
	s.setOState(o, &ObjState{origin: st.origin, cells: cs})
}

var havocN int

// load reads a (possibly aggregate) value.
func (s *State) load(o *Obj, p Path, t types.Type) Val {
	if n, at, ok := explode(t); ok {
		r := &StructV{}
		for i := 0; i < n; i++ {
			ft, e := at(i)
			r.f = append(r.f, s.load(o, p.with(e), ft))
		}
		return r
	}
	return s.readLeaf(o, p, t)
}

func (s *State) store(o *Obj, p Path, t types.Type, v Val) {
	if n, at, ok := explode(t); ok {
		sv, isS := v.(*StructV)
		for i := 0; i < n; i++ {
			ft, e := at(i)
			var fv Val
			if isS && i < len(sv.f) {
				fv = sv.f[i]
			} else {
				havocN++
				fv = symVal(fmt.Sprintf("field:%s:%d", keyOf(v), havocN), ft)
			}
			s.store(o, p.with(e), ft, fv)
		}
		return
	}
	s.writeLeaf(o, p, t, v)
}

// havocObj forgets everything about an object.
func (s *State) havocObj(o *Obj, why string) {
	havocN++
	s.setOState(o, &ObjState{origin: fmt.Sprintf("havoc%d:%s", havocN, o.name)})
}

// byteAt names s[i].
func (s *State) byteAt(str StrV, i *Lin) *Lin {
	idx := s.F.norm(str.lo.Add(i))
	if str.B.isLit {
		if k, ok := idx.constInt(); ok && 0 <= k && k < int64(len(str.B.lit)) {
			return LC(int64(str.B.lit[k]))
		}
		if b, v, ok := idx.asFin(); ok {
			var out [256]int64
			st := s.F.setOf(b)
			good := true
			for j := 0; j < 256; j++ {
				if st.Has(j) {
					if v[j] < 0 || v[j] >= int64(len(str.B.lit)) {
						good = false
						break
					}
					out[j] = int64(str.B.lit[v[j]])
				}
			}
			if good {
				// fill the impossible inputs with a possible output
				fill := int64(0)
				for j := 0; j < 256; j++ {
					if st.Has(j) {
						fill = out[j]
						break
					}
				}
				for j := 0; j < 256; j++ {
					if !st.Has(j) {
						out[j] = fill
					}
				}
				return linOfFin(b, out)
			}
		}
	}
	var same []*Sym
	for _, b := range s.F.bytes {
		if b.base == str.B {
			bi := s.F.norm(b.idx)
			if bi.Key() == idx.Key() || s.F.EntailsEq(bi.Sub(idx)) {
				same = append(same, b.sym)
			}
		}
	}
	if len(same) > 1 {
		// several names of one byte
		u := fullSet()
		for _, x := range same {
			u = u.And(s.F.setOf(x))
		}
		for _, x := range same {
			if s.F.setOf(x) != u {
				s.F.setSet(x, u)
			}
		}
	}
	if len(same) > 0 {
		return LS(same[0])
	}
	name := str.B.name + "[" + idx.Key() + "]"
	sym := byteTab[name]
	if sym == nil {
		sym = newByteSym(name)
		byteTab[name] = sym
	}
	s.F.bytes = append(s.F.bytes, ByteAt{str.B, idx, sym})
	// apply scan facts
	for _, sc := range s.F.scans {
		if sc.base == str.B && sc.kind == "" && s.F.Entails(idx.Sub(sc.lo)) && s.F.Entails(sc.hi.Sub(idx).AddC(-1)) {
			s.F.setSet(sym, s.F.setOf(sym).And(sc.set))
		}
	}
	return LS(sym)
}

var byteTab = map[string]*Sym{}

// reachable objects from roots.
func (s *State) reach(roots []Val) map[*Obj]bool {
	seen := map[*Obj]bool{}
	var visit func(v Val)
	visitObj := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		if st := s.heap[o]; st != nil {
			for _, c := range st.cells {
				visit(c.v)
			}
		}
	}
	visit = func(v Val) {
		switch v := v.(type) {
		case *PtrV:
			visitObj(v.o)
		case *SliceV:
			visitObj(v.o)
		case *StructV:
			for _, f := range v.f {
				visit(f)
			}
		case *TupleV:
			for _, f := range v.f {
				visit(f)
			}
		case *IfaceV:
			if v.v != nil {
				visit(v.v)
			}
		case *FuncV:
			for _, f := range v.free {
				visit(f)
			}
		case *TermV:
			for _, a := range v.args {
				visit(a)
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

func (s *State) heapString() string {
	var sb strings.Builder
	for o, st := range s.heap {
		fmt.Fprintf(&sb, "  %s origin=%q\n", o.name, st.origin)
		for _, c := range st.cells {
			fmt.Fprintf(&sb, "    %s = %s\n", c.p.Key(), keyOf(c.v))
		}
	}
	return sb.String()
}
