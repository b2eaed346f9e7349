package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is a state in which a call has returned (or panicked).
type Outcome struct {
	st    *State
	ret   []Val
	panic bool
	site  ssa.Instruction // the return / panic instruction
}

// Hooks customise the interpreter for one analysis.
type Hooks struct {
	Call    func(e *Engine, st *State, c *callInfo) ([]Outcome, bool)
	Store   func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type, v Val)
	Load    func(e *Engine, st *State, ins ssa.Instruction, p *PtrV, t types.Type)
	Bounds  func(e *Engine, st *State, ins ssa.Instruction, what string, ok bool)
	NilDer  func(e *Engine, st *State, ins ssa.Instruction, v Val)
	Append  func(e *Engine, st *State, ins ssa.Instruction, dst *SliceV, ch Chunk) ([]appRes, bool)
	Copy    func(e *Engine, st *State, ins ssa.Instruction, dst *SliceV, src Val, n *Lin)
	Panic   func(e *Engine, st *State, ins ssa.Instruction, msg string)
	Branch  func(e *Engine, st *State, ins ssa.Instruction, c *Cond, taken bool)
	Assumed func(e *Engine, st *State) // after the condition of a branch was assumed
	Lookup  func(e *Engine, st *State, ins *ssa.Lookup, m, k Val) (Val, bool)
	MapUpd  func(e *Engine, st *State, ins *ssa.MapUpdate, m, k, v Val)
	NewBuf  func(e *Engine, st *State, ins ssa.Instruction) *SliceV
	// Exact: a condition under which integers kept modulo 2^64 are exact, and
	// what it means for st, where it is assumed.
	Exact func(st *State) *Cond
	// FloatCmp decides comparisons of floats (never NEQ).
	FloatCmp func(e *Engine, st *State, op token.Token, x, y Val) *Cond
	Write    func(e *Engine, st *State, ins ssa.Instruction, o *Obj) // any heap mutation of o, including havoc by unknown code
}

type appRes struct {
	st *State
	v  *SliceV
}

// Chunk is a piece of data appended to a buffer.
type Chunk struct {
	bytes []*Lin // individual bytes
	str   *StrV  // a (sub)string
	sl    *SliceV
	val   Val  // anything else
	k     *Lin // length if known
}

type callInfo struct {
	ins    ssa.CallInstruction
	fn     *ssa.Function // static callee or resolved method
	name   string        // full name ("pkg.Func", "(*T).M", or "iface.Method")
	args   []Val
	iface  types.Type // receiver interface type for invoke
	method string
	fnVal  Val
	sig    *types.Signature
}

// Finding is one reported violation.
type Finding struct {
	Rule, Construct, Msg, Pos string
	Trace                     []string
	Undecided                 bool
}

func (f Finding) id() string { return f.Rule + "|" + f.Construct }

type Engine struct {
	P          *Program
	H          Hooks
	findings   map[string]*Finding
	order      []string
	obl        map[string]int // obligation -> 0 ok,1 failed
	fnsSeen    map[*ssa.Function]bool
	steps      int
	maxSteps   int
	inst       int
	maxDepth   int
	paths      int
	loopsGen   int
	noInline   map[string]bool
	recFall    bool
	widenDbg   bool
	weak       *State
	constLim   int // 1+number of loop states kept apart by constants (0: default)
	opaqueObj  map[string]*Obj
	modular    bool              // uint64 arithmetic is kept modulo 2^64, see H.Exact
	opaqueKeep func(o *Obj) *Obj // representative of an opaque object; positions are kept
	opaqueLoad func(st *State, p *PtrV, v Val) Val
	zeroAt     []*Lin            // elements of a new array to keep track of where nothing is copied
	watch      []*Lin            // symbols of the specification loop invariants may relate to
	watchVals  []Val             // values of the specification that watched cells may hold
	opaque     func(o *Obj) bool // objects whose contents are not tracked
}

func newEngine(p *Program) *Engine {
	resetTables()
	return &Engine{P: p, findings: map[string]*Finding{}, obl: map[string]int{}, fnsSeen: map[*ssa.Function]bool{}, maxSteps: 3000000, maxDepth: 40}
}

func resetTables() {
	initTab = map[string]Val{}
	baseTab = map[string]*StrBase{}
	byteTab = map[string]*Sym{}
	globTab = map[*ssa.Global]*Obj{}
	sliceCaps = map[*Sym]*Sym{}
	symOrg = map[*Sym]*org{}
	baseOrg = map[*StrBase]*org{}
	objOrg = map[*Obj]*org{}
	keepSyms = map[*Sym]bool{}
	shapeConst = 1
	watchSyms = map[*Sym]bool{}
	preTab = map[*Obj][]cell{}
	preSeen = map[Val]bool{}
}

func (e *Engine) pos(ins ssa.Instruction) string {
	if ins == nil {
		return "?"
	}
	p := ins.Pos()
	if !p.IsValid() {
		if b := ins.Block(); b != nil {
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					p = i.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && ins.Parent() != nil {
		p = ins.Parent().Pos()
	}
	return e.P.posStr(p)
}

// Fail records a violation (deduplicated by rule+construct).
func (e *Engine) Fail(st *State, ins ssa.Instruction, rule, construct, f string, a ...interface{}) {
	e.report(st, ins, rule, construct, false, fmt.Sprintf(f, a...))
}
func (e *Engine) Undecided(st *State, ins ssa.Instruction, rule, construct, f string, a ...interface{}) {
	e.report(st, ins, rule, construct, true, fmt.Sprintf(f, a...))
}
func (e *Engine) report(st *State, ins ssa.Instruction, rule, construct string, und bool, msg string) {
	id := rule + "|" + construct
	if e.findings[id] != nil {
		return
	}
	if st != nil && !st.F.Feasible() {
		return
	}
	fd := &Finding{Rule: rule, Construct: construct, Msg: msg, Undecided: und, Pos: e.pos(ins)}
	if st != nil {
		fd.Trace = append(fd.Trace, st.trace...)
		fd.Trace = append(fd.Trace, "facts: "+st.F.String())
		if st.mon != nil {
			fd.Trace = append(fd.Trace, "monitor: "+st.mon.Key())
		}
	}
	e.findings[id] = fd
	e.order = append(e.order, id)
	e.obl[id] = 1
}

// Ob records a discharged obligation instance.
func (e *Engine) Ob(rule, construct string) {
	id := rule + "|" + construct
	if _, ok := e.obl[id]; !ok {
		e.obl[id] = 0
	}
}

// Check records an obligation, failing it if !ok.
func (e *Engine) Check(ok bool, st *State, ins ssa.Instruction, rule, construct, f string, a ...interface{}) bool {
	e.Ob(rule, construct)
	if !ok {
		e.Fail(st, ins, rule, construct, f, a...)
	}
	return ok
}

var globTab = map[*ssa.Global]*Obj{}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	if o := globTab[g]; o != nil {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := newObj("glob:"+g.String(), t)
	o.name = "glob:" + g.String()
	if a, ok := t.Underlying().(*types.Array); ok {
		o.region = true
		o.typ = a.Elem()
	}
	globTab[g] = o
	return o
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return cBool(constant.BoolVal(c.Value))
	case constant.String:
		return strLit(constant.StringVal(c.Value))
	case constant.Int:
		if isFloat(t) {
			return &TermV{key: "const:" + c.Value.ExactString(), typ: t}
		}
		if isInt(t) {
			b, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
			if ok {
				return LB(b)
			}
		}
		return &TermV{key: "const:" + c.Value.ExactString(), typ: t}
	default:
		if isInt(t) {
			if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
				if b, ok := new(big.Int).SetString(v.ExactString(), 10); ok {
					return LB(b)
				}
			}
		}
		return &TermV{key: "const:" + c.Value.ExactString(), typ: t}
	}
}

func (e *Engine) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return &PtrV{o: e.globalObj(v)}
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &TermV{key: "builtin:" + v.Name()}
	}
	r, ok := st.top().regs[v]
	if !ok {
		return symVal(fmt.Sprintf("undef:%s.%s", v.Parent(), v.Name()), v.Type())
	}
	if l, ok := r.(*Lin); ok {
		return st.F.norm(l)
	}
	return r
}

func (e *Engine) lin(st *State, v ssa.Value) *Lin {
	x := e.val(st, v)
	if l, ok := x.(*Lin); ok {
		return l
	}
	// opaque integer
	return symVal("int:"+keyOf(x), v.Type()).(*Lin)
}

func asLin(v Val, t types.Type) *Lin {
	if l, ok := v.(*Lin); ok {
		return l
	}
	return symVal("int:"+keyOf(v), t).(*Lin)
}

func (e *Engine) cond(st *State, v Val) *Cond {
	if c, ok := v.(*Cond); ok {
		return c
	}
	return cAtom("bool:" + keyOf(v))
}

// ---- assume ----

func (e *Engine) assume(st *State, c *Cond, want bool) []*State {
	if c.neg {
		d := *c
		d.neg = false
		return e.assume(st, &d, !want)
	}
	one := func(ok bool) []*State {
		if ok && !st.F.dead {
			return []*State{st}
		}
		return nil
	}
	switch c.kind {
	case 'c':
		return one(c.b == want)
	case 'g':
		if want {
			return one(st.F.AssumeGe(c.l))
		}
		return one(st.F.AssumeGe(addScaled(LC(-1), -1, c.l)))
	case 'e':
		return e.assumeEq(st, c.l, want)
	case 'a':
		if v, ok := st.F.atoms[c.atom]; ok {
			return one(v == want)
		}
		st.F.atoms[c.atom] = want
		if want && strings.HasPrefix(c.atom, "nil:") {
			// a nil slice has no elements
			nm := strings.TrimPrefix(c.atom, "nil:")
			if v, ok := initTab[nm]; ok {
				if s, ok := v.(*SliceV); ok {
					if !st.F.AssumeEq(s.n) || !st.F.AssumeEq(s.cap) {
						return nil
					}
				}
			}
		}
		return one(true)
	case 's':
		return e.assumeStrEq(st, c.s, c.lit, want)
	case '&':
		if want {
			cur := []*State{st}
			for _, x := range c.sub {
				var nx []*State
				for _, s := range cur {
					nx = append(nx, e.assume(s, x, true)...)
				}
				cur = nx
			}
			return cur
		}
		var out []*State
		cur := []*State{st}
		for _, x := range c.sub {
			var nx []*State
			for _, s := range cur {
				f := s.clone()
				out = append(out, e.assume(f, x, false)...)
				nx = append(nx, e.assume(s, x, true)...)
			}
			cur = nx
		}
		return out
	}
	return []*State{st}
}

// maskDecomp splits l into finite terms with pairwise disjoint bit masks.
// A negative constant is taken out of the one term (index returned by foldNeg)
// that always exceeds it.
func maskDecomp(f *Facts, l *Lin) (ok bool, masks []uint64, c uint64) {
	neg, by := foldNeg(f, l)
	if neg < 0 {
		if l.c.Sign() < 0 || !l.c.IsUint64() {
			return false, nil, 0
		}
		c = l.c.Uint64()
	}
	used := c
	for j, t := range l.t {
		if !t.s.finite() || t.k <= 0 {
			return false, nil, 0
		}
		st := f.setOf(t.s.finBase())
		v := t.s.finVec()
		var m uint64
		for i := 0; i < 256; i++ {
			if st.Has(i) {
				if v[i] < 0 {
					return false, nil, 0
				}
				if j == neg {
					m |= uint64(v[i]*t.k - by)
				} else {
					m |= uint64(v[i] * t.k)
				}
			}
		}
		if used&m != 0 {
			return false, nil, 0
		}
		used |= m
		masks = append(masks, m)
	}
	return true, masks, c
}

// foldNeg finds the term a negative constant can be taken out of.
func foldNeg(f *Facts, l *Lin) (int, int64) {
	if l.c.Sign() >= 0 || !l.c.IsInt64() {
		return -1, 0
	}
	by := -l.c.Int64()
	for j, t := range l.t {
		if !t.s.finite() || t.k <= 0 {
			return -1, 0
		}
		st, v, ok := f.setOf(t.s.finBase()), t.s.finVec(), true
		for i := 0; i < 256; i++ {
			if st.Has(i) && v[i]*t.k < by {
				ok = false
			}
		}
		if ok {
			return j, by
		}
	}
	return -1, 0
}

func (e *Engine) assumeEq(st *State, l *Lin, want bool) []*State {
	l = st.F.norm(l)
	if len(l.t) > 1 && l.c.Sign() <= 0 {
		// multi-byte finite value compared with a constant
		k := new(big.Int).Neg(l.c)
		v := &Lin{c: bi(0), t: l.t}
		if ok, masks, _ := maskDecomp(st.F, v); ok && k.IsUint64() {
			kv := k.Uint64()
			var all uint64
			for _, m := range masks {
				all |= m
			}
			if kv&^all != 0 {
				if want {
					return nil
				}
				return []*State{st}
			}
			var subs []*Cond
			for i, t := range l.t {
				tl := &Lin{c: bi(-int64(kv & masks[i])), t: []term{t}}
				subs = append(subs, cEq(tl))
			}
			return e.assume(st, cAnd(subs...), want)
		}
	}
	if want {
		if st.F.AssumeEq(l) {
			return []*State{st}
		}
		return nil
	}
	if st.F.AssumeNe(l) {
		return []*State{st}
	}
	return nil
}

func (e *Engine) assumeStrEq(st *State, s StrV, lit string, want bool) []*State {
	if l, ok := s.lit(); ok {
		if (l == lit) == want {
			return []*State{st}
		}
		return nil
	}
	n := s.length()
	key := "streq:" + StrV{s.B, st.F.norm(s.lo), st.F.norm(s.hi)}.Key() + "=" + fmt.Sprintf("%q", lit)
	if v, ok := st.F.atoms[key]; ok && v != want {
		return nil
	} else if ok {
		return []*State{st}
	}
	if want {
		st.F.atoms[key] = true
		if !st.F.AssumeEq(n.AddC(-int64(len(lit)))) {
			return nil
		}
		if len(lit) <= 16 {
			for i := 0; i < len(lit); i++ {
				if !st.F.AssumeEq(st.byteAt(s, LC(int64(i))).AddC(-int64(lit[i]))) {
					return nil
				}
			}
		}
		return []*State{st}
	}
	if len(lit) > 6 {
		st.F.atoms[key] = false
		return []*State{st}
	}
	// not equal: different length, or a first differing byte
	var out []*State
	a := st.clone()
	a.F.atoms[key] = false
	if a.F.AssumeNe(n.AddC(-int64(len(lit)))) {
		out = append(out, a)
	}
	b := st
	if b.F.AssumeEq(n.AddC(-int64(len(lit)))) {
		b.F.atoms[key] = false
		if !s.B.trackBytes() {
			if len(lit) > 0 {
				out = append(out, b)
			}
			return out
		}
		for i := 0; i < len(lit); i++ {
			x := b.clone()
			if x.F.AssumeNe(x.byteAt(s, LC(int64(i))).AddC(-int64(lit[i]))) {
				out = append(out, x)
			}
			if !b.F.AssumeEq(b.byteAt(s, LC(int64(i))).AddC(-int64(lit[i]))) {
				break
			}
		}
	}
	return out
}

var trackedBases = map[string]bool{}

func (b *StrBase) trackBytes() bool { return trackedBases[b.name] }

// decide reports whether a condition is known.
func (e *Engine) decide(st *State, c *Cond) (val, known bool) {
	t := e.assume(st.clone(), c, true)
	f := e.assume(st.clone(), c, false)
	switch {
	case len(t) == 0 && len(f) > 0:
		return false, true
	case len(f) == 0 && len(t) > 0:
		return true, true
	}
	return false, false
}

// ---- nil-ness ----

func nilCond(v Val) *Cond {
	switch v := v.(type) {
	case *NilV:
		return cBool(true)
	case *PtrV:
		if v.o.maybeNil && len(v.p) == 0 {
			return cAtom("nil:" + v.o.name)
		}
		return cBool(false)
	case *SliceV:
		if v.isNil {
			return cBool(true)
		}
		if v.nilKey != "" {
			return cAtom(v.nilKey)
		}
		return cBool(false)
	case *IfaceV:
		if v.isNil {
			return cBool(true)
		}
		if v.t != nil {
			return cBool(false)
		}
		return cAtom("nil:" + v.key)
	case *FuncV:
		return cBool(false)
	case *TermV:
		return cAtom("nil:" + v.key)
	}
	return cAtom("nil:" + keyOf(v))
}

func (st *State) isNilKnown(v Val) (isNil, known bool) {
	c := nilCond(v)
	switch c.kind {
	case 'c':
		return c.b, true
	case 'a':
		b, ok := st.F.atoms[c.atom]
		return b, ok
	}
	return false, false
}

// ---- function execution ----

type workItem struct {
	st   *State
	pred *ssa.BasicBlock
}

type hdrRec struct {
	key   string
	base  *State // first state seen
	cur   *State // current generalisation
	ver   int
	group map[string]string // component -> group id
	arr   int
	mask  map[string]bool // components no longer kept constant-disjunctive
	entry bool            // some contribution does not depend on any record
	from  map[linRef]bool // the record versions that contributed
	epoch int
	isLv  bool
	busy  bool
}

// linRef is one version of a loop record.
type linRef struct {
	r   *hdrRec
	ver int
}

// lineEpoch changes whenever some record changes.
var lineEpoch = 1

// contribute records that st flows into r.
func (r *hdrRec) contribute(st *State) {
	if len(st.lin) == 0 {
		if !r.entry {
			r.entry = true
			lineEpoch++
		}
		return
	}
	if r.from == nil {
		r.from = map[linRef]bool{}
	}
	for l := range st.lin {
		if !r.from[l] {
			r.from[l] = true
			lineEpoch++
		}
	}
}

// live: the record still describes a state that is reachable from the entry
// through current versions of the records it derives from.
func (r *hdrRec) live() bool {
	if r.entry {
		return true
	}
	if r.epoch == lineEpoch {
		return r.isLv
	}
	if r.busy {
		return false
	}
	r.busy = true
	lv := false
	for l := range r.from {
		if l.r.ver == l.ver && l.r.live() {
			lv = true
			break
		}
	}
	r.busy = false
	if lv {
		// a negative answer may depend on the cycle cut above
		r.epoch, r.isLv = lineEpoch, lv
	}
	return lv
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	header map[*ssa.BasicBlock]bool
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i := fnInfos[fn]; i != nil {
		return i
	}
	in := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = 1
		for _, s := range b.Succs {
			if seen[s] == 0 {
				dfs(s)
			} else if seen[s] == 1 {
				in.header[s] = true // retreating edge target
			}
		}
		seen[b] = 2
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range order {
		in.rpo[b] = len(order) - 1 - i
	}
	// loop-aware order: keep the blocks of a loop contiguous (stabilise inner loops first)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if in.header[s] && s.Dominates(b) {
				body := in.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					in.loops[s] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	in.wto(fn)
	// liveness
	changed := true
	for _, b := range fn.Blocks {
		in.live[b] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range in.live[s] {
					live[v] = true
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if isReg(ph.Edges[pi]) {
						live[ph.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if ph, ok := ins.(*ssa.Phi); ok {
					// phis are live-in as already evaluated registers
					_ = ph
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(in.live[b]) {
				in.live[b] = live
				changed = true
			}
		}
	}
	fnInfos[fn] = in
	return in
}

// wto renumbers blocks so that a loop's blocks come before the code after it.
func (in *fnInfo) wto(fn *ssa.Function) {
	var blocks []*ssa.BasicBlock
	for b := range in.rpo {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return in.rpo[blocks[i]] < in.rpo[blocks[j]] })
	// nesting chain of a block: headers from outermost to innermost
	chain := func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		var hs []*ssa.BasicBlock
		for h, body := range in.loops {
			if body[b] {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(i, j int) bool {
			if len(in.loops[hs[i]]) != len(in.loops[hs[j]]) {
				return len(in.loops[hs[i]]) > len(in.loops[hs[j]])
			}
			return in.rpo[hs[i]] < in.rpo[hs[j]]
		})
		return hs
	}
	type key struct {
		b *ssa.BasicBlock
		k []int
	}
	var ks []key
	for _, b := range blocks {
		var k []int
		for _, h := range chain(b) {
			k = append(k, in.rpo[h])
		}
		k = append(k, in.rpo[b])
		ks = append(ks, key{b, k})
	}
	sort.SliceStable(ks, func(i, j int) bool {
		a, b := ks[i].k, ks[j].k
		for x := 0; x < len(a) && x < len(b); x++ {
			if a[x] != b[x] {
				return a[x] < b[x]
			}
		}
		return len(a) < len(b)
	})
	for i, k := range ks {
		in.rpo[k.b] = i
	}
}

type actWork struct {
	blocks  intHeap
	pending map[int][]workItem
	byRPO   map[int]*ssa.BasicBlock
}
type intHeap []int

func (h intHeap) Len() int            { return len(h) }
func (h intHeap) Less(i, j int) bool  { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x interface{}) { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func (e *Engine) depth(st *State, fn *ssa.Function) int {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// Run interprets fn from st and returns every outcome.
func (e *Engine) Run(st *State, fn *ssa.Function, args []Val, free []Val, site ssa.Instruction) []Outcome {
	if len(fn.Blocks) == 0 {
		e.Undecided(st, site, "engine", fn.String(), "no body for %s", fn)
		return nil
	}
	e.fnsSeen[fn] = true
	info := infoOf(fn)
	// the callee runs to completion before the caller's records change
	outer := st.lin
	st.lin = map[linRef]bool{}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, site: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.regs[p] = free[i]
		}
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	a := &activation{e: e, fn: fn, info: info, recs: map[*ssa.BasicBlock][]*hdrRec{},
		w: actWork{pending: map[int][]workItem{}, byRPO: map[int]*ssa.BasicBlock{}}}
	for b, n := range info.rpo {
		a.w.byRPO[n] = b
	}
	a.runBlock(st, fn.Blocks[0], 0)
	for a.w.blocks.Len() > 0 {
		n := heap.Pop(&a.w.blocks).(int)
		items := a.w.pending[n]
		delete(a.w.pending, n)
		if len(items) == 0 {
			continue
		}
		a.enterBlock(a.w.byRPO[n], items)
		if e.steps > e.maxSteps {
			e.Undecided(nil, nil, "engine", "budget:"+fn.String(), "step budget exhausted in %s", fn)
			return nil
		}
	}
	// drop outcomes superseded by a generalised loop state
	var outs []Outcome
	for _, o := range a.outs {
		if !o.st.stale() {
			outs = append(outs, o)
		}
	}
	for i := range outs {
		s := outs[i].st
		s.frames = append([]*Frame(nil), s.frames[:len(s.frames)-1]...)
		if n := len(s.frames); n > 0 {
			s.frames[n-1] = s.frames[n-1].clone()
		}
		s.lin = outer
	}
	return e.mergeOutcomes(outs)
}

// stale: every record version this state derives from has been superseded.
func (s *State) stale() bool {
	if len(s.lin) == 0 {
		return false
	}
	for l := range s.lin {
		if l.r.ver == l.ver && l.r.live() {
			return false
		}
	}
	return true
}

type activation struct {
	e    *Engine
	fn   *ssa.Function
	info *fnInfo
	w    actWork
	recs map[*ssa.BasicBlock][]*hdrRec
	outs []Outcome
}

func (a *activation) push(st *State, pred, succ *ssa.BasicBlock) {
	n := a.info.rpo[succ]
	if len(a.w.pending[n]) == 0 {
		heap.Push(&a.w.blocks, n)
	}
	a.w.pending[n] = append(a.w.pending[n], workItem{st, pred})
}

// enterBlock evaluates phis, prunes dead registers, merges and runs.
func (a *activation) enterBlock(b *ssa.BasicBlock, items []workItem) {
	e := a.e
	var sts []*State
	var back []bool
	for _, it := range items {
		if it.st.stale() || it.st.F.dead {
			continue
		}
		st := it.st
		pi := -1
		for k, p := range b.Preds {
			if p == it.pred {
				pi = k
			}
		}
		var phis []*ssa.Phi
		var vals []Val
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, e.val(st, ph.Edges[pi]))
		}
		fr := st.top()
		for i, ph := range phis {
			fr.regs[ph] = vals[i]
		}
		if len(b.Preds) > 1 {
			live := a.info.live[b]
			for v := range fr.regs {
				if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == b {
					if !live[v] && !usedIn(v, b) {
						delete(fr.regs, v)
					}
					continue
				}
				if !live[v] {
					delete(fr.regs, v)
				}
			}
		}
		sts = append(sts, st)
		back = append(back, a.info.loops[b][it.pred])
	}
	if len(sts) == 0 {
		return
	}
	if a.info.header[b] {
		for i, st := range sts {
			if st.stale() {
				continue
			}
			if st.mon != nil {
				st.mon.Sync(e, st)
			}
			if g := a.atHeader(b, st, back[i]); g != nil {
				a.runBlock(g, b, len(phisOf(b)))
			}
		}
		return
	}
	if len(sts) > 1 {
		for _, st := range sts {
			if st.mon != nil {
				st.mon.Sync(e, st)
			}
		}
		sts = e.mergeStates(sts)
	}
	for _, st := range sts {
		a.runBlock(st, b, len(phisOf(b)))
	}
}

func usedIn(v ssa.Value, b *ssa.BasicBlock) bool {
	for _, r := range *v.Referrers() {
		if r.Block() == b {
			if _, ok := r.(*ssa.Phi); !ok {
				return true
			}
		}
	}
	return false
}

func phisOf(b *ssa.BasicBlock) []ssa.Instruction {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return b.Instrs[:i]
		}
	}
	return b.Instrs
}

func (a *activation) runBlock(st *State, b *ssa.BasicBlock, i int) {
	e := a.e
	for ; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		e.steps++
		if e.steps&255 == 0 {
			e.onTime()
		}
		if e.steps > e.maxSteps {
			return
		}
		switch ins := ins.(type) {
		case *ssa.Jump:
			a.push(st, b, b.Succs[0])
			return
		case *ssa.If:
			c := e.cond(st, e.val(st, ins.Cond))
			if e.H.Branch != nil {
				e.H.Branch(e, st, ins, c, true)
			}
			f := st.clone()
			ts := e.assume(st, c, true)
			fs := e.assume(f, c, false)
			both := len(ts) > 0 && len(fs) > 0
			if e.H.Assumed != nil {
				for _, s := range ts {
					e.H.Assumed(e, s)
				}
				for _, s := range fs {
					e.H.Assumed(e, s)
				}
			}
			for _, s := range ts {
				if both {
					s.note("%s: %s is true", e.pos(ins), shorten(c.Key()))
				}
				a.push(s, b, b.Succs[0])
			}
			for _, s := range fs {
				if both {
					s.note("%s: %s is false", e.pos(ins), shorten(c.Key()))
				}
				a.push(s, b, b.Succs[1])
			}
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range ins.Results {
				rs = append(rs, e.val(st, r))
			}
			a.outs = append(a.outs, Outcome{st: st, ret: rs, site: ins})
			e.paths++
			return
		case *ssa.Panic:
			if e.H.Panic != nil {
				e.H.Panic(e, st, ins, "explicit panic")
			}
			a.outs = append(a.outs, Outcome{st: st, panic: true, site: ins})
			return
		}
		outs := e.step(st, ins)
		if len(outs) == 0 {
			return
		}
		if len(outs) == 1 {
			st = outs[0]
			continue
		}
		for _, s := range outs {
			a.runBlock(s, b, i+1)
		}
		return
	}
}

func shorten(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

// Call dispatches a call and returns outcomes with results.
func (e *Engine) doCall(st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, args []Val, fnv Val) []Outcome {
	ci := &callInfo{ins: ins, args: args, sig: cc.Signature()}
	var free []Val
	if cc.IsInvoke() {
		ci.iface = cc.Value.Type()
		ci.method = cc.Method.Name()
		ci.name = types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
		if iv, ok := args[0].(*IfaceV); ok && iv.t != nil {
			fn := e.P.prog.LookupMethod(iv.t, cc.Method.Pkg(), cc.Method.Name())
			if fn != nil {
				ci.fn = fn
				ci.args = append([]Val{iv.v}, args[1:]...)
				ci.name = fn.String()
			}
		} else if ok {
			nil1, known := st.isNilKnown(iv)
			if known && nil1 {
				if e.H.Panic != nil {
					e.H.Panic(e, st, ins, "method call on nil interface")
				}
				return nil
			}
			if !known && e.H.NilDer != nil {
				e.H.NilDer(e, st, ins, iv)
			}
			if c := nilCond(iv); c.kind == 'a' {
				st.F.atoms[c.atom] = false
			}
		}
	} else {
		switch f := fnv.(type) {
		case *FuncV:
			ci.fn = f.fn
			free = f.free
			ci.name = f.fn.String()
		case *TermV:
			ci.name = f.key
		}
		ci.fnVal = fnv
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return e.builtin(st, ins, b.Name(), args, cc)
		}
	}
	if e.H.Call != nil {
		if outs, ok := e.H.Call(e, st, ci); ok {
			return outs
		}
	}
	if ci.fn != nil {
		if ci.fn.Synthetic != "" && len(ci.fn.Blocks) > 0 && e.P.isRepoFn(ci.fn) {
			return e.Run(st, ci.fn, ci.args, free, ins)
		}
		if len(ci.fn.Blocks) > 0 && e.P.isRepoFn(ci.fn) {
			if e.depth(st, ci.fn) > 0 || len(st.frames) > e.maxDepth {
				return e.unknownCall(st, ci, "recursive call")
			}
			return e.Run(st, ci.fn, ci.args, free, ins)
		}
		if outs, ok := e.extern(st, ci); ok {
			return outs
		}
	}
	return e.unknownCall(st, ci, "unknown callee")
}

// unknownCall havocs everything reachable from the arguments.
func (e *Engine) unknownCall(st *State, ci *callInfo, why string) []Outcome {
	for o := range st.reach(ci.args) {
		if e.H.Write != nil {
			e.H.Write(e, st, ci.ins, o)
		}
		st.havocObj(o, why)
	}
	return []Outcome{{st: st, ret: e.freshResults(ci)}}
}

func (e *Engine) freshResults(ci *callInfo) []Val {
	var rs []Val
	res := ci.sig.Results()
	for i := 0; i < res.Len(); i++ {
		havocN++
		rs = append(rs, symVal(fmt.Sprintf("ret%d.%d:%s", havocN, i, shortName(ci.name)), res.At(i).Type()))
	}
	return rs
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func setResult(st *State, v ssa.Value, rs []Val) {
	if v == nil {
		return
	}
	switch len(rs) {
	case 0:
		st.top().regs[v] = &TupleV{}
	case 1:
		st.top().regs[v] = rs[0]
	default:
		st.top().regs[v] = &TupleV{rs}
	}
}

// pure term results of a call, keyed by arguments.
func (e *Engine) termResults(st *State, ci *callInfo) []Val {
	var rs []Val
	res := ci.sig.Results()
	ks := make([]string, len(ci.args))
	for i, a := range ci.args {
		ks[i] = e.contentKey(st, a)
	}
	base := shortName(ci.name) + "(" + strings.Join(ks, ",") + ")"
	for i := 0; i < res.Len(); i++ {
		n := base
		if res.Len() > 1 {
			n = fmt.Sprintf("%s.%d", base, i)
		}
		v := symVal(n, res.At(i).Type())
		if t, ok := v.(*TermV); ok && t.op == "" {
			t.op = ci.name
			t.args = ci.args
		}
		if s, ok := v.(StrV); ok && s.B.src == nil {
			s.B.src = &TermV{key: n, op: ci.name, args: ci.args}
		}
		rs = append(rs, v)
	}
	return rs
}

func (e *Engine) contentKey(st *State, v Val) string {
	switch v := v.(type) {
	case *Lin:
		return st.F.norm(v).Key()
	case StrV:
		return StrV{v.B, st.F.norm(v.lo), st.F.norm(v.hi)}.Key()
	case *SliceV:
		if n, ok := st.F.norm(v.n).constInt(); ok && n <= 8 && v.o.region && !v.isNil {
			var ks []string
			for i := int64(0); i < n; i++ {
				ks = append(ks, e.contentKey(st, st.load(v.o, Path{{f: -1, idx: v.off.AddC(i)}}, v.o.typ)))
			}
			return "[" + strings.Join(ks, ",") + "]"
		}
	case *IfaceV:
		if v.t != nil {
			return "iface(" + v.t.String() + ":" + e.contentKey(st, v.v) + ")"
		}
	}
	return keyOf(v)
}

// ---- instructions ----

func (e *Engine) step(st *State, ins ssa.Instruction) []*State {
	fr := st.top()
	set := func(v ssa.Value, x Val) []*State { fr.regs[v] = x; return []*State{st} }
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		o := newObj("new:"+ins.Comment, t)
		o.fresh = true
		o.stack = !ins.Heap
		if a, ok := t.Underlying().(*types.Array); ok {
			o.region = true
			o.typ = a.Elem()
		}
		st.heap[o] = &ObjState{}
		return set(ins, &PtrV{o: o})
	case *ssa.BinOp:
		return e.binop(st, ins)
	case *ssa.UnOp:
		return e.unop(st, ins)
	case *ssa.ChangeType:
		return set(ins, e.val(st, ins.X))
	case *ssa.ChangeInterface:
		return set(ins, e.val(st, ins.X))
	case *ssa.MakeInterface:
		return set(ins, &IfaceV{t: ins.X.Type(), v: e.val(st, ins.X)})
	case *ssa.Convert:
		return e.convert(st, ins, ins.X, ins.Type())
	case *ssa.MultiConvert:
		return e.convert(st, ins, ins.X, ins.Type())
	case *ssa.Extract:
		tv := e.val(st, ins.Tuple)
		if t, ok := tv.(*TupleV); ok && ins.Index < len(t.f) {
			return set(ins, t.f[ins.Index])
		}
		return set(ins, symVal(fmt.Sprintf("%s.%d", keyOf(tv), ins.Index), ins.Type()))
	case *ssa.Field:
		x := e.val(st, ins.X)
		if s, ok := x.(*StructV); ok {
			return set(ins, s.f[ins.Field])
		}
		return set(ins, symVal(fmt.Sprintf("%s.%d", keyOf(x), ins.Field), ins.Type()))
	case *ssa.FieldAddr:
		p := e.deref(st, ins, e.val(st, ins.X))
		if p == nil {
			return nil
		}
		return set(ins, &PtrV{o: p.o, p: p.p.with(pe{f: ins.Field})})
	case *ssa.IndexAddr:
		return e.indexAddr(st, ins)
	case *ssa.Index:
		return e.index(st, ins, ins.X, ins.Index, ins)
	case *ssa.Lookup:
		if isStr(ins.X.Type()) {
			return e.index(st, ins, ins.X, ins.Index, ins)
		}
		m := e.val(st, ins.X)
		k := e.val(st, ins.Index)
		if e.H.Lookup != nil {
			if v, ok := e.H.Lookup(e, st, ins, m, k); ok {
				return set(ins, v)
			}
		}
		return set(ins, e.mapLookup(st, ins, m, k))
	case *ssa.Store:
		p := e.deref(st, ins, e.val(st, ins.Addr))
		if p == nil {
			return nil
		}
		v := e.val(st, ins.Val)
		if e.H.Store != nil {
			e.H.Store(e, st, ins, p, ins.Val.Type(), v)
		}
		if e.H.Write != nil {
			e.H.Write(e, st, ins, p.o)
		}
		if e.opaque != nil && e.opaque(p.o) {
			return []*State{st}
		}
		return e.resolveAmb(st, p, true, func(s *State) {
			s.store(p.o, p.p, ins.Val.Type(), v)
		})
	case *ssa.Slice:
		return e.slice(st, ins)
	case *ssa.MakeSlice:
		o := newObj("make", ins.Type().Underlying().(*types.Slice).Elem())
		o.region, o.fresh = true, true
		st.heap[o] = &ObjState{}
		n, c := e.lin(st, ins.Len), e.lin(st, ins.Cap)
		ok := st.F.Entails(n) && st.F.Entails(c.Sub(n))
		e.bounds(st, ins, "make", ok)
		st.F.AssumeGe(n)
		st.F.AssumeGe(c.Sub(n))
		return set(ins, &SliceV{o: o, off: LC(0), n: n, cap: c})
	case *ssa.MakeMap:
		// one name per call chain
		name := "makemap"
		for _, f := range st.frames {
			if f.site != nil {
				name += fmt.Sprintf("%d.", f.site.Pos())
			}
		}
		t := &TermV{key: fmt.Sprintf("%s%d", name, ins.Pos()), typ: ins.Type(), op: "makemap"}
		st.F.atoms["nil:"+t.key] = false
		return set(ins, t)
	case *ssa.MakeChan:
		havocN++
		return set(ins, &TermV{key: fmt.Sprintf("makechan%d", havocN), typ: ins.Type()})
	case *ssa.MakeClosure:
		f := &FuncV{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			f.free = append(f.free, e.val(st, b))
		}
		return set(ins, f)
	case *ssa.MapUpdate:
		if e.H.MapUpd != nil {
			e.H.MapUpd(e, st, ins, e.val(st, ins.Map), e.val(st, ins.Key), e.val(st, ins.Value))
		}
		return []*State{st}
	case *ssa.Range:
		return set(ins, &TermV{key: "range(" + keyOf(e.val(st, ins.X)) + ")", op: "range", args: []Val{e.val(st, ins.X)}})
	case *ssa.Next:
		havocN++
		tt := ins.Type().(*types.Tuple)
		r := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			if tt.At(i).Type() == types.Typ[types.Invalid] {
				r.f = append(r.f, nil)
				continue
			}
			r.f = append(r.f, symVal(fmt.Sprintf("next%d.%d", havocN, i), tt.At(i).Type()))
		}
		return set(ins, r)
	case *ssa.TypeAssert:
		return e.typeAssert(st, ins)
	case *ssa.Defer:
		d := deferred{call: &ins.Call, ins: ins}
		if ins.Call.IsInvoke() {
			d.args = append(d.args, e.val(st, ins.Call.Value))
		} else {
			d.fn = e.val(st, ins.Call.Value)
		}
		for _, a := range ins.Call.Args {
			d.args = append(d.args, e.val(st, a))
		}
		fr.defers = append(fr.defers, d)
		return []*State{st}
	case *ssa.RunDefers:
		cur := []*State{st}
		for {
			var nx []*State
			did := false
			for _, s := range cur {
				f := s.top()
				if len(f.defers) == 0 {
					nx = append(nx, s)
					continue
				}
				did = true
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				for _, o := range e.doCall(s, d.ins.(ssa.CallInstruction), d.call, d.args, d.fn) {
					if !o.panic {
						nx = append(nx, o.st)
					}
				}
			}
			cur = nx
			if !did {
				return cur
			}
		}
	case *ssa.Call:
		var args []Val
		var fv Val
		if ins.Call.IsInvoke() {
			args = append(args, e.val(st, ins.Call.Value))
		} else {
			fv = e.val(st, ins.Call.Value)
		}
		for _, a := range ins.Call.Args {
			args = append(args, e.val(st, a))
		}
		var out []*State
		for _, o := range e.doCall(st, ins, &ins.Call, args, fv) {
			if o.panic || o.st.F.dead {
				continue
			}
			setResult(o.st, ins, o.ret)
			out = append(out, o.st)
		}
		return out
	case *ssa.Go, *ssa.Send, *ssa.Select:
		if v, ok := ins.(ssa.Value); ok {
			havocN++
			return set(v, symVal(fmt.Sprintf("sel%d", havocN), v.Type()))
		}
		return []*State{st}
	}
	if v, ok := ins.(ssa.Value); ok {
		havocN++
		return set(v, symVal(fmt.Sprintf("opaque%d", havocN), v.Type()))
	}
	return []*State{st}
}

func (e *Engine) mapLookup(st *State, ins *ssa.Lookup, m, k Val) Val {
	if t, ok := m.(*TermV); ok && t.op == "makemap" || !ok {
		// contents of locally built maps are not tracked
		havocN++
		if ins.CommaOk {
			return &TupleV{[]Val{symVal(fmt.Sprintf("mapval%d", havocN), ins.Type().(*types.Tuple).At(0).Type()), cAtom(fmt.Sprintf("mapok%d", havocN))}}
		}
		return symVal(fmt.Sprintf("mapval%d", havocN), ins.Type())
	}
	havocN++
	nm := fmt.Sprintf("lookup%d(%s,%s)", havocN, keyOf(m), e.contentKey(st, k))
	if ins.CommaOk {
		return &TupleV{[]Val{symVal(nm, ins.Type().(*types.Tuple).At(0).Type()), cAtom("ok:" + nm)}}
	}
	return symVal(nm, ins.Type())
}

// deref returns the location a pointer refers to, or nil when it is nil.
func (e *Engine) deref(st *State, ins ssa.Instruction, v Val) *PtrV {
	switch p := v.(type) {
	case *PtrV:
		c := nilCond(p)
		if c.kind == 'a' {
			if b, ok := st.F.atoms[c.atom]; ok {
				if b {
					if e.H.Panic != nil {
						e.H.Panic(e, st, ins, "nil pointer dereference")
					}
					return nil
				}
			} else {
				if e.H.NilDer != nil {
					e.H.NilDer(e, st, ins, p)
				}
				st.F.atoms[c.atom] = false
			}
		}
		return p
	case *NilV:
		if e.H.Panic != nil {
			e.H.Panic(e, st, ins, "nil pointer dereference")
		}
		return nil
	}
	o := newObj("deref("+keyOf(v)+")", nil)
	return &PtrV{o: o}
}

func (e *Engine) bounds(st *State, ins ssa.Instruction, what string, ok bool) {
	if e.H.Bounds != nil {
		e.H.Bounds(e, st, ins, what, ok)
	}
}

// resolveAmb forks on may-alias index comparisons before f touches p.
func (e *Engine) resolveAmb(st *State, p *PtrV, write bool, f func(*State)) []*State {
	work := []*State{st}
	var out []*State
	for n := 0; len(work) > 0; n++ {
		s := work[0]
		work = work[1:]
		var d *Lin
		if n < 24 {
			d = s.ambIndex(p.o, p.p, write)
		}
		if d == nil {
			f(s)
			out = append(out, s)
			continue
		}
		a := s.clone()
		if a.F.AssumeEq(d) && a.congruence() {
			work = append(work, a)
		}
		if s.F.AssumeNe(d) {
			work = append(work, s)
		}
	}
	return out
}

// ambIndex finds an index comparison between p and existing cells that is undecided.
func (s *State) ambIndex(o *Obj, p Path, write bool) *Lin {
	if len(p) == 0 {
		return nil
	}
	st := s.heap[o]
	if st == nil {
		return nil
	}
	for _, c := range st.cells {
		n := len(p)
		if len(c.p) < n {
			n = len(c.p)
		}
		if s.cmpPath(c.p[:n], p[:n]) != idxMay {
			continue
		}
		if !write && st.origin != "" && !watched(c.p) && s.isInit(o, st, c) {
			continue
		}
		for i := 0; i < n; i++ {
			if p[i].f < 0 && c.p[i].f < 0 {
				d := p[i].idx.Sub(c.p[i].idx)
				if !s.F.EntailsEq(d) && !s.F.EntailsNeq(d) {
					return d
				}
			}
		}
	}
	return nil
}

func (e *Engine) unop(st *State, ins *ssa.UnOp) []*State {
	fr := st.top()
	set := func(x Val) []*State { fr.regs[ins] = x; return []*State{st} }
	x := e.val(st, ins.X)
	switch ins.Op {
	case token.MUL:
		p := e.deref(st, ins, x)
		if p == nil {
			return nil
		}
		if e.H.Load != nil {
			e.H.Load(e, st, ins, p, ins.Type())
		}
		if e.opaque != nil && e.opaque(p.o) {
			havocN++
			v := symVal(fmt.Sprintf("any%d", havocN), ins.Type())
			st.assumeValid(v)
			if e.opaqueLoad != nil {
				v = e.opaqueLoad(st, p, v)
			}
			return set(v)
		}
		return e.resolveAmb(st, p, false, func(s *State) {
			v := s.load(p.o, p.p, ins.Type())
			if g, ok := ins.X.(*ssa.Global); ok {
				if iv, ok := v.(*IfaceV); ok && e.P.initOnlyNonNil(g) && iv.key != "" {
					s.F.atoms["nil:"+iv.key] = false
				}
			}
			s.top().regs[ins] = v
		})
	case token.NOT:
		return set(cNot(e.cond(st, x)))
	case token.SUB:
		if l, ok := x.(*Lin); ok {
			return e.fit(st, l.Neg(), ins.Type(), ins)
		}
		return set(mkTerm("neg", ins.Type(), x))
	case token.XOR:
		if l, ok := x.(*Lin); ok {
			if b, v, ok := l.asFin(); ok {
				bits, uns := intBits(ins.Type())
				var o [256]int64
				for i := range v {
					o[i] = trunc(^v[i], bits, uns)
				}
				return set(linOfFin(b, o))
			}
			if c, ok := l.constInt(); ok {
				bits, uns := intBits(ins.Type())
				if bits < 64 || !uns {
					return set(LC(trunc(^c, bits, uns)))
				}
				return set(LB(new(big.Int).SetUint64(^uint64(c))))
			}
		}
		return set(symVal("not("+keyOf(x)+")", ins.Type()))
	case token.ARROW:
		havocN++
		return set(symVal(fmt.Sprintf("recv%d", havocN), ins.Type()))
	}
	return set(symVal("unop("+keyOf(x)+")", ins.Type()))
}

func trunc(x int64, bits uint, uns bool) int64 {
	switch {
	case bits >= 64:
		return x
	case uns:
		return x & (1<<bits - 1)
	default:
		sh := 64 - bits
		return x << sh >> sh
	}
}

// fit forces an exact mathematical result into an integer type, forking on wrap-around.
func (e *Engine) fit(st *State, l *Lin, t types.Type, v ssa.Value) []*State {
	outs := e.fitVals(st, l, t)
	var r []*State
	for _, o := range outs {
		o.st.top().regs[v] = o.l
		r = append(r, o.st)
	}
	return r
}

type linSt struct {
	st *State
	l  *Lin
}

func (e *Engine) fitVals(st *State, l *Lin, t types.Type) []linSt {
	lo, hi, ok := intRange(t)
	if !ok || e.modular && isUint64(t) {
		return []linSt{{st, l}}
	}
	l = st.F.norm(l)
	below := addScaled(LB(new(big.Int).Sub(lo, bi(1))), -1, l) // l < lo
	above := l.AddB(new(big.Int).Neg(new(big.Int).Add(hi, bi(1))))
	inLo := l.AddB(new(big.Int).Neg(lo))
	inHi := addScaled(LB(hi), -1, l)
	okLo, okHi := st.F.Entails(inLo), st.F.Entails(inHi)
	if okLo && okHi {
		return []linSt{{st, l}}
	}
	bits, uns := intBits(t)
	if b, v, ok := l.asFin(); ok {
		var o [256]int64
		for i := range v {
			o[i] = trunc(v[i], bits, uns)
		}
		if !(bits == 64 && uns) {
			return []linSt{{st, linOfFin(b, o)}}
		}
	}
	if ok, _, _ := maskDecomp(st.F, l); ok && uns && bits < 64 {
		if r := andConst(st.F, l, 1<<bits-1); r != nil {
			return []linSt{{st, r}}
		}
	}
	mod := new(big.Int).Lsh(bi(1), bits)
	var out []linSt
	if !okLo {
		s := st.clone()
		if s.F.AssumeGe(below) && s.F.Feasible() {
			w := l.AddB(mod)
			if s.F.Entails(w.AddB(new(big.Int).Neg(lo))) && s.F.Entails(addScaled(LB(hi), -1, w)) {
				out = append(out, linSt{s, w})
			} else {
				out = append(out, linSt{s, symVal("wrap("+t.String()+","+l.Key()+")", t).(*Lin)})
			}
		}
	}
	if !okHi {
		s := st.clone()
		if s.F.AssumeGe(above) && s.F.Feasible() {
			w := l.AddB(new(big.Int).Neg(mod))
			if s.F.Entails(w.AddB(new(big.Int).Neg(lo))) && s.F.Entails(addScaled(LB(hi), -1, w)) {
				out = append(out, linSt{s, w})
			} else {
				out = append(out, linSt{s, symVal("wrap("+t.String()+","+l.Key()+")", t).(*Lin)})
			}
		}
	}
	if st.F.AssumeGe(inLo) && st.F.AssumeGe(inHi) {
		out = append(out, linSt{st, l})
	}
	return out
}

func andConst(f *Facts, l *Lin, m uint64) *Lin {
	ok, _, c := maskDecomp(f, l)
	if !ok {
		return nil
	}
	r := LB(new(big.Int).SetUint64(c & m))
	neg, by := foldNeg(f, l)
	for j, t := range l.t {
		v := t.s.finVec()
		var o [256]int64
		st := f.setOf(t.s.finBase())
		sub := int64(0)
		if j == neg {
			sub = by
		}
		for i := range v {
			if st.Has(i) {
				o[i] = int64(uint64(v[i]*t.k-sub) & m)
			}
		}
		// keep impossible inputs harmless
		fill := int64(0)
		for i := range v {
			if st.Has(i) {
				fill = o[i]
				break
			}
		}
		for i := range v {
			if !st.Has(i) {
				if x := v[i]*t.k - sub; x >= 0 {
					o[i] = int64(uint64(x) & m)
				} else {
					o[i] = fill
				}
			}
		}
		r = r.Add(linOfFin(t.s.finBase(), o))
	}
	return r
}

func (e *Engine) binop(st *State, ins *ssa.BinOp) []*State {
	fr := st.top()
	set := func(x Val) []*State { fr.regs[ins] = x; return []*State{st} }
	x, y := e.val(st, ins.X), e.val(st, ins.Y)
	switch ins.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := e.compare(st, ins.Op, x, y, ins.X.Type(), ins.Y.Type())
		return set(c)
	}
	t := ins.Type()
	if isStr(t) && ins.Op == token.ADD {
		a, b := x.(StrV), y.(StrV)
		if la, ok := a.lit(); ok {
			if lb, ok := b.lit(); ok {
				return set(strLit(la + lb))
			}
			if la == "" {
				return set(b)
			}
		}
		if lb, ok := b.lit(); ok && lb == "" {
			return set(a)
		}
		r := strSym("concat(" + a.Key() + "," + b.Key() + ")")
		r.B.src = &TermV{op: "concat", args: []Val{a, b}, key: r.B.name}
		return set(r)
	}
	if !isInt(t) {
		if isBoolT(t) {
			return set(cAtom(ins.Op.String() + "(" + keyOf(x) + "," + keyOf(y) + ")"))
		}
		return set(mkTerm(ins.Op.String(), t, x, y))
	}
	a, b := asLin(x, ins.X.Type()), asLin(y, ins.Y.Type())
	opaque := func() []*State {
		ka, kb := a.Key(), b.Key()
		return set(symVal(ins.Op.String()+"("+ka+","+kb+"):"+t.String(), t))
	}
	bits, uns := intBits(t)
	finApply := func(f func(p, q int64) (int64, bool)) ([]*State, bool) {
		var base *Sym
		var va, vb *[256]int64
		if c, ok := a.constInt(); ok {
			if c2, ok := b.constInt(); ok {
				if r, ok := f(c, c2); ok {
					return set(LC(trunc(r, bits, uns))), true
				}
				return nil, false
			}
			va = constVec(c)
		} else if s, v, ok := a.asFin(); ok {
			base, va = s, v
		} else {
			return nil, false
		}
		if c, ok := b.constInt(); ok {
			vb = constVec(c)
		} else if s, v, ok := b.asFin(); ok && (base == nil || base == s) {
			base, vb = s, v
		} else {
			return nil, false
		}
		var o [256]int64
		fs := st.F.setOf(base)
		var fill int64
		first := true
		for i := 0; i < 256; i++ {
			if !fs.Has(i) {
				continue
			}
			r, ok := f(va[i], vb[i])
			if !ok {
				return nil, false
			}
			o[i] = trunc(r, bits, uns)
			if first {
				fill, first = o[i], false
			}
		}
		for i := 0; i < 256; i++ {
			if !fs.Has(i) {
				if r, ok := f(va[i], vb[i]); ok {
					o[i] = trunc(r, bits, uns)
				} else {
					o[i] = fill
				}
			}
		}
		return set(linOfFin(base, o)), true
	}
	switch ins.Op {
	case token.ADD:
		return e.fit(st, a.Add(b), t, ins)
	case token.SUB:
		return e.fit(st, a.Sub(b), t, ins)
	case token.MUL:
		if c, ok := a.constInt(); ok {
			return e.fit(st, b.Scale(c), t, ins)
		}
		if c, ok := b.constInt(); ok {
			return e.fit(st, a.Scale(c), t, ins)
		}
		if r, ok := finApply(func(p, q int64) (int64, bool) { return p * q, true }); ok {
			return r
		}
		return opaque()
	case token.SHL:
		if c, ok := b.constInt(); ok && c >= 0 && c < 62 {
			if r, ok := finApply(func(p, q int64) (int64, bool) { return p << uint(q), p < 1<<30 && q < 30 }); ok {
				return r
			}
			return e.fit(st, a.Scale(1<<uint(c)), t, ins)
		}
		if r, ok := finApply(func(p, q int64) (int64, bool) { return p << uint(q), q >= 0 && q < 63 }); ok {
			return r
		}
		return opaque()
	case token.SHR:
		if r, ok := finApply(func(p, q int64) (int64, bool) { return p >> uint(q), q >= 0 && q < 64 }); ok {
			return r
		}
		return opaque()
	case token.QUO:
		if r, ok := finApply(func(p, q int64) (int64, bool) {
			if q == 0 {
				return 0, false
			}
			return p / q, true
		}); ok {
			return r
		}
		if c, ok := b.constInt(); ok && c > 0 && st.F.Entails(a) {
			r := symVal(ins.Op.String()+"("+a.Key()+","+b.Key()+"):"+t.String(), t).(*Lin)
			st.F.AssumeGe(a.Sub(r.Scale(c)))
			st.F.AssumeGe(r.Scale(c).Sub(a).AddC(c - 1))
			return set(r)
		}
		return opaque()
	case token.REM:
		if r, ok := finApply(func(p, q int64) (int64, bool) {
			if q == 0 {
				return 0, false
			}
			return p % q, true
		}); ok {
			return r
		}
		return opaque()
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if r, ok := finApply(func(p, q int64) (int64, bool) {
			switch ins.Op {
			case token.AND:
				return p & q, true
			case token.OR:
				return p | q, true
			case token.XOR:
				return p ^ q, true
			}
			return p &^ q, true
		}); ok {
			return r
		}
		tmask := ^uint64(0)
		if bits < 64 {
			tmask = 1<<bits - 1
		}
		cu := func(l *Lin) (uint64, bool) {
			if l.isConst() && l.c.Sign() >= 0 && l.c.IsUint64() {
				return l.c.Uint64(), true
			}
			return 0, false
		}
		switch ins.Op {
		case token.AND:
			if m, ok := cu(b); ok {
				if r := andConst(st.F, a, m); r != nil {
					return set(r)
				}
			} else if m, ok := cu(a); ok {
				if r := andConst(st.F, b, m); r != nil {
					return set(r)
				}
			}
		case token.AND_NOT:
			if m, ok := cu(b); ok {
				if r := andConst(st.F, a, tmask&^m); r != nil {
					return set(r)
				}
			}
		case token.OR:
			for _, pr := range [][2]*Lin{{a, b}, {b, a}} {
				if m, ok := cu(pr[1]); ok {
					if r := andConst(st.F, pr[0], tmask&^m); r != nil {
						return set(r.AddB(new(big.Int).SetUint64(m)))
					}
				}
			}
			// disjoint bit ranges add
			if ok, _, _ := maskDecomp(st.F, a); ok {
				if ok, _, _ := maskDecomp(st.F, b); ok {
					if okS, _, _ := maskDecomp(st.F, a.Add(b)); okS {
						return set(a.Add(b))
					}
				}
			}
		}
		return opaque()
	}
	return opaque()
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// exact: the value of l, kept modulo 2^64, is l.
func (e *Engine) exact(st *State, l *Lin) bool {
	lo, hi, _ := intRange(types.Typ[types.Uint64])
	return st.F.Entails(l.AddB(new(big.Int).Neg(lo))) && st.F.Entails(addScaled(LB(hi), -1, l))
}

func constVec(c int64) *[256]int64 {
	var v [256]int64
	for i := range v {
		v[i] = c
	}
	return &v
}

func (e *Engine) compare(st *State, op token.Token, x, y Val, tx, ty types.Type) *Cond {
	if op == token.NEQ {
		return cNot(e.compare(st, token.EQL, x, y, tx, ty))
	}
	if e.H.FloatCmp != nil && isFloat(tx) {
		if c := e.H.FloatCmp(e, st, op, x, y); c != nil {
			return c
		}
	}
	lx, okx := x.(*Lin)
	ly, oky := y.(*Lin)
	if okx && oky && e.modular && isUint64(tx) && isUint64(ty) && !(e.exact(st, lx) && e.exact(st, ly)) {
		// the values are known modulo 2^64 only, unless the guard holds
		e.modular = false
		c := e.compare(st, op, x, y, tx, ty)
		e.modular = true
		havocN++
		any := cAtom(fmt.Sprintf("wrapped%d", havocN))
		// where lx and ly are small
		few := st.clone()
		g := e.H.Exact(few)
		if g == nil || !e.exact(few, lx) || !e.exact(few, ly) {
			return any
		}
		return cNot(cAnd(cNot(cAnd(g, c)), cNot(cAnd(cNot(g), any))))
	}
	if okx && oky {
		switch op {
		case token.EQL:
			return cEq(lx.Sub(ly))
		case token.LSS:
			return cGe(ly.Sub(lx).AddC(-1))
		case token.LEQ:
			return cGe(ly.Sub(lx))
		case token.GTR:
			return cGe(lx.Sub(ly).AddC(-1))
		case token.GEQ:
			return cGe(lx.Sub(ly))
		}
	}
	if isStr(tx) {
		a, ok1 := x.(StrV)
		b, ok2 := y.(StrV)
		if ok1 && ok2 && op == token.EQL {
			a = StrV{a.B, st.F.norm(a.lo), st.F.norm(a.hi)}
			b = StrV{b.B, st.F.norm(b.lo), st.F.norm(b.hi)}
			la, oa := a.lit()
			lb, ob := b.lit()
			switch {
			case oa && ob:
				return cBool(la == lb)
			case ob && lb == "":
				return cEq(a.length())
			case oa && la == "":
				return cEq(b.length())
			case ob:
				return &Cond{kind: 's', s: a, lit: lb}
			case oa:
				return &Cond{kind: 's', s: b, lit: la}
			case a.Key() == b.Key():
				return cBool(true)
			}
			k1, k2 := a.Key(), b.Key()
			if k2 < k1 {
				k1, k2 = k2, k1
			}
			return cAtom("streq:" + k1 + "==" + k2)
		}
	}
	if op == token.EQL {
		isNilLit := func(v Val) bool {
			switch v := v.(type) {
			case *NilV:
				return true
			case *SliceV:
				return v.isNil
			case *IfaceV:
				return v.isNil
			}
			return false
		}
		if isNilLit(y) {
			return nilCond(x)
		}
		if isNilLit(x) {
			return nilCond(y)
		}
		if isBoolT(tx) {
			cx, cy := e.cond(st, x), e.cond(st, y)
			if cy.kind == 'c' {
				if cy.b != cy.neg {
					return cx
				}
				return cNot(cx)
			}
			if cx.kind == 'c' {
				if cx.b != cx.neg {
					return cy
				}
				return cNot(cy)
			}
		}
		if px, ok := x.(*PtrV); ok {
			if py, ok := y.(*PtrV); ok {
				if px.o == py.o {
					switch st.cmpPath(px.p, py.p) {
					case idxEq:
						return cBool(true)
					case idxNe:
						return cBool(false)
					}
				} else if px.o.fresh || py.o.fresh || len(px.p) > 0 && len(py.p) > 0 && px.o.region != py.o.region {
					return cBool(false)
				}
			}
		}
		if sx, ok := x.(*StructV); ok {
			if sy, ok := y.(*StructV); ok && len(sx.f) == len(sy.f) {
				var cs []*Cond
				stt, _ := tx.Underlying().(*types.Struct)
				for i := range sx.f {
					ft := tx
					if stt != nil {
						ft = stt.Field(i).Type()
					}
					cs = append(cs, e.compare(st, token.EQL, sx.f[i], sy.f[i], ft, ft))
				}
				return cAnd(cs...)
			}
		}
		if ix, ok := x.(*IfaceV); ok && ix.t != nil {
			if iy, ok := y.(*IfaceV); ok && iy.t != nil {
				if !types.Identical(ix.t, iy.t) {
					return cBool(false)
				}
				return e.compare(st, token.EQL, ix.v, iy.v, ix.t, iy.t)
			}
		}
		if isFloat(tx) && keyOf(x) == keyOf(y) {
			return cNot(cAtom("isnan:" + keyOf(x)))
		}
		k1, k2 := keyOf(x), keyOf(y)
		if k1 == k2 && !isFloat(tx) {
			return cBool(true)
		}
		if k2 < k1 {
			k1, k2 = k2, k1
		}
		return cAtom("eq:" + k1 + "==" + k2)
	}
	// ordered comparison of opaque values: canonical "lt"/"le"
	switch op {
	case token.GTR:
		return cAtom("lt:" + keyOf(y) + "<" + keyOf(x))
	case token.GEQ:
		return cAtom("le:" + keyOf(y) + "<=" + keyOf(x))
	case token.LSS:
		return cAtom("lt:" + keyOf(x) + "<" + keyOf(y))
	}
	return cAtom("le:" + keyOf(x) + "<=" + keyOf(y))
}

func (e *Engine) convert(st *State, ins ssa.Value, xv ssa.Value, to types.Type) []*State {
	fr := st.top()
	set := func(x Val) []*State { fr.regs[ins] = x; return []*State{st} }
	x := e.val(st, xv)
	from := xv.Type()
	switch {
	case isInt(from) && isInt(to):
		return e.fit(st, asLin(x, from), to, ins)
	case isInt(from) && isFloat(to):
		if c, ok := x.(*Lin).constInt(); ok {
			return set(&TermV{key: fmt.Sprintf("const:%d", c), typ: to})
		}
		return set(mkTerm("conv:"+to.String(), to, x))
	case isFloat(from) && isInt(to):
		return set(symVal("conv:"+to.String()+"("+keyOf(x)+")", to))
	case isFloat(from) && isFloat(to):
		if types.Identical(from.Underlying(), to.Underlying()) {
			return set(x)
		}
		return set(mkTerm("conv:"+to.String(), to, x))
	case isStr(from) && isStr(to):
		return set(x)
	case isStr(to):
		if s, ok := x.(*SliceV); ok {
			// string(bytes)
			havocN++
			r := strSym(fmt.Sprintf("str%d(%s)", havocN, s.Key()))
			r.B.src = s
			if s.emit != nil {
				r.B.emit = s.emit
			}
			st.F.AssumeEq(r.B.n.Sub(s.n))
			if c, ok := st.F.norm(s.n).constInt(); ok && c <= 16 && s.o != nil && isByteT(s.o.typ) && s.emit == nil {
				trackedBases[r.B.name] = true
				for i := int64(0); i < c; i++ {
					if b, ok := st.load(s.o, Path{{f: -1, idx: st.F.norm(s.off.AddC(i))}}, s.o.typ).(*Lin); ok {
						st.F.AssumeEq(st.byteAt(r, LC(i)).Sub(b))
					}
				}
			}
			return set(r)
		}
		r := strSym("string(" + keyOf(x) + ")")
		return set(r)
	case isStr(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				s := x.(StrV)
				o := newObj("bytes("+s.Key()+")", sl.Elem())
				o.region, o.fresh = true, true
				o.src = &s
				st.heap[o] = &ObjState{origin: "bytesof"}
				n := st.F.norm(s.length())
				return set(&SliceV{o: o, off: LC(0), n: n, cap: n})
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return set(x)
	}
	return set(symVal("conv:"+to.String()+"("+keyOf(x)+")", to))
}

func (e *Engine) inBounds(st *State, ins ssa.Instruction, idx, n *Lin, what string) bool {
	ok := st.F.Entails(idx) && st.F.Entails(n.Sub(idx).AddC(-1))
	e.bounds(st, ins, what, ok)
	if !ok {
		return st.F.AssumeGe(idx) && st.F.AssumeGe(n.Sub(idx).AddC(-1))
	}
	return true
}

func (e *Engine) indexAddr(st *State, ins *ssa.IndexAddr) []*State {
	x := e.val(st, ins.X)
	idx := e.lin(st, ins.Index)
	switch v := x.(type) {
	case *SliceV:
		if !e.inBounds(st, ins, idx, v.n, "index") {
			return nil
		}
		st.top().regs[ins] = &PtrV{o: v.o, p: Path{{f: -1, idx: st.F.norm(v.off.Add(idx))}}}
		return []*State{st}
	case *PtrV:
		p := e.deref(st, ins, v)
		if p == nil {
			return nil
		}
		if a, ok := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			if !e.inBounds(st, ins, idx, LC(a.Len()), "index") {
				return nil
			}
		}
		st.top().regs[ins] = &PtrV{o: p.o, p: p.p.with(pe{f: -1, idx: idx})}
		return []*State{st}
	}
	o := newObj("elem("+keyOf(x)+")", ins.Type().(*types.Pointer).Elem())
	st.top().regs[ins] = &PtrV{o: o}
	return []*State{st}
}

func (e *Engine) index(st *State, ins ssa.Instruction, xv, iv ssa.Value, res ssa.Value) []*State {
	x := e.val(st, xv)
	idx := e.lin(st, iv)
	switch v := x.(type) {
	case StrV:
		if !e.inBounds(st, ins, idx, v.length(), "index") {
			return nil
		}
		st.top().regs[res] = st.byteAt(v, idx)
		return []*State{st}
	case *StructV:
		if k, ok := idx.constInt(); ok && k >= 0 && int(k) < len(v.f) {
			st.top().regs[res] = v.f[k]
			return []*State{st}
		}
		n := int64(len(v.f))
		if !e.inBounds(st, ins, idx, LC(n), "index") {
			return nil
		}
		// finite index over constant elements
		if b, vec, ok := idx.asFin(); ok {
			var o [256]int64
			good := true
			for i := 0; i < 256 && good; i++ {
				if st.F.setOf(b).Has(i) {
					c, ok := v.f[vec[i]].(*Lin)
					if !ok {
						good = false
						break
					}
					k, ok := c.constInt()
					if !ok {
						good = false
						break
					}
					o[i] = k
				}
			}
			if good {
				st.top().regs[res] = linOfFin(b, o)
				return []*State{st}
			}
		}
	}
	havocN++
	st.top().regs[res] = symVal(fmt.Sprintf("index%d(%s,%s)", havocN, keyOf(x), idx.Key()), res.Type())
	return []*State{st}
}

func (e *Engine) slice(st *State, ins *ssa.Slice) []*State {
	x := e.val(st, ins.X)
	lo := LC(0)
	if ins.Low != nil {
		lo = e.lin(st, ins.Low)
	}
	set := func(v Val) []*State { st.top().regs[ins] = v; return []*State{st} }
	need := func(ok bool, ls ...*Lin) bool {
		e.bounds(st, ins, "slice", ok)
		if !ok {
			for _, l := range ls {
				if !st.F.AssumeGe(l) {
					return false
				}
			}
		}
		return true
	}
	switch v := x.(type) {
	case StrV:
		hi := v.length()
		if ins.High != nil {
			hi = e.lin(st, ins.High)
		}
		c1, c2, c3 := lo, hi.Sub(lo), v.length().Sub(hi)
		if !need(st.F.Entails(c1) && st.F.Entails(c2) && st.F.Entails(c3), c1, c2, c3) {
			return nil
		}
		r := StrV{v.B, st.F.norm(v.lo.Add(lo)), st.F.norm(v.lo.Add(hi))}
		if l, ok := r.lit(); ok {
			return set(strLit(l))
		}
		return set(r)
	case *SliceV, *PtrV:
		var sv *SliceV
		if s, ok := v.(*SliceV); ok {
			sv = s
		} else {
			p := e.deref(st, ins, v)
			if p == nil {
				return nil
			}
			a, ok := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok || len(p.p) > 0 {
				break
			}
			sv = &SliceV{o: p.o, off: LC(0), n: LC(a.Len()), cap: LC(a.Len())}
		}
		hi := sv.n
		if ins.High != nil {
			hi = e.lin(st, ins.High)
		}
		mx := sv.cap
		if ins.Max != nil {
			mx = e.lin(st, ins.Max)
		}
		c1, c2, c3, c4 := lo, hi.Sub(lo), mx.Sub(hi), sv.cap.Sub(mx)
		if !need(st.F.Entails(c1) && st.F.Entails(c2) && st.F.Entails(c3) && st.F.Entails(c4), c1, c2, c3, c4) {
			return nil
		}
		r := &SliceV{o: sv.o, off: st.F.norm(sv.off.Add(lo)), n: st.F.norm(hi.Sub(lo)), cap: st.F.norm(mx.Sub(lo)), nilKey: sv.nilKey, isNil: sv.isNil}
		if sv.emit != nil && lo.isConst() && lo.c.Sign() == 0 && st.F.EntailsEq(hi.Sub(sv.n)) {
			r.emit = sv.emit
		} else if sl, ok := sv.emit.(interface {
			Reslice(e *Engine, st *State, ins ssa.Instruction, lo, hi *Lin) Emit
		}); ok {
			r.emit = sl.Reslice(e, st, ins, lo, hi)
		}
		return set(r)
	}
	havocN++
	return set(symVal(fmt.Sprintf("slice%d(%s)", havocN, keyOf(x)), ins.Type()))
}

func (e *Engine) typeAssert(st *State, ins *ssa.TypeAssert) []*State {
	x := e.val(st, ins.X)
	iv, _ := x.(*IfaceV)
	T := ins.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	result := func(s *State, v Val, ok bool) *State {
		if ins.CommaOk {
			s.top().regs[ins] = &TupleV{[]Val{v, cBool(ok)}}
		} else {
			s.top().regs[ins] = v
		}
		return s
	}
	fail := func(s *State) []*State {
		if ins.CommaOk {
			return []*State{result(s, zeroVal(T), false)}
		}
		if e.H.Panic != nil {
			e.H.Panic(e, s, ins, "failed type assertion to "+T.String())
		}
		return nil
	}
	if iv == nil {
		iv = &IfaceV{key: "iface:" + keyOf(x)}
	}
	if iv.isNil {
		return fail(st)
	}
	if iv.t != nil {
		if toIface {
			if types.Implements(iv.t, T.Underlying().(*types.Interface)) {
				return []*State{result(st, iv, true)}
			}
			return fail(st)
		}
		if types.Identical(iv.t, T) {
			return []*State{result(st, iv.v, true)}
		}
		return fail(st)
	}
	atom := "is:" + iv.key + ":" + T.String()
	var out []*State
	f := st.clone()
	t := st
	okT := true
	if v, known := t.F.atoms["nil:"+iv.key]; known && v {
		okT = false
	}
	if v, known := t.F.atoms[atom]; known && !v {
		okT = false
	}
	if !toIface {
		// at most one concrete type holds
		for a, v := range t.F.atoms {
			if v && strings.HasPrefix(a, "is:"+iv.key+":") && a != atom && !e.P.isIfaceName(a[len("is:"+iv.key+":"):]) {
				okT = false
			}
		}
	}
	if okT {
		t.F.atoms[atom] = true
		t.F.atoms["nil:"+iv.key] = false
		if toIface {
			out = append(out, result(t, &IfaceV{key: iv.key}, true))
		} else {
			out = append(out, result(t, symVal(iv.key+".("+T.String()+")", T), true))
		}
	}
	if v, known := f.F.atoms[atom]; !(known && v) {
		f.F.atoms[atom] = false
		out = append(out, fail(f)...)
	}
	return out
}
