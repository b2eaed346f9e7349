package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- type and field anchors ----

// fieldIx finds a struct field by name.
func fieldIx(t types.Type, name string) int {
	if t == nil {
		return -1
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// Njson holds the anchors of the root package.
type Njson struct {
	P                              *Program
	Document, Node, node, V, IterV types.Type
	dNodes, dRev                   int
	nID, nRev, nDoc                int
	iInfo, iRaw, iValues           int
	vID, vKey                      int
	kinds                          map[string]int64 // TypeString etc. as values of Type
	vinfo                          map[string]int64 // vString etc.
	infRoot                        int64
}

func njsonAnchors(c *Ctx) *Njson {
	p := c.P
	nj := &Njson{P: p, kinds: map[string]int64{}}
	ok := true
	get := func(n string) types.Type {
		t := p.typ("", n)
		ok = c.Anchor(t != nil, "njson."+n) && ok
		return t
	}
	nj.Document, nj.Node, nj.node, nj.V, nj.IterV = get("Document"), get("Node"), get("node"), get("V"), get("IterV")
	fi := func(t types.Type, n string) int {
		i := fieldIx(t, n)
		ok = c.Anchor(i >= 0, fmt.Sprintf("field %v.%s", t, n)) && ok
		return i
	}
	nj.dNodes, nj.dRev = fi(nj.Document, "nodes"), fi(nj.Document, "rev")
	nj.nID, nj.nRev, nj.nDoc = fi(nj.Node, "id"), fi(nj.Node, "rev"), fi(nj.Node, "doc")
	nj.iInfo, nj.iRaw, nj.iValues = fi(nj.node, "info"), fi(nj.node, "raw"), fi(nj.node, "values")
	nj.vID, nj.vKey = fi(nj.V, "id"), fi(nj.V, "key")
	for _, k := range []string{"TypeInvalid", "TypeString", "TypeObject", "TypeArray", "TypeNumber", "TypeBoolean", "TypeNull", "TypeAnyValue"} {
		v, o := p.constInt("", k)
		ok = c.Anchor(o, "njson."+k) && ok
		nj.kinds[k] = v
	}
	v, o := p.constInt("", "infRoot")
	ok = c.Anchor(o, "njson.infRoot") && ok
	nj.infRoot = v
	if !ok {
		return nil
	}
	return nj
}

// constInt is the value of a package-level integer constant.
func (p *Program) constInt(rel, name string) (int64, bool) {
	k := p.pkg(rel)
	if k == nil {
		return 0, false
	}
	c, ok := k.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constToInt(c)
}

// ---- symbolic documents and nodes ----

// doc makes a symbolic, non-nil document.
func (nj *Njson) doc(name string) *PtrV {
	o := newObj(name, nj.Document)
	o.name = name
	return &PtrV{o: o}
}

func fpath(ix ...int) Path {
	var p Path
	for _, i := range ix {
		p = append(p, pe{f: i})
	}
	return p
}

// nodes is the current d.nodes.
func (nj *Njson) nodes(st *State, d *PtrV) *SliceV {
	v, _ := st.load(d.o, fpath(nj.dNodes), fieldTyp(nj.Document, nj.dNodes)).(*SliceV)
	return v
}
func (nj *Njson) rev(st *State, d *PtrV) *Lin {
	return asLin(st.load(d.o, fpath(nj.dRev), fieldTyp(nj.Document, nj.dRev)), fieldTyp(nj.Document, nj.dRev))
}
func fieldTyp(t types.Type, i int) types.Type { return t.Underlying().(*types.Struct).Field(i).Type() }

// nodePath is the location of a field of node id.
func (nj *Njson) nodePath(sl *SliceV, id *Lin, f int) *PtrV {
	return &PtrV{o: sl.o, p: Path{{f: -1, idx: sl.off.Add(id)}, {f: f}}}
}

// nodeVal makes the Node value {id, rev, doc}.
func (nj *Njson) nodeVal(id, rev *Lin, d Val) *StructV {
	s := &StructV{f: make([]Val, nj.Node.Underlying().(*types.Struct).NumFields())}
	for i := range s.f {
		s.f[i] = zeroVal(fieldTyp(nj.Node, i))
	}
	s.f[nj.nID], s.f[nj.nRev], s.f[nj.nDoc] = id, rev, d
	return s
}

// symNode is a node reference on d whose revision is current; the id is symbolic.
func (nj *Njson) symNode(st *State, name string, d *PtrV) (*StructV, *Lin) {
	id := symVal(name+".id", types.Typ[types.Uint]).(*Lin)
	return nj.nodeVal(id, nj.rev(st, d), d), id
}

// nodeType of node id: the low byte of info.
func (nj *Njson) infoOf(st *State, d *PtrV, id *Lin) *Lin {
	p := nj.nodePath(nj.nodes(st, d), id, nj.iInfo)
	return asLin(st.load(p.o, p.p, fieldTyp(nj.node, nj.iInfo)), fieldTyp(nj.node, nj.iInfo))
}

// ---- running ----

type runner struct {
	c  *Ctx
	e  *Engine
	nj *Njson
}

func (c *Ctx) runner(nj *Njson) *runner {
	e := newEngine(c.P)
	e.widenDbg = os.Getenv("NJ_WIDEN") != ""
	r := &runner{c: c, e: e, nj: nj}
	return r
}

func (r *runner) run(st *State, fn *ssa.Function, args ...Val) []Outcome {
	r.c.saw(fn)
	return r.e.Run(st, fn, args, nil, nil)
}

func (r *runner) done() { r.c.Merge(r.e) }

// callNamed matches a call by its full name.
func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, repoMod+"/", "")
	s = strings.ReplaceAll(s, repoMod, "njson")
	return s
}

// exportedMethods lists exported methods declared on T or *T in a package.
func (p *Program) methodsOf(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, rt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.prog.MethodSets.MethodSet(rt)
		for i := 0; i < ms.Len(); i++ {
			fo, ok := ms.At(i).Obj().(*types.Func)
			if !ok || !isRepoPath(fo.Pkg().Path()) {
				continue
			}
			d := p.prog.FuncValue(fo)
			if d == nil || seen[d] || len(d.Blocks) == 0 {
				continue
			}
			seen[d] = true
			out = append(out, d)
		}
	}
	return out
}

var noPos = token.NoPos

func constToInt(c *types.Const) (int64, bool) {
	v := constant.ToInt(c.Val())
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}
