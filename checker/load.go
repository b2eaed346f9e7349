package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked repository in SSA form.
type Program struct {
	dir     string
	fset    *token.FileSet
	pkgs    []*packages.Package
	prog    *ssa.Program
	byImp   map[string]*packages.Package
	glob    map[*ssa.Global]int // 1 = only stored a non-nil value in init, 2 = no
	allFn   []*ssa.Function
	iface   map[string]bool
	poolTab map[string]*poolInfo
}

func loadProgram(dir string) (*Program, error) {
	p := &Program{dir: dir, byImp: map[string]*packages.Package{}}
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedImports,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=readonly"),
	}
	p.fset = token.NewFileSet()
	cfg.Fset = p.fset
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, k := range ps {
		for _, e := range k.Errors {
			errs = append(errs, e.Error())
		}
		p.byImp[k.PkgPath] = k
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	p.pkgs = ps
	p.prog, _ = ssautil.Packages(ps, ssa.InstantiateGenerics)
	p.prog.Build()
	for fn := range ssautil.AllFunctions(p.prog) {
		if p.isRepoFn(fn) {
			p.allFn = append(p.allFn, fn)
		}
	}
	sort.Slice(p.allFn, func(i, j int) bool {
		a, b := p.allFn[i], p.allFn[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	// bound/thunk wrappers
	if len(fn.FreeVars) > 0 {
		t := fn.FreeVars[0].Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func isRepoPath(s string) bool { return s == repoMod || strings.HasPrefix(s, repoMod+"/") }

func (p *Program) isRepoFn(fn *ssa.Function) bool { return isRepoPath(fnPkgPath(fn)) }

func (p *Program) isIfaceName(s string) bool {
	if p.iface == nil {
		p.iface = map[string]bool{"error": true}
		seen := map[*types.Package]bool{}
		var add func(k *types.Package)
		add = func(k *types.Package) {
			if seen[k] {
				return
			}
			seen[k] = true
			for _, n := range k.Scope().Names() {
				if tn, ok := k.Scope().Lookup(n).(*types.TypeName); ok {
					if _, ok := tn.Type().Underlying().(*types.Interface); ok {
						p.iface[tn.Type().String()] = true
					}
				}
			}
			for _, i := range k.Imports() {
				add(i)
			}
		}
		for _, k := range p.pkgs {
			add(k.Types)
		}
	}
	return p.iface[s] || strings.HasPrefix(s, "interface")
}

// initOnlyNonNil: the global is stored exactly in package init code, with
// values that are obviously non-nil.
func (p *Program) initOnlyNonNil(g *ssa.Global) bool {
	if p.glob == nil {
		p.glob = map[*ssa.Global]int{}
		for _, fn := range p.allFn {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op == nil {
							continue
						}
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := ins.(type) {
						case *ssa.Store:
							if x.Addr == gl && x.Val != gl && fn.Name() == "init" && obviouslyNonNil(x.Val) {
								if p.glob[gl] == 0 {
									p.glob[gl] = 1
								}
								continue
							}
							p.glob[gl] = 2
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							if _, ok := ins.(*ssa.UnOp); !ok {
								p.glob[gl] = 2
							}
						default:
							p.glob[gl] = 2
						}
					}
				}
			}
		}
	}
	return p.glob[g] == 1
}

func obviouslyNonNil(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.Call:
		if c := v.Call.StaticCallee(); c != nil {
			switch c.String() {
			case "errors.New", "fmt.Errorf", "reflect.TypeOf":
				return true
			}
		}
	case *ssa.ChangeInterface:
		return obviouslyNonNil(v.X)
	}
	if c, ok := v.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Elem" {
		return true
	}
	return false
}

// pkg returns the package with the path relative to the module root.
func (p *Program) pkg(rel string) *packages.Package {
	if rel == "" {
		return p.byImp[repoMod]
	}
	return p.byImp[repoMod+"/"+rel]
}

func (p *Program) ssaPkg(rel string) *ssa.Package {
	k := p.pkg(rel)
	if k == nil {
		return nil
	}
	return p.prog.Package(k.Types)
}

// fn looks up "Func" or "(*T).Method" / "T.Method" in a package.
func (p *Program) fn(rel, name string) *ssa.Function {
	sp := p.ssaPkg(rel)
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i > 0 {
		tn := strings.Trim(name[:i], "(*)")
		m := name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := p.prog.MethodSets.MethodSet(rt)
			if sel := ms.Lookup(sp.Pkg, m); sel != nil {
				f := p.prog.MethodValue(sel)
				// unwrap: prefer the declared function
				if fo, ok := sel.Obj().(*types.Func); ok {
					if d := p.prog.FuncValue(fo); d != nil {
						return d
					}
				}
				return f
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Program) typ(rel, name string) types.Type {
	sp := p.ssaPkg(rel)
	if sp == nil || sp.Type(name) == nil {
		return nil
	}
	return sp.Type(name).Type()
}

func relOf(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, repoMod), "/")
}
