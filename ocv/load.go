package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "go.opencensus.io"

// World is the type-checked program and its SSA form, rebuilt from the
// working tree on every run.
type World struct {
	nowTab map[string]*anchorPkg
	Prog   *ssa.Program
	Pkgs   []*packages.Package
	ByPkg  map[string]*ssa.Package
	Funcs  []*ssa.Function // every function of the module with a body
	dir    string
}

func sortInts(x []int) { sort.Ints(x) }

func repoDir() string {
	if d := os.Getenv("OCV_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GOARCH=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0")
}

func load(tags string, env ...string) (*World, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(goEnv(), env...),
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Prog: prog, Pkgs: ps, ByPkg: map[string]*ssa.Package{}, dir: dir}
	for _, p := range prog.AllPackages() {
		if p != nil && p.Pkg != nil {
			w.ByPkg[p.Pkg.Path()] = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if w.inModule(f) && len(f.Blocks) > 0 && !strings.Contains(fnPkgPath(f), "/examples") {
			w.Funcs = append(w.Funcs, f)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		a, b := w.Funcs[i], w.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	if len(w.Funcs) < 300 {
		return nil, fmt.Errorf("only %d functions loaded", len(w.Funcs))
	}
	return w, nil
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	// a promoted method belongs to the package of the type it is promoted to
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (w *World) inModule(f *ssa.Function) bool {
	p := fnPkgPath(f)
	if rv := f.Signature.Recv(); rv != nil && f.Pkg == nil && f.Synthetic != "" && namedOf(rv.Type()) == nil {
		return true // a wrapper for an embedded field of an unnamed type
	}
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// fnName is the package-qualified short name: "trace.(*span).End",
// "trace.startSpanInternal", "view.(*worker).start$1".
func fnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// lookupFn resolves "trace.(*span).End" / "trace.NewSpan" style names, where
// the package part is the import path relative to the module root.
func (w *World) fn(pkg, name string) *ssa.Function {
	f := w.fn0(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		if n := w.renamedFunc(pkg, name); n != "" {
			return w.fn0(pkg, n)
		}
	}
	return f
}

func (w *World) fn0(pkg, name string) *ssa.Function {
	sp := w.ByPkg[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn := strings.Trim(name[:i], "(*)")
		m := name[i+1:]
		obj, _ := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if obj == nil {
			return nil
		}
		for _, t := range []types.Type{obj.Type(), types.NewPointer(obj.Type())} {
			if sel := types.NewMethodSet(t).Lookup(sp.Pkg, m); sel != nil {
				f := w.Prog.MethodValue(sel)
				if f != nil && f.Synthetic != "" {
					// promoted / wrapper: take declared function
					if fo, ok := sel.Obj().(*types.Func); ok {
						if d := w.Prog.FuncValue(fo); d != nil {
							return d
						}
					}
				}
				return f
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (w *World) typ(pkg, name string) *types.Named {
	sp := w.ByPkg[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	obj, _ := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if obj == nil {
		if n := w.renamedType(pkg, name); n != "" {
			obj, _ = sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		}
	}
	if obj == nil {
		return nil
	}
	n, _ := types.Unalias(obj.Type()).(*types.Named)
	return n
}

func (w *World) global(pkg, name string) *ssa.Global {
	sp := w.ByPkg[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name].(*ssa.Global)
	if g == nil {
		if n := w.renamedGlobal(pkg, name); n != "" {
			g, _ = sp.Members[n].(*ssa.Global)
		}
	}
	return g
}
