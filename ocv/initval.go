package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initRun evaluates the package-level initialisers of a package (not its
// init functions, nor those of the packages it imports).
func (c *Ctx) initRun(p *ssa.Package) *Run {
	if p == nil {
		return nil
	}
	f := p.Func("init")
	if f == nil {
		return nil
	}
	r := c.E.initRun(p)
	if r != nil {
		c.note(r)
		c.runs["init|"+f.String()] = r
	}
	return r
}

func (e *Eng) initRun(p *ssa.Package) *Run {
	f := p.Func("init")
	if f == nil {
		return nil
	}
	if r, ok := e.inits[p]; ok {
		return r
	}
	if e.inits == nil {
		e.inits = map[*ssa.Package]*Run{}
	}
	e.inits[p] = nil
	st := newState()
	if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
		st.mem[e.globalAddr(g)] = e.mkBool(False)
	}
	r := e.AnalyseWith(f, nil, nil, st, Opts{Resolve: defaultResolve(e.W), Inline: func(f *ssa.Function) bool {
		return f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#")
	}})
	e.inits[p] = r
	return r
}

// constGlobal: the variable is only ever read, apart from its initialiser, and
// its address is not taken.
func (e *Eng) constGlobal(g *ssa.Global) bool {
	if e.globC == nil {
		e.globC = map[*ssa.Global]bool{} // true: not constant
		var reads func(v ssa.Value) bool
		reads = func(v ssa.Value) bool {
			for _, ref := range *v.Referrers() {
				switch x := ref.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr:
					if !reads(x) {
						return false
					}
				case *ssa.IndexAddr:
					if !reads(x) {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
		for _, f := range e.W.Funcs {
			ini := f.Synthetic != "" && f.Name() == "init"
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if !ini || x.Addr != ssa.Value(g) {
								e.globC[g] = true
							}
						case *ssa.FieldAddr:
							if !ini && !reads(x) {
								e.globC[g] = true
							}
						case *ssa.IndexAddr:
							if !ini && !reads(x) {
								e.globC[g] = true
							}
						default:
							if !ini {
								e.globC[g] = true
							}
						}
					}
				}
			}
		}
	}
	return !e.globC[g]
}

// userSet: a variable the package's users are meant to be able to assign.
func userSet(g *ssa.Global) bool {
	if !g.Object().Exported() {
		return false
	}
	s, ok := deref(g.Type()).Underlying().(*types.Struct)
	if !ok {
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return true
		}
	}
	return false
}

// constLoad is the constant content of a never reassigned package-level
// variable, or nil.
func (e *Eng) constLoad(a, root *Term, t types.Type) *Term {
	g, ok := root.Obj.(*ssa.Global)
	if !ok || g.Object() == nil || g.Pkg == nil || !isModPkg(g.Pkg.Pkg.Path()) || userSet(g) || !e.constGlobal(g) {
		return nil
	}
	for x := a; x != root; x = x.Args[0] {
		if x.Op != "field" {
			return nil
		}
	}
	r := e.initRun(g.Pkg)
	if r == nil || r.Final == nil {
		return nil
	}
	if e.constLd[a] {
		return nil // not written by the initialisers
	}
	if e.constLd == nil {
		e.constLd = map[*Term]bool{}
	}
	e.constLd[a] = true
	v := r.loadT(r.Final, a, t)
	delete(e.constLd, a)
	if scalarConst(v) {
		return v
	}
	return nil
}

func scalarConst(v *Term) bool {
	if v == nil {
		return false
	}
	if v.isConst() || v.Op == "zero" {
		return true
	}
	if v.Op == "bool" {
		b := v.Obj.(BDD)
		return b == True || b == False
	}
	if v.Op == "struct" {
		for _, a := range v.Args {
			if !scalarConst(a) {
				return false
			}
		}
		return true
	}
	return false
}

// nonNilGlobal: the variable is initialised to something that is not nil and
// never reassigned.
func (e *Eng) nonNilGlobal(t *Term) bool {
	if t.Op != "ld" || t.Args[0].Op != "global" {
		return false
	}
	if g, ok := t.Args[0].Obj.(*ssa.Global); ok && g.Pkg != nil && !isModPkg(g.Pkg.Pkg.Path()) && types.Identical(t.T, types.Universe.Lookup("error").Type()) {
		// the error sentinels of the standard library (io.EOF)
		return true
	}
	v := e.globalInit(t.Args[0])
	return v != nil && v != t && v.Op != "ld" && e.isNonNil(v)
}

// globalInit is the initial value of a never reassigned variable.
func (e *Eng) globalInit(a *Term) *Term {
	g, ok := a.Obj.(*ssa.Global)
	if !ok || g.Object() == nil || g.Pkg == nil || !isModPkg(g.Pkg.Pkg.Path()) || !e.constGlobal(g) {
		return nil
	}
	r := e.initRun(g.Pkg)
	if r == nil || r.Final == nil {
		return nil
	}
	return r.final(a)
}

func (e *Eng) globalAddr(g *ssa.Global) *Term { return e.mk("global", e.oid(g), g.Type(), g) }

// onlyInit: the global is written (directly or through an address derived
// from it) only by the package's variable initialisers.
func (c *Ctx) onlyInit(g *ssa.Global) bool {
	if c.globW == nil {
		c.globW = map[*ssa.Global]bool{}
		for _, f := range c.W.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || f.Name() == "init" && f.Synthetic != "" {
						continue
					}
					a := st.Addr
					for a != nil {
						switch x := a.(type) {
						case *ssa.IndexAddr:
							a = x.X
							continue
						case *ssa.FieldAddr:
							a = x.X
							continue
						case *ssa.Slice:
							a = x.X
							continue
						case *ssa.UnOp:
							a = x.X
							continue
						case *ssa.Global:
							c.globW[x] = true
						}
						break
					}
				}
			}
		}
	}
	return !c.globW[g]
}

// initVal is the value of a package-level variable after initialisation, or
// nil if something else may write it.
func (c *Ctx) initVal(g *ssa.Global) *Term {
	if g == nil || !c.onlyInit(g) {
		return nil
	}
	r := c.initRun(g.Pkg)
	if r == nil || r.Final == nil {
		return nil
	}
	return r.final(c.E.globalAddr(g))
}

// initAt is the memory content at an address after package initialisation.
func (c *Ctx) initAt(p *ssa.Package, a *Term) *Term {
	r := c.initRun(p)
	if r == nil || r.Final == nil {
		return nil
	}
	return r.final(a)
}

// constTable reads a package-level array or slice initialised with constants.
func (c *Ctx) constTable(g *ssa.Global) []int64 {
	ts := c.initElems(g)
	if ts == nil {
		return nil
	}
	var out []int64
	for _, t := range ts {
		k, ok := t.intVal()
		if !ok {
			return nil
		}
		out = append(out, k)
	}
	return out
}

// initElems lists the elements of a package-level array or slice.
func (c *Ctx) initElems(g *ssa.Global) []*Term {
	if g == nil || !c.onlyInit(g) {
		return nil
	}
	r := c.initRun(g.Pkg)
	if r == nil || r.Final == nil {
		return nil
	}
	return r.elems(c.E.globalAddr(g), r.final(c.E.globalAddr(g)))
}

// elems lists the elements of an array (at address a) or slice value in the
// final state, when the length is a constant.
func (r *Run) elems(a, v *Term) []*Term {
	e := r.Eng
	var out []*Term
	if a != nil {
		if at, ok := arrayOf(deref(a.T)); ok {
			for i := int64(0); i < at.Len(); i++ {
				out = append(out, r.final(e.indexAddr(a, e.mkInt(i, nil), at.Elem())))
			}
			return out
		}
	}
	if v == nil {
		return nil
	}
	return r.elemsOf(r.Final, v)
}

func arrayOf(t types.Type) (*types.Array, bool) {
	at, ok := t.Underlying().(*types.Array)
	return at, ok
}
