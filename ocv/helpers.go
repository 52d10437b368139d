package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- small predicate builders ----------

func (e *Eng) isNil(t *Term) BDD { return e.eq(t, e.zero(t.T)) }

func (e *Eng) not(b BDD) BDD { return e.B.Not(b) }

func (e *Eng) all(bs ...BDD) BDD {
	x := True
	for _, b := range bs {
		x = e.B.And(x, b)
	}
	return x
}

func (e *Eng) any(bs ...BDD) BDD {
	x := False
	for _, b := range bs {
		x = e.B.Or(x, b)
	}
	return x
}

func (e *Eng) lt(a, b *Term) BDD {
	l := e.toLin(a).add(e.toLin(b), -1)
	l.k++
	return e.leZero(l)
}

func (e *Eng) leq(a, b *Term) BDD { return e.leZero(e.toLin(a).add(e.toLin(b), -1)) }

func (e *Eng) plus(a *Term, k int64) *Term {
	l := e.toLin(a)
	n := lin{map[*Term]int64{}, l.k + k}
	for t, c := range l.co {
		n.co[t] = c
	}
	return e.fromLin(n, a.T)
}

func (e *Eng) bits(x *Term, mask int64) *Term {
	r := e.newRun(Opts{})
	return r.arith(newState(), token.AND, x, e.mkInt(mask, x.T), x.T, 0)
}

// ap walks a chain of fields from a pointer or address: each step takes the
// address of the named field; a "*" step loads the pointer stored there.
func (e *Eng) ap(base *Term, path ...*types.Var) *Term {
	a := base
	for _, f := range path {
		a = e.fa(a, f)
	}
	return a
}

func (e *Eng) ld(a *Term) *Term {
	t := e.mk("ld", "", deref(a.T), nil, a)
	if isBool(t.T) {
		return e.mkBool(e.bdd(t))
	}
	return t
}

// at is the value of the location when the effect happens.
func (r *Run) at(ef *Effect, a *Term) *Term {
	if ef.mem == nil {
		return nil
	}
	return r.loadT(ef.mem, a, deref(a.T))
}

func constInt(t *Term, n int64) bool { k, ok := t.intVal(); return ok && k == n }

// same value, modulo theory, under a condition.
func (e *Eng) same(cond BDD, a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	a, b = e.under(a, cond), e.under(b, cond)
	if a == b {
		return true
	}
	if isBool(a.T) && isBool(b.T) {
		x, y := e.bdd(a), e.bdd(b)
		return e.implies(e.B.And(cond, x), y) && e.implies(e.B.And(cond, y), x)
	}
	if a.T != nil && b.T != nil {
		q := e.eq(a, b)
		if e.implies(cond, q) {
			return true
		}
	}
	return false
}

// lockHeld: the mutex at address mu is held (mode 2 exclusive, 1 shared).
func lockHeld(ef *Effect, mu *Term, mode int) bool {
	m, ok := ef.Locks[mu]
	return ok && m >= mode
}

func onceHeld(ef *Effect, o *Term) bool {
	for _, x := range ef.Once {
		if x == o {
			return true
		}
	}
	return false
}

// ---------- program queries ----------

// pkgFuncs lists the functions (with bodies, including closures) of a package.
func (c *Ctx) pkgFuncs(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.W.Funcs {
		if shortPkg(fnPkgPath(f)) == pkg {
			out = append(out, f)
		}
	}
	return out
}

func shortPkg(p string) string {
	if p == modPath {
		return ""
	}
	return strings.TrimPrefix(p, modPath+"/")
}

// instrs visits every instruction of the module's functions.
func (c *Ctx) instrs(fs []*ssa.Function, v func(f *ssa.Function, in ssa.Instruction)) {
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v(f, in)
			}
		}
	}
}

// roots lists the functions of a package through which control enters it from
// outside: exported functions and methods, functions whose value is taken or
// which satisfy an interface, and functions nothing in the package calls.
func (c *Ctx) roots(pkg string) []*ssa.Function {
	fs := c.pkgFuncs(pkg)
	called := map[*ssa.Function]bool{}
	value := map[*ssa.Function]bool{}
	invoked := map[string]bool{}
	for _, f := range c.W.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if ci, isc := in.(ssa.CallInstruction); !isc || ci.Common().StaticCallee() != g {
							value[g] = true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if ci.Common().IsInvoke() {
						invoked[ci.Common().Method.Name()] = true
					}
					if g := ci.Common().StaticCallee(); g != nil && f != g {
						called[g] = true
						if o := g.Origin(); o != nil {
							called[o] = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range fs {
		if f.Parent() != nil || f.Synthetic != "" || f.Name() == "init" {
			continue
		}
		exp := token.IsExported(f.Name())
		if !exp && !called[f] && !value[f] && !invoked[f.Name()] {
			continue // dead code
		}
		if exp || !called[f] {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (c *Ctx) std() Opts { return Opts{Resolve: c.resolve()} }

func (c *Ctx) stdLoads() Opts { return Opts{Resolve: c.resolve(), Loads: true} }

func (c *Ctx) resolve() func(recv *Term, m *types.Func) []*ssa.Function {
	if c.res == nil {
		c.res = defaultResolve(c.W)
	}
	return c.res
}

// go1 runs a function by package and name with the standard options.
func (c *Ctx) go1(pkg, name string) *Run {
	f := c.fn(pkg, name)
	if f == nil {
		return nil
	}
	return c.run(f, c.std())
}

func (c *Ctx) goL(pkg, name string) *Run {
	f := c.fn(pkg, name)
	if f == nil {
		return nil
	}
	return c.run(f, c.stdLoads())
}

func name(r *Run) string { return fnName(r.Root.fn) }

func (c *Ctx) fpos(r *Run) string { return c.W.position(r.Root.fn.Pos()) }

// freshValue: every alternative of the value was allocated during this run
// (or is nil), so nobody else holds a reference to it.
func (e *Eng) freshValue(t *Term, allow func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return true
		}
		seen[t] = true
		if allow != nil && allow(t) {
			return true
		}
		switch t.Op {
		case "alloc", "make", "nil", "zero":
			return true
		case "const":
			return true
		case "ite":
			return rec(t.Args[0]) && rec(t.Args[1])
		case "append":
			// growing a fresh slice (or nil) stays fresh
			return rec(t.Args[0])
		case "slice":
			return rec(t.Args[0])
		case "iface":
			return rec(t.Args[0])
		case "loopphi":
			l := t.Obj.(*LoopPhi)
			if !rec(l.Init) {
				return false
			}
			for _, b := range l.Back {
				if !rec(b) {
					return false
				}
			}
			return true
		case "copyof", "patched":
			return rec(t.Args[0])
		}
		return false
	}
	return rec(t)
}

// loopOver finds the innermost loop of the effect whose collection satisfies p.
func loopOver(ef *Effect, p func(*Term) bool) *LoopCtx {
	for i := len(ef.Loops) - 1; i >= 0; i-- {
		if ef.Loops[i].Coll != nil && p(ef.Loops[i].Coll) {
			return ef.Loops[i]
		}
	}
	return nil
}

func anyLeaf(t *Term, p func(*Term) bool) bool {
	for _, l := range leaves(t) {
		if l != nil && p(l) {
			return true
		}
	}
	return false
}

func allLeaves(t *Term, p func(*Term) bool) bool {
	for _, l := range leaves(t) {
		if l == nil || !p(l) {
			return false
		}
	}
	return true
}

func isCallTo(t *Term, names ...string) bool {
	if t == nil || t.Op != "call" {
		return false
	}
	ci, _ := t.Obj.(*callInfo)
	if ci == nil {
		return false
	}
	for _, n := range names {
		if ci.name == n {
			return true
		}
	}
	return false
}

func (e *Eng) hasCall(t *Term, names ...string) bool {
	return e.containsC(t, func(x *Term) bool { return isCallTo(x, names...) })
}

// sites lists the call instructions in the module whose static callee or
// invoked method has the given rendered name.
func (c *Ctx) sites(names ...string) []ssa.CallInstruction {
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	var out []ssa.CallInstruction
	c.instrs(c.W.Funcs, func(f *ssa.Function, in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		cc := ci.Common()
		if cc.IsInvoke() {
			if want["invoke "+methodName(cc.Method)] {
				out = append(out, ci)
			}
			return
		}
		if g := cc.StaticCallee(); g != nil && want[fnName(g)] {
			out = append(out, ci)
		}
	})
	return out
}

func (r *Run) wrapIntTerm(n int64, T types.Type) *Term {
	return r.wrapInt(constant.MakeInt64(n), T)
}

func (e *Eng) bandTerm(x, m *Term) *Term {
	r := e.newRun(Opts{})
	return r.arith(newState(), token.AND, x, m, x.T, 0)
}

// once reports whether an effect happens at most once per call: every loop
// around it ends in the iteration that has the effect.
func (e *Eng) once(ef *Effect) bool {
	for _, l := range ef.Loops {
		if e.decide(e.all(e.any(l.BackPC...), ef.PC), False) != 1 {
			return false
		}
	}
	return true
}

// sameInt: equal integers, not counting conversions between 64-bit types.
func (e *Eng) sameInt(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	strip := func(t *Term) lin {
		out := lin{co: map[*Term]int64{}}
		l := e.toLin(t)
		out.k = l.k
		for x, k := range l.co {
			for (x.Op == "conv" || x.Op == "conv8") && len(x.Args) == 1 && intBits(x.T) == 64 && intBits(x.Args[0].T) == 64 {
				x = x.Args[0]
			}
			out.co[x] += k
		}
		return out
	}
	x, y := strip(a), strip(b)
	d := x.add(y, -1)
	if d.k != 0 {
		return false
	}
	for _, k := range d.co {
		if k != 0 {
			return false
		}
	}
	return true
}
