package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockSpec says which fields of a struct are protected by which mutex.
type lockSpec struct {
	what   string
	mu     func(owner *Term) *Term // address of the mutex
	fields map[*types.Var]bool     // true: the field and everything reached through it; false: only what it refers to
	globs  map[*ssa.Global]bool    // protected globals (content and variable)
	stop   map[string]bool         // named types at which ownership ends (package-qualified)
}

type guardedAccess struct {
	ef    *Effect
	owner *Term
	cond  BDD
	field *types.Var
	glob  *ssa.Global
	write bool
}

// owners lists the protected owners an address lies in.
func (e *Eng) owners(sp *lockSpec, a *Term) (owner *Term, f *types.Var, g *ssa.Global) {
	first := true
	for a != nil {
		if a.T != nil && !first {
			if n := namedOf(a.T); n != nil && n.Obj().Pkg() != nil && sp.stop[shortPkg(n.Obj().Pkg().Path())+"."+n.Obj().Name()] {
				return nil, nil, nil
			}
		}
		switch a.Op {
		case "global":
			gl := a.Obj.(*ssa.Global)
			if _, ok := sp.globs[gl]; ok {
				return a, nil, gl
			}
			return nil, nil, nil
		case "field":
			fv := a.Obj.(*types.Var)
			if direct, ok := sp.fields[fv]; ok {
				if direct || !first {
					return a.Args[0], fv, nil
				}
				return nil, nil, nil
			}
		case "fieldof":
			fv := a.Obj.(*types.Var)
			if _, ok := sp.fields[fv]; ok && !first {
				// a field of a struct value: the copy itself was the access
				return nil, nil, nil
			}
		case "index", "slice", "ld", "indexof", "mapval", "rval", "mapelem", "loopmem", "rkey", "patched", "copyof", "mapok":
		default:
			return nil, nil, nil
		}
		if len(a.Args) == 0 {
			return nil, nil, nil
		}
		// a struct read as a whole through ld: reading every protected field
		a = a.Args[0]
		first = false
	}
	return nil, nil, nil
}

// wholeStruct: the address of a struct holding protected fields read or
// written as a whole.
func wholeStruct(sp *lockSpec, a *Term) *types.Var {
	if a == nil || a.T == nil {
		return nil
	}
	st, ok := deref(a.T).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if d, ok := sp.fields[st.Field(i)]; ok && d {
			return st.Field(i)
		}
	}
	return nil
}

func (c *Ctx) guardedAccesses(r *Run, sp *lockSpec) []guardedAccess {
	e := c.E
	var out []guardedAccess
	add := func(ef *Effect, addr *Term, write bool) {
		for _, g := range e.cases(addr) {
			if e.B.And(ef.PC, g.C) == False {
				continue
			}
			if o, f, gl := e.owners(sp, g.T); o != nil {
				out = append(out, guardedAccess{ef, o, g.C, f, gl, write})
			} else if f := wholeStruct(sp, g.T); f != nil && (ef.Kind == "load" || ef.Kind == "store") {
				out = append(out, guardedAccess{ef, g.T, g.C, f, nil, write})
			}
		}
	}
	for _, ef := range r.Effects {
		switch ef.Kind {
		case "load":
			add(ef, ef.Addr, false)
		case "lookup", "rangeover":
			// the map variable was already loaded; its content is read here
			add(ef, asContent(e, ef.Addr), false)
		case "store":
			add(ef, ef.Addr, true)
		case "mapupdate", "delete":
			add(ef, asContent(e, ef.Addr), true)
		case "index":
		}
	}
	return out
}

// asContent turns a map value into a pseudo address of its content.
func asContent(e *Eng, m *Term) *Term {
	if m == nil {
		return nil
	}
	if m.Op == "ite" {
		return e.mk("ite", m.Aux, m.T, m.Obj, asContent(e, m.Args[0]), asContent(e, m.Args[1]))
	}
	return e.mk("index", "content", types.NewPointer(types.Typ[types.Int]), nil, m, e.mkInt(0, nil))
}

// heldFor: the lock of the owner is held with at least the mode.
func (e *Eng) heldFor(ef *Effect, cond BDD, mu *Term, mode int) bool {
	if lockHeld(ef, mu, mode) {
		return true
	}
	pc := e.B.And(ef.PC, cond)
	for l, m := range ef.Locks {
		if m >= mode && e.under(l, pc) == e.under(mu, pc) {
			return true
		}
	}
	return false
}

// checkLockset: every access to the protected state from the entry points
// holds the lock. Fields never written once shared may be read freely.
func (c *Ctx) checkLockset(rule string, sp *lockSpec, roots []*ssa.Function, exempt func(r *Run, a guardedAccess) bool, min int) {
	e := c.E
	type item struct {
		a guardedAccess
		r *Run
	}
	var items []item
	written := map[any]bool{}
	for _, f := range roots {
		r := c.run(f, c.stdLoads())
		for _, a := range c.guardedAccesses(r, sp) {
			if isFresh(rootOf(a.owner)) && !publishedBefore(e, r, rootOf(a.owner), a.ef) {
				continue
			}
			if exempt != nil && exempt(r, a) {
				continue
			}
			if a.write {
				written[a.key()] = true
			}
			items = append(items, item{a, r})
		}
	}
	if !c.floor(rule, "accesses to "+sp.what, len(items), min) {
		return
	}
	for _, it := range items {
		mode := 1
		verb := "read"
		if it.a.write {
			mode, verb = 2, "written"
		}
		nm := it.a.name()
		if !it.a.write && !written[it.a.key()] {
			c.need(true, rule, name(it.r)+":"+nm, c.pos(it.a.ef), "")
			continue
		}
		mu := sp.mu(it.a.owner)
		c.need(e.heldFor(it.a.ef, it.a.cond, mu, mode), rule, name(it.r)+":"+nm, c.pos(it.a.ef),
			"%s (%s) is %s without holding %s in %s, reached from %s; locks held: %s", sp.what, nm, verb, c.S(mu), fnName(it.a.ef.Frame.fn), name(it.r), c.locks(it.a.ef))
	}
}

func (a guardedAccess) key() any {
	if a.glob != nil {
		return a.glob
	}
	return a.field
}

func (a guardedAccess) name() string {
	if a.glob != nil {
		return a.glob.Name()
	}
	return a.field.Name()
}

func (c *Ctx) locks(ef *Effect) string {
	var s []string
	for l := range ef.Locks {
		s = append(s, c.S(l))
	}
	if len(s) == 0 {
		return "none"
	}
	return strings.Join(s, ", ")
}

// publishedBefore: the object allocated in this run became reachable by
// others before the effect.
func publishedBefore(e *Eng, r *Run, obj *Term, ef *Effect) bool {
	for _, x := range r.Effects {
		if x.Seq >= ef.Seq {
			break
		}
		hit := false
		is := func(t *Term) bool {
			if t == nil {
				return false
			}
			if t.Op == "iface" {
				t = t.Args[0]
			}
			return t == obj
		}
		switch x.Kind {
		case "mapupdate":
			hit = !isFresh(rootOf(x.Addr)) && (is(x.Key) || is(x.Val))
		case "store":
			hit = !isFresh(rootOf(x.Addr)) && is(x.Val)
		case "send":
			hit = is(x.Val)
		case "go":
			for _, a := range x.Args {
				if is(a) {
					hit = true
				}
			}
			if x.Val != nil && x.Val.Op == "closure" {
				for _, a := range x.Val.Args {
					if is(a) {
						hit = true
					}
				}
			}
		case "call":
			// handing the object to the global manager publishes it
			if strings.HasPrefix(x.Name, "invoke ") || x.Name == "dyn" {
				continue
			}
		}
		if hit && e.B.And(x.PC, ef.PC) != False {
			return true
		}
	}
	return false
}
