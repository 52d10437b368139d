package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C14", "static ownership analysis of tag maps: gated symbolic evaluation of every root of package tag (go/ssa, BDD path conditions); every update of a tag map must reach only a map created in the same operation or handed to a Mutator",
		"Decides for all inputs which map object each mapupdate/delete can reach, what tag.New returns on every error and success path, and what it hands to mutators.", ruleC14)
	reg("C15", "static path-condition analysis: every path on which a key or value enters a tag map (or a Key is created) must imply the validity predicate, including a per-character loop invariant",
		"The validity predicate is length at most 255, keys non-empty, and every loop iteration that continues implies 32 <= char <= 126 with all early exits excluded.", ruleC15)
	reg("C16", "static effect specification of each tag mutator, tag.New, Encode and DecodeEach: the exact condition, key and content of every map update, decided with BDDs over path predicates",
		"Closures returned by Insert/Update/Upsert/Delete are evaluated symbolically in the state that created them; Encode's write condition is compared with the propagation metadata.", ruleC16)
	reg("C41", "static null-dereference analysis of package tag: no path dereferences an absent or nil tag map",
		"Path conditions of every dereference of the context's map (or a nil *Map argument) must exclude nil.", ruleC41)
}

type tagNames struct {
	m, value, md, ttl, ttlv, name *types.Var
	key, content                  *types.Named
}

func (c *Ctx) tagn() *tagNames {
	n := &tagNames{m: c.field("tag", "Map", "m"), value: c.field("tag", "tagContent", "value"), md: c.field("tag", "tagContent", "m"), ttl: c.field("tag", "metadatas", "ttl"), ttlv: c.field("tag", "TTL", "ttl"), name: c.field("tag", "Key", "name")}
	n.key, n.content = c.W.typ("tag", "Key"), c.W.typ("tag", "tagContent")
	return n
}

// tagMap: the term is a tag map's storage.
func (n *tagNames) tagMap(t *Term) bool {
	if t == nil || t.T == nil {
		return false
	}
	m, ok := t.T.Underlying().(*types.Map)
	return ok && types.Identical(m, n.m.Type().Underlying())
}

const mutateCall = "invoke (tag.Mutator).Mutate"

// allFuncs lists the roots of a package and its function literals.
func (c *Ctx) rootsAndClosures(pkg string) []*ssa.Function {
	out := append([]*ssa.Function(nil), c.roots(pkg)...)
	for _, f := range c.pkgFuncs(pkg) {
		if f.Parent() != nil && f.Synthetic == "" && !c.absorbed(f) {
			out = append(out, f)
		}
	}
	return out
}

// absorbed: a function literal that only its parent runs, directly or by
// handing it to functions of the module that do nothing but call it.
func (c *Ctx) absorbed(f *ssa.Function) bool {
	var only func(v ssa.Value, depth int) bool
	only = func(v ssa.Value, depth int) bool {
		if depth > 4 || v.Referrers() == nil {
			return false
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.ChangeType:
				if !only(u, depth) {
					return false
				}
			case *ssa.Call:
				for i, a := range u.Call.Args {
					if a != v {
						continue
					}
					g := u.Call.StaticCallee()
					if g == nil || len(g.Blocks) == 0 || !c.W.inModule(g) || i >= len(g.Params) || !only(g.Params[i], depth+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	g := f.Parent()
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				n++
				if !only(mc, 0) {
					return false
				}
			}
		}
	}
	return n > 0
}

func ruleC14(c *Ctx) {
	n := c.tagn()
	if c.failed() {
		return
	}
	e := c.E
	nup, nmut := 0, 0
	freshMap := func(r *Run, t *Term) bool {
		return e.freshValue(t, func(x *Term) bool {
			return x.isConst() || callNameOf(x) == mutateCall || x.Op == "ext" && callNameOf(x.Args[0]) == mutateCall
		})
	}
	for _, f := range c.rootsAndClosures("tag") {
		r := c.run(f, c.std())
		for _, ef := range r.Effects {
			switch ef.Kind {
			case "mapupdate", "delete":
				if !n.tagMap(ef.Addr) {
					continue
				}
				nup++
				for _, a := range leaves(ef.Addr) {
					if e.freshValue(a, func(x *Term) bool { return x.isConst() }) {
						continue
					}
					// the map handed to a mutator
					o := ownerOfField(a, n.m)
					if o == nil && a.Op == "ld" {
						o = ownerOfField(a.Args[0], n.m)
					}
					par := o != nil && o.Op == "param" && (f.Parent() != nil || f.Name() == "Mutate")
					c.need(par, "owned", fnName(f), c.pos(ef), "%s changes the tag map %s, which it did not create: a map already visible through a context changes", fnName(f), c.S(a))
				}
			case "store":
				// replacing the storage of an existing map
				if addrField(ef.Addr) == n.m {
					c.need(isFresh(rootOf(ef.Addr)), "owned", fnName(f)+":replace", c.pos(ef), "%s replaces the storage of a tag map it did not create", fnName(f))
					if isFresh(rootOf(ef.Addr)) {
						c.need(e.freshValue(ef.Val, func(x *Term) bool { return x.isConst() }), "owned", fnName(f)+":shared", c.pos(ef), "%s creates a tag map sharing the storage %s", fnName(f), c.S(ef.Val))
					}
				}
			case "call":
				if ef.Name == mutateCall && f.Name() != "Mutate" {
					nmut++
					c.need(len(ef.Args) == 2 && freshMap(r, ef.Args[1]), "owned", fnName(f)+":mutate", c.pos(ef), "%s hands the tag map %s to a mutator although it did not create it", fnName(f), c.S(ef.Args[1]))
				}
			}
		}
	}
	c.floor("owned", "updates of tag maps", nup, 1)
	c.floor("owned", "calls of Mutator.Mutate", nmut, 1)
	// what New returns
	r := c.go1("tag", "New")
	if r == nil || len(r.Rets) != 2 {
		return
	}
	ctx := r.param(0)
	var getKey *Term
	for _, ef := range r.calls("invoke (context.Context).Value") {
		getKey = ef.Args[1]
	}
	rets, okc := 0, 0
	for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
		for _, g := range e.cases(ef.Args[0]) {
			cond := e.all(ef.PC, g.C)
			if e.decide(cond, False) == 1 {
				continue
			}
			rets++
			isnil := e.isNil(ef.Args[1])
			if g.T == ctx {
				continue
			}
			okc++
			p := c.pos(ef)
			if !c.need(isCallTo(g.T, "context.WithValue"), "returned", "context", p, "tag.New returns %s, which is neither the given context nor one derived from it", c.S(g.T)) {
				continue
			}
			c.need(e.decide(cond, isnil) == 1, "returned", "error", p, "tag.New returns a changed context although it reports an error: mutators took effect partially (returned if %s)", c.P(cond))
			for _, m := range r.calls(mutateCall) {
				for _, l := range m.Loops {
					for _, av := range l.early {
						c.need(e.decide(cond, e.not(av)) == 1, "returned", "after-failure", p, "tag.New returns a derived context although the loop over the mutators was left early (returned if %s)", c.P(cond))
					}
				}
			}
			a := g.T.Args
			c.need(a[0] == ctx, "returned", "parent", p, "tag.New derives the new context from %s", c.S(a[0]))
			c.need(sameKey(a[1], getKey), "returned", "key", p, "the map is stored under %s but looked up under %s", c.S(a[1]), c.S(getKey))
			v := a[2]
			if v.Op == "iface" {
				v = v.Args[0]
			}
			c.need(freshMap(r, v), "returned", "map", p, "the new context carries the map %s, which is shared", c.S(v))
		}
	}
	c.floor("returned", "return of tag.New", rets, 1)
	c.floor("returned", "successful return of tag.New", okc, 1)
}

// rangeChecked: pc implies that every character of v lies within [lo, hi],
// because a loop over v was completed whose every continuing iteration implies
// so.
func (c *Ctx) rangeChecked(r *Run, pc BDD, v *Term, lo, hi int64) bool {
	e := c.E
	str := func(t *Term) *Term {
		for t != nil && t.Op == "conv" {
			t = t.Args[0]
		}
		return t
	}
	for _, l := range r.Loops {
		if l.Coll != nil {
			if str(l.Coll) != str(v) || l.Kind != "string" && l.Kind != "slice" && l.Kind != "map" {
				continue
			}
		} else if l.Iter == nil || !e.equiv(l.More, e.lt(l.Iter, e.length(v))) {
			continue
		}
		out := false
		for _, av := range l.early {
			if e.decide(pc, e.not(av)) != 1 {
				out = true
			}
		}
		if out || len(l.BackPC) == 0 {
			continue
		}
		cont := e.any(l.BackPC...)
		// the loop's element: a character term compared in the conditions
		try := func(b BDD) bool {
			for _, x := range e.charsOf(b, l, str(v)) {
				if e.implies(b, e.all(e.leq(e.mkInt(lo, nil), x), e.leq(x, e.mkInt(hi, nil)))) {
					return true
				}
			}
			return false
		}
		if len(l.early) > 0 && try(cont) {
			return true
		}
		// a flag accumulated over the iterations
		for _, lp := range l.phis {
			if !isBool(lp.Term.T) {
				continue
			}
			for _, pos := range []bool{true, false} {
				fl := e.bdd(lp.Term)
				if !pos {
					fl = e.not(fl)
				}
				if e.decide(pc, fl) != 1 {
					continue
				}
				all := len(lp.Back) > 0
				for i, b := range lp.Back {
					bb := e.bdd(b)
					if !pos {
						bb = e.not(bb)
					}
					bb = e.all(bb, lp.BPC[i])
					if !e.implies(bb, fl) || !try(bb) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

// charsOf lists the loop's element terms occurring in a condition.
func (e *Eng) charsOf(b BDD, l *LoopCtx, coll *Term) []*Term {
	var out []*Term
	for _, v := range e.B.Support(b) {
		a := e.atoms[v]
		for _, x := range a.Args {
			for t := range e.toLin(x).co {
				s := t
				for s.Op == "conv" {
					s = s.Args[0]
				}
				if s.Op == "rval" || (s.Op == "index" || s.Op == "indexof" || s.Op == "ld") && l.Iter != nil && contains(s, func(y *Term) bool { return y == l.Iter }) && contains(s, func(y *Term) bool { return y == coll }) {
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// validTag: pc implies that v is a valid tag value (key when min is 1).
func (c *Ctx) validTag(r *Run, pc BDD, v *Term, min int64) string {
	e := c.E
	if v.isConst() {
		return ""
	}
	if e.decide(pc, e.leq(e.length(v), e.mkInt(255, nil))) != 1 {
		return "its length is not limited to 255"
	}
	if ln := e.length(v); min > 0 && e.decide(pc, e.leq(e.mkInt(min, nil), ln)) != 1 && (min > 1 || e.decide(pc, e.not(e.eq(ln, e.mkInt(0, ln.T)))) != 1) {
		return "it may be empty"
	}
	if !c.rangeChecked(r, pc, v, 32, 126) {
		return "it may contain a character outside 0x20..0x7e"
	}
	return ""
}

func ruleC15(c *Ctx) {
	n := c.tagn()
	if c.failed() {
		return
	}
	e := c.E
	fromMap := func(t *Term) bool {
		return contains(t, func(x *Term) bool {
			return (x.Op == "rkey" || x.Op == "rval" || x.Op == "mapval") && x.Args[0] != nil && n.tagMap(x.Args[0])
		})
	}
	keyName := func(k *Term) *Term {
		st, ok := k.T.Underlying().(*types.Struct)
		if !ok {
			return k
		}
		return e.fieldOf(k, st, 0)
	}
	sinks := 0
	key := func(r *Run, ef *Effect, pc BDD, k *Term, what string) {
		for _, g := range e.cases(k) {
			cond := e.all(pc, g.C)
			if e.decide(cond, False) == 1 || fromMap(g.T) {
				continue
			}
			nm := keyName(g.T)
			sinks++
			if nm.Op == "ite" {
				for _, h := range e.cases(nm) {
					hc := e.all(cond, h.C)
					if e.decide(hc, False) == 1 {
						continue
					}
					why := c.validTag(r, hc, h.T, 1)
					if h.T.isConst() && constString(h.T) == "" {
						why = "it is empty"
					}
					c.need(why == "", "key", what, c.pos(ef), "%s: the key %s is accepted although %s (reached if %s)", what, c.S(h.T), why, c.P(hc))
				}
				continue
			}
			if g.T.Op == "param" || g.T.Op == "free" || rootOf(g.T) != nil && rootOf(g.T).Op == "free" {
				// a Key made elsewhere: valid or the zero Key
				c.need(e.decide(cond, e.leq(e.mkInt(1, nil), e.length(nm))) == 1, "key", what, c.pos(ef), "%s: the key may be the zero Key, whose name is empty (reached if %s)", what, c.P(cond))
				continue
			}
			why := c.validTag(r, cond, nm, 1)
			c.need(why == "", "key", what, c.pos(ef), "%s: the key %s is accepted although %s (reached if %s)", what, c.S(nm), why, c.P(cond))
		}
	}
	val := func(r *Run, ef *Effect, pc BDD, v *Term, what string) {
		for _, g := range e.cases(v) {
			cond := e.all(pc, g.C)
			if e.decide(cond, False) == 1 || fromMap(g.T) {
				continue
			}
			sinks++
			why := c.validTag(r, cond, g.T, 0)
			c.need(why == "", "value", what, c.pos(ef), "%s: the value %s is accepted although %s (reached if %s)", what, c.S(g.T), why, c.P(cond))
		}
	}
	cst := n.content.Underlying().(*types.Struct)
	vi := -1
	for i := 0; i < cst.NumFields(); i++ {
		if cst.Field(i) == n.value {
			vi = i
		}
	}
	for _, f := range c.rootsAndClosures("tag") {
		r := c.run(f, c.std())
		nm := fnName(f)
		for _, ef := range r.Effects {
			switch ef.Kind {
			case "mapupdate":
				if n.tagMap(ef.Addr) {
					key(r, ef, ef.PC, ef.Key, nm)
					val(r, ef, ef.PC, e.fieldOf(ef.Val, cst, vi), nm)
				}
			case "return":
				if ef.Frame == r.Root && f.Parent() == nil {
					for _, a := range ef.Args {
						if a != nil && a.T != nil && types.Identical(a.T, n.key) {
							for _, g := range e.cases(a) {
								if x := keyName(g.T); x.isConst() && constString(x) == "" {
									continue // the zero Key
								}
								key(r, ef, e.all(ef.PC, g.C), g.T, nm+":returned")
							}
						}
					}
				}
			case "call":
				// keys and values handed to a caller's function
				if ef.Name == "dyn" || strings.HasPrefix(ef.Name, "dyn") {
					for _, a := range ef.Args {
						if a != nil && a.T != nil && types.Identical(a.T, n.key) && len(ef.Args) >= 2 {
							key(r, ef, ef.PC, a, nm+":callback")
						}
						if a != nil && a.T != nil && types.Identical(a.T, types.Typ[types.String]) {
							val(r, ef, ef.PC, a, nm+":callback")
						}
					}
				}
			}
		}
	}
	c.floor("sinks", "places where a tag key or value enters", sinks, 8)
}

func constString(t *Term) string {
	if t == nil || !t.isConst() {
		return "?"
	}
	s, ok := t.strVal()
	if !ok {
		return "?"
	}
	return s
}

func ruleC16(c *Ctx) {
	n := c.tagn()
	if c.failed() {
		return
	}
	e := c.E
	cst := n.content.Underlying().(*types.Struct)
	fidx := func(st *types.Struct, f *types.Var) int {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f {
				return i
			}
		}
		return 0
	}
	ttlOf := func(r *Run, md *Term) *Term {
		if r != nil {
			md = e.exitValue(r, md)
		}
		st := md.T.Underlying().(*types.Struct)
		x := e.fieldOf(md, st, fidx(st, n.ttl))
		if r != nil {
			x = e.exitValue(r, x)
		}
		st = x.T.Underlying().(*types.Struct)
		return e.fieldOf(x, st, fidx(st, n.ttlv))
	}
	spec := func(fn, want string) {
		r0 := c.go1("tag", fn)
		if r0 == nil || len(r0.Rets) != 1 || r0.Final == nil {
			return
		}
		rv := r0.Rets[0]
		if rv.Op == "iface" {
			rv = rv.Args[0]
		}
		mf := c.methodOf(rv.T, "Mutate")
		if !c.need(mf != nil, "mutator", fn+":type", c.fpos(r0), "%s returns %s, whose Mutate method is not known", fn, c.S(rv)) {
			return
		}
		m := e.param(mf, 1)
		r := e.AnalyseWith(mf, []*Term{rv, m}, nil, r0.Final, c.std())
		c.note(r)
		if len(r.Rets) != 2 {
			c.bad("mutator", fn, c.fpos(r0), "Mutate does not return")
			return
		}
		p := c.fpos(r0)
		k := r0.param(0)
		mm := e.fv(m, n.m)
		ok := e.isNil(r.Rets[1])
		has := e.presence(r, mm, k)
		up, del := False, False
		for _, ef := range r.Effects {
			switch ef.Kind {
			case "mapupdate":
				if !n.tagMap(ef.Addr) {
					continue
				}
				if !c.need(ef.Addr == mm && sameKey(ef.Key, k) && len(ef.Loops) == 0, "mutator", fn+":target", c.pos(ef), "%s sets key %s of %s instead of the given key of the given map", fn, c.S(ef.Key), c.S(ef.Addr)) {
					continue
				}
				up = e.any(up, ef.PC)
				v := e.fieldOf(ef.Val, cst, fidx(cst, n.value))
				c.need(e.same(ef.PC, v, r0.param(1)), "mutator", fn+":value", c.pos(ef), "%s stores the value %s", fn, c.S(v))
				if len(r0.Root.params) > 2 {
					mds := r0.param(2)
					t := ttlOf(nil, e.fieldOf(ef.Val, cst, fidx(cst, n.md)))
					none := e.all(ef.PC, e.leq(e.length(mds), e.mkInt(0, nil)))
					c.need(constInt(e.under(t, none), -1), "mutator", fn+":default-ttl", c.pos(ef), "without metadata %s stores the TTL %s instead of unlimited propagation", fn, c.S(e.under(t, none)))
					// each metadata is applied, in order, to the stored record
					okm := false
					for _, d := range r.where("call", func(x *Effect) bool { return x.Name == "dyn" }) {
						l := loopOver(d, func(t *Term) bool { return t == mds })
						if l == nil || !isElemOf(d.Val, l) || !inOrder(d.Val, l) || !l.Full {
							continue
						}
						rest := e.forget(d.PC, loopAtom)
						some := e.all(ef.PC, e.leq(e.mkInt(1, nil), e.length(mds)), e.not(e.isNil(d.Val)))
						if e.implies(e.forget(some, loopAtom), rest) && len(d.Args) == 1 && isFresh(rootOf(d.Args[0])) {
							okm = true
						}
					}
					c.need(okm, "mutator", fn+":metadata", c.pos(ef), "%s does not apply every given metadata in order", fn)
					some := e.all(ef.PC, e.leq(e.mkInt(1, nil), e.length(mds)))
					tt := e.under(t, some)
					c.need(!anyLeaf(tt, func(x *Term) bool { return x.isConst() }) || tt.Op == "ite" || !tt.isConst(), "mutator", fn+":ttl", c.pos(ef), "%s ignores the given metadata: the stored TTL is %s", fn, c.S(tt))
				}
			case "delete":
				if !n.tagMap(ef.Addr) {
					continue
				}
				if c.need(ef.Addr == mm && sameKey(ef.Key, k) && len(ef.Loops) == 0, "mutator", fn+":target", c.pos(ef), "%s removes key %s of %s instead of the given key of the given map", fn, c.S(ef.Key), c.S(ef.Addr)) {
					del = e.any(del, ef.PC)
				}
			}
		}
		wu, wd := False, False
		switch want {
		case "insert":
			wu = e.all(ok, e.not(has))
		case "update":
			wu = e.all(ok, has)
		case "upsert":
			wu = ok
		case "delete":
			wd = ok
		}
		c.need(e.equiv(up, wu), "mutator", fn+":sets", p, "%s sets the key if %s, but must do so exactly if %s", fn, c.P(up), c.P(wu))
		if want == "delete" {
			// deleting an absent key has no effect
			c.need(e.implies(e.all(wd, has), del), "mutator", fn+":removes", p, "%s removes the key only if %s", fn, c.P(del))
		} else {
			c.need(del == False, "mutator", fn+":removes", p, "%s removes a key if %s", fn, c.P(del))
		}
		c.need(e.decide(True, ok) != -1, "mutator", fn+":fails", p, "%s always fails", fn)
		c.need(e.same(ok, r.Rets[0], m), "mutator", fn+":result", p, "%s returns the map %s", fn, c.S(e.under(r.Rets[0], ok)))
	}
	spec("Insert", "insert")
	spec("Update", "update")
	spec("Upsert", "upsert")
	spec("Delete", "delete")
	c16new(c, n)
	c16codec(c, n, ttlOf)
	// looking up
	if r := c.go1("tag", "(*Map).Value"); r != nil && len(r.Rets) == 2 {
		m, k := r.param(0), r.param(1)
		nn := e.not(e.isNil(m))
		has := e.presence(r, e.fv(m, n.m), k)
		c.need(e.equiv(e.all(nn, e.bdd(r.Rets[1])), e.all(nn, has)), "lookup", "present", c.fpos(r), "Value reports presence if %s", c.S(r.Rets[1]))
		v := e.under(r.Rets[0], e.all(nn, has))
		okv := contains(v, func(t *Term) bool { return t.Op == "mapval" && t.Args[0] == e.fv(m, n.m) && sameKey(t.Args[1], k) })
		c.need(okv, "lookup", "value", c.fpos(r), "Value returns %s", c.S(v))
	}
}

// presence is the predicate "k is in map m" (as the engine names it).
func (e *Eng) presence(r *Run, m, k *Term) BDD {
	for i, a := range e.atoms {
		if a.Op == "mapok" && a.Args[0] == m && sameKey(a.Args[1], k) {
			return e.B.Var(i)
		}
	}
	return e.atom(e.mk("mapok", "", types.Typ[types.Bool], nil, m, k))
}

// methodOf finds the body of a method of a concrete type.
func (c *Ctx) methodOf(t types.Type, m string) *ssa.Function {
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := c.W.Prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m {
				f := c.W.Prog.MethodValue(ms.At(i))
				if f != nil && f.Blocks != nil {
					return f
				}
			}
		}
	}
	return nil
}

func c16new(c *Ctx, n *tagNames) {
	e := c.E
	r := c.go1("tag", "New")
	if r == nil || len(r.Rets) != 2 {
		return
	}
	muts := r.param(1)
	var call *Effect
	for _, ef := range r.calls(mutateCall) {
		l := loopOver(ef, func(t *Term) bool { return t == muts })
		if !c.need(l != nil && isElemOf(ef.Args[0], l) && inOrder(ef.Args[0], l), "apply", "order", c.pos(ef), "tag.New calls Mutate on %s instead of each given mutator in order", c.S(ef.Args[0])) {
			continue
		}
		call = ef
		a := ef.Args[1]
		chain := false
		if lp, ok := a.Obj.(*LoopPhi); ok {
			chain = len(lp.Back) > 0
			for _, b := range lp.Back {
				if !allLeaves(b, func(x *Term) bool {
					return x == a || resultOf(x, ef, 0)
				}) {
					chain = false
				}
			}
		} else {
			// the mutators share one map object
			chain = isFresh(rootOf(a))
		}
		c.need(chain, "apply", "chain", c.pos(ef), "mutators receive %s instead of the result of the preceding mutator", c.S(a))
		// each iteration that goes on to the next mutator has succeeded
		for _, b := range l.BackPC {
			c.need(e.implies(b, ef.PC), "apply", "each", c.pos(ef), "a mutator may be skipped (iteration continues if %s, mutator called if %s)", c.P(b), c.P(ef.PC))
			if ef.Result != nil {
				c.need(e.implies(b, e.isNil(e.resultN(ef, 1))), "apply", "error", c.pos(ef), "the next mutator runs although this one failed")
			}
		}
	}
	c.need(call != nil, "apply", "mutators", c.fpos(r), "tag.New does not apply the given mutators in order")
	// all existing tags are carried over
	cp := 0
	for _, ef := range r.where("mapupdate", func(ef *Effect) bool { return n.tagMap(ef.Addr) }) {
		l := loopOver(ef, func(t *Term) bool { return n.tagMap(t) })
		if l == nil {
			c.bad("carry", "other", c.pos(ef), "tag.New sets a key of its own")
			continue
		}
		cp++
		okk := isElemOf(ef.Key, l) && ef.Key.Op == "rkey"
		c.need(okk, "carry", "key", c.pos(ef), "an existing tag is carried over under the key %s", c.S(ef.Key))
		okv := isElemOf(ef.Val, l) && ef.Val.Op != "rkey"
		c.need(okv, "carry", "content", c.pos(ef), "an existing tag is carried over with the content %s", c.S(ef.Val))
		fresh := func(t *Term) bool {
			return t.Op == "mapok" && (isFresh(rootOf(t.Args[0])) || t.Args[0].Op == "hv" || t.Args[0].Op == "loopmem")
		}
		pc := e.forget(ef.PC, fresh)
		for _, b := range l.BackPC {
			c.need(e.implies(b, pc), "carry", "every", c.pos(ef), "an existing tag may be dropped: it is copied only if %s", c.P(pc))
		}
	}
	c.floor("carry", "copies of existing tags in tag.New", cp, 1)
}

// resultOf: t is result i of the call effect.
func resultOf(t *Term, ef *Effect, i int) bool {
	if t == nil || ef.Result == nil {
		return false
	}
	if t == ef.Result {
		return true
	}
	return t.Op == "ext" && t.Args[0] == ef.Result && t.Aux == fmt.Sprint(i)
}

// resultN is result i of a multi-result call.
func (e *Eng) resultN(ef *Effect, i int) *Term {
	x := ef.Result
	tu, ok := x.T.(*types.Tuple)
	if !ok {
		return x
	}
	return e.wrapBool(e.mk("ext", fmt.Sprint(i), tu.At(i).Type(), nil, x))
}

func c16codec(c *Ctx, n *tagNames, ttlOf func(*Run, *Term) *Term) {
	e := c.E
	r := c.go1("tag", "Encode")
	if r != nil {
		m := r.param(0)
		mm := e.fv(m, n.m)
		cnt := map[string]int{}
		for _, ef := range r.Effects {
			if ef.Kind == "return" {
				continue
			}
			what := ""
			for _, t := range append([]*Term{ef.Val}, ef.Args...) {
				x := t
				for x != nil && x.Op == "conv" {
					x = x.Args[0]
				}
				if x == nil || x.T == nil || !isString(x.T) {
					continue
				}
				if x.Op == "fieldof" && x.Obj == any(n.name) && x.Args[0].Op == "rkey" {
					what = "key"
				}
				if x.Op == "fieldof" && x.Obj == any(n.value) && (x.Args[0].Op == "rval" || x.Args[0].Op == "mapval") {
					what = "value"
				}
			}
			if what == "" || ef.Kind != "copy" && ef.Kind != "call" && ef.Kind != "append" {
				continue
			}
			l := loopOver(ef, func(t *Term) bool { return t == mm })
			if !c.need(l != nil && l.Full, "encode", what+":loop", c.pos(ef), "Encode does not write the %s of every tag (the loop can stop early)", what) {
				continue
			}
			cnt[what]++
			var rv *Term
			for _, a := range e.atomsOf(ef.PC) {
				contains(a, func(t *Term) bool {
					if (t.Op == "rval" || t.Op == "mapval") && t.T != nil && types.Identical(t.T, n.content) {
						rv = t
					}
					return false
				})
			}
			if !c.need(rv != nil, "encode", what+":ttl", c.pos(ef), "Encode writes the %s of a tag whatever its propagation metadata (written if %s)", what, c.P(ef.PC)) {
				continue
			}
			st := rv.T.Underlying().(*types.Struct)
			var md *Term
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == n.md {
					md = e.fieldOf(rv, st, i)
				}
			}
			ttl := ttlOf(nil, md)
			local, prop := e.eq(ttl, e.mkInt(0, ttl.T)), e.eq(ttl, e.mkInt(-1, ttl.T))
			c.need(e.decide(ef.PC, e.not(local)) == 1, "encode", what+":local", c.pos(ef), "Encode writes the %s of a tag that must not be propagated (written if %s)", what, c.P(ef.PC))
			pc := e.forget(ef.PC, func(t *Term) bool {
				return loopAtom(t) || contains(t, func(x *Term) bool { return x.Op == "loopmem" || x.Op == "make" || x.Op == "alloc" || x.Op == "hv" })
			})
			pc = e.any(pc, False)
			c.need(e.implies(e.all(prop, e.not(e.isNil(m))), pc), "encode", what+":propagated", c.pos(ef), "Encode omits the %s of a propagated tag: written only if %s", what, c.P(pc))
		}
		c.need(cnt["key"] >= 1 && cnt["value"] >= 1, "encode", "writes", c.fpos(r), "Encode does not write keys and values of tags (%v)", cnt)
	}
	if r := c.go1("tag", "DecodeEach"); r != nil {
		cb := r.param(1)
		cnt := 0
		for _, ef := range r.where("call", func(ef *Effect) bool { return ef.Name == "dyn" && ef.Val == cb }) {
			cnt++
			if c.need(len(ef.Args) == 3, "decode", "callback", c.pos(ef), "the callback receives %d arguments", len(ef.Args)) {
				t := e.exitValue(r, ttlOf(r, ef.Args[2]))
				c.need(constInt(e.under(t, ef.PC), -1), "decode", "ttl", c.pos(ef), "a decoded tag gets the TTL %s instead of unlimited propagation", c.S(t))
			}
		}
		c.floor("decode", "callback per decoded tag", cnt, 1)
	}
	if r := c.go1("tag", "Decode"); r != nil && len(r.Rets) == 2 {
		ok := e.isNil(r.Rets[1])
		n0 := 0
		for _, ef := range r.where("mapupdate", func(ef *Effect) bool { return n.tagMap(ef.Addr) }) {
			n0++
			// the last occurrence of a key wins; presence does not matter
			c.need(!contains2(e, ef.PC, func(t *Term) bool { return t.Op == "mapok" }), "decode", "set", c.pos(ef), "whether a decoded tag is kept depends on the tags decoded before (%s)", c.P(ef.PC))
		}
		c.floor("decode", "updates of the decoded map", n0, 1)
		c.need(allLeaves(e.under(r.Rets[0], e.not(ok)), func(t *Term) bool { return t.isConst() }), "decode", "partial", c.fpos(r), "Decode returns a map along with an error: %s", c.S(e.under(r.Rets[0], e.not(ok))))
	}
}

func (e *Eng) atomsOf(b BDD) []*Term {
	var out []*Term
	for _, v := range e.B.Support(b) {
		out = append(out, e.atoms[v])
	}
	return out
}

func contains2(e *Eng, b BDD, p func(*Term) bool) bool {
	for _, a := range e.atomsOf(b) {
		if contains(a, p) {
			return true
		}
	}
	return false
}

func ruleC41(c *Ctx) {
	n := c.tagn()
	if c.failed() {
		return
	}
	e := c.E
	cnt := 0
	for _, f := range c.roots("tag") {
		if f.Name() == "Mutate" {
			continue
		}
		r := c.run(f, c.stdLoads())
		for _, ef := range r.Effects {
			for _, a := range derefs(ef) {
				o := ownerOfField(a, n.m)
				if o == nil {
					continue
				}
				for _, g := range e.cases(o) {
					if isFresh(g.T) || g.T.isConst() && e.decide(e.all(ef.PC, g.C), False) == 1 {
						continue
					}
					cond := e.all(ef.PC, g.C)
					if e.decide(cond, False) == 1 {
						continue
					}
					// results of mutators are the mutator's responsibility
					if callNameOf(g.T) == mutateCall || contains(g.T, func(t *Term) bool { return callNameOf(t) == mutateCall }) {
						continue
					}
					cnt++
					c.need(e.decide(cond, e.not(e.isNil(g.T))) == 1, "nil-map", fnName(f), c.pos(ef), "%s dereferences the tag map %s without excluding nil (reached if %s)", fnName(f), c.S(g.T), c.P(cond))
				}
			}
		}
		// type assertions on the context's value
		for _, ef := range r.where("assert", nil) {
			x := ef.Val
			c.need(e.decide(ef.PC, e.not(e.isNil(x))) == 1, "nil-map", fnName(f)+":assert", c.pos(ef), "%s asserts the type of the context's value without excluding its absence", fnName(f))
		}
	}
	c.floor("nil-map", "dereferences of tag maps", cnt, 4)
}

// exitValue resolves a value carried out of a loop that runs at least once and
// whose every iteration leaves the same constant behind.
func (e *Eng) exitValue(r *Run, t *Term) *Term {
	lp := loopPhiOf(r, t)
	if lp == nil || len(lp.Back) == 0 || !lp.L.Full {
		return t
	}
	v := lp.Back[0]
	for _, b := range lp.Back {
		if b != v {
			return t
		}
	}
	if !scalarConst(v) {
		return t
	}
	if lp.Init == v {
		return v
	}
	// the first iteration happens: the counter's bound is a non-negative constant
	sup := e.B.Support(lp.L.More)
	if len(sup) == 1 && e.B.Var(sup[0]) == lp.L.More {
		a := e.atoms[sup[0]]
		if k, ok := a.Args[1].intVal(); a.Op == "le" && ok && k >= 0 && a.Args[0].Op == "iter" {
			return v
		}
	}
	return t
}

// loopPhiOf is the loop-carried variable a term denotes.
func loopPhiOf(r *Run, t *Term) *LoopPhi {
	if lp, ok := t.Obj.(*LoopPhi); ok {
		return lp
	}
	for _, l := range r.Loops {
		for _, lp := range l.Memvar {
			if lp.Term == t {
				return lp
			}
		}
	}
	return nil
}
