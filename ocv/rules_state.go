package main

import (
	"go/types"
	"regexp/syntax"
	"strings"
)

func init() {
	reg("C39", "static final-state specification of resource merging and detection, and decision of the label grammar by regular-language inclusion and disjointness",
		"The value carried around the detector loop is decided for every nil/non-nil combination; the merged object's type and every update of its label map are compared with first-wins; the label pattern must accept every quoted value EncodeLabels can write for printable ASCII, unambiguously.", ruleC39)
	reg("C40", "static effect and path-condition analysis of trace/tracestate with decision of regular-language equality by automata product",
		"New's returns, the loops that validate its entries (for-all invariants), the ordering of the resulting list and the freshness of every slice written or handed out; the two validation patterns are compared with the W3C grammar as regular languages.", ruleC40)
}

const (
	w3cKey   = `^(([a-z][_0-9a-z\-\*\/]{0,255})|([a-z][_0-9a-z\-\*\/]{0,240}@[a-z][_0-9a-z\-\*\/]{0,13}))$`
	w3cValue = `^([\x20-\x2b\x2d-\x3c\x3e-\x7e]{0,255}[\x21-\x2b\x2d-\x3c\x3e-\x7e])$`
)

// freshIn: freshValue, resolving memory carried around loops.
func (e *Eng) freshIn(r *Run, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		return e.freshValue(t, func(x *Term) bool {
			if x.Op != "loopmem" {
				return false
			}
			if seen[x] {
				return true
			}
			seen[x] = true
			lp := loopPhiOf(r, x)
			if lp == nil || lp.Init == nil || !rec(lp.Init) {
				return false
			}
			for _, b := range lp.Back {
				if !rec(b) {
					return false
				}
			}
			return true
		})
	}
	return rec(t)
}

// completed: pc excludes leaving the loop before its collection is exhausted.
func (e *Eng) completed(pc BDD, l *LoopCtx) bool {
	for _, av := range l.early {
		if e.decide(pc, e.not(av)) != 1 {
			return false
		}
	}
	return true
}

// forallLoop finds a loop over the collection, completed under pc, whose every
// continuing iteration satisfies p.
func (e *Eng) forallLoop(r *Run, pc BDD, over func(l *LoopCtx) bool, p func(l *LoopCtx, b BDD) bool) *LoopCtx {
	for _, l := range r.Loops {
		if !over(l) || !e.completed(pc, l) || len(l.BackPC) == 0 {
			continue
		}
		if len(l.early) > 0 && p(l, e.any(l.BackPC...)) {
			return l
		}
		for _, lp := range l.phis {
			if lp.Term == nil || !isBool(lp.Term.T) {
				continue
			}
			for _, pos := range []bool{true, false} {
				fl := e.bdd(lp.Term)
				if !pos {
					fl = e.not(fl)
				}
				if e.decide(pc, fl) != 1 {
					continue
				}
				all := len(lp.Back) > 0
				for i, b := range lp.Back {
					bb := e.bdd(b)
					if !pos {
						bb = e.not(bb)
					}
					bb = e.all(bb, lp.BPC[i])
					if !e.implies(bb, fl) || !p(l, bb) {
						all = false
					}
				}
				if all {
					return l
				}
			}
		}
	}
	return nil
}

// elemField finds, in a condition's atoms, whether x is field f of an element
// of the loop's collection.
func elemField(x *Term, l *LoopCtx, f *types.Var) bool {
	for x != nil && x.Op == "conv" {
		x = x.Args[0]
	}
	if x == nil {
		return false
	}
	switch x.Op {
	case "ld":
		a := x.Args[0]
		return a.Op == "field" && addrField(a) == f && isElemOf(a.Args[0], l)
	case "fieldof":
		return isFieldVal(x, f) && isElemOf(x.Args[0], l)
	}
	return false
}

func isFieldVal(x *Term, f *types.Var) bool {
	if x.Op != "fieldof" {
		return false
	}
	v, ok := x.Obj.(*types.Var)
	return ok && v == f
}

func ruleC40(c *Ctx) {
	pkg := "trace/tracestate"
	ents := c.field(pkg, "Tracestate", "entries")
	fk, fv := c.field(pkg, "Entry", "Key"), c.field(pkg, "Entry", "Value")
	if c.failed() {
		return
	}
	e := c.E
	// 1. nothing but memory of this operation is written
	nw := 0
	for _, f := range c.roots(pkg) {
		r := c.run(f, c.std())
		for _, ef := range r.Effects {
			var a *Term
			switch ef.Kind {
			case "store":
				if a = ef.Addr; isFresh(rootOf(a)) {
					nw++
					continue
				}
			case "append":
				a = ef.Addr
				if len(ef.Args) < 2 {
					continue
				}
				if a.Op == "append" || a.isConst() {
					if e.freshIn(r, a) {
						nw++
						continue
					}
				}
			case "copy":
				a = ef.Addr
			default:
				continue
			}
			nw++
			ok := e.freshIn(r, a)
			if !ok && ef.Kind == "append" && a.Op == "slice" && len(a.Args) == 4 && a.Args[3] != nil {
				ok = a.Args[2] != nil && a.Args[2] == a.Args[3] // full slice expression: append always copies
			}
			if ef.Kind == "store" && !ok {
				if ro := rootOf(a); ro.Op == "index" || ro.Op == "indexof" {
					ok = e.freshIn(r, ro.Args[0])
				} else if a.Op == "index" {
					ok = e.freshIn(r, a.Args[0])
				}
			}
			c.need(ok, "shared", fnName(f), c.pos(ef), "%s writes memory it did not allocate (%s of %s): the parent's or the caller's entries change, or two trace states share storage", fnName(f), ef.Kind, c.S(a))
		}
		// results never expose internal storage
		for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
			for _, x := range ef.Args {
				if x == nil || x.T == nil {
					continue
				}
				if _, ok := x.T.Underlying().(*types.Slice); ok {
					for _, g := range e.cases(x) {
						if e.decide(e.all(ef.PC, g.C), False) == 1 {
							continue
						}
						c.need(e.freshIn(r, g.T), "exposed", fnName(f), c.pos(ef), "%s returns the slice %s, which is the trace state's own storage", fnName(f), c.S(g.T))
					}
				}
			}
		}
	}
	c.floor("shared", "writes in trace/tracestate", nw, 2)
	// Entries
	if r := c.go1(pkg, "(*Tracestate).Entries"); r != nil {
		for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
			for _, g := range e.cases(ef.Args[0]) {
				cond := e.all(ef.PC, g.C, e.not(e.isNil(r.param(0))))
				if e.decide(cond, False) == 1 {
					continue
				}
				src := e.ld(e.fa(r.param(0), ents))
				ok := contentOf(e, r, g.T, src, ef)
				c.need(ok || e.decide(cond, e.leq(e.length(src), e.mkInt(0, nil))) == 1, "entries", "copy", c.pos(ef), "Entries returns %s instead of a copy of the whole list", c.S(g.T))
			}
		}
	}
	// 2. New
	r := c.go1(pkg, "New")
	if r == nil || len(r.Rets) != 2 {
		c.need(false, "new", "shape", "", "tracestate.New not found with two results")
		return
	}
	parent, in := r.param(0), r.param(1)
	overIn := func(l *LoopCtx) bool { return l.Kind == "slice" && l.Coll == in }
	matchB := func(b BDD, l *LoopCtx, f *types.Var, spec string) (BDD, bool, string) {
		// atoms MatchString(re, elem.f)
		why := ""
		for _, v := range e.B.Support(b) {
			a := e.atoms[v]
			if !isCallTo(a, "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match") || len(a.Args) < 2 || !elemField(a.Args[1], l, f) {
				continue
			}
			pat := e.regexpOf(a.Args[0])
			if pat == "" {
				why = "the pattern is not constant"
				continue
			}
			if w, same := reSame(pat, spec); !same {
				why = "the pattern accepts a different language: they differ on " + w
				continue
			}
			return e.B.Var(v), true, ""
		}
		if why == "" {
			why = "it is not matched against the grammar"
		}
		return False, false, why
	}
	nok, nerr := 0, 0
	for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
		st, er := ef.Args[0], ef.Args[1]
		p := c.pos(ef)
		for _, gs := range e.cases(st) {
			for _, ge := range e.cases(er) {
				pc := e.all(ef.PC, gs.C, ge.C)
				if e.decide(pc, False) == 1 {
					continue
				}
				snil, enil := e.isNil(gs.T), e.isNil(ge.T)
				if e.decide(pc, snil) == 1 {
					if e.decide(pc, enil) == 1 {
						c.need(e.decide(pc, e.all(e.isNil(parent), e.leq(e.length(in), e.mkInt(0, nil)))) == 1, "new", "nil-nil", p, "New returns neither a trace state nor an error for input it was given (if %s)", c.P(pc))
						continue
					}
					c.need(e.decide(pc, e.not(enil)) == 1, "new", "nil-unknown", p, "New may return neither a trace state nor an error (if %s)", c.P(pc))
					nerr++
					// an error has a cause
					var causes []BDD
					for _, l := range r.Loops {
						if !overIn(l) {
							continue
						}
						for _, x := range []struct {
							f *types.Var
							s string
						}{{fk, w3cKey}, {fv, w3cValue}} {
							all := append(append([]BDD(nil), l.BackPC...), pc)
							if m, ok, _ := matchB(e.any(all...), l, x.f, x.s); ok {
								causes = append(causes, e.not(m))
							}
							for _, av := range l.early {
								if m, ok, _ := matchB(e.rawOf(av), l, x.f, x.s); ok {
									causes = append(causes, e.not(m))
								}
							}
						}
						for _, mu := range r.where("mapupdate", func(m *Effect) bool { return isFresh(m.Addr) && elemField(m.Key, l, fk) }) {
							causes = append(causes, e.presence(r, mu.Addr, mu.Key))
							for _, v := range e.B.Support(e.rawOf(pc)) {
								if a := e.atoms[v]; a.Op == "mapval" && a.Args[0] == mu.Addr && a.Args[1] == mu.Key {
									causes = append(causes, e.B.Var(v))
								}
							}
						}
					}
					// size
					for _, ef2 := range r.where("return", func(x *Effect) bool { return x.Frame == r.Root }) {
						for _, g2 := range e.cases(ef2.Args[0]) {
							if g2.T.Op == "alloc" {
								fin := r.at(ef2, e.fa(g2.T, ents))
								for _, g3 := range e.cases(fin) {
									if e.decide(e.all(ef2.PC, g2.C, g3.C), False) != 1 {
										causes = append(causes, e.not(e.leq(e.length(g3.T), e.mkInt(32, nil))))
									}
								}
							}
						}
					}
					c.need(e.decide(e.rawOf(pc), e.any(causes...)) == 1, "new", "error-cause", p, "New rejects input that is valid (if %s)", c.P(pc))
					continue
				}
				if !c.need(e.decide(pc, enil) == 1, "new", "state-and-error", p, "New may return a trace state together with an error (if %s)", c.P(pc)) {
					continue
				}
				if gs.T == parent {
					c.need(e.decide(pc, e.leq(e.length(in), e.mkInt(0, nil))) == 1, "new", "parent", p, "New returns the parent itself although entries were given")
					continue
				}
				if !c.need(isFresh(gs.T), "new", "fresh", p, "New returns %s, which it did not create", c.S(gs.T)) {
					continue
				}
				nok++
				fin := r.at(ef, e.fa(gs.T, ents))
				for _, gf := range e.cases(fin) {
					fc := e.all(pc, gf.C)
					if e.decide(fc, False) == 1 {
						continue
					}
					none := e.decide(fc, e.leq(e.length(in), e.mkInt(0, nil))) == 1
					if !none {
						for _, x := range []struct {
							f    *types.Var
							s, n string
						}{{fk, w3cKey, "key"}, {fv, w3cValue, "value"}} {
							why := "no loop over all entries checks it"
							l := e.forallLoop(r, fc, overIn, func(l *LoopCtx, b BDD) bool {
								m, ok, w := matchB(b, l, x.f, x.s)
								if w != "" {
									why = w
								}
								return ok && e.implies(b, m)
							})
							c.need(l != nil, "new", "valid-"+x.n, p, "New accepts an entry whose %s is malformed: %s", x.n, why)
						}
						l := e.forallLoop(r, fc, overIn, func(l *LoopCtx, b BDD) bool {
							for _, mu := range r.where("mapupdate", func(m *Effect) bool {
								return isFresh(m.Addr) && elemField(m.Key, l, fk) && innermostIs(m, l)
							}) {
								if !e.implies(b, mu.PC) && !e.implies(e.forget(b, loopAtom), e.forget(mu.PC, loopAtom)) {
									continue
								}
								if e.implies(b, e.not(e.presence(r, mu.Addr, mu.Key))) {
									return true
								}
								// map of booleans set to true
								if isBool(mu.Val.T) && e.decide(True, e.bdd(mu.Val)) == 1 {
									for _, v := range e.B.Support(b) {
										if a := e.atoms[v]; a.Op == "mapval" && a.Args[0] == mu.Addr && a.Args[1] == mu.Key && e.implies(b, e.not(e.B.Var(v))) {
											return true
										}
									}
								}
							}
							return c.pairwise(l, b, in, fk)
						})
						c.need(l != nil, "new", "unique", p, "New accepts two entries with the same key")
					}
					c.need(e.decide(fc, e.leq(e.length(gf.T), e.mkInt(32, nil))) == 1, "new", "size", p, "New may return a trace state of more than 32 entries: its length is %s (if %s)", c.S(e.length(gf.T)), c.P(fc))
					c40order(c, r, p, fc, gf.T, parent, in, ents, fk)
				}
			}
		}
	}
	c.floor("new", "successful returns of New", nok, 1)
	c.floor("new", "failing returns of New", nerr, 1)
}

// existsRaw is the condition behind an "exists an iteration" atom.
func (e *Eng) existsRaw(v int) (BDD, bool) {
	if a := e.atoms[v]; a.Op == "exists" {
		raw, ok := a.Obj.(BDD)
		return raw, ok
	}
	return True, false
}

// rawOf strengthens a condition with what its "exists an iteration" atoms
// imply about the iteration they witness.
func (e *Eng) rawOf(b BDD) BDD {
	seen := map[int]bool{}
	for n := 0; n < 4; n++ {
		more := false
		for _, v := range e.B.Support(b) {
			if raw, ok := e.existsRaw(v); ok && !seen[v] {
				seen[v], more = true, true
				b = e.all(b, e.any(e.not(e.B.Var(v)), raw))
			}
		}
		if !more {
			break
		}
	}
	return b
}

func innermostIs(ef *Effect, l *LoopCtx) bool {
	return len(ef.Loops) > 0 && ef.Loops[len(ef.Loops)-1] == l
}

// pairwise: nested-loop form of the duplicate test: the continuing iteration
// implies that an inner loop over the same entries (or those before / after)
// ended without finding an equal key.
func (c *Ctx) pairwise(l *LoopCtx, b BDD, in *Term, fk *types.Var) bool {
	e := c.E
	for _, v := range e.B.Support(b) {
		raw, ok := e.existsRaw(v)
		if !ok || !e.implies(b, e.not(e.B.Var(v))) {
			continue
		}
		for _, a := range e.atomsOf(raw) {
			if a.Op == "eq" && len(a.Args) == 2 && contains(a.Args[0], func(x *Term) bool { return x == in }) && contains(a.Args[1], func(x *Term) bool { return x == in }) && contains(a, func(x *Term) bool { return x == l.Iter }) {
				return true
			}
		}
	}
	return false
}

// contentOf: v is a complete, ordered copy of src.
func contentOf(e *Eng, r *Run, v, src *Term, ef *Effect) bool {
	switch v.Op {
	case "append":
		if n := e.length(v.Args[0]); !constInt(n, 0) {
			return false
		}
		if len(v.Args) != 2 {
			return false
		}
		return v.Args[1].Op == "spread" && v.Args[1].Args[0] == src || false
	case "loopphi", "loopmem":
		lp := loopPhiOf(r, v)
		if lp == nil || lp.L.Coll != src || !lp.L.Full || len(lp.Back) != 1 || lp.Back[0].Op != "append" || len(lp.Back[0].Args) != 2 {
			return false
		}
		el := lp.Back[0].Args[1]
		return isElemOf(el, lp.L) && inOrder(el, lp.L) && constInt(e.length(lp.Init), 0)
	case "make", "copyof":
		if e.length(v) != e.length(src) {
			return false
		}
		for _, cp := range r.Effects {
			if cp.Kind == "copy" && cp.Addr == v && cp.Val == src {
				return true
			}
			if cp.Kind == "store" && cp.Addr.Op == "index" && cp.Addr.Args[0] == v && len(cp.Loops) > 0 {
				lp := cp.Loops[len(cp.Loops)-1]
				if lp.Full && lp.Coll == src && isElemOf(cp.Val, lp) && cp.Addr.Args[1] == lp.Iter && inOrder(cp.Val, lp) {
					return true
				}
			}
		}
		if v.Op == "copyof" {
			return v.Args[0] == src || contains(v, func(x *Term) bool { return x == src })
		}
	}
	return false
}

// c40order: the result is the given entries followed by the parent's, in
// order, without those whose key was given again.
func c40order(c *Ctx, r *Run, p string, pc BDD, fin, parent, in *Term, ents, fk *types.Var) {
	e := c.E
	parts := sliceParts(e, r, fin)
	if parts == nil {
		c.need(false, "order", "form", p, "the new list %s is not built by appending", c.S(fin))
		return
	}
	none := e.decide(pc, e.leq(e.length(in), e.mkInt(0, nil))) == 1
	i := 0
	if !none {
		if !c.need(i < len(parts) && parts[i] == in, "order", "first", p, "the new list does not start with the given entries: %s", c.S(fin)) {
			return
		}
		i++
	} else if i < len(parts) && parts[i] == in {
		i++
	}
	pents := e.ld(e.fa(parent, ents))
	noparent := e.decide(pc, e.isNil(parent)) == 1 || e.decide(pc, e.leq(e.length(pents), e.mkInt(0, nil))) == 1
	if i == len(parts) {
		c.need(noparent, "order", "parent-kept", p, "the new list drops the parent's entries (if %s)", c.P(pc))
		return
	}
	if !c.need(i == len(parts)-1, "order", "extra", p, "the new list has further parts: %s", c.S(fin)) {
		return
	}
	kept := parts[i]
	for _, g := range e.cases(kept) {
		gc := e.all(pc, g.C)
		if e.decide(gc, False) == 1 {
			continue
		}
		c40kept(c, r, p, gc, g.T, parent, in, ents, fk, none)
	}
}

// sliceParts flattens an appended slice into the slices it is made of.
func sliceParts(e *Eng, r *Run, t *Term) []*Term {
	var out []*Term
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if constInt(e.length(t), 0) {
			return true
		}
		if t.Op == "append" {
			if !rec(t.Args[0]) {
				return false
			}
			for _, a := range t.Args[1:] {
				if a.Op == "spread" {
					if !rec(a.Args[0]) {
						return false
					}
				} else {
					out = append(out, a)
				}
			}
			return true
		}
		if t.Op == "make" {
			// filled by one copy of another slice of the same length
			var cp *Effect
			n := 0
			for _, ef := range r.Effects {
				if ef.Addr == nil || rootOf(ef.Addr) != t || ef.Kind != "copy" && ef.Kind != "store" {
					continue
				}
				n++
				if ef.Kind == "copy" && ef.Addr == t && e.length(ef.Val) == e.length(t) {
					cp = ef
				}
			}
			if n == 1 && cp != nil {
				return rec(cp.Val)
			}
			if srcs := e.copiedParts(r, t); srcs != nil {
				for _, x := range srcs {
					if !rec(x) {
						return false
					}
				}
				return true
			}
		}
		if lp := loopPhiOf(r, t); lp != nil && lp.Init != nil && len(lp.Back) > 0 {
			if all, src := e.appendsAll(lp); all {
				return rec(lp.Init) && rec(src)
			}
			grows := true
			for _, b := range lp.Back {
				if b != lp.Term && (b.Op != "append" || b.Args[0] != lp.Term) {
					grows = false
				}
			}
			if grows && !rec(lp.Init) {
				return false
			}
		}
		out = append(out, t)
		return true
	}
	if !rec(t) {
		return nil
	}
	if out == nil {
		out = []*Term{}
	}
	return out
}

// appendsAll: a loop appends every element of src, in order.
func (e *Eng) appendsAll(lp *LoopPhi) (bool, *Term) {
	l := lp.L
	if l.Kind != "slice" || !l.Full || l.Coll == nil || !e.loopDone(l) || len(lp.Back) == 0 {
		return false, nil
	}
	for _, b := range lp.Back {
		if b.Op != "append" || len(b.Args) != 2 || b.Args[0] != lp.Term || b.Args[1].Op == "spread" || !types.Identical(b.Args[1].T, l.Coll.T.Underlying().(*types.Slice).Elem()) || !isElemOf(b.Args[1], l) || !inOrder(b.Args[1], l) {
			return false, nil
		}
	}
	return true, l.Coll
}

// copiedParts: the slices that were copied one after the other into the new
// slice t, filling it.
func (e *Eng) copiedParts(r *Run, t *Term) []*Term {
	var cps []*Effect
	for _, ef := range r.Effects {
		if ef.Addr == nil || rootOf(ef.Addr) != t || ef.Kind != "copy" && ef.Kind != "store" {
			continue
		}
		if ef.Kind != "copy" || len(ef.Loops) > 0 || ef.Addr != t && !(ef.Addr.Op == "slice" && ef.Addr.Args[0] == t) {
			return nil
		}
		cps = append(cps, ef)
	}
	T := types.Typ[types.Int]
	at := e.toLin(e.mkInt(0, T))
	var out []*Term
	for len(cps) > 0 {
		next := -1
		for i, ef := range cps {
			lo := e.mkInt(0, T)
			if ef.Addr != t {
				x, hi := sliceBounds(ef.Addr)
				if hi != nil {
					return nil
				}
				if x != nil {
					lo = x
				}
			}
			if e.sameLin(ef.PC, e.copyLens(lo), e.fromLin(at, T)) {
				next = i
			}
		}
		if next < 0 {
			return nil
		}
		out = append(out, cps[next].Val)
		at = at.add(e.toLin(e.length(cps[next].Val)), 1)
		cps = append(cps[:next:next], cps[next+1:]...)
	}
	if len(out) == 0 || !e.sameLin(True, e.length(t), e.fromLin(at, T)) {
		return nil
	}
	return out
}

// copyLens replaces what copy returned by the length of the source; the
// caller checks that the destination has room for it.
func (e *Eng) copyLens(x *Term) *Term {
	T := types.Typ[types.Int]
	lf := e.toLin(x)
	out := e.toLin(e.mkInt(lf.k, T))
	for a, k := range lf.co {
		y := a
		if a.Op == "copied" {
			y = e.length(a.Args[1])
		}
		out = out.add(e.toLin(y), k)
	}
	return e.fromLin(out, T)
}

func c40kept(c *Ctx, r *Run, p string, pc BDD, kept, parent, in *Term, ents, fk *types.Var, none bool) {
	e := c.E
	pents := e.ld(e.fa(parent, ents))
	isParentCopy := func(x *Term) bool {
		ps := sliceParts(e, r, x)
		return len(ps) == 1 && ps[0] == pents || len(ps) == 0 && (e.decide(pc, e.isNil(parent)) == 1 || e.decide(pc, e.leq(e.length(pents), e.mkInt(0, nil))) == 1)
	}
	if isParentCopy(kept) {
		c.need(none, "order", "superseded", p, "the new list keeps parent entries whose key was given again (if %s)", c.P(pc))
		return
	}
	lp := loopPhiOf(r, kept)
	if lp == nil {
		// the state at a loop's exit
		c.need(false, "order", "kept-form", p, "the parent's entries are kept as %s", c.S(kept))
		return
	}
	overParent := lp.L.Coll != nil && lp.L.Kind == "slice"
	if overParent {
		for _, g := range e.cases(lp.L.Coll) {
			if e.decide(e.all(pc, g.C), False) == 1 {
				continue
			}
			ps := sliceParts(e, r, g.T)
			overParent = overParent && ps != nil && (len(ps) == 1 && ps[0] == pents || len(ps) == 0 && e.decide(e.all(pc, g.C), e.any(e.isNil(parent), e.leq(e.length(pents), e.mkInt(0, nil)))) == 1)
		}
	}
	if overParent {
		// filter form
		c.need(constInt(e.length(lp.Init), 0) || sliceIsOnly(e, r, lp.Init, in), "order", "filter-init", p, "the filtered list starts as %s", c.S(lp.Init))
		c.need(e.completed(pc, lp.L), "order", "filter-all", p, "the parent's entries are not all considered")
		for i, b := range lp.Back {
			if b == lp.Term {
				c.need(c.keyGiven(r, lp.L, lp.BPC[i], in, fk, true), "order", "filter-drop", p, "a parent entry whose key was not given again is dropped")
				continue
			}
			ok := b.Op == "append" && len(b.Args) == 2 && b.Args[0] == lp.Term && isElemOf(b.Args[1], lp.L) && inOrder(b.Args[1], lp.L)
			c.need(ok, "order", "filter-append", p, "a parent entry is kept as %s", c.S(b))
			c.need(c.keyGiven(r, lp.L, lp.BPC[i], in, fk, false), "order", "superseded", p, "a parent entry is kept although its key may have been given again")
		}
		return
	}
	// removal form: a loop over the entries removes equal keys from the list
	if !c.need(lp.L.Coll == in && e.completed(pc, lp.L), "order", "removal-all", p, "not every given entry removes the superseded parent entry (kept: %s)", c.S(kept)) {
		return
	}
	for _, g := range e.cases(lp.Init) {
		if e.decide(e.all(pc, g.C), False) == 1 {
			continue
		}
		ps := sliceParts(e, r, g.T)
		ok := ps != nil && (len(ps) == 1 && ps[0] == pents || len(ps) == 0)
		c.need(ok, "order", "removal-init", p, "the list starts as %s instead of the parent's entries", c.S(g.T))
		if len(ps) == 0 {
			c.need(e.implies(e.all(pc, g.C), e.any(e.isNil(parent), e.leq(e.length(pents), e.mkInt(0, nil)))), "order", "parent-kept", p, "the new list drops the parent's entries (if %s)", c.P(e.all(pc, g.C)))
		}
	}
	c.need(len(lp.Back) > 0, "order", "removal-back", p, "the list is not maintained by the loop over the entries")
	elemKey := func(x *Term) bool { return elemField(x, lp.L, fk) }
	for _, b := range lp.Back {
		for _, g := range e.cases(b) {
			switch {
			case g.T == lp.Term:
			case g.T.Op == "append" && len(g.T.Args) == 2:
				// X[:i] + X[i+1:]
				a, sp := g.T.Args[0], g.T.Args[1]
				ok := a.Op == "slice" && sp.Op == "spread" && sp.Args[0].Op == "slice" && a.Args[0] == lp.Term && sp.Args[0].Args[0] == lp.Term
				c.need(ok, "order", "removal", p, "the list becomes %s", c.S(g.T))
			default:
				c.need(false, "order", "removal", p, "the list becomes %s", c.S(g.T))
			}
		}
	}
	nrem := 0
	for _, ef := range r.where("append", func(ef *Effect) bool {
		return ef.Addr.Op == "slice" && ef.Addr.Args[0] == lp.Term && len(ef.Loops) > 0
	}) {
		nrem++
		a := ef.Args
		sp := a[1]
		lo1, hi1 := sliceBounds(a[0])
		lo2, hi2 := sliceBounds(sp)
		var inner *LoopCtx
		for _, l := range r.Loops {
			if l != lp.L && l.Coll == lp.Term && l.Kind == "slice" && hi1 == l.Iter {
				inner = l
			}
		}
		if !c.need(inner != nil, "order", "removal-search", c.pos(ef), "an entry is removed outside a search of the list") {
			continue
		}
		okb := (lo1 == nil || constInt(lo1, 0)) && hi1 == inner.Iter && hi2 == nil && lo2 != nil && e.toLin(lo2).add(e.toLin(inner.Iter), -1).isConst(1)
		c.need(okb, "order", "removal-one", c.pos(ef), "the removal takes out more or less than the entry found: [%s:%s] + [%s:]", c.S(lo1), c.S(hi1), c.S(lo2))
		// the condition: equal keys
		eq := False
		rpc := e.rawOf(ef.PC)
		for _, v := range e.B.Support(rpc) {
			at := e.atoms[v]
			if at.Op == "eq" && len(at.Args) == 2 {
				x, y := at.Args[0], at.Args[1]
				if elemField(x, inner, fk) && elemKey(y) || elemField(y, inner, fk) && elemKey(x) {
					eq = e.B.Var(v)
				}
			}
		}
		c.need(eq != False && e.implies(rpc, eq), "order", "removal-key", c.pos(ef), "an entry is removed although its key differs from the given one (if %s)", c.P(ef.PC))
		if eq != False {
			for _, b := range inner.BackPC {
				c.need(e.implies(b, e.not(eq)), "order", "removal-search", c.pos(ef), "the search passes over an entry with the given key (if %s)", c.P(b))
			}
			for _, av := range inner.early {
				c.need(e.implies(e.rawOf(av), eq), "order", "removal-search", c.pos(ef), "the search for a superseded entry can stop early (if %s)", c.P(e.rawOf(av)))
			}
		}
	}
	c.floor("order", "removals of superseded entries", nrem, 1)
}

func sliceIsOnly(e *Eng, r *Run, t, in *Term) bool {
	ps := sliceParts(e, r, t)
	return len(ps) == 1 && ps[0] == in
}

// sliceBounds of a slice term (or the argument of a spread).
func sliceBounds(t *Term) (lo, hi *Term) {
	if t.Op == "spread" {
		t = t.Args[0]
	}
	if t.Op != "slice" {
		return nil, nil
	}
	get := func(i int) *Term {
		if i < len(t.Args) && t.Args[i] != nil && t.Args[i].Op != "none" {
			return t.Args[i]
		}
		return nil
	}
	return get(1), get(2)
}

func (l lin) isConst(k int64) bool { return len(l.co) == 0 && l.k == k }

// keyGiven: the condition implies that the loop element's key is (or is not)
// among the given entries: through a set filled from all of them, or an inner
// search.
func (c *Ctx) keyGiven(r *Run, l *LoopCtx, b BDD, in *Term, fk *types.Var, want bool) bool {
	e := c.E
	for _, mu := range r.where("mapupdate", func(m *Effect) bool { return isFresh(m.Addr) && len(m.Loops) > 0 }) {
		ml := mu.Loops[len(mu.Loops)-1]
		if ml.Coll != in || !elemField(mu.Key, ml, fk) || !ml.Full || !e.everyIter(mu, ml) {
			continue
		}
		if v := e.under(mu.Val, mu.PC); v.Op == "bool" && v.Obj.(BDD) != True {
			continue
		}
		for _, v := range e.B.Support(b) {
			a := e.atoms[v]
			if (a.Op == "mapok" || a.Op == "mapval") && a.Args[0] == mu.Addr && elemField(a.Args[1], l, fk) {
				if want && e.implies(b, e.B.Var(v)) || !want && e.implies(b, e.not(e.B.Var(v))) {
					return true
				}
			}
		}
	}
	for _, v := range e.B.Support(b) {
		raw, ok := e.existsRaw(v)
		if !ok {
			continue
		}
		for _, a := range e.atomsOf(raw) {
			if a.Op == "eq" && len(a.Args) == 2 && contains(a, func(x *Term) bool { return x == in }) && contains(a, func(x *Term) bool { return x == l.Iter }) {
				if want && e.implies(b, e.B.Var(v)) || !want && e.implies(b, e.not(e.B.Var(v))) {
					return true
				}
			}
		}
	}
	return false
}

// ---------- C39 ----------

// lastStores folds the stores to an address during a run into its final value.
func (e *Eng) lastStores(r *Run, a *Term) *Term {
	var v *Term
	for _, ef := range r.Effects {
		if ef.Kind != "store" || ef.Addr != a {
			continue
		}
		if v == nil {
			v = ef.Val
			continue
		}
		v = e.ite(ef.PC, ef.Val, v)
	}
	return v
}

func ruleC39(c *Ctx) {
	ty, lab := c.field("resource", "Resource", "Type"), c.field("resource", "Resource", "Labels")
	if c.failed() {
		return
	}
	e := c.E
	// merge of a (first) and b, with result v under cond
	merge := func(r *Run, p string, cond BDD, v, a, b *Term) {
		an, bn := e.isNil(a), e.isNil(b)
		al, bl := e.fv(a, lab), e.fv(b, lab)
		empty := func(m *Term) BDD { return e.leq(e.length(m), e.mkInt(0, nil)) }
		for _, g := range e.cases(v) {
			gc := e.all(cond, g.C)
			if e.decide(gc, False) == 1 {
				continue
			}
			switch {
			case g.T == a:
				c.need(e.decide(gc, bn) == 1, "merge", "first-only", p, "merging gives the first resource alone although the second is present (if %s)", c.P(gc))
			case g.T == b:
				c.need(e.decide(gc, an) == 1, "merge", "second-only", p, "merging gives the second resource alone although the first is present (if %s)", c.P(gc))
			case g.T.isConst():
				c.need(e.decide(gc, e.all(an, bn)) == 1, "merge", "nothing", p, "merging loses both resources (if %s)", c.P(gc))
			case isFresh(g.T):
				if !c.need(e.decide(gc, e.all(e.not(an), e.not(bn))) == 1, "merge", "nil-input", p, "merging reads a nil resource (if %s)", c.P(gc)) {
					continue
				}
				// type
				at, bt := e.fv(a, ty), e.fv(b, ty)
				aempty := e.eq(at, e.zero(ty.Type()))
				tv := e.lastStores(r, e.fa(g.T, ty))
				if c.need(tv != nil, "merge", "type", p, "the merged resource has no type") {
					c.need(e.same(e.all(gc, e.not(aempty)), tv, at), "merge", "type", p, "the merged type is %s although the first resource has one", c.S(tv))
					c.need(e.same(e.all(gc, aempty), tv, bt), "merge", "type", p, "the merged type is %s although the first resource has none", c.S(e.under(tv, e.all(gc, aempty))))
				}
				// labels
				mv := e.lastStores(r, e.fa(g.T, lab))
				if mv == nil {
					c.need(e.decide(gc, e.all(empty(al), empty(bl))) == 1, "merge", "labels", p, "the merged resource has no labels")
					continue
				}
				for _, gm := range e.cases(mv) {
					mc := e.all(gc, gm.C)
					if e.decide(mc, False) == 1 {
						continue
					}
					switch {
					case gm.T == al:
						c.need(e.decide(mc, empty(bl)) == 1, "merge", "labels", p, "the merged labels are only the first resource's")
						continue
					case gm.T == bl:
						c.need(e.decide(mc, empty(al)) == 1, "merge", "labels", p, "the merged labels are only the second resource's")
						continue
					}
					if !c.need(gm.T.Op == "make", "merge", "labels-fresh", p, "the merged labels are %s", c.S(gm.T)) {
						continue
					}
					for _, side := range []struct {
						m, o  *Term
						first bool
					}{{al, bl, true}, {bl, al, false}} {
						done := e.decide(mc, empty(side.m)) == 1
						for _, up := range r.where("mapupdate", func(x *Effect) bool { return x.Addr == gm.T }) {
							if len(up.Loops) == 0 {
								continue
							}
							l := up.Loops[len(up.Loops)-1]
							if l.Coll != side.m || l.Kind != "map" {
								continue
							}
							if !c.need(up.Key.Op == "rkey" && isElemOf(up.Val, l) && up.Val.Op != "rkey", "merge", "label-copied", c.pos(up), "a label is copied as %s = %s", c.S(up.Key), c.S(up.Val)) {
								continue
							}
							c.need(l.Full, "merge", "labels-all", c.pos(up), "copying the labels of a resource can stop early")
							absent := e.not(e.presence(r, gm.T, up.Key))
							always := e.all(mc, l.More, e.any(e.not(empty(side.m)), e.not(empty(side.m))))
							pc := e.forget(up.PC, loopAtom)
							uncond := e.implies(e.forget(always, loopAtom), pc)
							// the other side's updates, before or after
							before, after := false, false
							for _, o := range r.where("mapupdate", func(x *Effect) bool {
								return x.Addr == gm.T && loopOver(x, func(t *Term) bool { return t == side.o }) != nil
							}) {
								if o.Seq < up.Seq {
									before = true
								} else {
									after = true
								}
							}
							_ = before
							if side.first {
								// the first's own value must survive: nothing later overwrites it
								if uncond {
									done = true
								} else if e.implies(e.all(e.forget(always, loopAtom), absent), pc) && !before {
									done = true
								}
							} else {
								switch {
								case uncond:
									done = true
									c.need(after && !before, "merge", "first-wins", c.pos(up), "a label of the second resource replaces the first resource's")
								case e.implies(e.all(e.forget(always, loopAtom), absent), pc):
									done = true
									c.need(e.implies(pc, absent) || after && !before, "merge", "first-wins", c.pos(up), "a label of the second resource replaces the first resource's")
								}
							}
						}
						w := "second"
						if side.first {
							w = "first"
						}
						c.need(done, "merge", "labels-"+w, p, "not every label of the %s resource is kept (if %s)", w, c.P(mc))
					}
				}
			default:
				c.need(false, "merge", "result", p, "merging gives %s", c.S(g.T))
			}
		}
	}
	if f := c.W.fn("resource", "merge"); f != nil {
		r := c.run(f, c.std())
		if len(r.Rets) == 1 && len(r.Root.params) == 2 {
			for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
				merge(r, c.pos(ef), ef.PC, ef.Args[0], r.param(0), r.param(1))
			}
		}
	}
	// the detector chain
	if r0 := c.go1("resource", "MultiDetector"); r0 != nil && len(r0.Rets) == 1 {
		cl := r0.Rets[0]
		for cl.Op == "iface" || cl.Op == "conv" {
			cl = cl.Args[0]
		}
		f := calleeOf(cl)
		if c.need(f != nil, "detect", "closure", c.fpos(r0), "MultiDetector returns %s", c.S(cl)) {
			ctx := e.param(f, 0)
			r := e.AnalyseWith(f, []*Term{ctx}, cl.Args, r0.Final, c.std())
			c.note(r)
			c39detect(c, r, r0.param(0), ctx, merge)
		}
	}
	// nothing but new objects is written
	for _, f := range c.roots("resource") {
		r := c.run(f, c.std())
		for _, ef := range r.Effects {
			if ef.Kind == "mapupdate" || ef.Kind == "delete" {
				c.need(e.freshIn(r, ef.Addr), "input", fnName(f), c.pos(ef), "%s changes the label map %s, which it did not create", fnName(f), c.S(ef.Addr))
			}
			if ef.Kind == "store" && (addrField(ef.Addr) == ty || addrField(ef.Addr) == lab) {
				c.need(isFresh(rootOf(ef.Addr)), "input", fnName(f)+":store", c.pos(ef), "%s changes the resource %s, which it did not create", fnName(f), c.S(ef.Addr))
			}
		}
	}
	c39codec(c, ty, lab)
}

func c39detect(c *Ctx, r *Run, dets, ctx *Term, merge func(r *Run, p string, cond BDD, v, a, b *Term)) {
	e := c.E
	var call *Effect
	n := 0
	for _, ef := range r.where("call", func(ef *Effect) bool { return ef.Name == "dyn" }) {
		call = ef
		n++
	}
	if !c.need(n == 1 && len(call.Loops) > 0, "detect", "calls", c.fpos(r), "the chained detector calls detectors at %d sites", n) {
		return
	}
	p := c.pos(call)
	l := call.Loops[len(call.Loops)-1]
	c.need(l.Kind == "slice" && l.Coll == dets || l.Kind == "slice" && l.Coll.Op == "ld" && r.elems(nil, l.Coll) == nil && contains(call.Val, func(t *Term) bool { return t == l.Coll }), "detect", "collection", p, "the chained detector iterates over %s", c.S(l.Coll))
	c.need(isElemOf(call.Val, l) && inOrder(call.Val, l), "detect", "order", p, "the detector called is %s, not the next one in order", c.S(call.Val))
	c.need(len(call.Args) == 1 && call.Args[0] == ctx, "detect", "context", p, "a detector is called with the context %s", c.S(call.Args[0]))
	c.need(e.implies(e.all(l.Entry, l.More), call.PC), "detect", "each", p, "a detector is only called if %s", c.P(call.PC))
	res, er := e.resultN(call, 0), e.resultN(call, 1)
	fail := e.not(e.isNil(er))
	for _, b := range l.BackPC {
		c.need(e.implies(b, e.not(fail)), "detect", "first-error", p, "detection continues after a detector failed")
	}
	var lp *LoopPhi
	for _, x := range l.phis {
		if x.Term != nil && x.Term.T != nil && types.Identical(x.Term.T, res.T) {
			lp = x
		}
	}
	if lp == nil {
		for _, x := range l.Memvar {
			if x.Term.T != nil && types.Identical(x.Term.T, res.T) {
				lp = x
			}
		}
	}
	if !c.need(lp != nil, "detect", "accumulated", p, "no resource is carried from one detector to the next") {
		return
	}
	c.need(lp.Init != nil && lp.Init.isConst(), "detect", "start", p, "merging starts from %s", c.S(lp.Init))
	for i, b := range lp.Back {
		merge(r, p, lp.BPC[i], b, lp.Term, res)
	}
	for _, av := range l.early {
		c.need(e.decide(e.rawOf(av), fail) == 1, "detect", "stops", p, "detection stops although no detector failed (if %s)", c.P(e.rawOf(av)))
	}
	for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
		for _, gr := range e.cases(ef.Args[0]) {
			for _, ge := range e.cases(ef.Args[1]) {
				pc := e.rawOf(e.all(ef.PC, gr.C, ge.C))
				if e.decide(pc, False) == 1 {
					continue
				}
				if e.decide(pc, e.not(e.isNil(ge.T))) == 1 || ge.T == er && e.decide(pc, fail) == 1 {
					c.need(ge.T == er, "detect", "error", c.pos(ef), "the error returned is %s instead of the detector's", c.S(ge.T))
					c.need(gr.T.isConst(), "detect", "error-resource", c.pos(ef), "a resource is returned together with an error: %s", c.S(gr.T))
					continue
				}
				c.need(gr.T == lp.Term, "detect", "result", c.pos(ef), "the resource returned is %s instead of the merged one (if %s)", c.S(gr.T), c.P(pc))
				c.need(e.decide(pc, e.isNil(ge.T)) == 1, "detect", "result-error", c.pos(ef), "the merged resource is returned with the error %s", c.S(ge.T))
				c.need(e.completed(e.all(ef.PC, gr.C, ge.C), l), "detect", "result-early", c.pos(ef), "the merged resource is returned without an error although a detector failed (if %s)", c.P(pc))
			}
		}
	}
}

func c39codec(c *Ctx, ty, lab *types.Var) {
	e := c.E
	// EncodeLabels
	if r := c.go1("resource", "EncodeLabels"); r != nil {
		m := r.param(0)
		p := c.fpos(r)
		ofMap := func(t *Term) bool {
			return contains(t, func(x *Term) bool { return (x.Op == "mapval" || x.Op == "rval") && x.Args[0] == m })
		}
		// pieces splits formatted text into the literals, the strings and the quoted strings it is made of
		type piece struct {
			lit string
			v   *Term
			q   bool
		}
		var pieces func(t *Term) []piece
		pieces = func(t *Term) []piece {
			switch {
			case t.Op == "bcat":
				var out []piece
				for _, a := range t.Args {
					out = append(out, pieces(a)...)
				}
				return out
			case isCallTo(t, "strconv.Quote"):
				return []piece{{v: t.Args[0], q: true}}
			case isCallTo(t, "fmt.Sprintf"):
				f, ok := t.Args[0].strVal()
				var els []*Term
				if t.Args[1].Op == "lst" {
					els = t.Args[1].Args
				}
				var out []piece
				for k := 0; ok && f != ""; {
					i := strings.IndexByte(f, '%')
					if i < 0 {
						i = len(f)
					}
					if i > 0 {
						out = append(out, piece{lit: f[:i]})
						f = f[i:]
						continue
					}
					if len(f) < 2 || k >= len(els) || f[1] != 's' && f[1] != 'q' && f[1] != 'v' {
						return []piece{{v: t}}
					}
					v := els[k]
					for v.Op == "iface" {
						v = v.Args[0]
					}
					if !isString(v.T) {
						return []piece{{v: t}}
					}
					out = append(out, piece{v: v, q: f[1] == 'q'})
					k++
					f = f[2:]
				}
				return out
			}
			if s, ok := t.strVal(); ok {
				return []piece{{lit: s}}
			}
			return []piece{{v: t}}
		}
		nq := 0
		for _, ef := range r.Effects {
			if ef.Kind != "call" || ef.Result == nil {
				continue
			}
			for _, pc := range pieces(ef.Result) {
				if !pc.q {
					continue
				}
				nq++
				c.need(ofMap(pc.v), "encode", "quoted", c.pos(ef), "EncodeLabels quotes %s", c.S(pc.v))
				l := loopOver(ef, func(t *Term) bool { return true })
				if c.need(l != nil && l.Full && l.Kind == "slice", "encode", "order", c.pos(ef), "labels are written in map iteration order, or not all of them") {
					// the slice iterated was filled with every key and sorted
					sorted := false
					for _, s := range r.Effects {
						if s.Kind == "call" && s.Seq < ef.Seq && (s.Name == "sort.Strings" || s.Name == "sort.Slice" || s.Name == "sort.Sort" || s.Name == "sort.Stable" || s.Name == "sort.SliceStable") && len(s.Args) > 0 && contains(s.Args[0], func(x *Term) bool { return x == l.Coll }) && e.implies(ef.PC, e.forget(s.PC, loopAtom)) {
							sorted = true
						}
					}
					c.need(sorted, "encode", "sorted", c.pos(ef), "labels are written in map iteration order: the keys are not sorted")
					c.need(allKeysOf(e, r, l.Coll, m), "encode", "all", c.pos(ef), "the keys written, %s, are not all keys of the map", c.S(l.Coll))
				}
			}
		}
		if nq == 0 {
			// text formatted straight into a writer
			for _, ef := range r.calls("fmt.Fprintf") {
				for _, a := range ef.Args {
					if s, ok := a.strVal(); ok && strings.Contains(s, "%q") {
						nq++
					}
				}
			}
		}
		c.floor("encode", "quoted values in EncodeLabels", nq, 1)
		for _, rv := range r.Rets {
			for _, g := range e.cases(rv) {
				lp := loopPhiOf(r, g.T)
				if lp == nil {
					continue
				}
				c.need(constString(lp.Init) == "", "encode", "start", p, "EncodeLabels starts with %s", c.S(lp.Init))
				for _, b := range lp.Back {
					for _, h := range e.cases(b) {
						parts := pieces(h.T)
						ok := len(parts) > 0 && parts[0].v == lp.Term && !parts[0].q
						if ok {
							parts = parts[1:]
							if len(parts) > 0 && strings.HasPrefix(parts[0].lit, ",") {
								if parts[0].lit = parts[0].lit[1:]; parts[0].lit == "" {
									parts = parts[1:]
								}
								c.need(e.decide(h.C, e.lt(e.mkInt(0, nil), lp.L.Iter)) == 1 || !e.implies(h.C, e.eq(lp.L.Iter, e.mkInt(0, nil))), "encode", "comma", p, "a comma precedes the first label")
							} else if lp.L.Iter != nil {
								c.need(e.decide(e.all(h.C, e.lt(e.mkInt(0, nil), lp.L.Iter)), False) == 1, "encode", "comma", p, "labels are not separated by commas")
							}
							ok = len(parts) == 3 && parts[0].v != nil && !parts[0].q && isElemOf(parts[0].v, lp.L) && parts[1].lit == "=" && parts[2].q && ofMap(parts[2].v)
							if ok {
								mv := parts[2].v
								ok = mv.Op != "mapval" || mv.Args[1] == parts[0].v
							}
						}
						c.need(ok, "encode", "form", p, "a label is written as %s instead of key=\"quoted value\"", c.S(h.T))
					}
				}
			}
		}
	}
	// DecodeLabels
	r := c.go1("resource", "DecodeLabels")
	if r == nil || len(r.Rets) != 2 {
		return
	}
	var fm *Effect
	for _, ef := range r.Effects {
		if ef.Kind == "call" && (ef.Name == "(*regexp.Regexp).FindStringSubmatch" || ef.Name == "(*regexp.Regexp).FindStringSubmatchIndex") {
			fm = ef
		}
	}
	if fm == nil || fm.Name != "(*regexp.Regexp).FindStringSubmatch" {
		c.need(false, "decode", "pattern", c.fpos(r), "DecodeLabels does not match labels with a constant pattern")
		return
	}
	p := c.pos(fm)
	pat := e.regexpOf(fm.Args[0])
	if c.need(pat != "", "decode", "pattern", p, "the label pattern is not constant") {
		c39pattern(c, p, pat)
	}
	group := func(t *Term, n int64) bool {
		return contains(t, func(x *Term) bool {
			if x.Op != "ld" && x.Op != "indexof" && x.Op != "index" {
				return false
			}
			y := x
			if y.Op == "ld" {
				y = y.Args[0]
			}
			return (y.Op == "index" || y.Op == "indexof") && y.Args[0] == fm.Result && constInt(y.Args[1], n)
		})
	}
	nu := 0
	for _, ef := range r.where("mapupdate", func(*Effect) bool { return true }) {
		nu++
		c.need(group(ef.Key, 1), "decode", "key", c.pos(ef), "the decoded key is %s", c.S(ef.Key))
		for _, g := range e.cases(ef.Val) {
			gc := e.all(ef.PC, g.C)
			if e.decide(gc, False) == 1 {
				continue
			}
			uq := g.T.Op == "ext" && isCallTo(g.T.Args[0], "strconv.Unquote") && group(g.T.Args[0].Args[0], 2)
			// group 2 can only be empty if the pattern allows it
			if !uq {
				c.need(reGroup(pat, 2) != "" && !reMatchesEmpty(reGroup(pat, 2)) && c.emptyGroup(gc, fm.Result, 2), "decode", "value", c.pos(ef), "the decoded value is %s instead of the unquoted group (if %s)", c.S(g.T), c.P(gc))
				continue
			}
			er := e.unquoteErr(r, g.T.Args[0])
			c.need(er == nil || e.decide(gc, e.isNil(er)) == 1, "decode", "unquote-error", c.pos(ef), "a label is stored although unquoting it failed")
		}
	}
	c.floor("decode", "decoded labels stored", nu, 1)
	// every iteration consumes the match
	if len(fm.Loops) > 0 {
		l := fm.Loops[len(fm.Loops)-1]
		cons := false
		for _, lp := range l.phis {
			if lp.Term != fm.Args[1] {
				continue
			}
			cons = len(lp.Back) > 0
			for _, b := range lp.Back {
				ok := false
				lo, hi := sliceBounds(b)
				if b.Op == "slice" || b.Op == "substr" {
					ok = hi == nil && lo != nil && lo.Op == "len" && group(lo, 0)
				}
				if isCallTo(b, "strings.TrimPrefix") {
					ok = b.Args[0] == lp.Term && group(b.Args[1], 0)
				}
				if !ok {
					cons = false
				}
			}
		}
		c.need(cons, "decode", "consume", p, "an iteration of DecodeLabels does not consume exactly the matched text")
		for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
			okc := e.all(ef.PC, e.isNil(ef.Args[1]))
			if e.decide(okc, False) == 1 {
				continue
			}
			c.need(e.completed(okc, l), "decode", "complete", c.pos(ef), "DecodeLabels reports success although decoding stopped early (if %s)", c.P(okc))
			if _, ok := ef.Args[0].T.Underlying().(*types.Map); ok {
				ups := r.where("mapupdate", func(u *Effect) bool { return anyLeaf(ef.Args[0], func(t *Term) bool { return t == u.Addr }) })
				c.need(len(ups) > 0, "decode", "result", c.pos(ef), "DecodeLabels returns %s", c.S(ef.Args[0]))
			}
		}
	}
	// FromEnv
	if r := c.go1("resource", "FromEnv"); r != nil && len(r.Rets) == 2 {
		envs := map[string]bool{}
		for _, ef := range r.Effects {
			if ef.Kind == "call" && (ef.Name == "os.Getenv" || ef.Name == "os.LookupEnv") {
				envs[constString(ef.Args[0])] = true
			}
		}
		c.need(envs["OC_RESOURCE_TYPE"] && envs["OC_RESOURCE_LABELS"], "env", "names", c.fpos(r), "FromEnv reads %v", envs)
		from := func(t *Term, nm string) bool {
			return contains(t, func(x *Term) bool {
				return (isCallTo(x, "os.Getenv") || isCallTo(x, "os.LookupEnv")) && constString(x.Args[0]) == nm
			})
		}
		for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
			for _, g := range e.cases(ef.Args[0]) {
				pc := e.all(ef.PC, g.C)
				if e.decide(pc, False) == 1 {
					continue
				}
				if g.T.isConst() {
					c.need(e.decide(pc, e.not(e.isNil(ef.Args[1]))) == 1 || e.decide(e.rawOf(pc), e.not(e.isNil(ef.Args[1]))) == 1, "env", "error", c.pos(ef), "FromEnv returns neither a resource nor an error (if %s)", c.P(pc))
					continue
				}
				if !isFresh(g.T) {
					continue
				}
				c.need(from(r.at(ef, e.fa(g.T, ty)), "OC_RESOURCE_TYPE"), "env", "type", c.pos(ef), "the detected type is %s", c.S(r.at(ef, e.fa(g.T, ty))))
			}
		}
		// the labels decoded are those of the environment
		nd := 0
		for _, ef := range r.Effects {
			if ef.Kind == "call" && ef.Name == "(*regexp.Regexp).FindStringSubmatch" && len(ef.Loops) > 0 {
				for _, lp := range ef.Loops[len(ef.Loops)-1].phis {
					if lp.Term == ef.Args[1] {
						nd++
						c.need(from(lp.Init, "OC_RESOURCE_LABELS"), "env", "labels", c.pos(ef), "the labels are decoded from %s", c.S(lp.Init))
					}
				}
			}
		}
		c.floor("env", "decoding of the environment's labels", nd, 1)
	}
}

func reMatchesEmpty(pat string) bool {
	_, both := reDisjoint(pat, "")
	return !both
}

// emptyGroup: the condition implies that group n of the match is empty.
func (c *Ctx) emptyGroup(pc BDD, m *Term, n int64) bool {
	e := c.E
	for _, v := range e.B.Support(pc) {
		a := e.atoms[v]
		if a.Op == "le" || a.Op == "eq" {
			if contains(a, func(x *Term) bool {
				return (x.Op == "index" || x.Op == "indexof") && x.Args[0] == m && constInt(x.Args[1], n)
			}) && e.implies(pc, e.B.Var(v)) {
				return true
			}
		}
	}
	return false
}

// unquoteErr is the error result of a call returning (value, error).
func (e *Eng) unquoteErr(r *Run, call *Term) *Term {
	for _, ef := range r.Effects {
		if ef.Kind == "call" && ef.Result == call {
			return e.resultN(ef, 1)
		}
	}
	return nil
}

// allKeysOf: the slice holds every key of the map.
func allKeysOf(e *Eng, r *Run, t, m *Term) bool {
	lp := loopPhiOf(r, t)
	if lp != nil && lp.L.Kind == "map" && lp.L.Coll == m && lp.L.Full {
		for _, b := range lp.Back {
			if b.Op != "append" || len(b.Args) != 2 || b.Args[0] != lp.Term || b.Args[1].Op != "rkey" {
				return false
			}
		}
		return len(lp.Back) == 1 && constInt(e.length(lp.Init), 0)
	}
	if isFresh(rootOf(t)) {
		for _, ef := range r.Effects {
			if ef.Kind == "store" && rootOf(ef.Addr) == rootOf(t) && ef.Val.Op == "rkey" && len(ef.Loops) > 0 && ef.Loops[len(ef.Loops)-1].Full {
				return true
			}
		}
	}
	return false
}

// c39pattern: the label pattern accepts, unambiguously, every label that
// EncodeLabels writes for printable ASCII values.
func c39pattern(c *Ctx, p, pat string) {
	const quoted = `"(?:[ !#-\[\]-~]|\\["\\abfnrtvx0-9]){0,256}"` // what strconv.Quote writes for ASCII
	const key = `[!#-+\--<>-~]{1,256}`
	re, err := syntax.Parse(pat, syntax.Perl)
	if !c.need(err == nil, "decode", "pattern-syntax", p, "the label pattern does not parse: %v", err) {
		return
	}
	// anchored at the start
	c.need(re.Op == syntax.OpConcat && (re.Sub[0].Op == syntax.OpBeginText || re.Sub[0].Op == syntax.OpBeginLine), "decode", "pattern-anchored", p, "the label pattern is not anchored at the start of the remaining text, so text can be skipped")
	// short labels through the whole pattern, full lengths per group
	if w, ok := reSubset("(?:"+strings.Replace(key, "{1,256}", "{1,4}", 1)+")=(?:"+strings.Replace(quoted, "{0,256}", "{0,4}", 1)+"),", pat); true {
		c.need(ok, "decode", "pattern-complete", p, "the label pattern rejects the encoded label %q", w)
	}
	g1, g2 := reGroup(pat, 1), reGroup(pat, 2)
	if !c.need(g1 != "" && g2 != "", "decode", "pattern-groups", p, "the label pattern has no groups for key and value") {
		return
	}
	if w, ok := reSubset(key, g1); true {
		c.need(ok, "decode", "pattern-keys", p, "the key group does not cover the key %q", w)
	}
	if w, ok := reSubset(quoted, g2); true {
		c.need(ok, "decode", "pattern-value", p, "the value group does not cover the quoted value %q", w)
	}
	if w, ok := reDisjoint(quoted, "(?:"+g2+`)\s*,(?s:.*)`); true {
		c.need(ok, "decode", "pattern-short", p, "the value group may stop inside the encoded value %q", w)
	}
	if w, ok := reDisjoint(g2, quoted+`\s*,(?s:.*)`); true {
		c.need(ok, "decode", "pattern-long", p, "the value group may run past the end of an encoded value: %q", w)
	}
	_, noeq := reDisjoint(g1, `(?s:.*)="(?s:.*)`)
	c.need(noeq || groupLazy(re, 1), "decode", "pattern-key", p, "the key group may swallow following labels")
}

// groupLazy: the capture group prefers its shortest match.
func groupLazy(re *syntax.Regexp, n int) bool {
	if re.Op == syntax.OpCapture && re.Cap == n {
		s := re.Sub[0]
		return (s.Op == syntax.OpRepeat || s.Op == syntax.OpStar || s.Op == syntax.OpPlus || s.Op == syntax.OpQuest) && s.Flags&syntax.NonGreedy != 0
	}
	for _, s := range re.Sub {
		if groupLazy(s, n) {
			return true
		}
	}
	return false
}
