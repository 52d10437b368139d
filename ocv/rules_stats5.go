package main

import (
	"go/types"
	"strings"
)

func init() {
	reg("C22", "static effect analysis of the registration commands: dominance of validation, case analysis of conflicts, order of reporting and removal",
		"Every change of registration state in the command that registers views: it lies behind a completed validation loop over all views of the command, and behind the absence of a view of that name; the answer is an error exactly when a view was invalid or conflicting. Every change in the command that unregisters: reports come first, and everything known of the view is removed.", ruleC22)
}

// changes of registration state: maps of the worker and of measures, the
// subscription flag and the collected rows.
func (n *statN) changes(c *Ctx, r *Run) []*Effect {
	var out []*Effect
	for _, ef := range r.Effects {
		switch ef.Kind {
		case "mapupdate", "delete":
			f := c.mapField(ef.Addr)
			if f != nil && n.fields[f] != "" && f != n.meas {
				out = append(out, ef)
			}
		case "store":
			f := addrField(ef.Addr)
			if f != nil && n.fields[f] != "" && !isFresh(rootOf(ef.Addr)) {
				out = append(out, ef)
			}
		case "call":
			if strings.HasPrefix(ef.Name, "sync/atomic.Store") && len(ef.Args) == 2 {
				if f := addrField(ef.Args[0]); f != nil && n.fields[f] != "" {
					out = append(out, ef)
				}
			}
		}
	}
	return out
}

// mapField is the field the map is loaded from (nil for others).
func (c *Ctx) mapField(m *Term) *types.Var {
	for _, x := range leaves(m) {
		if x != nil && (x.Op == "ld" || x.Op == "loopmem") {
			if f := addrField(x.Args[0]); f != nil {
				return f
			}
		}
	}
	return nil
}

func ruleC22(c *Ctx) {
	n := c.statn()
	if c.failed() {
		return
	}
	pkg := "stats/view"
	vName, vMeas, vAgg, vKeys := c.field(pkg, "View", "Name"), c.field(pkg, "View", "Measure"), c.field(pkg, "View", "Aggregation"), c.field(pkg, "View", "TagKeys")
	aType, aBuckets := c.field(pkg, "Aggregation", "Type"), c.field(pkg, "Aggregation", "Buckets")
	viView, sub, coll := c.field(pkg, "viewInternal", "view"), c.field(pkg, "viewInternal", "subscribed"), c.field(pkg, "viewInternal", "collector")
	colA := c.field(pkg, "collector", "a")
	startT := c.field(pkg, "worker", "viewStartTimes")
	if c.failed() {
		return
	}
	isSub := func(ef *Effect, v int64) bool {
		if ef.Kind == "call" {
			return addrField(ef.Args[0]) == sub && constInt(ef.Args[1], v)
		}
		return ef.Kind == "store" && addrField(ef.Addr) == sub && constInt(ef.Val, v)
	}
	opaque := notInline(c.W.fn(pkg, "(*collector).collectedRows"))
	nreg, nunreg := 0, 0
	for _, h := range n.handlers {
		o := c.stdLoads()
		o.Inline = opaque
		r := c.run(h, o)
		var ups, dels []*Effect
		chs := n.changes(c, r)
		for _, ef := range chs {
			if c.mapField(ef.Addr) == n.views && ef.Kind == "mapupdate" {
				ups = append(ups, ef)
			}
			if c.mapField(ef.Addr) == n.views && ef.Kind == "delete" {
				dels = append(dels, ef)
			}
		}
		if len(ups) > 0 {
			nreg++
			c22register(c, n, r, chs, ups, isSub, vName, vMeas, vAgg, vKeys, aType, aBuckets, viView, coll, colA, startT)
		}
		if len(dels) > 0 {
			nunreg++
			c22unregister(c, n, r, chs, dels, isSub, vName, vMeas, viView, coll, sub, startT)
		}
	}
	c.floor("register", "commands that register views", nreg, 1)
	c.floor("unregister", "commands that unregister views", nunreg, 1)
	c22ops(c, n, vName)
}

// isName: the term is the name of the view x or, standing in for an empty one,
// of its measure.
func isMeasureName(t *Term, vMeas *types.Var) bool {
	return isCallTo(t, "invoke (stats.Measure).Name") && contains(t.Args[0], func(x *Term) bool { return isField(x, vMeas, nil) })
}

func c22register(c *Ctx, n *statN, r *Run, chs, ups []*Effect, isSub func(*Effect, int64) bool, vName, vMeas, vAgg, vKeys, aType, aBuckets, viView, coll, colA, startT *types.Var) {
	e := c.E
	cmd := r.param(0)
	overViews := func(l *LoopCtx) bool {
		return l.Kind == "slice" && contains(l.Coll, func(t *Term) bool { return t == cmd })
	}
	mentions := func(t *Term, f *types.Var) bool {
		return contains(t, func(x *Term) bool { return addrField(x) == f || isField(x, f, nil) })
	}
	isElem := func(t *Term, l *LoopCtx) bool {
		return contains(t, func(x *Term) bool { return isElemOf(x, l) })
	}
	nilAtoms := func(l *LoopCtx, f *types.Var, b BDD) []BDD {
		return e.atomsIn(func(a *Term) bool {
			return a.Op == "eq" && a.Args[1].Op == "nil" && isField(a.Args[0], f, nil) && isElem(a.Args[0], l)
		}, b)
	}
	nameOf := func(t *Term, l *LoopCtx) bool {
		if !isElem(t, l) {
			return false
		}
		for _, x := range leaves(t) {
			if !(isField(x, vName, nil) || isMeasureName(x, vMeas)) {
				return false
			}
		}
		return true
	}
	reqs := []struct {
		what, key string
		p         func(l *LoopCtx, b BDD) bool
	}{
		{"has a measure", "measure", func(l *LoopCtx, b BDD) bool {
			for _, a := range nilAtoms(l, vMeas, b) {
				if e.decide(b, e.not(a)) == 1 {
					return true
				}
			}
			return false
		}},
		{"has an aggregation", "aggregation", func(l *LoopCtx, b BDD) bool {
			for _, a := range nilAtoms(l, vAgg, b) {
				if e.decide(b, e.not(a)) == 1 {
					return true
				}
			}
			return false
		}},
		{"has a known type of measure", "measure-type", func(l *LoopCtx, b BDD) bool {
			return e.decide(b, e.any(e.atomsIn(func(a *Term) bool {
				return a.Op == "isT" && isField(a.Args[0], vMeas, nil) && isElem(a.Args[0], l)
			}, b)...)) == 1
		}},
		{"has a known type of aggregation", "aggregation-type", func(l *LoopCtx, b BDD) bool {
			return e.decide(b, e.any(e.atomsIn(func(a *Term) bool {
				if a.Op != "eq" || !isField(a.Args[0], aType, nil) || !isElem(a.Args[0], l) {
					return false
				}
				k, ok := a.Args[1].intVal()
				return ok && k >= 1 && k <= 4
			}, b)...)) == 1
		}},
		{"has a name of at most 255 bytes", "name-length", func(l *LoopCtx, b BDD) bool {
			return e.decide(b, e.any(e.atomsIn(func(a *Term) bool {
				if a.Op != "le" || a.Args[0].Op != "len" || !nameOf(a.Args[0].Args[0], l) {
					return false
				}
				k, ok := a.Args[1].intVal()
				return ok && k >= 1 && k <= 255
			}, b)...)) == 1
		}},
		{"has a printable name", "name-printable", func(l *LoopCtx, b BDD) bool {
			return e.forallLoop(r, b, func(in *LoopCtx) bool {
				return in.Kind == "string" && nameOf(in.Coll, l)
			}, func(in *LoopCtx, bb BDD) bool {
				lo, hi := false, false
				for _, a := range e.atomsOf(bb) {
					if a.Op != "le" {
						continue
					}
					if !contains(a, func(t *Term) bool { return isElemOf(t, in) || t.Op == "rval" && t.Args[0] == in.Coll }) {
						continue
					}
					// c <= 126, and not c <= 31 in either form
					x := a.Args[0]
					if k, ok := a.Args[1].intVal(); ok {
						lx := e.toLin(x)
						if len(lx.co) != 1 {
							continue
						}
						for _, co := range lx.co {
							k -= lx.k
							pos, neg := e.decide(bb, e.atom(a)) == 1, e.decide(bb, e.not(e.atom(a))) == 1
							switch {
							case co == 1 && pos:
								hi = hi || k <= 126
							case co == 1 && neg:
								lo = lo || k >= 31
							case co == -1 && pos:
								lo = lo || -k >= 32
							case co == -1 && neg:
								hi = hi || -k <= 127
							}
						}
					}
				}
				return lo && hi
			}) != nil
		}},
		{"has no negative bucket bounds", "bounds", func(l *LoopCtx, b BDD) bool {
			return e.forallLoop(r, b, func(in *LoopCtx) bool {
				return in.Kind == "slice" && mentions(in.Coll, aBuckets) && isElem(in.Coll, l)
			}, func(in *LoopCtx, bb BDD) bool {
				for _, a := range e.atomsOf(bb) {
					if len(a.Args) < 2 {
						continue
					}
					if !isElemOf(a.Args[0], in) && (len(a.Args) < 2 || !isElemOf(a.Args[1], in)) {
						continue
					}
					if a.Op == "flt" && isElemOf(a.Args[0], in) && isZeroConst(a.Args[1]) && e.decide(bb, e.not(e.atom(a))) == 1 {
						return true
					}
					if a.Op == "fle" && isElemOf(a.Args[1], in) && isZeroConst(a.Args[0]) && e.decide(bb, e.atom(a)) == 1 {
						return true
					}
				}
				return false
			}) != nil
		}},
	}
	// every change is behind the validation of all views
	var vals []*LoopCtx
	for _, ef := range chs {
		for _, q := range reqs {
			l := e.forallLoop(r, ef.PC, func(l *LoopCtx) bool {
				if !overViews(l) {
					return false
				}
				for _, x := range ef.Loops {
					if x == l {
						return false
					}
				}
				return true
			}, q.p)
			c.need(l != nil, "validate", q.key, c.pos(ef), "a view is registered before it is known that every view of the call %s", q.what)
			if l != nil && len(l.early) > 0 {
				vals = append(vals, l)
			}
		}
	}
	if c.failed() {
		return
	}
	// the registration of each view
	for _, u := range ups {
		p := c.pos(u)
		var l *LoopCtx
		for _, x := range u.Loops {
			if overViews(x) {
				l = x
			}
		}
		if !c.need(l != nil && l.Full && e.loopDone(l), "register", "all", p, "not every view of a call is registered") {
			continue
		}
		vi := u.Val
		if !c.need(isFresh(vi), "register", "fresh", p, "a view is registered as %s", c.S(vi)) {
			continue
		}
		v := r.at(u, e.fa(vi, viView))
		c.need(v != nil && isElemOf(v, l), "register", "view", p, "the view registered is %s", c.S(v))
		c.need(isField(u.Key, vName, nil) && isElem(u.Key, l), "register", "name", p, "a view is registered under %s", c.S(u.Key))
		co := r.at(u, e.fa(vi, coll))
		if c.need(co != nil && isFresh(co), "register", "collector", p, "a new view collects into %s", c.S(co)) {
			a, sg := r.at(u, e.fa(co, colA)), r.at(u, e.fa(co, n.sigs))
			c.need(a != nil && isField(a, vAgg, nil) && isElem(a, l), "register", "aggregation", p, "a new view aggregates by %s", c.S(a))
			c.need(sg != nil && isFresh(sg) && len(r.where("mapupdate", func(x *Effect) bool { return x.Addr == sg })) == 0, "register", "empty", p, "a new view starts with the rows %s", c.S(sg))
		}
		// only if there is none of that name
		has := e.atomsIn(func(a *Term) bool {
			return a.Op == "mapok" && c.mapField(a.Args[0]) == n.views && isElem(a.Args[1], l)
		}, u.PC)
		okN := false
		for _, x := range has {
			okN = okN || e.decide(u.PC, e.not(x)) == 1
		}
		for _, x := range e.atomsIn(func(a *Term) bool {
			return a.Op == "eq" && a.Args[1].Op == "nil" && contains(a.Args[0], func(t *Term) bool {
				return t.Op == "mapval" && c.mapField(t.Args[0]) == n.views && isElem(t.Args[1], l)
			})
		}, u.PC) {
			okN = okN || e.decide(u.PC, x) == 1
		}
		c.need(okN, "conflict", "replace", p, "a view can replace a registered view of the same name")
		// the measure refers to it, and it has a start time
		okR, okS := False, False
		for _, m := range chs {
			if m.Kind != "mapupdate" || m.Key != vi {
				continue
			}
			switch c.mapField(m.Addr) {
			case startT:
				okS = e.any(okS, m.PC)
			}
			if anyLeaf(m.Addr, func(t *Term) bool {
				return isField(t, n.refs, nil) && contains(t, func(x *Term) bool {
					return x.Op == "mapval" && c.mapField(x.Args[0]) == n.meas && isMeasureName(x.Args[1], vMeas) && isElem(x.Args[1], l)
				})
			}) {
				okR = e.any(okR, m.PC)
			}
		}
		c.need(e.implies(u.PC, okR), "register", "measure", p, "the measure of a registered view does not feed it")
		c.need(e.implies(u.PC, okS), "register", "start", p, "a registered view has no start time")
		// the changes of an iteration under an existing name
		for _, ef := range chs {
			in := false
			for _, x := range ef.Loops {
				in = in || x == l
			}
			if !c.need(in, "register", "outside", c.pos(ef), "registration state changes outside the loop over the views") {
				continue
			}
			has := has
			has = append(has, e.atomsIn(func(a *Term) bool {
				return a.Op == "mapok" && c.mapField(a.Args[0]) == n.views && isElem(a.Args[1], l)
			}, ef.PC)...)
			for _, hs := range has {
				old := e.all(ef.PC, hs)
				if e.decide(old, False) == 1 {
					continue
				}
				if !c.need(isSub(ef, 1), "conflict", "untouched", c.pos(ef), "registering under an existing name changes %s", c.S(ef.Addr)) {
					continue
				}
				c22same(c, n, r, ef, l, old, vMeas, vKeys, aType, aBuckets, viView)
			}
		}
	}
	// the answer
	ch := replyChans(r.Root.fn)
	if len(ch) != 1 {
		c.bad("answer", "channel", c.fpos(r), "the command has %d reply channels", len(ch))
		return
	}
	for _, s := range r.where("send", func(ef *Effect) bool { return isField(ef.Addr, ch[0], cmd) }) {
		p := c.pos(s)
		inval := False
		for _, l := range vals {
			inval = e.any(inval, e.any(l.early...))
		}
		for _, g := range e.cases(s.Val) {
			pc := e.all(s.PC, g.C)
			if e.decide(pc, False) == 1 {
				continue
			}
			isNil := g.T.Op == "nil"
			if e.decide(pc, inval) == 1 {
				// after invalid views: an error in every case
				if isNil {
					if e.provable(r, pc, False) {
						continue
					}
					// nil only in cases the early exit excludes
					if c22excluded(e, pc, vals) {
						continue
					}
					c.bad("answer", "invalid", p, "registering an invalid view can be answered without an error (if %s)", c.P(pc))
				} else {
					c.need(c.isError(g.T), "answer", "invalid", p, "registering an invalid view is answered by %s", c.S(g.T))
				}
				continue
			}
			if !c.need(e.decide(pc, e.not(inval)) == 1, "answer", "mixed", p, "the answer %s does not depend on the validity of the views", c.S(g.T)) {
				continue
			}
			// the record of conflicts
			lp, zero := c22record(e, r, pc, func(l *LoopCtx) bool {
				for _, u := range ups {
					for _, x := range u.Loops {
						if x == l {
							return true
						}
					}
				}
				return false
			})
			if !c.need(lp != nil, "answer", "conflict", p, "the answer %s does not depend on conflicts", c.S(g.T)) {
				continue
			}
			if isNil {
				c.need(e.decide(pc, zero) == 1, "answer", "conflict", p, "conflicts are answered without an error")
			} else {
				c.need(c.isError(g.T) && e.decide(pc, e.not(zero)) == 1, "answer", "ok", p, "views without conflict are answered by an error")
			}
			// recorded exactly on conflict
			init := lp.Init.Op == "nil" || e.decide(True, e.eq(e.length(lp.Init), e.mkInt(0, types.Typ[types.Int]))) == 1
			c.need(init, "answer", "record", p, "the record of conflicts starts as %s", c.S(lp.Init))
			for i, b := range lp.Back {
				for _, bg := range e.cases(b) {
					bpc := e.all(lp.BPC[i], bg.C)
					if e.decide(bpc, False) == 1 {
						continue
					}
					subd := False
					for _, x := range chs {
						if isSub(x, 1) {
							subd = e.any(subd, x.PC)
						}
					}
					if bg.T == lp.Term {
						c.need(e.implies(bpc, subd), "answer", "unrecorded", p, "a view that is not subscribed is not recorded as an error")
					} else {
						grown := bg.T.Op == "append" && len(bg.T.Args) > 1 && bg.T.Args[0] == lp.Term || c.isError(bg.T)
						c.need(grown && e.decide(e.all(bpc, subd), False) == 1, "answer", "recorded", p, "the record of conflicts becomes %s", c.S(bg.T))
					}
				}
			}
		}
	}
}

// c22excluded: the condition contradicts having left a validation loop early.
func c22excluded(e *Eng, pc BDD, vals []*LoopCtx) bool {
	seen := map[*LoopCtx]bool{}
	for _, l := range vals {
		if seen[l] {
			continue
		}
		seen[l] = true
		all := true
		for _, av := range l.early {
			if e.decide(e.all(pc, e.rawOf(av)), False) != 1 && e.decide(pc, e.not(av)) != 1 {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// isError: a value that is never nil.
func (c *Ctx) isError(t *Term) bool {
	t = unif(t)
	switch {
	case isCallTo(t, "fmt.Errorf"), isCallTo(t, "errors.New"), isFresh(t):
		return true
	case t.Op == "ld" && t.Args[0].Op == "global":
		return true // an error variable
	case t.Op == "const", t.Op == "struct":
		return true
	}
	return false
}

// c22record finds the loop variable the condition depends on and the
// condition under which it is empty.
func c22record(e *Eng, r *Run, pc BDD, over func(*LoopCtx) bool) (*LoopPhi, BDD) {
	for _, lp := range r.loopVars() {
		if !over(lp.L) || lp.Term == nil {
			continue
		}
		for _, a := range e.atomsOf(pc) {
			if !contains(a, func(t *Term) bool { return t == lp.Term }) {
				continue
			}
			if _, ok := lp.Term.T.Underlying().(*types.Slice); ok {
				return lp, e.leq(e.length(lp.Term), e.mkInt(0, types.Typ[types.Int]))
			}
			return lp, e.isNil(lp.Term)
		}
	}
	return nil, False
}

// c22same: the condition implies that the registered view equals the new one.
func c22same(c *Ctx, n *statN, r *Run, ef *Effect, l *LoopCtx, old BDD, vMeas, vKeys, aType, aBuckets, viView *types.Var) {
	e := c.E
	isOld := func(t *Term) bool {
		return contains(t, func(x *Term) bool { return x.Op == "mapval" && c.mapField(x.Args[0]) == n.views })
	}
	isNew := func(t *Term) bool { return contains(t, func(x *Term) bool { return isElemOf(x, l) }) && !isOld(t) }
	two := func(a *Term, is func(*Term) bool) bool {
		if a.Op != "eq" {
			return false
		}
		x, y := a.Args[0], a.Args[1]
		if y.isConst() {
			// numbers are compared by their difference
			d := e.toLin(x)
			if k, ok := y.intVal(); !ok || k != d.k || len(d.co) != 2 {
				return false
			}
			ks := d.keys()
			x, y = ks[0], ks[1]
			if d.co[x]+d.co[y] != 0 || d.co[x] != 1 && d.co[x] != -1 {
				return false
			}
		}
		return is(x) && is(y) && (isOld(x) && isNew(y) || isOld(y) && isNew(x))
	}
	ident := e.any(e.atomsIn(func(a *Term) bool {
		return two(a, func(t *Term) bool { return isField(t, viView, nil) || isElemOf(t, l) })
	}, old)...)
	rest := e.all(old, e.not(ident))
	if e.decide(rest, False) == 1 {
		return
	}
	p := c.pos(ef)
	req := func(key, what string, is func(*Term) bool) {
		ok := false
		for _, a := range e.atomsIn(func(a *Term) bool { return two(a, is) }, rest) {
			ok = ok || e.decide(rest, a) == 1
		}
		c.need(ok, "same", key, p, "a view with %s is taken for the registered one", what)
	}
	req("measure", "another measure", func(t *Term) bool { return isMeasureName(t, vMeas) })
	// the aggregations are one, or alike
	one := e.any(e.atomsIn(func(a *Term) bool {
		return two(a, func(t *Term) bool {
			_, ok := t.T.Underlying().(*types.Pointer)
			return ok && typeIs(t.T, "Aggregation")
		})
	}, rest)...)
	rest0 := rest
	rest = e.all(rest, e.not(one))
	elems := func(key, what string, f *types.Var) {
		l2 := e.forallLoop(r, rest, func(in *LoopCtx) bool {
			return in.Kind == "slice" && isField(in.Coll, f, nil)
		}, func(in *LoopCtx, bb BDD) bool {
			for _, a := range e.atomsOf(bb) {
				if (a.Op == "eq" || a.Op == "feq") && e.decide(bb, e.atom(a)) == 1 && (isOld(a.Args[0]) && isNew(a.Args[1]) || isOld(a.Args[1]) && isNew(a.Args[0])) &&
					contains(a, func(t *Term) bool { return isField(t, f, nil) }) {
					return true
				}
			}
			return false
		})
		deep := false
		for _, a := range e.atomsOf(rest) {
			if isCallTo(a, "reflect.DeepEqual") && contains(a, func(t *Term) bool { return isField(t, f, nil) }) && e.decide(rest, e.atom(a)) == 1 {
				deep = true
			}
		}
		c.need(l2 != nil || deep, "same", key, p, "a view with %s is taken for the registered one", what)
		// the lengths agree
		okL := deep
		for _, a := range e.atomsOf(rest) {
			if a.Op == "eq" || a.Op == "le" {
				ls := 0
				contains(a, func(t *Term) bool {
					if t.Op == "len" && isField(t.Args[0], f, nil) {
						ls++
					}
					return false
				})
				if ls >= 2 && a.Op == "eq" && e.decide(rest, e.atom(a)) == 1 {
					okL = true
				}
			}
		}
		c.need(okL, "same", key+"-count", p, "a view with more or fewer of them than the registered one is taken for it (%s)", what)
	}
	if e.decide(rest, False) != 1 {
		req("type", "another type of aggregation", func(t *Term) bool { return isField(t, aType, nil) })
		elems("bounds", "other bucket bounds", aBuckets)
	}
	rest = rest0
	elems("keys", "other tag keys", vKeys)
}

func c22unregister(c *Ctx, n *statN, r *Run, chs, dels []*Effect, isSub func(*Effect, int64) bool, vName, vMeas, viView, coll, sub, startT *types.Var) {
	e := c.E
	cmd := r.param(0)
	dV, dR := c.field("stats/view", "Data", "View"), c.field("stats/view", "Data", "Rows")
	exF := c.field("stats/view", "worker", "exporters")
	if c.failed() {
		return
	}
	for _, d := range dels {
		p := c.pos(d)
		var l *LoopCtx
		for _, x := range d.Loops {
			if x.Kind == "slice" && contains(x.Coll, func(t *Term) bool { return t == cmd }) {
				l = x
			}
		}
		if !c.need(l != nil && l.Full && e.loopDone(l), "unregister", "all", p, "not every view of a call is unregistered") {
			continue
		}
		isVi := func(t *Term) bool {
			return t.Op == "mapval" && c.mapField(t.Args[0]) == n.views && isElemOf(t.Args[1], l)
		}
		hasVi := func(t *Term) bool { return contains(t, isVi) }
		c.need(isElemOf(d.Key, l) || isField(d.Key, vName, nil) && hasVi(d.Key), "unregister", "name", p, "the view unregistered is %s", c.S(d.Key))
		has := e.any(e.atomsIn(func(a *Term) bool {
			return a.Op == "mapok" && c.mapField(a.Args[0]) == n.views && isElemOf(a.Args[1], l)
		}, d.PC, e.any(l.BackPC...))...)
		nilv := e.any(e.atomsIn(func(a *Term) bool {
			return a.Op == "eq" && a.Args[1].Op == "nil" && isVi(a.Args[0])
		}, d.PC, e.any(l.BackPC...))...)
		known := has
		if has == False {
			known = e.not(nilv)
		}
		cov := e.all(e.any(l.BackPC...), known)
		c.need(e.implies(cov, d.PC), "unregister", "kept", p, "a registered view can stay registered")
		at := func(key, what string, ok func(*Effect) bool) {
			b := False
			for _, ef := range chs {
				if ok(ef) {
					b = e.any(b, ef.PC)
				}
			}
			// under the same conditions, except that there be something to remove
			left := e.all(d.PC, e.not(b))
			if e.decide(left, False) == 1 {
				return
			}
			// tolerate absence of the container
			for _, a := range e.atomsOf(left) {
				if a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "mapval" && e.decide(left, e.atom(a)) == 1 && !isVi(a.Args[0]) {
					return
				}
				if a.Op == "mapok" && c.mapField(a.Args[0]) != n.views && e.decide(left, e.not(e.atom(a))) == 1 {
					return
				}
			}
			c.bad("unregister", key, p, "an unregistered view %s", what)
		}
		// the measure no longer feeds it
		at("measure", "is still fed by its measure", func(ef *Effect) bool {
			return ef.Kind == "delete" && isVi(ef.Key) && anyLeaf(ef.Addr, func(t *Term) bool {
				return isField(t, n.refs, nil) && contains(t, func(x *Term) bool {
					return x.Op == "mapval" && c.mapField(x.Args[0]) == n.meas && isMeasureName(x.Args[1], vMeas) && hasVi(x.Args[1])
				})
			})
		})
		at("subscribed", "stays subscribed", func(ef *Effect) bool {
			if !isSub(ef, 0) {
				return false
			}
			a := ef.Addr
			if ef.Kind == "call" {
				a = ef.Args[0]
			}
			return hasVi(a)
		})
		// its data is reported first, to every exporter
		var rep []*Effect
		cov = False
		for _, x := range r.where("call", func(ef *Effect) bool { return strings.HasSuffix(ef.Name, ".ExportView") }) {
			var lx *LoopCtx
			for _, y := range x.Loops {
				if y != l && y.Kind == "map" && isField(y.Coll, exF, nil) {
					lx = y
				}
			}
			if !c.need(lx != nil && e.loopDone(lx) && e.everyIter(x, lx) && isKeyOf(x.Args[0], lx), "report", "all", c.pos(x), "not every exporter gets the data of an unregistered view") {
				continue
			}
			data := x.Args[len(x.Args)-1]
			v, rows := r.at(x, e.fa(data, dV)), r.at(x, e.fa(data, dR))
			c.need(v != nil && isField(v, viView, nil) && hasVi(v), "report", "view", c.pos(x), "an unregistered view is reported as %s", c.S(v))
			c.need(rows != nil && contains(rows, func(t *Term) bool { return isField(t, coll, nil) && hasVi(t) }), "report", "rows", c.pos(x), "the rows reported for an unregistered view are %s", c.S(rows))
			rep = append(rep, x)
			cov = e.any(cov, e.forget(x.PC, func(t *Term) bool { return t.Op == "more" }))
		}
		if !c.need(len(rep) > 0, "report", "none", p, "the data of a view is dropped without a report when it is unregistered") {
			continue
		}
		// every subscribed view is reported
		subAt := e.any(e.atomsIn(func(a *Term) bool {
			return a.Op == "eq" && contains(a.Args[0], func(t *Term) bool { return isField(t, sub, nil) || addrField(t) == sub })
		}, cov)...)
		if subAt == False {
			subAt = True
		}
		c.need(e.implies(e.all(d.PC, subAt), cov), "report", "skipped", p, "a subscribed view can be unregistered without a report")
		for _, x := range rep {
			for _, ef := range chs {
				c.need(ef.Seq > x.Seq || e.decide(e.all(ef.PC, x.PC), False) == 1, "report", "order", c.pos(ef), "a view is removed before its data is reported")
			}
		}
		// rows are collected before anything is cleared
		for _, cr := range r.calls("(*stats/view.collector).collectedRows") {
			for _, ef := range chs {
				c.need(ef.Seq > cr.Seq, "report", "cleared", c.pos(ef), "the data of a view is cleared before it is reported")
			}
		}
	}
}

// c22ops: the operations pass on what they are given, and the answer back.
func c22ops(c *Ctx, n *statN, vName *types.Var) {
	e := c.E
	reg := c.go1("stats/view", "(*worker).Register")
	if reg != nil && len(reg.Rets) == 1 {
		for _, g := range e.cases(reg.Rets[0]) {
			if e.decide(e.all(g.C, reg.Final.pc), False) == 1 {
				continue
			}
			ok := c.isError(g.T) || g.T.Op == "ext" || g.T.Op == "recv" || contains(g.T, func(t *Term) bool { return t.Op == "select" || t.Op == "recv" })
			c.need(ok, "operation", "register", c.fpos(reg), "Register returns %s", c.S(g.T))
		}
		ok := false
		for _, s := range reg.where("send", func(ef *Effect) bool { return isField(ef.Addr, n.cF, nil) }) {
			cmd := unif(s.Val)
			if isFresh(cmd) {
				if st, k := deref(cmd.T).Underlying().(*types.Struct); k {
					for i := 0; i < st.NumFields(); i++ {
						ok = ok || reg.at(s, e.fa(cmd, st.Field(i))) == reg.param(1)
					}
				}
			}
		}
		c.need(ok, "operation", "register-views", c.fpos(reg), "Register does not pass on the views")
	}
	un := c.go1("stats/view", "(*worker).Unregister")
	if un != nil {
		ok := false
		for _, s := range un.where("send", func(ef *Effect) bool { return isField(ef.Addr, n.cF, nil) }) {
			ok = ok || e.implies(True, s.PC) || s.Name == "select"
		}
		c.need(ok, "operation", "unregister", c.fpos(un), "Unregister can return without asking for anything")
		// the names of all views
		okN := 0
		for _, l := range un.Loops {
			if l.Kind == "slice" && l.Coll == un.param(1) && e.loopDone(l) {
				for _, st := range un.where("store", func(ef *Effect) bool {
					return isField(ef.Val, vName, nil) && contains(ef.Val, func(t *Term) bool { return isElemOf(t, l) })
				}) {
					if e.everyIter(st, l) {
						okN++
					}
				}
				for _, lp := range un.loopVars() {
					if lp.L == l && len(lp.Back) == 1 && lp.Back[0].Op == "append" && len(lp.Back[0].Args) == 2 && isField(lp.Back[0].Args[1], vName, nil) {
						okN++
					}
				}
			}
		}
		c.need(okN > 0, "operation", "unregister-names", c.fpos(un), "Unregister does not pass on the names of all views")
	}
}
