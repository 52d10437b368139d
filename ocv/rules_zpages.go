package main

import (
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C35", "static path analysis of the debug pages: the statistic each view feeds, lockset of the page state, latency table and queries compared with the span store",
		"Every path of the exporter of the RPC page for every view it subscribes to and every kind of data; every access to the page's state and the locks held; every path from a page request to the span store, for every type and subtype of query.", ruleC35)
}

const zp = "zpages"

// rpcViews: what each RPC view feeds.
var rpcViews = map[string]struct {
	recv bool
	stat string // statistics fed, space separated
}{
	"ClientCompletedRPCsView":          {false, "ErrorsTotal"},
	"ClientSentBytesPerRPCView":        {false, "OutputRateTotal"},
	"ClientSentMessagesPerRPCView":     {false, "CountTotal RPCRateTotal"},
	"ClientReceivedBytesPerRPCView":    {false, "InputRateTotal"},
	"ClientReceivedMessagesPerRPCView": {false, ""},
	"ClientRoundtripLatencyView":       {false, "AvgLatencyTotal"},
	"ServerCompletedRPCsView":          {true, "ErrorsTotal"},
	"ServerReceivedBytesPerRPCView":    {true, "InputRateTotal"},
	"ServerReceivedMessagesPerRPCView": {true, "CountTotal RPCRateTotal"},
	"ServerSentBytesPerRPCView":        {true, "OutputRateTotal"},
	"ServerSentMessagesPerRPCView":     {true, ""},
	"ServerLatencyView":                {true, "AvgLatencyTotal"},
}

// loadOfGlobal: t is the value of a package-level variable.
func loadOfGlobal(t *Term) *ssa.Global {
	if t != nil && t.Op == "ld" && t.Args[0].Op == "global" {
		g, _ := t.Args[0].Obj.(*ssa.Global)
		return g
	}
	return nil
}

func isGlobal(t *Term, pkg, nm string) bool {
	g := loadOfGlobal(t)
	if t != nil && t.Op == "global" {
		g, _ = t.Obj.(*ssa.Global)
	}
	return g != nil && g.Name() == nm && g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/"+pkg
}

// condsIn lists the conditions a value depends on.
func condsIn(ts ...*Term) []BDD {
	var bs []BDD
	for _, t := range ts {
		contains(t, func(x *Term) bool {
			if b, ok := x.Obj.(BDD); ok {
				bs = append(bs, b)
			}
			return false
		})
	}
	return bs
}

func ruleC35(c *Ctx) {
	c35stats(c)
	if len(c.Violations) == 0 {
		c35pages(c)
	}
	c35latency(c)
	c35summary(c)
}

func c35stats(c *Ctx) {
	e := c.E
	fx := c.fn(zp, "(snapExporter).ExportView")
	gvt, gs, gmu := c.W.global(zp, "viewType"), c.W.global(zp, "snaps"), c.W.global(zp, "mu")
	vf, df, rf := c.field("stats/view", "Data", "View"), c.field("stats/view", "Row", "Data"), c.field("stats/view", "Data", "Rows")
	if c.failed() || !c.need(gvt != nil && gs != nil && gmu != nil, "anchor", "globals", "-", "the page's tables are gone: the property is undecided") {
		return
	}
	keys, vals, ok := c.constMap(gvt)
	if !c.need(ok, "views", "table", "-", "the table of views is not fixed by initialisation") {
		return
	}
	table := map[string]*Term{}
	for i, k := range keys {
		if g := loadOfGlobal(k); g != nil {
			table[g.Name()] = vals[i]
		}
	}
	o := c.only(zp)
	r := c.run(fx, o)
	p := c.fpos(r)
	isStat := map[*types.Var]bool{}
	if st := c.W.typ(zp, "statSnapshot"); st != nil {
		s := st.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			isStat[s.Field(i)] = true
		}
	}
	if !c.need(len(isStat) > 10, "anchor", "statSnapshot", "-", "the row of statistics is gone: the property is undecided") {
		return
	}
	ident := map[string]bool{"Method": true, "Received": true}
	var stores, inserts []*Effect
	var bs []BDD
	for _, ef := range r.Effects {
		bs = append(bs, ef.PC)
		bs = append(bs, condsIn(ef.Val, ef.Addr, ef.Key)...)
		if ef.Kind == "store" && isStat[addrField(ef.Addr)] {
			stores = append(stores, ef)
		}
		if ef.Kind == "mapupdate" && loadOfGlobal(ef.Addr) == gs {
			inserts = append(inserts, ef)
		}
	}
	c.floor("views", "statistics stored", len(stores), 6)
	c.floor("views", "snapshots stored", len(inserts), 1)
	seen := map[*Term]bool{}
	var atoms []*Term
	for _, b := range bs {
		for _, a := range e.atomsOf(b) {
			if !seen[a] {
				seen[a] = true
				atoms = append(atoms, a)
			}
			if a.Op == "exists" {
				if raw, isR := a.Obj.(BDD); isR {
					for _, x := range e.atomsOf(raw) {
						if !seen[x] {
							seen[x] = true
							atoms = append(atoms, x)
						}
					}
				}
			}
		}
	}
	// what is known of a view's data: its identity, direction and kind
	known := func(nm, kind string) BDD {
		k := True
		for _, a := range atoms {
			switch {
			case a.Op == "eq" && len(a.Args) == 2:
				for i := 0; i < 2; i++ {
					if g := loadOfGlobal(a.Args[i]); g != nil && isField(a.Args[1-i], vf, nil) {
						k = e.all(k, e.iff(e.bdd(a), c35b(g.Name() == nm)))
					}
				}
			case a.Op == "mapok" && loadOfGlobal(a.Args[0]) == gvt && isField(a.Args[1], vf, nil):
				k = e.all(k, e.bdd(a))
			case a.Op == "mapval" && loadOfGlobal(a.Args[0]) == gvt && isField(a.Args[1], vf, nil):
				if v := table[nm]; v != nil && v.Op == "bool" {
					k = e.all(k, e.iff(e.bdd(a), v.Obj.(BDD)))
				}
			case a.Op == "fieldof" && a.Args[0].Op == "mapval" && loadOfGlobal(a.Args[0].Args[0]) == gvt:
				if v := table[nm]; v != nil {
					if fv := e.partOf(v, a.Obj.(*types.Var)); fv != nil && fv.Op == "bool" {
						k = e.all(k, e.iff(e.bdd(a), fv.Obj.(BDD)))
					}
				}
			case a.Op == "isT" && contains(a.Args[0], func(x *Term) bool { return isField(x, df, nil) }):
				k = e.all(k, e.iff(e.bdd(a), c35b(strings.HasSuffix(a.Aux, "."+kind))))
			}
		}
		return k
	}
	typed := func(nm string) string {
		if strings.Contains(nm, "Completed") {
			return "CountData"
		}
		return "DistributionData"
	}
	isData := func(t *Term, f, kind string) bool { // a field of the row's data
		t = unconv(t)
		return (t.Op == "ld" || t.Op == "fieldof") && fieldNamed(t, f) && contains(t, func(x *Term) bool { return x.Op == "ta" && strings.HasSuffix(x.Aux, "."+kind) })
	}
	isSum := func(t *Term) bool {
		t = unconv(t)
		if isCallTo(t, "(*stats/view.DistributionData).Sum") {
			return true
		}
		return t.Op == "arith" && t.Aux == "*" && (isData(t.Args[0], "Mean", "DistributionData") && isData(t.Args[1], "Count", "DistributionData") || isData(t.Args[1], "Mean", "DistributionData") && isData(t.Args[0], "Count", "DistributionData"))
	}
	isCount := func(t *Term, kind string) bool {
		if kind == "CountData" {
			return isData(t, "Value", kind)
		}
		return isData(t, "Count", kind)
	}
	sec := func(t *Term) bool { // the age of the process in seconds
		t = unconv(t)
		since := func(t *Term) bool {
			t = unconv(t)
			if isCallTo(t, "time.Since") {
				return contains(t, func(x *Term) bool { return isGlobal(x, zp, "programStartTime") })
			}
			return isCallTo(t, "(time.Time).Sub") && contains(t, func(x *Term) bool { return isGlobal(x, zp, "programStartTime") }) && contains(t, func(x *Term) bool { return isCallTo(x, "time.Now") })
		}
		if isCallTo(t, "(time.Duration).Seconds") {
			return contains(t, since)
		}
		if t.Op == "arith" && t.Aux == "/" && since(t.Args[0]) {
			f, okf := numOf(t.Args[1])
			return okf && f == 1e9
		}
		return false
	}
	rowsLoop := func(ef *Effect) *LoopCtx {
		return loopOver(ef, func(t *Term) bool { return isField(t, rf, nil) })
	}
	for _, nm := range viewNames() {
		w := rpcViews[nm]
		v := table[nm]
		if !c.need(v != nil, "views", nm+":subscribed", p, "%s is not subscribed", nm) {
			continue
		}
		kind := typed(nm)
		k := known(nm, kind)
		side := "Client"
		if w.recv {
			side = "Server"
		}
		fed := map[string]BDD{}
		adds, resets := False, False
		var any1 *Effect
		for _, ef := range stores {
			cc := e.all(ef.PC, k)
			f := addrField(ef.Addr).Name()
			if ident[f] || e.decide(cc, False) == 1 {
				continue
			}
			l := rowsLoop(ef)
			if !c.need(l != nil && c.loopsFull(ef), "views", nm+":rows", c.pos(ef), "%s is not fed from every row of the data", f) {
				continue
			}
			any1 = ef
			if !c.need(strings.Contains(" "+w.stat+" ", " "+f+" "), "views", nm+":"+f, c.pos(ef), "%s feeds %s", nm, f) {
				continue
			}
			// the row's own snapshot
			c35snap(c, r, ef, cc, gs, nm, side, w.recv)
			for _, g := range e.cases(ef.Val) {
				gc := e.all(cc, g.C)
				if e.decide(gc, False) == 1 {
					continue
				}
				x := unconv(g.T)
				good := false
				switch f {
				case "CountTotal":
					good = isCount(x, kind)
				case "RPCRateTotal":
					good = x.Op == "arith" && x.Aux == "/" && c35all(e, x.Args[0], gc, func(t *Term) bool { return isCount(t, kind) }) && c35all(e, x.Args[1], gc, sec)
				case "OutputRateTotal", "InputRateTotal":
					good = x.Op == "arith" && x.Aux == "/" && c35all(e, x.Args[0], gc, isSum) && c35all(e, x.Args[1], gc, sec)
				case "AvgLatencyTotal":
					mean := func(t *Term) bool {
						t = unconv(t)
						return isData(t, "Mean", kind) || t.Op == "arith" && t.Aux == "/" && isSum(t.Args[0]) && isCount(t.Args[1], kind)
					}
					if n, isn := x.intVal(); isn {
						good = n == 0 && contains2(e, e.all(g.C, ef.PC), func(a *Term) bool {
							return contains(a, func(y *Term) bool {
								return isCallTo(y, "math.IsNaN") || isCallTo(y, "math.IsInf") || strings.HasPrefix(y.Op, "flt") || y.Op == "eq" || y.Op == "lt"
							})
						})
						break
					}
					if x.Op == "arith" && x.Aux == "*" {
						for i := 0; i < 2; i++ {
							f, okf := numOf(x.Args[i])
							good = good || okf && f == 1e6 && c35all(e, x.Args[1-i], gc, mean)
						}
					}
				case "ErrorsTotal":
					if n, isn := x.intVal(); isn && n == 0 {
						good = true
						resets = e.any(resets, gc)
						// at the first row of its method in this export
						first := false
						for _, a := range e.atomsOf(ef.PC) {
							if a.Op == "mapok" && isFresh(rootOf(a.Args[0])) && e.decide(e.all(ef.PC, e.bdd(a)), False) == 1 && c35method(a.Args[1]) {
								for _, up := range r.where("mapupdate", func(u *Effect) bool { return u.Addr == a.Args[0] && u.Key == a.Args[1] }) {
									first = first || e.implies(cc, up.PC)
								}
							}
						}
						for _, a := range e.atomsOf(ef.PC) {
							// a set of booleans
							if a.Op == "mapval" && isBool(a.T) && isFresh(rootOf(a.Args[0])) && e.decide(e.all(ef.PC, e.bdd(a)), False) == 1 && c35method(a.Args[1]) {
								for _, up := range r.where("mapupdate", func(u *Effect) bool { return u.Addr == a.Args[0] && u.Key == a.Args[1] }) {
									first = first || e.implies(cc, up.PC) && e.implies(up.PC, e.bdd(up.Val))
								}
							}
						}
						c.need(first, "errors", nm+":reset", c.pos(ef), "the errors of a method are reset other than once per export")
						for _, a := range stores {
							if addrField(a.Addr) == addrField(ef.Addr) && a != ef && e.decide(e.all(a.PC, k), False) != 1 {
								if n, isn := unconv(a.Val).intVal(); !isn || n != 0 {
									c.need(a.Seq > ef.Seq, "errors", nm+":order", c.pos(ef), "the errors are reset after they were counted")
								}
							}
						}
						break
					}
					good = c35add(c, ef, x, gc, func(t *Term) bool { return isCount(t, kind) })
					// for every tag that carries a failing status
					tl := (*LoopCtx)(nil)
					if len(ef.Loops) > 0 {
						tl = ef.Loops[len(ef.Loops)-1]
					}
					if c.need(tl != nil && tl != l && e.loopDone(tl), "errors", nm+":tags", c.pos(ef), "errors are not counted from every tag of the row") {
						statusKey, notOK, others := false, false, false
						for _, a := range e.atomsOf(e.all(ef.PC, g.C)) {
							pos := e.implies(gc, e.bdd(a))
							neg := e.decide(e.all(gc, e.bdd(a)), False) == 1
							isKey := a.Op == "eq" && contains(a, func(y *Term) bool { return isGlobal(y, "plugin/ocgrpc", "Key"+side+"Status") })
							isOK := a.Op == "eq" && contains(a, func(y *Term) bool { return y.isConst() && constString(y) == "OK" })
							if isKey && pos {
								statusKey = true
							} else if isOK && neg {
								notOK = true
							} else if a.Op == "eq" && (pos || neg) && contains(a, func(y *Term) bool { return y.Op == "ld" && y.Args[0].Op == "field" && isElemOf(y, tl) }) {
								others = true
							}
						}
						c.need(statusKey && notOK && !others, "errors", nm+":status", c.pos(ef), "errors are counted under %s", c.P(gc))
						// the exact condition within the iteration
						adds = e.any(adds, gc)
					}
				}
				c.need(good, "value", nm+":"+f, c.pos(ef), "%s of %s becomes %s", f, nm, c.S(g.T))
				fed[f] = e.any(fed[f], gc)
			}
		}
		for _, f := range strings.Fields(w.stat) {
			if !c.need(fed[f] != False, "views", nm+":"+f+":missing", p, "%s does not feed %s", nm, f) {
				continue
			}
			if f != "ErrorsTotal" && any1 != nil {
				l := rowsLoop(any1)
				if l != nil {
					some := e.lt(e.mkInt(0, types.Typ[types.Int]), e.length(l.Coll))
					c.need(e.implies(e.all(k, some), l.Entry), "views", nm+":rows", p, "the rows of %s are taken in only if %s", nm, c.P(e.restrict(l.Entry, k)))
					c.need(e.implies(e.all(l.Entry, l.More, k), fed[f]), "views", nm+":"+f+":always", p, "%s feeds %s only if %s", nm, f, c.P(e.restrict(fed[f], k)))
				}
			}
		}
		if strings.Contains(w.stat, "Errors") {
			c.need(resets != False && adds != False, "errors", nm+":both", p, "the errors of %s are not reset and counted", nm)
		}
	}
	// what is stored for a method is its own row
	for _, ef := range inserts {
		c.need(isFresh(rootOf(unif(ef.Val))), "snap", "fresh", c.pos(ef), "the snapshot stored is %s", c.S(ef.Val))
		c.need(lockHeld(ef, e.globalAddr(gmu), 2), "lock", "insert", c.pos(ef), "a snapshot is stored without the lock")
		for f := range isStat {
			var want *Term
			switch f.Name() {
			case "Method":
				want = c35part(e, ef.Key, types.Typ[types.String])
			case "Received":
				want = c35part(e, ef.Key, types.Typ[types.Bool])
			default:
				continue
			}
			got := r.at(ef, e.fa(unif(ef.Val), f))
			c.need(want != nil && e.same(ef.PC, got, want), "snap", f.Name(), c.pos(ef), "a new row has the %s %s", f.Name(), c.S(got))
		}
	}
	// no return before the data is taken in, other than for unknown views and
	// data without rows
	loc := c.globalsOf(zp, isStat, gs, gmu)
	c.checkLockset("lock", loc, c.roots(zp), nil, 10)
}

func c35b(b bool) BDD {
	if b {
		return True
	}
	return False
}

// c35all: every value t can have under cond satisfies p.
func c35all(e *Eng, t *Term, cond BDD, p func(*Term) bool) bool {
	n := 0
	for _, g := range e.cases(t) {
		if e.decide(e.all(cond, g.C), False) == 1 {
			continue
		}
		n++
		x := unconv(g.T)
		if x.Op == "arith" && x != t {
			// resolve the operands as well
			a, b := c35one(e, x.Args[0], e.all(cond, g.C)), c35one(e, x.Args[1], e.all(cond, g.C))
			x = e.mk("arith", x.Aux, x.T, x.Obj, a, b)
		} else if x.Op == "arith" {
			a, b := c35one(e, x.Args[0], cond), c35one(e, x.Args[1], cond)
			x = e.mk("arith", x.Aux, x.T, x.Obj, a, b)
		}
		if !p(x) {
			return false
		}
	}
	return n > 0
}

func c35one(e *Eng, t *Term, cond BDD) *Term {
	var got *Term
	for _, g := range e.cases(t) {
		if e.decide(e.all(cond, g.C), False) == 1 {
			continue
		}
		if got != nil && got != g.T {
			return t
		}
		got = g.T
	}
	if got == nil {
		return t
	}
	return got
}

// c35add: x is the old value of the stored place plus the count.
func c35add(c *Ctx, ef *Effect, x *Term, cond BDD, isCount func(*Term) bool) bool {
	e := c.E
	x = unconv(x)
	var parts []*Term
	d := e.toLin(x)
	for t, k := range d.co {
		if k != 1 || d.k != 0 {
			return false
		}
		parts = append(parts, t)
	}
	if len(parts) != 2 {
		return false
	}
	f := addrField(ef.Addr)
	for i := 0; i < 2; i++ {
		old, n := parts[i], parts[1-i]
		isOld := c35all(e, old, cond, func(t *Term) bool {
			return isField(t, f, nil) || t.Op == "loopmem" && addrField(t.Args[0]) == f || constInt(t, 0)
		})
		if isOld && c35all(e, n, cond, isCount) {
			return true
		}
	}
	return false
}

// c35method: the method tag of the row.
func c35method(t *Term) bool {
	return contains(t, func(x *Term) bool { return (x.Op == "ld" || x.Op == "fieldof") && fieldNamed(x, "Value") })
}

// c35part is the only component of a struct value with the given type.
func c35part(e *Eng, t *Term, typ types.Type) *Term {
	st, ok := t.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var got *Term
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), typ) {
			if got != nil {
				return nil
			}
			got = e.partOf(t, st.Field(i))
		}
	}
	return got
}

// c35snap: the statistic is stored in the snapshot of the row's method and of
// the view's direction.
func c35snap(c *Ctx, r *Run, ef *Effect, cond BDD, gs *ssa.Global, nm, side string, recv bool) {
	e := c.E
	for _, g := range e.cases(ef.Addr) {
		cc := e.all(cond, g.C)
		if e.decide(cc, False) == 1 {
			continue
		}
		var key *Term
		x := g.T.Args[0]
		if x.Op == "mapval" && loadOfGlobal(x.Args[0]) == gs {
			key = x.Args[1]
		} else if isFresh(x) {
			for _, up := range r.where("mapupdate", func(u *Effect) bool { return loadOfGlobal(u.Addr) == gs && u.Val == x }) {
				if e.implies(cc, up.PC) && up.Seq < ef.Seq {
					key = up.Key
				}
			}
		}
		if !c.need(key != nil, "snap", nm, c.pos(ef), "%s is stored in %s", addrField(ef.Addr).Name(), c.S(x)) {
			continue
		}
		st, okS := key.T.Underlying().(*types.Struct)
		if !c.need(okS, "snap", nm+":key", c.pos(ef), "the snapshot's key is %s", c.S(key)) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			v := e.partOf(key, st.Field(i))
			if b, isB := st.Field(i).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
				c.need(e.implies(cc, e.iff(e.bdd(v), c35b(recv))), "snap", nm+":direction", c.pos(ef), "%s counts as received RPCs if %s", nm, c.P(e.bdd(v)))
				continue
			}
			found := false
			for _, q := range e.cases(v) {
				qc := e.all(cc, q.C)
				if e.decide(qc, False) == 1 {
					continue
				}
				t := unconv(q.T)
				if t.isConst() && constString(t) == "" {
					continue // no method tag
				}
				isVal := (t.Op == "ld" || t.Op == "fieldof") && fieldNamed(t, "Value")
				keyed := false
				for _, vv := range e.B.Support(qc) {
					raw, isR := e.existsRaw(vv)
					if !isR {
						raw = e.B.Var(vv)
					}
					for _, a := range e.atomsOf(raw) {
						if a.Op == "eq" && contains(a, func(y *Term) bool { return isGlobal(y, "plugin/ocgrpc", "Key"+side+"Method") }) {
							keyed = true
						}
					}
				}
				c.need(isVal && keyed, "snap", nm+":method", c.pos(ef), "the method of a row of %s is %s", nm, c.S(t))
				found = true
			}
			c.need(found, "snap", nm+":method", c.pos(ef), "the method of a row of %s is not known", nm)
		}
	}
}

func (c *Ctx) globalsOf(pkg string, fields map[*types.Var]bool, g, mu *ssa.Global) *lockSpec {
	m := c.E.globalAddr(mu)
	return &lockSpec{what: "the page's state", mu: func(*Term) *Term { return m }, fields: fields, globs: map[*ssa.Global]bool{g: true}}
}

// c35pages: what the page shows.
func c35pages(c *Ctx) {
	e := c.E
	gs, gmu := c.W.global(zp, "snaps"), c.W.global(zp, "mu")
	fg := c.fn(zp, "getStatsPage")
	snap := c.W.typ(zp, "statSnapshot")
	freg, fen := c.fn(zp, "registerRPCViews"), c.fn(zp, "Handle")
	if c.failed() {
		return
	}
	_ = freg
	// pages handed to templates and writers are used under the lock
	o := c.only(zp)
	n := 0
	for _, f := range c.roots(zp) {
		r := c.run(f, o)
		for _, ef := range r.where("call", nil) {
			for _, a := range ef.Args {
				if a == nil || a.T == nil {
					continue
				}
				x := unif(a)
				if x.T != nil && c35reaches(x.T, snap, 0) {
					n++
					c.need(lockHeld(ef, e.globalAddr(gmu), 1), "lock", name(r)+":"+ef.Name, c.pos(ef), "%s uses the page's state without its lock", ef.Name)
				}
			}
		}
	}
	c.floor("lock", "pages handed out", n, 2)
	// grouping
	r := c.run(fg, o)
	p := c.fpos(r)
	if c.need(len(r.Rets) == 1, "page", "result", p, "getStatsPage has %d results", len(r.Rets)) {
		seen := map[string]int{}
		groups := map[string]*Term{}
		snf, df := c.field(zp, "statGroup", "Snapshots"), c.field(zp, "statGroup", "Direction")
		for _, ef := range r.where("store", nil) {
			l := loopOver(ef, func(t *Term) bool { return loadOfGlobal(t) == gs })
			if l == nil || snf == nil || df == nil {
				continue
			}
			for _, g := range e.cases(ef.Addr) {
				cc := e.all(ef.PC, g.C)
				if addrField(g.T) != snf || e.decide(cc, False) == 1 {
					continue
				}
				for _, v := range e.cases(ef.Val) {
					cc := e.all(cc, v.C)
					if e.decide(cc, False) == 1 {
						continue
					}
					dir := "?"
					for _, a := range e.atomsOf(cc) {
						if (a.Op == "fieldof" || a.Op == "ld") && (fieldNamed(a, "received") || fieldNamed(a, "Received")) {
							if e.implies(cc, e.bdd(a)) {
								dir = "Received"
							} else if e.implies(cc, e.not(e.bdd(a))) {
								dir = "Sent"
							}
						}
					}
					c.need(e.loopDone(l), "page", "all", c.pos(ef), "not every snapshot is shown")
					x := e.under(v.T, cc)
					grp := g.T.Args[0]
					own := x.Op == "append" && len(x.Args) == 2 && contains(x.Args[0], func(y *Term) bool { return y.Op == "loopmem" && y.Args[0] == g.T })
					if !c.need(own && isFresh(grp), "page", "group", c.pos(ef), "the snapshots of a group become %s", c.S(x)) {
						continue
					}
					c.need(isElemOf(x.Args[1], l), "page", "element", c.pos(ef), "a group shows %s", c.S(x.Args[1]))
					d := ""
					for _, st := range r.where("store", nil) {
						if addrField(st.Addr) == df && st.Addr.Args[0] == grp {
							d = constString(unif(st.Val))
						} else if st.Addr == grp && isStructT(st.Val.T) {
							d = constString(unif(e.partOf(st.Val, df)))
						}
					}
					groups[d] = grp
					c.need(d == dir, "page", "direction:"+dir, c.pos(ef), "%s RPCs are shown in the group %q", dir, d)
					seen[dir]++
				}
			}
		}
		c.need(seen["Sent"] == 1 && seen["Received"] == 1, "page", "groups", p, "the page groups %v", seen)
		// in the order the pages head them
		sf := c.field(zp, "statsPage", "StatGroups")
		if rets := r.where("return", nil); sf != nil && len(rets) > 0 {
			last := rets[len(rets)-1]
			es, ok := e.elems(r, last, r.final(e.fa(unif(r.Rets[0]), sf)))
			c.need(ok && len(es) == 2 && es[0] == groups["Sent"] && es[1] == groups["Received"], "page", "order", p, "the page's groups are not the RPCs sent and those received")
		}
	}
	c35text(c)
	// subscription
	h := c.run(fen, o)
	reg, exp := false, false
	gvt := c.W.global(zp, "viewType")
	for _, ef := range h.calls("stats/view.Register") {
		reg = true
		x := unif(ef.Args[0])
		listed := false
		if ph := loopPhiOf(h, x); ph != nil {
			l := ph.L
			listed = l.Kind == "map" && loadOfGlobal(l.Coll) == gvt && l.Full && e.loopDone(l) && len(ph.Back) == 1
			for _, a := range h.where("append", func(a *Effect) bool { return a.Args[0] == x }) {
				listed = listed && e.everyIter(a, l)
			}
		} else {
			for _, s := range h.where("store", func(s *Effect) bool {
				return len(s.Loops) > 0 && s.Val.Op == "rkey" && loadOfGlobal(s.Val.Args[0]) == gvt
			}) {
				listed = listed || e.loopDone(s.Loops[len(s.Loops)-1]) && e.everyIter(s, s.Loops[len(s.Loops)-1])
			}
		}
		c.need(listed, "register", "all", c.pos(ef), "the views registered are %s, not all views of the table", c.S(ef.Args[0]))
		c.need(len(ef.Loops) == 0, "register", "once", c.pos(ef), "views are registered one by one")
	}
	for _, ef := range h.calls("stats/view.RegisterExporter") {
		x := unif(ef.Args[0])
		exp = exp || x.T != nil && namedOf(x.T) != nil && namedOf(x.T).Obj().Name() == "snapExporter"
	}
	store := false
	for _, ef := range h.where("store", func(s *Effect) bool { return s.Addr.Op == "global" }) {
		if g := ef.Addr.Obj.(*ssa.Global); g.Name() == "LocalSpanStoreEnabled" {
			store = ef.Val.Op == "bool" && ef.Val.Obj.(BDD) == True
		}
	}
	c.need(reg, "register", "views", c.fpos(h), "Handle does not register the views")
	c.need(exp, "register", "exporter", c.fpos(h), "Handle does not register the exporter of the page")
	c.need(store, "register", "spans", c.fpos(h), "Handle does not enable the span store")
}

func c35reaches(t, want types.Type, depth int) bool {
	if depth > 12 || t == nil {
		return false
	}
	if types.Identical(t, want) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return c35reaches(u.Elem(), want, depth+1)
	case *types.Slice:
		return c35reaches(u.Elem(), want, depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if c35reaches(u.Field(i).Type(), want, depth+1) {
				return true
			}
		}
	}
	return false
}

// c35latency: page queries reach the span store with the bounds and codes they
// stand for.
func c35latency(c *Ctx) {
	e := c.E
	zl, tl := c.W.global(zp, "defaultLatencies"), c.W.global("trace", "defaultLatencies")
	if !c.need(zl != nil && tl != nil, "latency", "tables", "-", "the latency tables are gone: the property is undecided") {
		return
	}
	zt, tt := c.constTable(zl), c.constTable(tl)
	if !c.need(zt != nil && tt != nil, "latency", "constant", "-", "the latency tables are not fixed by initialisation") {
		return
	}
	same := len(zt) == len(tt)
	for i := range zt {
		same = same && zt[i] == tt[i]
	}
	c.need(same, "latency", "equal", c.W.position(zl.Pos()), "the page's latency table is %v, spans are stored by %v", zt, tt)
	o := c.only(zp)
	n := 0
	for _, q := range []string{"tracezHandler", "WriteHTMLTracezSpans", "WriteTextTracezSpans", "WriteHTMLTracezPage"} {
		f := c.fn(zp, q)
		if f == nil {
			return
		}
		r := c.run(f, o)
		nm, ty, sub := (*Term)(nil), (*Term)(nil), (*Term)(nil)
		if q == "tracezHandler" {
			for _, ef := range r.Effects {
				for _, a := range append([]*Term{}, ef.Args...) {
					contains(a, func(x *Term) bool {
						if x.Op == "call" && isCallTo(x, "(net/url.Values).Get") || isCallTo(x, "(*net/http.Request).FormValue") {
							if constString(x.Args[1]) == "zspanname" {
								nm = x
							}
						}
						if x.Op == "ext" && isCallTo(x.Args[0], "strconv.Atoi") && x.Aux == "0" || isCallTo(x, "strconv.Atoi") && x.Op == "ext" {
							key := ""
							contains(x, func(y *Term) bool {
								if isCallTo(y, "(net/url.Values).Get") || isCallTo(y, "(*net/http.Request).FormValue") {
									key = constString(y.Args[1])
								}
								return false
							})
							switch key {
							case "ztype":
								ty = x
							case "zsubtype":
								sub = x
							}
						}
						return false
					})
				}
				for _, a := range e.atomsOf(ef.PC) {
					contains(a, func(x *Term) bool {
						if x.Op == "ext" && contains(x, func(y *Term) bool { return y.isConst() && constString(y) == "ztype" }) {
							ty = x
						}
						return false
					})
				}
			}
		} else {
			nm, ty, sub = r.param(1), r.param(2), r.param(3)
		}
		if !c.need(nm != nil && ty != nil && sub != nil, "query", q, c.fpos(r), "the query of %s is not read from its request", q) {
			continue
		}
		var lat, errs, act []*Effect
		for _, ef := range r.where("call", nil) {
			switch {
			case strings.HasSuffix(ef.Name, ".ReportSpansByLatency"):
				lat = append(lat, ef)
			case strings.HasSuffix(ef.Name, ".ReportSpansByError"):
				errs = append(errs, ef)
			case strings.HasSuffix(ef.Name, ".ReportActiveSpans"):
				act = append(act, ef)
			default:
				continue
			}
			n++
			c.need(len(ef.Args) > 1 && ef.Args[1] == nm, "query", q+":name", c.pos(ef), "spans are looked up by %s", c.S(ef.Args[1]))
		}
		reach := func(efs []*Effect, kind int64, what string) BDD {
			sum := False
			k := e.eq(ty, e.mkInt(kind, ty.T))
			for _, ef := range efs {
				c.need(e.implies(ef.PC, k), "query", q+":"+what+":type", c.pos(ef), "%s spans are queried if %s", what, c.P(ef.PC))
				sum = e.any(sum, ef.PC)
			}
			// the empty name lists nothing
			rest := e.all(k, e.not(sum))
			c.need(sum != False && (e.decide(rest, False) == 1 || e.implies(rest, e.eq(nm, e.mkStr("")))), "query", q+":"+what, c.fpos(r), "%s spans are queried only if %s", what, c.P(sum))
			return k
		}
		reach(act, 0, "active")
		reach(lat, 1, "latency")
		reach(errs, 2, "error")
		for _, ef := range errs {
			c.need(unconv(ef.Args[2]) == unconv(sub), "query", q+":code", c.pos(ef), "errors are queried by the code %s", c.S(ef.Args[2]))
		}
		for _, ef := range lat {
			for k := int64(0); k <= int64(len(tt)); k++ {
				lo, hi := int64(0), int64(math.MaxInt64)
				if k > 0 {
					lo = tt[k-1]
				}
				if k < int64(len(tt)) {
					hi = tt[k]
				}
				cc := e.all(ef.PC, e.eq(sub, e.mkInt(k, sub.T)))
				for i, want := range []int64{lo, hi} {
					got := c.at(ef.Args[2+i], cc, sub, k)
					ok := len(got) > 0
					for _, g := range got {
						v, isn := unconv(g).intVal()
						ok = ok && isn && v == want
					}
					c.need(ok, "query", q+":bounds", c.pos(ef), "bucket %d is queried with %s as its %s", k, c.showAll(got), []string{"lower bound", "upper bound"}[i])
				}
			}
		}
	}
	c.floor("query", "queries of the span store", n, 9)
}

// c35summary: the summary shows what the span store reports.
func c35summary(c *Ctx) {
	e := c.E
	f := c.fn(zp, "getSummaryPageData")
	rt := c.W.typ(zp, "summaryPageRow")
	if c.failed() || !c.need(rt != nil, "anchor", "summary", "-", "the summary's row is gone: the property is undecided") {
		return
	}
	r := c.run(f, c.only(zp))
	p := c.fpos(r)
	isRep := func(t *Term) bool { return strings.HasSuffix(callNameOf(t), ".ReportSpansPerMethod") }
	n := 0
	for _, ef := range r.where("append", func(ef *Effect) bool { return loopOver(ef, isRep) != nil }) {
		es, _ := e.elems(r, ef, ef.Args[1])
		for _, x := range es {
			if x == nil || x.T == nil || !types.Identical(x.T, rt) {
				continue
			}
			n++
			l := loopOver(ef, isRep)
			c.need(len(ef.Loops) == 1 && e.loopDone(l) && e.everyIter(ef, l), "summary", "all", c.pos(ef), "the summary leaves span names out")
			st := rt.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				v := e.partOf(x, st.Field(i))
				switch st.Field(i).Name() {
				case "Name":
					c.need(isKeyOf(v, l), "summary", "Name", c.pos(ef), "a row is named %s", c.S(v))
				case "Active":
					c.need(fieldNamed(v, "Active") && isElemOf(baseOf(v), l), "summary", "Active", c.pos(ef), "a row counts %s active spans", c.S(v))
				case "Errors":
					c35buckets(c, r, v, l, "ErrorBuckets", "Errors", true)
				case "Latency":
					c35buckets(c, r, v, l, "LatencyBuckets", "Latency", false)
				}
			}
		}
	}
	c.need(n == 1, "summary", "rows", p, "the summary adds %d rows for a span name", n)
}

func viewNames() []string {
	var out []string
	for n := range rpcViews {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// numOf is the value of a numeric constant.
func numOf(t *Term) (float64, bool) {
	t = unconv(t)
	v, ok := t.Obj.(constant.Value)
	if t.Op != "const" || !ok || v.Kind() != constant.Int && v.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(v))
	return f, true
}

// c35buckets: v lists (or sums up) the sizes of the buckets of the loop's
// element.
func c35buckets(c *Ctx, r *Run, v *Term, l *LoopCtx, field, what string, sum bool) {
	e := c.E
	p := c.fpos(r)
	size := func(t *Term, k *LoopCtx) bool {
		t = unconv(t)
		return (t.Op == "ld" || t.Op == "fieldof") && fieldNamed(t, "Size") && isElemOf(t, k)
	}
	ph := loopPhiOf(r, v)
	if pe := c.perElem(r, v); !sum && ph == nil && pe != nil {
		over := pe.L.Coll
		c.need((over.Op == "ld" || over.Op == "fieldof") && fieldNamed(over, field) && isElemOf(baseOf(over), l) && e.loopDone(pe.L), "summary", what+":buckets", p, "a row's %s come from %s", what, c.S(over))
		x, ok := pe.El(nil)
		c.need(ok && e.implies(pe.PC, e.allLeavesUnder(x, pe.PC, func(t *Term) bool { return size(t, pe.L) })), "summary", what+":each", p, "a row's %s are %s", what, c.S(x))
		return
	}
	if !c.need(ph != nil && ph.L.Coll != nil, "summary", what, p, "a row's %s are %s", what, c.S(v)) {
		return
	}
	over := ph.L.Coll
	c.need((over.Op == "ld" || over.Op == "fieldof") && fieldNamed(over, field) && isElemOf(baseOf(over), l) && ph.L.Full && e.loopDone(ph.L), "summary", what+":buckets", p, "a row's %s come from %s", what, c.S(over))
	if sum {
		c.need(constInt(ph.Init, 0), "summary", what+":init", p, "a row's %s start at %s", what, c.S(ph.Init))
	} else {
		c.need(constInt(e.length(ph.Init), 0), "summary", what+":init", p, "a row's %s start with %s", what, c.S(ph.Init))
	}
	for i, b := range ph.Back {
		for _, g := range e.cases(b) {
			if e.decide(e.all(ph.BPC[i], g.C), False) == 1 {
				continue
			}
			good := false
			x := g.T
			if sum {
				d := e.toLin(x).add(e.toLin(v), -1)
				for t, k := range d.co {
					good = len(d.co) == 1 && d.k == 0 && k == 1 && size(t, ph.L)
				}
			} else {
				good = x.Op == "append" && len(x.Args) == 2 && x.Args[0] == v && size(x.Args[1], ph.L)
			}
			c.need(good, "summary", what+":each", p, "with each bucket a row's %s become %s", what, c.S(x))
		}
	}
}

// c35text: the columns of the text page are headed by what they show.
func c35text(c *Ctx) {
	e := c.E
	f := c.fn(zp, "WriteTextRpczPage")
	if f == nil {
		return
	}
	r := c.run(f, c.only(zp))
	p := c.fpos(r)
	var fields []string
	for _, ef := range r.calls("fmt.Fprintf") {
		es, ok := e.elems(r, ef, ef.Args[2])
		if !ok {
			continue
		}
		var fs []string
		for _, x := range es {
			nm := "?"
			contains(unif(x), func(y *Term) bool {
				if (y.Op == "ld" || y.Op == "fieldof") && nm == "?" {
					if y.Op == "ld" {
						if a := addrField(y.Args[0]); a != nil {
							nm = a.Name()
						}
					} else {
						nm = y.Obj.(*types.Var).Name()
					}
				}
				return nm != "?"
			})
			fs = append(fs, nm)
		}
		if len(fs) > len(fields) {
			fields = fs
		}
	}
	want := []string{"Method"}
	for _, s := range []string{"Count", "AvgLatency", "RPCRate", "InputRate", "OutputRate", "Errors"} {
		want = append(want, s+"Minute", s+"Hour", s+"Total")
	}
	var heads [][]string
	for _, ef := range r.where("call", func(ef *Effect) bool { return ef.Name == "fmt.Fprint" || ef.Name == "fmt.Fprintln" }) {
		if es, ok := e.elems(r, ef, ef.Args[1]); ok && len(es) == 1 {
			if s := constString(unif(es[0])); strings.Count(s, "\t") > 5 {
				heads = append(heads, strings.Split(strings.TrimSuffix(s, "\n"), "\t"))
			}
		}
	}
	if len(fields) == 0 || len(heads) == 0 {
		return // written in another way: not decided
	}
	c.need(strings.Join(fields, " ") == strings.Join(want, " ") || len(fields) != len(want), "page", "columns", p, "the text page shows %v", fields)
	stem := map[string]string{"Count": "Count", "AvgLat": "AvgLatency", "Rate": "RPCRate", "In": "InputRate", "Out": "OutputRate", "Errors": "Errors", "Min": "Minute", "Hr": "Hour", "Tot": "Total", "Method": "Method", "MaxLat": "MaxLatency"}
	for _, h := range heads {
		cur := ""
		for i, col := range h {
			if col != "" {
				cur = strings.Fields(col)[0]
			}
			if s, ok := stem[cur]; ok && i < len(fields) {
				c.need(strings.Contains(fields[i], s), "page", "column:"+fields[i], p, "the column of %s is headed %q", fields[i], cur)
			}
		}
	}
}
