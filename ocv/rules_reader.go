package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C27", "static typestate analysis of the interval reader: start/stop/flush transitions, goroutine handshake, lock set",
		"Every path of Start, Stop and Flush and of the goroutine that Start creates: transitions happen under the lock and exactly in the states the API states, the goroutine is stopped and waited for before Stop returns, it exports only on ticks, and nothing blocks in the stopped state.", ruleC27)
	reg("C28", "static effect analysis of the producer set: lock set, freshness and completeness of listings, exhaustive reading",
		"Every access to the set of producers from every function of the API: under the lock; additions and deletions touch exactly the given producer; listings are new slices holding every element; every read exports what every producer listed returned.", ruleC28)
}

// spawned analyses the function a go statement starts.
func (c *Ctx) spawned(r *Run, ef *Effect, o Opts) *Run {
	f := ef.Callee
	if f == nil {
		f = calleeOf(ef.Val)
	}
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	var free []*Term
	if ef.Val != nil && ef.Val.Op == "closure" {
		free = ef.Val.Args
	}
	st := newState()
	if ef.mem != nil {
		// the captured variables
		for k, v := range ef.mem.mem {
			if k.Op == "alloc" && refCell(k, free) {
				st.mem[k] = v
			}
		}
	}
	args := append([]*Term(nil), ef.Args...)
	for len(args) < len(f.Params) {
		args = append(args, c.E.param(f, len(args)))
	}
	g := c.E.AnalyseWith(f, args, free, st, o)
	c.note(g)
	return g
}

func refCell(k *Term, free []*Term) bool {
	for _, x := range free {
		if x == k {
			return true
		}
	}
	return false
}

func ruleC27(c *Ctx) {
	pkg := "metric/metricexport"
	e := c.E
	quit, done, timer, mu, iv := c.field(pkg, "IntervalReader", "quit"), c.field(pkg, "IntervalReader", "done"), c.field(pkg, "IntervalReader", "timer"), c.field(pkg, "IntervalReader", "mu"), c.field(pkg, "IntervalReader", "ReportingInterval")
	fs, fp, ff := c.fn(pkg, "(*IntervalReader).Start"), c.fn(pkg, "(*IntervalReader).Stop"), c.fn(pkg, "(*IntervalReader).Flush")
	minC, defC := c.constOf(pkg, "minimumReportingDuration"), c.constOf(pkg, "defaultReportingDuration")
	if c.failed() {
		return
	}
	if !c.need(minC != nil && defC != nil, "start", "limits", "-", "the limits of the reporting interval are gone") {
		return
	}
	isExport := func(ef *Effect) bool {
		return ef.Kind == "call" && strings.HasPrefix(ef.Name, "invoke ") && strings.HasSuffix(ef.Name, ").ExportMetrics")
	}
	// Start
	r := c.run(fs, c.stdLoads())
	p := c.fpos(r)
	ir := r.param(0)
	if !c.need(len(r.Rets) == 1, "start", "result", p, "Start does not return an error") {
		return
	}
	ivl := e.ld(e.fa(ir, iv))
	dur := ivl.T
	stopped := e.isNil(e.ld(e.fa(ir, quit)))
	minK, _ := constI64(minC)
	defK, _ := constI64(defC)
	valid := e.all(e.not(e.isNil(ir)), e.any(e.eq(ivl, e.mkInt(0, dur)), e.not(e.lt(ivl, e.mkInt(minK, dur)))), stopped)
	okc := e.isNilx(r.Rets[0])
	c.need(e.equiv(okc, valid), "start", "error", p, "Start succeeds if %s, not exactly for a stopped reader with a valid interval", c.P(okc))
	gos := r.where("go", nil)
	if !c.need(len(gos) == 1 && e.once(gos[0]), "start", "goroutine", p, "Start starts %d goroutines", len(gos)) {
		return
	}
	c.need(e.equiv(gos[0].PC, valid), "start", "goroutine-when", c.pos(gos[0]), "Start starts the goroutine if %s, not exactly when it succeeds", c.P(gos[0].PC))
	c.need(lockHeld(gos[0], e.fa(ir, mu), 2), "start", "goroutine-locked", c.pos(gos[0]), "the goroutine is started without holding the lock")
	last := map[*types.Var]*Effect{}
	for _, f := range []*types.Var{quit, done, timer} {
		for _, ef := range r.storesTo(f) {
			c.need(e.implies(ef.PC, valid), "start", f.Name()+":unchanged", c.pos(ef), "Start changes %s although it fails: if %s", f.Name(), c.P(ef.PC))
			c.need(lockHeld(ef, e.fa(ir, mu), 2), "start", f.Name()+":locked", c.pos(ef), "Start changes %s without holding the lock", f.Name())
			last[f] = ef
		}
		v := e.under(r.final(e.fa(ir, f)), valid)
		if f != timer {
			c.need(isFresh(v) && v.Op == "make" && last[f] != nil && last[f].Seq < gos[0].Seq, "start", f.Name()+":new", p, "a started reader uses %s as %s, not a new channel made before the goroutine starts", c.S(v), f.Name())
		}
	}
	var tick *Effect
	for _, ef := range r.calls("time.NewTicker") {
		tick = ef
	}
	if c.need(tick != nil && e.implies(valid, tick.PC), "start", "ticker", p, "Start creates no ticker") {
		for _, g := range e.cases(tick.Args[0]) {
			cc := e.all(g.C, valid, tick.PC)
			if e.decide(cc, False) == 1 {
				continue
			}
			isz := e.eq(ivl, e.mkInt(0, dur))
			k, isk := g.T.intVal()
			ok := g.T == ivl && e.decide(cc, e.not(isz)) == 1 || isk && k == defK && e.decide(cc, isz) == 1
			c.need(ok, "start", "interval", c.pos(tick), "the reader reports every %s (if %s)", c.S(g.T), c.P(cc))
		}
		c.need(e.implies(tick.PC, valid), "start", "ticker-when", c.pos(tick), "a ticker is created although Start fails: it is never stopped")
	}
	// the goroutine
	g := c.spawned(r, gos[0], c.stdLoads())
	if !c.need(g != nil, "goroutine", "body", c.pos(gos[0]), "the goroutine is not a function of the module") {
		return
	}
	qv, dv := e.under(r.final(e.fa(ir, quit)), valid), e.under(r.final(e.fa(ir, done)), valid)
	isQ := func(t *Term) bool { return t != nil && (isField(t, quit, nil) || t == qv) }
	isD := func(t *Term) bool { return t != nil && (isField(t, done, nil) || t == dv) }
	isT := func(t *Term) bool {
		return t != nil && contains(t, func(x *Term) bool { return isField(x, timer, nil) || tick != nil && x == tick.Result })
	}
	gp := c.fpos(g)
	var sel *Effect
	qi := -1
	for _, ef := range g.where("select", nil) {
		hasT := false
		q := -1
		for i, a := range ef.Args {
			if isQ(a) {
				q = i
			} else if isT(a) {
				hasT = true
			}
		}
		if hasT {
			c.need(sel == nil, "goroutine", "one-wait", c.pos(ef), "the goroutine waits for ticks in two places")
			c.need(q >= 0 && !e.hasDefault(ef), "goroutine", "wait", c.pos(ef), "the goroutine does not wait for a tick or the stop signal together")
			sel, qi = ef, q
		}
	}
	if !c.need(sel != nil && qi >= 0 && len(sel.Loops) > 0, "goroutine", "loop", gp, "the goroutine does not wait for ticks in a loop") {
		return
	}
	l := sel.Loops[len(sel.Loops)-1]
	stop := e.chosen(sel, qi)
	c.need(e.everyIter(sel, l), "goroutine", "wait-always", c.pos(sel), "an iteration does not wait")
	nx := 0
	var expPC BDD = False
	for _, ef := range g.Effects {
		switch {
		case isExport(ef):
			nx++
			c.need(e.decide(ef.PC, e.not(stop)) == 1, "goroutine", "export-after-stop", c.pos(ef), "the goroutine exports after the stop signal: if %s", c.P(ef.PC))
			expPC = e.any(expPC, ef.PC)
		case ef.Kind == "lock" && addrField(ef.Addr) == mu:
			c.need(false, "goroutine", "deadlock", c.pos(ef), "the goroutine takes the reader's lock, which Stop holds while it waits for the goroutine")
		case ef.Kind == "recv" && !isQ(ef.Addr) && !isT(ef.Addr), ef.Kind == "send" && !isD(ef.Addr):
			c.need(false, "goroutine", "blocks", c.pos(ef), "the goroutine blocks on %s", c.S(ef.Addr))
		}
	}
	c.need(nx == 1, "goroutine", "export", gp, "the goroutine exports in %d places", nx)
	c.need(e.implies(e.all(l.Entry, sel.PC, e.not(stop)), expPC), "goroutine", "export-tick", gp, "the goroutine does not export at every tick: if %s", c.P(expPC))
	for i, b := range l.BackPC {
		b = e.all(b, e.continues(l, i))
		c.need(e.decide(b, e.not(stop)) == 1, "goroutine", "stops", c.pos(sel), "the goroutine goes on after the stop signal: if %s", c.P(b))
	}
	for _, x := range l.early {
		c.need(e.implies(x, stop), "goroutine", "ends", c.pos(sel), "the goroutine ends without a stop signal (if %s): Stop blocks for ever", c.P(x))
	}
	signals := func(r *Run, is func(*Term) bool) []*Effect {
		var out []*Effect
		for _, ef := range r.Effects {
			if (ef.Kind == "send" || ef.Kind == "close") && is(ef.Addr) {
				out = append(out, ef)
			}
		}
		return out
	}
	ds := signals(g, isD)
	dpc := False
	for _, ef := range ds {
		dpc = e.any(dpc, ef.PC)
		c.need(e.decide(ef.PC, stop) == 1 || e.flagged(l, ef.PC, stop), "goroutine", "done-early", c.pos(ef), "the goroutine reports its end without a stop signal")
	}
	c.need(len(ds) == 1 && e.implies(g.Final.pc, dpc), "goroutine", "done", gp, "the goroutine does not report its end exactly once: if %s", c.P(dpc))
	ts := g.calls("(*time.Ticker).Stop")
	tpc := False
	for _, ef := range ts {
		tpc = e.any(tpc, ef.PC)
	}
	// Stop
	rs := c.run(fp, c.stdLoads())
	ps := c.fpos(rs)
	is := rs.param(0)
	running := e.all(e.not(e.isNil(is)), e.not(e.isNil(e.ld(e.fa(is, quit)))))
	isQs := func(t *Term) bool { return t != nil && isField(t, quit, nil) }
	isDs := func(t *Term) bool { return t != nil && isField(t, done, nil) }
	var sig, wait *Effect
	closes := map[string]int{}
	for _, ef := range rs.Effects {
		switch ef.Kind {
		case "send", "close", "recv":
			c.need(e.implies(ef.PC, running), "stop", ef.Kind+":state", c.pos(ef), "Stop blocks or panics on a reader that is not running: if %s", c.P(ef.PC))
			c.need(lockHeld(ef, e.fa(is, mu), 2), "stop", ef.Kind+":locked", c.pos(ef), "Stop stops the goroutine without holding the lock: concurrent calls stop it twice")
			if ef.Kind == "close" {
				closes[c.chanName(ef.Addr, quit, done)]++
			}
			if (ef.Kind == "send" || ef.Kind == "close") && isQs(ef.Addr) && sig == nil {
				sig = ef
			}
			if ef.Kind == "recv" && isDs(ef.Addr) && wait == nil {
				wait = ef
			}
			if ef.Kind == "recv" && !isDs(ef.Addr) || ef.Kind == "send" && !isQs(ef.Addr) {
				c.need(false, "stop", "blocks", c.pos(ef), "Stop blocks on %s", c.S(ef.Addr))
			}
		case "select":
			c.need(false, "stop", "select", c.pos(ef), "Stop may return without the goroutine having ended")
		case "call":
			if isExport(ef) {
				c.need(false, "stop", "export", c.pos(ef), "Stop exports")
			}
			if ef.Name == "(*time.Ticker).Stop" {
				tpc = True
			}
		}
	}
	c.need(e.implies(g.Final.pc, tpc), "goroutine", "ticker-stopped", gp, "the ticker is not stopped when the reader stops")
	if c.need(sig != nil && wait != nil, "stop", "handshake", ps, "Stop does not signal the goroutine and wait for its end") {
		c.need(e.implies(running, sig.PC) && e.implies(running, wait.PC) && sig.Seq < wait.Seq, "stop", "handshake-order", c.pos(wait), "Stop does not wait for the goroutine after signalling it: signals if %s, waits if %s", c.P(sig.PC), c.P(wait.PC))
	}
	nsend := 0
	for _, ef := range rs.where("send", nil) {
		if isQs(ef.Addr) {
			nsend++
		}
	}
	c.need(nsend <= 1, "stop", "one-signal", ps, "Stop signals the goroutine %d times", nsend)
	for _, ef := range g.where("close", nil) {
		nm := c.chanName(ef.Addr, quit, done)
		closes[nm]++
	}
	for nm, k := range closes {
		c.need(k <= 1, "stop", "close:"+nm, ps, "the channel %s is closed in %d places: the second close panics", nm, k)
	}
	after := e.under(rs.final(e.fa(is, quit)), running)
	c.need(e.decide(running, e.isNilx(after)) == 1, "stop", "stopped", ps, "after Stop the reader is not marked stopped: %s", c.S(after))
	c.need(len(rs.where("go", nil)) == 0, "stop", "goroutines", ps, "Stop starts a goroutine")
	// Flush
	rf := c.run(ff, c.stdLoads())
	pf := c.fpos(rf)
	iff := rf.param(0)
	idle := e.all(e.not(e.isNil(iff)), e.isNil(e.ld(e.fa(iff, quit))))
	var xs []*Effect
	xpc := False
	for _, ef := range rf.Effects {
		switch ef.Kind {
		case "send", "recv", "select":
			c.need(false, "flush", "blocks", c.pos(ef), "Flush blocks on a channel")
		case "call":
			if isExport(ef) {
				xs = append(xs, ef)
				xpc = e.any(xpc, ef.PC)
				c.need(e.once(ef), "flush", "once", c.pos(ef), "Flush exports in a loop")
				c.need(lockHeld(ef, e.fa(iff, mu), 1), "flush", "locked", c.pos(ef), "Flush exports without holding the lock: the reader may be started meanwhile")
			}
		}
	}
	c.need(e.equiv(xpc, idle), "flush", "state", pf, "Flush exports if %s, not exactly when the reader is stopped", c.P(xpc))
	c.need(len(xs) <= 1, "flush", "exports", pf, "Flush exports in %d places", len(xs))
	c.nilSafe(rf, iff, "the receiver")
	c.nilSafe(rs, is, "the receiver")
	c.nilSafe(r, ir, "the receiver")
	// every use of the state holds the lock, apart from the goroutine's own
	// (ordered by its start and by the wait in Stop)
	sp := &lockSpec{what: "the interval reader's state", mu: func(o *Term) *Term { return e.fa(o, mu) }, fields: map[*types.Var]bool{quit: true, done: true, timer: true}}
	gf := g.Root.fn
	c.checkLockset("lock", sp, c.roots(pkg), func(r *Run, a guardedAccess) bool { return r.Root.fn == gf && !a.write }, 5)
	// a reader is made complete or not at all
	if fn := c.fn(pkg, "NewIntervalReader"); fn != nil {
		rn := c.run(fn, c.stdLoads())
		okn := e.isNilx(rn.Rets[1])
		want := e.all(e.not(e.isNil(rn.param(0))), e.not(e.isNil(rn.param(1))))
		c.need(e.equiv(okn, want), "new", "error", c.fpos(rn), "NewIntervalReader succeeds if %s", c.P(okn))
		rd, ex := c.field(pkg, "IntervalReader", "reader"), c.field(pkg, "IntervalReader", "exporter")
		for _, g := range e.cases(rn.Rets[0]) {
			if rd != nil && ex != nil && e.decide(e.all(g.C, okn), False) != 1 {
				c.need(isFresh(g.T) && e.under(rn.final(e.fa(g.T, rd)), okn) == rn.param(0) && e.under(rn.final(e.fa(g.T, ex)), okn) == rn.param(1), "new", "fields", c.fpos(rn), "NewIntervalReader does not keep its reader and exporter")
			}
		}
	}
}

func constI64(v interface{ String() string }) (int64, bool) {
	var n int64
	s := v.String()
	neg := strings.HasPrefix(s, "-")
	for _, ch := range strings.TrimPrefix(s, "-") {
		if ch < '0' || ch > '9' {
			return 0, false
		}
		n = n*10 + int64(ch-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

func (c *Ctx) chanName(t *Term, fs ...*types.Var) string {
	for _, f := range fs {
		if isField(t, f, nil) {
			return f.Name()
		}
	}
	return c.S(t)
}

// ---------- C28 ----------

func ruleC28(c *Ctx) {
	e := c.E
	pkg := "metric/metricproducer"
	prods, mu := c.field(pkg, "Manager", "producers"), c.field(pkg, "Manager", "mu")
	fa, fd, fg := c.fn(pkg, "(*Manager).AddProducer"), c.fn(pkg, "(*Manager).DeleteProducer"), c.fn(pkg, "(*Manager).GetAll")
	if c.failed() {
		return
	}
	sp := &lockSpec{what: "the set of producers", mu: func(o *Term) *Term { return e.fa(o, mu) }, fields: map[*types.Var]bool{prods: true}}
	c.checkLockset("lock", sp, c.roots(pkg), func(r *Run, a guardedAccess) bool { return len(a.ef.Once) > 0 }, 3)
	changes := func(r *Run) (out []*Effect) {
		for _, ef := range r.Effects {
			if (ef.Kind == "mapupdate" || ef.Kind == "delete") && isField(ef.Addr, prods, nil) || ef.Kind == "store" && addrField(ef.Addr) == prods && !isFresh(rootOf(ef.Addr)) {
				out = append(out, ef)
			}
		}
		return
	}
	for _, x := range []struct {
		f    *ssa.Function
		kind string
	}{{fa, "mapupdate"}, {fd, "delete"}} {
		r := c.run(x.f, c.stdLoads())
		p, nm := c.fpos(r), name(r)
		pr := r.param(1)
		given := e.not(e.isNil(pr))
		cov := False
		for _, ef := range changes(r) {
			if !c.need(ef.Kind == x.kind && e.once(ef), "set", nm+":kind", c.pos(ef), "%s changes the set by %s", nm, ef.Kind) {
				continue
			}
			c.need(unif(ef.Key) == pr, "set", nm+":which", c.pos(ef), "%s changes the entry of %s, not of the given producer", nm, c.S(ef.Key))
			c.need(e.implies(ef.PC, given), "set", nm+":nil", c.pos(ef), "%s does not ignore a nil producer", nm)
			cov = e.any(cov, ef.PC)
		}
		// skipping a change that would change nothing is fine
		has := e.presentIn(r, prods, pr)
		want := given
		if x.kind == "mapupdate" {
			want = e.all(given, e.not(has))
		} else if has != False {
			want = e.all(given, has)
		}
		c.need(e.implies(want, cov), "set", nm+":always", p, "%s does not change the set for every given producer: only if %s", nm, c.P(cov))
		c.nilSafe(r, pr, "the producer")
	}
	// other functions do not change the set
	for _, f := range c.roots(pkg) {
		if f == fa || f == fd {
			continue
		}
		r := c.run(f, c.stdLoads())
		for _, ef := range changes(r) {
			c.need(false, "set", name(r)+":changes", c.pos(ef), "%s changes the set of producers", name(r))
		}
	}
	// GetAll
	r := c.run(fg, c.stdLoads())
	p := c.fpos(r)
	c.need(len(r.Rets) == 1 && e.listsKeys(r, r.Rets[0], prods), "list", "all", p, "GetAll returns %s, which is not a new slice holding every producer once", c.S(r.Rets[0]))
	// the manager is one and made once
	fm := c.fn(pkg, "GlobalManager")
	if fm != nil {
		rm := c.run(fm, c.stdLoads())
		pm := c.fpos(rm)
		v := rm.Rets[0]
		var gl *Effect
		for _, ef := range rm.where("store", nil) {
			if ef.Addr.Op == "global" {
				gl = ef
				c.need(len(ef.Once) > 0, "manager", "once", c.pos(ef), "GlobalManager replaces the manager on every call or without synchronisation")
			}
		}
		if gl == nil {
			// made by initialisation
			c.need(v.Op == "ld" && v.Args[0].Op == "global", "manager", "global", pm, "GlobalManager returns %s", c.S(v))
		} else {
			c.need(v == gl.Val || v == e.ld(gl.Addr) || v.Op == "ld" && v.Args[0] == gl.Addr, "manager", "global", pm, "GlobalManager returns %s, not the one manager", c.S(v))
			m := rm.final(e.fa(gl.Val, prods))
			c.need(m.Op == "make", "manager", "map", pm, "the manager's set of producers is %s: adding a producer panics", c.S(m))
		}
	}
	c28read(c, pkg, fg)
}

// presentIn: the condition that the map field has the key, as the run tests it.
func (e *Eng) presentIn(r *Run, f *types.Var, key *Term) BDD {
	out := False
	for _, ef := range r.Effects {
		if ef.Kind == "lookup" && isField(ef.Addr, f, nil) {
			if p := e.presence(r, ef.Addr, key); p != True {
				out = e.any(out, p)
			}
		}
	}
	return out
}

// listsKeys: a new slice with every key of the map once.
func (e *Eng) listsKeys(r *Run, t *Term, f *types.Var) bool {
	if ph := loopPhiOf(r, t); ph != nil {
		l := ph.L
		if l.Kind != "map" || !isField(l.Coll, f, nil) || !l.Full || !e.loopDone(l) || !constInt(e.length(ph.Init), 0) || len(ph.Back) != 1 {
			return false
		}
		ps, ok := pieces(ph.Back[0], ph.Term)
		return ok && len(ps) == 1 && isKeyOf(unif(ps[0]), l) && (ph.Init.Op == "nil" || isFresh(rootOf(ph.Init)) || ph.Init.isConst())
	}
	if !isFresh(rootOf(t)) {
		return false
	}
	n := e.length(t)
	if n.Op != "len" || !isField(n.Args[0], f, nil) {
		return false
	}
	for _, ef := range r.where("store", nil) {
		if rootOf(ef.Addr) != rootOf(t) || len(ef.Loops) != 1 {
			continue
		}
		l := ef.Loops[0]
		if l.Kind != "map" || !isField(l.Coll, f, nil) || !l.Full || !e.loopDone(l) || !e.everyIter(ef, l) || !isKeyOf(unif(ef.Val), l) {
			return false
		}
		// the position: one per iteration from zero
		ix := ef.Addr.Args[1]
		if ix.Op == "iter" {
			return true
		}
		ph := loopPhiOf(r, ix)
		if ph == nil || !constInt(ph.Init, 0) || len(ph.Back) != 1 {
			return false
		}
		d := e.toLin(ph.Back[0]).add(e.toLin(ph.Term), -1)
		return len(d.co) == 0 && d.k == 1
	}
	return false
}

// c28read: a read exports, once, what every listed producer returned.
func c28read(c *Ctx, pkg string, fg *ssa.Function) {
	e := c.E
	f := c.fn("metric/metricexport", "(*Reader).ReadAndExport")
	if f == nil {
		return
	}
	o := c.stdLoads()
	o.Inline = notInline(fg)
	o.Resolve = c.keepIface("Producer", "Exporter")
	r := c.run(f, o)
	p := c.fpos(r)
	var exp, read *Effect
	for _, ef := range r.where("call", nil) {
		switch {
		case strings.HasPrefix(ef.Name, "invoke ") && strings.HasSuffix(ef.Name, ").ExportMetrics"):
			c.need(exp == nil, "read", "export-once", c.pos(ef), "a read exports twice")
			exp = ef
		case strings.HasPrefix(ef.Name, "invoke ") && strings.HasSuffix(ef.Name, "Producer).Read"):
			c.need(read == nil, "read", "read-once", c.pos(ef), "a read reads producers in two places")
			read = ef
		}
	}
	if !c.need(exp != nil && read != nil && len(read.Loops) == 1, "read", "form", p, "a read does not read every producer and export the result") {
		return
	}
	l := read.Loops[0]
	all := l.Kind == "slice" && isCallTo(l.Coll, fnName(fg)) && l.Full && e.loopDone(l)
	c.need(all, "read", "producers", c.pos(read), "a read visits %s, not all producers listed", c.S(l.Coll))
	c.need(isElemOf(read.Args[0], l) && e.everyIter(read, l), "read", "each", c.pos(read), "a read does not read each producer: %s if %s", c.S(read.Args[0]), c.P(read.PC))
	c.need(len(exp.Loops) == 0 && e.implies(True, exp.PC) && exp.Args[0] == r.param(1), "read", "export", c.pos(exp), "a read does not export exactly once to the given exporter: if %s", c.P(exp.PC))
	data := exp.Args[len(exp.Args)-1]
	ph := loopPhiOf(r, data)
	ok := ph != nil && ph.L == l && constInt(e.length(ph.Init), 0) && len(ph.Back) > 0
	if ok {
		for i, b := range ph.Back {
			bc := True
			if i < len(ph.BPC) {
				bc = ph.BPC[i]
			}
			for _, g := range e.cases(b) {
				cc := e.all(bc, g.C)
				if e.decide(cc, False) == 1 {
					continue
				}
				ps, ok2 := pieces(g.T, ph.Term)
				if !ok2 {
					// element by element
					if in := loopPhiOf(r, g.T); in != nil && in.Init == ph.Term {
						if all, src := e.appendsAll(in); all {
							ps, ok2 = []*Term{e.mk("spread", "", src.T, nil, src)}, true
						}
					}
				}
				// skipping an empty result is fine
				empty := e.decide(cc, e.leq(e.length(read.Result), e.mkInt(0, types.Typ[types.Int]))) == 1
				ok = ok && ok2 && (len(ps) == 1 && ps[0].Op == "spread" && ps[0].Args[0] == read.Result || len(ps) == 0 && empty)
			}
		}
	}
	c.need(ok, "read", "data", c.pos(exp), "a read exports %s, not everything the producers returned", c.S(data))
}

// continues: what is known if, after the i-th way to end an iteration of l,
// another one starts: the flags that the loop runs on are set.
func (e *Eng) continues(l *LoopCtx, i int) BDD {
	out := True
	for _, ph := range l.phis {
		if ph.Term == nil || !isBool(ph.Term.T) || i >= len(ph.Back) {
			continue
		}
		f := e.bdd(ph.Term)
		switch {
		case e.implies(l.More, f):
			out = e.all(out, e.bdd(ph.Back[i]))
		case e.implies(l.More, e.not(f)):
			out = e.all(out, e.not(e.bdd(ph.Back[i])))
		}
	}
	return out
}

// flagged: under pc a flag of the loop has not its initial value, and what
// changes it is why.
func (e *Eng) flagged(l *LoopCtx, pc, why BDD) bool {
	for _, ph := range l.phis {
		if ph.Term == nil || !isBool(ph.Term.T) || ph.Init == nil || len(ph.Back) == 0 {
			continue
		}
		f, in := e.bdd(ph.Term), e.bdd(ph.Init)
		for _, v := range []BDD{f, e.not(f)} {
			val := func(t *Term) BDD {
				if v == f {
					return e.bdd(t)
				}
				return e.not(e.bdd(t))
			}
			if e.decide(pc, v) != 1 || e.decide(e.all(l.Entry, e.iff(f, in), v), False) != 1 {
				continue
			}
			ok := true
			for i, b := range ph.Back {
				// a flag once changed ends the loop, or was changed for that reason before
				cc := e.all(ph.BPC[i], val(b), e.not(v))
				ok = ok && (e.decide(cc, False) == 1 || e.decide(cc, why) == 1)
			}
			if ok {
				return true
			}
		}
	}
	return false
}
