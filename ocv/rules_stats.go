package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C17", "static race analysis: pairwise protection of every access to collector state (command goroutine, mutexes, atomics)",
		"Every load, store, map and atomic access to a field of the worker, its views, collectors and aggregation data reachable from any entry point; each pair with a write must share a protection: both confined to the unique command goroutine, a common mutex of the worker (exclusive for the writer), or both atomic.", ruleC17)
	reg("C18", "static path analysis of command handlers and of the operations waiting for them",
		"Every send on a reply channel in every command handler and every wait in every operation: path conditions of the sends are pairwise disjoint and cover all paths, and each operation waits for its own reply channel exactly once.", ruleC18)
	reg("C23", "static typestate and lock-region analysis of the meter's channels and of its registration as a producer",
		"Every send, close and receive on the meter's channels and every registration of the meter as a producer, from every entry point: sends and waits watch the done channel, each close happens at most once by a flag set in the same lock region, and registration is ordered against the end of the meter.", ruleC23)
}

type statN struct {
	wt                 *types.Named
	cF                 *types.Var
	fields             map[*types.Var]string // protected fields → "Type.field"
	chans              map[*types.Var]bool   // channel fields of the worker other than the commands
	loopFn             *ssa.Function
	g                  *Run
	sel                *Effect
	loop               *LoopCtx
	handlers           []*ssa.Function
	views, sigs, refs  *types.Var
	meas, rows, viewIn *types.Var
}

// statn finds the command loop and the state of a stats collector.
func (c *Ctx) statn() *statN {
	n := &statN{fields: map[*types.Var]string{}, chans: map[*types.Var]bool{}}
	pkg := "stats/view"
	n.cF = c.field(pkg, "worker", "c")
	n.views, n.sigs, n.refs, n.meas = c.field(pkg, "worker", "views"), c.field(pkg, "collector", "signatures"), c.field(pkg, "measureRef", "views"), c.field(pkg, "worker", "measures")
	if c.failed() {
		return n
	}
	for _, t := range []string{"worker", "measureRef", "viewInternal", "collector", "CountData", "SumData", "DistributionData", "LastValueData"} {
		tt := c.W.typ(pkg, t)
		if tt == nil {
			c.bad("anchor", t, "-", "type %s of the stats collector was not found", t)
			continue
		}
		st := tt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if nt := namedOf(f.Type()); nt != nil && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "sync" {
				continue
			}
			n.fields[f] = t + "." + f.Name()
			if _, ok := f.Type().Underlying().(*types.Chan); ok && t == "worker" && f != n.cF {
				n.chans[f] = true
			}
		}
		if t == "worker" {
			n.wt = tt
		}
	}
	if c.failed() {
		return n
	}
	// the command loop: the function that receives commands
	for _, f := range c.pkgFuncs(pkg) {
		if !c.W.receives(f, n.cF) {
			continue
		}
		if n.loopFn != nil {
			c.bad("anchor", "command-loop", c.W.position(f.Pos()), "commands are received in %s and in %s: two goroutines would own the same state", fnName(n.loopFn), fnName(f))
			return n
		}
		n.loopFn = f
	}
	if n.loopFn == nil {
		c.bad("anchor", "command-loop", "-", "no function receives from the command channel")
		return n
	}
	cmdI := n.cF.Type().Underlying().(*types.Chan).Elem()
	if it, ok := cmdI.Underlying().(*types.Interface); ok {
		for _, f := range c.pkgFuncs(pkg) {
			if f.Signature.Recv() == nil || f.Synthetic != "" {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == f.Name() && types.Implements(f.Signature.Recv().Type(), it) {
					n.handlers = append(n.handlers, f)
				}
			}
		}
	}
	sort.Slice(n.handlers, func(i, j int) bool { return n.handlers[i].String() < n.handlers[j].String() })
	c.floor("anchor", "command handlers", len(n.handlers), 4)
	// the receiving loop may sit in a helper: analyse from the goroutine entry
	entry := n.loopFn
	for changed := true; changed; {
		changed = false
		for _, f := range c.pkgFuncs(pkg) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(*ssa.Call); ok && ci.Common().StaticCallee() == entry && f != entry {
						entry = f
						changed = true
					}
				}
			}
		}
		if entry.Name() == "init" {
			break
		}
	}
	n.loopFn = entry
	n.g = c.run(entry, c.stdLoads())
	for _, ef := range n.g.Effects {
		if ef.Kind == "select" || ef.Kind == "recv" {
			for _, ch := range append([]*Term{ef.Addr}, ef.Args...) {
				if isField(ch, n.cF, nil) {
					n.sel = ef
				}
			}
		}
	}
	if n.sel == nil || len(n.sel.Loops) == 0 {
		c.bad("anchor", "command-loop", c.W.position(entry.Pos()), "%s does not receive commands in a loop", fnName(entry))
		return n
	}
	n.loop = n.sel.Loops[len(n.sel.Loops)-1]
	return n
}

// receives: f receives from a channel stored in field ch.
func (w *World) receives(f *ssa.Function, ch *types.Var) bool {
	from := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
		return ok && st.Field(fa.Field) == ch
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op.String() == "<-" && from(in.X) {
					return true
				}
			case *ssa.Select:
				for _, s := range in.States {
					if s.Dir == types.RecvOnly && from(s.Chan) {
						return true
					}
				}
			}
		}
	}
	return false
}

// inG: the effect happens in the unique receiving loop (or after it).
func (n *statN) inG(r *Run, ef *Effect) bool {
	if r != n.g {
		return false
	}
	if ef.Seq > n.sel.Seq {
		return true
	}
	for _, l := range ef.Loops {
		if l == n.loop {
			return true
		}
	}
	return false
}

type flagGate struct {
	f    *types.Var
	lock *types.Var
}

// boolFields of the worker.
func (n *statN) boolFields() []*types.Var {
	var out []*types.Var
	st := n.wt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isBool(st.Field(i).Type()) {
			out = append(out, st.Field(i))
		}
	}
	return out
}

// workerOf finds the worker a term belongs to.
func (n *statN) workerOf(t *Term) *Term {
	for t != nil {
		if t.T != nil {
			if p, ok := t.T.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), n.wt) && t.Op != "field" {
				return t
			}
		}
		if len(t.Args) == 0 {
			return nil
		}
		t = t.Args[0]
	}
	return nil
}

// region: the mutexes of worker w held exclusively from effect a to b.
func (n *statN) region(r *Run, w *Term, a, b *Effect) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for l, m := range b.Locks {
		if m < 2 || l.Op != "field" || l.Args[0] != w || a.Locks[l] < 2 {
			continue
		}
		ok := true
		for _, u := range r.where("unlock", func(u *Effect) bool { return u.Addr == l && u.Seq > a.Seq && u.Seq < b.Seq }) {
			if r.Eng.all(u.PC, b.PC) != False {
				ok = false
			}
		}
		if ok {
			out[addrField(l)] = true
		}
	}
	return out
}

// clear: pc implies that flag f of w was false when read in the same exclusive
// lock region as ef; the lock is returned.
func (n *statN) clear(r *Run, w *Term, f *types.Var, pc BDD, ef *Effect) map[*types.Var]bool {
	e := r.Eng
	if e.decide(pc, e.not(e.bdd(e.ld(e.fa(w, f))))) != 1 {
		return nil
	}
	for _, l := range r.where("load", func(l *Effect) bool { return l.Addr == e.fa(w, f) && l.Seq < ef.Seq }) {
		if rg := n.region(r, w, l, ef); len(rg) > 0 {
			return rg
		}
	}
	return nil
}

// sets: on the path of pc flag f of w is set to true under the lock, together
// with clear.
func (n *statN) testAndSet(r *Run, w *Term, pc BDD) []flagGate {
	e := r.Eng
	var out []flagGate
	for _, f := range n.boolFields() {
		for _, s := range r.where("store", func(s *Effect) bool { return s.Addr == e.fa(w, f) && s.Val != nil && e.bdd(s.Val) == True }) {
			if e.decide(pc, s.PC) != 1 {
				continue
			}
			for m := range n.clear(r, w, f, pc, s) {
				out = append(out, flagGate{f, m})
			}
		}
	}
	return out
}

// everFalse: the flag is reset somewhere.
func (n *statN) everFalse(c *Ctx, f *types.Var) *Effect {
	for _, fn := range append(c.roots("stats/view"), n.loopFn) {
		r := c.run(fn, c.stdLoads())
		for _, s := range r.storesTo(f) {
			if isFresh(rootOf(s.Addr)) {
				continue
			}
			if s.Val == nil || c.E.bdd(s.Val) != True {
				return s
			}
		}
	}
	return nil
}

func (n *statN) isHandler(f *ssa.Function) bool {
	for _, h := range n.handlers {
		if h == f {
			return true
		}
	}
	return false
}

type statAccess struct {
	ef     *Effect
	r      *Run
	key    *types.Var
	write  bool
	g      bool
	atomic bool
	locks  map[*types.Var]int
}

func (n *statN) accesses(c *Ctx, fns []*ssa.Function) []statAccess {
	e := c.E
	sp := &lockSpec{what: "collector state", fields: map[*types.Var]bool{}, stop: map[string]bool{"stats/view.View": true, "stats/view.Aggregation": true, "resource.Resource": true, "metric/metricdata.Descriptor": true}}
	for f := range n.fields {
		sp.fields[f] = true
	}
	var out []statAccess
	for _, f := range fns {
		r := c.run(f, c.stdLoads())
		add := func(a guardedAccess, atomic bool) {
			ro := rootOf(a.owner)
			if isFresh(ro) && !publishedBefore(e, r, ro, a.ef) {
				return
			}
			w := n.workerOf(a.owner)
			if w == nil && r != n.g {
				return // a value handed to the caller
			}
			if w == nil {
				w = r.param(0)
			}
			if a.field == nil {
				return
			}
			ac := statAccess{ef: a.ef, r: r, key: a.field, write: a.write, g: n.inG(r, a.ef), atomic: atomic, locks: map[*types.Var]int{}}
			pc := e.all(a.ef.PC, a.cond)
			for l, m := range a.ef.Locks {
				lo := e.under(l, pc)
				if lo.Op == "field" && (lo.Args[0] == w || r == n.g && lo.Args[0] == r.param(0)) {
					ac.locks[addrField(lo)] = m
				}
			}
			out = append(out, ac)
		}
		for _, a := range c.guardedAccesses(r, sp) {
			add(a, false)
		}
		for _, ef := range r.Effects {
			if (ef.Kind != "call" && ef.Kind != "defer") || !strings.HasPrefix(ef.Name, "sync/atomic.") || len(ef.Args) == 0 {
				continue
			}
			for _, g := range e.cases(ef.Args[0]) {
				if o, f, _ := e.owners(sp, g.T); o != nil {
					add(guardedAccess{ef, o, g.C, f, nil, !strings.Contains(ef.Name, ".Load")}, true)
				}
			}
		}
	}
	return out
}

func (a *statAccess) shares(b *statAccess) bool {
	if a.g && b.g || a.atomic && b.atomic {
		return true
	}
	for m, x := range a.locks {
		y, ok := b.locks[m]
		if ok && (!a.write || x == 2) && (!b.write || y == 2) {
			return true
		}
	}
	return false
}

func (a *statAccess) prot() string {
	var s []string
	if a.g {
		s = append(s, "command goroutine")
	}
	if a.atomic {
		s = append(s, "atomic")
	}
	for m, x := range a.locks {
		k := ""
		if x < 2 {
			k = " (shared)"
		}
		s = append(s, m.Name()+k)
	}
	if len(s) == 0 {
		return "nothing"
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// outside lists the entry points that do not run on the command goroutine.
func (n *statN) outside(c *Ctx) []*ssa.Function {
	var fns []*ssa.Function
	for _, f := range c.roots("stats/view") {
		if f != n.loopFn && !n.isHandler(f) {
			fns = append(fns, f)
		}
	}
	return fns
}

func ruleC17(c *Ctx) {
	n := c.statn()
	if c.failed() {
		return
	}
	e := c.E
	// the command loop runs in at most one goroutine per worker
	w := n.g.param(0)
	gates := n.testAndSet(n.g, w, n.sel.PC)
	c.need(len(gates) > 0, "unique", "command-loop", c.pos(n.sel), "two goroutines can run the command loop of one meter: entering it does not test and set a flag under one lock")
	for _, g := range gates {
		if s := n.everFalse(c, g.f); s != nil {
			c.need(len(gates) > 1, "unique", "reset:"+g.f.Name(), c.pos(s), "the flag %s that admits one goroutine to the command loop is cleared again", g.f.Name())
		}
	}
	// it is only entered on its own goroutine
	calls := 0
	for _, f := range c.pkgFuncs("stats/view") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == n.loopFn {
					calls++
					_, isGo := in.(*ssa.Go)
					c.need(isGo, "unique", "go:"+fnName(f), c.W.instrPos(in), "%s runs the command loop on the caller's goroutine", fnName(f))
				}
			}
		}
	}
	c.floor("unique", "starts of the command loop", calls, 1)
	fns := append(n.outside(c), n.loopFn)
	acc := n.accesses(c, fns)
	if !c.floor("race", "accesses to collector state", len(acc), 40) {
		return
	}
	ng := 0
	by := map[*types.Var][]*statAccess{}
	for i := range acc {
		a := &acc[i]
		by[a.key] = append(by[a.key], a)
		if a.g {
			ng++
		}
	}
	c.floor("race", "accesses on the command goroutine", ng, 20)
	seen := map[string]bool{}
	for f, as := range by {
		for _, x := range as {
			ok := true
			for _, y := range as {
				if !x.write && !y.write || x.shares(y) {
					continue
				}
				// report at the access that is less protected
				a, b := x, y
				if len(b.locks) < len(a.locks) || (b.atomic != a.atomic && !b.atomic) {
					a, b = b, a
				}
				ok = false
				k := fmt.Sprintf("%s:%s", name(a.r), n.fields[f])
				if !seen[k] {
					seen[k] = true
					c.bad("race", k, c.pos(a.ef), "%s is accessed in %s (reached from %s, protected by %s) and in %s (reached from %s, protected by %s) with nothing in common, and one of them writes", n.fields[f],
						fnName(a.ef.Frame.fn), name(a.r), a.prot(), fnName(b.ef.Frame.fn), name(b.r), b.prot())
				}
			}
			if ok {
				c.need(true, "race", name(x.r)+":"+n.fields[f], c.pos(x.ef), "")
			}
		}
	}
	// shared aggregations (Count, Sum) are never written
	buckets := c.field("stats/view", "Aggregation", "Buckets")
	if c.failed() {
		return
	}
	aggT := c.W.typ("stats/view", "Aggregation").Underlying().(*types.Struct)
	isAgg := map[*types.Var]bool{}
	for i := 0; i < aggT.NumFields(); i++ {
		isAgg[aggT.Field(i)] = true
	}
	for _, f := range fns {
		r := c.run(f, c.stdLoads())
		for _, ef := range r.where("store", nil) {
			fl := addrField(ef.Addr)
			if !isAgg[fl] || isFresh(rootOf(ef.Addr)) {
				continue
			}
			old := e.length(r.at(ef, e.fa(ef.Addr.Args[0], buckets)))
			c.need(fl == buckets && e.decide(e.rawOf(ef.PC), e.not(e.leq(old, e.mkInt(0, nil)))) == 1, "shared", name(r)+":"+fl.Name(), c.pos(ef),
				"%s writes %s of an aggregation that may be shared between meters (Count and Sum always are)", fnName(ef.Frame.fn), fl.Name())
		}
	}
	// package-level state
	c.globalsGuarded("stats/view")
	c.globalsGuarded("stats")
}

// globalsGuarded: package-level variables are written by initialisation only,
// or every access holds one mutex of the package (exclusively to write).
func (c *Ctx) globalsGuarded(pkg string) {
	e := c.E
	type acc struct {
		ef    *Effect
		r     *Run
		write bool
	}
	by := map[*ssa.Global][]acc{}
	fns := c.rootsAndClosures(pkg)
	for _, f := range fns {
		r := c.run(f, c.stdLoads())
		for _, ef := range r.Effects {
			var a *Term
			write := false
			switch ef.Kind {
			case "load", "lookup", "rangeover":
				a = ef.Addr
			case "store", "mapupdate", "delete":
				a, write = ef.Addr, true
			}
			if a == nil || len(ef.Once) > 0 {
				continue
			}
			for a != nil && a.Op != "global" {
				if len(a.Args) == 0 || (a.Op != "ld" && a.Op != "index" && a.Op != "field") {
					a = nil
					break
				}
				if a.Op == "ld" && a != ef.Addr {
					a = nil // what the variable refers to
					break
				}
				a = a.Args[0]
			}
			if a == nil {
				continue
			}
			g := a.Obj.(*ssa.Global)
			if g.Pkg == nil || shortPkg(g.Pkg.Pkg.Path()) != pkg {
				continue
			}
			by[g] = append(by[g], acc{ef, r, write})
		}
	}
	ng := 0
	for g, as := range by {
		written := false
		for _, a := range as {
			written = written || a.write
		}
		ng++
		if !written {
			c.need(true, "global", g.Name(), c.W.position(g.Pos()), "")
			continue
		}
		// a mutex held at every access
		common := map[*Term]bool{}
		for l := range as[0].ef.Locks {
			common[l] = true
		}
		for _, a := range as {
			mode := 1
			if a.write {
				mode = 2
			}
			for l := range common {
				if a.ef.Locks[l] < mode {
					delete(common, l)
				}
			}
		}
		if c.need(len(common) > 0, "global", g.Name(), c.W.position(g.Pos()), "package variable %s of %s is written outside initialisation and its accesses share no lock", g.Name(), pkg) {
			continue
		}
	}
	_ = e
	c.floor("global", "package variables of "+pkg, ng, 1)
}

// replyChans lists the channel fields of a command.
func replyChans(h *ssa.Function) []*types.Var {
	var out []*types.Var
	st, ok := deref(h.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
			out = append(out, st.Field(i))
		}
	}
	return out
}

func ruleC18(c *Ctx) {
	n := c.statn()
	if c.failed() {
		return
	}
	e := c.E
	replies := map[*types.Var]*ssa.Function{}
	for _, h := range n.handlers {
		r := c.run(h, c.stdLoads())
		chs := replyChans(h)
		for _, f := range chs {
			replies[f] = h
		}
		if len(chs) > 1 {
			c.bad("reply", name(r), c.fpos(r), "the command handled by %s has %d reply channels", name(r), len(chs))
			continue
		}
		for _, ef := range r.Effects {
			switch ef.Kind {
			case "recv", "select":
				c.bad("reply", name(r)+":wait", c.pos(ef), "%s waits on a channel on the command goroutine", name(r))
			case "close":
				c.need(!isField(ef.Addr, first(chs), nil), "reply", name(r)+":close", c.pos(ef), "%s closes its reply channel", name(r))
			case "send":
				if len(chs) == 0 || !isField(ef.Addr, chs[0], r.param(0)) {
					c.bad("reply", name(r)+":other", c.pos(ef), "%s sends on %s, which is not the reply channel of its command", name(r), c.S(ef.Addr))
				}
			case "panic":
				c.need(e.decide(ef.PC, False) == 1 || !strings.HasPrefix(fnName(ef.Frame.fn), "stats/view.(*worker)") && ef.Frame.fn != h, "reply", name(r)+":panic", c.pos(ef), "%s panics on the command goroutine (if %s)", name(r), c.P(ef.PC))
			}
		}
		if len(chs) == 0 {
			continue
		}
		sends := r.where("send", func(ef *Effect) bool { return isField(ef.Addr, chs[0], r.param(0)) })
		if !c.need(len(sends) > 0, "reply", name(r)+":none", c.fpos(r), "%s never answers", name(r)) {
			continue
		}
		cov := False
		for i, s := range sends {
			c.need(e.once(s), "reply", name(r)+":loop", c.pos(s), "%s can answer more than once: it goes on looping after the answer", name(r))
			if s.Name == "select" {
				c.bad("reply", name(r)+":select", c.pos(s), "%s may skip its answer: the send is one case of a select", name(r))
			}
			if s.Deferred {
				// a deferred answer runs on every path on which it was deferred
			}
			for _, s2 := range sends[:i] {
				x := e.all(s.PC, s2.PC)
				c.need(e.decide(x, False) == 1, "reply", name(r)+":twice", c.pos(s), "%s answers twice (if %s)", name(r), c.P(x))
			}
			cov = e.any(cov, s.PC)
		}
		c.need(e.implies(True, cov), "reply", name(r)+":always", c.fpos(r), "%s returns without answering if %s: the caller would block forever", name(r), c.P(e.not(cov)))
	}
	c.floor("reply", "commands with an answer", len(replies), 3)
	// the operations
	nops := 0
	cmdOf := func(v *Term) *Term {
		if v != nil && v.Op == "iface" {
			return v.Args[0]
		}
		return v
	}
	for _, f := range n.outside(c) {
		r := c.run(f, c.stdLoads())
		for _, s := range r.where("send", func(ef *Effect) bool { return isField(ef.Addr, n.cF, nil) }) {
			cmd := cmdOf(s.Val)
			if cmd == nil || !isFresh(cmd) {
				c.bad("wait", name(r)+":cmd", c.pos(s), "%s sends a command it did not create", name(r))
				continue
			}
			nops++
			c.need(e.once(s), "wait", name(r)+":loop", c.pos(s), "%s sends the command repeatedly", name(r))
			for fl := range replies {
				if ownerStruct(cmd.T) != ownerStruct(replies[fl].Signature.Recv().Type()) {
					continue
				}
				ch := r.at(s, e.fa(cmd, fl))
				if !c.need(ch != nil && rootOf(ch).Op == "make" || ch != nil && isFresh(ch), "wait", name(r)+":chan", c.pos(s), "%s does not create its own reply channel", name(r)) {
					continue
				}
				waits := r.where("select", func(ef *Effect) bool { return ef.Seq > s.Seq && hasTerm(ef.Args, ch) })
				waits = append(waits, r.where("recv", func(ef *Effect) bool { return ef.Seq > s.Seq && ef.Addr == ch })...)
				cov := False
				for i, w := range waits {
					c.need(len(w.Loops) == 0, "wait", name(r)+":again", c.pos(w), "%s waits for its answer repeatedly", name(r))
					for _, w2 := range waits[:i] {
						c.need(e.decide(e.all(w.PC, w2.PC), False) == 1, "wait", name(r)+":twice", c.pos(w), "%s waits twice for one answer", name(r))
					}
					for _, a := range w.Args {
						ok := a == ch
						for d := range n.chans {
							ok = ok || isField(a, d, nil)
						}
						c.need(ok, "wait", name(r)+":other", c.pos(w), "%s gives up waiting for its answer when %s is ready; the command goroutine would block on the answer", name(r), c.S(a))
					}
					c.need(!e.hasDefault(w), "wait", name(r)+":default", c.pos(w), "%s does not wait for its answer", name(r))
					cov = e.any(cov, w.PC)
				}
				c.need(e.implies(s.PC, cov), "wait", name(r)+":skip", c.pos(s), "%s can return without reading the answer to its command; the command goroutine would block on it", name(r))
			}
			// other receivers of the channel would steal the answer
		}
	}
	c.floor("wait", "operations that send commands", nops, 6)
}

func first(v []*types.Var) *types.Var {
	if len(v) == 0 {
		return nil
	}
	return v[0]
}

func hasTerm(ts []*Term, x *Term) bool {
	for _, t := range ts {
		if t == x {
			return true
		}
	}
	return false
}

func ownerStruct(t types.Type) string {
	if n := namedOf(deref(t)); n != nil {
		return n.String()
	}
	return t.String()
}

// hasDefault: the select has a default case.
func (e *Eng) hasDefault(ef *Effect) bool {
	s, ok := ef.Instr.(*ssa.Select)
	return ok && !s.Blocking
}

func ruleC23(c *Ctx) {
	n := c.statn()
	if c.failed() {
		return
	}
	e := c.E
	out := n.outside(c)
	add, del := c.fn("metric/metricproducer", "(*Manager).AddProducer"), c.fn("metric/metricproducer", "(*Manager).DeleteProducer")
	if c.failed() {
		return
	}
	opt := c.stdLoads()
	opt.Inline = func(f *ssa.Function) bool { return f != add && f != del }
	runs := map[*ssa.Function]*Run{}
	all := append(append([]*ssa.Function(nil), out...), n.loopFn)
	for _, f := range all {
		r := e.Analyse(f, opt)
		c.note(r)
		runs[f] = r
	}
	g := runs[n.loopFn]
	gw := g.param(0)
	var sel *Effect
	for _, ef := range g.where("select", nil) {
		for _, a := range ef.Args {
			if isField(a, n.cF, nil) {
				sel = ef
			}
		}
	}
	if sel == nil {
		c.bad("stop", "loop", c.fpos(g), "the command loop watches nothing but commands, so it cannot be stopped")
		return
	}
	type closing struct {
		ef *Effect
		r  *Run
		g  bool
	}
	closes := map[*types.Var][]closing{}
	for _, f := range all {
		r := runs[f]
		for _, ef := range r.where("close", nil) {
			for fl := range n.chans {
				if isField(ef.Addr, fl, nil) {
					closes[fl] = append(closes[fl], closing{ef, r, r == g && ef.Seq > sel.Seq})
				}
			}
			c.need(!isField(ef.Addr, n.cF, nil), "close", name(r)+":commands", c.pos(ef), "%s closes the command channel: recording on a stopped meter would panic", name(r))
		}
		for _, ef := range r.where("store", nil) {
			fl := addrField(ef.Addr)
			if (n.chans[fl] || fl == n.cF) && !isFresh(rootOf(ef.Addr)) {
				c.bad("close", name(r)+":replace", c.pos(ef), "%s replaces the channel %s of a meter others may be using", name(r), fl.Name())
			}
		}
	}
	// done: closed by the command loop when it ends; quit: ends the loop
	var done, quit *types.Var
	for fl, cs := range closes {
		for _, x := range cs {
			if x.g {
				if done != nil && done != fl {
					c.bad("stop", "done", c.pos(x.ef), "the command loop closes several channels")
				}
				done = fl
			}
		}
	}
	for _, a := range sel.Args {
		for fl := range closes {
			if isField(a, fl, nil) && fl != done {
				quit = fl
			}
		}
	}
	if !c.need(done != nil, "stop", "done", c.fpos(g), "the end of the command loop is not announced by closing a channel: stopping could not wait for it") ||
		!c.need(quit != nil, "stop", "quit", c.pos(sel), "the command loop does not watch a channel that Stop closes") {
		return
	}
	// when quit is closed the loop announces its end and ends
	covG := False
	for _, x := range closes[done] {
		if x.g {
			c.need(e.once(x.ef), "stop", "done:loop", c.pos(x.ef), "the command loop goes on after announcing its end; it would announce it again")
			covG = e.any(covG, x.ef.PC)
		}
	}
	idx := -1
	for i, a := range sel.Args {
		if isField(a, quit, nil) {
			idx = i
		}
	}
	// every iteration that received quit leaves the loop
	qAtoms := e.chosen(sel, idx)
	if sel.Loops != nil {
		l := sel.Loops[len(sel.Loops)-1]
		back := e.any(l.BackPC...)
		c.need(e.decide(e.all(back, qAtoms), False) == 1, "stop", "quit:loop", c.pos(sel), "the command loop continues after it was told to stop (if %s)", c.P(e.all(back, qAtoms)))
		for _, ef := range g.where("return", func(ef *Effect) bool { return ef.Frame == g.Root }) {
			if ef.Seq < sel.Seq || e.all(ef.PC, sel.PC) == False {
				continue
			}
			if e.decide(e.all(ef.PC, e.not(covG)), False) != 1 {
				gatesEntered := e.exitsLoop(ef, l)
				c.need(!gatesEntered || e.implies(ef.PC, covG), "stop", "done:always", c.pos(ef), "the command loop can end without announcing it: Stop and every pending operation would block (if %s)", c.P(ef.PC))
			}
		}
	}
	// each channel is closed at most once
	for fl, cs := range closes {
		for i, x := range cs {
			gates := n.testAndSet2(x.r, x.ef)
			if x.g {
				gates = n.testAndSet(g, gw, sel.PC)
			}
			ok := false
			for _, gt := range gates {
				if n.everFalse(c, gt.f) == nil {
					ok = true
				}
			}
			c.need(ok, "close", name(x.r)+":"+fl.Name(), c.pos(x.ef), "%s closes %s without testing and setting, under one lock, a flag that is never cleared: closing it twice panics", name(x.r), fl.Name())
			c.need(e.once(x.ef), "close", name(x.r)+":"+fl.Name()+":loop", c.pos(x.ef), "%s closes %s in a loop", name(x.r), fl.Name())
			for _, y := range cs[:i] {
				a, b := x, y
				if n.exclusive(c, e, g, sel, a.r, a.ef, a.g, b.r, b.ef, b.g) {
					c.need(true, "close", name(a.r)+"/"+name(b.r)+":"+fl.Name(), c.pos(a.ef), "")
				} else {
					c.bad("close", name(a.r)+"/"+name(b.r)+":"+fl.Name(), c.pos(a.ef), "%s can be closed both in %s and in %s: closing it twice panics", fl.Name(), name(a.r), name(b.r))
				}
			}
		}
	}
	// operations watch done when they send and when they wait
	ns := 0
	for _, f := range out {
		r := runs[f]
		for _, ef := range r.Effects {
			switch ef.Kind {
			case "send":
				if !isField(ef.Addr, n.cF, nil) {
					continue
				}
				ns++
				s, ok := ef.Instr.(*ssa.Select)
				watch := false
				if ok {
					for _, x := range r.where("select", func(x *Effect) bool { return x.Instr == s }) {
						for _, a := range x.Args {
							watch = watch || isField(a, done, n.workerOf(ef.Addr))
						}
					}
					watch = watch || !s.Blocking
				}
				c.need(watch, "block", name(r)+":send", c.pos(ef), "%s sends a command without watching for the end of the meter: it blocks forever once the meter stopped and the queue is full", name(r))
			case "select", "recv":
				chs := ef.Args
				if ef.Kind == "recv" {
					chs = []*Term{ef.Addr}
				}
				watch := e.hasDefault(ef)
				onReply := false
				for _, a := range chs {
					if isField(a, done, nil) {
						watch = true
					}
					if rootOf(a).Op == "make" || isFresh(a) {
						onReply = true
					}
				}
				if onReply || ef.Kind == "select" {
					c.need(watch, "block", name(r)+":wait", c.pos(ef), "%s waits for an answer without watching for the end of the meter: it blocks forever if the meter is stopped", name(r))
				} else {
					c.need(watch, "block", name(r)+":recv", c.pos(ef), "%s waits on %s, which nothing is known to close", name(r), c.S(ef.Addr))
				}
				for l := range ef.Locks {
					if lf := addrField(l); lf != nil && l.Args[0] == n.workerOf(l) {
						c.need(!n.locksInLoop(g, sel)[lf], "block", name(r)+":locked", c.pos(ef), "%s waits while holding %s, which the command loop needs", name(r), lf.Name())
					}
				}
			}
		}
	}
	c.floor("block", "sends of commands", ns, 6)
	// the one who closes quit waits for the end, and the end comes: either the
	// loop runs, or it never will and done is closed here
	for _, x := range closes[quit] {
		if x.g {
			continue
		}
		waits := x.r.where("recv", func(ef *Effect) bool { return isField(ef.Addr, done, nil) })
		cov := False
		for _, wt := range waits {
			cov = e.any(cov, wt.PC)
		}
		c.need(e.implies(True, cov), "stop", name(x.r)+":wait", c.pos(x.ef), "%s can return before the meter has ended", name(x.r))
		w := n.workerOf(x.ef.Addr)
		// done is closed here exactly when the loop will never run
		var gateG, gateS []flagGate
		gateG = n.testAndSet(g, gw, sel.PC)
		gateS = n.testAndSet2(x.r, x.ef)
		okClose := false
		for _, y := range closes[done] {
			if y.r != x.r || y.g {
				continue
			}
			for _, fg := range gateG {
				rest := e.all(x.ef.PC, e.not(e.bdd(e.ld(e.fa(w, fg.f)))))
				if e.implies(rest, y.ef.PC) {
					okClose = true
				}
			}
		}
		c.need(okClose, "stop", name(x.r)+":unstarted", c.pos(x.ef), "stopping a meter whose command loop never ran does not announce the end: %s would block forever", name(x.r))
		// and then the loop must not start any more
		okGate := false
		for _, fs := range gateS {
			if rg := n.clear(g, gw, fs.f, sel.PC, firstStore(g, gateG, gw, e)); rg[fs.lock] {
				okGate = true
			}
		}
		c.need(okGate, "stop", "start-after-stop", c.pos(sel), "the command loop can start after the meter was stopped")
	}
	// producer registration
	na, nd := 0, 0
	for _, f := range all {
		r := runs[f]
		for _, ef := range r.where("call", func(ef *Effect) bool { return ef.Callee == add }) {
			na++
			arg := ef.Args[1]
			if arg.Op == "iface" {
				arg = arg.Args[0]
			}
			w := n.workerOf(arg)
			if !c.need(w != nil && w == arg, "producer", name(r)+":add", c.pos(ef), "%s registers %s as a producer", name(r), c.S(ef.Args[1])) {
				continue
			}
			// under the lock in which stopping marks the meter, and only if not stopped
			ok := false
			for _, x := range closes[quit] {
				for _, fs := range n.testAndSet2(x.r, x.ef) {
					if n.clear(r, w, fs.f, ef.PC, ef)[fs.lock] {
						ok = true
					}
				}
			}
			c.need(ok, "producer", name(r)+":add:stopped", c.pos(ef), "%s can register the meter as a producer after it was stopped, or concurrently with stopping it: the producer would stay registered", name(r))
			if r == g {
				c.need(ef.Seq < sel.Seq && e.implies(sel.PC, ef.PC), "producer", "add:running", c.pos(ef), "the meter can run without being registered as a producer")
			}
		}
		for _, ef := range r.where("call", func(ef *Effect) bool { return ef.Callee == del }) {
			nd++
			arg := ef.Args[1]
			if arg.Op == "iface" {
				arg = arg.Args[0]
			}
			c.need(n.workerOf(arg) == arg && arg != nil, "producer", name(r)+":del", c.pos(ef), "%s unregisters %s instead of the meter", name(r), c.S(ef.Args[1]))
			quits := false
			for _, x := range closes[quit] {
				if x.r == r {
					quits = true
				}
			}
			c.need(quits || r == g && len(ef.Loops) == 0 && ef.Seq > sel.Seq, "producer", name(r)+":del:running", c.pos(ef), "%s unregisters the meter as a producer although it is not being stopped", name(r))
		}
	}
	c.floor("producer", "registrations of the meter as a producer", na, 1)
	c.floor("producer", "removals of the meter as a producer", nd, 1)
	for _, x := range closes[quit] {
		if x.g {
			continue
		}
		cov := False
		locked := false
		for _, ef := range x.r.where("call", func(ef *Effect) bool { return ef.Callee == del }) {
			cov = e.any(cov, ef.PC)
			// after or in the same region as the mark
			for l, m := range ef.Locks {
				if m == 2 && addrField(l) != nil {
					for _, fs := range n.testAndSet2(x.r, x.ef) {
						if fs.lock == addrField(l) {
							locked = true
						}
					}
				}
			}
			if ef.Seq > x.ef.Seq {
				locked = true
			}
			for _, wt := range x.r.where("recv", func(w *Effect) bool { return isField(w.Addr, done, nil) && w.Seq < ef.Seq }) {
				_ = wt
				locked = true
			}
		}
		gdel := False
		for _, ef := range g.where("call", func(ef *Effect) bool { return ef.Callee == del }) {
			for _, y := range closes[done] {
				if y.g && ef.Seq < y.ef.Seq {
					gdel = e.any(gdel, ef.PC)
				}
			}
		}
		c.need(e.implies(x.ef.PC, cov) && locked || gdel != False && e.implies(covG, gdel), "producer", name(x.r)+":del:always", c.pos(x.ef), "%s can complete while the meter is still registered as a producer", name(x.r))
	}
}

// firstStore: the effect that sets the first gate of the command loop.
func firstStore(g *Run, gates []flagGate, w *Term, e *Eng) *Effect {
	for _, gt := range gates {
		for _, s := range g.where("store", func(s *Effect) bool { return s.Addr == e.fa(w, gt.f) }) {
			return s
		}
	}
	return &Effect{}
}

// exitsLoop: the effect happens after the loop was entered and left.
func (e *Eng) exitsLoop(ef *Effect, l *LoopCtx) bool {
	for _, x := range ef.Loops {
		if x == l {
			return false
		}
	}
	for _, av := range l.early {
		if e.decide(ef.PC, e.not(av)) != 1 {
			return true
		}
	}
	return len(l.early) == 0
}

func (n *statN) testAndSet2(r *Run, ef *Effect) []flagGate {
	w := n.workerOf(ef.Addr)
	if w == nil {
		return nil
	}
	e := r.Eng
	var out []flagGate
	for _, gt := range n.testAndSet(r, w, ef.PC) {
		// the close lies in the region too, or after it: either way the flag was
		// tested and set by this goroutine alone
		_ = e
		out = append(out, gt)
	}
	return out
}

// exclusive: of two closing sites only one can ever run for a worker.
func (n *statN) exclusive(c *Ctx, e *Eng, g *Run, sel *Effect, ra *Run, a *Effect, ag bool, rb *Run, b *Effect, bg bool) bool {
	type site struct {
		r   *Run
		pc  BDD
		w   *Term
		set []flagGate
		at  *Effect
	}
	mk := func(r *Run, x *Effect, inG bool) site {
		if inG {
			w := g.param(0)
			gs := n.testAndSet(g, w, sel.PC)
			return site{g, sel.PC, w, gs, firstStore(g, gs, w, e)}
		}
		return site{r, x.PC, n.workerOf(x.Addr), n.testAndSet2(r, x), x}
	}
	x, y := mk(ra, a, ag), mk(rb, b, bg)
	if x.w == nil || y.w == nil {
		return false
	}
	common := func(p, q site) bool {
		// p's path requires the flag q sets to be clear, under q's lock
		for _, f := range q.set {
			if n.everFalse(c, f.f) == nil && n.clear(p.r, p.w, f.f, p.pc, p.at)[f.lock] {
				return true
			}
		}
		return false
	}
	if ra == rb && ag == bg && e.all(a.PC, b.PC) == False {
		// alternatives of one call: both need the same test-and-set
		for _, f := range x.set {
			for _, h := range y.set {
				if f == h {
					return true
				}
			}
		}
	}
	return common(x, y) && common(y, x)
}

// locksInLoop: the mutexes of the meter the command loop acquires.
func (n *statN) locksInLoop(g *Run, sel *Effect) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for _, ef := range g.where("lock", func(ef *Effect) bool { return ef.Seq > sel.Seq }) {
		if f := addrField(ef.Addr); f != nil && n.workerOf(ef.Addr) != nil {
			out[f] = true
		}
	}
	return out
}

// chosen: the select took its case i.
func (e *Eng) chosen(sel *Effect, i int) BDD {
	s, ok := sel.Instr.(*ssa.Select)
	if !ok {
		return True
	}
	var term *Term
	for _, a := range e.atoms {
		if a != nil && a.Op == "selcase" && sameTerms(a.Args[0].Args, sel.Args) && a.Args[0].Obj == nil {
			term = a.Args[0]
		}
	}
	if term == nil {
		return True
	}
	cs := func(k int) BDD {
		return e.atom(e.mk("selcase", fmt.Sprint(k), types.Typ[types.Bool], nil, term))
	}
	last := len(s.States) - 1
	b := True
	for k := 0; k < i; k++ {
		b = e.all(b, e.not(cs(k)))
	}
	if !s.Blocking || i != last {
		b = e.all(b, cs(i))
	}
	return b
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
