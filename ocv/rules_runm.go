package main

import (
	"go/types"
	"strings"
)

func init() {
	reg("C36", "static path analysis of the runtime metrics producer: identity of the statistic behind every exposed metric, order and locks of a read",
		"Every path of Enable, Disable and the producer's Read over all option combinations: which metrics are added under which options, and for each of them the statistic written into it before the registry is read; the locks held over the shared statistics.", ruleC36)
}

const runm = "plugin/runmetrics"

// runStats: the runtime statistic behind each memory metric, and its divisor.
var runStats = map[string]struct {
	f   string
	div int64
}{
	"process/memory_alloc": {"Alloc", 1}, "process/total_memory_alloc": {"TotalAlloc", 1}, "process/sys_memory_alloc": {"Sys", 1},
	"process/memory_lookups": {"Lookups", 1}, "process/memory_malloc": {"Mallocs", 1}, "process/memory_frees": {"Frees", 1},
	"process/heap_alloc": {"HeapAlloc", 1}, "process/sys_heap": {"HeapSys", 1}, "process/heap_idle": {"HeapIdle", 1},
	"process/heap_inuse": {"HeapInuse", 1}, "process/heap_objects": {"HeapObjects", 1}, "process/heap_release": {"HeapReleased", 1},
	"process/stack_inuse": {"StackInuse", 1}, "process/sys_stack": {"StackSys", 1}, "process/stack_mspan_inuse": {"MSpanInuse", 1},
	"process/sys_stack_mspan": {"MSpanSys", 1}, "process/stack_mcache_inuse": {"MCacheInuse", 1}, "process/sys_stack_mcache": {"MCacheSys", 1},
	"process/gc_sys": {"GCSys", 1}, "process/other_sys": {"OtherSys", 1}, "process/num_gc": {"NumGC", 1}, "process/num_forced_gc": {"NumForcedGC", 1},
	"process/next_gc_heap_size": {"NextGC", 1}, "process/last_gc_finished_timestamp": {"LastGC", 1e6}, "process/pause_total": {"PauseTotalNs", 1e6},
	"process/gc_cpu_fraction": {"GCCPUFraction", 1},
}

var runCPU = map[string]string{"process/cpu_goroutines": "runtime.NumGoroutine", "process/cpu_cgo_calls": "runtime.NumCgoCall"}

// metricName is the constant part of the name a metric was added under.
func (c *Ctx) metricName(call *Term, pf *types.Var) (string, bool) {
	e := c.E
	var prefix *Term
	contains(call.Args[1], func(x *Term) bool {
		if isField(x, pf, nil) {
			prefix = x
		}
		return prefix != nil
	})
	if prefix == nil {
		return "", false
	}
	name, ok := "", true
	for _, g := range e.cases(call.Args[1]) {
		t := g.T
		if t.Op == "bcat" && len(t.Args) == 2 && isField(t.Args[0], pf, nil) {
			prefix = t.Args[0]
			t = t.Args[1]
		} else if e.decide(e.all(g.C, e.gtZero(e.length(prefix))), False) != 1 {
			ok = false // the prefix is dropped
		}
		s := constString(t)
		if s == "" || name != "" && name != s {
			ok = false
		}
		if s != "" {
			name = s
		}
	}
	return name, ok
}

func isMetricAdd(t *Term) bool {
	n := callNameOf(t)
	return t.Op == "call" && strings.HasPrefix(n, "(*metric.Registry).Add")
}

func ruleC36(c *Ctx) {
	e := c.E
	fe, fd, fr := c.fn(runm, "Enable"), c.fn(runm, "Disable"), c.fn(runm, "(*producer).Read")
	gEn := c.W.global(runm, "enabledProducer")
	if c.failed() {
		return
	}
	o := c.only(runm)
	o.Resolve = nil
	o.Loads = true
	en := c.run(fe, o)
	pe := c.fpos(en)
	pf := c.field(runm, "RunMetricOptions", "Prefix")
	isAdd := func(ef *Effect) bool { return strings.HasPrefix(ef.Name, "(*metric.Registry).Add") }
	// the condition under which an option is set
	opt := func(n string) BDD {
		f := c.field(runm, "RunMetricOptions", n)
		b := False
		for _, ef := range en.where("call", isAdd) {
			for _, a := range e.atomsOf(ef.PC) {
				if isField(a, f, nil) {
					b = e.bdd(a)
				}
			}
		}
		c.need(f == nil || b != False, "enable", n, pe, "no metric depends on %s", n)
		return b
	}
	memB, cpuB := opt("EnableMemory"), opt("EnableCPU")
	if c.failed() {
		return
	}

	// ---- Enable
	adds := en.calls("(*metric/metricproducer.Manager).AddProducer")
	var prod *Term
	added := False
	for _, ef := range adds {
		x := unif(ef.Args[1])
		c.need(isFresh(x) && (prod == nil || prod == x), "enable", "producer", c.pos(ef), "Enable registers %s", c.S(ef.Args[1]))
		prod = x
		c.need(e.once(ef) && e.decide(e.all(ef.PC, added), False) == 1, "enable", "twice", c.pos(ef), "the producer is registered twice")
		added = e.any(added, ef.PC)
	}
	success := False
	if en.Final != nil {
		success = e.all(en.Final.pc, e.isNil(en.Rets[0]))
	}
	c.need(e.implies(success, added), "enable", "registered", pe, "collection is enabled but the producer is registered only if %s", c.P(added))
	if !c.need(prod != nil, "enable", "producer", pe, "Enable registers no producer") {
		return
	}
	replaced := func(r *Run, what string, under BDD) {
		var del, last []*Effect
		for _, ef := range r.calls("(*metric/metricproducer.Manager).DeleteProducer") {
			// the one enabled when the call began
			if x := unif(ef.Args[1]); x.Op == "ld" && x.Args[0].Op == "global" && x.Args[0].Obj == any(gEn) {
				del = append(del, ef)
			}
		}
		sum := False
		for _, ef := range del {
			sum = e.any(sum, ef.PC)
		}
		first := e.ld(e.globalAddr(gEn))
		old := e.isNil(first)
		c.need(e.implies(under, e.any(sum, old)), "enable", what+":replaced", c.fpos(r), "%s leaves the previous producer registered unless %s", what, c.P(sum))
		set := False
		for _, ef := range r.where("store", func(ef *Effect) bool { return ef.Addr.Op == "global" && ef.Addr.Obj == any(gEn) }) {
			last = append(last, ef)
			good := ef.Val == prod
			if r != en {
				good = ef.Val.Op == "nil"
			}
			c.need(good, "enable", what+":current", c.pos(ef), "%s makes %s the current producer", what, c.S(ef.Val))
			set = e.any(set, ef.PC)
		}
		c.need(e.implies(under, set), "enable", what+":current", c.fpos(r), "%s sets the current producer only if %s", what, c.P(set))
		// under one lock
		var mus []*Term
		for mu := range adds[0].Locks {
			mus = append(mus, mu)
		}
		held := false
		for _, mu := range mus {
			ok := true
			uses := append(append([]*Effect(nil), del...), last...)
			uses = append(uses, r.where("load", func(ef *Effect) bool { return ef.Addr.Op == "global" && ef.Addr.Obj == any(gEn) })...)
			lo, hi := int(^uint(0)>>1), -1
			for _, ef := range uses {
				ok = ok && lockHeld(ef, mu, 2)
				if ef.Seq < lo {
					lo = ef.Seq
				}
				if ef.Seq > hi {
					hi = ef.Seq
				}
			}
			// without letting go of it
			for _, ef := range r.where("unlock", func(ef *Effect) bool { return ef.Addr == mu }) {
				ok = ok && !(ef.Seq > lo && ef.Seq < hi)
			}
			held = held || ok
		}
		c.need(held, "enable", what+":lock", c.fpos(r), "%s replaces the producer without the lock", what)
	}
	replaced(en, "Enable", success)
	dis := c.run(fd, o)
	replaced(dis, "Disable", True)

	// metrics added, by name
	names := map[string]BDD{}
	for _, ef := range en.where("call", isAdd) {
		nm, ok := c.metricName(ef.Result, pf)
		if !c.need(ok, "metrics", "name", c.pos(ef), "a metric is added with the name %s", c.S(ef.Args[1])) {
			continue
		}
		want := memB
		if _, isC := runCPU[nm]; isC {
			want = cpuB
		} else if _, isM := runStats[nm]; !isM {
			continue
		}
		c.need(e.implies(ef.PC, want), "metrics", nm+":disabled", c.pos(ef), "%s is exposed though its group is not enabled", nm)
		c.need(e.decide(e.all(ef.PC, names[nm]), False) == 1, "metrics", nm+":twice", c.pos(ef), "%s is added twice", nm)
		names[nm] = e.any(names[nm], ef.PC)
	}
	for nm := range runStats {
		c.need(e.implies(e.all(success, memB), names[nm]), "metrics", nm+":missing", pe, "%s is exposed only if %s", nm, c.P(names[nm]))
	}
	for nm := range runCPU {
		c.need(e.implies(e.all(success, cpuB), names[nm]), "metrics", nm+":missing", pe, "%s is exposed only if %s", nm, c.P(names[nm]))
	}

	// ---- the fields of the producer and of its groups
	rd := c.run(fr, o)
	p := c.fpos(rd)
	self := rd.param(0)
	var reg *Effect
	for _, ef := range rd.calls("(*metric.Registry).Read") {
		c.need(reg == nil && e.implies(True, ef.PC) && len(ef.Loops) == 0, "read", "once", c.pos(ef), "the registry is read conditionally or twice")
		reg = ef
	}
	if !c.need(reg != nil, "read", "registry", p, "Read does not read the registry") {
		return
	}
	c.need(rd.Rets[0] == reg.Result, "read", "result", p, "Read returns %s", c.S(rd.Rets[0]))
	ra := reg.Args[0]
	if c.need(ra.Op == "ld" && addrField(ra.Args[0]) != nil && ra.Args[0].Args[0] == self, "read", "own", c.pos(reg), "Read reads the registry %s", c.S(ra)) {
		own := en.at(adds[0], e.fa(prod, addrField(ra.Args[0])))
		for _, ef := range en.where("call", isAdd) {
			c.need(ef.Args[0] == own, "read", "same", c.pos(ef), "a metric is added to the registry %s, not to the one that is read", c.S(ef.Args[0]))
		}
	}
	st, _ := deref(prod.T).Underlying().(*types.Struct)
	if st == nil {
		c.bad("enable", "struct", pe, "the producer is not a struct")
		return
	}
	n := 0
	var covered = map[string]BDD{}
	// inRd: what an object of Enable is called in Read
	entry := func(owner, inRd *Term, of *types.Struct, there, inRead BDD) {
		for i := 0; i < of.NumFields(); i++ {
			f := of.Field(i)
			if !strings.Contains(f.Type().String(), "opencensus.io/metric.") || strings.Contains(f.Type().String(), ".Registry") {
				continue
			}
			v := en.at(adds[0], e.fa(owner, f))
			for _, g := range e.cases(v) {
				cc := e.all(adds[0].PC, there, g.C)
				if e.decide(cc, False) == 1 || g.T.Op == "nil" {
					continue
				}
				var call *Term
				contains(g.T, func(x *Term) bool {
					if isMetricAdd(x) {
						call = x
					}
					return call != nil
				})
				if !c.need(call != nil, "metrics", f.Name(), pe, "%s is %s", f.Name(), c.S(g.T)) {
					continue
				}
				nm, _ := c.metricName(call, pf)
				n++
				covered[nm] = e.any(covered[nm], cc)
				once := False
				for _, ef := range en.where("call", func(ef *Effect) bool {
					return strings.HasSuffix(ef.Name, ").UpsertEntry") && contains(ef.Args[0], func(x *Term) bool { return x == call })
				}) {
					// a callback installed once for all reads
					k := unconv(ef.Args[1])
					fn := calleeOf(k)
					if fn == nil || k.Op != "closure" {
						continue
					}
					cr := c.run(fn, o)
					if len(cr.Rets) != 1 {
						continue
					}
					for _, q := range e.cases(cr.Rets[0]) {
						val, div := c36div(q.T)
						if want := runStats[nm]; val.Op != "ld" || val.Args[0].Op != "field" || addrField(val.Args[0]).Name() != want.f || div != want.div {
							continue
						}
						if b := val.Args[0].Args[0]; b.Op == "field" {
							// the captured variable is the object the metric belongs to
							isOwner := false
							v := b.Args[0]
							if v.Op == "ld" {
								v = v.Args[0]
							}
							for i, fv := range fn.FreeVars {
								if v.Op == "free" && v.Obj == any(fv) {
									v = k.Args[i]
									if b.Args[0].Op == "ld" {
										v = en.at(adds[0], v)
									}
									isOwner = e.same(cc, v, owner)
								}
							}
							if !isOwner {
								continue
							}
							for _, x := range rd.calls("runtime.ReadMemStats") {
								held := false
								for mu, mode := range reg.Locks {
									held = held || mode >= 2 && lockHeld(x, mu, 2)
								}
								if x.Args[0] == e.fa(inRd, addrField(b)) && x.Seq < reg.Seq && held && e.implies(cc, ef.PC) {
									once = e.any(once, x.PC)
								}
							}
						}
					}
				}
				c36value(c, rd, reg, o, nm, e.ld(e.fa(inRd, f)), inRead, once)
			}
		}
	}
	entry(prod, self, st, True, True)
	for i := 0; i < st.NumFields(); i++ {
		gf := st.Field(i)
		pt, isp := gf.Type().Underlying().(*types.Pointer)
		if !isp {
			continue
		}
		gs, isS := pt.Elem().Underlying().(*types.Struct)
		if !isS || strings.Contains(gf.Type().String(), "opencensus.io/metric.") {
			continue
		}
		v := en.at(adds[0], e.fa(prod, gf))
		grp := e.ld(e.fa(self, gf))
		for _, g := range e.cases(v) {
			cc := e.all(adds[0].PC, g.C)
			if g.T.Op == "nil" || e.decide(cc, False) == 1 {
				continue
			}
			x := g.T
			if !c.need(isFresh(x), "metrics", gf.Name(), pe, "%s is %s", gf.Name(), c.S(x)) {
				continue
			}
			entry(x, grp, gs, g.C, e.not(e.isNil(grp)))
		}
	}
	c.floor("metrics", "metrics with a statistic", n, 40)
	for nm, b := range names {
		c.need(e.implies(e.all(adds[0].PC, b), covered[nm]), "metrics", nm+":kept", pe, "%s is added but kept for reading only if %s", nm, c.P(covered[nm]))
	}
}

// c36value: before the registry is read, the entry gets the statistic of its
// metric.
func c36value(c *Ctx, rd *Run, reg *Effect, o Opts, nm string, entry *Term, there, once BDD) {
	e := c.E
	p := c.fpos(rd)
	var reads []*Effect
	for _, x := range rd.calls("runtime.ReadMemStats") {
		reads = append(reads, x)
	}
	sum := once
	for _, ef := range rd.where("call", func(ef *Effect) bool {
		return strings.HasPrefix(ef.Name, "(*metric.") && len(ef.Args) > 1 && ef.Args[0] == entry
	}) {
		c.need(ef.Seq < reg.Seq && len(ef.Loops) == 0, "read", nm+":late", c.pos(ef), "%s is refreshed after the registry was read", nm)
		ms := strings.TrimSuffix(ef.Name[strings.LastIndex(ef.Name, ".")+1:], ")")
		c.need(ms == "Set" || ms == "UpsertEntry", "read", nm+":how", c.pos(ef), "%s is refreshed by %s", nm, ef.Name)
		val, at, lazy := ef.Args[1], ef, false
		if k := unconv(val); k.Op == "closure" || k.Op == "func" {
			cr := c.callback(rd, ef, k, o)
			if !c.need(cr != nil && len(cr.Rets) == 1, "read", nm+":callback", c.pos(ef), "the callback of %s is not known", nm) {
				continue
			}
			val, lazy = cr.Rets[0], true
		}
		val = unconv(val)
		if fn, isC := runCPU[nm]; isC {
			c.need(isCallTo(val, fn), "read", nm, c.pos(at), "%s reports %s", nm, c.S(val))
			sum = e.any(sum, ef.PC)
			continue
		}
		want, isM := runStats[nm]
		if !isM {
			continue
		}
		for _, g := range e.cases(val) {
			under := e.all(ef.PC, g.C)
			if e.decide(under, False) == 1 {
				continue
			}
			val, div := c36div(g.T)
			ok := val.Op == "ld" && val.Args[0].Op == "field" && addrField(val.Args[0]).Name() == want.f && div == want.div
			if !c.need(ok, "read", nm, c.pos(at), "%s reports %s", nm, c.S(unconv(ef.Args[1]))+" "+c.S(val)) {
				continue
			}
			sum = e.any(sum, under)
			base := val.Args[0].Args[0]
			got := False
			var last *Effect
			for _, x := range reads {
				if x.Args[0] == base && (x.Seq < ef.Seq || lazy && x.Seq < reg.Seq) {
					got = e.any(got, x.PC)
					last = x
				}
			}
			c.need(e.implies(under, got), "read", nm+":stale", c.pos(at), "%s reports a statistic that is not read first (only if %s)", nm, c.P(got))
			// the value is the one after the runtime filled it in
			if !lazy && last != nil {
				fresh := false
				for _, l := range rd.where("load", nil) {
					if l.Addr == val.Args[0] && l.Seq > last.Seq && l.Seq < ef.Seq {
						fresh = true
					}
					if l.Addr == val.Args[0] && l.Seq < last.Seq {
						fresh = false
						break
					}
				}
				c.need(fresh, "read", nm+":stale", c.pos(at), "%s reports a value from before the statistics were read", nm)
			}
			if isFresh(rootOf(base)) || last == nil {
				continue
			}
			// shared between reads: one lock over all of it
			held := false
			for mu, mode := range reg.Locks {
				held = held || mode >= 2 && lockHeld(last, mu, 2) && lockHeld(ef, mu, 2)
			}
			if !lazy && !held {
				for mu, mode := range last.Locks {
					held = held || mode >= 2 && lockHeld(ef, mu, 2)
				}
			}
			c.need(held, "race", nm, c.pos(last), "the statistics of %s are shared between concurrent reads without a lock", nm)
		}
	}
	c.need(e.implies(there, sum), "read", nm+":missing", p, "%s is refreshed only if %s", nm, c.P(sum))
}

// c36div splits a value divided by a constant.
func c36div(t *Term) (*Term, int64) {
	t = unconv(t)
	if (t.Op == "arith" && t.Aux == "/" || t.Op == "div" || t.Op == "quo") && len(t.Args) == 2 {
		if k, ok := unconv(t.Args[1]).intVal(); ok {
			return unconv(t.Args[0]), k
		}
	}
	return t, 1
}
