package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C19", "static path-condition and value-flow analysis from stats.Record to the aggregation of each view",
		"The recording operations (conditions and arguments of every hand-over to the recorder), the record command (loops over measurements and views, the arguments, the key and the target of every aggregation), the tag signature written and read, and the registration of views under their measure.", ruleC19)
}

// keepIface resolves closed interfaces except the named ones.
func (c *Ctx) keepIface(names ...string) func(recv *Term, m *types.Func) []*ssa.Function {
	base := c.resolve()
	return func(recv *Term, m *types.Func) []*ssa.Function {
		if rt := m.Type().(*types.Signature).Recv(); rt != nil {
			if n := namedOf(rt.Type()); n != nil {
				for _, x := range names {
					if n.Obj().Name() == x {
						return nil
					}
				}
			}
		}
		return base(recv, m)
	}
}

func (c *Ctx) runWith(f *ssa.Function, o Opts) *Run {
	r := c.E.Analyse(f, o)
	c.note(r)
	return r
}

func notInline(fs ...*ssa.Function) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		for _, x := range fs {
			if x == f {
				return false
			}
		}
		return true
	}
}

// elemOf: t is an element (or a field of an element) of the loop's collection.
func fieldOfElem(t *Term, l *LoopCtx, f *types.Var) bool { return elemField(t, l, f) }

func unconv(t *Term) *Term {
	for t != nil && (strings.HasPrefix(t.Op, "conv")) && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func unif(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// loopsFull: every loop around the effect runs to the end of its collection
// on every path except the ones listed as early exits of unreachable paths.
func (c *Ctx) loopsFull(ef *Effect) bool {
	for _, l := range ef.Loops {
		if len(l.early) > 0 {
			for _, av := range l.early {
				if c.E.decide(True, c.E.not(av)) != 1 {
					return false
				}
			}
		}
	}
	return true
}

func ruleC19(c *Ctx) {
	n := c.statn()
	e := c.E
	desc, mv, mm := c.field("stats", "Measurement", "desc"), c.field("stats", "Measurement", "v"), c.field("stats", "Measurement", "m")
	subs := c.field("stats", "measureDescriptor", "subs")
	viewF, subF := c.field("stats/view", "viewInternal", "view"), c.field("stats/view", "viewInternal", "subscribed")
	keysF, measF := c.field("stats/view", "View", "TagKeys"), c.field("stats/view", "View", "Measure")
	tm := c.field("tag", "Map", "m")
	tv := c.field("tag", "tagContent", "value")
	wv, rv, by := c.fn("internal/tagencoding", "(*Values).WriteValue"), c.fn("internal/tagencoding", "(*Values).ReadValue"), c.fn("internal/tagencoding", "(*Values).Bytes")
	if c.failed() {
		return
	}
	// 1. the record command
	var h *ssa.Function
	var msF, tmF, atF, tF *types.Var
	for _, f := range n.handlers {
		st := deref(f.Signature.Recv().Type()).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && namedOf(sl.Elem()) != nil && namedOf(sl.Elem()).Obj().Name() == "Measurement" {
				h = f
				msF = st.Field(i)
			}
		}
		if h == f {
			for i := 0; i < st.NumFields(); i++ {
				switch t := st.Field(i).Type(); {
				case namedOf(t) != nil && namedOf(t).Obj().Name() == "Map":
					tmF = st.Field(i)
				case namedOf(t) != nil && namedOf(t).Obj().Name() == "Time":
					tF = st.Field(i)
				}
				if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
					atF = st.Field(i)
				}
			}
		}
	}
	if h == nil || tmF == nil || tF == nil || atF == nil {
		c.bad("anchor", "record", "-", "no command carries measurements, tags, attachments and a time")
		return
	}
	r := c.runWith(h, Opts{Resolve: c.keepIface("AggregationData"), Inline: notInline(wv, rv, by)})
	cmd, w := r.param(0), r.param(1)
	nadd := 0
	cov := False
	for _, ef := range r.where("call", func(ef *Effect) bool { return strings.HasPrefix(ef.Name, "invoke (stats/view.AggregationData).") }) {
		if len(ef.Args) < 4 {
			continue
		}
		nadd++
		p := c.pos(ef)
		var lm, lv *LoopCtx
		extra := 0
		for _, l := range ef.Loops {
			switch {
			case l.Kind == "slice" && isField(l.Coll, msF, cmd) && lm == nil:
				lm = l
			case l.Kind == "map" && lv == nil && mapKeyIs(l.Coll.T, "viewInternal"):
				lv = l
			default:
				extra++
			}
		}
		if !c.need(lm != nil, "record", "measurements", p, "samples are not aggregated in a loop over all the measurements of the command") ||
			!c.need(lv != nil, "record", "views", p, "samples are not aggregated in a loop over all the views of the measure") {
			continue
		}
		c.need(extra == 0, "record", "repeated", p, "a measurement is aggregated repeatedly: the aggregation sits in a further loop")
		c.need(c.loopsFull(ef), "record", "all", p, "recording can stop before all measurements reached all views")
		c.need(e.decide(e.all(cov, ef.PC), False) == 1, "record", "twice", p, "a measurement is aggregated twice by one view (if %s)", c.P(e.all(cov, ef.PC)))
		cov = e.any(cov, ef.PC)
		// the set of views: those registered for the name of this measurement's measure
		for _, g := range e.cases(lv.Coll) {
			pc := e.all(ef.PC, g.C)
			if e.decide(pc, False) == 1 {
				continue
			}
			if isFresh(rootOf(g.T)) {
				continue // a measure nobody has a view for
			}
			okv := g.T.Op == "ld" && addrField(g.T.Args[0]) == n.refs
			var key *Term
			if okv {
				ref := g.T.Args[0].Args[0]
				okv = ref.Op == "mapval" && isField(ref.Args[0], n.meas, w)
				if okv {
					key = ref.Args[1]
				}
			}
			if !c.need(okv, "record", "which", p, "the views that aggregate a measurement are %s, not those registered for its measure", c.S(g.T)) {
				continue
			}
			c.need(isCallTo(key, "invoke (stats.Measure).Name") && elemField(key.Args[0], lm, mm), "record", "measure", p, "views are looked up under %s, not under the name of the measurement's measure", c.S(key))
		}
		// arguments
		c.need(elemField(ef.Args[1], lm, mv), "record", "value", p, "the value aggregated is %s, not the value of the measurement", c.S(ef.Args[1]))
		c.need(isField(ef.Args[2], atF, cmd), "record", "attachments", p, "the attachments aggregated are %s, not those of the recording", c.S(ef.Args[2]))
		c.need(isField(ef.Args[3], tF, cmd), "record", "time", p, "the time aggregated is %s, not the time of the recording", c.S(ef.Args[3]))
		// conditions: subscribed, and a measurement that has a measure; nothing else
		want := True
		for _, a := range e.atomsOf(ef.PC) {
			if a.Op != "eq" {
				continue
			}
			for k, x := range a.Args {
				o := a.Args[1-k]
				switch {
				case x.Op == "ld" && isElemOf(x, lm) && x.T != nil && namedOf(x.T) != nil && o.Op == "zero",
					elemField(x, lm, mm) && o.Op == "nil":
					want = e.all(want, e.not(e.atom(a)))
				case isField(x, subF, nil) && constInt(o, 1):
					want = e.all(want, e.atom(a))
				}
			}
		}
		rest := e.forget(ef.PC, func(a *Term) bool { return loopAtom(a) || isMapAtom(a) })
		c.need(e.implies(want, rest), "record", "condition", p, "a measurement is only aggregated under a further condition: %s", c.P(rest))
		// the data it goes to: the view's own collector, under the signature of the tags
		var keyT *Term
		for _, g := range e.cases(ef.Args[0]) {
			pc := e.all(ef.PC, g.C)
			if e.decide(pc, False) == 1 {
				continue
			}
			switch {
			case g.T.Op == "mapval":
				c.need(isField(g.T.Args[0], n.sigs, nil) && contains(g.T.Args[0], func(t *Term) bool { return isKeyOf(t, lv) }), "record", "row", p, "a sample is added to %s, not to a row of the view", c.S(g.T))
				if keyT == nil {
					keyT = g.T.Args[1]
				}
				c.need(keyT == g.T.Args[1], "record", "row-key", p, "rows of different keys")
			case isCallTo(g.T, "dyn") || g.T.Op == "call":
				// a new row: created by the view's aggregation and stored under the same key
				okNew := contains(g.T, func(t *Term) bool { return isKeyOf(t, lv) })
				c.need(okNew, "record", "new", p, "a new row is created by %s, not by the view's own aggregation", c.S(g.T))
				c.need(contains(g.T, func(t *Term) bool { return isField(t, tF, cmd) }), "record", "new-time", p, "a new row does not start at the time of the recording")
				stored := False
				for _, mu := range r.where("mapupdate", func(m *Effect) bool { return m.Val == g.T && m.Seq < ef.Seq }) {
					if isField(mu.Addr, n.sigs, nil) && (keyT == nil || mu.Key == keyT) {
						stored = e.any(stored, mu.PC)
						if keyT == nil {
							keyT = mu.Key
						}
					}
				}
				c.need(e.decide(pc, stored) == 1, "record", "new-stored", p, "a new row is not stored under the key it was looked up with: its samples would be lost")
				// only created when there is none
			default:
				c.bad("record", "row", p, "a sample is added to %s", c.S(g.T))
			}
		}
		// creating a row never replaces an existing one
		for _, mu := range r.where("mapupdate", func(m *Effect) bool { return isField(m.Addr, n.sigs, nil) }) {
			absent := false
			for _, a := range e.atomsIn(func(a *Term) bool {
				return a.Op == "mapok" && a.Args[0] == mu.Addr && sameKey(a.Args[1], mu.Key)
			}, mu.PC) {
				absent = absent || e.decide(mu.PC, e.not(a)) == 1
			}
			c.need(absent, "record", "replace", c.pos(mu), "a row that already has samples is replaced (if %s)", c.P(mu.PC))
		}
		if keyT == nil {
			c.bad("record", "key", p, "rows have no key")
			continue
		}
		// the key: the values of the view's tag keys, in order, in the recording's tags
		k := unconv(keyT)
		if !c.need(isCallTo(k, fnName(by)), "key", "encoding", p, "rows are keyed by %s, not by the encoded tag values", c.S(keyT)) {
			continue
		}
		vb := k.Args[0]
		c.need(isFresh(vb), "key", "buffer", p, "the encoded tag values are kept in a shared buffer")
		nw := 0
		for _, x := range r.where("call", func(x *Effect) bool { return x.Callee == wv && x.Args[0] == vb && x.Seq < ef.Seq }) {
			nw++
			lk := loopOver(x, func(t *Term) bool { return isField(t, keysF, nil) })
			if !c.need(lk != nil && contains(lk.Coll, func(t *Term) bool { return isKeyOf(t, lv) }), "key", "keys", c.pos(x), "the tag values encoded are not those of all keys of the view") {
				continue
			}
			c.need(len(lk.early) == 0 && e.completed(ef.PC, lk), "key", "all-keys", c.pos(x), "encoding stops before the last tag key")
			inner := x.PC
			c.need(e.everyIter(x, lk), "key", "always", c.pos(x), "a tag value is only encoded if %s; values would be attributed to other keys", c.P(inner))
			v := unconv(x.Args[1])
			for _, g := range e.cases(v) {
				pc := e.all(x.PC, g.C)
				if e.decide(pc, False) == 1 {
					continue
				}
				g.T = unconv(g.T)
				if g.T.isConst() && constString(g.T) == "" {
					nilTm := e.isNil(e.ld(e.fa(cmd, tmF)))
					pres := False
					for _, a := range e.atomsIn(func(t *Term) bool {
						return t.Op == "mapok" && contains(t, func(t *Term) bool { return isField(t, tmF, cmd) })
					}, g.C) {
						pres = e.any(pres, a)
					}
					c.need(e.decide(pc, e.any(nilTm, e.not(pres))) == 1 && (e.decide(pc, nilTm) == 1 || pres != False), "key", "value", c.pos(x), "an empty value is recorded although the tag may be set (if %s)", c.P(pc))
					continue
				}
				t := g.T
				ok := t.Op == "fieldof" && isFieldVal(t, tv) || isField(t, tv, nil)
				if ok {
					mvv := t.Args[0]
					ok = mvv.Op == "mapval" && isField(mvv.Args[0], tm, nil) && contains(mvv.Args[0], func(t *Term) bool { return isField(t, tmF, cmd) }) && isElemOf(mvv.Args[1], lk)
				}
				c.need(ok, "key", "value", c.pos(x), "the value encoded for a tag key is %s, not the recording's value for that key", c.S(g.T))
			}
		}
		c.need(nw == 1, "key", "writes", p, "each tag key is encoded %d times", nw)
	}
	c.floor("record", "aggregations of a sample", nadd, 1)
	// every subscribed view is reached: the negation of subscribed or no measure explains every miss
	for _, ef := range r.where("call", func(ef *Effect) bool {
		return strings.HasPrefix(ef.Name, "sync/atomic.Load") && len(ef.Args) == 1 && addrField(ef.Args[0]) == subF
	}) {
		sb := e.eq(e.ld(ef.Args[0]), e.mkInt(1, nil))
		want := e.all(ef.PC, sb)
		c.need(e.implies(want, cov), "record", "subscribed", c.pos(ef), "a subscribed view does not get the sample: aggregated if %s", c.P(cov))
	}
	// 2. the operation queues exactly one command with its own arguments
	c19queue(c, n, h, msF, tmF, atF, tF)
	// 3. stats.Record and RecordWithOptions
	c19record(c, desc)
	// 4. measurements
	for _, t := range []string{"Int64Measure", "Float64Measure"} {
		if r := c.go1("stats", "(*"+t+").M"); r != nil && len(r.Rets) == 1 {
			x := r.Rets[0]
			c.need(unif(e.partOf(x, mm)) == r.param(0), "measurement", t+":measure", c.fpos(r), "%s.M does not refer to its measure", t)
			c.need(floatOf(e.partOf(x, mv), r.param(1)), "measurement", t+":value", c.fpos(r), "%s.M does not carry its value", t)
			d := e.partOf(x, desc)
			c.need(d.Op == "ld" && d.Args[0].Op == "field" && d.Args[0].Args[0] == r.param(0), "measurement", t+":desc", c.fpos(r), "%s.M does not refer to its measure's descriptor", t)
		}
	}
	// 5. rows are decoded with the keys they were encoded with
	c19decode(c, n, rv, keysF)
	c19codec(c, wv, rv, by)
	// 6. views are registered under the name of their measure and announced
	nreg := 0
	for _, hd := range n.handlers {
		r := c.runWith(hd, Opts{Resolve: c.keepIface("AggregationData"), Inline: notInline(wv, rv, by)})
		for _, mu := range r.where("mapupdate", func(m *Effect) bool { return mapKeyIs(m.Addr.T, "viewInternal") }) {
			if !allLeaves(mu.Addr, func(t *Term) bool { return isField(t, n.refs, nil) || t.Op == "make" }) {
				continue
			}
			nreg++
			vi := mu.Key
			for _, g := range e.cases(mu.Addr) {
				pc := e.all(mu.PC, g.C)
				if e.decide(pc, False) == 1 {
					continue
				}
				var key *Term
				switch {
				case isField(g.T, n.refs, nil) && g.T.Args[0].Args[0].Op == "mapval":
					key = g.T.Args[0].Args[0].Args[1]
				case g.T.Op == "make":
					// a new set: must be stored as the set of the measure
					for _, m2 := range r.where("mapupdate", func(m *Effect) bool { return isField(m.Addr, n.meas, nil) && m.Seq < mu.Seq }) {
						for _, ow := range leaves(m2.Val) {
							if isFresh(ow) && r.final(e.fa(ow, n.refs)) != nil {
								key = m2.Key
							}
						}
					}
				}
				okk := key != nil && isCallTo(key, "invoke (stats.Measure).Name") && anyLeaf(key.Args[0], func(t *Term) bool { return isField(t, measF, nil) })
				c.need(okk, "register", "measure", c.pos(mu), "a view is added to the views of %s, not of its own measure", c.S(key))
				if okk {
					mview := key.Args[0].Args[0].Args[0]
					vv := r.at(mu, e.fa(vi, viewF))
					c.need(vv == mview || mview == e.ld(e.fa(vi, viewF)), "register", "own-measure", c.pos(mu), "a view is added under the measure of %s", c.S(mview))
				}
			}
		}
	}
	c.floor("register", "views added under their measure", nreg, 1)
	c19subs(c, n, subF, measF, subs)
}

func isMapAtom(a *Term) bool { return a.Op == "mapok" || a.Op == "mapmore" }

func isKeyOf(t *Term, l *LoopCtx) bool {
	return t != nil && t.Op == "rkey" && (l.Iter == t || isElemOf(t, l)) || t != nil && t.Op == "rkey" && t.Args[0] == l.Coll
}

// everyIter: the effect happens in every iteration of the loop.
func (e *Eng) everyIter(x *Effect, l *LoopCtx) bool {
	return e.implies(e.all(l.Entry, l.More), x.PC)
}

func c19queue(c *Ctx, n *statN, h *ssa.Function, msF, tmF, atF, tF *types.Var) {
	e := c.E
	owner := ownerStruct(h.Signature.Recv().Type())
	nq := 0
	for _, f := range n.outside(c) {
		r := c.run(f, c.std())
		sends := r.where("send", func(ef *Effect) bool {
			x := unif(ef.Val)
			return isField(ef.Addr, n.cF, nil) && x != nil && x.T != nil && ownerStruct(x.T) == owner
		})
		if len(sends) == 0 {
			continue
		}
		nq++
		c.need(len(sends) == 1 && e.once(sends[0]), "queue", name(r)+":once", c.pos(sends[0]), "%s queues the measurements more than once", name(r))
		s := sends[0]
		sel := r.where("select", func(x *Effect) bool { return x.Instr == s.Instr })
		cov := s.PC
		if len(sel) > 0 {
			cov = sel[0].PC
			for _, a := range sel[0].Args {
				c.need(a == s.Addr || n.chans[addrField(argOf(a))], "queue", name(r)+":drop", c.pos(s), "%s drops measurements when %s is ready", name(r), c.S(a))
			}
			c.need(!e.hasDefault(sel[0]), "queue", name(r)+":default", c.pos(s), "%s drops measurements when the queue is full", name(r))
		}
		c.need(e.implies(True, cov), "queue", name(r)+":always", c.pos(s), "%s does not always queue the measurements (queued if %s)", name(r), c.P(cov))
		cmd := unif(s.Val)
		ps := r.Root.params
		find := func(want func(t types.Type) bool) *Term {
			for i, p := range ps {
				if i == 0 && r.Root.fn.Signature.Recv() != nil {
					continue
				}
				if want(p.T) {
					return p
				}
			}
			return nil
		}
		tags := find(func(t types.Type) bool { nt := namedOf(t); return nt != nil && nt.Obj().Name() == "Map" })
		att := find(func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
		ms := find(func(t types.Type) bool {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return true
			}
			_, ok := t.Underlying().(*types.Interface)
			return ok
		})
		at := func(f *types.Var) *Term { return r.at(s, e.fa(cmd, f)) }
		c.need(at(tmF) == tags && tags != nil, "queue", name(r)+":tags", c.pos(s), "%s queues the tags %s", name(r), c.S(at(tmF)))
		c.need(at(atF) == att && att != nil, "queue", name(r)+":attachments", c.pos(s), "%s queues the attachments %s", name(r), c.S(at(atF)))
		m := at(msF)
		c.need(ms != nil && (m == ms || m.Op == "ta" && m.Args[0] == ms), "queue", name(r)+":measurements", c.pos(s), "%s queues the measurements %s", name(r), c.S(m))
		c.need(isCallTo(at(tF), "time.Now"), "queue", name(r)+":time", c.pos(s), "%s records the time %s, not the current time", name(r), c.S(at(tF)))
	}
	c.floor("queue", "operations queueing measurements", nq, 2)
	// the hooks of package stats/internal lead to those operations
	for _, g := range []string{"DefaultRecorder", "MeasurementRecorder"} {
		gl := c.W.global("stats/internal", g)
		if gl == nil {
			c.bad("hook", g, "-", "stats/internal.%s not found", g)
			continue
		}
		v := c.initStored(gl)
		fn := calleeOf(unif(v))
		ok := false
		if fn != nil {
			r := c.run(fn, c.std())
			ok = len(r.where("send", func(ef *Effect) bool { return isField(ef.Addr, n.cF, nil) })) == 1
		}
		c.need(ok, "hook", g, c.W.position(gl.Pos()), "stats/internal.%s is not set to an operation that queues measurements on the default meter", g)
	}
}

// floatOf: t is x as a float64.
func floatOf(t, x *Term) bool {
	return t == x || strings.HasPrefix(t.Op, "conv") && t.Args[0] == x && types.Identical(t.T, types.Typ[types.Float64])
}

// partOf is the field of a struct value.
func (e *Eng) partOf(x *Term, f *types.Var) *Term {
	st := x.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return e.fieldOf(x, st, i)
		}
	}
	return nil
}

func argOf(t *Term) *Term {
	if t != nil && t.Op == "ld" {
		return t.Args[0]
	}
	return nil
}

// initStored: the value the package initialisers store in a global of any
// package (the only one).
func (c *Ctx) initStored(g *ssa.Global) *Term {
	var out *Term
	for _, f := range c.W.Funcs {
		if f.Pkg == nil || f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		r := c.run(f, c.std())
		for _, ef := range r.where("store", func(ef *Effect) bool { return ef.Addr.Op == "global" && ef.Addr.Obj == any(g) }) {
			if out != nil && out != ef.Val {
				return nil
			}
			out = ef.Val
		}
	}
	return out
}

func c19record(c *Ctx, desc *types.Var) {
	e := c.E
	fromCtx, tagNew := c.fn("tag", "FromContext"), c.fn("tag", "New")
	ro := func(f string) *types.Var { return c.field("stats", "recordOptions", f) }
	att, mut, meas, rec := ro("attachments"), ro("mutators"), ro("measurements"), ro("recorder")
	gd, gm := c.W.global("stats/internal", "DefaultRecorder"), c.W.global("stats/internal", "MeasurementRecorder")
	subs := c.field("stats", "measureDescriptor", "subs")
	if c.failed() || gd == nil || gm == nil {
		return
	}
	gt := func(g *ssa.Global) *Term { return e.mk("global", e.oid(g), g.Type(), g) }
	isRec := func(ef *Effect) bool {
		if ef.Kind != "call" {
			return false
		}
		if ef.Name == "invoke (stats.Recorder).Record" {
			return true
		}
		if ef.Name != "dyn" {
			return false
		}
		v := ef.Val
		return anyLeaf(v, func(t *Term) bool {
			for t.Op == "ta" {
				t = t.Args[0]
			}
			return t.Op == "ld" && (t.Args[0] == gt(gd) || t.Args[0] == gt(gm)) || t.Op == "bound"
		})
	}
	opt := c.std()
	opt.Inline = notInline(fromCtx, tagNew)
	for _, f := range []string{"Record", "RecordWithOptions", "RecordWithTags"} {
		fn := c.fn("stats", f)
		if fn == nil {
			continue
		}
		r := c.runWith(fn, opt)
		recs := r.where("call", isRec)
		if !c.need(len(recs) > 0, "operation", f+":recorder", c.fpos(r), "%s never hands measurements to a recorder", f) {
			continue
		}
		cov := False
		for _, ef := range recs {
			p := c.pos(ef)
			c.need(e.once(ef) && e.decide(e.all(cov, ef.PC), False) == 1, "operation", f+":once", p, "%s hands the measurements to the recorder more than once", f)
			cov = e.any(cov, ef.PC)
			args := ef.Args
			if ef.Name != "dyn" {
				args = args[1:]
			}
			if len(args) != 3 {
				continue
			}
			// measurements
			var ms *Term
			if f == "Record" {
				ms = r.param(1)
				c.need(args[1] == ms, "operation", f+":measurements", p, "%s records %s", f, c.S(args[1]))
				c.need(args[2].Op == "nil" || args[2].isConst(), "operation", f+":attachments", p, "%s records attachments", f)
				c.need(isCallTo(args[0], fnName(fromCtx)) && args[0].Args[0] == r.param(0), "operation", f+":tags", p, "%s records with the tags %s, not with the tags of its context", f, c.S(args[0]))
			} else {
				m := unif(args[1])
				c.need(isRecField(r, m, meas), "operation", f+":measurements", p, "%s records %s, not the measurements given", f, c.S(m))
				a := unconv(args[2])
				c.need(isRecField(r, a, att) || f == "RecordWithTags", "operation", f+":attachments", p, "%s records the attachments %s, not those given", f, c.S(a))
				// tags: of the mutated context when there are mutators
				nl := 0
				for _, g := range e.cases(args[0]) {
					pc := e.all(ef.PC, g.C)
					if e.decide(pc, False) == 1 {
						continue
					}
					if !c.need(isCallTo(g.T, fnName(fromCtx)), "operation", f+":tags", p, "%s records with the tags %s", f, c.S(g.T)) {
						continue
					}
					for _, gc := range e.cases(g.T.Args[0]) {
						pc := e.all(pc, gc.C)
						if e.decide(pc, False) == 1 {
							continue
						}
						x := gc.T
						if x == r.param(0) {
							// no mutators
							none := false
							for _, lt := range e.atomsOf(pc) {
								if lt.Op != "le" {
									continue
								}
								contains(lt, func(y *Term) bool {
									if y.Op == "len" && (isRecField(r, y.Args[0], mut) || f == "RecordWithTags") && e.decide(pc, e.leq(y, e.mkInt(0, nil))) == 1 {
										none = true
									}
									return false
								})
							}
							c.need(none, "operation", f+":untagged", p, "%s records with the tags of the original context although mutators were given", f)
							continue
						}
						nl++
						okNew := x.Op == "ext" && x.Aux == "0" && isCallTo(x.Args[0], fnName(tagNew)) && x.Args[0].Args[0] == r.param(0)
						if c.need(okNew, "operation", f+":newtags", p, "%s records with the tags of %s", f, c.S(x)) {
							er := e.mk("ext", "1", types.Universe.Lookup("error").Type(), nil, x.Args[0])
							c.need(e.decide(pc, e.isNil(er)) == 1, "operation", f+":error", p, "%s records although a tag mutator failed", f)
							marg := x.Args[0].Args[1]
							c.need(isRecField(r, marg, mut) || f == "RecordWithTags", "operation", f+":mutators", p, "%s applies the mutators %s", f, c.S(marg))
						}
					}
				}
				c.need(nl > 0, "operation", f+":mutated", p, "%s never applies its mutators", f)
			}
			// every condition for recording: measurements present, a recorder, one subscribed, mutators succeeded
			noErr := True
			rest := e.forget(ef.PC, func(a *Term) bool {
				switch a.Op {
				case "exists", "isT":
					return true
				case "eq":
					if a.Args[1].Op != "nil" {
						return false
					}
					x := a.Args[0]
					if x.Op == "ext" && isCallTo(x.Args[0], fnName(tagNew)) {
						noErr = e.all(noErr, e.atom(a))
						return false
					}
					return isRecField(r, x, rec) || x.Op == "ld" && (x.Args[0] == gt(gd) || x.Args[0] == gt(gm))
				case "le":
					return contains(a, func(t *Term) bool {
						return t.Op == "len" && (isRecField(r, t.Args[0], meas) || t.Args[0] == r.param(1) && f == "Record")
					})
				}
				return false
			})
			if f == "RecordWithTags" {
				rest = True // what it adds to RecordWithOptions is checked through the arguments
			}
			c.need(e.implies(noErr, rest), "operation", f+":condition", p, "%s records only under a further condition: %s", f, c.P(rest))
		}
		// nothing is recorded exactly when no measurement's measure has a view
		var lp *LoopCtx
		for _, l := range r.Loops {
			if l.Kind == "slice" && (l.Coll == r.param(1) && f == "Record" || isRecField(r, l.Coll, meas)) {
				lp = l
			}
		}
		if f != "RecordWithTags" {
			if !c.need(lp != nil, "operation", f+":subscribed", c.fpos(r), "%s does not look for a measure that has a view", f) {
				continue
			}
			// not recording although a subscription exists needs another cause
			subAt := func(t *Term) bool { return t.Op == "field" && addrField(t) == subs }
			okSub := e.decideSubscribed(r, lp, cov, subAt)
			c.need(okSub == "", "operation", f+":subscribed", c.fpos(r), "%s: %s", f, okSub)
		}
		// returns: an error exactly when a mutator failed
		if f == "RecordWithOptions" {
			for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
				for _, g := range e.cases(ef.Args[0]) {
					pc := e.all(ef.PC, g.C)
					if e.decide(pc, False) == 1 {
						continue
					}
					isErr := g.T.Op == "ext" && isCallTo(g.T.Args[0], fnName(tagNew))
					if isErr {
						c.need(e.decide(e.all(pc, cov), False) == 1 || e.decide(e.all(pc, cov), e.isNil(g.T)) == 1, "operation", f+":error-and-record", c.pos(ef), "%s records and returns an error", f)
						continue
					}
					c.need(e.decide(pc, e.isNil(g.T)) == 1, "operation", f+":result", c.pos(ef), "%s returns %s", f, c.S(g.T))
					for _, er := range e.atomsIn(func(t *Term) bool {
						return t.Op == "eq" && t.Args[1].Op == "nil" && t.Args[0].Op == "ext" && isCallTo(t.Args[0].Args[0], fnName(tagNew))
					}, pc) {
						c.need(e.decide(pc, e.not(er)) != 1, "operation", f+":swallowed", c.pos(ef), "%s swallows the error of a tag mutator", f)
					}
				}
			}
		}
	}
	// the options set their own field
	for opt, fld := range map[string]*types.Var{"WithAttachments": att, "WithTags": mut, "WithMeasurements": meas, "WithRecorder": rec} {
		r := c.go1("stats", opt)
		if r == nil || len(r.Rets) != 1 {
			continue
		}
		cl := r.Rets[0]
		f := calleeOf(cl)
		if !c.need(f != nil, "option", opt, c.fpos(r), "%s does not return a function", opt) {
			continue
		}
		arg := e.param(f, 0)
		rr := e.AnalyseWith(f, []*Term{arg}, cl.Args, r.Final, c.std())
		c.note(rr)
		ok := false
		for _, s := range rr.where("store", func(s *Effect) bool { return s.Addr == e.fa(arg, fld) }) {
			v := s.Val
			ok = s.PC == True && (v == r.param(0) || v.Op == "ld" && v.Args[0].T != nil)
		}
		c.need(ok, "option", opt, c.fpos(r), "%s does not set %s to its argument", opt, fld.Name())
	}
}

// isRecField: a read of a field of the record options, in whatever state.
func isRecField(r *Run, t *Term, f *types.Var) bool {
	if t == nil {
		return false
	}
	return anyLeaf(t, func(x *Term) bool {
		if isField(x, f, nil) {
			return true
		}
		return x.Op == "ld" && x.Args[0].Op == "field" && addrField(x.Args[0]) == f
	})
}

// decideSubscribed: recording requires that some measure has a view, and when
// one has, the only other reasons not to record are checked by the caller.
func (e *Eng) decideSubscribed(r *Run, l *LoopCtx, cov BDD, subAt func(*Term) bool) string {
	mentions := func(b BDD) bool {
		for _, a := range e.atomsOf(b) {
			if contains(a, subAt) {
				return true
			}
		}
		return false
	}
	// (a) early exit on the first subscribed one
	for _, av := range l.early {
		raw := e.rawOf(av)
		if !mentions(raw) {
			return "the search for a measure with a view ends early for another reason"
		}
	}
	if len(l.early) > 0 {
		if e.decide(cov, e.any(l.early...)) != 1 {
			return "measurements are recorded although none of their measures has a view"
		}
		// an iteration that continues was not subscribed
		back := e.any(l.BackPC...)
		for _, a := range e.atomsOf(back) {
			if !contains(a, subAt) {
				continue
			}
			no := e.decide(back, e.not(e.atom(a))) == 1
			contains(a, func(t *Term) bool {
				// the flag is 0 or 1
				if len(t.Args) > 0 && t.T != nil && isInteger(t.T) && contains(t, subAt) {
					no = no || e.decide(e.all(back, e.eq(t, e.mkInt(1, t.T))), False) == 1
				}
				return false
			})
			if !no {
				return "the search for a measure with a view skips one that has"
			}
		}
		if !mentions(back) {
			return "the search for a measure with a view skips some"
		}
		return ""
	}
	// (b) a flag
	for _, lp := range l.phis {
		if lp.Term == nil || !isBool(lp.Term.T) {
			continue
		}
		fl := e.bdd(lp.Term)
		if e.decide(cov, fl) != 1 {
			continue
		}
		ok := len(lp.Back) > 0
		for i, b := range lp.Back {
			bb := e.all(e.bdd(b), lp.BPC[i])
			nb := e.all(e.not(e.bdd(b)), lp.BPC[i])
			if !mentions(e.any(bb, nb)) {
				ok = false
			}
			// cleared flags never come from set ones
			if e.decide(e.all(nb, fl), False) != 1 {
				ok = false
			}
		}
		if ok {
			return ""
		}
	}
	return "whether some measure has a view is not decided over all measurements"
}

// c19decode: the rows handed out pair each key with the value written for it.
func c19decode(c *Ctx, n *statN, rv *ssa.Function, keysF *types.Var) {
	e := c.E
	rowTags, rowData := c.field("stats/view", "Row", "Tags"), c.field("stats/view", "Row", "Data")
	tk, tvv := c.field("tag", "Tag", "Key"), c.field("tag", "Tag", "Value")
	if c.failed() {
		return
	}
	nr := 0
	opt := Opts{Resolve: c.keepIface("AggregationData"), Inline: notInline(rv)}
	for _, f := range append([]*ssa.Function{c.fn("stats/view", "(*worker).Read")}, n.handlers...) {
		if f == nil {
			continue
		}
		r := c.runWith(f, opt)
		for _, s := range r.storesTo(rowData) {
			nr++
			p := c.pos(s)
			row := s.Addr.Args[0]
			lp := loopOver(s, func(t *Term) bool { return isField(t, n.sigs, nil) })
			if !c.need(lp != nil && isFresh(row), "rows", name(r)+":loop", p, "rows are not built in a loop over all rows of the view") {
				continue
			}
			c.need(len(lp.early) == 0, "rows", name(r)+":all", p, "not all rows are handed out")
			inner := e.forget(s.PC, loopAtom)
			_ = inner
			d := s.Val
			c.need(isCallTo(d, "invoke (stats/view.AggregationData).clone") && d.Args[0].Op == "rval" && d.Args[0].Args[0] == lp.Coll, "rows", name(r)+":data", p, "a row's data is %s, not a copy of the row's own", c.S(d))
			// tags
			for _, ts := range r.storesTo(rowTags) {
				if ts.Addr.Args[0] != row {
					continue
				}
			}
			for _, rd := range r.where("call", func(x *Effect) bool { return x.Callee == rv && x.Seq < s.Seq && len(x.Loops) > len(s.Loops) }) {
				lk := rd.Loops[len(rd.Loops)-1]
				c.need(lk.Kind == "slice" && isField(lk.Coll, keysF, nil) && len(lk.early) == 0, "rows", name(r)+":keys", c.pos(rd), "tag values are read in a loop over %s instead of the view's keys", c.S(lk.Coll))
				inner := e.forget(rd.PC, loopAtom)
				outer := e.forget(s.PC, loopAtom)
				c.need(e.implies(outer, inner), "rows", name(r)+":read", c.pos(rd), "a tag value is not read for every key (read if %s); later values would be attributed to other keys", c.P(inner))
				for _, st := range r.storesTo(tk) {
					if len(st.Loops) > 0 && st.Loops[len(st.Loops)-1] == lk {
						c.need(isElemOf(st.Val, lk), "rows", name(r)+":key", c.pos(st), "a tag value is attributed to the key %s", c.S(st.Val))
					}
				}
				for _, st := range r.storesTo(tvv) {
					if len(st.Loops) > 0 && st.Loops[len(st.Loops)-1] == lk {
						c.need(unconv(st.Val) == rd.Result, "rows", name(r)+":value", c.pos(st), "the tag value handed out is %s", c.S(st.Val))
						// only absent values are left out
						want := e.all(rd.PC, e.not(e.isNil(rd.Result)), e.leq(e.mkInt(1, nil), e.length(rd.Result)))
						c.need(e.implies(want, st.PC), "rows", name(r)+":left-out", c.pos(st), "a tag is left out unless %s", c.P(st.PC))
					}
				}
			}
		}
	}
	c.floor("rows", "constructions of rows", nr, 2)
}

// c19codec: writing a value and reading it back agree, for the values a tag
// can have.
func c19codec(c *Ctx, wv, rv, by *ssa.Function) {
	e := c.E
	buf, wi, ri := c.field("internal/tagencoding", "Values", "Buffer"), c.field("internal/tagencoding", "Values", "WriteIndex"), c.field("internal/tagencoding", "Values", "ReadIndex")
	if c.failed() {
		return
	}
	// write: one length byte at the write index, then the bytes, then advance
	r := c.run(wv, c.std())
	vb, v := r.param(0), r.param(1)
	w0 := e.ld(e.fa(vb, wi))
	short := e.leq(e.length(v), e.mkInt(255, nil))
	fin := r.final(e.fa(vb, wi))
	okw := true
	// the low byte of a length of up to 255 is the length
	for _, ef := range r.Effects {
		for _, a := range e.atomsOf(ef.PC) {
			contains(a, func(t *Term) bool {
				if t != e.length(v) && strings.HasPrefix(t.Op, "conv") && unconv(t) == e.length(v) {
					short = e.all(short, e.leq(t, e.length(v)), e.leq(e.length(v), t))
				}
				return false
			})
		}
	}
	for _, g := range e.cases(fin) {
		pc := e.all(g.C, short)
		if e.decide(pc, False) == 1 {
			continue
		}
		want := e.fromLin(e.toLin(w0).add(e.toLin(e.length(v)), 1), nil)
		want = e.plus(want, 1)
		if !e.sameLin(pc, e.low8(g.T, v), want) {
			okw = false
			c.bad("codec", "advance", c.fpos(r), "writing a value of up to 255 bytes moves the write index to %s", c.S(g.T))
		}
	}
	c.need(okw, "codec", "advance", c.fpos(r), "the write index is not advanced past the value")
	nb, nc := 0, 0
	for _, s := range r.where("store", func(s *Effect) bool { return s.Addr.Op == "index" || s.Addr.Op == "ite" }) {
		for _, g := range e.cases(s.Addr) {
			if g.T.Op != "index" {
				continue
			}
			nb++
			c.need(e.sameLin(e.all(s.PC, g.C), g.T.Args[1], w0), "codec", "length-at", c.pos(s), "the length byte is written at %s", c.S(g.T.Args[1]))
			c.need(e.lenByte(e.all(s.PC, g.C, short), s.Val, v), "codec", "length", c.pos(s), "the length written is %s", c.S(s.Val))
		}
	}
	for _, s := range r.where("copy", nil) {
		if !contains(s.Val, func(t *Term) bool { return t == v }) {
			continue // growing the buffer
		}
		nc++
		for _, g := range e.cases(s.Addr) {
			lo, _ := sliceBounds(g.T)
			pc := e.all(s.PC, g.C, short)
			if e.decide(pc, False) == 1 {
				continue
			}
			c.need(lo != nil && e.sameLin(pc, lo, e.plus(w0, 1)), "codec", "value-at", c.pos(s), "the value is written at %s", c.S(g.T))
			// the write index is within the buffer at the start
			pc = e.all(pc, e.leq(e.mkInt(0, nil), w0), e.leq(w0, e.length(e.ld(e.fa(vb, buf)))))
			for _, h := range e.splitIte(e.length(g.T)) {
				pc := e.all(pc, h.C)
				c.need(e.decide(pc, False) == 1 || e.provable(r, pc, e.leq(e.length(v), h.T)), "codec", "room", c.pos(s), "the value is written where only %s bytes fit (if %s)", c.S(h.T), c.P(pc))
			}
		}
	}
	c.floor("codec", "length and value writes", nb+nc, 2)
	// read
	rr := c.run(rv, c.std())
	rb := rr.param(0)
	r0 := e.ld(e.fa(rb, ri))
	lenB := e.ld(e.mk("index", "", types.NewPointer(types.Typ[types.Byte]), nil, e.ld(e.fa(rb, buf)), r0))
	_ = lenB
	for _, ef := range rr.where("return", func(ef *Effect) bool { return ef.Frame == rr.Root }) {
		for _, g := range e.cases(ef.Args[0]) {
			pc := e.all(ef.PC, g.C)
			if e.decide(pc, False) == 1 {
				continue
			}
			idx := rr.at(ef, e.fa(rb, ri))
			ln := e.toLin(idx).add(e.toLin(e.plus(r0, 1)), -1) // bytes consumed after the length byte
			if g.T.Op == "nil" {
				c.need(e.decide(pc, e.leZero(ln)) == 1, "codec", "read-empty", c.pos(ef), "reading an absent value consumes %s bytes", c.S(e.fromLin(ln, nil)))
				continue
			}
			c.need(e.freshIn(rr, g.T), "codec", "read-fresh", c.pos(ef), "a value read shares the buffer")
			c.need(e.sameLin(pc, e.length(g.T), e.fromLin(ln, nil)), "codec", "read-advance", c.pos(ef), "reading a value of %s bytes moves the read index by %s", c.S(e.length(g.T)), c.S(e.fromLin(ln, nil)))
			okc := false
			for _, cp := range rr.where("copy", func(x *Effect) bool { return x.Addr == g.T || rootOf(x.Addr) == g.T }) {
				lo, _ := sliceBounds(cp.Val)
				okc = okc || lo != nil && e.sameLin(pc, lo, e.plus(r0, 1))
			}
			if g.T.Op == "append" && len(g.T.Args) == 2 && g.T.Args[1].Op == "spread" {
				lo, _ := sliceBounds(g.T.Args[1].Args[0])
				okc = lo != nil && e.sameLin(pc, lo, e.plus(r0, 1))
			}
			c.need(okc, "codec", "read-at", c.pos(ef), "a value is not read from behind its length byte")
		}
	}
	// Bytes: what was written
	br := c.run(by, c.std())
	if len(br.Rets) == 1 {
		lo, hi := sliceBounds(br.Rets[0])
		ok := hi != nil && (lo == nil || constInt(lo, 0)) && hi == e.ld(e.fa(br.param(0), wi))
		c.need(ok, "codec", "bytes", c.fpos(br), "Bytes returns %s, not what was written", c.S(br.Rets[0]))
	}
}

func (e *Eng) sameLin(pc BDD, a, b *Term) bool {
	if a == b {
		return true
	}
	return e.decide(pc, e.leq(a, b)) == 1 && e.decide(pc, e.leq(b, a)) == 1
}

// low8 replaces uint8(len(v)) by len(v): the caller bounds len(v) by 255.
func (e *Eng) low8(t, v *Term) *Term {
	l := e.length(v)
	m := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if x, ok := m[t]; ok {
			return x
		}
		out := t
		if strings.HasPrefix(t.Op, "conv") && unconv(t) == l {
			out = l
		} else if t.Op == "copied" && len(t.Args) == 2 {
			// a copy for which there is room takes all of its source
			if lo, hi := sliceBounds(t.Args[1]); rootOf(t.Args[1]) == v && t.Args[1].Op == "slice" && (lo == nil || constInt(lo, 0)) && hi != nil && (unconv(hi) == l) {
				out = l
			}
		} else if t.Op == "lin" || strings.HasPrefix(t.Op, "+") {
			li := e.toLin(t)
			res := e.toLin(e.mkInt(li.k, nil))
			for x, k := range li.co {
				res = res.add(e.toLin(rec(x)), k)
			}
			out = e.fromLin(res, nil)
		}
		m[t] = out
		return out
	}
	return rec(t)
}

func (e *Eng) lenByte(pc BDD, x, v *Term) bool {
	ok := true
	for _, g := range e.cases(x) {
		p := e.all(pc, g.C)
		if e.decide(p, False) == 1 {
			continue
		}
		if unconv(g.T) == e.length(v) {
			continue
		}
		if k, isK := g.T.intVal(); isK && k == 0 && e.decide(p, e.leq(e.length(v), e.mkInt(0, nil))) == 1 {
			continue
		}
		ok = false
	}
	return ok
}

// c19subs: registering announces the measure; measures start out unannounced.
func c19subs(c *Ctx, n *statN, subF, measF, subs *types.Var) {
	e := c.E
	rep := c.W.global("stats/internal", "SubscriptionReporter")
	if rep == nil {
		c.bad("announce", "hook", "-", "stats/internal.SubscriptionReporter not found")
		return
	}
	na := 0
	for _, h := range n.handlers {
		r := c.run(h, c.std())
		subsc := r.where("call", func(ef *Effect) bool {
			return strings.HasPrefix(ef.Name, "sync/atomic.Store") && addrField(ef.Args[0]) == subF && len(ef.Args) == 2 && constInt(ef.Args[1], 1)
		})
		subsc = append(subsc, r.where("store", func(ef *Effect) bool {
			return addrField(ef.Addr) == subF && constInt(ef.Val, 1) && !isFresh(rootOf(ef.Addr))
		})...)
		if len(subsc) == 0 {
			continue
		}
		anns := r.where("call", func(ef *Effect) bool {
			return ef.Name == "dyn" && ef.Val.Op == "ld" && ef.Val.Args[0].Op == "global" && ef.Val.Args[0].Obj == any(rep)
		})
		for _, s := range subsc {
			na++
			ok := false
			for _, a := range anns {
				x := a.Args[0]
				if e.implies(s.PC, a.PC) && isCallTo(x, "invoke (stats.Measure).Name") && anyLeaf(x.Args[0], func(t *Term) bool { return isField(t, measF, nil) }) {
					ok = true
				}
			}
			c.need(ok, "announce", name(r), c.pos(s), "a view is subscribed without announcing its measure: its measurements would be dropped")
			// every registered view is subscribed
			lp := (*LoopCtx)(nil)
			for _, l := range s.Loops {
				lp = l
			}
			c.need(lp != nil && lp.Kind == "slice" && e.loopDone(lp), "announce", name(r)+":all", c.pos(s), "not all views registered are subscribed")
		}
	}
	c.floor("announce", "subscriptions of views", na, 1)
	// the hook marks the measure of that name
	if v := c.initStored(rep); v != nil {
		f := calleeOf(unif(v))
		if c.need(f != nil, "announce", "hook", "-", "SubscriptionReporter is not a known function") {
			r := c.run(f, c.std())
			ok := false
			for _, ef := range r.where("call", func(ef *Effect) bool {
				if !strings.HasPrefix(ef.Name, "sync/atomic.") || addrField(ef.Args[0]) != subs {
					return false
				}
				n := strings.TrimPrefix(ef.Name, "sync/atomic.")
				return strings.HasPrefix(n, "Store") || strings.HasPrefix(n, "Swap") || strings.HasPrefix(n, "CompareAndSwap") && constInt(ef.Args[1], 0)
			}) {
				ow := ef.Args[0].Args[0]
				ok = ok || ef.PC == True && ow.Op == "mapval" && ow.Args[1] == r.param(0) && constInt(ef.Args[len(ef.Args)-1], 1)
			}
			c.need(ok, "announce", "mark", c.fpos(r), "SubscriptionReporter does not mark the measure it is told about")
		}
	} else {
		c.bad("announce", "hook", "-", "SubscriptionReporter is not set by initialisation")
	}
}

func (e *Eng) loopDone(l *LoopCtx) bool {
	for _, av := range l.early {
		if e.decide(True, e.not(av)) != 1 {
			return false
		}
	}
	return true
}

// splitIte lists the values a sum can have, with the condition of each, when
// some of its terms are conditional.
func (e *Eng) splitIte(t *Term) []guarded {
	var out []guarded
	for _, g := range e.cases(t) {
		var cond *Term
		l := e.toLin(g.T)
		for x := range l.co {
			if x.Op == "ite" && (cond == nil || x.ID < cond.ID) {
				cond = x
			}
		}
		if cond == nil {
			out = append(out, g)
			continue
		}
		k := l.co[cond]
		for i, c := range []BDD{cond.Obj.(BDD), e.not(cond.Obj.(BDD))} {
			m := e.toLin(e.fromLin(l, nil)).add(e.toLin(cond), -k).add(e.toLin(cond.Args[i]), k)
			for _, h := range e.splitIte(e.fromLin(m, nil)) {
				if cc := e.all(g.C, c, h.C); cc != False {
					out = append(out, guarded{C: cc, T: h.T})
				}
			}
		}
	}
	return out
}
