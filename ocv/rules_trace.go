package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// names shared by the trace rules
type traceNames struct {
	data, mu, sc, lru, ann, msg, links, store, once, task                                      *types.Var
	topts, tid, sid, tstate                                                                    *types.Var
	qqueue, qcap, qdrop, lcache, lkeys, ldrop                                                  *types.Var
	sdAttr, sdAnn, sdMsg, sdLinks, sdDA, sdDN, sdDM, sdDL, sdEnd, sdStart, sdStatus, sdStatus2 *types.Var
	sdSC, sdParent, sdKind, sdName, sdRemote, sdChild                                          *types.Var
}

func (c *Ctx) tn() *traceNames {
	n := &traceNames{}
	f := func(t, x string) *types.Var { return c.field("trace", t, x) }
	n.data, n.mu, n.sc, n.lru, n.ann, n.msg, n.links = f("span", "data"), f("span", "mu"), f("span", "spanContext"), f("span", "lruAttributes"), f("span", "annotations"), f("span", "messageEvents"), f("span", "links")
	n.store, n.once, n.task = f("span", "spanStore"), f("span", "endOnce"), f("span", "executionTracerTaskEnd")
	n.topts, n.tid, n.sid, n.tstate = f("SpanContext", "TraceOptions"), f("SpanContext", "TraceID"), f("SpanContext", "SpanID"), f("SpanContext", "Tracestate")
	n.qqueue, n.qcap, n.qdrop = f("evictedQueue", "queue"), f("evictedQueue", "capacity"), f("evictedQueue", "droppedCount")
	n.lcache, n.lkeys, n.ldrop = f("lruMap", "cache"), f("lruMap", "cacheKeys"), f("lruMap", "droppedCount")
	n.sdAttr, n.sdAnn, n.sdMsg, n.sdLinks = f("SpanData", "Attributes"), f("SpanData", "Annotations"), f("SpanData", "MessageEvents"), f("SpanData", "Links")
	n.sdDA, n.sdDN, n.sdDM, n.sdDL = f("SpanData", "DroppedAttributeCount"), f("SpanData", "DroppedAnnotationCount"), f("SpanData", "DroppedMessageEventCount"), f("SpanData", "DroppedLinkCount")
	n.sdEnd, n.sdStart, n.sdStatus = f("SpanData", "EndTime"), f("SpanData", "StartTime"), f("SpanData", "Status")
	n.sdSC, n.sdParent, n.sdKind, n.sdName, n.sdRemote, n.sdChild = f("SpanData", "SpanContext"), f("SpanData", "ParentSpanID"), f("SpanData", "SpanKind"), f("SpanData", "Name"), f("SpanData", "HasRemoteParent"), f("SpanData", "ChildSpanCount")
	return n
}

func (c *Ctx) failed() bool { return len(c.Violations) > 0 }

// sampledB: bit 0 of the trace options.
func (c *Ctx) sampledB(topts *Term) BDD {
	return c.E.eq(c.E.bits(topts, 1), c.E.mkInt(1, topts.T))
}

const exportSpan = "invoke (trace.Exporter).ExportSpan"

func init() {
	reg("C01", "interprocedural path-condition and dominance analysis of the span end path (value graph over go/ssa)",
		"The condition under which ExportSpan is reached from End is proved equal to (recording and sampled and an exporter exists); every such call is inside the span's own sync.Once and a loop over the whole published exporter set, with a snapshot record whose end time was set before.", ruleC01)
	reg("C02", "lockset analysis over every entry point of the trace package",
		"Each read and write of span state reachable from an entry point must happen with that span's own mutex held, or on a span not yet published; fields never written after publication are exempt.", ruleC02)
	reg("C03", "freshness / escape analysis of the snapshot record",
		"Every reference stored in the record handed out must be allocated while building it; collections and counters must come from the matching span field; nothing writes the record after it was handed out.", ruleC03)
	reg("C04", "nil-dereference analysis with path conditions for every span method",
		"For each method the dereference of the receiver, of the recording data and of the collections must be unreachable under the nil / non-recording assumption, and non-recording mutators must have no effect.", ruleC04)
	reg("C05", "symbolic final-state specification of the bounded collections and of the limit/collection/counter pairing",
		"The queue and LRU operations are evaluated to final-state terms and compared with their specification case by case; each limit, collection, mutator, exported slice and counter is matched.", ruleC05)
	reg("C06", "path-condition decision table for span start",
		"The sampler-consultation condition, the chosen sampler, its arguments and every field of the started span are compared, case by case, with the documented decision table.", ruleC06)
	reg("C07", "lock, atomic and initialisation-order analysis of the ID generator",
		"Zero rejection loops, entropy initialisation under sync.Once before first use, odd increment, and atomic / locked access of the generator state are required on every path.", ruleC07)
	reg("C08", "copy-on-write discipline and final-state analysis",
		"Read-modify-write of the published configuration and exporter set happens in one critical section on a fresh copy; each configuration field is preserved or replaced per specification; published values are never written.", ruleC08)
	reg("C09", "final-state specification, typestate and lockset analysis of the span store",
		"Active-set insertion/removal, bucket choice, index/bounds agreement, ring-buffer transitions and resizing are compared with their specification; all store state is accessed under its lock.", ruleC09)
}

func ruleC01(c *Ctx) {
	n := c.tn()
	r := c.go1("trace", "(*span).End")
	if r == nil || c.failed() {
		return
	}
	e := c.E
	s := r.param(0)
	calls := r.calls(exportSpan)
	if !c.floor("export-reached", "Exporter.ExportSpan calls from End", len(calls), 1) {
		return
	}
	data := e.fv(s, n.data)
	rec := e.all(e.not(e.isNil(s)), e.not(e.isNil(data)))
	sampled := c.sampledB(e.ld(e.ap(s, n.sc, n.topts)))
	exps := c.W.global("trace", "exporters")
	isExp := func(t *Term) bool {
		return e.containsC(t, func(x *Term) bool { return x.Op == "global" && x.Obj == any(exps) })
	}
	cover := False
	for _, ef := range calls {
		p := c.pos(ef)
		c.need(onceHeld(ef, e.fa(s, n.once)), "once", "ExportSpan", p, "ExportSpan is called outside the span's own endOnce, so ending a span twice exports it twice")
		c.need(e.implies(ef.PC, rec), "export-only-recording", "ExportSpan", p, "ExportSpan can be reached for a span that is nil or not recording: %s", c.P(ef.PC))
		c.need(e.implies(ef.PC, sampled), "export-only-sampled", "ExportSpan", p, "ExportSpan can be reached for a span that is not sampled: %s", c.P(ef.PC))
		l := loopOver(ef, isExp)
		if c.need(l != nil, "all-exporters", "loop", p, "ExportSpan is not called for each element of the published exporter set") {
			c.need(l.Full && l.Kind == "map", "all-exporters", "full", p, "the loop over the exporters can stop early, so some exporters never see the span")
			c.need(isElemOf(ef.Args[0], l), "all-exporters", "receiver", p, "ExportSpan is called on %s, which is not the exporter of the current iteration", c.S(ef.Args[0]))
			// nothing but emptiness of the set may prevent the export
			must := e.all(rec, sampled)
			rest := e.forget(ef.PC, func(t *Term) bool {
				switch t.Op {
				case "more":
					return isExp(t)
				case "isT":
					return isExp(t)
				case "le":
					k, _ := t.Args[1].intVal()
					return k == 0 && t.Args[0].Op == "len" && isExp(t.Args[0])
				}
				return false
			})
			cover = e.any(cover, rest)
			_ = must
		}
		// the record
		sd := ef.Args[1]
		if c.need(sd.Op == "alloc", "record", "fresh", p, "the exported record is %s, not a record built for this export", c.S(sd)) {
			end := r.at(ef, e.fa(sd, n.sdEnd))
			c.need(e.hasCall(end, "time.Since", "time.Now"), "record", "EndTime", p, "the exported record's EndTime is %s, not a time taken when the span ended", c.S(end))
			for _, f := range []*types.Var{n.sdName, n.sdStart, n.sdParent, n.sdKind, n.sdRemote, n.sdChild, n.sdStatus, n.sdSC} {
				got := r.at(ef, e.fa(sd, f))
				want := e.ld(e.fa(data, f))
				c.need(e.same(ef.PC, got, want), "record", f.Name(), p, "the exported record's %s is %s, not the span's %s", f.Name(), c.S(got), c.S(want))
			}
		}
	}
	c.need(e.implies(e.all(rec, sampled), cover), "export-required", "ExportSpan", c.fpos(r), "a sampled recording span is not exported although an exporter is registered: export condition is %s", c.P(cover))
	// ExportSpan is called nowhere else in the trace package
	for _, ci := range c.sites(exportSpan) {
		f := ci.Parent()
		if shortPkg(fnPkgPath(f)) != "trace" {
			continue
		}
		c.need(r.visited[f], "only-on-end", fnName(f), c.W.instrPos(ci), "%s exports a span outside the end path", fnName(f))
	}
	// the exporter may only be reached once per iteration, and the wrapper
	// Span.End forwards to the span exactly once
	w := c.go1("trace", "(*Span).End")
	if w != nil {
		fw := w.calls("invoke (trace.SpanInterface).End")
		okc := False
		for _, ef := range fw {
			c.need(e.once(ef), "forward", "loop", c.pos(ef), "Span.End ends the span more than once")
			okc = e.any(okc, ef.PC)
		}
		c.need(len(fw) == 1 && e.implies(e.not(e.isNil(w.param(0))), okc), "forward", "(*Span).End", c.fpos(w), "Span.End does not forward to the span's End exactly once for every non-nil span")
	}
	// every other path that marks the span as ended must be the Once itself
	for _, g := range c.roots("trace") {
		if fnName(g) == "(*trace.span).End" || fnName(g) == "(*trace.Span).End" {
			continue
		}
		rr := c.run(g, c.std())
		for _, ef := range rr.calls(exportSpan) {
			c.bad("only-on-end", fnName(g), c.pos(ef), "%s exports a span although it was not ended", fnName(g))
		}
	}
}

// isElemOf: t is the key (map) or element (slice) of the loop's iteration.
// copySource: what a slice that is a plain copy was copied from.
func copySource(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "copyof":
			t = t.Args[0]
		case t.Op == "append" && len(t.Args) == 2 && t.Args[0] != nil && (t.Args[0].Op == "nil" || t.Args[0].Op == "zero") && t.Args[1].Op == "spread":
			t = t.Args[1].Args[0]
		default:
			return t
		}
	}
	return t
}

func isElemOf(t *Term, l *LoopCtx) bool {
	if t == nil {
		return false
	}
	switch l.Kind {
	case "map":
		return t.Op == "rkey" || t.Op == "rval" || t.Op == "mapval" && t.Args[1].Op == "rkey" && (t.Args[0] == l.Coll || t.Args[1].Args[0] == l.Coll && hasLeaf(l.Coll, t.Args[0]))
	case "slice":
		switch t.Op {
		case "ld", "fieldof", "field":
			return isElemOf(t.Args[0], l)
		case "indexof", "index":
			return (t.Args[0] == l.Coll || onlySlice(l.Coll, t.Args[0]) || copySource(t.Args[0]) == copySource(l.Coll)) && coversIter(t.Args[1], l)
		}
	case "chan":
		return t.Op == "recv"
	}
	return false
}

// onlySlice: x is the only one of the alternatives of t that is not nil.
func onlySlice(t, x *Term) bool {
	if t == nil || t.Op != "ite" {
		return false
	}
	for _, l := range leaves(t) {
		if l != x && l.Op != "nil" {
			return false
		}
	}
	return true
}

// hasLeaf: x is one of the values the choice t can have.
func hasLeaf(t, x *Term) bool {
	if t == x {
		return true
	}
	return t.Op == "ite" && (hasLeaf(t.Args[0], x) || hasLeaf(t.Args[1], x))
}

// coversIter: as the loop runs, the index takes every position once (counting
// up or down).
func coversIter(ix *Term, l *LoopCtx) bool {
	if ix == l.Iter {
		return true
	}
	if ix.Op == "lin" {
		lf := ix.Obj.(lin)
		return len(lf.co) == 2 && lf.co[l.Iter] == -1 && lf.k == -1
	}
	return false
}

// inOrder: the element visited is the one at the loop's own position.
func inOrder(t *Term, l *LoopCtx) bool {
	if l.Kind != "slice" {
		return true
	}
	return contains(t, func(x *Term) bool {
		return (x.Op == "index" || x.Op == "indexof") && x.Args[1] == l.Iter
	})
}

// ---------- C02 ----------

type access struct {
	ef    *Effect
	obj   *Term // the span (or other owner)
	write bool
	what  string
	field *types.Var
}

// spanAccesses lists the accesses to mutable span state in a run.
func (c *Ctx) spanAccesses(r *Run, n *traceNames) []access {
	e := c.E
	inner := map[*types.Var]string{n.data: "data", n.lru: "attributes", n.ann: "annotations", n.msg: "message events", n.links: "links"}
	// owner: the span s such that the address lies inside *s.data, *s.annotations...
	var owner func(a *Term, d int) (*Term, string, *types.Var)
	owner = func(a *Term, d int) (*Term, string, *types.Var) {
		if a == nil || d > 12 {
			return nil, "", nil
		}
		var f *types.Var
		if a.Op == "field" {
			f = a.Obj.(*types.Var)
		}
		if a.Op == "ld" && a.Args[0].Op == "field" {
			if w, ok := inner[a.Args[0].Obj.(*types.Var)]; ok {
				return a.Args[0].Args[0], w, nil
			}
		}
		if len(a.Args) > 0 && (a.Op == "field" || a.Op == "index" || a.Op == "slice" || a.Op == "ld" || a.Op == "fieldof") {
			o, w, f2 := owner(a.Args[0], d+1)
			if o != nil {
				if f2 == nil {
					f2 = f
				}
				return o, w, f2
			}
		}
		return nil, "", nil
	}
	// parts allocated in this run and hung into a span
	part := map[*Term]*Term{}
	partName := map[*Term]string{}
	for fv, w := range inner {
		for _, ef := range r.storesTo(fv) {
			if ef.Val.Op == "alloc" {
				part[ef.Val] = ownerOfField(ef.Addr, fv)
				partName[ef.Val] = w
			}
		}
	}
	var out []access
	add := func(ef *Effect, a *Term, write bool) {
		for _, x := range leaves(a) {
			if o, w, f := owner(x, 0); o != nil {
				out = append(out, access{ef, o, write, w, f})
			} else if x != nil {
				if rt := rootOf(x); rt != x && part[rt] != nil {
					out = append(out, access{ef, part[rt], write, partName[rt], addrField(x)})
				}
			}
		}
	}
	for _, ef := range r.Effects {
		switch ef.Kind {
		case "load", "lookup", "rangeover":
			add(ef, ef.Addr, false)
		case "store", "mapupdate", "delete":
			add(ef, ef.Addr, true)
		case "call":
			if strings.Contains(ef.Name, "groupcache/lru.Cache)") {
				add(ef, ef.Args[0], true)
			}
			for _, a := range ef.Args {
				if a != nil && a.Op == "alloc" {
					continue
				}
			}
		}
	}
	_ = e
	return out
}

func ruleC02(c *Ctx) {
	n := c.tn()
	if c.failed() {
		return
	}
	e := c.E
	type item struct {
		a  access
		r  *Run
		ok bool
	}
	var items []item
	written := map[*types.Var]bool{}
	nroots := 0
	for _, f := range c.roots("trace") {
		r := c.run(f, c.stdLoads())
		nroots++
		pub := publications(r, n)
		for _, a := range c.spanAccesses(r, n) {
			held := lockHeld(a.ef, e.fa(a.obj, n.mu), 2)
			fresh := isFresh(rootOf(a.obj))
			if fresh {
				shared := false
				for _, p := range pub {
					if p.Val == a.obj && p.Seq < a.ef.Seq && e.B.And(p.PC, a.ef.PC) != False {
						shared = true
					}
				}
				if !shared {
					continue
				}
			}
			if a.write && a.field != nil {
				written[a.field] = true
			}
			items = append(items, item{a, r, held})
		}
		// the pointers to the mutable parts are set before publication and
		// never changed
		for _, fv := range []*types.Var{n.data, n.lru, n.ann, n.msg, n.links, n.sc, n.store} {
			for _, ef := range r.Effects {
				if ef.Kind != "store" || ef.Addr == nil {
					continue
				}
				base := ownerOfField(ef.Addr, fv)
				if base == nil {
					continue
				}
				ok := isFresh(rootOf(base))
				for _, p := range pub {
					if p.Val == base && p.Seq < ef.Seq && e.B.And(p.PC, ef.PC) != False {
						ok = false
					}
				}
				c.need(ok, "init-before-publish", fnName(f)+":"+fv.Name(), c.pos(ef), "%s writes span.%s of a span other goroutines can already see", fnName(f), fv.Name())
			}
		}
	}
	c.floor("lockset", "entry points", nroots, 20)
	if !c.floor("lockset", "accesses to shared span state", len(items), 20) {
		return
	}
	for _, it := range items {
		a := it.a
		nm := a.what
		if a.field != nil {
			nm += "." + a.field.Name()
			if !a.write && !written[a.field] {
				c.need(true, "lockset", name(it.r)+":"+nm, c.pos(a.ef), "")
				continue
			}
		}
		kind := "read"
		if a.write {
			kind = "written"
		}
		c.need(it.ok, "lockset", name(it.r)+":"+nm, c.pos(a.ef), "span state (%s) is %s without the span's mutex in %s, reached from %s", nm, kind, fnName(a.ef.Frame.fn), name(it.r))
	}
}

// ownerOfField returns the object whose field f contains the address.
func ownerOfField(a *Term, f *types.Var) *Term {
	for a != nil {
		if a.Op == "ite" {
			return nil
		}
		if a.Op == "field" {
			if a.Obj == any(f) {
				return a.Args[0]
			}
			a = a.Args[0]
			continue
		}
		if a.Op == "index" || a.Op == "slice" {
			a = a.Args[0]
			continue
		}
		return nil
	}
	return nil
}

// publications: effects that make a freshly allocated span reachable by
// other goroutines.
func publications(r *Run, n *traceNames) []*Effect {
	var out []*Effect
	for _, ef := range r.Effects {
		var v *Term
		switch ef.Kind {
		case "mapupdate":
			if isFresh(rootOf(ef.Addr)) {
				continue
			}
			for _, x := range []*Term{ef.Key, ef.Val} {
				if x != nil && x.Op == "iface" {
					x = x.Args[0]
				}
				if x != nil && x.Op == "alloc" {
					v = x
				}
			}
		case "store":
			if ef.Addr == nil || isFresh(rootOf(ef.Addr)) {
				continue
			}
			v = ef.Val
			if v != nil && v.Op == "iface" {
				v = v.Args[0]
			}
		case "send":
			v = ef.Val
		default:
			continue
		}
		if v == nil || v.Op != "alloc" {
			continue
		}
		x := *ef
		x.Val = v
		out = append(out, &x)
	}
	return out
}

// ---------- C03 ----------

type collSpec struct {
	name           string
	live           *types.Var // span field
	rec, dropped   *types.Var // record fields
	item, lcounter *types.Var // inner content and counter
}

func (n *traceNames) colls() []collSpec {
	return []collSpec{
		{"attributes", n.lru, n.sdAttr, n.sdDA, n.lkeys, n.ldrop},
		{"annotations", n.ann, n.sdAnn, n.sdDN, n.qqueue, n.qdrop},
		{"message events", n.msg, n.sdMsg, n.sdDM, n.qqueue, n.qdrop},
		{"links", n.links, n.sdLinks, n.sdDL, n.qqueue, n.qdrop},
	}
}

// snapshotRecord finds the record handed to exporters on the end path.
func (c *Ctx) snapshotRecord(r *Run) (*Effect, *Term) {
	for _, ef := range r.calls(exportSpan) {
		if ef.Args[1].Op == "alloc" {
			return ef, ef.Args[1]
		}
	}
	return nil, nil
}

func ruleC03(c *Ctx) {
	n := c.tn()
	r := c.go1("trace", "(*span).End")
	if r == nil || c.failed() {
		return
	}
	e := c.E
	check := func(r *Run, ef *Effect, s, sd *Term, where string) {
		p := c.pos(ef)
		data := e.fv(s, n.data)
		for _, cs := range n.colls() {
			v := r.at(ef, e.fa(sd, cs.rec))
			live := e.ld(e.fa(s, cs.live))
			// the live record never holds collections (checked below), so its own
			// (nil) value may remain when the collection is empty
			nilLive := func(t *Term) bool { return t == e.ld(e.fa(data, cs.rec)) }
			c.need(e.freshValue(v, nilLive), "fresh", where+":"+cs.rec.Name(), p, "the record's %s is %s: it shares memory with the live span", cs.rec.Name(), c.S(v))
			// content comes from the matching collection
			okc := e.snapshotContent(r, v, live, cs, n)
			c.need(okc == "", "content", where+":"+cs.rec.Name(), p, "the record's %s does not hold exactly the span's %s: %s", cs.rec.Name(), cs.name, okc)
			dv := r.at(ef, e.fa(sd, cs.dropped))
			wantd := e.ld(e.fa(live, cs.lcounter))
			okd := true
			for _, g := range e.cases(dv) {
				if g.T == wantd || constInt(g.T, 0) || g.T == e.ld(e.fa(data, cs.dropped)) {
					continue
				}
				okd = false
			}
			okd = okd && anyLeaf(dv, func(t *Term) bool { return t == wantd })
			c.need(okd, "dropped-count", where+":"+cs.dropped.Name(), p, "the record's %s is %s, not the number of dropped %s", cs.dropped.Name(), c.S(dv), cs.name)
		}
	}
	ef, sd := c.snapshotRecord(r)
	if !c.need(ef != nil, "anchor", "record", c.fpos(r), "no record handed to exporters found on the end path") {
		return
	}
	check(r, ef, r.param(0), sd, "End")
	// nothing writes to the record once it has been handed out
	for _, rr := range []*Run{r} {
		var first *Effect
		for _, x := range rr.Effects {
			pub := x.Kind == "call" && x.Name == exportSpan
			if x.Kind == "store" && x.Addr != nil && !isFresh(rootOf(x.Addr)) && x.Val == sd {
				pub = true
			}
			if pub && first == nil {
				first = x
			}
			if first != nil && x.Seq > first.Seq && (x.Kind == "store" || x.Kind == "mapupdate") && x.Addr != nil && (rootOf(x.Addr) == sd) {
				c.bad("written-after", "record", c.pos(x), "the record is written after it was handed out")
			}
		}
	}
	// active-span reports
	ra := c.go1("trace", "(internalOnly).ReportActiveSpans")
	if ra != nil && ra.Final != nil {
		var recs []*Term
		seen := map[*Term]bool{}
		for _, x := range ra.Effects {
			if x.Kind == "store" && rootOf(x.Addr).Op == "alloc" && addrField(x.Addr) == n.sdAttr {
				rt := rootOf(x.Addr)
				if !seen[rt] {
					seen[rt] = true
					recs = append(recs, rt)
				}
			}
		}
		c.floor("active-report", "records built for active spans", len(recs), 1)
		for _, rt := range recs {
			// evaluate at the first effect after the record was completed: the
			// append into the result
			for _, x := range ra.where("unlock", nil) {
				s := ownerOfField(x.Addr, n.mu)
				if s == nil || namedOf(deref(s.T)) == nil || namedOf(deref(s.T)).Obj().Name() != "span" {
					continue
				}
				check(ra, x, s, rt, "ReportActiveSpans")
			}
		}
	}
	// the live SpanData never holds a collection of its own
	for _, f := range c.roots("trace") {
		rr := c.run(f, c.std())
		for _, cs := range n.colls() {
			for _, x := range rr.storesTo(cs.rec) {
				base := ownerOfField(x.Addr, cs.rec)
				liveData := !(base.Op == "alloc")
				for _, y := range rr.storesTo(n.data) {
					if y.Val == base {
						liveData = true
					}
				}
				if liveData && x.Val.Op != "nil" {
					c.bad("live-data", fnName(f)+":"+cs.rec.Name(), c.pos(x), "%s stores a collection in the live span data, which every snapshot then shares", fnName(f))
				} else {
					c.need(true, "live-data", fnName(f)+":"+cs.rec.Name(), c.pos(x), "")
				}
			}
		}
	}
	// annotation attributes are copied out of the caller's slice
	for _, m := range []string{"Annotate", "Annotatef"} {
		ra := c.go1("trace", "(*span)."+m)
		if ra == nil || ra.Final == nil {
			continue
		}
		af := c.field("trace", "Annotation", "Attributes")
		q := ra.final(e.fa(e.ld(e.fa(ra.param(0), n.ann)), n.qqueue))
		found := 0
		e.containsC(q, func(t *Term) bool {
			if t.Op == "iface" && t.Args[0].T != nil && namedOf(t.Args[0].T) != nil && namedOf(t.Args[0].T).Obj().Name() == "Annotation" {
				found++
				st := t.Args[0].T.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == af {
						v := e.fieldOf(t.Args[0], st, i)
						c.need(e.freshValue(v, nil), "fresh", m+":annotation attributes", c.fpos(ra), "the annotation keeps a reference to caller memory: %s", c.S(v))
					}
				}
			}
			return false
		})
		c.floor("annotation", m+" annotation values", found, 1)
	}
}

// snapshotContent: v is built from exactly the live collection.
func (e *Eng) snapshotContent(r *Run, v, live *Term, cs collSpec, n *traceNames) string {
	for _, l := range leaves(v) {
		switch l.Op {
		case "nil", "zero", "ld":
			continue
		case "loopphi":
			lp := l.Obj.(*LoopPhi)
			if lp.L.Kind != "slice" || lp.L.Coll != e.ld(e.fa(live, cs.item)) {
				return "it is filled from " + short(e.S(lp.L.Coll), 120)
			}
			if !lp.L.Full {
				return "the copying loop can stop early"
			}
			if len(lp.Back) != 1 || lp.Back[0].Op != "append" || len(lp.Back[0].Args) != 2 || lp.Back[0].Aux != "" && strings.Contains(lp.Back[0].Aux, "spread") {
				return "it does not append exactly one element per entry"
			}
			el := lp.Back[0].Args[1]
			for el.Op == "ta" || el.Op == "iface" {
				el = el.Args[0]
			}
			if !isElemOf(el, lp.L) || !inOrder(el, lp.L) {
				return "the appended element is " + short(e.S(el), 120)
			}
			if il := e.length(lp.Init); !constInt(il, 0) {
				return "it starts with elements of its own"
			}
		case "make", "alloc":
			if cs.live == n.lru {
				// map: filled by a loop over the live keys
				ok := ""
				cnt := 0
				for _, ef := range r.Effects {
					if ef.Kind == "mapupdate" && ef.Addr == l {
						cnt++
						if len(ef.Loops) == 0 {
							ok = "it is not filled in a loop over the attributes"
							continue
						}
						lp := ef.Loops[len(ef.Loops)-1]
						if !lp.Full {
							ok = "the copying loop can stop early"
						}
						if !contains(ef.Val, func(t *Term) bool {
							return t == live || t == e.ld(e.fa(live, n.lcache)) || t == e.ld(e.fa(live, n.lkeys))
						}) {
							ok = "its values do not come from the span's attributes: " + short(e.S(ef.Val), 120)
						}
					}
				}
				if cnt == 0 {
					return "it is never filled"
				}
				if ok != "" {
					return ok
				}
				continue
			}
			// make + copy / indexed stores
			return e.indexedCopy(r, l, live, cs)
		default:
			return "it is " + short(e.S(l), 120)
		}
	}
	return ""
}

// indexedCopy accepts out[i] = in[i] loops into a fresh slice of equal length.
func (e *Eng) indexedCopy(r *Run, l, live *Term, cs collSpec) string {
	q := e.ld(e.fa(live, cs.item))
	if e.length(l) != e.length(q) {
		return "its length differs from the collection's"
	}
	for _, ef := range r.Effects {
		if ef.Kind == "store" && ef.Addr.Op == "index" && ef.Addr.Args[0] == l {
			el := ef.Val
			for el.Op == "ta" || el.Op == "iface" {
				el = el.Args[0]
			}
			if len(ef.Loops) > 0 {
				lp := ef.Loops[len(ef.Loops)-1]
				if lp.Full && lp.Coll == q && isElemOf(el, lp) && el.Op == "ld" && el.Args[0].Args[1] == ef.Addr.Args[1] {
					return ""
				}
			}
		}
	}
	return "no element-wise copy found"
}

// ---------- C04 ----------

func ruleC04(c *Ctx) {
	n := c.tn()
	if c.failed() {
		return
	}
	e := c.E
	nm := 0
	methods := func(typ string) []*ssa.Function {
		var out []*ssa.Function
		for _, f := range c.pkgFuncs("trace") {
			if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			if nt := namedOf(f.Signature.Recv().Type()); nt != nil && nt.Obj().Name() == typ && typesExported(f.Name()) {
				out = append(out, f)
			}
		}
		return out
	}
	internal := c.field("trace", "Span", "internal")
	for _, f := range methods("Span") {
		nm++
		r := c.run(f, c.stdLoads())
		c.nilSafe(r, r.param(0), "nil span")
		null := e.isNil(r.param(0))
		for _, ef := range r.Effects {
			if ef.Kind == "panic" {
				c.need(e.B.And(ef.PC, null) == False, "nil-safe", fnName(f)+":panic", c.pos(ef), "%s panics", fnName(f))
			}
		}
		if len(r.Rets) > 0 {
			v := e.under(r.Rets[0], null)
			switch f.Name() {
			case "IsRecordingEvents":
				c.need(e.bdd(v) == False, "nil-result", fnName(f), c.fpos(r), "a nil span reports IsRecordingEvents() = %s", c.S(v))
			case "SpanContext":
				c.need(e.implies(null, e.isNil(r.Rets[0])) || v.Op == "zero", "nil-result", fnName(f), c.fpos(r), "a nil span's SpanContext is %s, not empty", c.S(v))
			}
		}
		// forwarding: a non-nil span's mutators reach the implementation with
		// the same arguments, only guarded by IsRecordingEvents
		if f.Name() == "Internal" {
			continue
		}
		want := "invoke (trace.SpanInterface)." + f.Name()
		fw := r.calls(want)
		if !c.need(len(fw) == 1, "forward", fnName(f), c.fpos(r), "%s does not forward to the span implementation's %s exactly once", fnName(f), f.Name()) {
			continue
		}
		ef := fw[0]
		impl := e.fv(r.param(0), internal)
		recAtom := e.atomsIn(func(t *Term) bool { return isCallTo(t, "invoke (trace.SpanInterface).IsRecordingEvents") }, ef.PC)
		cond := e.not(null)
		if f.Name() != "IsRecordingEvents" {
			for _, a := range recAtom {
				cond = e.all(cond, a)
			}
		}
		c.need(e.implies(cond, ef.PC), "forward", fnName(f)+":guard", c.pos(ef), "%s drops calls for a recording span: reached only if %s", fnName(f), c.P(ef.PC))
		if c.need(ef.Args[0] == impl, "forward", fnName(f)+":receiver", c.pos(ef), "%s forwards to %s", fnName(f), c.S(ef.Args[0])) {
			for i := 1; i < len(ef.Args); i++ {
				c.need(ef.Args[i] == r.param(i), "forward", fmt.Sprintf("%s:arg%d", fnName(f), i), c.pos(ef), "%s passes %s instead of its parameter %d", fnName(f), c.S(ef.Args[i]), i)
			}
		}
		if len(r.Rets) > 0 {
			v := e.under(r.Rets[0], e.not(null))
			c.need(v == ef.Result || isBool(v.T) && e.equiv(e.all(e.bdd(v), e.not(null)), e.all(e.bdd(ef.Result), e.not(null))), "forward", fnName(f)+":result", c.pos(ef), "%s returns %s instead of the implementation's answer", fnName(f), c.S(v))
		}
	}
	c.floor("nil-safe", "Span methods", nm, 13)
	nm = 0
	inners := []*types.Var{n.data, n.lru, n.ann, n.msg, n.links}
	for _, f := range methods("span") {
		nm++
		r := c.run(f, c.stdLoads())
		s := r.param(0)
		c.nilSafe(r, s, "nil span")
		data := e.fv(s, n.data)
		nonrec := e.all(e.not(e.isNil(s)), e.isNil(data))
		for _, ef := range r.Effects {
			if e.decide(ef.PC, e.not(nonrec)) == 1 {
				continue
			}
			hit := ""
			for _, a := range derefs(ef) {
				for _, fv := range inners {
					if insideOf(a, e.ld(e.fa(s, fv))) {
						hit = fv.Name()
					}
				}
			}
			if hit != "" {
				c.bad("non-recording", fnName(f)+":"+hit, c.pos(ef), "%s dereferences span.%s, which is nil for a span that does not record (reached if %s)", fnName(f), hit, c.P(ef.PC))
				continue
			}
			switch ef.Kind {
			case "store", "mapupdate", "delete", "send":
				if ef.Addr != nil && !isFresh(rootOf(ef.Addr)) {
					c.bad("non-recording", fnName(f)+":effect", c.pos(ef), "%s has an effect on a span that does not record", fnName(f))
				}
			case "panic":
				c.bad("non-recording", fnName(f)+":panic", c.pos(ef), "%s panics on a span that does not record", fnName(f))
			}
		}
		c.need(true, "non-recording", fnName(f), c.fpos(r), "")
		if f.Name() == "IsRecordingEvents" && len(r.Rets) == 1 {
			want := e.all(e.not(e.isNil(s)), e.not(e.isNil(data)))
			c.need(e.equiv(e.bdd(r.Rets[0]), want), "non-recording", "IsRecordingEvents", c.fpos(r), "IsRecordingEvents is %s", c.S(r.Rets[0]))
		}
	}
	c.floor("non-recording", "span methods", nm, 12)
	// a recording span has all its collections, a non-recording one no data
	r := c.go1("trace", "startSpanInternal")
	if r != nil && len(r.Rets) == 1 {
		for _, fv := range inners {
			v := r.final(e.fa(r.Rets[0], fv))
			d := r.final(e.fa(r.Rets[0], n.data))
			hasData := e.not(e.isNil(d))
			c.need(e.implies(hasData, e.not(e.isNil(v))), "complete-span", fv.Name(), c.fpos(r), "a recording span can be started without %s: %s", fv.Name(), c.S(v))
		}
	}
	// FromContext on an empty context
	for _, g := range []string{"FromContext", "(*tracer).FromContext", "(*tracer).StartSpan", "(*tracer).StartSpanWithRemoteParent"} {
		r := c.goL("trace", g)
		if r == nil {
			continue
		}
		for _, ef := range r.Effects {
			if ef.Kind == "panic" || ef.Kind == "assert" && ef.Key != nil && !e.implies(ef.PC, e.bdd(ef.Key)) {
				if ef.Kind == "assert" && ef.Name == "commaok" {
					continue
				}
				// the configuration holds a *Config by construction (C08)
				if ef.Kind == "assert" && e.containsC(ef.Val, func(t *Term) bool { return t.Op == "global" }) {
					continue
				}
				c.bad("empty-context", g, c.pos(ef), "%s can panic: %s", g, c.S(ef.Val))
			}
		}
		// a span found in the context may be nil: its methods are not called
		// through a nil pointer
		for _, ef := range r.Effects {
			for _, a := range derefs(ef) {
				for _, b := range bases(a) {
					if b.Op != "ta" && b.Op != "ite" {
						continue
					}
					if namedOf(deref(b.T)) == nil || namedOf(deref(b.T)).Obj().Name() != "Span" {
						continue
					}
					c.need(e.implies(ef.PC, e.not(e.isNil(b))), "empty-context", g+":deref", c.pos(ef), "%s dereferences the span found in the context, which may be absent", g)
				}
			}
		}
		c.need(true, "empty-context", g, c.fpos(r), "")
	}
}

func typesExported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

// derefs lists the addresses an effect dereferences.
func derefs(ef *Effect) []*Term {
	switch ef.Kind {
	case "load", "store":
		return leaves(ef.Addr)
	case "lock", "unlock", "once":
		return leaves(ef.Addr)
	case "mapupdate":
		return leaves(ef.Addr)
	}
	return nil
}

// bases lists the pointers an address passes through without loading.
func bases(a *Term) []*Term {
	var out []*Term
	for a != nil && (a.Op == "field" || a.Op == "index") {
		a = a.Args[0]
		out = append(out, a)
	}
	return out
}

func insideOf(a, p *Term) bool {
	for _, b := range bases(a) {
		if b == p {
			return true
		}
	}
	return a == p
}

// nilSafe: no dereference of p is reachable when p is nil.
func (c *Ctx) nilSafe(r *Run, p *Term, what string) {
	e := c.E
	null := e.isNil(p)
	for _, ef := range r.Effects {
		for _, a := range derefs(ef) {
			if insideOf(a, p) {
				c.need(e.decide(ef.PC, e.not(null)) == 1, "nil-safe", name(r), c.pos(ef), "%s dereferences its receiver for a %s (reached if %s)", name(r), what, c.P(ef.PC))
			}
		}
	}
	c.need(true, "nil-safe", name(r), c.fpos(r), "")
}
