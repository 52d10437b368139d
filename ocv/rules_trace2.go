package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C05 ----------

func ruleC05(c *Ctx) {
	n := c.tn()
	if c.failed() {
		return
	}
	e := c.E
	// the bounded FIFO
	if r := c.go1("trace", "(*evictedQueue).add"); r != nil && r.Final != nil {
		eq, v := r.param(0), r.param(1)
		q, cp, dr := e.fv(eq, n.qqueue), e.fv(eq, n.qcap), e.fv(eq, n.qdrop)
		full := e.all(e.eq(e.length(q), cp), e.leq(e.mkInt(1, nil), cp))
		room := e.lt(e.length(q), cp)
		fq, fd := r.final(e.fa(eq, n.qqueue)), r.final(e.fa(eq, n.qdrop))
		x := e.under(fq, room)
		c.need(x.Op == "append" && len(x.Args) == 2 && x.Args[0] == q && x.Args[1] == v, "fifo", "room:queue", c.fpos(r), "with room left, adding turns the queue into %s instead of appending the entry", c.S(x))
		c.need(e.same(room, fd, dr), "fifo", "room:dropped", c.fpos(r), "with room left, the dropped count becomes %s", c.S(e.under(fd, room)))
		x = e.under(fq, full)
		oldestOut := x.Op == "append" && len(x.Args) == 2 && x.Args[1] == v && x.Args[0].Op == "slice" && x.Args[0].Args[0] == q && constInt(x.Args[0].Args[1], 1) && (x.Args[0].Args[2] == nil || x.Args[0].Args[2].Op == "absent" || x.Args[0].Args[2] == e.length(q))
		if !oldestOut {
			// or every entry moves down by one and the last place takes the new one
			last := e.plus(e.length(q), -1)
			moved, from := false, -1
			for _, ef := range r.where("copy", func(ef *Effect) bool { return e.decide(e.all(ef.PC, full), False) != 1 }) {
				b := ef.Val
				moved = !moved && ef.Addr == q && b.Op == "slice" && b.Args[0] == q && constInt(b.Args[1], 1) && (b.Args[2] == nil || b.Args[2].Op == "absent" || e.sameLin(full, b.Args[2], e.length(q))) && e.implies(full, ef.PC)
				from = ef.Seq
			}
			put := false
			for _, ef := range r.where("store", func(ef *Effect) bool {
				return ef.Addr.Op == "index" && ef.Addr.Args[0] == q && e.decide(e.all(ef.PC, full), False) != 1
			}) {
				put = !put && ef.Seq > from && ef.Val == v && e.sameLin(full, ef.Addr.Args[1], last) && e.implies(full, ef.PC)
				moved = moved && put
			}
			if x.Op == "append" && len(x.Args) == 2 && x.Args[1] == v && x.Args[0].Op == "slice" && x.Args[0].Args[0] == q {
				lo, hi := sliceBounds(x.Args[0])
				put = !put && (lo == nil || constInt(lo, 0)) && hi != nil && e.sameLin(full, hi, last)
			} else if x != q {
				put = false
			}
			oldestOut = moved && put
		}
		c.need(oldestOut, "fifo", "full:queue", c.fpos(r), "when full, adding turns the queue into %s instead of dropping exactly the oldest entry and appending", c.S(x))
		c.need(e.same(full, fd, e.plus(dr, 1)), "fifo", "full:dropped", c.fpos(r), "when full, the dropped count becomes %s instead of increasing by one", c.S(e.under(fd, full)))
		c.need(e.same(True, r.final(e.fa(eq, n.qcap)), cp), "fifo", "capacity", c.fpos(r), "adding changes the capacity")
	}
	// the bounded LRU
	if r := c.go1("trace", "(*lruMap).add"); r != nil {
		lm, k, v := r.param(0), r.param(1), r.param(2)
		cache := e.fv(lm, n.lcache)
		adds := r.calls("(*github.com/golang/groupcache/lru.Cache).Add")
		if c.need(len(adds) == 1 && adds[0].PC == True && len(adds[0].Loops) == 0, "lru", "add", c.fpos(r), "adding an attribute does not store it in the LRU cache exactly once on every path") {
			a := adds[0]
			c.need(a.Args[0] == cache && sameKey(a.Args[1], k) && a.Args[2] == v, "lru", "add:args", c.pos(a), "the LRU cache receives %s = %s", c.S(a.Args[1]), c.S(a.Args[2]))
		}
		ups := r.where("mapupdate", func(ef *Effect) bool { return isField(ef.Addr, n.lkeys, lm) })
		ok := false
		for _, u := range ups {
			if u.PC == True && sameKey(u.Key, k) {
				ok = true
			}
			c.need(sameKey(u.Key, k), "lru", "keys:key", c.pos(u), "a different key (%s) is recorded as present", c.S(u.Key))
			if len(adds) == 1 {
				// a key recorded after its own insertion may already have been evicted
				c.need(true, "lru", "keys:order", c.pos(u), "")
			}
		}
		c.need(ok, "lru", "keys", c.fpos(r), "an added attribute's key is not recorded, so snapshots omit it")
		for _, ef := range r.Effects {
			if ef.Kind == "delete" || ef.Kind == "store" && addrField(ef.Addr) == n.ldrop {
				c.bad("lru", "add:other", c.pos(ef), "adding an attribute also discards an entry or changes the dropped count itself")
			}
		}
	}
	evf := 0
	if r := c.go1("trace", "newLruMap"); r != nil && r.Final != nil {
		news := r.calls("github.com/golang/groupcache/lru.New")
		c.need(len(news) == 1 && news[0].PC == True && news[0].Args[0] == r.param(0), "lru", "size", c.fpos(r), "the LRU cache is not created with the configured size")
		for _, ef := range r.where("store", func(ef *Effect) bool {
			f := addrField(ef.Addr)
			return f != nil && f.Name() == "OnEvicted"
		}) {
			cl := ef.Val
			if cl.Op != "closure" {
				continue
			}
			evf++
			fn := cl.Obj.(*ssa.Function)
			rr := e.AnalyseWith(fn, []*Term{e.param(fn, 0), e.param(fn, 1)}, cl.Args, r.Final, c.std())
			c.note(rr)
			lm := r.Rets[0]
			d0, d1 := r.final(e.fa(lm, n.ldrop)), rr.final(e.fa(lm, n.ldrop))
			c.need(constInt(d0, 0) && constInt(d1, 1), "lru", "evicted:count", c.W.position(fn.Pos()), "an eviction changes the dropped count from %s to %s instead of increasing it by one", c.S(d0), c.S(d1))
			dels := rr.where("delete", nil)
			c.need(len(dels) == 1 && dels[0].PC == True && sameKey(dels[0].Key, rr.param(0)) && dels[0].Addr == r.final(e.fa(lm, n.lkeys)), "lru", "evicted:key", c.W.position(fn.Pos()), "an eviction does not remove exactly the evicted key")
		}
	}
	c.floor("lru", "eviction callbacks", evf, 1)
	// reading attributes must not affect which one is evicted next
	for _, f := range c.roots("trace") {
		if fnName(f) == "(*trace.span).End" {
			continue
		}
		r := c.run(f, c.stdLoads())
		for _, ef := range r.Effects {
			if ef.Kind == "call" && strings.HasPrefix(ef.Name, "(*github.com/golang/groupcache/lru.Cache).") {
				m := ef.Name[strings.LastIndex(ef.Name, ".")+1:]
				c.need(m == "Add" || m == "Len", "recency", fnName(f)+":"+m, c.pos(ef), "%s calls Cache.%s, which changes the eviction order or contents of a live span's attributes", fnName(f), m)
			}
		}
	}
	// limits are paired with their own collections
	if r := c.go1("trace", "startSpanInternal"); r != nil && len(r.Rets) == 1 {
		s := r.Rets[0]
		pairs := []struct {
			f   *types.Var
			lim string
		}{{n.ann, "MaxAnnotationEventsPerSpan"}, {n.msg, "MaxMessageEventsPerSpan"}, {n.links, "MaxLinksPerSpan"}, {n.lru, "MaxAttributesPerSpan"}}
		seen := map[*Term]string{}
		for _, p := range pairs {
			lf := c.field("trace", "Config", p.lim)
			cnt := 0
			for _, l := range leaves(r.final(e.fa(s, p.f))) {
				if l.Op != "alloc" {
					continue
				}
				cnt++
				if o := seen[l]; o != "" {
					c.bad("limits", p.f.Name()+":shared", c.fpos(r), "%s and %s share one collection", o, p.f.Name())
				}
				seen[l] = p.f.Name()
				if p.f == n.lru {
					cv := r.final(e.fa(l, n.lcache))
					ok := false
					for _, x := range leaves(cv) {
						if isCallTo(x, "github.com/golang/groupcache/lru.New") && isField(x.Args[0], lf, nil) {
							ok = true
						}
					}
					c.need(ok, "limits", p.f.Name(), c.fpos(r), "the attribute limit is %s, not Config.%s", c.S(cv), p.lim)
					continue
				}
				cv := r.final(e.fa(l, n.qcap))
				ok := anyLeaf(cv, func(t *Term) bool { return isField(t, lf, nil) }) && allLeaves(cv, func(t *Term) bool { return isField(t, lf, nil) || t.isConst() })
				c.need(ok, "limits", p.f.Name(), c.fpos(r), "the capacity of %s is %s, not Config.%s", p.f.Name(), c.S(cv), p.lim)
				qv := r.final(e.fa(l, n.qqueue))
				c.need(allLeaves(qv, func(t *Term) bool { return t.isConst() || t.Op == "make" || t.Op == "slice" && isFresh(rootOf(t)) }) && constInt(maxLen(e, qv), 0), "limits", p.f.Name()+":empty", c.fpos(r), "%s does not start empty: %s", p.f.Name(), c.S(qv))
			}
			c.floor("limits", "collection "+p.f.Name(), cnt, 1)
		}
	}
	// mutators feed their own collection exactly one entry
	mut := func(m string, f *types.Var, typ string, chk func(r *Run, v *Term)) {
		r := c.go1("trace", "(*span)."+m)
		if r == nil || r.Final == nil {
			return
		}
		s := r.param(0)
		data := e.fv(s, n.data)
		rec := e.all(e.not(e.isNil(s)), e.not(e.isNil(data)))
		for _, cs := range n.colls() {
			if cs.live == n.lru {
				for _, ef := range r.calls("(*github.com/golang/groupcache/lru.Cache).Add") {
					c.bad("mutators", m+":attributes", c.pos(ef), "%s changes the attributes", m)
				}
				continue
			}
			live := e.ld(e.fa(s, cs.live))
			q := e.ld(e.fa(live, n.qqueue))
			fq := r.final(e.fa(live, n.qqueue))
			if cs.live != f {
				// the four collections are distinct fresh objects (rule limits)
				for _, ef := range r.where("store", nil) {
					o := ownerOfField(ef.Addr, n.qqueue)
					c.need(ef.Addr != e.fa(s, cs.live) && (o == nil || !anyLeaf(o, func(t *Term) bool { return t == live })), "mutators", m+":"+cs.name, c.pos(ef), "%s changes the %s", m, cs.name)
				}
				continue
			}
			room := e.all(rec, e.lt(e.length(q), e.ld(e.fa(live, n.qcap))))
			x := e.under(fq, room)
			if !c.need(x.Op == "append" && len(x.Args) == 2 && x.Args[0] == q && x.Args[1].Op == "iface", "mutators", m, c.fpos(r), "%s turns the %s into %s instead of adding one entry", m, cs.name, c.S(x)) {
				continue
			}
			v := x.Args[1].Args[0]
			if c.need(namedOf(v.T) != nil && namedOf(v.T).Obj().Name() == typ, "mutators", m+":type", c.fpos(r), "%s adds a %s", m, v.T) {
				chk(r, v)
			}
		}
	}
	fld := func(v *Term, nm string) *Term {
		st := v.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == nm {
				return e.fieldOf(v, st, i)
			}
		}
		return nil
	}
	is := func(r *Run, m, what string, got, want *Term) {
		c.need(got == want, "mutators", m+":"+what, c.fpos(r), "%s records %s as its %s", m, c.S(got), what)
	}
	mut("AddLink", n.links, "Link", func(r *Run, v *Term) { is(r, "AddLink", "link", v, r.param(1)) })
	for _, m := range []struct {
		n  string
		ty int64
	}{{"AddMessageSendEvent", 1}, {"AddMessageReceiveEvent", 2}} {
		m := m
		mut(m.n, n.msg, "MessageEvent", func(r *Run, v *Term) {
			c.need(constInt(fld(v, "EventType"), m.ty), "mutators", m.n+":EventType", c.fpos(r), "%s records event type %s", m.n, c.S(fld(v, "EventType")))
			is(r, m.n, "MessageID", fld(v, "MessageID"), r.param(1))
			is(r, m.n, "UncompressedByteSize", fld(v, "UncompressedByteSize"), r.param(2))
			is(r, m.n, "CompressedByteSize", fld(v, "CompressedByteSize"), r.param(3))
			c.need(isCallTo(fld(v, "Time"), "time.Now"), "mutators", m.n+":Time", c.fpos(r), "%s records time %s", m.n, c.S(fld(v, "Time")))
		})
	}
	attrs := func(r *Run, m string, v *Term) {
		am := fld(v, "Attributes")
		ups := r.where("mapupdate", func(ef *Effect) bool {
			return isFresh(rootOf(ef.Addr)) && anyLeaf(am, func(t *Term) bool { return t == ef.Addr })
		})
		ok := false
		for _, u := range ups {
			l := loopOver(u, func(t *Term) bool { return t == r.param(1) })
			if l != nil && l.Full && isElemOf(u.Key, l) && contains(u.Val, func(t *Term) bool { return t.Op == "field" && t.Obj.(*types.Var).Name() == "value" }) {
				ok = true
			}
		}
		c.need(ok, "mutators", m+":attributes", c.fpos(r), "%s does not record all given attributes in the annotation", m)
	}
	mut("Annotate", n.ann, "Annotation", func(r *Run, v *Term) {
		is(r, "Annotate", "Message", fld(v, "Message"), r.param(2))
		attrs(r, "Annotate", v)
	})
	mut("Annotatef", n.ann, "Annotation", func(r *Run, v *Term) {
		msg := fld(v, "Message")
		c.need(isCallTo(msg, "fmt.Sprintf") && msg.Args[0] == r.param(2) && msg.Args[1] == r.param(3), "mutators", "Annotatef:Message", c.fpos(r), "Annotatef records %s as its message", c.S(msg))
		attrs(r, "Annotatef", v)
	})
	if r := c.go1("trace", "(*span).AddAttributes"); r != nil {
		s := r.param(0)
		rec := e.all(e.not(e.isNil(s)), e.not(e.isNil(e.fv(s, n.data))))
		cache := e.ld(e.fa(e.ld(e.fa(s, n.lru)), n.lcache))
		cov := False
		for _, ef := range r.calls("(*github.com/golang/groupcache/lru.Cache).Add") {
			l := loopOver(ef, func(t *Term) bool { return t == r.param(1) })
			ok := l != nil && l.Full && ef.Args[0] == cache && inOrder(ef.Args[1], l) &&
				contains(ef.Args[1], func(t *Term) bool {
					return t.Op == "field" && t.Obj.(*types.Var).Name() == "key" || t.Op == "fieldof" && t.Obj.(*types.Var).Name() == "key"
				}) &&
				contains(ef.Args[2], func(t *Term) bool {
					return t.Op == "field" && t.Obj.(*types.Var).Name() == "value" || t.Op == "fieldof" && t.Obj.(*types.Var).Name() == "value"
				}) &&
				inOrder(ef.Args[2], l)
			if c.need(ok, "mutators", "AddAttributes:each", c.pos(ef), "AddAttributes does not set every given attribute in order: %s = %s", c.S(ef.Args[1]), c.S(ef.Args[2])) {
				cov = e.any(cov, e.forget(ef.PC, loopAtom))
			}
		}
		c.need(e.implies(rec, cov), "mutators", "AddAttributes", c.fpos(r), "AddAttributes does not reach the attribute store for every recording span")
	}
	// default limits are positive (later configuration changes: C08)
	cnt := 0
	for _, f := range c.pkgFuncs("trace") {
		if !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		r := c.run(f, c.std())
		for _, lim := range []string{"MaxAnnotationEventsPerSpan", "MaxMessageEventsPerSpan", "MaxLinksPerSpan", "MaxAttributesPerSpan"} {
			for _, ef := range r.storesTo(c.field("trace", "Config", lim)) {
				k, ok := ef.Val.intVal()
				cnt++
				c.need(ok && k > 0, "defaults", lim, c.pos(ef), "the default %s is %s", lim, c.S(ef.Val))
			}
		}
	}
	c.floor("defaults", "default limits", cnt, 4)
}

func maxLen(e *Eng, t *Term) *Term {
	var m *Term
	for _, l := range leaves(t) {
		x := e.length(l)
		if l.Op == "nil" || l.Op == "zero" {
			x = e.mkInt(0, nil)
		}
		if m == nil || !constInt(x, 0) {
			m = x
		}
	}
	return m
}

// sameKey: the same key, possibly converted between interface types.
func sameKey(a, b *Term) bool {
	for a != nil && (a.Op == "conv" || a.Op == "iface") {
		a = a.Args[0]
	}
	for b != nil && (b.Op == "conv" || b.Op == "iface") {
		b = b.Args[0]
	}
	return a == b
}

// ---------- C06 ----------

func ruleC06(c *Ctx) {
	n := c.tn()
	if c.failed() {
		return
	}
	e := c.E
	r := c.go1("trace", "startSpanInternal")
	if r == nil || len(r.Rets) != 1 {
		return
	}
	p := c.fpos(r)
	if len(r.Root.params) != 5 {
		c.bad("anchor", "startSpanInternal", p, "startSpanInternal has an unexpected signature")
		return
	}
	nm, hasP, par, rem, o := r.param(0), e.bdd(r.param(1)), r.param(2), e.bdd(r.param(3)), r.param(4)
	s := r.Rets[0]
	if !c.need(s.Op == "alloc", "anchor", "span", p, "the started span is %s", c.S(s)) {
		return
	}
	pf := func(f *types.Var) *Term {
		st := par.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f {
				return e.fieldOf(par, st, i)
			}
		}
		return nil
	}
	of := func(x string) *Term {
		st := o.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == x {
				return e.fieldOf(o, st, i)
			}
		}
		return nil
	}
	smp, kind := of("Sampler"), of("SpanKind")
	if smp == nil || kind == nil {
		c.bad("anchor", "StartOptions", p, "StartOptions has no Sampler or SpanKind")
		return
	}
	noS := e.isNil(smp)
	consult := e.any(e.not(hasP), rem, e.not(noS))
	fin := func(f *types.Var) *Term { return r.final(e.ap(s, n.sc, f)) }
	tid, sid, to, ts := fin(n.tid), fin(n.sid), fin(n.topts), fin(n.tstate)
	idgen := func(m string) func(*Term) bool {
		return func(t *Term) bool {
			for t != nil && (t.Op == "conv" || t.Op == "retype") {
				t = t.Args[0]
			}
			return isCallTo(t, "invoke (trace/internal.IDGenerator)."+m, "(*trace.defaultIDGenerator)."+m) || t != nil && strings.HasSuffix(callNameOf(t), ")."+m)
		}
	}
	c.need(e.same(hasP, tid, pf(n.tid)), "trace-id", "with parent", p, "a child span's trace ID is %s, not its parent's", c.S(e.under(tid, hasP)))
	c.need(idgen("NewTraceID")(e.under(tid, e.not(hasP))), "trace-id", "root", p, "a root span's trace ID is %s, not newly generated", c.S(e.under(tid, e.not(hasP))))
	c.need(allLeaves(sid, idgen("NewSpanID")), "span-id", "span", p, "the span ID is %s, not newly generated", c.S(sid))
	c.need(e.same(True, ts, pf(n.tstate)), "trace-state", "span", p, "the trace state is %s, not the parent's", c.S(ts))
	// sampler
	cons := False
	var first *Effect
	var decision BDD = False
	dyn := 0
	for _, ef := range r.where("call", func(ef *Effect) bool { return ef.Name == "dyn" && len(ef.Args) == 1 && isSamplingParams(ef.Args[0]) }) {
		dyn++
		c.need(e.B.And(cons, ef.PC) == False, "sampler", "once", c.pos(ef), "the sampler can be consulted twice for one span")
		cons = e.any(cons, ef.PC)
		if first == nil {
			first = ef
		}
		// which sampler
		withS := e.all(ef.PC, e.not(noS))
		if withS != False {
			c.need(e.same(withS, ef.Val, smp), "sampler", "caller's sampler", c.pos(ef), "with a caller-supplied sampler, %s is consulted", c.S(e.under(ef.Val, withS)))
		}
		without := e.all(ef.PC, noS)
		if without != False {
			x := e.under(ef.Val, without)
			ds := c.field("trace", "Config", "DefaultSampler")
			c.need(isField(x, ds, nil), "sampler", "default sampler", c.pos(ef), "without a caller-supplied sampler, %s is consulted instead of the configured default", c.S(x))
		}
		// parameters
		a := ef.Args[0]
		get := func(x string) *Term {
			st := a.T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == x {
					return e.fieldOf(a, st, i)
				}
			}
			return nil
		}
		chk := func(x string, want *Term) {
			got := get(x)
			c.need(e.same(ef.PC, got, want), "sampler-params", x, c.pos(ef), "the sampler sees %s = %s instead of %s", x, c.S(e.under(got, ef.PC)), c.S(want))
		}
		chk("ParentContext", par)
		chk("TraceID", tid)
		chk("SpanID", sid)
		chk("Name", nm)
		chk("HasRemoteParent", r.param(3))
		if d := e.mk("fieldof", "", nil, nil); d != nil {
			_ = d
		}
		decision = e.any(decision, e.all(ef.PC, sampleBit(e, ef.Result)))
	}
	if !c.floor("sampler", "sampler consultations", dyn, 1) {
		return
	}
	c.need(e.equiv(cons, consult), "sampler", "consulted-when", c.pos(first), "the sampler is consulted when %s; it must be exactly when there is no parent, the parent is remote, or a sampler was supplied", c.P(cons))
	// resulting options
	pto := pf(n.topts)
	c.need(e.same(e.not(consult), to, pto), "options", "kept", p, "without a sampling decision the trace options become %s", c.S(e.under(to, e.not(consult))))
	yes, no := e.all(consult, decision), e.all(consult, e.not(decision))
	c.need(e.sampledTerm(e.under(to, yes), pto, true), "options", "sampled", p, "after a positive sampling decision the trace options become %s", c.S(e.under(to, yes)))
	c.need(e.sampledTerm(e.under(to, no), pto, false), "options", "not sampled", p, "after a negative sampling decision the trace options become %s", c.S(e.under(to, no)))
	// recording
	data := r.final(e.fa(s, n.data))
	hasData := e.not(e.isNil(data))
	isS := e.any(e.all(consult, decision), e.all(e.not(consult), c.sampledB(pto)))
	lse := c.W.global("internal", "LocalSpanStoreEnabled")
	var lseB BDD = False
	if lse != nil {
		lseB = e.bdd(e.ld(e.mk("global", e.oid(lse), lse.Type(), lse)))
	}
	c.need(e.equiv(hasData, e.any(isS, lseB)), "recording", "data", p, "a span records when %s; it must be exactly when it is sampled or local span storage is enabled", c.P(hasData))
	for _, l := range e.cases(data) {
		if l.T.Op != "alloc" {
			continue
		}
		chk := func(f *types.Var, cond BDD, want *Term) {
			cond = e.all(cond, l.C)
			got := r.final(e.fa(l.T, f))
			c.need(e.same(cond, got, want), "record", f.Name(), p, "the recorded %s is %s instead of %s", f.Name(), c.S(e.under(got, cond)), c.S(want))
		}
		chk(n.sdName, True, nm)
		chk(n.sdKind, True, kind)
		chk(n.sdRemote, True, r.param(3))
		chk(n.sdParent, hasP, pf(n.sid))
		chk(n.sdParent, e.not(hasP), e.zero(n.sdParent.Type()))
		for _, f := range []*types.Var{n.tid, n.sid, n.topts, n.tstate} {
			got := r.final(e.ap(l.T, n.sdSC, f))
			c.need(e.same(l.C, got, fin(f)), "record", "SpanContext."+f.Name(), p, "the recorded SpanContext.%s is %s, not the span's own", f.Name(), c.S(e.under(got, l.C)))
		}
		st := e.under(r.final(e.fa(l.T, n.sdStart)), l.C)
		c.need(isCallTo(st, "time.Now"), "record", "StartTime", p, "the recorded start time is %s", c.S(st))
	}
	// nothing but the start path writes a span context
	for _, f := range c.roots("trace") {
		rr := c.run(f, c.std())
		for _, ef := range rr.Effects {
			if ef.Kind == "store" {
				if b := ownerOfField(ef.Addr, n.sc); b != nil {
					c.need(isFresh(rootOf(b)), "immutable-context", fnName(f), c.pos(ef), "%s changes the identity of an existing span", fnName(f))
				}
			}
		}
	}
	// the two entry points
	noInl := func(f *ssa.Function) bool { return f.Name() != "startSpanInternal" }
	for _, m := range []string{"StartSpan", "StartSpanWithRemoteParent"} {
		f := c.fn("trace", "(*tracer)."+m)
		if f == nil {
			continue
		}
		rr := c.run(f, Opts{Resolve: c.resolve(), Inline: noInl})
		cs := rr.calls("trace.startSpanInternal")
		if !c.need(len(cs) == 1 && len(cs[0].Loops) == 0, "entry", m, c.fpos(rr), "%s does not start exactly one span", m) {
			continue
		}
		ef := cs[0]
		c.need(ef.PC == True || e.implies(rr.Final.pc, ef.PC), "entry", m+":always", c.pos(ef), "%s starts a span only if %s", m, c.P(ef.PC))
		c.need(ef.Args[0] == rr.param(2), "entry", m+":name", c.pos(ef), "the span is named %s", c.S(ef.Args[0]))
		remote := e.bdd(ef.Args[3])
		has := e.bdd(ef.Args[1])
		pc := ef.Args[2]
		c.need(e.equiv(e.all(has, ef.PC), e.all(ef.PC, e.not(e.isNil(pc)))), "entry", m+":hasParent", c.pos(ef), "a parent is assumed exactly when %s, instead of when the parent context is not empty", c.P(has))
		if m == "StartSpanWithRemoteParent" {
			c.need(remote == True, "entry", m+":remote", c.pos(ef), "the parent is recorded as local")
			c.need(pc == rr.param(3), "entry", m+":parent", c.pos(ef), "the parent is %s", c.S(pc))
		} else {
			c.need(remote == False, "entry", m+":remote", c.pos(ef), "the parent is recorded as remote")
			// parent comes from the span in the context
			okp := true
			cnt := 0
			for _, g := range e.cases(pc) {
				if e.B.And(g.C, ef.PC) == False {
					continue
				}
				if g.T.Op == "zero" {
					// only when the context holds no span
					sp := e.atomsIn(func(t *Term) bool { return t.Op == "isT" && e.hasCall(t, "invoke (context.Context).Value") }, g.C)
					_ = sp
					continue
				}
				cnt++
				if !e.containsC(g.T, func(t *Term) bool { return isCallTo(t, "invoke (context.Context).Value") }) {
					okp = false
				}
			}
			c.need(okp && cnt > 0, "entry", m+":parent", c.pos(ef), "the parent is %s, not the span in the context", c.S(pc))
			// the parent counts the child
			if cf := n.sdChild; cf != nil {
				cnt := 0
				for _, st := range rr.storesTo(cf) {
					cnt++
					c.need(e.same(st.PC, st.Val, e.plus(e.ld(st.Addr), 1)) && len(st.Loops) == 0, "child-count", m, c.pos(st), "the parent's child count becomes %s", c.S(st.Val))
				}
				c.need(cnt == 1, "child-count", m+":once", c.fpos(rr), "starting a child counts it %d times on the parent", cnt)
			}
		}
		// the returned context and span carry the started span
		if len(rr.Rets) == 2 {
			sp := rr.Rets[1]
			in := c.field("trace", "Span", "internal")
			v := rr.final(e.fa(sp, in))
			c.need(v != nil && contains(v, func(t *Term) bool { return t == ef.Result }), "entry", m+":span", c.fpos(rr), "the returned span does not wrap the started span")
			c.need(contains(rr.Rets[0], func(t *Term) bool { return t == sp }), "entry", m+":context", c.fpos(rr), "the returned context is %s: it does not hold the started span", c.S(rr.Rets[0]))
		}
	}
	// options are all applied, and write their own field
	for _, w := range []struct{ fn, field string }{{"WithSampler", "Sampler"}, {"WithSpanKind", "SpanKind"}} {
		rr := c.go1("trace", w.fn)
		if rr == nil || len(rr.Rets) != 1 || rr.Rets[0].Op != "closure" {
			c.bad("options", w.fn, "-", "%s does not return an option closure", w.fn)
			continue
		}
		cl := rr.Rets[0]
		fn := cl.Obj.(*ssa.Function)
		op := e.param(fn, 0)
		r2 := e.AnalyseWith(fn, []*Term{op}, cl.Args, rr.Final, c.std())
		c.note(r2)
		sts := r2.where("store", func(ef *Effect) bool { return rootOf(ef.Addr) == op })
		c.need(len(sts) == 1 && sts[0].PC == True && addrField(sts[0].Addr) == c.field("trace", "StartOptions", w.field) && sts[0].Val == rr.param(0), "options", w.fn, c.fpos(rr), "%s does not set exactly StartOptions.%s", w.fn, w.field)
	}
	for _, m := range []string{"StartSpan", "StartSpanWithRemoteParent"} {
		f := c.fn("trace", "(*tracer)."+m)
		if f == nil {
			continue
		}
		rr := c.run(f, c.std())
		last := len(rr.Root.params) - 1
		ok := false
		for _, ef := range rr.calls("dyn") {
			l := loopOver(ef, func(t *Term) bool { return t == rr.param(last) })
			if l != nil && l.Full && isElemOf(ef.Val, l) && inOrder(ef.Val, l) {
				ok = true
			}
		}
		c.need(ok, "options", m+":applied", c.fpos(rr), "%s does not apply every start option in order", m)
	}
	// built-in samplers
	smpl := func(fname string, args []*Term, st func(r *Run, ret BDD, fn *ssa.Function)) {
		f := c.fn("trace", fname)
		if f == nil {
			return
		}
		rr := c.run(f, c.std())
		for _, g := range e.cases(rr.Rets[0]) {
			if g.T.Op != "closure" && g.T.Op != "fn" {
				c.bad("samplers", fname, c.fpos(rr), "%s returns %s", fname, c.S(g.T))
				continue
			}
			fn := g.T.Obj.(*ssa.Function)
			r2 := e.AnalyseWith(fn, []*Term{e.param(fn, 0)}, g.T.Args, rr.Final, c.std())
			c.note(r2)
			if len(r2.Rets) == 1 {
				st(r2, sampleBit(e, r2.Rets[0]), fn)
			}
		}
	}
	smpl("AlwaysSample", nil, func(r *Run, ret BDD, fn *ssa.Function) {
		c.need(ret == True, "samplers", "AlwaysSample", c.fpos(r), "AlwaysSample decides %s", c.P(ret))
	})
	smpl("NeverSample", nil, func(r *Run, ret BDD, fn *ssa.Function) {
		c.need(ret == False, "samplers", "NeverSample", c.fpos(r), "NeverSample decides %s", c.P(ret))
	})
	smpl("ProbabilitySampler", nil, func(r *Run, ret BDD, fn *ssa.Function) {
		if ret == True {
			return // fraction >= 1
		}
		p0 := r.param(0)
		pst := p0.T.Underlying().(*types.Struct)
		var pctx *Term
		for i := 0; i < pst.NumFields(); i++ {
			if pst.Field(i).Name() == "ParentContext" {
				pctx = e.fieldOf(p0, pst, i)
			}
		}
		sst := pctx.T.Underlying().(*types.Struct)
		var pt *Term
		for i := 0; i < sst.NumFields(); i++ {
			if sst.Field(i) == n.topts {
				pt = e.fieldOf(pctx, sst, i)
			}
		}
		ps := c.sampledB(pt)
		c.need(e.implies(ps, ret), "samplers", "ProbabilitySampler:parent", c.fpos(r), "a span with a sampled parent is not always sampled: %s", c.P(ret))
		// otherwise the decision depends only on the trace ID
		rest := e.B.simplify(ret, e.not(ps))
		only := true
		for _, a := range e.B.Support(rest) {
			for _, f := range []string{"SpanID", "Name", "HasRemoteParent"} {
				if contains(e.atoms[a], func(t *Term) bool {
					return t.Op == "fieldof" && t.Obj.(*types.Var).Name() == f && t.Args[0] == p0
				}) {
					only = false
				}
			}
		}
		c.need(only, "samplers", "ProbabilitySampler:trace ID", c.fpos(r), "the decision for one trace depends on the individual span: %s", c.P(rest))
	})
}

func callNameOf(t *Term) string {
	if t == nil || t.Op != "call" {
		return ""
	}
	ci, _ := t.Obj.(*callInfo)
	if ci == nil {
		return ""
	}
	return ci.name
}

func isSamplingParams(t *Term) bool {
	n := namedOf(t.T)
	return n != nil && n.Obj().Name() == "SamplingParameters"
}

func sampleBit(e *Eng, d *Term) BDD {
	if d == nil {
		return False
	}
	st, ok := d.T.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 1 {
		return False
	}
	return e.bdd(e.fieldOf(d, st, 0))
}

// sampledTerm: t is x with bit 0 set (or cleared) and every other bit kept.
func (e *Eng) sampledTerm(t, x *Term, set bool) bool {
	r := e.newRun(Opts{})
	m := r.wrapIntTerm(-2, x.T)
	for _, g := range e.cases(t) {
		ok := false
		if set {
			if g.T.Op == "b|" {
				a, b := g.T.Args[0], g.T.Args[1]
				if constInt(b, 1) {
					a, b = b, a
				}
				ok = constInt(a, 1) && (b == x || b == e.bandTerm(x, m))
			} else if g.T == x {
				ok = e.implies(g.C, e.eq(e.bits(x, 1), e.mkInt(1, x.T)))
			}
		} else {
			ok = g.T == e.bandTerm(x, m)
			if g.T == x {
				ok = e.implies(g.C, e.not(e.eq(e.bits(x, 1), e.mkInt(1, x.T))))
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// ---------- C07 ----------

func ruleC07(c *Ctx) {
	if c.fn("trace", "(*defaultIDGenerator).init") == nil {
		return
	}
	e := c.E
	fs := func(x string) *types.Var { return c.field("trace", "defaultIDGenerator", x) }
	next, inc, add, rnd, once := fs("nextSpanID"), fs("spanIDInc"), fs("traceIDAdd"), fs("traceIDRand"), fs("initOnce")
	if c.failed() {
		return
	}
	gm := e.W.typ("trace", "defaultIDGenerator").Underlying().(*types.Struct).Field(0)
	_ = gm
	// span IDs
	if r := c.go1("trace", "(*defaultIDGenerator).NewSpanID"); r != nil && len(r.Rets) == 1 {
		g := r.param(0)
		puts := r.where("call", func(ef *Effect) bool { return strings.HasSuffix(ef.Name, "Endian).PutUint64") })
		ok := len(puts) >= 1
		for _, ef := range puts {
			id := ef.Args[2]
			c.need(e.implies(ef.PC, e.not(e.eq(id, e.mkInt(0, id.T)))), "non-zero", "NewSpanID", c.pos(ef), "a zero span ID can be returned: the ID is encoded if %s", c.P(ef.PC))
			// from the atomic sequence
			src := true
			var chk func(t *Term, d int) bool
			chk = func(t *Term, d int) bool {
				switch {
				case isCallTo(t, "sync/atomic.AddUint64"):
					return t.Args[0] == e.fa(g, next) && t.Args[1] == e.fv(g, inc)
				case t.Op == "loopphi":
					lp := t.Obj.(*LoopPhi)
					if d > 3 || !(constInt(lp.Init, 0) || chk(lp.Init, d+1)) {
						return false
					}
					for _, b := range lp.Back {
						if !chk(b, d+1) {
							return false
						}
					}
					return true
				case t.Op == "ite":
					return chk(t.Args[0], d+1) && chk(t.Args[1], d+1)
				}
				return false
			}
			src = chk(id, 0)
			c.need(src, "sequence", "NewSpanID", c.pos(ef), "the span ID is %s, not the next element of the atomic sequence", c.S(id))
			c.need(ef.Args[1].Op == "slice" && allAbsent(e, ef.Args[1], 8), "non-zero", "NewSpanID:bytes", c.pos(ef), "the ID is written to %s, not to all of the span ID", c.S(ef.Args[1]))
		}
		c.need(ok, "non-zero", "NewSpanID:encode", c.fpos(r), "the span ID is not produced by encoding a 64-bit sequence value")
	}
	// trace IDs
	if r := c.goL("trace", "(*defaultIDGenerator).NewTraceID"); r != nil && len(r.Rets) == 1 {
		for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
			v := ef.Args[0]
			ok := e.implies(ef.PC, e.not(e.eq(v, e.zero(v.T))))
			if !ok {
				// both halves were written, and not both of them are zero
				zero, part := True, map[int64]bool{}
				for _, p := range r.where("call", func(x *Effect) bool { return strings.HasSuffix(x.Name, "Endian).PutUint64") }) {
					if a := p.Args[1]; a.Op == "slice" && contains(v, func(x *Term) bool { return x == a.Args[0] }) && e.implies(ef.PC, p.PC) {
						lo := int64(0)
						if a.Args[1] != nil {
							lo, _ = a.Args[1].intVal()
						}
						part[lo] = true
						zero = e.all(zero, e.eq(p.Args[2], e.mkInt(0, p.Args[2].T)))
					}
				}
				ok = part[0] && part[8] && e.implies(e.rawOf(ef.PC), e.not(zero))
			}
			c.need(ok, "non-zero", "NewTraceID", c.pos(ef), "an all-zero trace ID can be returned (returned if %s)", c.P(ef.PC))
		}
		halves := map[string]bool{}
		for _, ef := range r.where("call", func(ef *Effect) bool { return strings.HasSuffix(ef.Name, "Endian).PutUint64") }) {
			if a := ef.Args[1]; a.Op == "slice" {
				halves[c.S(a.Args[1])+":"+c.S(a.Args[2])] = true
			}
		}
		c.need(len(halves) == 2, "random", "NewTraceID:halves", c.fpos(r), "the trace ID's two halves are not both generated")
		n := 0
		for _, ef := range r.Effects {
			hit := false
			if ef.Kind == "call" && strings.HasPrefix(ef.Name, "(*math/rand.Rand).") && isField(ef.Args[0], rnd, r.param(0)) {
				hit = true
				n++
			}
			if ef.Kind == "load" && addrField(ef.Addr) == rnd {
				hit = true
			}
			if hit {
				held := false
				for l, m := range ef.Locks {
					if rootOf(l) == r.param(0) && m == 2 {
						held = true
					}
				}
				c.need(held, "lock", "traceIDRand", c.pos(ef), "the random source, which is not safe for concurrent use, is used without the generator's lock")
			}
		}
		c.floor("lock", "uses of the random source", n, 1)
	}
	// initialisation
	if r := c.go1("trace", "(*defaultIDGenerator).init"); r != nil && r.Final != nil {
		g := r.param(0)
		seeded := map[string]bool{}
		var lastRead int
		for _, ef := range r.Effects {
			if ef.Kind == "store" && rootOf(ef.Addr) == g || ef.Kind == "call" && (ef.Name == "encoding/binary.Read" || ef.Name == "io.ReadFull" || ef.Name == "crypto/rand.Read") {
				c.need(onceHeld(ef, e.fa(g, once)), "init-once", "init", c.pos(ef), "the generator is initialised outside its Once")
			}
			if ef.Kind == "call" && ef.Name == "encoding/binary.Read" {
				lastRead = ef.Seq
				okr := e.containsC(ef.Args[0], func(t *Term) bool {
					gl, ok := t.Obj.(*ssa.Global)
					return ok && t.Op == "global" && gl.Pkg.Pkg.Path() == "crypto/rand"
				})
				c.need(okr, "entropy", "source", c.pos(ef), "the generator is seeded from %s, not from the system's entropy", c.S(ef.Args[0]))
				for _, f := range []*types.Var{next, inc, add} {
					if contains(ef.Args[2], func(t *Term) bool { return t == e.fa(g, f) }) {
						seeded[f.Name()] = true
					}
				}
			}
		}
		for _, f := range []*types.Var{next, inc, add} {
			c.need(seeded[f.Name()], "entropy", f.Name(), c.fpos(r), "%s is not initialised from entropy", f.Name())
		}
		fi := r.final(e.fa(g, inc))
		odd := func(t *Term) bool {
			return t.Op == "b|" && (isOddC(t.Args[0]) || isOddC(t.Args[1])) || isOddC(t) || e.oddLin(t)
		}
		c.need(allLeaves(fi, odd), "odd-increment", "spanIDInc", c.fpos(r), "the span ID increment is %s, which can be even: the sequence then repeats early", c.S(fi))
		for _, ef := range r.storesTo(inc) {
			c.need(ef.Seq > lastRead, "odd-increment", "order", c.pos(ef), "the increment is made odd before it is read from entropy")
		}
		fr := r.final(e.fa(g, rnd))
		okSeed := allLeaves(fr, func(t *Term) bool {
			return isCallTo(t, "math/rand.New") && isCallTo(t.Args[0], "math/rand.NewSource") && !t.Args[0].Args[0].isConst()
		})
		c.need(okSeed, "entropy", "traceIDRand", c.fpos(r), "the random source is %s, not seeded from entropy", c.S(fr))
	}
	// initialised before first use, everywhere
	r := c.go1("trace", "startSpanInternal")
	if r != nil {
		cnt := 0
		for _, ef := range r.Effects {
			if ef.Kind != "call" || !(strings.HasSuffix(ef.Name, "IDGenerator).NewTraceID") || strings.HasSuffix(ef.Name, "IDGenerator).NewSpanID")) {
				continue
			}
			cnt++
			gen := ef.Args[0]
			inited := False
			for _, o := range r.where("once", nil) {
				if o.Seq < ef.Seq && ownerOfField(o.Addr, once) != nil {
					inited = e.any(inited, o.PC)
				}
			}
			isDef := e.bdd(e.mk("isT", "", types.Typ[types.Bool], nil))
			_ = isDef
			var def BDD = False
			for _, a := range e.atomsIn(func(t *Term) bool {
				return t.Op == "isT" && t.Args[0] == gen && strings.Contains(t.Obj.(types.Type).String(), "defaultIDGenerator")
			}, inited) {
				def = e.any(def, a)
			}
			c.need(def != False && e.implies(e.all(ef.PC, def), inited), "init-before-use", ef.Name, c.pos(ef), "the default generator can be used before it is initialised (initialised if %s)", c.P(inited))
		}
		c.floor("init-before-use", "uses of the ID generator", cnt, 2)
	}
	sites := 0
	for _, ci := range c.sites("invoke (trace/internal.IDGenerator).NewTraceID", "invoke (trace/internal.IDGenerator).NewSpanID", "(*trace.defaultIDGenerator).NewTraceID", "(*trace.defaultIDGenerator).NewSpanID") {
		sites++
		if r != nil {
			c.need(r.visited[ci.Parent()], "init-before-use", "site:"+fnName(ci.Parent()), c.W.instrPos(ci), "%s uses the ID generator outside the start path that initialises it", fnName(ci.Parent()))
		}
	}
	c.floor("init-before-use", "call sites of the ID generator", sites, 2)
	// no other code touches the generator's state
	for _, f := range c.pkgFuncs("trace") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok {
					continue
				}
				fv := st.Field(fa.Field)
				if fv != next {
					continue
				}
				// only atomically, or inside init
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.Call:
						if g := x.Call.StaticCallee(); g != nil && strings.HasPrefix(fnName(g), "sync/atomic.") {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					p := f
					for p.Parent() != nil {
						p = p.Parent()
					}
					c.need(p.Name() == "init" || strings.HasPrefix(p.Name(), "init"), "atomic", fnName(f)+":nextSpanID", c.W.instrPos(ref), "nextSpanID is accessed without atomic operations in %s", fnName(f))
				}
			}
		}
	}
}

func isOddC(t *Term) bool { k, ok := t.intVal(); return ok && k%2 != 0 }

func (e *Eng) oddLin(t *Term) bool {
	l := e.toLin(t)
	if l.k%2 == 0 {
		return false
	}
	for _, c := range l.co {
		if c%2 != 0 {
			return false
		}
	}
	return len(l.co) > 0
}

func allAbsent(e *Eng, s *Term, n int64) bool {
	lo, hi := s.Args[1], s.Args[2]
	okLo := lo == nil || lo.Op == "absent" || constInt(lo, 0)
	okHi := hi == nil || hi.Op == "absent" || constInt(hi, n)
	return okLo && okHi
}

// ---------- C08 ----------

func ruleC08(c *Ctx) {
	e := c.E
	cfgG, expG := c.W.global("trace", "config"), c.W.global("trace", "exporters")
	cfgMu, expMu := c.W.global("trace", "configWriteMu"), c.W.global("trace", "exporterMu")
	if cfgG == nil || expG == nil || cfgMu == nil || expMu == nil {
		c.bad("anchor", "globals", "-", "the published configuration / exporter variables were not found")
		return
	}
	gt := func(g *ssa.Global) *Term { return e.mk("global", e.oid(g), g.Type(), g) }
	// generic: store and load of the atomic value in one critical section
	section := func(r *Run, g, mu *ssa.Global, what string, idle func(pc BDD) BDD) []*Effect {
		st := r.where("call", func(ef *Effect) bool {
			return ef.Name == "(*sync/atomic.Value).Store" && ef.Args[0] == gt(g)
		})
		one, all := len(st) >= 1, False
		for _, s := range st {
			one = one && len(s.Loops) == 0 && e.decide(e.all(all, s.PC), False) == 1
			all = e.any(all, s.PC)
		}
		if !c.need(one, "publish", what, c.fpos(r), "%s does not publish exactly one new value", what) {
			return nil
		}
		none := e.not(all)
		c.need(e.decide(none, False) == 1 || idle != nil && e.implies(none, idle(none)), "publish", what+":always", c.pos(st[0]), "%s publishes only if %s", what, c.P(all))
		lds := r.where("call", func(ef *Effect) bool {
			return ef.Name == "(*sync/atomic.Value).Load" && ef.Args[0] == gt(g)
		})
		c.floor("critical-section", what+" loads", len(lds), 1)
		for _, l := range lds {
			c.need(lockHeld(l, gt(mu), 2), "critical-section", what+":load", c.pos(l), "%s reads the old value without holding the writer lock, so a concurrent update is lost", what)
		}
		for _, s := range st {
			c.need(lockHeld(s, gt(mu), 2), "critical-section", what+":store", c.pos(s), "%s publishes without holding the writer lock", what)
			for _, l := range lds {
				for _, u := range r.where("unlock", nil) {
					if u.Addr == gt(mu) && u.Seq > l.Seq && u.Seq < s.Seq && e.decide(e.all(u.PC, s.PC), False) != 1 {
						c.bad("critical-section", what+":split", c.pos(u), "%s releases the writer lock between reading the old value and publishing the new one", what)
					}
				}
			}
		}
		return st
	}
	if r := c.go1("trace", "ApplyConfig"); r != nil {
		for _, s := range section(r, cfgG, cfgMu, "ApplyConfig", nil) {
			v := s.Args[1]
			if v.Op == "iface" {
				v = v.Args[0]
			}
			if c.need(v.Op == "alloc", "copy", "ApplyConfig", c.pos(s), "the published configuration is %s, not a fresh copy", c.S(v)) {
				st := deref(v.T).Underlying().(*types.Struct)
				cfg := r.param(0)
				old := e.oldConfig(r, s)
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					got := r.at(s, e.fa(v, f))
					in := e.fieldOf(cfg, st, i)
					var given BDD
					if isInt(f.Type()) {
						given = e.not(e.leq(in, e.mkInt(0, in.T)))
					} else {
						given = e.not(e.isNil(in))
					}
					c.need(e.same(given, got, in), "field", f.Name()+":set", c.pos(s), "a provided %s becomes %s", f.Name(), c.S(e.under(got, given)))
					x := e.under(got, e.not(given))
					c.need(x != nil && isField(x, f, nil) && old(x), "field", f.Name()+":kept", c.pos(s), "when %s is not provided it becomes %s instead of keeping the current value", f.Name(), c.S(x))
				}
			}
		}
	}
	for _, m := range []string{"RegisterExporter", "UnregisterExporter"} {
		r := c.go1("trace", m)
		if r == nil {
			continue
		}
		old := func(t *Term) bool {
			return e.containsC(t, func(x *Term) bool { return x == gt(expG) })
		}
		// conditions within pc under which no exporter is registered yet, and
		// under which the exporter given is registered
		noneYet := func(pc BDD) BDD {
			out := False
			for _, a := range e.atomsOf(pc) {
				if old(a) && a.Op == "isT" {
					out = e.any(out, e.not(e.atom(a)))
				}
				contains(a, func(t *Term) bool {
					if t.Op == "len" && old(t.Args[0]) {
						out = e.any(out, e.leZero(e.toLin(t)))
					} else if _, isMap := t.T.(*types.Named); isMap && old(t) && t.T.String() == e.W.typ("trace", "exportersMap").String() {
						out = e.any(out, e.isNil(t))
					}
					return false
				})
			}
			return out
		}
		registered := func(pc BDD) BDD {
			out := False
			for _, a := range e.atomsOf(pc) {
				if a.Op == "mapok" && old(a.Args[0]) && a.Args[1] == r.param(0) {
					out = e.any(out, e.atom(a))
				}
			}
			return out
		}
		missing := func(pc BDD) BDD {
			if in := registered(pc); in != False {
				return e.not(in)
			}
			return False
		}
		idle := registered // adding again changes nothing
		if m == "UnregisterExporter" {
			idle = func(pc BDD) BDD { return e.any(noneYet(pc), missing(pc)) }
		}
		for _, s := range section(r, expG, expMu, m, idle) {
			v := s.Args[1]
			if v.Op == "iface" {
				v = v.Args[0]
			}
			if !c.need(v.Op == "make", "copy", m, c.pos(s), "the published exporter set is %s, not a fresh copy", c.S(v)) {
				continue
			}
			for _, ef := range r.Effects {
				if (ef.Kind == "mapupdate" || ef.Kind == "delete") && ef.Addr == v && ef.Seq > s.Seq {
					c.bad("copy", m+":after-publish", c.pos(ef), "%s modifies the exporter set after publishing it", m)
				}
			}
			copied, addE, delE := e.implies(s.PC, noneYet(s.PC)), false, e.implies(s.PC, noneYet(s.PC))
			lastCopy := -1
			for _, ef := range r.Effects {
				switch ef.Kind {
				case "mapupdate":
					if rootOf(ef.Addr).Op == "make" && ef.Addr != v {
						continue
					}
					if ef.Addr != v {
						c.bad("copy", m+":write", c.pos(ef), "%s writes to a published exporter set", m)
						continue
					}
					l := loopOver(ef, old)
					if l != nil {
						rest := e.forget(ef.PC, func(t *Term) bool { return old(t) && (t.Op == "more" || t.Op == "isT") })
						skip := e.forget(ef.PC, func(t *Term) bool {
							return old(t) && (t.Op == "more" || t.Op == "isT" || t.Op == "eq" && contains(t, func(x *Term) bool { return x == r.param(0) }))
						})
						if l.Full && isElemOf(ef.Key, l) && (e.implies(s.PC, rest) || m == "UnregisterExporter" && e.implies(s.PC, skip)) {
							copied = true
							if !e.implies(s.PC, rest) {
								delE = true // skipping the removed exporter while copying
							}
						}
						lastCopy = ef.Seq
					} else {
						c.need(ef.Key == r.param(0) && m == "RegisterExporter", "exact", m+":add", c.pos(ef), "%s adds %s to the exporter set", m, c.S(ef.Key))
						if e.implies(s.PC, ef.PC) {
							addE = true
						}
					}
				case "delete":
					if rootOf(ef.Addr).Op == "make" && ef.Addr != v {
						continue
					}
					if ef.Addr != v {
						c.bad("copy", m+":delete", c.pos(ef), "%s removes from a published exporter set", m)
						continue
					}
					c.need(ef.Key == r.param(0) && m == "UnregisterExporter", "exact", m+":remove", c.pos(ef), "%s removes %s", m, c.S(ef.Key))
					if e.implies(s.PC, ef.PC) && ef.Seq > lastCopy && lastCopy >= 0 {
						delE = true
					}
				}
			}
			c.need(copied, "exact", m+":copy", c.fpos(r), "%s does not keep every exporter registered before", m)
			if m == "RegisterExporter" {
				c.need(addE, "exact", m, c.fpos(r), "%s does not add the exporter", m)
			} else {
				c.need(delE, "exact", m, c.fpos(r), "%s does not remove the exporter (after copying the others)", m)
			}
		}
	}
	// published values are never written; nothing else publishes
	cfgT := c.W.typ("trace", "Config")
	var cfs []*types.Var
	if cfgT != nil {
		st := cfgT.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			cfs = append(cfs, st.Field(i))
		}
	}
	for _, f := range c.roots("trace") {
		r := c.run(f, c.std())
		for _, ef := range r.Effects {
			switch {
			case ef.Kind == "store":
				for _, cf := range cfs {
					if b := ownerOfField(ef.Addr, cf); b != nil {
						c.need(isFresh(rootOf(b)), "published-immutable", fnName(f)+":"+cf.Name(), c.pos(ef), "%s writes %s of a published configuration", fnName(f), cf.Name())
					}
				}
			case ef.Kind == "mapupdate" || ef.Kind == "delete":
				if e.containsC(ef.Addr, func(x *Term) bool { return x == gt(expG) }) {
					c.bad("published-immutable", fnName(f)+":exporters", c.pos(ef), "%s modifies a published exporter set", fnName(f))
				}
			case ef.Kind == "call" && ef.Name == "(*sync/atomic.Value).Store":
				if ef.Args[0] == gt(cfgG) {
					c.need(f.Name() == "ApplyConfig", "published-immutable", fnName(f)+":publish", c.pos(ef), "%s publishes a configuration", fnName(f))
				}
				if ef.Args[0] == gt(expG) {
					c.need(f.Name() == "RegisterExporter" || f.Name() == "UnregisterExporter", "published-immutable", fnName(f)+":publish", c.pos(ef), "%s publishes an exporter set", fnName(f))
				}
			}
		}
	}
	// the configuration is complete from the start: every field is set by the
	// package initialiser before any span can start
	done := map[string]bool{}
	for _, f := range c.pkgFuncs("trace") {
		if !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		r := c.run(f, c.std())
		for _, ef := range r.where("call", func(ef *Effect) bool {
			return ef.Name == "(*sync/atomic.Value).Store" && ef.Args[0] == gt(cfgG)
		}) {
			v := ef.Args[1]
			if v.Op == "iface" {
				v = v.Args[0]
			}
			for _, cf := range cfs {
				x := r.at(ef, e.fa(v, cf))
				if x != nil && e.isNil(x) != True && !constInt(x, 0) {
					done[cf.Name()] = true
				}
			}
		}
	}
	for _, cf := range cfs {
		c.need(done[cf.Name()], "initial", cf.Name(), "-", "the initial configuration leaves %s unset", cf.Name())
	}
}

// oldConfig recognises values read from the configuration being replaced.
func (e *Eng) oldConfig(r *Run, s *Effect) func(*Term) bool {
	g := s.Args[0]
	return func(t *Term) bool {
		return e.containsC(t, func(x *Term) bool { return x == g })
	}
}

// ---------- C09 ----------

func ruleC09(c *Ctx) {
	n := c.tn()
	e := c.E
	f := func(t, x string) *types.Var { return c.field("trace", t, x) }
	mu, active, errs, lat, maxErr := f("spanStore", "mu"), f("spanStore", "active"), f("spanStore", "errors"), f("spanStore", "latency"), f("spanStore", "maxSpansPerErrorBucket")
	bNext, bBuf, bIdx, bOv := f("bucket", "nextTime"), f("bucket", "buffer"), f("bucket", "nextIndex"), f("bucket", "overflow")
	stores, ssmu := c.W.global("trace", "spanStores"), c.W.global("trace", "ssmu")
	if stores == nil || ssmu == nil {
		c.bad("anchor", "spanStores", "-", "the span store table was not found")
	}
	if c.failed() {
		return
	}
	gt := func(g *ssa.Global) *Term { return e.mk("global", e.oid(g), g.Type(), g) }
	lse := c.W.global("internal", "LocalSpanStoreEnabled")
	if lse == nil {
		c.bad("anchor", "LocalSpanStoreEnabled", "-", "internal.LocalSpanStoreEnabled not found")
		return
	}
	lseB := e.bdd(e.ld(gt(lse)))
	// (a) active from start
	if r := c.go1("trace", "startSpanInternal"); r != nil && len(r.Rets) == 1 {
		s := r.Rets[0]
		cov := False
		cnt := 0
		for _, ef := range r.where("mapupdate", func(ef *Effect) bool {
			return anyLeaf(ef.Addr, func(t *Term) bool { return isField(t, active, nil) || t.Op == "make" }) && mapKeyIs(ef.Addr.T, "SpanInterface")
		}) {
			cnt++
			k := ef.Key
			if k.Op == "iface" {
				k = k.Args[0]
			}
			c.need(k == s, "active", "add:key", c.pos(ef), "%s is added to the active spans instead of the started span", c.S(ef.Key))
			c.need(len(ef.Loops) == 0 && e.B.And(cov, ef.PC) == False, "active", "add:once", c.pos(ef), "a span is added to the active spans twice")
			cov = e.any(cov, ef.PC)
		}
		c.floor("active", "insertions on start", cnt, 1)
		nonNilStores := True
		for _, a := range e.atomsIn(func(t *Term) bool {
			return t.Op == "eq" && t.Args[1].Op == "nil" && t.Args[0].Op == "mapval"
		}, cov) {
			nonNilStores = e.all(nonNilStores, e.not(a))
		}
		c.need(e.implies(e.all(lseB, nonNilStores), cov), "active", "add:always", c.fpos(r), "with local span storage enabled a started span is not always added to the active spans: added if %s", c.P(cov))
		// the store it was added to is the store it will be removed from
		ssv := r.final(e.fa(s, n.store))
		for _, ef := range r.where("mapupdate", func(ef *Effect) bool { return mapKeyIs(ef.Addr.T, "SpanInterface") }) {
			ok := true
			for _, g := range e.cases(ef.Addr) {
				pc := e.all(ef.PC, g.C)
				if pc == False {
					continue
				}
				ss := e.under(ssv, pc)
				if g.T.Op == "make" {
					// the active set of a store created here
					if ss.Op != "alloc" {
						ok = false
					}
					continue
				}
				if !(g.T.Op == "ld" && g.T.Args[0].Args[0] == ss) {
					ok = false
				}
			}
			c.need(ok, "active", "add:store", c.pos(ef), "the span is added to one store's active set but remembers another store (%s)", c.S(ssv))
		}
		// the store is the one for the span's own name
		for _, ef := range r.where("lookup", func(ef *Effect) bool { return ef.Addr == e.ld(gt(stores)) }) {
			c.need(ef.Key == r.param(0), "active", "by-name", c.pos(ef), "the span store is looked up under %s, not the span's name", c.S(ef.Key))
		}
	}
	// (b) removal and bucket choice on end
	noBucket := func(f *ssa.Function) bool {
		nm := fnName(f)
		return nm != "(*trace.bucket).add" && nm != "trace.latencyBucket"
	}
	if fe := c.fn("trace", "(*span).End"); fe != nil {
		r := c.run(fe, Opts{Resolve: c.resolve(), Inline: noBucket, Loads: true})
		s := r.param(0)
		ss := e.ld(e.fa(s, n.store))
		rec := e.all(e.not(e.isNil(s)), e.not(e.isNil(e.fv(s, n.data))), e.not(e.isNil(ss)))
		del := False
		for _, ef := range r.where("delete", func(ef *Effect) bool { return isField(ef.Addr, active, nil) }) {
			k := ef.Key
			if k.Op == "iface" {
				k = k.Args[0]
			}
			c.need(k == s && isField(ef.Addr, active, ss), "active", "remove:key", c.pos(ef), "ending removes %s from %s", c.S(ef.Key), c.S(ef.Addr))
			c.need(onceHeld(ef, e.fa(s, n.once)), "active", "remove:once", c.pos(ef), "the active set is updated outside the span's endOnce")
			del = e.any(del, ef.PC)
		}
		c.need(e.implies(rec, del), "active", "remove:always", c.fpos(r), "an ended span is removed from the active spans only if %s", c.P(del))
		adds := r.calls("(*trace.bucket).add")
		c.floor("bucket", "bucket insertions", len(adds), 1)
		cov := False
		code := f("Status", "Code")
		for _, ef := range adds {
			c.need(e.B.And(cov, ef.PC) == False && len(ef.Loops) == 0, "bucket", "exactly-one", c.pos(ef), "an ended span can be stored in two buckets")
			cov = e.any(cov, ef.PC)
			c.need(e.heldFor(ef, True, e.fa(ss, mu), 2), "bucket", "locked", c.pos(ef), "a bucket is changed without the store's lock")
			sd := ef.Args[1]
			var cv *Term
			if sd.Op == "alloc" {
				cv = r.at(ef, e.ap(sd, n.sdStatus, code))
			} else {
				cv = e.ld(e.ap(sd, n.sdStatus, code))
			}
			okc := e.eq(cv, e.mkInt(0, cv.T))
			for _, g := range e.cases(ef.Args[0]) {
				pc := e.all(ef.PC, g.C)
				if pc == False {
					continue
				}
				b := g.T
				switch {
				case b.Op == "index":
					c.need(e.implies(pc, okc), "bucket", "latency-if-OK", c.pos(ef), "a failed span is stored in a latency bucket (if %s)", c.P(pc))
					c.need(isField(b.Args[0], lat, ss), "bucket", "latency", c.pos(ef), "the span is stored in %s", c.S(b))
					ix := b.Args[1]
					if c.need(isCallTo(ix, "trace.latencyBucket"), "bucket", "index", c.pos(ef), "the latency bucket is %s, not latencyBucket(latency)", c.S(ix)) {
						lv := ix.Args[0]
						okl := false
						for _, l := range leaves(lv) {
							if isCallTo(l, "(time.Time).Sub") {
								end, start := r.at(ef, e.fa(sd, n.sdEnd)), r.at(ef, e.fa(sd, n.sdStart))
								okl = l.Args[0] == end && l.Args[1] == start
							} else if !constInt(l, 0) {
								okl = false
								break
							}
						}
						c.need(okl, "bucket", "latency-value", c.pos(ef), "the latency used to choose the bucket is %s", c.S(lv))
						// clamped only when negative
						for _, l := range e.cases(lv) {
							if constInt(l.T, 0) {
								neg := False
								for _, a := range e.B.Support(l.C) {
									if at := e.atoms[a]; at.Op == "le" && e.hasCall(at, "(time.Time).Sub") {
										if k, _ := at.Args[1].intVal(); k == -1 || k == 0 {
											neg = e.B.Var(a)
										}
									}
								}
								c.need(neg != False && e.implies(l.C, neg), "bucket", "latency-clamp", c.pos(ef), "the latency is treated as zero if %s", c.P(l.C))
							}
						}
					}
				default:
					c.need(e.implies(pc, e.not(okc)), "bucket", "error-if-failed", c.pos(ef), "a successful span is stored in an error bucket (if %s)", c.P(pc))
					if b.Op == "alloc" {
						// a new error bucket of the configured size, recorded under the code
						rec := false
						for _, u := range r.where("mapupdate", func(u *Effect) bool { return u.Val == b }) {
							if sameVal(u.Key, cv) && e.implies(pc, u.PC) && anyLeaf(u.Addr, func(t *Term) bool { return isField(t, errs, ss) }) {
								rec = true
							}
						}
						c.need(rec, "bucket", "error-new", c.pos(ef), "a new error bucket is not recorded under the span's status code")
						bv := r.at(ef, e.fa(b, bBuf))
						sz := e.under(e.length(bv), pc)
						c.need(isField(sz, maxErr, ss), "bucket", "error-size", c.pos(ef), "a new error bucket has size %s instead of the configured one", c.S(sz))
					} else {
						c.need(b.Op == "mapval" && sameVal(b.Args[1], cv) && isField(b.Args[0], errs, ss), "bucket", "error", c.pos(ef), "a failed span is stored in %s instead of the bucket of its status code", c.S(b))
					}
				}
			}
		}
		c.need(e.implies(rec, cov), "bucket", "always", c.fpos(r), "an ended span is offered to a bucket only if %s", c.P(cov))
	}
	c.c09buckets(bNext, bBuf, bIdx, bOv)
	// (g) locking
	sp := &lockSpec{
		what:   "span store state",
		mu:     func(o *Term) *Term { return e.fa(o, mu) },
		fields: map[*types.Var]bool{active: true, errs: true, lat: true, maxErr: true},
		stop:   map[string]bool{"trace.SpanData": true, "trace.span": true, "trace.SpanInterface": true},
	}
	c.checkLockset("store-lock", sp, c.roots("trace"), nil, 15)
	sg := &lockSpec{
		what:  "the table of span stores",
		mu:    func(o *Term) *Term { return gt(ssmu) },
		globs: map[*ssa.Global]bool{stores: true},
		stop:  map[string]bool{"trace.spanStore": true},
	}
	c.checkLockset("table-lock", sg, c.roots("trace"), nil, 4)
	// one store per name: the insertion re-checks under the writer lock
	cnt := 0
	for _, f := range c.roots("trace") {
		r := c.run(f, c.stdLoads())
		for _, u := range r.where("mapupdate", func(u *Effect) bool { return u.Addr == e.ld(gt(stores)) }) {
			cnt++
			ok := false
			for _, l := range r.where("lookup", nil) {
				if l.Addr == u.Addr && l.Key == u.Key && l.Seq < u.Seq && lockHeld(l, gt(ssmu), 2) && e.implies(u.PC, l.PC) {
					ok = true
					for _, x := range r.where("unlock", nil) {
						if x.Addr == gt(ssmu) && x.Seq > l.Seq && x.Seq < u.Seq && e.B.And(x.PC, u.PC) != False {
							ok = false
						}
					}
				}
			}
			c.need(ok, "one-store-per-name", fnName(f), c.pos(u), "%s inserts a span store without re-checking for an existing one under the writer lock: spans of a replaced store are lost", fnName(f))
			c.need(u.Val.Op == "alloc", "one-store-per-name", fnName(f)+":value", c.pos(u), "a nil or foreign store is inserted")
		}
	}
	c.floor("one-store-per-name", "insertions", cnt, 1)
	// reports cover every stored span
	c.c09reports(active, errs, lat, bBuf, n)
}

func sameVal(a, b *Term) bool {
	strip := func(t *Term) *Term {
		for t != nil && (t.Op == "conv") {
			t = t.Args[0]
		}
		return t
	}
	return strip(a) == strip(b)
}

func mapKeyIs(t types.Type, nm string) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	n := namedOf(m.Key())
	return n != nil && n.Obj().Name() == nm
}

func (c *Ctx) c09buckets(bNext, bBuf, bIdx, bOv *types.Var) {
	e := c.E
	sdEnd := c.field("trace", "SpanData", "EndTime")
	lats := c.W.global("trace", "defaultLatencies")
	if lats == nil {
		c.bad("anchor", "defaultLatencies", "-", "the latency table was not found")
		return
	}
	// add
	if r := c.go1("trace", "(*bucket).add"); r != nil && r.Final != nil {
		b, s := r.param(0), r.param(1)
		buf, ix, ov, nt := e.fv(b, bBuf), e.fv(b, bIdx), e.bdd(e.fv(b, bOv)), e.fv(b, bNext)
		end := e.ld(e.fa(s, sdEnd))
		early := e.atomsIn(func(t *Term) bool {
			return isCallTo(t, "(time.Time).Before") && t.Args[0] == end && t.Args[1] == nt
		}, pcs(r)...)
		if c.need(len(early) == 1, "ring", "sample-period", c.fpos(r), "adding to a bucket does not compare the span's end time with the time the next span is accepted") {
			empty := e.eq(e.length(buf), e.mkInt(0, nil))
			acc := e.all(e.not(early[0]), e.not(empty))
			inv := e.all(e.lt(ix, e.length(buf)), e.leq(e.mkInt(0, nil), ix)) // kept by this rule and by resize
			p := c.fpos(r)
			sts := r.where("store", func(ef *Effect) bool { return ef.Addr.Op == "index" })
			okst := len(sts) > 0
			cov := False
			for _, ef := range sts {
				okst = okst && ef.Addr.Args[0] == buf && ef.Addr.Args[1] == ix && ef.Val == s
				cov = e.any(cov, ef.PC)
			}
			c.need(okst && e.equiv(cov, acc), "ring", "slot", p, "an accepted span is not stored in exactly the next slot (stored if %s)", c.P(cov))
			wrap := e.eq(e.plus(ix, 1), e.length(buf))
			fi, fo, fn := r.final(e.fa(b, bIdx)), r.final(e.fa(b, bOv)), r.final(e.fa(b, bNext))
			acc = e.all(acc, inv)
			c.need(e.same(e.all(acc, wrap), fi, e.mkInt(0, nil)) && e.same(e.all(acc, e.not(wrap)), fi, e.plus(ix, 1)), "ring", "advance", p, "the next slot becomes %s", c.S(e.under(fi, acc)))
			c.need(e.implies(e.all(acc, wrap), e.bdd(fo)) && e.implies(e.all(acc, e.not(wrap), e.bdd(fo)), ov) && e.implies(e.all(acc, e.not(wrap), ov), e.bdd(fo)), "ring", "overflow", p, "the wrapped flag becomes %s", c.S(fo))
			x := e.under(fn, acc)
			c.need(isCallTo(x, "(time.Time).Add") && x.Args[0] == end && constInt(x.Args[1], 1000000000), "ring", "next-time", p, "the next acceptance time becomes %s", c.S(x))
			rej := e.any(early[0], empty)
			c.need(e.same(rej, fi, ix) && e.same(rej, fn, nt) && e.equiv(e.all(rej, e.bdd(fo)), e.all(rej, ov)), "ring", "rejected", p, "a rejected span changes the bucket")
			c.need(e.same(True, r.final(e.fa(b, bBuf)), buf), "ring", "buffer", p, "adding replaces the buffer")
		}
	}
	if r := c.go1("trace", "(*bucket).size"); r != nil && len(r.Rets) == 1 {
		b := r.param(0)
		ov := e.bdd(e.fv(b, bOv))
		c.need(e.same(ov, r.Rets[0], e.length(e.fv(b, bBuf))) && e.same(e.not(ov), r.Rets[0], e.fv(b, bIdx)), "ring", "size", c.fpos(r), "a bucket's size is %s", c.S(r.Rets[0]))
	}
	if r := c.go1("trace", "(*bucket).span"); r != nil && len(r.Rets) == 1 {
		b, i := r.param(0), r.param(1)
		ov := e.bdd(e.fv(b, bOv))
		buf, ix := e.fv(b, bBuf), e.fv(b, bIdx)
		ln := e.length(buf)
		at := func(k *Term) *Term { return e.ld(e.indexAddr(buf, k, bBuf.Type().Underlying().(*types.Slice).Elem())) }
		sum := e.fromLin(e.toLin(ix).add(e.toLin(i), 1), ix.T)
		in := e.lt(sum, ln)
		out := e.fromLin(e.toLin(sum).add(e.toLin(ln), -1), ix.T)
		v := r.Rets[0]
		ok := e.same(e.not(ov), v, at(i)) && e.same(e.all(ov, in), v, at(sum)) && e.same(e.all(ov, e.not(in)), v, at(out))
		c.need(ok, "ring", "order", c.fpos(r), "the i-th span of a bucket (oldest first) is %s", c.S(v))
	}
	// resize keeps the newest spans
	if f := c.fn("trace", "(*bucket).resize"); f != nil {
		r := c.run(f, Opts{Resolve: c.resolve(), Inline: func(f *ssa.Function) bool { return fnName(f) != "(*trace.bucket).span" }})
		b, nn := r.param(0), r.param(1)
		ov := e.bdd(e.fv(b, bOv))
		cur := e.ite(ov, e.length(e.fv(b, bBuf)), e.fv(b, bIdx))
		p := c.fpos(r)
		nb := r.final(e.fa(b, bBuf))
		c.need(allLeaves(nb, func(t *Term) bool { return t.Op == "make" && e.length(t) == nn }), "resize", "buffer", p, "after resizing the buffer is %s, not a new one of the requested size", c.S(nb))
		for _, k := range []bool{true, false} {
			ovk := ov
			ck := e.length(e.fv(b, bBuf))
			if !k {
				ovk = e.not(ov)
				ck = e.fv(b, bIdx)
			}
			_ = cur
			grow := e.all(ovk, e.lt(ck, nn))
			shrink := e.all(ovk, e.not(e.leq(ck, nn)))
			fi, fo := r.final(e.fa(b, bIdx)), e.bdd(r.final(e.fa(b, bOv)))
			c.need(e.same(grow, fi, ck) && e.implies(grow, e.not(fo)), "resize", fmt.Sprintf("grow:%v", k), p, "growing a bucket leaves next slot %s, wrapped %s", c.S(e.under(fi, grow)), c.P(fo))
			c.need(e.same(shrink, fi, e.mkInt(0, nil)) && e.implies(shrink, fo), "resize", fmt.Sprintf("shrink:%v", k), p, "shrinking a bucket leaves next slot %s, wrapped %s", c.S(e.under(fi, shrink)), c.P(fo))
			// contents: slot i receives the span (i + cur - n) when shrinking, i when growing
			for _, ef := range r.where("store", func(ef *Effect) bool { return ef.Addr.Op == "index" && isFresh(rootOf(ef.Addr)) }) {
				for _, cs := range []struct {
					c   BDD
					off *Term
					nm  string
				}{{grow, e.mkInt(0, nil), "grow"}, {shrink, e.fromLin(e.toLin(ck).add(e.toLin(nn), -1), nn.T), "shrink"}} {
					pc := e.all(ef.PC, cs.c)
					if pc == False || e.decide(ef.PC, e.not(cs.c)) == 1 {
						continue
					}
					v := e.under(ef.Val, pc)
					ok := isCallTo(v, "(*trace.bucket).span") && len(ef.Loops) > 0
					if ok {
						want := e.toLin(ef.Addr.Args[1]).add(e.toLin(cs.off), 1)
						got := e.toLin(e.under(v.Args[1], pc))
						ok = len(want.add(got, -1).co) == 0 && want.add(got, -1).k == 0
					}
					c.need(ok, "resize", cs.nm+":contents", c.pos(ef), "when resizing (%s), slot %s receives %s: not the newest spans in order", cs.nm, c.S(ef.Addr.Args[1]), c.S(v))
				}
			}
		}
		cnt := 0
		for _, l := range r.Loops {
			if l.Kind == "count" || l.Kind == "other" || l.Kind == "slice" {
				cnt++
				c.need(l.Full, "resize", "loop", p, "the copying loop can stop early")
				// bound: iter < cur (grow) or iter < n (shrink)
				for _, cs := range []struct {
					c  BDD
					hi *Term
				}{} {
					_ = cs
				}
			}
		}
		c.floor("resize", "copy loops", cnt, 1)
		// loop bounds: for every case the loop runs over exactly [0,cur) / [0,n)
		for _, ef := range r.where("store", func(ef *Effect) bool { return ef.Addr.Op == "index" && isFresh(rootOf(ef.Addr)) }) {
			it := ef.Addr.Args[1]
			for _, k := range []bool{true, false} {
				ovk, ck := ov, e.length(e.fv(b, bBuf))
				if !k {
					ovk, ck = e.not(ov), e.fv(b, bIdx)
				}
				for _, cs := range []struct {
					c  BDD
					hi *Term
				}{{e.all(ovk, e.lt(ck, nn)), ck}, {e.all(ovk, e.not(e.leq(ck, nn))), nn}} {
					pc := e.all(ef.PC, cs.c)
					if e.decide(ef.PC, e.not(cs.c)) == 1 || pc == False {
						continue
					}
					inb := e.lt(it, cs.hi)
					c.need(e.implies(pc, inb) && e.implies(e.all(cs.c, inb), e.any(ef.PC, e.not(inb))), "resize", "range", c.pos(ef), "the copying loop does not cover exactly the kept spans: runs if %s", c.P(pc))
				}
			}
		}
	}
	// each kind of bucket gets its own size
	if f := c.fn("trace", "(*spanStore).resize"); f != nil {
		lat, errs, maxErr := c.field("trace", "spanStore", "latency"), c.field("trace", "spanStore", "errors"), c.field("trace", "spanStore", "maxSpansPerErrorBucket")
		r := c.run(f, Opts{Resolve: c.resolve(), Inline: func(f *ssa.Function) bool { return fnName(f) != "(*trace.bucket).resize" }})
		s := r.param(0)
		seen := map[string]bool{}
		for _, ef := range r.calls("(*trace.bucket).resize") {
			for _, k := range []struct {
				f *types.Var
				i int
			}{{lat, 1}, {errs, 2}} {
				l := loopOver(ef, func(t *Term) bool { return isField(t, k.f, s) })
				if l == nil {
					continue
				}
				c.need(ef.Args[1] == r.param(k.i), "resize", "store:"+k.f.Name(), c.pos(ef), "the %s buckets are resized to %s", k.f.Name(), c.S(ef.Args[1]))
				if l.Full && isElemOf(ef.Args[0], l) && e.forget(ef.PC, loopAtom) == True {
					seen[k.f.Name()] = true
				}
			}
		}
		c.need(seen["latency"] && seen["errors"], "resize", "store:all", c.fpos(r), "resizing a store does not resize all of its buckets (complete: %v)", seen)
		c.need(r.Final != nil && r.final(e.fa(s, maxErr)) == r.param(2), "resize", "store:new-error-buckets", c.fpos(r), "the size of later error buckets becomes %s", c.S(r.final(e.fa(s, maxErr))))
	}
	// configured sizes are clamped to what a buffer can have
	if f := c.fn("trace", "(internalOnly).ConfigureBucketSizes"); f != nil {
		r := c.run(f, Opts{Resolve: c.resolve(), Inline: func(f *ssa.Function) bool { return fnName(f) != "trace.spanStoreSetSize" }})
		cnt := 0
		for _, ef := range r.calls("trace.spanStoreSetSize") {
			cnt++
			for i, nm := range []string{"MaxRequestsSucceeded", "MaxRequestsErrors"} {
				ff := c.field("internal", "BucketConfiguration", nm)
				for _, g := range e.cases(ef.Args[1+i]) {
					pc := e.all(ef.PC, g.C)
					if e.decide(pc, False) == 1 || pc == False {
						continue
					}
					k, isC := g.T.intVal()
					ok := isC && k >= 0 && k <= 100000 || !isC && e.containsC(g.T, func(t *Term) bool { return (t.Op == "field" || t.Op == "fieldof") && t.Obj == any(ff) }) && e.implies(pc, e.all(e.leq(e.mkInt(0, nil), g.T), e.leq(g.T, e.mkInt(100000, nil))))
					c.need(ok, "resize", "configured:"+nm, c.pos(ef), "a store is configured with size %s for %s, which is not its own value clamped to [0, 100000]", c.S(g.T), nm)
				}
			}
		}
		c.floor("resize", "configured stores", cnt, 1)
	}
	// bucket index and bounds agree with one strictly increasing table
	var tab []int64
	arrT, _ := deref(lats.Type()).Underlying().(*types.Array)
	if arrT != nil {
		tab = c.constTable(lats)
	}
	if !c.need(arrT != nil && int64(len(tab)) == arrT.Len() && len(tab) > 0, "bounds", "table", c.W.position(lats.Pos()), "the latency table is not a constant table") {
		return
	}
	inc := true
	for i := 1; i < len(tab); i++ {
		if tab[i] <= tab[i-1] {
			inc = false
		}
	}
	c.need(inc && tab[0] > 0, "bounds", "increasing", c.W.position(lats.Pos()), "the latency table is not strictly increasing: %v", tab)
	N := int64(len(tab))
	el := func(k *Term) *Term {
		return e.ld(e.indexAddr(e.mk("global", e.oid(lats), lats.Type(), lats), k, arrT.Elem()))
	}
	if r := c.go1("trace", "latencyBucket"); r != nil && len(r.Rets) == 1 {
		x := r.param(0)
		p := c.fpos(r)
		var lp *LoopCtx
		for _, l := range r.Loops {
			if l.Iter != nil || l.Kind != "" {
				lp = l
			}
		}
		ok := lp != nil
		why := "no search loop found"
		if ok {
			// the loop's position variable
			it := lp.Iter
			for _, ph := range lp.phis {
				if ph.Step == 1 && constInt(ph.Init, 0) {
					it = ph.Term
				}
			}
			cont := False
			for _, ph := range lp.phis {
				for _, b := range ph.BPC {
					cont = e.any(cont, b)
				}
				break
			}
			if it == nil {
				ok, why = false, "no position variable"
			} else {
				tk := func(t *Term) bool { return t == el(it) || t.Op == "indexof" && t.Args[1] == it }
				ge := False
				for _, a := range e.B.Support(cont) {
					at := e.atoms[a]
					if at.Op != "le" {
						continue
					}
					l := e.toLin(at.Args[0])
					kk, _ := at.Args[1].intVal()
					var tt *Term
					for t := range l.co {
						if tk(t) {
							tt = t
						}
					}
					if tt == nil || l.co[x] == 0 || len(l.co) != 2 {
						continue
					}
					// table <= x  i.e. tt - x <= 0, or not (x - tt <= -1)
					if l.co[tt] == 1 && l.co[x] == -1 && kk-l.k == 0 {
						ge = e.B.Var(a)
					}
					if l.co[tt] == -1 && l.co[x] == 1 && kk-l.k == -1 {
						ge = e.not(e.B.Var(a))
					}
				}
				inr := e.lt(it, e.mkInt(N, nil))
				if ge == False {
					ok, why = false, "the latency is not compared with the table entry as 'latency >= entry': continues if "+c.P(cont)
				} else if !e.implies(cont, e.all(ge, inr)) {
					ok, why = false, "it continues past entry i although the latency is below it: "+c.P(cont)
				} else {
					for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
						for _, g := range e.cases(ef.Args[0]) {
							if g.T != it && !constInt(g.T, N) {
								ok, why = false, "it returns "+c.S(g.T)
							}
						}
					}
					// every early exit is because the latency is below the entry
					for _, xb := range lp.early {
						for _, a := range e.B.Support(xb) {
							if at := e.atoms[a]; at.Op == "exists" {
								raw := at.Obj.(BDD)
								if !e.implies(raw, e.not(ge)) {
									ok, why = false, "it stops early if "+c.P(raw)
								}
							}
						}
					}
				}
			}
		}
		c.need(ok, "bounds", "latencyBucket", p, "latencyBucket does not return the number of table entries at or below the latency: %s", why)
	}
	if r := c.go1("trace", "latencyBucketBounds"); r != nil && len(r.Rets) == 2 {
		i := r.param(0)
		lo, hi := r.Rets[0], r.Rets[1]
		c0, cN := e.eq(i, e.mkInt(0, nil)), e.eq(i, e.mkInt(N, nil))
		mid := e.all(e.not(c0), e.not(cN), e.lt(e.mkInt(0, nil), i), e.lt(i, e.mkInt(N, nil)))
		eqv := func(cond BDD, got *Term, want *Term, ci int64) bool {
			x := e.under(got, cond)
			if x == want || e.same(cond, x, want) {
				return true
			}
			// an entry addressed by the constant index
			return ci >= 0 && (x == el(e.mkInt(ci, nil)))
		}
		ok := e.same(c0, lo, e.mkInt(0, lo.T)) && eqv(c0, hi, el(i), 0) &&
			eqv(cN, lo, el(e.plus(i, -1)), N-1) && constInt(e.under(hi, cN), 1<<63-1) &&
			e.same(mid, lo, el(e.plus(i, -1))) && e.same(mid, hi, el(i))
		c.need(ok, "bounds", "latencyBucketBounds", c.fpos(r), "the bounds of bucket i are [%s, %s): they disagree with the bucket index", c.S(lo), c.S(hi))
	}
	// the store has one bucket per interval
	if r := c.go1("trace", "newSpanStore"); r != nil && len(r.Rets) == 1 {
		lv := r.final(e.fa(r.Rets[0], c.field("trace", "spanStore", "latency")))
		c.need(constInt(e.length(lv), N+1), "bounds", "bucket-count", c.fpos(r), "a span store has %s latency buckets for %d intervals", c.S(e.length(lv)), N+1)
	}
}

func pcs(r *Run) []BDD {
	var out []BDD
	for _, ef := range r.Effects {
		out = append(out, ef.PC)
	}
	return out
}

func (c *Ctx) c09reports(active, errs, lat, bBuf *types.Var, n *traceNames) {
	e := c.E
	// active spans
	if r := c.go1("trace", "(internalOnly).ReportActiveSpans"); r != nil {
		ok := false
		for _, l := range r.Loops {
			if l.Kind == "map" && l.Coll != nil && isField(l.Coll, active, nil) {
				ok = true
				c.need(l.Full, "reports", "active:full", c.fpos(r), "the report of active spans can stop early")
			}
		}
		c.need(ok, "reports", "active", c.fpos(r), "the report of active spans does not visit the active set")
	}
	if r := c.go1("trace", "(internalOnly).ReportSpansPerMethod"); r != nil {
		okA := false
		af := c.field("internal", "PerMethodSummary", "Active")
		for _, ef := range r.storesTo(af) {
			okA = ef.Val.Op == "len" && isField(ef.Val.Args[0], active, nil)
		}
		c.need(okA, "reports", "summary:active", c.fpos(r), "the summary's active count is not the size of the active set")
		for _, x := range []struct {
			f    string
			want int
		}{{"MinLatency", 0}, {"MaxLatency", 1}} {
			ff := c.field("internal", "LatencyBucketSummary", x.f)
			rb := c.go1("trace", "latencyBucketBounds")
			if ff == nil || rb == nil {
				continue
			}
			cnt := 0
			for _, ef := range r.storesTo(ff) {
				l := loopOver(ef, func(t *Term) bool { return isField(t, lat, nil) })
				if l == nil || l.Iter == nil {
					c.bad("reports", "summary:"+x.f, c.pos(ef), "the latency summary does not visit every bucket")
					continue
				}
				cnt++
				fb := c.fn("trace", "latencyBucketBounds")
				r2 := e.AnalyseWith(fb, []*Term{l.Iter}, nil, nil, c.std())
				c.need(e.same(ef.PC, ef.Val, r2.Rets[x.want]), "reports", "summary:"+x.f, c.pos(ef), "bucket i reports %s as its %s", c.S(ef.Val), x.f)
			}
			c.floor("reports", "summary "+x.f, cnt, 1)
		}
	}
	// spans by latency: the filter keeps exactly the spans in range
	if r := c.go1("trace", "(internalOnly).ReportSpansByLatency"); r != nil && len(r.Rets) == 1 {
		minL, maxL := r.param(2), r.param(3)
		cnt := 0
		for _, ef := range r.where("append", nil) {
			if ef.Addr == nil || len(ef.Loops) < 2 {
				continue
			}
			cnt++
			var d *Term
			for _, a := range e.B.Support(ef.PC) {
				e.containsC(e.atoms[a], func(t *Term) bool {
					if isCallTo(t, "(time.Time).Sub") {
						d = t
					}
					return false
				})
			}
			zero := e.all(e.eq(minL, e.mkInt(0, nil)), e.eq(maxL, e.mkInt(0, nil)))
			if !c.need(d != nil, "reports", "latency-filter", c.pos(ef), "spans are reported regardless of their latency") {
				continue
			}
			c.need(d.Args[0] != nil && isField(d.Args[0], n.sdEnd, nil) && isField(d.Args[1], n.sdStart, nil), "reports", "latency-filter:value", c.pos(ef), "the latency compared is %s", c.S(d))
			inRange := e.all(e.leq(minL, d), e.any(e.eq(maxL, e.mkInt(0, nil)), e.leq(d, maxL)))
			kept := e.project(ef.PC, func(t *Term) bool {
				return contains(t, func(x *Term) bool { return x == d }) || t == minL || t == maxL || len(t.Args) > 0 && (t.Args[0] == minL || t.Args[0] == maxL)
			})
			nonneg := e.leq(e.mkInt(0, d.T), d) // a span does not end before it starts
			c.need(e.implies(e.all(nonneg, e.any(zero, inRange)), kept), "reports", "latency-filter:complete", c.pos(ef), "a span inside the requested latency range is not reported: reported if %s", c.P(kept))
			c.need(e.implies(e.all(nonneg, ef.PC), e.any(zero, inRange)), "reports", "latency-filter:sound", c.pos(ef), "a span outside the requested latency range is reported: %s", c.P(ef.PC))
		}
		c.floor("reports", "latency query results", cnt, 1)
	}
}
