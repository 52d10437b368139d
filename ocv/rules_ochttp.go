package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C29", "static path and defer analysis of the instrumented handler, method specifications of every writer it can hand out",
		"Every path of the handler, including the exit by a panic of the wrapped handler at the point of the call: which spans start and end, which measures are recorded with which tags, and what each method of the writer given to the handler does to the recorded status and size.", ruleC29)
	reg("C30", "static path analysis of the instrumented transport and typestate analysis of the wrapped body",
		"Every path of RoundTrip and of Read and Close of every body it can return: which of them end the span and record the measures, under which outcomes, how often, and whether bytes, errors and arguments pass unchanged.", ruleC30)
	reg("C13", "static effect analysis of the outgoing request: every write and every mutating call against ownership of the request and its header",
		"Every write reachable from the transports: the request and header written to were created by the transport itself and hold a complete copy; every propagation format writes only by replacing header entries.", ruleC13)
	reg("C31", "static enumeration of the wrapper table: method sets and dispatch of every combination of optional interfaces",
		"Every case under which a writer or body is wrapped: the optional interfaces its type implements against the type tests under which it is chosen, and the object each of its methods ends up calling.", ruleC31)
}

const ochttp = "plugin/ochttp"

// only: inline the functions of the given packages.
func (c *Ctx) only(pkgs ...string) Opts {
	o := c.stdLoads()
	o.Inline = func(f *ssa.Function) bool {
		if f.Synthetic != "" && f.Pkg == nil {
			return true
		}
		p := fnPkgPath(f)
		for _, x := range pkgs {
			if p == modPath+"/"+x {
				return true
			}
		}
		return false
	}
	return o
}

// except: as o, without some functions.
func except(o Opts, fs ...*ssa.Function) Opts {
	in := o.Inline
	o.Inline = func(f *ssa.Function) bool {
		for _, x := range fs {
			if x == f {
				return false
			}
		}
		return in(f)
	}
	return o
}

// elems are the elements of a slice at an effect.
func (e *Eng) elems(r *Run, ef *Effect, t *Term) ([]*Term, bool) {
	var out []*Term
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil {
			return false
		}
		if constInt(e.length(t), 0) {
			return true
		}
		switch t.Op {
		case "append":
			if !rec(t.Args[0]) {
				return false
			}
			for _, a := range t.Args[1:] {
				if a.Op == "spread" {
					if !rec(a.Args[0]) {
						return false
					}
					continue
				}
				out = append(out, a)
			}
			return true
		case "slice", "make", "alloc":
			n, ok := e.length(t).intVal()
			if !ok || n > 64 || !isFresh(rootOf(t)) {
				return false
			}
			lo := int64(0)
			b := t
			if t.Op == "slice" {
				b = t.Args[0]
				l, _ := sliceBounds(t)
				if l != nil {
					if lo, ok = l.intVal(); !ok {
						return false
					}
				}
			}
			el := elemType(t.T)
			if el == nil {
				return false
			}
			for i := int64(0); i < n; i++ {
				out = append(out, r.at(ef, e.indexAddr(b, e.mkInt(lo+i, types.Typ[types.Int]), el)))
			}
			return true
		}
		return false
	}
	ok := rec(t)
	return out, ok
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

// recd is one measurement that is recorded.
type recd struct {
	ef   *Effect
	C    BDD
	m    *ssa.Global
	val  *Term
	ctx  *Term
	tags *Term
}

// recorded lists the measurements a run records; ok reports whether all could
// be named.
func (c *Ctx) recorded(r *Run) (out []recd, ok bool) {
	ok = true
	e := c.E
	for _, ef := range r.where("call", nil) {
		var ms, tags *Term
		switch ef.Name {
		case "stats.Record":
			ms = ef.Args[1]
		case "stats.RecordWithTags":
			ms, tags = ef.Args[2], ef.Args[1]
		case "stats.RecordWithOptions":
			opts, k := e.elems(r, ef, ef.Args[1])
			ok = ok && k
			for _, x := range opts {
				switch {
				case isCallTo(x, "stats.WithMeasurements"):
					ms = x.Args[0]
				case isCallTo(x, "stats.WithTags"):
					tags = x.Args[0]
				}
			}
			if ms == nil {
				ok = false
				continue
			}
		default:
			continue
		}
		for _, g := range e.cases(ms) {
			cc := e.all(ef.PC, g.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			es, k := e.elems(r, ef, g.T)
			if !k {
				ok = false
				continue
			}
			for _, x := range es {
				for _, h := range e.cases(x) {
					if e.decide(e.all(cc, h.C), False) == 1 {
						continue
					}
					t := h.T
					if !isCallTo(t, "(*stats.Int64Measure).M", "(*stats.Float64Measure).M") {
						ok = false
						continue
					}
					for _, q := range e.cases(t.Args[0]) {
						d := recd{ef: ef, C: e.all(cc, h.C, q.C), val: t.Args[1], ctx: ef.Args[0], tags: tags}
						if e.decide(d.C, False) == 1 {
							continue
						}
						if a := q.T; a.Op == "ld" && a.Args[0].Op == "global" {
							d.m, _ = a.Args[0].Obj.(*ssa.Global)
						}
						if d.m == nil {
							ok = false
							continue
						}
						out = append(out, d)
					}
				}
			}
		}
	}
	return
}

// once: the measure is recorded exactly once when cond holds.
func (c *Ctx) recordedOnce(rs []recd, m *ssa.Global, cond BDD) (string, *Effect) {
	e := c.E
	sum := False
	for _, d := range rs {
		if d.m != m {
			continue
		}
		if len(d.ef.Loops) > 0 {
			return "in a loop", d.ef
		}
		if e.decide(e.all(cond, d.C, sum), False) != 1 {
			return "more than once if " + c.P(e.all(cond, d.C, sum)), d.ef
		}
		sum = e.any(sum, d.C)
	}
	if !e.implies(cond, sum) {
		return "only if " + c.P(sum), nil
	}
	return "", nil
}

// virt is something a deferred call does when the function is left by a panic.
type virt struct {
	C   BDD
	run *Run
	def *Effect
}

// leftByPanic analyses the deferred calls that run when the call h panics.
func (c *Ctx) leftByPanic(r *Run, h *Effect, o Opts) []virt {
	e := c.E
	var out []virt
	st := h.after
	if st == nil {
		st = h.mem
	}
	for _, d := range r.where("defer", nil) {
		if d.Seq > h.Seq {
			continue
		}
		on := false
		for f := h.Frame; f != nil; f = f.caller {
			on = on || f == d.Frame
		}
		if !on || e.decide(e.all(d.PC, h.PC), False) == 1 {
			continue
		}
		if d.Val == nil {
			out = append(out, virt{C: d.PC, def: d})
			continue
		}
		for _, g := range e.cases(d.Val) {
			f := calleeOf(g.T)
			cc := e.all(d.PC, g.C)
			if f == nil || len(f.Blocks) == 0 || !o.Inline(f) {
				out = append(out, virt{C: cc, def: d})
				continue
			}
			var free []*Term
			if g.T.Op == "closure" {
				free = g.T.Args
			}
			s := st.clone()
			s.pc = True
			s.defers = nil
			g := e.AnalyseWith(f, d.Args, free, s, o)
			c.note(g)
			out = append(out, virt{C: cc, run: g, def: d})
		}
	}
	return out
}

// ---------- server ----------

type httpSrv struct {
	r      *Run
	o      Opts
	hs     []*Effect // calls of the wrapped handler
	starts []*Effect
	span   func(*Effect) *Term
	health BDD
	req    *Term
}

func (c *Ctx) httpServer(rule string) *httpSrv {
	e := c.E
	f := c.fn(ochttp, "(*Handler).ServeHTTP")
	ts := c.fn(ochttp, "TraceStatus")
	if c.failed() {
		return nil
	}
	o := except(c.only(ochttp), ts)
	o.Escape = true
	o.Resolve = nil
	r := c.run(f, o)
	s := &httpSrv{r: r, o: o}
	s.req = r.param(2)
	for _, ef := range r.where("call", nil) {
		if strings.HasSuffix(ef.Name, ").ServeHTTP") {
			s.hs = append(s.hs, ef)
		}
		if ef.Name == "trace.StartSpan" || ef.Name == "trace.StartSpanWithRemoteParent" {
			s.starts = append(s.starts, ef)
		}
	}
	c.floor(rule, "calls of the wrapped handler", len(s.hs), 1)
	c.floor(rule, "spans started by the handler", len(s.starts), 1)
	// designated health checks
	ih := c.field(ochttp, "Handler", "IsHealthEndpoint")
	if c.failed() {
		return nil
	}
	s.health = False
	for _, ef := range r.where("call", nil) {
		if ef.Name == "dyn" && isField(ef.Val, ih, nil) && len(ef.Args) == 1 && ef.Args[0] == s.req {
			s.health = e.any(s.health, e.all(e.not(e.isNil(ef.Val)), e.bdd(ef.Result)))
		}
	}
	uf, pf := e.structField(s.req.T, "URL"), (*types.Var)(nil)
	if uf != nil {
		pf = e.structField(uf.Type(), "Path")
	}
	if pf != nil {
		path := e.ld(e.fa(e.ld(e.fa(s.req, uf)), pf))
		for _, k := range []string{"/healthz", "/_ah/health"} {
			s.health = e.any(s.health, e.eq(path, e.mkStr(k)))
		}
	}
	return s
}

func (c *Ctx) endsOn(r *Run, pc BDD, sp *Term, cond BDD) (BDD, *Effect) {
	e := c.E
	out := False
	var last *Effect
	for _, ef := range r.calls("(*trace.Span).End") {
		for _, g := range e.cases(ef.Args[0]) {
			cc := e.all(pc, ef.PC, g.C)
			if e.decide(e.all(cc, cond), False) == 1 {
				continue
			}
			if g.T == sp {
				out = e.any(out, cc)
				last = ef
			}
		}
	}
	return out, last
}

func ruleC29(c *Ctx) {
	e := c.E
	s := c.httpServer("handler")
	if s == nil || c.failed() {
		return
	}
	r := s.r
	p := c.fpos(r)
	// the wrapped handler is called once
	sum := False
	for _, h := range s.hs {
		c.need(e.once(h) && e.decide(e.all(sum, h.PC), False) == 1, "handler", "once", c.pos(h), "the wrapped handler is called more than once")
		sum = e.any(sum, h.PC)
	}
	c.need(e.implies(True, sum), "handler", "called", p, "the wrapped handler is called only if %s", c.P(sum))
	hf := c.field(ochttp, "Handler", "Handler")
	for _, h := range s.hs {
		if hf == nil {
			break
		}
		for _, g := range e.cases(h.Args[0]) {
			set := e.not(e.isNil(e.ld(e.fa(r.param(0), hf))))
			if e.decide(e.all(h.PC, g.C, set), False) != 1 {
				c.need(isField(g.T, hf, nil), "handler", "which", c.pos(h), "the request is served by %s, not by the wrapped handler", c.S(g.T))
			}
		}
	}
	// spans: one per request that is no health check
	st := False
	for _, x := range s.starts {
		c.need(e.once(x) && e.decide(e.all(st, x.PC), False) == 1, "span", "one", c.pos(x), "two spans are started for one request")
		c.need(e.decide(e.all(x.PC, s.health), False) == 1, "span", "health", c.pos(x), "a span is started for a health check: if %s", c.P(e.all(x.PC, s.health)))
		for _, h := range s.hs {
			c.need(x.Seq < h.Seq, "span", "before", c.pos(x), "the span is started after the handler has run")
		}
		st = e.any(st, x.PC)
	}
	c.need(e.equiv(st, e.not(s.health)), "span", "always", p, "a span is started if %s, not exactly for requests that are no health checks", c.P(st))
	// and ended: on return and on a panic of the handler
	pan := map[*Effect][]virt{}
	for _, h := range s.hs {
		pan[h] = c.leftByPanic(r, h, s.o)
	}
	isStatus := func(ef *Effect) bool {
		return ef.Name == "(*trace.Span).SetStatus" || ef.Name == "(*trace.Span).AddAttributes"
	}
	for _, x := range s.starts {
		sp := e.resultN(x, 1)
		ends, _ := c.endsOn(r, True, sp, x.PC)
		c.need(e.implies(x.PC, ends), "span", "ended", c.pos(x), "the span of a request is ended only if %s", c.P(ends))
		for _, ef := range r.calls("(*trace.Span).End") {
			for _, h := range s.hs {
				c.need(ef.Seq > h.Seq, "span", "end-early", c.pos(ef), "the span is ended before the handler has run")
			}
			for _, y := range r.where("call", nil) {
				if isStatus(y) && y.Deferred && e.decide(e.all(y.PC, ef.PC, x.PC), False) != 1 && isCallTo(y.Args[0], "trace.FromContext") {
					c.need(y.Seq < ef.Seq, "span", "status-late", c.pos(y), "the status of the request is set on the span after it has ended")
				}
			}
		}
		for _, h := range s.hs {
			pe := False
			for _, v := range pan[h] {
				if v.run == nil {
					if v.def.Name == "(*trace.Span).End" {
						for _, g := range e.cases(v.def.Args[0]) {
							if g.T == sp {
								pe = e.any(pe, e.all(v.C, g.C))
							}
						}
					}
					continue
				}
				q, _ := c.endsOn(v.run, v.C, sp, x.PC)
				pe = e.any(pe, q)
			}
			c.need(e.implies(e.all(x.PC, h.PC), pe), "panic", "span", c.pos(h), "when the handler panics, the span is not ended unless %s", c.P(pe))
			// the request carries the span
			cf := e.structField(h.Args[2].T, "ctx")
			if cf != nil {
				ctx := e.under(r.at(h, e.fa(h.Args[2], cf)), e.all(x.PC, h.PC))
				c.need(e.containsC(ctx, func(t *Term) bool { return t == e.resultN(x, 0) }), "span", "context", c.pos(h), "the handler's request does not carry the span: its context is %s", c.S(ctx))
			}
		}
	}
	// measures
	lat, rb, rq, cnt := c.goG("ServerLatency"), c.goG("ServerResponseBytes"), c.goG("ServerRequestBytes"), c.goG("ServerRequestCount")
	sc, rs := c.field(ochttp, "trackingResponseWriter", "statusCode"), c.field(ochttp, "trackingResponseWriter", "respSize")
	key := c.goG("StatusCode")
	if c.failed() {
		return
	}
	recs, ok := c.recorded(r)
	c.need(ok, "stats", "known", p, "the handler records measurements that cannot be told apart")
	for _, m := range []*ssa.Global{lat, rb, cnt} {
		why, ef := c.recordedOnce(recs, m, True)
		pp := p
		if ef != nil {
			pp = c.pos(ef)
		}
		c.need(why == "", "stats", "once:"+m.Name(), pp, "%s is recorded %s", m.Name(), why)
	}
	n := 0
	for _, d := range recs {
		if d.m == rq {
			n++
		}
	}
	sumq := False
	for _, d := range recs {
		if d.m == rq {
			c.need(e.decide(e.all(sumq, d.C), False) == 1 && len(d.ef.Loops) == 0, "stats", "once:"+rq.Name(), c.pos(d.ef), "%s is recorded twice", rq.Name())
			sumq = e.any(sumq, d.C)
		}
	}
	c.need(n > 0, "stats", "request-bytes", p, "%s is never recorded", rq.Name())
	if cl := e.structField(s.req.T, "ContentLength"); cl != nil {
		// a request of known size is measured
		bf := e.structField(s.req.T, "Body")
		known := e.all(e.not(e.leq(e.ld(e.fa(s.req, cl)), e.mkInt(0, types.Typ[types.Int64]))), e.not(e.isNil(e.ld(e.fa(s.req, bf)))))
		for _, d := range recs {
			if d.m != rq {
				continue
			}
			for _, g := range e.cases(d.val) {
				cc := e.all(d.C, g.C, known)
				if e.decide(cc, False) != 1 {
					c.need(g.T == e.ld(e.fa(s.req, cl)), "stats", "request-size", c.pos(d.ef), "the request size recorded is %s", c.S(g.T))
				}
			}
		}
	}
	for _, h := range s.hs {
		for _, d := range recs {
			if d.m == lat || d.m == rb || d.m == rq {
				c.need(d.ef.Seq > h.Seq, "stats", "late:"+d.m.Name(), c.pos(d.ef), "%s is recorded before the handler has run", d.m.Name())
			}
		}
		// on a panic: as on return
		var pr []recd
		for _, v := range pan[h] {
			if v.run == nil {
				continue
			}
			x, k := c.recorded(v.run)
			c.need(k, "panic", "known", c.pos(h), "the measurements recorded on a panic cannot be told apart")
			for _, d := range x {
				d.C = e.all(d.C, v.C)
				pr = append(pr, d)
				c.serverTags(v.run, d, sc, rs, lat, rb, key, "panic")
			}
		}
		for _, m := range []*ssa.Global{lat, rb} {
			why, _ := c.recordedOnce(pr, m, h.PC)
			c.need(why == "", "panic", "once:"+m.Name(), c.pos(h), "when the handler panics, %s is recorded %s", m.Name(), why)
		}
	}
	nt := 0
	for _, d := range recs {
		if c.serverTags(r, d, sc, rs, lat, rb, key, "stats") {
			nt++
		}
		if d.m == cnt {
			c.need(constInt(d.val, 1), "stats", "count", c.pos(d.ef), "a request counts %s", c.S(d.val))
		}
	}
	c.floor("stats", "measurements tagged with the status", nt, 2)
	// the status on the span
	set := False
	for _, ef := range r.calls("(*trace.Span).SetStatus") {
		for _, g := range e.cases(ef.Args[1]) {
			if isCallTo(g.T, ochttp+".TraceStatus") && c.statusValue(e.all(ef.PC, g.C), g.T.Args[0], sc) {
				set = e.any(set, e.all(ef.PC, g.C))
			}
		}
	}
	for _, x := range s.starts {
		c.need(e.implies(x.PC, set), "span", "status", p, "the span does not get the status sent to the client: only if %s", c.P(set))
	}
	c29writer(c, s, sc, rs)
}

// goG is an exported variable of ochttp.
func (c *Ctx) goG(n string) *ssa.Global {
	g := c.W.global(ochttp, n)
	c.need(g != nil, "anchor", n, "-", "the variable %s.%s is gone", ochttp, n)
	return g
}

// statusValue: the value is the recorded status, 200 when none was sent.
func (c *Ctx) statusValue(cond BDD, v *Term, sc *types.Var) bool {
	e := c.E
	ok := true
	v = unconv(v)
	for _, g := range e.cases(v) {
		cc := e.all(cond, g.C)
		if e.decide(cc, False) == 1 {
			continue
		}
		t := unconv(g.T)
		if isField(t, sc, nil) {
			z := e.eq(t, e.mkInt(0, t.T))
			ok = ok && e.decide(cc, e.not(z)) == 1
			continue
		}
		if constInt(t, 200) {
			continue
		}
		ok = false
	}
	return ok
}

// serverTags: the end measures carry the status and the size.
func (c *Ctx) serverTags(r *Run, d recd, sc, rs *types.Var, lat, rb, key *ssa.Global, what string) bool {
	e := c.E
	if d.m == rb {
		ok := true
		for _, g := range e.cases(d.val) {
			if e.decide(e.all(d.C, g.C), False) != 1 {
				t := unconv(g.T)
				if isCallTo(t, "sync/atomic.LoadInt64") {
					t = t.Args[0]
					ok = ok && addrField(t) == rs
				} else {
					ok = ok && isField(t, rs, nil)
				}
			}
		}
		c.need(ok, what, "size", c.pos(d.ef), "the response size recorded is %s", c.S(d.val))
	}
	if d.m == lat {
		c.need(e.containsC(d.val, func(t *Term) bool { return isCallTo(t, "time.Since", "(time.Time).Sub") }), what, "latency", c.pos(d.ef), "the latency recorded is %s", c.S(d.val))
	}
	if d.m != rb && d.m != lat {
		return false
	}
	if !c.need(d.tags != nil, what, "tags", c.pos(d.ef), "%s is recorded without the status", d.m.Name()) {
		return false
	}
	// the status is among the tags
	found := false
	for _, t := range c.members(r, d.ef, d.tags) {
		for _, g := range e.cases(t) {
			if isCallTo(g.T, "tag.Upsert", "tag.Insert", "tag.Update") && g.T.Args[0].Op == "ld" && g.T.Args[0].Args[0].Op == "global" && g.T.Args[0].Args[0].Obj == any(key) {
				found = true
				v := g.T.Args[1]
				good := isCallTo(g.T, "tag.Upsert") && isCallTo(v, "strconv.Itoa", "strconv.FormatInt") && c.statusValue(e.all(d.C, g.C), v.Args[0], sc)
				c.need(good, what, "status", c.pos(d.ef), "the status recorded is %s", c.S(v))
			}
		}
	}
	c.need(found, what, "status-tag", c.pos(d.ef), "%s is recorded without the status", d.m.Name())
	return true
}

// members are the elements that are known to be in a slice at an effect.
func (c *Ctx) members(r *Run, ef *Effect, t *Term) []*Term {
	e := c.E
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "append":
			rec(t.Args[0])
			for _, a := range t.Args[1:] {
				if a.Op == "spread" {
					rec(a.Args[0])
				} else {
					out = append(out, a)
				}
			}
			return
		case "ite":
			for _, g := range e.cases(t) {
				rec(g.T)
			}
			return
		}
		root := rootOf(t)
		if isFresh(root) && ef.mem != nil {
			for k, v := range ef.mem.mem {
				if k.Op == "index" && rootOf(k) == root && k.Args[1].isConst() {
					out = append(out, v)
				}
			}
		}
	}
	rec(t)
	return out
}

// onMethod analyses a method of a dynamic value.
func (c *Ctx) onMethod(v *Term, m string, st *State, o Opts, pc BDD) *Run {
	e := c.E
	if v.Op != "iface" {
		return nil
	}
	T := v.Obj.(types.Type)
	var f *ssa.Function
	ms := c.W.Prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m {
			f = c.W.Prog.MethodValue(ms.At(i))
		}
	}
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	args := []*Term{v.Args[0]}
	for i := 1; i < len(f.Params); i++ {
		args = append(args, e.param(f, i))
	}
	s := st.clone()
	s.pc = pc
	s.defers = nil
	s.locks = map[*Term]int{}
	g := e.AnalyseWith(f, args, nil, s, o)
	c.note(g)
	return g
}

// object: the fresh struct with the field inside a value.
func objectWith(v *Term, f *types.Var) *Term {
	var out *Term
	contains(v, func(t *Term) bool {
		if t.Op == "alloc" {
			if s, ok := deref(t.T).Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i) == f {
						out = t
					}
				}
			}
		}
		return out != nil
	})
	return out
}

// orig: the value is the wrapped object, possibly asserted to an interface.
func orig(t, w *Term) bool {
	for t != nil && t != w {
		switch {
		case t.Op == "ext" && t.Args[0].Op == "ta":
			t = t.Args[0].Args[0]
		case t.Op == "ta", t.Op == "iface":
			t = t.Args[0]
		default:
			return false
		}
	}
	return t == w
}

// grown is what a run adds to a counter: by a store or atomically.
func (c *Ctx) grown(g *Run, a, before, n *Term, pc BDD) bool {
	e := c.E
	n = unconv(n)
	at := 0
	for _, ef := range g.calls("sync/atomic.AddInt64") {
		if ef.Args[0] == a {
			at++
			if unconv(ef.Args[1]) != n || !e.implies(pc, ef.PC) {
				return false
			}
		}
	}
	if at > 0 {
		return at == 1 && len(g.storesTo(addrField(a))) == 0
	}
	v := g.final(a)
	if v == nil {
		return false
	}
	for _, x := range e.cases(v) {
		if e.decide(e.all(pc, x.C), False) == 1 {
			continue
		}
		if !sameBare(e.bareSum(x.T), e.bareSum(before, n)) {
			return false
		}
	}
	return true
}

// bareSum is a sum without the conversions of its terms.
func (e *Eng) bareSum(ts ...*Term) lin {
	out := lin{map[*Term]int64{}, 0}
	for _, t := range ts {
		l := e.toLin(unconv(t))
		out.k += l.k
		for x, k := range l.co {
			out.co[unconv(x)] += k
		}
	}
	for x, k := range out.co {
		if k == 0 {
			delete(out.co, x)
		}
	}
	return out
}

func sameBare(a, b lin) bool {
	if a.k != b.k || len(a.co) != len(b.co) {
		return false
	}
	for x, k := range a.co {
		if b.co[x] != k {
			return false
		}
	}
	return true
}

func c29writer(c *Ctx, s *httpSrv, sc, rs *types.Var) {
	e := c.E
	r := s.r
	w := r.param(1)
	o := s.o
	o.Escape = false
	I := types.Typ[types.Int]
	sym := e.mk("sym", "status", sc.Type(), nil)
	siz := e.mk("sym", "size", rs.Type(), nil)
	seen := map[string]bool{}
	n := 0
	for _, h := range s.hs {
		for _, g := range e.cases(h.Args[1]) {
			if e.decide(e.all(h.PC, g.C), False) == 1 {
				continue
			}
			ob := objectWith(g.T, sc)
			if !c.need(g.T.Op == "iface" && ob != nil, "writer", "tracked", c.pos(h), "the handler writes to %s, which does not record the response (if %s)", c.S(g.T), c.P(g.C)) {
				continue
			}
			st := h.mem.clone()
			st.mem[e.fa(ob, sc)] = sym
			st.mem[e.fa(ob, rs)] = siz
			for _, m := range []string{"WriteHeader", "Write", "ReadFrom", "Flush"} {
				k := m + "|" + c.S(g.T)
				if seen[k] {
					continue
				}
				seen[k] = true
				x := c.onMethod(g.T, m, st, o, True)
				if x == nil {
					c.need(m == "ReadFrom" || m == "Flush", "writer", m+":method", c.pos(h), "the handler's writer has no %s", m)
					continue
				}
				n++
				// the call reaches the original, once
				var fw *Effect
				for _, ef := range x.where("call", nil) {
					if strings.HasPrefix(ef.Name, "invoke ") && orig(ef.Args[0], w) {
						c.need(strings.HasSuffix(ef.Name, ")."+m) && fw == nil, "writer", m+":calls", c.pos(ef), "%s of the handler's writer also calls %s", m, ef.Name)
						fw = ef
					}
				}
				xp := c.fpos(x)
				if !c.need(fw != nil && e.implies(True, fw.PC) && len(fw.Loops) == 0, "writer", m+":forward", xp, "%s of the handler's writer does not reach the client's connection", m) {
					continue
				}
				for i := 1; i < len(fw.Args); i++ {
					c.need(fw.Args[i] == x.param(i), "writer", m+":args", c.pos(fw), "%s passes on %s", m, c.S(fw.Args[i]))
				}
				for i, v := range x.Rets {
					c.need(v == e.resultN(fw, i), "writer", m+":results", c.pos(fw), "%s returns %s", m, c.S(v))
				}
				// size
				sa, za := e.fa(ob, sc), e.fa(ob, rs)
				if m == "Write" || m == "ReadFrom" {
					c.need(c.grown(x, za, siz, e.resultN(fw, 0), True), "writer", m+":size", xp, "after %s the recorded size is %s, not more by the bytes written", m, c.S(x.final(za)))
				} else {
					c.need(c.grown(x, za, siz, e.mkInt(0, rs.Type()), True) || x.final(za) == siz, "writer", m+":size", xp, "after %s the recorded size is %s", m, c.S(x.final(za)))
				}
				// status
				after := x.final(sa)
				none := e.eq(sym, e.mkInt(0, sym.T))
				for _, q := range e.cases(after) {
					if e.decide(q.C, False) == 1 {
						continue
					}
					// sent before
					if cc := e.all(q.C, e.not(none)); e.decide(cc, False) != 1 {
						c.need(e.same(cc, q.T, sym), "writer", m+":status-again", xp, "%s replaces the status that was already sent by %s (if %s)", m, c.S(q.T), c.P(cc))
					}
					cc := e.all(q.C, none)
					if e.decide(cc, False) == 1 {
						continue
					}
					if m != "WriteHeader" {
						c.need(e.same(cc, q.T, e.mkInt(200, I)), "writer", m+":status", xp, "%s sends status 200 when none was sent, but %s is recorded (if %s)", m, c.S(q.T), c.P(cc))
						continue
					}
					code := x.param(1)
					final := e.all(cc, e.not(e.lt(code, e.mkInt(200, I))))
					if e.decide(final, False) != 1 {
						c.need(e.same(final, q.T, code), "writer", m+":status", xp, "a header with the given status is sent, but %s is recorded (if %s)", c.S(q.T), c.P(final))
					}
					info := e.all(cc, e.lt(code, e.mkInt(200, I)), e.not(e.eq(code, e.mkInt(101, I))), e.not(e.lt(code, e.mkInt(100, I))))
					if e.decide(info, False) != 1 {
						c.need(e.same(info, q.T, sym), "writer", m+":status-info", xp, "an informational header is recorded as the final status %s (if %s)", c.S(q.T), c.P(info))
					}
				}
			}
		}
	}
	c.floor("writer", "methods of the handler's writer", n, 8)
}

// ---------- C31 ----------

func ruleC31(c *Ctx) {
	e := c.E
	s := c.httpServer("table")
	if s == nil || c.failed() {
		return
	}
	var opt []optIface
	for _, x := range [][2]string{{"net/http", "Hijacker"}, {"net/http", "CloseNotifier"}, {"net/http", "Pusher"}, {"net/http", "Flusher"}, {"io", "ReaderFrom"}} {
		if t := c.stdIface(x[0], x[1]); t != nil {
			opt = append(opt, optIface{x[1], t})
		}
	}
	c.floor("table", "optional interfaces of a writer", len(opt), 5)
	o := s.o
	o.Escape = false
	n := 0
	for _, h := range s.hs {
		n += c.ifaceTable("writer", s.r, h, h.Args[1], s.r.param(1), opt, o, h.mem, e.all(h.PC))
	}
	c.floor("table", "combinations of optional interfaces of a writer", n, 32)
	cl := c.httpClient("table")
	if cl == nil || c.failed() {
		return
	}
	var bo []optIface
	if t := c.stdIface("io", "Writer"); t != nil {
		bo = append(bo, optIface{"Writer", t})
	}
	n = 0
	for _, b := range cl.bases {
		body := cl.body(b)
		if body == nil {
			continue
		}
		v := cl.r.final(body)
		n += c.ifaceTable("body", cl.r, b, v, cl.orig(b), bo, o, cl.r.Final, cl.good(b))
	}
	c.floor("table", "combinations of optional interfaces of a body", n, 2)
}

type optIface struct {
	name string
	t    *types.Named
}

func (c *Ctx) stdIface(pkg, n string) *types.Named {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				t, _ := o.Type().(*types.Named)
				return t
			}
		}
	}
	return nil
}

// ifaceTable: the value v given out for the object w implements exactly the
// optional interfaces that w implements, and their methods call w's.
func (c *Ctx) ifaceTable(what string, r *Run, ef *Effect, v, w *Term, opt []optIface, o Opts, st *State, cond BDD) int {
	e := c.E
	has := make([]BDD, len(opt))
	for i, x := range opt {
		has[i] = e.isType(w, x.t)
	}
	covered := map[int]bool{}
	cov := False
	for _, g := range e.cases(v) {
		cc := e.all(cond, g.C)
		if e.decide(cc, False) == 1 {
			continue
		}
		if g.T == w || unif(g.T) == w {
			// the object itself
			cov = e.any(cov, cc)
			continue
		}
		if !c.need(g.T.Op == "iface", "table", what+":form", c.pos(ef), "the %s given out is %s", what, c.S(g.T)) {
			continue
		}
		cov = e.any(cov, cc)
		T := g.T.Obj.(types.Type)
		for i, x := range opt {
			impl := types.Implements(T, x.t.Underlying().(*types.Interface))
			d := e.decide(cc, has[i])
			key := what + ":" + x.name
			if impl {
				c.need(d == 1, "table", key+":extra", c.pos(ef), "a %s that need not implement %s gets a wrapper which does (if %s)", what, x.name, c.P(cc))
			} else {
				c.need(d == -1, "table", key+":lost", c.pos(ef), "a %s that implements %s gets a wrapper which does not (if %s)", what, x.name, c.P(cc))
				continue
			}
			if d != 1 {
				continue
			}
			// dispatch
			it := x.t.Underlying().(*types.Interface)
			for k := 0; k < it.NumMethods(); k++ {
				m := it.Method(k).Name()
				z := c.onMethod(g.T, m, st, o, cc)
				if !c.need(z != nil, "table", key+":method", c.pos(ef), "%s of the wrapper has no body", m) {
					continue
				}
				reach := False
				for _, y := range z.where("call", nil) {
					if strings.HasSuffix(y.Name, ")."+m) && orig(e.under(y.Args[0], e.all(cc, y.PC)), w) {
						same := true
						for a := 1; a < len(y.Args); a++ {
							same = same && y.Args[a] == z.param(a)
						}
						for a, rv := range z.Rets {
							same = same && rv == e.resultN(y, a)
						}
						if same {
							reach = e.any(reach, y.PC)
						}
					}
				}
				c.need(e.implies(cc, reach), "table", key+":dispatch", c.pos(ef), "%s of the wrapper given out if %s does not reach %s of the original", m, c.P(cc), m)
			}
		}
		// which combinations this case serves
		for k := 0; k < 1<<len(opt); k++ {
			q := cc
			for i := range opt {
				if k>>i&1 == 1 {
					q = e.all(q, has[i])
				} else {
					q = e.all(q, e.not(has[i]))
				}
			}
			if q != False {
				covered[k] = true
			}
		}
	}
	c.need(e.implies(cond, cov), "table", what+":all", c.pos(ef), "a %s is wrapped only if %s", what, c.P(cov))
	return len(covered)
}

func (e *Eng) isType(x *Term, t types.Type) BDD {
	return e.bdd(e.mk("isT", tstr(t), types.Typ[types.Bool], t, x))
}

// ---------- client ----------

type httpCl struct {
	r      *Run
	o      Opts
	c      *Ctx
	bases  []*Effect // calls of the underlying transport for instrumented requests
	bypass []*Effect
	starts []*Effect
	health BDD
	req    *Term
}

func (c *Ctx) httpClient(rule string) *httpCl {
	e := c.E
	f := c.fn(ochttp, "(*Transport).RoundTrip")
	ts := c.fn(ochttp, "TraceStatus")
	if c.failed() {
		return nil
	}
	o := except(c.only(ochttp), ts)
	o.Resolve = nil
	r := c.run(f, o)
	s := &httpCl{r: r, o: o, c: c}
	s.req = r.param(1)
	s.health = False
	uf := e.structField(s.req.T, "URL")
	if pf := e.structField(uf.Type(), "Path"); pf != nil {
		path := e.ld(e.fa(e.ld(e.fa(s.req, uf)), pf))
		for _, k := range []string{"/healthz", "/_ah/health"} {
			s.health = e.any(s.health, e.eq(path, e.mkStr(k)))
		}
	}
	for _, ef := range r.where("call", nil) {
		if strings.HasSuffix(ef.Name, ").RoundTrip") {
			if e.implies(ef.PC, s.health) {
				s.bypass = append(s.bypass, ef)
			} else {
				s.bases = append(s.bases, ef)
			}
		}
		if ef.Name == "trace.StartSpan" || ef.Name == "trace.StartSpanWithRemoteParent" {
			s.starts = append(s.starts, ef)
		}
	}
	c.floor(rule, "calls of the underlying transport", len(s.bases), 1)
	return s
}

func (s *httpCl) resp(b *Effect) *Term { return s.c.E.resultN(b, 0) }

// body is the address of the response's body.
func (s *httpCl) body(b *Effect) *Term {
	f := s.c.E.structField(s.resp(b).T, "Body")
	if f == nil {
		return nil
	}
	return s.c.E.fa(s.resp(b), f)
}

// orig is the body that the underlying transport returned.
func (s *httpCl) orig(b *Effect) *Term { return s.r.at(b, s.body(b)) }

// good: the transport returned a response with a body.
func (s *httpCl) good(b *Effect) BDD {
	e := s.c.E
	return e.all(b.PC, e.not(s.health), e.isNil(e.resultN(b, 1)), e.not(e.isNil(s.orig(b))))
}

func ruleC30(c *Ctx) {
	e := c.E
	s := c.httpClient("transport")
	if s == nil || c.failed() {
		return
	}
	r := s.r
	p := c.fpos(r)
	sum := False
	for _, b := range append(append([]*Effect(nil), s.bases...), s.bypass...) {
		c.need(e.once(b) && e.decide(e.all(sum, b.PC), False) == 1, "transport", "once", c.pos(b), "a request is sent twice")
		sum = e.any(sum, b.PC)
	}
	c.need(e.implies(True, sum), "transport", "sent", p, "a request is sent only if %s", c.P(sum))
	st := False
	for _, x := range s.starts {
		c.need(e.once(x) && e.decide(e.all(st, x.PC), False) == 1, "span", "one", c.pos(x), "two spans are started for one request")
		st = e.any(st, x.PC)
	}
	c.need(e.implies(e.not(s.health), st), "span", "always", p, "a span is started only if %s", c.P(st))
	cnt, lat, rt, sb, rbb, rb, rq := c.goG("ClientRequestCount"), c.goG("ClientLatency"), c.goG("ClientRoundtripLatency"), c.goG("ClientSentBytes"), c.goG("ClientReceivedBytes"), c.goG("ClientResponseBytes"), c.goG("ClientRequestBytes")
	k1, k2 := c.goG("StatusCode"), c.goG("KeyClientStatus")
	size := c.field(ochttp, "tracker", "respSize")
	if c.failed() {
		return
	}
	endMs := []*ssa.Global{lat, rt, sb, rbb, rb}
	recs, ok := c.recorded(r)
	c.need(ok, "stats", "known", p, "the transport records measurements that cannot be told apart")
	if why, _ := c.recordedOnce(recs, cnt, e.not(s.health)); why != "" {
		c.need(false, "stats", "once:"+cnt.Name(), p, "%s is recorded %s", cnt.Name(), why)
	}
	for _, d := range recs {
		if d.m == cnt {
			c.need(constInt(d.val, 1), "stats", "count", c.pos(d.ef), "a request counts %s", c.S(d.val))
			for _, b := range s.bases {
				c.need(d.ef.Seq < b.Seq, "stats", "count-late", c.pos(d.ef), "a started request is counted only after the response")
			}
		}
	}
	ioEOF := c.stdGlobal("io", "EOF")
	if !c.need(ioEOF != nil, "anchor", "io.EOF", "-", "io.EOF is not used") {
		return
	}
	for _, b := range s.bases {
		errT := e.resultN(b, 1)
		failed := e.not(e.isNil(errT))
		good := s.good(b)
		noBody := e.all(b.PC, e.not(failed), e.isNil(s.orig(b)))
		sc := e.structField(s.resp(b).T, "StatusCode")
		code := e.ld(e.fa(s.resp(b), sc))
		tagsOf := func(run *Run, d recd, cond BDD, what string) {
			if !c.need(d.tags != nil, "stats", what+":tags", c.pos(d.ef), "%s is recorded without the status", d.m.Name()) {
				return
			}
			for _, k := range []*ssa.Global{k1, k2} {
				found := false
				for _, t := range c.members(run, d.ef, d.tags) {
					if !isCallTo(t, "tag.Upsert") || t.Args[0].Op != "ld" || t.Args[0].Args[0].Op != "global" || t.Args[0].Args[0].Obj != any(k) {
						continue
					}
					found = true
					v := t.Args[1]
					good := isCallTo(v, "strconv.Itoa", "strconv.FormatInt")
					if good {
						for _, g := range e.cases(v.Args[0]) {
							cc := e.all(cond, d.C, g.C)
							if e.decide(cc, False) == 1 {
								continue
							}
							x := unconv(g.T)
							good = good && (x == code && e.decide(cc, e.not(failed)) == 1 || constInt(x, 500) && e.decide(cc, failed) == 1)
						}
					}
					c.need(good, "stats", what+":status", c.pos(d.ef), "the status recorded is %s", c.S(v))
				}
				c.need(found, "stats", what+":status:"+k.Name(), c.pos(d.ef), "%s is recorded without %s", d.m.Name(), k.Name())
			}
		}
		sizeOf := func(d recd) {
			if d.m != rb {
				return
			}
			for _, g := range e.cases(d.val) {
				t := unconv(g.T)
				if e.decide(e.all(d.C, g.C), False) == 1 {
					continue
				}
				okv := isCallTo(t, "sync/atomic.LoadInt64") && addrField(t.Args[0]) == size || isField(t, size, nil) || t.Op == "sym" || constInt(t, 0)
				c.need(okv, "stats", "size", c.pos(d.ef), "the response size recorded is %s", c.S(d.val))
			}
		}
		// the request sent carries the span and the tags
		for _, x := range s.starts {
			c.need(x.Seq < b.Seq, "span", "before", c.pos(x), "the span is started after the request was sent")
			if cf := e.structField(b.Args[1].T, "ctx"); cf != nil {
				ctx := e.under(r.at(b, e.fa(b.Args[1], cf)), e.all(x.PC, b.PC))
				c.need(e.containsC(ctx, func(t *Term) bool { return t == e.resultN(x, 0) }), "span", "context", c.pos(b), "the request sent does not carry the span: its context is %s", c.S(ctx))
			}
		}
		// without a body to wait for, everything ends here
		done := e.any(e.all(b.PC, failed), noBody)
		for _, x := range s.starts {
			ends, last := c.endsOn(r, True, e.resultN(x, 1), b.PC)
			c.need(e.implies(e.all(done, x.PC), ends), "span", "ended", c.pos(b), "the span of a request that failed or has no body is ended only if %s", c.P(ends))
			c.need(e.decide(e.all(ends, good), False) == 1, "span", "early", c.pos(b), "the span is ended before the body was read: if %s", c.P(e.all(ends, good)))
			if last != nil {
				c.need(last.Seq > b.Seq, "span", "early", c.pos(last), "the span is ended before the request was sent")
			}
			// its status
			set, okc := False, False
			for _, ef := range r.calls("(*trace.Span).SetStatus") {
				for _, g := range e.cases(ef.Args[1]) {
					cc := e.all(ef.PC, g.C)
					if isCallTo(g.T, ochttp+".TraceStatus") && g.T.Args[0] == code {
						okc = e.any(okc, cc)
					} else if cf := e.structField(g.T.T, "Code"); cf != nil {
						if v := e.partOf(g.T, cf); v != nil {
							if k, isk := v.intVal(); isk && k != 0 {
								set = e.any(set, cc)
							}
						}
					}
				}
			}
			c.need(e.implies(e.all(b.PC, failed), set), "span", "status-error", c.pos(b), "a failed request's span gets no error status unless %s", c.P(set))
			c.need(e.implies(e.all(b.PC, e.not(failed)), okc), "span", "status", c.pos(b), "the span does not get the status of the response unless %s", c.P(okc))
		}
		for _, m := range endMs {
			why, _ := c.recordedOnce(recs, m, done)
			c.need(why == "", "stats", "once:"+m.Name(), c.pos(b), "for a request that failed or has no body, %s is recorded %s", m.Name(), why)
			for _, d := range recs {
				if d.m == m {
					c.need(d.ef.Seq > b.Seq, "stats", "early:"+m.Name(), c.pos(d.ef), "%s is recorded before the response", m.Name())
					c.need(e.decide(e.all(d.C, good), False) == 1, "stats", "early:"+m.Name(), c.pos(d.ef), "%s is recorded before the body was read", m.Name())
				}
			}
		}
		for _, d := range recs {
			if d.m != cnt && d.m != rq {
				tagsOf(r, d, e.all(b.PC), "here")
				sizeOf(d)
			}
		}
		// the results
		c.need(len(r.Rets) == 2 && e.implies(e.all(b.PC), e.all(e.eq(r.Rets[0], s.resp(b)), e.iff(e.isNilx(r.Rets[1]), e.isNil(errT)))), "transport", "results", c.pos(b), "RoundTrip returns %s, %s", c.S(r.Rets[0]), c.S(r.Rets[1]))
		// the body
		bodyAddr := s.body(b)
		ob := s.orig(b)
		c30deref(c, r, ob, e.all(b.PC, e.not(failed)))
		nb := 0
		for _, g := range e.cases(r.final(bodyAddr)) {
			cc := e.all(good, g.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			if !c.need(g.T.Op == "iface", "body", "wrapped", c.pos(b), "the body handed out is %s: nothing ends the span (if %s)", c.S(g.T), c.P(cc)) {
				continue
			}
			tr := objectWith(deepObj(r, g.T, size), size)
			st := r.Final.clone()
			if tr != nil {
				st.mem[e.fa(tr, size)] = e.mk("sym", "bodysize", size.Type(), nil)
			}
			nb++
			var onces []*Term
			for _, m := range []string{"Read", "Close"} {
				x := c.onMethod(g.T, m, st, s.o, cc)
				if !c.need(x != nil, "body", m+":method", c.pos(b), "the body has no %s", m) {
					continue
				}
				xp := c.fpos(x)
				var fw *Effect
				for _, ef := range x.where("call", nil) {
					if strings.HasPrefix(ef.Name, "invoke ") && orig(ef.Args[0], ob) {
						c.need(strings.HasSuffix(ef.Name, ")."+m) && fw == nil, "body", m+":calls", c.pos(ef), "%s of the body also calls %s", m, ef.Name)
						fw = ef
					}
				}
				if !c.need(fw != nil && e.implies(cc, fw.PC) && len(fw.Loops) == 0, "body", m+":forward", xp, "%s of the body does not reach the original body (on every path)", m) {
					continue
				}
				for i := 1; i < len(fw.Args); i++ {
					c.need(fw.Args[i] == x.param(i), "body", m+":args", c.pos(fw), "%s passes on %s", m, c.S(fw.Args[i]))
				}
				for i, v := range x.Rets {
					want := e.resultN(fw, i)
					good := true
					for _, q := range e.cases(v) {
						q.C = e.all(q.C, cc)
						if e.decide(q.C, False) == 1 {
							continue
						}
						good = good && (q.T == want || e.decide(q.C, e.eq(q.T, want)) == 1)
					}
					c.need(good, "body", m+":results", c.pos(fw), "%s returns %s", m, c.S(v))
				}
				end, must := cc, cc
				if m == "Read" {
					rerr := e.resultN(fw, 1)
					must = e.all(cc, e.eq(rerr, e.ld(e.globalAddr(ioEOF))), e.not(e.isNil(rerr)))
					end = e.any(e.eq(rerr, e.ld(e.globalAddr(ioEOF))), e.not(e.isNil(rerr)))
					if tr != nil {
						c.need(c.grown(x, e.fa(tr, size), st.mem[e.fa(tr, size)], e.resultN(fw, 0), cc), "body", "size", xp, "Read adds %s to the size of the response", c.S(x.final(e.fa(tr, size))))
					}
				}
				for _, sx := range s.starts {
					q, _ := c.endsOn(x, True, e.resultN(sx, 1), cc)
					c.need(e.implies(must, q), "body", m+":end", xp, "%s ends the span only if %s", m, c.P(q))
					c.need(e.implies(q, end), "body", m+":end-early", xp, "%s ends the span before the end of the body: if %s", m, c.P(q))
				}
				xr, k := c.recorded(x)
				c.need(k, "body", m+":known", xp, "%s records measurements that cannot be told apart", m)
				for _, ms := range endMs {
					why, _ := c.recordedOnce(xr, ms, must)
					c.need(why == "", "body", m+":once:"+ms.Name(), xp, "%s of the body: %s is recorded %s", m, ms.Name(), why)
				}
				for _, d := range xr {
					c.need(e.implies(d.C, end), "body", m+":early:"+d.m.Name(), c.pos(d.ef), "%s records %s before the end of the body: if %s", m, d.m.Name(), c.P(d.C))
					on := len(d.ef.Once) > 0
					for _, a := range e.atomsOf(d.C) {
						on = on || contains(a, func(t *Term) bool {
							return isCallTo(t, "sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapUint32", "(*sync/atomic.Bool).CompareAndSwap")
						})
					}
					c.need(on, "body", m+":twice", c.pos(d.ef), "%s may be recorded by Read and again by Close: nothing makes it happen once", d.m.Name())
					if len(d.ef.Once) > 0 {
						onces = append(onces, d.ef.Once[len(d.ef.Once)-1])
					}
					if d.m != cnt && d.m != rq {
						tagsOf(x, d, cc, m)
						sizeOf(d)
					}
				}
				// Read and Close may run at the same time
				for _, ef := range x.where("store", nil) {
					f := addrField(ef.Addr)
					if f == nil || len(ef.Once) > 0 || len(ef.Locks) > 0 || f.Pkg() == nil || !isModPkg(f.Pkg().Path()) || isFresh(rootOf(ef.Addr)) && ownCell(x, rootOf(ef.Addr)) {
						continue
					}
					c.need(false, "body", m+":race:"+f.Name(), c.pos(ef), "%s writes %s without synchronisation, although the body may be closed during a read", m, c.S(ef.Addr))
				}
			}
			for _, o := range onces {
				c.need(o == onces[0], "body", "same-once", c.pos(b), "Read and Close use different guards: the measures are recorded twice")
			}
		}
		c.floor("body", "wrapped bodies", nb, 1)
	}
}

// ownCell: the cell was allocated during this run.
func ownCell(x *Run, root *Term) bool {
	v, ok := root.Obj.(ssa.Value)
	if !ok || v.Parent() == nil {
		return false
	}
	return x.visited[v.Parent()] || v.Parent() == x.Root.fn
}

// deepObj finds a value reachable from t whose object has the field.
func deepObj(r *Run, t *Term, f *types.Var) *Term {
	seen := map[*Term]bool{}
	var found *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || found != nil {
			return
		}
		seen[t] = true
		if objectWith(t, f) != nil {
			found = t
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		if t.Op == "alloc" {
			for k, v := range r.Final.mem {
				if rootOf(k) == t {
					rec(v)
				}
			}
		}
	}
	rec(t)
	if found == nil {
		return t
	}
	return found
}

// c30deref: methods of the original body are called only if there is one.
func c30deref(c *Ctx, r *Run, ob *Term, cond BDD) {
	e := c.E
	for _, ef := range r.where("call", nil) {
		if strings.HasPrefix(ef.Name, "invoke ") && orig(ef.Args[0], ob) {
			c.need(e.decide(e.all(cond, ef.PC), e.not(e.isNil(ob))) == 1, "body", "nil", c.pos(ef), "%s is called on a response without a body", ef.Name)
		}
	}
	// a wrapper of no body is never handed out
}

func (c *Ctx) stdGlobal(pkg, n string) *ssa.Global {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			g, _ := p.Members[n].(*ssa.Global)
			return g
		}
	}
	return nil
}

// ---------- C13 ----------

// mutators are functions of net/http and net/url that change their receiver.
var mutators = map[string]bool{
	"(net/http.Header).Set": true, "(net/http.Header).Add": true, "(net/http.Header).Del": true,
	"(net/textproto.MIMEHeader).Set": true, "(net/textproto.MIMEHeader).Add": true, "(net/textproto.MIMEHeader).Del": true,
	"(*net/http.Request).AddCookie": true, "(*net/http.Request).SetBasicAuth": true, "(*net/http.Request).ParseForm": true,
	"(*net/http.Request).ParseMultipartForm": true, "(*net/http.Request).FormValue": true, "(*net/http.Request).PostFormValue": true,
	"(*net/http.Request).SetPathValue": true, "(*net/http.Request).FormFile": true, "(*net/http.Request).MultipartReader": true,
	"(net/url.Values).Set": true, "(net/url.Values).Add": true, "(net/url.Values).Del": true, "(*net/url.URL).UnmarshalBinary": true,
}

func ruleC13(c *Ctx) {
	e := c.E
	ts := c.fn(ochttp, "TraceStatus")
	if c.failed() {
		return
	}
	o := except(c.only(ochttp), ts)
	o.Resolve = nil
	reqT := c.stdIface("net/http", "Request")
	hdrT := c.stdIface("net/http", "Header")
	if !c.need(reqT != nil && hdrT != nil, "anchor", "http", "-", "net/http.Request is not used") {
		return
	}
	nRoots, nSend := 0, 0
	for _, f := range c.pkgFuncs(ochttp) {
		if f.Parent() != nil || f.Name() != "RoundTrip" && f.Name() != "CancelRequest" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		nRoots++
		r := c.run(f, o)
		req := r.param(1)
		hf := e.structField(req.T, "Header")
		shared := func(t *Term) bool {
			// what the caller can see: reached from its request through memory
			if t == nil {
				return false
			}
			for _, g := range e.cases(t) {
				x := rootOf(g.T)
				for x.Op == "append" {
					x = rootOf(x.Args[0])
				}
				if isFresh(x) || e.decide(g.C, False) == 1 {
					continue
				}
				if contains(x, func(y *Term) bool { return y == req }) {
					return true
				}
			}
			return false
		}
		for _, ef := range r.Effects {
			switch ef.Kind {
			case "store":
				c.need(!shared(ef.Addr), "write", name(r)+":store", c.pos(ef), "%s writes %s of the caller's request", name(r), c.S(ef.Addr))
			case "mapupdate", "delete":
				c.need(!shared(ef.Addr), "write", name(r)+":header", c.pos(ef), "%s changes the map %s of the caller's request", name(r), c.S(ef.Addr))
			case "copy":
				c.need(!shared(ef.Addr), "write", name(r)+":copy", c.pos(ef), "%s overwrites %s of the caller's request", name(r), c.S(ef.Addr))
			case "append":
				c.need(!shared(ef.Addr), "write", name(r)+":append", c.pos(ef), "%s appends to %s of the caller's request", name(r), c.S(ef.Addr))
			case "call":
				if mutators[ef.Name] {
					c.need(!shared(ef.Args[0]), "write", name(r)+":call", c.pos(ef), "%s changes the caller's request by %s(%s)", name(r), ef.Name, c.S(ef.Args[0]))
					if types.Identical(deref(ef.Args[0].T), reqT) {
						c.need(!shared(r.at(ef, e.fa(ef.Args[0], hf))), "write", name(r)+":call-header", c.pos(ef), "%s changes the caller's header by %s", name(r), ef.Name)
					}
				}
				if strings.HasSuffix(ef.Name, ").SpanContextToRequest") {
					nSend++
					rq := ef.Args[2]
					for _, g := range e.cases(rq) {
						cc := e.all(ef.PC, g.C)
						if e.decide(cc, False) == 1 {
							continue
						}
						c.need(isFresh(g.T), "inject", name(r)+":request", c.pos(ef), "the trace headers are added to %s, the caller's request", c.S(g.T))
						h := r.at(ef, e.fa(g.T, hf))
						// a nil header has a nil clone
						noHdr := e.isNil(e.ld(e.fa(req, hf)))
						for _, cl := range r.calls("(net/http.Header).Clone") {
							if cl.Result != nil && allLeaves(cl.Args[0], func(t *Term) bool { return isField(t, hf, nil) }) {
								noHdr = e.any(noHdr, e.isNil(cl.Result))
							}
						}
						for _, q := range e.cases(h) {
							qq := e.all(cc, q.C)
							if e.decide(qq, False) == 1 {
								continue
							}
							if !c.need(isFresh(rootOf(q.T)) || isCallTo(q.T, "(net/http.Header).Clone"), "inject", name(r)+":header", c.pos(ef), "the trace headers are added to %s, the caller's header (if %s)", c.S(q.T), c.P(qq)) {
								continue
							}
							c.need(c.copyOfMap(r, ef, q.T, e.ld(e.fa(req, hf))) || isCallTo(q.T, "(net/http.Header).Clone") || strings.HasSuffix(q.T.Aux, "#hdr") || e.implies(qq, noHdr), "inject", name(r)+":complete", c.pos(ef), "the header sent is not a complete copy of the caller's: %s if %s no %s", c.S(q.T), c.P(qq), c.P(noHdr))
						}
					}
				}
			}
		}
	}
	c.floor("write", "transports", nRoots, 3)
	c.floor("inject", "injections of trace headers", nSend, 1)
	// what is sent is the request with the trace headers
	s := c.httpClient("sent")
	if s != nil && !c.failed() {
		for _, b := range s.bases {
			inj := False
			for _, ef := range s.r.where("call", nil) {
				if strings.HasSuffix(ef.Name, ").SpanContextToRequest") {
					c.need(ef.Args[2] == b.Args[1] && ef.Seq < b.Seq, "inject", "sent", c.pos(b), "the request sent is not the one with the trace headers")
					own := false
					for _, x := range s.starts {
						own = own || isCallTo(ef.Args[1], "(*trace.Span).SpanContext") && ef.Args[1].Args[0] == e.resultN(x, 1)
					}
					if c.need(own, "inject", "context", c.pos(ef), "the headers added are those of %s, not of the span of the request", c.S(ef.Args[1])) && len(ef.Loops) == 0 {
						inj = e.any(inj, ef.PC)
					}
				}
			}
			c.need(e.implies(b.PC, inj), "inject", "always", c.pos(b), "the trace headers are added only if %s", c.P(inj))
		}
	}
	// the formats replace entries and write nothing else
	nf := 0
	for _, f := range c.W.Funcs {
		if f.Name() != "SpanContextToRequest" || f.Synthetic != "" || f.Signature.Recv() == nil || len(f.Params) != 3 || !strings.HasPrefix(fnPkgPath(f), modPath) {
			continue
		}
		nf++
		r := c.run(f, c.stdLoads())
		rq := r.param(2)
		for _, ef := range r.Effects {
			switch ef.Kind {
			case "store", "mapupdate", "delete", "copy", "append":
				own := true
				what := ef.Addr
				for _, g := range e.cases(what) {
					x := rootOf(g.T)
					own = own && (isFresh(x) || !contains(x, func(y *Term) bool { return y == rq }))
				}
				if ef.Kind == "mapupdate" || ef.Kind == "delete" {
					own = own || isField(what, e.structField(rq.T, "Header"), rq) && (ef.Kind == "delete" || isFresh(rootOf(ef.Val)))
				}
				c.need(own, "format", name(r)+":"+ef.Kind, c.pos(ef), "%s writes %s", name(r), c.S(what))
			case "call":
				if mutators[ef.Name] && contains(ef.Args[0], func(y *Term) bool { return y == rq }) {
					okm := (ef.Name == "(net/http.Header).Set" || ef.Name == "(net/http.Header).Del") && isField(ef.Args[0], e.structField(rq.T, "Header"), rq)
					c.need(okm, "format", name(r)+":call", c.pos(ef), "%s calls %s, which may write to values shared with the caller's request", name(r), ef.Name)
				}
			}
		}
	}
	c.floor("format", "propagation formats", nf, 3)
}

// copyOfMap: the new map holds every entry of src.
func (c *Ctx) copyOfMap(r *Run, at *Effect, m, src *Term) bool {
	e := c.E
	for _, ef := range r.where("mapupdate", nil) {
		if ef.Addr != m || ef.Seq > at.Seq || len(ef.Loops) == 0 {
			continue
		}
		l := ef.Loops[len(ef.Loops)-1]
		if l.Kind != "map" || !l.Full || !e.loopDone(l) || !e.everyIter(ef, l) || !isKeyOf(ef.Key, l) {
			continue
		}
		if !contains(l.Coll, func(t *Term) bool { return t == src }) && !isField(l.Coll, addrField(src.Args[0]), nil) {
			continue
		}
		all := true
		for _, g := range e.cases(ef.Val) {
			if e.decide(e.all(ef.PC, g.C), False) == 1 {
				continue
			}
			v := e.wholeSlice(g.T)
			var el *Term
			e.containsC(v, func(t *Term) bool {
				if isElemOf(t, l) {
					el = t
				}
				return el != nil
			})
			all = all && el != nil && (v == el || contentOf(e, r, v, el, ef))
		}
		if all {
			return true
		}
	}
	return false
}
