package main

import (
	"go/constant"
	"go/types"
	"strings"
)

func init() {
	reg("C32", "static path analysis of the gRPC event handlers: effects per event type, identity of counters and spans",
		"Every path of TagRPC and HandleRPC of both handlers over all event types: which spans start and end, which counters each payload event adds to and where the end event reports them, which measures are recorded with which tags, and which pointers are followed only when present.", ruleC32)
	reg("C34", "static path analysis of the server handlers (HTTP and gRPC): condition and parent of every span start and link",
		"Every start of a server span and every link added to it: the exact condition on configuration and incoming context, and the parent or link used.", ruleC34)
}

const ocgrpc = "plugin/ocgrpc"
const grpcStats = "google.golang.org/grpc/stats"

func (c *Ctx) optMembers(run *Run, ef *Effect, opts *Term) []*Term {
	var out []*Term
	for _, g := range c.E.cases(opts) {
		es, ok := c.E.elems(run, ef, g.T)
		if ok {
			out = append(out, es...)
		}
	}
	return out
}

// evField: a field of the event received (as the given type).
func evField(t, ev *Term, f *types.Var) bool {
	t = unconv(t)
	return f != nil && isField(t, f, nil) && contains(t, func(x *Term) bool { return x == ev })
}

// atomicAdd: the cell and amount of an atomic addition.
func atomicAdd(ef *Effect) (*Term, *Term) {
	if ef.Kind != "call" {
		return nil, nil
	}
	switch ef.Name {
	case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint64", "sync/atomic.AddUint32",
		"(*sync/atomic.Int64).Add", "(*sync/atomic.Int32).Add", "(*sync/atomic.Uint64).Add", "(*sync/atomic.Uint32).Add":
		return ef.Args[0], ef.Args[1]
	}
	return nil, nil
}

// cellRead: the field a value was read from (plainly or atomically).
func cellRead(t *Term) *types.Var {
	t = unconv(t)
	if t.Op == "call" && strings.Contains(callNameOf(t), "sync/atomic") && strings.Contains(callNameOf(t), "Load") {
		return addrField(t.Args[0])
	}
	if t.Op == "ld" {
		a := t.Args[0]
		if a.Op == "field" && a.Obj == any(atomicValVar) {
			a = a.Args[0]
		}
		return addrField(a)
	}
	return nil
}

func ruleC32(c *Ctx) {
	e := c.E
	nm := func(n string) *types.Named { return c.stdIface(grpcStats, n) }
	B, O, I, E, TI := nm("Begin"), nm("OutPayload"), nm("InPayload"), nm("End"), nm("RPCTagInfo")
	if !c.need(B != nil && O != nil && I != nil && E != nil && TI != nil, "anchor", "grpc", "-", "the gRPC event types are not used") {
		return
	}
	sf := func(T types.Type, n string) *types.Var { return e.structField(T, n) }
	for _, client := range []bool{true, false} {
		side, h := "client", "ClientHandler"
		if !client {
			side, h = "server", "ServerHandler"
		}
		fh, ft := c.fn(ocgrpc, "(*"+h+").HandleRPC"), c.fn(ocgrpc, "(*"+h+").TagRPC")
		if c.failed() {
			return
		}
		o := c.only(ocgrpc)
		o.Resolve = nil
		r := c.run(fh, o)
		ctx, ev := r.param(1), r.param(2)
		p := c.fpos(r)
		is := func(T *types.Named) BDD { return e.isType(ev, types.NewPointer(T)) }
		flag := func(T *types.Named) BDD {
			a := e.mk("ta", tstr(types.NewPointer(T)), types.NewPointer(T), types.NewPointer(T), ev)
			return e.bdd(e.ld(e.fa(a, sf(T, "Client"))))
		}
		attached := True
		once := func(rule, key, what string, efs []*Effect, cond BDD) {
			sum := False
			for _, ef := range efs {
				c.need(e.once(ef), rule, key+":loop", c.pos(ef), "%s in a loop", what)
				c.need(e.decide(e.all(ef.PC, sum), False) == 1, rule, key+":twice", c.pos(ef), "%s twice if %s", what, c.P(e.all(ef.PC, sum)))
				c.need(e.implies(ef.PC, cond), rule, key+":when", c.pos(ef), "%s if %s", what, c.P(ef.PC))
				sum = e.any(sum, ef.PC)
			}
			c.need(e.implies(e.all(cond, attached), sum), rule, key+":missing", p, "%s only if %s", what, c.P(sum))
		}
		// ---- the span
		isSpan := func(t *Term) bool { return isCallTo(t, "trace.FromContext") && t.Args[0] == ctx }
		var ends, sends, recvs []*Effect
		var sets []*Effect
		for _, ef := range r.where("call", nil) {
			if !strings.HasPrefix(ef.Name, "(*trace.Span).") {
				continue
			}
			c.need(isSpan(ef.Args[0]), "span", side+":own", c.pos(ef), "%s is called on %s, not on the span of the RPC", ef.Name, c.S(ef.Args[0]))
			switch strings.TrimPrefix(ef.Name, "(*trace.Span).") {
			case "End":
				ends = append(ends, ef)
			case "SetStatus":
				sets = append(sets, ef)
			case "AddMessageSendEvent":
				sends = append(sends, ef)
				c.need(evField(ef.Args[2], ev, sf(O, "Length")) && evField(ef.Args[3], ev, sf(O, "WireLength")), "span", side+":sent-size", c.pos(ef), "the message event of a sent payload has sizes %s, %s", c.S(ef.Args[2]), c.S(ef.Args[3]))
			case "AddMessageReceiveEvent":
				recvs = append(recvs, ef)
				c.need(evField(ef.Args[2], ev, sf(I, "Length")) && evField(ef.Args[3], ev, sf(I, "WireLength")), "span", side+":received-size", c.pos(ef), "the message event of a received payload has sizes %s, %s", c.S(ef.Args[2]), c.S(ef.Args[3]))
			}
		}
		once("span", side+":end", "the "+side+" span is ended", ends, is(E))
		once("span", side+":sent", "a sent payload adds a message event to the "+side+" span", sends, is(O))
		once("span", side+":received", "a received payload adds a message event to the "+side+" span", recvs, is(I))
		endT := e.mk("ta", tstr(types.NewPointer(E)), types.NewPointer(E), types.NewPointer(E), ev)
		errT := e.ld(e.fa(endT, sf(E, "Error")))
		failed := e.all(is(E), e.not(e.isNil(errT)))
		// the status of an error
		isCode := func(t *Term) bool {
			t = unconv(t)
			if t.Op != "call" || len(t.Args) == 0 {
				return false
			}
			n := callNameOf(t)
			if n == "google.golang.org/grpc/status.Code" {
				return t.Args[0] == errT
			}
			return strings.HasSuffix(n, "status.Status).Code") && contains(t.Args[0], func(x *Term) bool { return x == errT })
		}
		known := True // the error carries a status
		for _, ef := range r.calls("google.golang.org/grpc/status.FromError") {
			if ef.Args[0] == errT {
				known = e.bdd(e.resultN(ef, 1))
			}
		}
		set := False
		for _, ef := range sets {
			c.need(e.implies(ef.PC, is(E)), "span", side+":status-when", c.pos(ef), "the status of the span is set if %s", c.P(ef.PC))
			for _, x := range ends {
				c.need(ef.Seq < x.Seq, "span", side+":status-late", c.pos(ef), "the status is set after the span was ended")
			}
			for _, g := range e.cases(ef.Args[1]) {
				cc := e.all(ef.PC, g.C)
				if e.decide(cc, False) == 1 {
					continue
				}
				cf := sf(g.T.T, "Code")
				if cf == nil {
					continue
				}
				v := e.partOf(g.T, cf)
				if v == nil {
					continue
				}
				for _, q := range e.cases(v) {
					qq := e.all(cc, q.C)
					if e.decide(qq, False) == 1 {
						continue
					}
					k, isk := unconv(q.T).intVal()
					bad := e.decide(e.all(qq, failed), False) != 1
					switch {
					case isCode(q.T):
						bad = false
					case isk && k != 0:
						bad = e.decide(e.all(qq, failed, known), False) != 1
						c.need(e.implies(qq, failed), "span", side+":status-ok", c.pos(ef), "a span without an error gets the status %d", k)
					}
					c.need(!bad, "span", side+":status", c.pos(ef), "the span of a failed RPC gets the status code %s", c.S(q.T))
				}
			}
			set = e.any(set, ef.PC)
		}
		c.need(e.implies(failed, set), "span", side+":status-missing", p, "the span of a failed RPC gets its status only if %s", c.P(set))

		// ---- the data of the RPC
		var data *Term
		for _, ef := range r.Effects {
			a, _ := atomicAdd(ef)
			if a == nil || a.Op != "field" {
				continue
			}
			if d := a.Args[0]; contains(d, func(t *Term) bool {
				return isCallTo(t, "invoke (context.Context).Value") && t.Args[0] == ctx
			}) {
				data = d
			}
		}
		if !c.need(data != nil && data.Op == "ta", "data", side+":counted", p, "payloads are not counted in the data of the RPC") {
			continue
		}
		value := data.Args[0]
		dataT := data.Obj.(types.Type)
		has := e.isType(value, dataT)
		// (a nil pointer is never put there: see "attached")
		attached = e.not(e.isNil(data))
		inData := func(a *Term) bool {
			for a != nil && (a.Op == "field" || a.Op == "index") {
				a = a.Args[0]
				if a == data {
					return true
				}
			}
			return false
		}
		for _, ef := range r.Effects {
			as := derefs(ef)
			if ef.Kind == "call" && strings.Contains(ef.Name, "sync/atomic") && len(ef.Args) > 0 {
				as = append(as, ef.Args[0])
			}
			for _, a := range as {
				if inData(a) {
					c.need(e.implies(ef.PC, has), "panic", side+":data", c.pos(ef), "the data of the RPC is used though it may be missing (if %s)", c.P(ef.PC))
				}
			}
		}
		// counters
		type cnt struct{ bytes, msgs *types.Var }
		var out, in cnt
		byField := map[*types.Var][]*Effect{}
		for _, ef := range r.Effects {
			a, n := atomicAdd(ef)
			if a == nil || !inData(a) {
				continue
			}
			f := addrField(a)
			byField[f] = append(byField[f], ef)
			switch {
			case evField(n, ev, sf(O, "Length")):
				c.need(out.bytes == nil || out.bytes == f, "count", side+":sent-bytes", c.pos(ef), "sent bytes are counted twice")
				out.bytes = f
			case evField(n, ev, sf(I, "Length")):
				c.need(in.bytes == nil || in.bytes == f, "count", side+":received-bytes", c.pos(ef), "received bytes are counted twice")
				in.bytes = f
			case constInt(n, 1) && e.implies(ef.PC, is(O)):
				c.need(out.msgs == nil || out.msgs == f, "count", side+":sent-messages", c.pos(ef), "sent messages are counted twice")
				out.msgs = f
			case constInt(n, 1) && e.implies(ef.PC, is(I)):
				c.need(in.msgs == nil || in.msgs == f, "count", side+":received-messages", c.pos(ef), "received messages are counted twice")
				in.msgs = f
			default:
				c.need(false, "count", side+":amount", c.pos(ef), "%s is added to %s", c.S(n), c.S(a))
			}
		}
		fs := map[string]*types.Var{"sent bytes": out.bytes, "sent messages": out.msgs, "received bytes": in.bytes, "received messages": in.msgs}
		seen := map[*types.Var]string{}
		for _, what := range []string{"sent bytes", "sent messages", "received bytes", "received messages"} {
			f := fs[what]
			if !c.need(f != nil, "count", side+":"+what, p, "%s are not counted", what) {
				continue
			}
			c.need(seen[f] == "", "count", side+":"+what+":shared", p, "%s and %s share a counter", what, seen[f])
			seen[f] = what
			cond := e.all(has, is(O))
			if f == in.bytes || f == in.msgs {
				cond = e.all(has, is(I))
			}
			once("count", side+":"+what, what+" are counted", byField[f], cond)
		}
		for _, ef := range r.where("store", nil) {
			if f := addrField(ef.Addr); f != nil && seen[f] != "" && inData(ef.Addr) {
				c.need(false, "count", side+":reset", c.pos(ef), "the counter %s is overwritten", f.Name())
			}
		}
		// ---- TagRPC
		t := c.run(ft, o)
		tp := c.fpos(t)
		info := t.param(2)
		c.nilSafe(t, info, "missing RPC information")
		there := e.not(e.isNil(info))
		full := sf(TI, "FullMethodName")
		ms, _ := dataT.Underlying().(*types.Pointer)
		var methodF, startF *types.Var
		sum := False
		var starts []*Effect
		for _, ef := range t.where("call", nil) {
			if ef.Name != "trace.StartSpan" && ef.Name != "trace.StartSpanWithRemoteParent" {
				continue
			}
			starts = append(starts, ef)
			c.need(e.once(ef) && e.decide(e.all(ef.PC, sum), False) == 1, "span", side+":start-twice", c.pos(ef), "two spans are started for one RPC")
			sum = e.any(sum, ef.PC)
			c.need(len(t.Rets) == 1 && e.implies(ef.PC, e.derived(t.Rets[0], ef.PC, func(x *Term) bool { return x == e.resultN(ef, 0) })), "span", side+":context", c.pos(ef), "the context of the RPC does not carry the span: %s", c.S(t.Rets[0]))
			c.need(e.implies(there, e.allLeavesUnder(ef.Args[1], there, func(x *Term) bool { return isField(x, full, info) })), "span", side+":name", c.pos(ef), "the span is named %s", c.S(ef.Args[1]))
		}
		c.need(e.implies(True, sum), "span", side+":start", tp, "a span is started only if %s", c.P(sum))
		// the data
		nd := 0
		for _, g := range e.cases(t.Rets[0]) {
			cc := e.all(there, g.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			var d *Term
			contains(g.T, func(x *Term) bool {
				if isCallTo(x, "context.WithValue") && len(x.Args) == 3 && types.Identical(unif(x.Args[2]).T, dataT) && sameKeyConst(x.Args[1], value.Args[1]) {
					d = unif(x.Args[2])
				}
				return d != nil
			})
			if !c.need(d != nil && isFresh(d), "data", side+":attached", tp, "the context of the RPC carries no data for the events: %s", c.S(g.T)) {
				continue
			}
			nd++
			st, _ := ms.Elem().Underlying().(*types.Struct)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				f := st.Field(i)
				v := unconv(e.under(t.final(e.fa(d, f)), cc))
				if isField(v, full, info) {
					methodF = f
				}
				if isCallTo(v, "time.Now") {
					startF = f
				}
				if w := seen[f]; w != "" {
					c.need(constInt(v, 0) || e.isZero(v), "count", side+":start:"+w, tp, "%s start at %s", w, c.S(v))
				}
			}
		}
		c.floor("data", side+": RPCs with data", nd, 1)
		c.need(methodF != nil, "data", side+":method", tp, "the method of the RPC is not kept")
		c.need(startF != nil, "data", side+":start", tp, "the start time of the RPC is not kept")
		if client {
			c32carries(c, t, starts, side)
		} else {
			c32restores(c, t, info, full, side)
		}
		// ---- records
		recs, ok := c.recorded(r)
		c.need(ok, "stats", side+":known", p, "the handler records measurements that cannot be told apart")
		// every handler serves both directions of the flag: gRPC sets it by the side of the RPC
		for _, dir := range []bool{true, false} {
			pre, km, ks := "Client", "KeyClientMethod", "KeyClientStatus"
			fl := flag
			if !dir {
				pre, km, ks = "Server", "KeyServerMethod", "KeyServerStatus"
				fl = func(T *types.Named) BDD { return e.not(flag(T)) }
			}
			if dir != client {
				// an event of the other side is never delivered here; what is recorded for it is checked in the other handler
				continue
			}
			g := func(n string) any { return c.W.global(ocgrpc, n) }
			started, beg := g(pre+"StartedRPCs"), e.all(has, is(B), fl(B))
			end := e.all(has, is(E), fl(E))
			meas := []struct {
				n string
				f *types.Var
			}{{pre + "SentBytesPerRPC", out.bytes}, {pre + "SentMessagesPerRPC", out.msgs}, {pre + "ReceivedBytesPerRPC", in.bytes}, {pre + "ReceivedMessagesPerRPC", in.msgs}}
			lat := pre + "RoundtripLatency"
			if !dir {
				lat = pre + "Latency"
			}
			tagged := func(d recd, status bool) {
				hasM, hasS := False, False
				if d.tags != nil {
					for _, x := range c.members(r, d.ef, d.tags) {
						if !isCallTo(x, "tag.Upsert", "tag.Insert", "tag.Update") {
							continue
						}
						for _, q := range e.cases(x.Args[0]) {
							k, kc := q.T, e.all(d.C, q.C)
							if e.decide(kc, False) == 1 {
								continue
							}
							if k.Op != "ld" || k.Args[0].Op != "global" {
								c.need(false, "stats", side+":tag", c.pos(d.ef), "%s is recorded with the tag %s", d.m.Name(), c.S(k))
								continue
							}
							switch k.Args[0].Obj {
							case g(km):
								hasM = e.any(hasM, kc)
								c.need(contains(x.Args[1], func(y *Term) bool { return isField(y, methodF, data) }), "stats", side+":method", c.pos(d.ef), "%s is recorded with the method %s", d.m.Name(), c.S(x.Args[1]))
							case g(ks):
								hasS = e.any(hasS, kc)
								dk := d
								dk.C = kc
								c32status(c, side, dk, x.Args[1], failed, known, errT, isCode)
							default:
								c.need(false, "stats", side+":other-tag", c.pos(d.ef), "%s is recorded with the tag %s", d.m.Name(), c.S(k))
							}
						}
					}
				}
				c.need(e.implies(d.C, hasM) || !dir, "stats", side+":no-method:"+d.m.Name(), c.pos(d.ef), "%s is recorded without the method", d.m.Name())
				c.need(e.implies(d.C, hasS) || !status, "stats", side+":no-status:"+d.m.Name(), c.pos(d.ef), "%s is recorded without the status", d.m.Name())
				c.need(d.ctx == ctx, "stats", side+":ctx:"+d.m.Name(), c.pos(d.ef), "%s is recorded with the tags of %s", d.m.Name(), c.S(d.ctx))
			}
			check := func(m any, n string, cond BDD, val func(*Term, BDD) bool, status bool) {
				gm := c.W.global(ocgrpc, n)
				if !c.need(gm != nil && m == any(gm), "anchor", n, "-", "measure %s not found", n) {
					return
				}
				why, at := c.recordedOnce(recs, gm, e.all(cond, attached))
				pp := p
				if at != nil {
					pp = c.pos(at)
				}
				c.need(why == "", "stats", side+":once:"+n, pp, "%s is recorded %s", n, why)
				for _, d := range recs {
					if d.m != gm {
						continue
					}
					c.need(e.implies(d.C, cond), "stats", side+":when:"+n, c.pos(d.ef), "%s is recorded if %s", n, c.P(d.C))
					for _, q := range e.cases(d.val) {
						qq := e.all(d.C, q.C)
						if e.decide(qq, False) != 1 {
							c.need(val(q.T, qq), "stats", side+":value:"+n, c.pos(d.ef), "%s is recorded as %s", n, c.S(q.T))
						}
					}
					tagged(d, status)
				}
			}
			check(started, pre+"StartedRPCs", beg, func(t *Term, _ BDD) bool { return constInt(unconv(t), 1) }, false)
			for _, m := range meas {
				m := m
				check(g(m.n), m.n, end, func(t *Term, _ BDD) bool { return m.f != nil && cellRead(t) == m.f }, true)
			}
			check(g(lat), lat, end, func(t *Term, _ BDD) bool { return isMillisSince(t, data, startF) }, true)
		}
		// nothing else is recorded
		for _, d := range recs {
			pre := "Client"
			if !client {
				pre = "Server"
			}
			c.need(strings.HasPrefix(d.m.Name(), pre) || e.decide(e.all(d.C, e.any(e.all(is(B), xor(e, flag(B), !client)), e.all(is(E), xor(e, flag(E), !client)))), False) == 1, "stats", side+":foreign:"+d.m.Name(), c.pos(d.ef), "the %s records %s", side, d.m.Name())
		}
	}
}

func xor(e *Eng, b BDD, neg bool) BDD {
	if neg {
		return e.not(b)
	}
	return b
}

// isZero: the zero value of its type.
func (e *Eng) isZero(t *Term) bool {
	return t == e.zero(t.T)
}

// allLeavesUnder: under cond, every possible value of t contains what is wanted.
func (e *Eng) allLeavesUnder(t *Term, cond BDD, want func(*Term) bool) BDD {
	out := False
	for _, g := range e.cases(t) {
		if contains(g.T, want) || e.containsC(e.under(g.T, e.all(cond, g.C)), want) {
			out = e.any(out, g.C)
		}
	}
	return out
}

// derived: the condition (within cond) under which the context t is what is
// wanted or was derived from it, step by step, by calls that take it first.
func (e *Eng) derived(t *Term, cond BDD, want func(*Term) bool) BDD {
	out := False
	for _, g := range e.cases(t) {
		cc := e.all(cond, g.C)
		if e.decide(cc, False) == 1 {
			continue
		}
		x := g.T
		if x.Op == "ext" && len(x.Args) == 1 {
			x = x.Args[0]
		}
		if want(g.T) || want(x) {
			out = e.any(out, cc)
		} else if x.Op == "call" && len(x.Args) > 0 {
			out = e.any(out, e.derived(x.Args[0], cc, want))
		}
	}
	return out
}

func sameKeyConst(a, b *Term) bool {
	a, b = unif(a), unif(b)
	return a == b
}

// isMillisSince: the milliseconds since the field start.
func isMillisSince(t *Term, base *Term, start *types.Var) bool {
	since := func(x *Term) bool {
		x = unconv(x)
		return isCallTo(x, "time.Since") && isField(x.Args[0], start, base) ||
			isCallTo(x, "(time.Time).Sub") && isCallTo(x.Args[0], "time.Now") && isField(x.Args[1], start, base)
	}
	num := func(x *Term) (float64, bool) {
		x = unconv(x)
		if v, ok := x.Obj.(constant.Value); ok && x.Op == "const" && v.Kind() != constant.String {
			f, _ := constant.Float64Val(constant.ToFloat(v))
			return f, true
		}
		return 0, false
	}
	t = unconv(t)
	if t.Op != "arith" || len(t.Args) != 2 {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	switch t.Aux {
	case "/":
		k, ok := num(b)
		if ok && k == 1e6 {
			return since(a) || isCallTo(unconv(a), "(time.Duration).Nanoseconds") && since(unconv(a).Args[0])
		}
		if ok && k == 1e3 {
			return isCallTo(unconv(a), "(time.Duration).Microseconds") && since(unconv(a).Args[0])
		}
	case "*":
		for i := 0; i < 2; i++ {
			if k, ok := num(b); ok && k == 1e3 && isCallTo(unconv(a), "(time.Duration).Seconds") {
				return since(unconv(a).Args[0])
			}
			a, b = b, a
		}
	}
	return false
}

// grpcCodes are the canonical names of the gRPC codes.
var grpcCodes = []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS",
	"PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL",
	"UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}

// c32status: the status recorded is OK without an error and the name of its
// code otherwise.
func c32status(c *Ctx, side string, d recd, v *Term, failed, known BDD, errT *Term, isCode func(*Term) bool) {
	e := c.E
	for _, g := range e.cases(v) {
		cc := e.all(d.C, g.C)
		if e.decide(cc, False) == 1 {
			continue
		}
		s, isk := g.T.strVal()
		if !isk {
			c.need(e.implies(cc, failed) && contains(g.T, isCode), "stats", side+":status", c.pos(d.ef), "%s is recorded with the status %s", d.m.Name(), c.S(g.T))
			continue
		}
		idx := -1
		for i, n := range grpcCodes {
			if n == s {
				idx = i
			}
		}
		if idx == 0 {
			// with an error: only for the code OK
			bad := e.all(cc, failed)
			c.need(e.decide(bad, False) == 1 || c.impliesCode(bad, 0, isCode), "stats", side+":status-ok", c.pos(d.ef), "a failed RPC is recorded with the status OK if %s", c.P(bad))
			continue
		}
		if !c.need(idx > 0, "stats", side+":status-name", c.pos(d.ef), "the status %q is recorded", s) {
			continue
		}
		ok := e.implies(cc, failed) && ((idx == 2 || idx == 13) && e.decide(e.all(cc, known), False) == 1 || c.impliesCode(cc, int64(idx), isCode))
		c.need(ok, "stats", side+":status-name", c.pos(d.ef), "the status %q is recorded if %s", s, c.P(cc))
	}
}

// impliesCode: cond implies that the code is k.
func (c *Ctx) impliesCode(cond BDD, k int64, isCode func(*Term) bool) bool {
	e := c.E
	for _, a := range e.atomsOf(cond) {
		var code *Term
		contains(a, func(t *Term) bool {
			if isCode(t) {
				code = t
			}
			return code != nil
		})
		if code != nil && e.implies(cond, e.eq(code, e.mkInt(k, code.T))) {
			return true
		}
	}
	return false
}

// c32carries: the outgoing RPC carries the context of its span and the tags.
func c32carries(c *Ctx, t *Run, starts []*Effect, side string) {
	e := c.E
	sum := False
	for _, ef := range t.where("call", nil) {
		if ef.Name != "google.golang.org/grpc/metadata.AppendToOutgoingContext" || len(ef.Loops) > 0 {
			continue
		}
		es, ok := e.elems(t, ef, ef.Args[1])
		if !ok {
			continue
		}
		for i := 0; i+1 < len(es); i += 2 {
			if constString(es[i]) != "grpc-trace-bin" {
				continue
			}
			for _, x := range starts {
				own := contains(es[i+1], func(y *Term) bool {
					return isCallTo(y, "trace/propagation.Binary") && isCallTo(y.Args[0], "(*trace.Span).SpanContext") && y.Args[0].Args[0] == e.resultN(x, 1)
				})
				if c.need(own, "carry", side+":context", c.pos(ef), "the RPC carries the trace context %s", c.S(es[i+1])) &&
					e.implies(ef.PC, e.derived(t.Rets[0], ef.PC, func(y *Term) bool { return y == ef.Result })) {
					sum = e.any(sum, ef.PC)
				}
			}
		}
	}
	c.need(e.implies(True, sum), "carry", side+":trace", c.fpos(t), "the RPC carries its trace context only if %s", c.P(sum))
	// the tags
	n := 0
	for _, ef := range t.calls("google.golang.org/grpc/stats.SetTags") {
		enc := unconv(ef.Args[1])
		own := isCallTo(enc, "tag.Encode") && isCallTo(enc.Args[0], "tag.FromContext")
		if !c.need(own, "carry", side+":tags", c.pos(ef), "the RPC carries the tags %s", c.S(enc)) {
			continue
		}
		n++
		cond := e.all(e.not(e.isNil(t.param(2))), e.not(e.isNil(enc.Args[0])))
		c.need(e.implies(cond, ef.PC), "carry", side+":tags-when", c.pos(ef), "the RPC carries its tags only if %s", c.P(ef.PC))
		c.need(e.implies(ef.PC, e.derived(t.Rets[0], ef.PC, func(y *Term) bool { return y == ef.Result })), "carry", side+":tags-lost", c.pos(ef), "the context with the tags is not the one of the RPC")
	}
	c.floor("carry", "places that send tags", n, 1)
}

// c32restores: the served RPC gets the tags it was sent with and its method.
func c32restores(c *Ctx, t *Run, info *Term, full *types.Var, side string) {
	e := c.E
	there := e.not(e.isNil(info))
	sent := func(x *Term) bool {
		return isCallTo(x, "tag.Decode") && isCallTo(unconv(x.Args[0]), "google.golang.org/grpc/stats.Tags")
	}
	n := 0
	for _, ef := range t.calls("tag.NewContext") {
		for _, g := range e.cases(ef.Args[1]) {
			cc := e.all(ef.PC, g.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			if contains(g.T, sent) {
				n++
				continue
			}
			// nothing (only) when nothing valid arrived
			none := False
			for _, x := range t.calls("google.golang.org/grpc/stats.Tags") {
				none = e.any(none, e.isNil(x.Result), e.leq(e.length(x.Result), e.mkInt(0, types.Typ[types.Int])))
			}
			for _, x := range t.calls("tag.Decode") {
				none = e.any(none, e.not(e.isNil(e.resultN(x, 1))))
			}
			c.need(e.implies(cc, none), "carry", side+":tags", c.pos(ef), "the tags received are dropped if %s", c.P(cc))
		}
	}
	c.floor("carry", "places that restore tags", n, 1)
	// whatever was received (and understood) is in the context of the RPC
	for _, x := range t.calls("tag.Decode") {
		if !contains(unconv(x.Args[0]), func(y *Term) bool { return isCallTo(y, "google.golang.org/grpc/stats.Tags") }) {
			continue
		}
		got := e.all(there, x.PC, e.isNil(e.resultN(x, 1)))
		have := e.derived(t.Rets[0], got, func(y *Term) bool {
			if !isCallTo(y, "tag.NewContext") {
				return false
			}
			for _, q := range e.cases(y.Args[1]) {
				if e.decide(e.all(got, q.C), False) != 1 && !contains(q.T, func(z *Term) bool { return z == e.resultN(x, 0) }) {
					return false
				}
			}
			return true
		})
		c.need(e.implies(got, have), "carry", side+":tags-lost", c.pos(x), "the tags received are in the context of the RPC only if %s", c.P(have))
		for _, y := range t.calls("google.golang.org/grpc/stats.Tags") {
			some := e.all(there, y.PC, e.not(e.isNil(y.Result)))
			c.need(e.implies(some, e.any(x.PC, e.leq(e.length(y.Result), e.mkInt(0, types.Typ[types.Int])))), "carry", side+":tags-ignored", c.pos(x), "the tags received are decoded only if %s", c.P(x.PC))
		}
	}
	up := False
	km := c.W.global(ocgrpc, "KeyServerMethod")
	for _, ef := range t.calls("tag.New") {
		for _, x := range c.members(t, ef, ef.Args[1]) {
			if isCallTo(x, "tag.Upsert") && x.Args[0].Op == "ld" && x.Args[0].Args[0].Obj == any(km) {
				ok := contains(x.Args[1], func(y *Term) bool { return isField(y, full, info) })
				if c.need(ok, "carry", side+":method", c.pos(ef), "the method tag is %s", c.S(x.Args[1])) &&
					e.implies(ef.PC, e.derived(t.Rets[0], ef.PC, func(y *Term) bool { return y == e.resultN(ef, 0) })) {
					up = e.any(up, ef.PC)
				}
			}
		}
	}
	c.need(e.implies(there, up), "carry", side+":method-missing", c.fpos(t), "served RPCs are tagged with their method only if %s", c.P(up))
}

func ruleC34(c *Ctx) {
	c34http(c)
	c34grpc(c)
}

// c34side: with an incoming context and no public endpoint the incoming
// context is the parent, otherwise the span is a root, linked to the incoming
// context of a public endpoint.
func c34side(c *Ctx, what string, r *Run, traced, have, public BDD, isSC func(t *Term, cond BDD) bool) {
	e := c.E
	p := c.fpos(r)
	remote, root := False, False
	var roots []*Effect
	for _, ef := range r.where("call", nil) {
		switch ef.Name {
		case "trace.StartSpanWithRemoteParent":
			c.need(e.once(ef), "parent", what+":loop", c.pos(ef), "spans are started in a loop")
			c.need(e.decide(e.all(ef.PC, public), False) == 1, "parent", what+":public", c.pos(ef), "a public endpoint joins the caller's trace if %s", c.P(e.all(ef.PC, public)))
			c.need(e.implies(ef.PC, have), "parent", what+":absent", c.pos(ef), "an absent or invalid context becomes the parent if %s", c.P(e.all(ef.PC, e.not(have))))
			c.need(isSC(ef.Args[2], ef.PC), "parent", what+":context", c.pos(ef), "the parent is %s, not the incoming context", c.S(ef.Args[2]))
			remote = e.any(remote, ef.PC)
		case "trace.StartSpan":
			roots = append(roots, ef)
			root = e.any(root, ef.PC)
			c.need(e.decide(e.all(ef.PC, have, e.not(public)), False) == 1, "parent", what+":ignored", c.pos(ef), "the incoming context is ignored if %s", c.P(e.all(ef.PC, have, e.not(public))))
		}
	}
	c.floor("parent", what+": spans started", len(roots), 1)
	c.need(e.implies(e.all(traced, have, e.not(public)), remote), "parent", what+":remote", p, "the incoming context is the parent only if %s", c.P(remote))
	c.need(e.implies(e.all(traced, e.any(public, e.not(have))), root), "parent", what+":root", p, "a root span is started only if %s", c.P(root))
	linked := False
	for _, ef := range r.calls("(*trace.Span).AddLink") {
		c.need(e.implies(ef.PC, e.all(have, public)) && e.once(ef), "link", what+":when", c.pos(ef), "a link is added if %s", c.P(ef.PC))
		own := False
		for _, x := range roots {
			for _, g := range e.cases(ef.Args[0]) {
				if g.T == e.resultN(x, 1) {
					own = e.any(own, g.C)
				}
			}
		}
		c.need(e.implies(ef.PC, own), "link", what+":span", c.pos(ef), "the link is added to %s", c.S(ef.Args[0]))
		ln := ef.Args[1]
		good := true
		for _, g := range e.cases(ln) {
			cc := e.all(ef.PC, g.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			if tf := e.structField(g.T.T, "Type"); tf != nil {
				k := e.partOf(g.T, tf)
				v, isk := int64(0), false
				if k != nil {
					v, isk = k.intVal()
				}
				want := c.constOf("trace", "LinkTypeParent")
				good = good && isk && want != nil && constIs(k, want)
				_ = v
			}
			for _, n := range []string{"TraceID", "SpanID"} {
				f := e.structField(g.T.T, n)
				v := (*Term)(nil)
				if f != nil {
					v = e.partOf(g.T, f)
				}
				if v == nil {
					good = false
					continue
				}
				for _, q := range e.cases(v) {
					qq := e.all(cc, q.C)
					if e.decide(qq, False) != 1 {
						good = good && (q.T.Op == "fieldof" || q.T.Op == "ld") && fieldNamed(q.T, n) && isSC(baseOf(q.T), qq)
					}
				}
			}
		}
		c.need(good, "link", what+":context", c.pos(ef), "the link is %s, not a parent link to the incoming context", c.S(ln))
		c.need(e.decide(e.all(ef.PC, linked), False) == 1, "link", what+":twice", c.pos(ef), "the link is added twice")
		linked = e.any(linked, ef.PC)
	}
	c.need(e.implies(e.all(traced, have, public), linked), "link", what+":missing", p, "the incoming context of a public endpoint is linked only if %s", c.P(linked))
}

func fieldNamed(t *Term, n string) bool {
	if t.Op == "ld" {
		f := addrField(t.Args[0])
		return f != nil && f.Name() == n
	}
	f, ok := t.Obj.(*types.Var)
	return ok && f.Name() == n
}

// baseOf: the struct (or its address) a field value was taken from.
func baseOf(t *Term) *Term {
	if t.Op == "ld" {
		return t.Args[0].Args[0]
	}
	return t.Args[0]
}

func c34http(c *Ctx) {
	e := c.E
	s := c.httpServer("parent")
	if s == nil || c.failed() {
		return
	}
	r := s.r
	pubF, propF := c.field(ochttp, "Handler", "IsPublicEndpoint"), c.field(ochttp, "Handler", "Propagation")
	def := c.W.global(ochttp, "defaultFormat")
	if c.failed() {
		return
	}
	h := r.param(0)
	public := e.bdd(e.ld(e.fa(h, pubF)))
	prop := e.ld(e.fa(h, propF))
	have := False
	var exts []*Effect
	for _, ef := range r.where("call", nil) {
		if !strings.HasSuffix(ef.Name, ").SpanContextFromRequest") {
			continue
		}
		exts = append(exts, ef)
		set := e.not(e.isNil(prop))
		for _, g := range e.cases(ef.Args[0]) {
			cc := e.all(ef.PC, g.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			if unif(g.T) == prop {
				c.need(e.implies(cc, set), "format", "nil", c.pos(ef), "the configured format is used though there is none")
			} else {
				c.need(e.decide(e.all(cc, set), False) == 1, "format", "ignored", c.pos(ef), "the configured format is ignored: %s is used if %s", c.S(g.T), c.P(cc))
				c.need(def == nil || contains(g.T, func(t *Term) bool { return t.Op == "global" && t.Obj == any(def) }) || g.T.Op == "iface", "format", "default", c.pos(ef), "without a configured format, %s is used", c.S(g.T))
			}
		}
		c.need(e.allLeavesUnder(ef.Args[1], ef.PC, func(t *Term) bool { return t == s.req }) != False, "format", "request", c.pos(ef), "the incoming context is taken from %s", c.S(ef.Args[1]))
		have = e.any(have, e.all(ef.PC, e.bdd(e.resultN(ef, 1))))
	}
	c.floor("format", "extractions of the incoming context", len(exts), 1)
	isSC := func(t *Term, cond BDD) bool {
		for _, g := range e.cases(t) {
			cc := e.all(cond, g.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			ok := false
			for _, x := range exts {
				ok = ok || g.T == e.resultN(x, 0) && e.implies(cc, x.PC)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	c34side(c, "http", r, e.not(s.health), have, public, isSC)
}

func c34grpc(c *Ctx) {
	e := c.E
	f := c.fn(ocgrpc, "(*ServerHandler).TagRPC")
	pubF := c.field(ocgrpc, "ServerHandler", "IsPublicEndpoint")
	if c.failed() {
		return
	}
	o := c.only(ocgrpc)
	o.Resolve = nil
	r := c.run(f, o)
	public := e.bdd(e.ld(e.fa(r.param(0), pubF)))
	have := False
	var exts []*Effect
	for _, ef := range r.calls("trace/propagation.FromBinary") {
		exts = append(exts, ef)
		src := unconv(ef.Args[0])
		md := (*Term)(nil)
		key := false
		contains(src, func(t *Term) bool {
			if (t.Op == "mapval" || t.Op == "lookup") && len(t.Args) > 1 && constString(t.Args[1]) == "grpc-trace-bin" {
				key = true
			}
			if isCallTo(t, "(google.golang.org/grpc/metadata.MD).Get") && len(t.Args) > 1 && constString(t.Args[1]) == "grpc-trace-bin" {
				key = true
			}
			if isCallTo(t, "google.golang.org/grpc/metadata.FromIncomingContext") && t.Args[0] == r.param(1) {
				md = t
			}
			return false
		})
		c.need(key && md != nil, "format", "grpc:metadata", c.pos(ef), "the incoming context is taken from %s", c.S(src))
		for _, g := range e.cases(ef.Args[0]) {
			c.need(e.decide(e.all(ef.PC, g.C), False) == 1 || md != nil && contains(g.T, func(t *Term) bool { return t == md }), "format", "grpc:source", c.pos(ef), "the incoming context is taken from %s", c.S(g.T))
		}
		have = e.any(have, e.all(ef.PC, e.bdd(e.resultN(ef, 1))))
		// whenever the metadata has an entry
		var list *Term
		contains(src, func(t *Term) bool {
			if list == nil && (t.Op == "mapval" || isCallTo(t, "(google.golang.org/grpc/metadata.MD).Get")) {
				list = t
			}
			return list != nil
		})
		if list != nil {
			has := e.gtZero(e.length(list))
			// without metadata there are no entries
			contains(list, func(t *Term) bool {
				if isCallTo(t, "google.golang.org/grpc/metadata.FromIncomingContext") {
					if tu, ok := t.T.(*types.Tuple); ok && tu.Len() == 2 {
						has = e.all(has, e.bdd(e.wrapBool(e.mk("ext", "1", tu.At(1).Type(), nil, t))))
					}
				}
				return false
			})
			c.need(e.implies(has, ef.PC), "format", "grpc:ignored", c.pos(ef), "the incoming context is looked at only if %s", c.P(ef.PC))
		}
	}
	c.floor("format", "extractions from gRPC metadata", len(exts), 1)
	isSC := func(t *Term, cond BDD) bool {
		for _, g := range e.cases(t) {
			cc := e.all(cond, g.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			ok := false
			for _, x := range exts {
				ok = ok || g.T == e.resultN(x, 0) && e.implies(cc, x.PC)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	c34side(c, "grpc", r, True, have, public, isSC)
}
