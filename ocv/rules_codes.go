package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C33", "static evaluation of the translation functions over a partition of all codes",
		"Every path of the functions that translate status codes, split by the code they receive: the result for each defined code, for each range of HTTP statuses and for all other codes; the tables they read; the numbering of the exported constants.", ruleC33)
}

// constMap lists the entries of a package-level map that nothing changes
// after initialisation.
func (c *Ctx) constMap(g *ssa.Global) (keys, vals []*Term, ok bool) {
	if g == nil || !c.onlyInit(g) {
		return nil, nil, false
	}
	for _, f := range c.W.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ld, isl := in.(*ssa.UnOp)
				if !isl || ld.X != ssa.Value(g) || ld.Referrers() == nil {
					continue
				}
				for _, ref := range *ld.Referrers() {
					switch x := ref.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if bi, isb := x.Call.Value.(*ssa.Builtin); !isb || bi.Name() != "len" {
							return nil, nil, false
						}
					default:
						return nil, nil, false
					}
				}
			}
		}
	}
	r := c.initRun(g.Pkg)
	if r == nil || r.Final == nil {
		return nil, nil, false
	}
	m := r.final(c.E.globalAddr(g))
	for _, ef := range r.Effects {
		if ef.Kind == "mapupdate" && ef.Addr == m {
			if !c.E.implies(r.Final.pc, ef.PC) || len(ef.Loops) > 0 || !ef.Key.isConst() && !(ef.Key.Op == "ld" && ef.Key.Args[0].Op == "global") {
				return nil, nil, false
			}
			keys, vals = append(keys, ef.Key), append(vals, ef.Val)
		}
	}
	return keys, vals, isFresh(m)
}

// at evaluates t under cond, with the variable v (a term) equal to the
// constant k, looking constants up in package-level tables; it returns every
// value that remains possible.
func (c *Ctx) at(t *Term, cond BDD, v *Term, k int64) []*Term {
	e := c.E
	var out []*Term
	for _, g := range e.cases(t) {
		cc := e.all(cond, g.C)
		if e.decide(cc, False) == 1 {
			continue
		}
		x := g.T
		num := func(i *Term) (out []int64, ok bool) {
			for _, y := range c.at(i, cc, v, k) {
				y = unconv(y)
				if n, isn := y.intVal(); isn {
					out = append(out, n)
				} else {
					return nil, false
				}
			}
			return out, true
		}
		global := func(m *Term) *ssa.Global {
			if m.Op == "ld" {
				m = m.Args[0]
			}
			g, _ := m.Obj.(*ssa.Global)
			if m.Op != "global" {
				return nil
			}
			return g
		}
		switch {
		case unconv(x) == unconv(v):
			out = append(out, e.mkInt(k, v.T))
		case x.Op == "lin":
			l := e.toLin(x)
			n := l.k
			ok := true
			for y, f := range l.co {
				ok = ok && unconv(y) == unconv(v)
				n += f * k
			}
			if ok {
				out = append(out, e.mkInt(n, x.T))
			} else {
				out = append(out, x)
			}
		case x.Op == "mapval" && len(x.Args) >= 2 && global(x.Args[0]) != nil:
			ks, vs, ok := c.constMap(global(x.Args[0]))
			ns, okn := num(x.Args[1])
			if !ok || !okn {
				out = append(out, x)
				break
			}
			for _, n := range ns {
				val := e.zero(x.T)
				for i, y := range ks {
					if m, isn := y.intVal(); isn && m == n {
						val = vs[i]
					}
				}
				out = append(out, val)
			}
		case x.Op == "ld" && x.Args[0].Op == "index" || x.Op == "indexof":
			a := x
			if x.Op == "ld" {
				a = x.Args[0]
			}
			es := []*Term(nil)
			if g := global(a.Args[0]); g != nil {
				es = c.initElems(g)
			}
			ns, okn := num(a.Args[1])
			if es == nil || !okn {
				out = append(out, x)
				break
			}
			for _, n := range ns {
				if n < 0 || n >= int64(len(es)) {
					out = append(out, x)
				} else {
					out = append(out, es[n])
				}
			}
		case x.Op == "conv" || x.Op == "conv8":
			for _, y := range c.at(x.Args[0], cc, v, k) {
				if n, isn := y.intVal(); isn {
					out = append(out, e.mkInt(n, x.T))
				} else {
					out = append(out, x)
				}
			}
		default:
			out = append(out, x)
		}
	}
	return out
}

// present: the map lookups a value depends on succeed exactly for keys in the
// table; conditions on their success are replaced by conditions on the key.
func (c *Ctx) tableFacts(v *Term, k int64, bs ...BDD) BDD {
	e := c.E
	th := True
	seen := map[*Term]bool{}
	for _, b := range bs {
		for _, a := range e.atomsOf(b) {
			if seen[a] || a.Op != "mapok" || a.Args[0].Op != "ld" && a.Args[0].Op != "global" {
				continue
			}
			seen[a] = true
			m := a.Args[0]
			if m.Op == "ld" {
				m = m.Args[0]
			}
			g, _ := m.Obj.(*ssa.Global)
			ks, _, ok := c.constMap(g)
			if !ok || unconv(a.Args[1]) != unconv(v) {
				continue
			}
			has := False
			for _, y := range ks {
				if n, isn := y.intVal(); isn && n == k {
					has = True
				}
			}
			th = e.all(th, e.iff(e.bdd(a), has))
		}
	}
	return th
}

// atCode is at with v == k and what that means for lookups in tables.
func (c *Ctx) atCode(t *Term, cond BDD, v *Term, k int64) []*Term {
	e := c.E
	cc := e.all(cond, e.eq(v, e.mkInt(k, v.T)))
	var bs []BDD
	contains(t, func(x *Term) bool {
		if b, ok := x.Obj.(BDD); ok {
			bs = append(bs, b)
		}
		return false
	})
	return c.at(t, e.all(cc, c.tableFacts(v, k, append(bs, cc)...)), v, k)
}

func (c *Ctx) showAll(ts []*Term) string {
	s := ""
	for i, t := range ts {
		if i > 0 {
			s += " or "
		}
		s += c.S(t)
	}
	if s == "" {
		return "nothing"
	}
	return s
}

// traceCodes are the exported names of the status codes, in order.
var traceCodes = []string{"OK", "Cancelled", "Unknown", "InvalidArgument", "DeadlineExceeded", "NotFound", "AlreadyExists",
	"PermissionDenied", "ResourceExhausted", "FailedPrecondition", "Aborted", "OutOfRange", "Unimplemented", "Internal",
	"Unavailable", "DataLoss", "Unauthenticated"}

// httpCodes: what the HTTP statuses with a meaning of their own map to.
var httpCodes = map[int64]int64{400: 3, 401: 16, 403: 7, 404: 5, 409: 6, 422: 3, 429: 8, 499: 1, 501: 12, 503: 14, 504: 4}

func ruleC33(c *Ctx) {
	c33names(c)
	c33http(c)
	c33grpc(c)
	c33zpages(c)
}

func c33names(c *Ctx) {
	for i, n := range traceCodes {
		v := c.constOf("trace", "StatusCode"+n)
		if v == nil {
			continue
		}
		k, ok := constant.Int64Val(constant.ToInt(v))
		c.need(ok && k == int64(i), "names", n, "trace/status_codes.go", "trace.StatusCode%s is %v, not %d", n, v, i)
	}
}

func c33http(c *Ctx) {
	e := c.E
	r := c.go1(ochttp, "TraceStatus")
	if r == nil || c.failed() {
		return
	}
	p := c.fpos(r)
	code := r.param(0)
	cf, mf := c.field("trace", "Status", "Code"), c.field("trace", "Status", "Message")
	if c.failed() {
		return
	}
	c.need(len(r.where("panic", nil)) == 0 && r.Final != nil && e.implies(True, r.Final.pc), "total", "http", p, "TraceStatus does not return for every status")
	c.need(len(r.where("index", nil)) == 0 || c33inRange(c, r), "total", "http:index", p, "TraceStatus may read outside its table")
	ret := r.Rets[0]
	part := func(f *types.Var) *Term {
		var merge func(t *Term) *Term
		merge = func(t *Term) *Term {
			if t.Op == "ite" {
				return e.ite(t.Obj.(BDD), merge(t.Args[0]), merge(t.Args[1]))
			}
			v := e.partOf(t, f)
			if v == nil {
				return e.fv(t, f)
			}
			return v
		}
		return merge(ret)
	}
	ct, mt := part(cf), part(mf)
	// the codes the function tells apart
	vals := map[int64]bool{}
	for k := range httpCodes {
		vals[k] = true
	}
	check := func(what string, cond BDD, v *Term, k, want int64) {
		cs := c.at(ct, cond, v, k)
		ok := len(cs) > 0
		for _, x := range cs {
			n, isn := unconv(x).intVal()
			ok = ok && isn && n == want
		}
		c.need(ok, "http", what, p, "the HTTP status %s maps to the code %s, not %d", what, c.showAll(cs), want)
		// the message of each case
		ms := c.at(mt, cond, v, k)
		ok = len(ms) > 0
		for _, x := range ms {
			ok = ok && constString(x) == grpcCodes[want]
		}
		c.need(ok, "http", what+":message", p, "the status of the HTTP status %s has the message %s, not %s", what, c.showAll(ms), grpcCodes[want])
	}
	I := code.T
	n := 0
	for k, want := range httpCodes {
		cond := e.all(e.eq(code, e.mkInt(k, I)), c.tableFacts(code, k, c33conds(ct)...))
		check(fmt.Sprint(k), cond, code, k, want)
		n++
	}
	rest := True
	for k := range httpCodes {
		rest = e.all(rest, e.not(e.eq(code, e.mkInt(k, I))))
	}
	// other keys of the tables the function reads
	for _, k := range c33keys(c, code, ct) {
		if _, ok := httpCodes[k]; ok {
			continue
		}
		rest = e.all(rest, e.not(e.eq(code, e.mkInt(k, I))))
		want := int64(2)
		if k >= 200 && k < 400 {
			want = 0
		}
		check(fmt.Sprint(k), e.all(e.eq(code, e.mkInt(k, I)), c.tableFacts(code, k, c33conds(ct)...)), code, k, want)
	}
	miss := c.tableFacts(code, -1<<40, c33conds(ct)...)
	success := e.all(e.not(e.lt(code, e.mkInt(200, I))), e.lt(code, e.mkInt(400, I)))
	none := e.mk("sym", "none", I, nil)
	check("other (success)", e.all(rest, miss, success), none, -1<<40, 0)
	check("other (error)", e.all(rest, miss, e.not(success)), none, -1<<40, 2)
	c.floor("http", "HTTP statuses", n, len(httpCodes))
}

func c33conds(t *Term) []BDD {
	var bs []BDD
	contains(t, func(x *Term) bool {
		if b, ok := x.Obj.(BDD); ok {
			bs = append(bs, b)
		}
		return false
	})
	return bs
}

// c33keys lists the keys of the tables a value is looked up in by v.
func c33keys(c *Ctx, v, t *Term) []int64 {
	var out []int64
	contains(t, func(x *Term) bool {
		if (x.Op == "mapval" || x.Op == "mapok") && unconv(x.Args[1]) == unconv(v) {
			m := x.Args[0]
			if m.Op == "ld" {
				m = m.Args[0]
			}
			if g, ok := m.Obj.(*ssa.Global); ok {
				ks, _, _ := c.constMap(g)
				for _, y := range ks {
					if n, isn := y.intVal(); isn {
						out = append(out, n)
					}
				}
			}
		}
		return false
	})
	return out
}

// c33inRange: every element read is within its array or slice.
func c33inRange(c *Ctx, r *Run) bool {
	e := c.E
	ok := true
	for _, ef := range r.where("index", nil) {
		if ef.Key == nil {
			continue
		}
		var n *Term
		if at, isA := arrayOf(deref(ef.Addr.T)); isA {
			n = e.mkInt(at.Len(), types.Typ[types.Int])
		} else {
			n = e.length(ef.Addr)
			m := ef.Addr
			if m.Op == "ld" {
				m = m.Args[0]
			}
			if g, isG := m.Obj.(*ssa.Global); isG && m.Op == "global" {
				if es := c.initElems(g); es != nil {
					n = e.mkInt(int64(len(es)), types.Typ[types.Int])
				}
			}
		}
		in := e.all(e.not(e.lt(ef.Key, e.mkInt(0, ef.Key.T))), e.lt(ef.Key, n))
		if !e.implies(ef.PC, in) {
			ok = false
		}
	}
	return ok
}

// c33grpc: the status tags recorded by the gRPC handlers.
func c33grpc(c *Ctx) {
	e := c.E
	E := c.stdIface(grpcStats, "End")
	if !c.need(E != nil, "anchor", "grpc", "-", "the gRPC event types are not used") {
		return
	}
	n := 0
	for _, h := range []string{"ClientHandler", "ServerHandler"} {
		f := c.fn(ocgrpc, "(*"+h+").HandleRPC")
		if c.failed() {
			return
		}
		o := c.only(ocgrpc)
		o.Resolve = nil
		r := c.run(f, o)
		recs, _ := c.recorded(r)
		seen := map[*Term]bool{}
		for _, d := range recs {
			if d.tags == nil {
				continue
			}
			for _, x := range c.members(r, d.ef, d.tags) {
				if !isCallTo(x, "tag.Upsert", "tag.Insert", "tag.Update") || x.Args[0].Op != "ld" || x.Args[0].Args[0].Op != "global" {
					continue
				}
				if k := x.Args[0].Args[0].Obj; k != any(c.W.global(ocgrpc, "KeyClientStatus")) && k != any(c.W.global(ocgrpc, "KeyServerStatus")) {
					continue
				}
				if seen[x.Args[1]] {
					continue
				}
				seen[x.Args[1]] = true
				n++
				c33total(c, "grpc", h, d.C, c.pos(d.ef), x.Args[1])
			}
		}
		c.need(c33inRange(c, r), "total", h, c.fpos(r), "a code may be looked up outside its table")
	}
	c.floor("grpc", "status tags", n, 2)
	_ = e
}

// c33total: for every code known the value is its canonical name, and
// something computed from the code otherwise.
func c33total(c *Ctx, rule, what string, cond BDD, p string, v *Term) {
	e := c.E
	var code *Term
	isCode := func(t *Term) bool {
		n := callNameOf(t)
		return t.Op == "call" && (len(n) > 5 && n[len(n)-5:] == ".Code" && len(t.Args) == 1)
	}
	contains(v, func(t *Term) bool {
		if code == nil && isCode(t) {
			code = t
		}
		return code != nil
	})
	e.containsC(v, func(t *Term) bool {
		if code == nil && isCode(t) {
			code = t
		}
		return code != nil
	})
	if !c.need(code != nil, rule, what+":code", p, "the status %s does not depend on the code of the error", c.S(v)) {
		return
	}
	failed := False // the code was asked for
	for _, g := range e.cases(v) {
		if s, isk := g.T.strVal(); !isk || s != "OK" {
			failed = e.any(failed, g.C)
		}
	}
	c33codes(c, rule, what, e.all(cond, failed), p, v, code, func(cc BDD) BDD { return cc })
}

// c33codes checks the value of v for all codes; where only() narrows the
// condition to the paths that translate the code.
func c33codes(c *Ctx, rule, what string, cond BDD, p string, v, code *Term, only func(BDD) BDD) {
	e := c.E
	conds := c33conds(v)
	other := cond
	for i, name := range grpcCodes {
		k := int64(i)
		eq := e.eq(code, e.mkInt(k, code.T))
		other = e.all(other, e.not(eq))
		cc := only(e.all(cond, eq, c.tableFacts(code, k, conds...)))
		vs := c.at(v, cc, code, k)
		ok := len(vs) > 0 || i == 0
		for _, x := range vs {
			s, isk := x.strVal()
			// an error without a status counts as unknown
			ok = ok && isk && s == name
		}
		c.need(ok, rule, what+":"+name, p, "the code %d is rendered as %s, not %s", k, c.showAll(vs), name)
	}
	other = only(e.all(other, c.tableFacts(code, -1<<40, conds...)))
	none := e.mk("sym", "none", code.T, nil)
	vs := c.at(v, other, none, -1<<40)
	c.need(len(vs) > 0, rule, what+":other", p, "codes without a name are not rendered")
	for _, x := range vs {
		c.need(!x.isConst() && contains(x, func(t *Term) bool { return t == code }) && x.Op != "mapval" && x.Op != "indexof" && x.Op != "ld", rule, what+":other", p, "codes without a name are rendered as %s", c.S(x))
	}
}

func c33zpages(c *Ctx) {
	r := c.go1("zpages", "canonicalCodeString")
	if r == nil || c.failed() {
		return
	}
	p := c.fpos(r)
	c.need(c33inRange(c, r), "total", "zpages", p, "a code may be looked up outside its table")
	c33codes(c, "zpages", "trace page", True, p, r.Rets[0], r.param(0), func(b BDD) BDD { return b })
}
