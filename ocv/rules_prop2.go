package main

import (
	"go/types"
	"strings"
)

func init() {
	reg("C11", "static path-condition analysis of every trace-context decoder: the condition of a successful return must imply every guard of the format, and every failing return must carry an all-zero span context",
		"For each decoder the success condition (a BDD over gated symbolic values) must imply: every parser call made succeeded, every byte of each ID was filled from a decoded part of exactly the prescribed length, W3C version/section/alphabet/non-zero rules; decided with propositional and linear integer entailment.", ruleC11)
}

// ctxDecoder is a decoder of a span context.
type ctxDecoder struct {
	pkg, fn string
	format  string
}

func ctxDecoders() []ctxDecoder {
	return []ctxDecoder{
		{"plugin/ochttp/propagation/b3", "ParseTraceID", "b3id"},
		{"plugin/ochttp/propagation/b3", "ParseSpanID", "b3id"},
		{"plugin/ochttp/propagation/b3", "(*HTTPFormat).SpanContextFromRequest", "b3"},
		{"plugin/ochttp/propagation/tracecontext", "(*HTTPFormat).SpanContextFromHeaders", "w3c"},
		{"plugin/ochttp/propagation/tracecontext", "(*HTTPFormat).SpanContextFromRequest", "w3c"},
		{"exporter/stackdriver/propagation", "(*HTTPFormat).SpanContextFromRequest", "sd"},
		{"trace/propagation", "FromBinary", "bin"},
	}
}

// parsers whose error must not be ignored
var fallible = map[string]int{
	"encoding/hex.DecodeString": 1, "encoding/hex.Decode": 1, "strconv.ParseUint": 1, "strconv.ParseInt": 1, "strconv.Atoi": 1,
	"encoding/base64.DecodeString": 1, "(*encoding/base64.Encoding).DecodeString": 1,
}

func ruleC11(c *Ctx) {
	e := c.E
	e.useInv = true
	n := 0
	tid, sid := c.field("trace", "SpanContext", "TraceID"), c.field("trace", "SpanContext", "SpanID")
	opt := c.field("trace", "SpanContext", "TraceOptions")
	if c.failed() {
		return
	}
	for _, d := range ctxDecoders() {
		f := c.fn(d.pkg, d.fn)
		if f == nil {
			continue
		}
		r := c.run(f, c.std())
		if len(r.Rets) != 2 || !isBool(r.Rets[1].T) {
			c.bad("shape", d.pkg+"."+d.fn, c.fpos(r), "%s does not return a value and a success flag", fnName(f))
			continue
		}
		n++
		what := d.pkg + "." + d.fn
		pos := c.fpos(r)
		okB := e.bdd(r.Rets[1])
		c.need(okB != False, "never-succeeds", what, pos, "%s never succeeds", what)
		// failure: nothing but zero
		sc := r.Rets[0]
		var vals []*Term
		if st, ok := sc.T.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				vals = append(vals, e.fieldOf(sc, st, i))
			}
		} else {
			vals = []*Term{sc}
		}
		for _, v := range vals {
			for _, g := range e.cases(v) {
				if e.decide(e.all(e.not(okB), g.C), False) == 1 {
					continue
				}
				zero := g.T.Op == "zero" || g.T.Op == "nil" || constInt(g.T, 0) || e.decide(e.all(e.not(okB), g.C), e.eq(g.T, e.zero(g.T.T))) == 1
				c.need(zero, "failure-not-zero", what, pos, "%s may return %s together with failure", what, c.S(g.T))
			}
		}
		// success: every parser call made succeeded
		for _, ef := range r.Effects {
			if ef.Kind != "call" {
				continue
			}
			i, ok := fallible[ef.Name]
			if !ok {
				continue
			}
			er := e.resultN(ef, i)
			if er == nil {
				c.bad("error-ignored", what, c.pos(ef), "%s ignores the error of %s", what, ef.Name)
				continue
			}
			c.need(e.provable(r, e.all(okB, ef.PC), e.isNil(er)), "error-ignored", what, c.pos(ef), "%s may succeed although %s failed", what, ef.Name)
			if strings.HasPrefix(ef.Name, "strconv.Parse") {
				want := int64(64)
				if isOptionParse(r, ef, sc, opt) {
					want = 32
				}
				bs, okc := ef.Args[2].intVal()
				c.need(okc && bs <= want && bs > 0, "number-range", what, c.pos(ef), "%s accepts numbers wider than %d bits", what, want)
			}
		}
		// the parts
		part := func(v *Term, n int64, name string, mandatory bool) {
			for _, g := range e.cases(v) {
				cond := e.all(okB, g.C)
				if e.decide(cond, False) == 1 {
					continue
				}
				if g.T.Op == "zero" {
					c.need(!mandatory, "missing-part", what, pos, "%s may succeed without a %s (if %s)", what, name, c.P(cond))
					continue
				}
				c.need(c.exactFill(r, cond, g.T, n, d.format), "part-length", what, pos, "%s may succeed with a %s that is not filled from a part of the prescribed length: %s (if %s)", what, name, c.S(g.T), c.P(cond))
			}
		}
		switch d.format {
		case "b3id":
			at, ok := sc.T.Underlying().(*types.Array)
			if !ok {
				c.bad("shape", what, pos, "%s does not return an array", what)
				continue
			}
			part(sc, at.Len(), "value", true)
		default:
			st := sc.T.Underlying().(*types.Struct)
			get := func(fv *types.Var) *Term {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == fv {
						return e.fieldOf(sc, st, i)
					}
				}
				return nil
			}
			part(get(tid), 16, "trace ID", true)
			part(get(sid), 8, "span ID", d.format != "bin")
			switch d.format {
			case "w3c":
				c.c11w3c(r, what, okB, get(tid), get(sid), get(opt))
			case "bin":
				b := r.param(0)
				z := e.mkInt(0, nil)
				byteAt := func(i int64) *Term { return r.byteOf(b, i) }
				c.need(e.provable(r, okB, e.leq(e.mkInt(18, nil), e.length(b))), "binary-guard", what, pos, "FromBinary may accept fewer than 18 bytes")
				c.need(e.implies(okB, e.eq(byteAt(0), z)), "binary-guard", what+":version", pos, "FromBinary accepts versions other than 0")
				c.need(e.implies(okB, e.eq(byteAt(1), z)), "binary-guard", what+":field", pos, "FromBinary accepts input that does not start with the trace ID field")
				// a field's ID is checked before the field is used
				for _, g := range e.cases(get(sid)) {
					cond := e.all(okB, g.C)
					if g.T.Op == "zero" || e.decide(cond, False) == 1 {
						continue
					}
					c.need(e.provable(r, cond, e.all(e.eq(byteAt(18), e.mkInt(1, nil)), e.leq(e.mkInt(27, nil), e.length(b)))), "binary-guard", what+":span", pos, "FromBinary reads a span ID without checking its field ID and length")
				}
				for _, g := range e.cases(get(opt)) {
					cond := e.all(okB, g.C)
					if constInt(g.T, 0) || e.decide(cond, False) == 1 {
						continue
					}
					at27 := e.eq(byteAt(27), e.mkInt(2, nil))
					at18 := e.eq(byteAt(18), e.mkInt(2, nil))
					var have BDD = False
					for _, x := range e.cases(g.T) {
						if x.T.Op == "byte" || x.T.Op == "idx" || x.T.Op == "rval" || true {
							cc := e.all(cond, x.C)
							if e.decide(cc, False) == 1 {
								continue
							}
							have = e.any(have, e.all(cc, e.any(at27, at18)))
							c.need(e.implies(e.rawOf(cc), e.any(at27, at18)) || c.fieldIDChecked(r, cc), "binary-guard", what+":options", pos, "FromBinary reads the options without checking their field ID (if %s)", c.P(cc))
						}
					}
				}
			}
		}
	}
	c.floor("decoders", "span context decoders", n, 7)
}

// fieldIDChecked: the condition tests some byte of the input against 2.
func (c *Ctx) fieldIDChecked(r *Run, cc BDD) bool {
	for _, f := range c.E.facts(cc) {
		if f.Pos && f.Atom.Op == "eq" && (constInt(f.Atom.Args[0], 2) || constInt(f.Atom.Args[1], 2)) {
			return true
		}
	}
	return false
}

// isOptionParse: the parsed number becomes the trace options.
func isOptionParse(r *Run, ef *Effect, sc *Term, opt *types.Var) bool {
	st, ok := sc.T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == opt {
			return anyLeaf(r.Eng.fieldOf(sc, st, i), func(l *Term) bool {
				return contains(l, func(x *Term) bool { return x == ef.Result })
			})
		}
	}
	return false
}

// byteOf is element i of a byte slice parameter.
func (r *Run) byteOf(b *Term, i int64) *Term {
	e := r.Eng
	return e.ld(e.indexAddr(b, e.mkInt(i, types.Typ[types.Int]), types.Typ[types.Uint8]))
}

// exactFill: under cond, the array value of n bytes was filled from one
// decoded part: a copy of exactly n bytes, a right-aligned copy of a non-empty
// part, or a whole number written in n bytes.
func (c *Ctx) exactFill(r *Run, cond BDD, v *Term, n int64, format string) bool {
	e := c.E
	nn := e.mkInt(n, nil)
	if v.Op == "copyof" {
		l := e.length(v.Args[0])
		if format == "bin" {
			return e.provable(r, cond, e.leq(nn, l))
		}
		return e.provable(r, cond, e.all(e.leq(l, nn), e.leq(nn, l)))
	}
	// the array was written in place
	found := false
	check := func(base *Term) bool {
		if v.Op == "zero" {
			return false
		}
		return sameRootOf(v, base)
	}
	for _, ef := range r.Effects {
		if e.decide(e.all(ef.PC, cond), False) == 1 {
			continue
		}
		cc := e.all(ef.PC, cond)
		switch ef.Kind {
		case "copy":
			if !check(ef.Addr) {
				continue
			}
			if !arrayTarget(ef.Addr, n) {
				continue
			}
			lo, hi := sliceBounds(ef.Addr)
			if lo == nil {
				lo = e.mkInt(0, nil)
			}
			src := e.length(ef.Val)
			end := e.fromLin(e.toLin(lo).add(e.toLin(src), 1), types.Typ[types.Int])
			ok := e.provable(r, cc, e.all(e.leq(end, nn), e.leq(nn, end)))
			if hi != nil {
				ok = ok && e.provable(r, cc, e.leq(nn, hi))
			}
			if constInt(lo, 0) {
				ok = ok && true
			} else {
				// right-aligned: the part itself must not be empty
				nonEmpty := e.provable(r, cc, e.leq(e.mkInt(1, nil), src)) || c.decodedFromNonEmpty(r, cc, ef.Val)
				ok = ok && nonEmpty
			}
			if !ok {
				return false
			}
			found = true
		case "call":
			if strings.HasSuffix(ef.Name, ".PutUint64") && len(ef.Args) == 3 && arrayTarget(ef.Args[1], n) && check(ef.Args[1]) {
				if n != 8 {
					return false
				}
				if lo, hi := sliceBounds(ef.Args[1]); lo != nil && !constInt(lo, 0) || hi != nil && !constInt(hi, 8) {
					return false
				}
				found = true
			}
		}
	}
	return found
}

// decodedFromNonEmpty: the bytes were hex-decoded from a non-empty string (an
// odd length is an error, so at least one byte results).
func (c *Ctx) decodedFromNonEmpty(r *Run, cc BDD, v *Term) bool {
	e := c.E
	for _, l := range leaves(v) {
		call := l
		if call.Op == "ext" {
			call = call.Args[0]
		}
		if callNameOf(call) != "encoding/hex.DecodeString" {
			return false
		}
		if !e.provable(r, cc, e.leq(e.mkInt(1, nil), e.length(call.Args[0]))) {
			return false
		}
	}
	return true
}

func arrayTarget(t *Term, n int64) bool {
	for t.Op == "slice" {
		t = t.Args[0]
	}
	if t.T == nil {
		return false
	}
	at, ok := deref(t.T).Underlying().(*types.Array)
	return ok && at.Len() == n
}

// sameRootOf: the value was loaded from (or patches) the object of the address.
func sameRootOf(v, addr *Term) bool {
	for addr.Op == "slice" {
		addr = addr.Args[0]
	}
	return contains(v, func(x *Term) bool { return x == addr }) || isFresh(rootOf(addr)) && contains(v, func(x *Term) bool { return x == rootOf(addr) })
}

// c11w3c: the rules of the traceparent header.
func (c *Ctx) c11w3c(r *Run, what string, okB BDD, tid, sid, opt *Term) {
	e := c.E
	pos := c.fpos(r)
	nz := func(v *Term, name string) {
		for _, g := range e.cases(v) {
			cond := e.all(okB, g.C)
			if e.decide(cond, False) == 1 {
				continue
			}
			c.need(e.implies(cond, e.not(e.eq(g.T, e.zero(g.T.T)))), "zero-id", what+":"+name, pos, "%s may succeed with an all-zero %s", what, name)
		}
	}
	nz(tid, "trace ID")
	nz(sid, "span ID")
	// the decoded sections
	type sec struct{ dec, src *Term }
	var secs []sec
	seen := map[*Term]bool{}
	for _, ef := range r.Effects {
		if ef.Kind != "call" || ef.Name != "encoding/hex.DecodeString" || e.decide(e.all(ef.PC, okB), False) == 1 {
			continue
		}
		if ef.Result != nil && !seen[ef.Result] {
			seen[ef.Result] = true
			secs = append(secs, sec{e.resultN(ef, 0), ef.Args[0]})
		}
		c.need(e.implies(okB, ef.PC), "section-skipped", what, c.pos(ef), "%s may succeed without decoding %s", what, c.S(ef.Args[0]))
	}
	using := func(v *Term) *sec {
		for i := range secs {
			for _, g := range e.cases(v) {
				if e.decide(e.all(okB, g.C), False) != 1 && contains(g.T, func(x *Term) bool { return x == secs[i].dec }) {
					return &secs[i]
				}
			}
		}
		return nil
	}
	st, ss, so := using(tid), using(sid), using(opt)
	if st == nil || ss == nil || so == nil || st == ss || st == so || ss == so {
		c.bad("sections", what, pos, "%s does not take trace ID, span ID and flags from three separately decoded sections", what)
		return
	}
	exact := func(s *sec, n int64, name string) {
		l := e.length(s.dec)
		nn := e.mkInt(n, nil)
		c.need(e.provable(r, okB, e.all(e.leq(l, nn), e.leq(nn, l))), "section-length", what+":"+name, pos, "%s may succeed when the %s section is not exactly %d hex digits", what, name, 2*n)
	}
	exact(st, 16, "trace ID")
	exact(ss, 8, "span ID")
	exact(so, 1, "flags")
	for _, g := range e.cases(opt) {
		cond := e.all(okB, g.C)
		if e.decide(cond, False) == 1 {
			continue
		}
		c.need(e.containsC(g.T, func(x *Term) bool { return x == so.dec }), "flags", what, pos, "%s may succeed with flags that are not the decoded ones", what)
	}
	// version
	var sv *sec
	for i := range secs {
		if s := &secs[i]; s != st && s != ss && s != so {
			sv = s
		}
	}
	if sv == nil {
		c.bad("version", what, pos, "%s does not decode the version", what)
		return
	}
	exact(sv, 1, "version")
	ver := r.byteOf(sv.dec, 0)
	c.need(e.provable(r, okB, e.leq(ver, e.mkInt(254, nil))), "version", what+":max", pos, "%s accepts version ff", what)
	// sections come from one split of the header
	whole := func(s *sec) *Term {
		for _, l := range leaves(s.src) {
			if l.Op == "ld" && l.Args[0].Op == "index" {
				return l.Args[0].Args[0]
			}
		}
		return nil
	}
	sp := whole(st)
	if sp == nil || sp != whole(ss) || sp != whole(so) || sp != whole(sv) || callNameOf(sp) != "strings.Split" && callNameOf(sp) != "strings.SplitN" {
		c.bad("sections", what+":split", pos, "%s does not take version, trace ID, span ID and flags from one split of the header", what)
		return
	}
	n := e.length(sp)
	four := e.mkInt(4, nil)
	v0 := e.eq(ver, e.mkInt(0, nil))
	c.need(e.provable(r, e.all(okB, v0), e.all(e.leq(n, four), e.leq(four, n))), "version", what+":v0", pos, "%s may accept a version 00 header with more than four sections", what)
	if callNameOf(sp) == "strings.SplitN" {
		k, _ := sp.Args[2].intVal()
		c.need(k < 0 || k > 4, "version", what+":v0", pos, "%s cannot see a fifth section", what)
	}
	// lower case only
	for _, s := range []*sec{sv, st, ss, so} {
		c.need(c.lowerChecked(r, okB, s.src, s.dec, sp), "uppercase", what, pos, "%s may accept upper-case hex digits in %s", what, c.S(s.src))
	}
}

// lowerChecked: the condition implies that x has no upper-case characters:
// directly, through the whole header, or by a loop over the sections.
func (c *Ctx) lowerChecked(r *Run, okB BDD, x, dec, sp *Term) bool {
	e := c.E
	raw := e.rawOf(okB)
	lower := func(b BDD, is func(y *Term) bool) bool {
		for _, ef := range r.Effects {
			if ef.Kind != "call" || ef.Result == nil {
				continue
			}
			switch {
			case ef.Name == "strings.ToLower" && is(ef.Args[0]) && e.implies(b, e.eq(ef.Result, ef.Args[0])):
				return true
			case ef.Name == "encoding/hex.EncodeToString" && ef.Args[0] == dec && is(x) && e.implies(b, e.eq(ef.Result, x)):
				return true
			}
		}
		return false
	}
	whole := sp.Args[0]
	if lower(raw, func(y *Term) bool { return y == x || y == whole }) {
		return true
	}
	idx := int64(-1)
	if x.Op == "ld" && x.Args[0].Op == "index" {
		idx, _ = x.Args[0].Args[1].intVal()
	}
	l := e.forallLoop(r, okB, func(l *LoopCtx) bool {
		if l.Kind == "slice" && l.Coll != nil {
			b := l.Coll
			if b == sp {
				return true
			}
			if b.Op == "slice" && b.Args[0] == sp {
				lo, hi := sliceBounds(b)
				if lo != nil && !constInt(lo, 0) {
					return false
				}
				if hi == nil {
					return true
				}
				k, ok := hi.intVal()
				return ok && k > idx
			}
		}
		return l.Kind == "count" || l.Kind == "other"
	}, func(l *LoopCtx, b BDD) bool {
		return lower(b, func(y *Term) bool {
			if y.Op != "ld" || y.Args[0].Op != "index" {
				return false
			}
			base := y.Args[0].Args[0]
			for base.Op == "slice" {
				base = base.Args[0]
			}
			if base != sp {
				return false
			}
			if l.Kind == "slice" {
				return y.Args[0].Args[1] == l.Iter
			}
			// counted loop: staying in the loop is required for idx
			i := y.Args[0].Args[1]
			at := e.eq(i, e.mkInt(idx, types.Typ[types.Int]))
			return at != False && (e.decide(at, l.More) == 1 || e.linEntails(at, True, l.More))
		})
	})
	return l != nil
}
