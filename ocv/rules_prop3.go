package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"net/http"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C12", "static extraction of the wire layout written by each propagation encoder and the layout read by its decoder (gated symbolic evaluation), and comparison of the two",
		"Encoders are reduced to ordered field lists (literal, hex of an ID, decimal number, byte at offset), decoders to the field each result is taken from; header names, separators, order, widths, offsets, bases and the sampled bit must correspond. The varint tag encoding is compared as a sequence of contiguous reads and writes, and writes are proven not to be truncated.", ruleC12)
}

// tpart is a piece of text written by an encoder.
type tpart struct {
	kind string // lit, hex, dec, str
	s    string
	v    *Term
}

func (p tpart) String() string {
	if p.kind == "lit" {
		return fmt.Sprintf("%q", p.s)
	}
	return p.kind
}

// contentOfBytes: what a byte slice argument contains at an effect: an array
// value, or (for short arrays) the list of its elements.
func (c *Ctx) contentOfBytes(r *Run, ef *Effect, x *Term) (*Term, []*Term) {
	e := c.E
	for x.Op == "iface" || x.Op == "conv" && len(x.Args) == 1 {
		x = x.Args[0]
	}
	if x.Op == "lst" {
		return nil, x.Args
	}
	if x.Op == "slice" && x.Args[0].T != nil {
		if lo, hi := sliceBounds(x); lo == nil && hi == nil {
			a := x.Args[0]
			if at, ok := deref(a.T).Underlying().(*types.Array); ok {
				if at.Len() <= 2 {
					var els []*Term
					for i := int64(0); i < at.Len(); i++ {
						els = append(els, r.at(ef, e.indexAddr(a, e.mkInt(i, types.Typ[types.Int]), at.Elem())))
					}
					return nil, els
				}
				return r.at(ef, a), nil
			}
		}
	}
	if x.T != nil {
		if _, ok := x.T.Underlying().(*types.Array); ok {
			return x, nil
		}
	}
	return x, nil
}

// textOf reduces a string value to its parts.
func (c *Ctx) textOf(r *Run, ef *Effect, t *Term) ([]tpart, bool) {
	for t.Op == "iface" || t.Op == "conv" && len(t.Args) == 1 && isString(t.Args[0].T) {
		t = t.Args[0]
	}
	if s, ok := t.strVal(); ok {
		return []tpart{{kind: "lit", s: s}}, true
	}
	hexOf := func(x *Term) []tpart {
		v, els := c.contentOfBytes(r, ef, x)
		if v != nil {
			return []tpart{{kind: "hex", v: v}}
		}
		var out []tpart
		for _, el := range els {
			if k, ok := el.intVal(); ok {
				out = append(out, tpart{kind: "lit", s: fmt.Sprintf("%02x", k)})
			} else {
				out = append(out, tpart{kind: "hex", v: el})
			}
		}
		return out
	}
	listOf := func(x *Term) []*Term {
		if x.Op == "lst" {
			return x.Args
		}
		return r.elemsAt(ef, x)
	}
	switch {
	case t.Op == "bcat":
		var out []tpart
		for _, a := range t.Args {
			p, ok := c.textOf(r, ef, a)
			if !ok {
				return nil, false
			}
			out = append(out, p...)
		}
		return out, true
	case isCallTo(t, "encoding/hex.EncodeToString"):
		return hexOf(t.Args[0]), true
	case isCallTo(t, "strconv.FormatUint", "strconv.FormatInt"):
		if !constInt(t.Args[1], 10) {
			return nil, false
		}
		return []tpart{{kind: "dec", v: t.Args[0]}}, true
	case isCallTo(t, "strconv.Itoa"):
		return []tpart{{kind: "dec", v: t.Args[0]}}, true
	case isCallTo(t, "strings.Join"):
		sep, ok := t.Args[1].strVal()
		els := listOf(t.Args[0])
		if !ok || els == nil {
			return nil, false
		}
		var out []tpart
		for i, a := range els {
			if i > 0 {
				out = append(out, tpart{kind: "lit", s: sep})
			}
			p, ok := c.textOf(r, ef, a)
			if !ok {
				return nil, false
			}
			out = append(out, p...)
		}
		return out, true
	case isCallTo(t, "fmt.Sprintf"):
		f, ok := t.Args[0].strVal()
		if !ok {
			return nil, false
		}
		els := listOf(t.Args[1])
		var out []tpart
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out = append(out, tpart{kind: "lit", s: f[i : i+1]})
				continue
			}
			j := i + 1
			for j < len(f) && strings.ContainsRune("0123456789", rune(f[j])) {
				j++
			}
			if j >= len(f) {
				return nil, false
			}
			flags, verb := f[i+1:j], f[j]
			i = j
			if verb == '%' {
				out = append(out, tpart{kind: "lit", s: "%"})
				continue
			}
			if k >= len(els) {
				return nil, false
			}
			a := els[k]
			k++
			for a.Op == "iface" {
				a = a.Args[0]
			}
			if verb == 's' || verb == 'v' {
				if p, ok := c.stringerText(a); ok && flags == "" {
					out = append(out, p...)
					continue
				}
			}
			switch verb {
			case 'x':
				if k, isK := a.intVal(); isK {
					out = append(out, tpart{kind: "lit", s: fmt.Sprintf("%"+flags+"x", k)})
				} else if isInt(a.T) {
					if flags != fmt.Sprintf("0%d", intBits(a.T)/4) {
						return nil, false
					}
					out = append(out, tpart{kind: "hex", v: a})
				} else if flags == "" || flags == "02" {
					out = append(out, hexOf(a)...)
				} else {
					return nil, false
				}
			case 'd', 'v', 's':
				if isInt(a.T) && verb != 's' && flags == "" {
					out = append(out, tpart{kind: "dec", v: a})
					continue
				}
				if !isString(a.T) || verb == 'd' || flags != "" {
					return nil, false
				}
				p, ok := c.textOf(r, ef, a)
				if !ok {
					return nil, false
				}
				out = append(out, p...)
			default:
				return nil, false
			}
		}
		return out, k == len(els)
	}
	if isString(t.T) {
		return []tpart{{kind: "str", v: t}}, true
	}
	return nil, false
}

// stringerText: the parts a value's own String method renders it as.
func (c *Ctx) stringerText(v *Term) ([]tpart, bool) {
	n := namedOf(v.T)
	if n == nil || n.Obj().Pkg() == nil {
		return nil, false
	}
	sel := c.W.Prog.MethodSets.MethodSet(n).Lookup(n.Obj().Pkg(), "String")
	if sel == nil {
		return nil, false
	}
	f := c.W.Prog.MethodValue(sel)
	if f == nil || !c.W.inModule(f) {
		return nil, false
	}
	r := c.run(f, c.std())
	for _, ef := range r.where("return", func(ef *Effect) bool { return ef.Frame == r.Root }) {
		if len(ef.Args) != 1 || len(r.Rets) != 1 || ef.Args[0] != r.Rets[0] {
			continue
		}
		ps, ok := c.textOf(r, ef, r.Rets[0])
		if !ok {
			return nil, false
		}
		for i, p := range ps {
			switch {
			case p.kind == "lit":
			case p.v == r.param(0):
				ps[i].v = v
			default:
				return nil, false
			}
		}
		return ps, true
	}
	return nil, false
}

// elemsAt: the elements of a slice over a local array, as of an effect.
func (r *Run) elemsAt(ef *Effect, x *Term) []*Term {
	e := r.Eng
	if x.Op != "slice" || x.Args[1] != nil || x.Args[2] != nil || x.Args[0].Op != "alloc" {
		return nil
	}
	at, ok := deref(x.Args[0].T).Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return nil
	}
	out := []*Term{}
	for i := int64(0); i < at.Len(); i++ {
		out = append(out, r.at(ef, e.indexAddr(x.Args[0], e.mkInt(i, types.Typ[types.Int]), at.Elem())))
	}
	return out
}

// splitParts groups parts into the fields between occurrences of sep.
func splitParts(ps []tpart, sep string) [][]tpart {
	out := [][]tpart{nil}
	add := func(p tpart) { out[len(out)-1] = append(out[len(out)-1], p) }
	// merge adjacent literals first
	var m []tpart
	for _, p := range ps {
		if p.kind == "lit" && len(m) > 0 && m[len(m)-1].kind == "lit" {
			m[len(m)-1].s += p.s
		} else {
			m = append(m, p)
		}
	}
	for _, p := range m {
		if p.kind != "lit" {
			add(p)
			continue
		}
		for i, s := range strings.Split(p.s, sep) {
			if i > 0 {
				out = append(out, nil)
			}
			if s != "" {
				add(tpart{kind: "lit", s: s})
			}
		}
	}
	return out
}

type sentHeader struct {
	ef  *Effect
	val *Term
}

// headersSet: the headers an encoder writes, by canonical name.
func (c *Ctx) headersSet(r *Run) map[string][]sentHeader {
	out := map[string][]sentHeader{}
	for _, ef := range r.Effects {
		if ef.Kind == "call" && ef.Name == "(net/http.Header).Set" && len(ef.Args) == 3 {
			if n, ok := ef.Args[1].strVal(); ok {
				out[http.CanonicalHeaderKey(n)] = append(out[http.CanonicalHeaderKey(n)], sentHeader{ef, ef.Args[2]})
			}
		}
		if ef.Kind == "call" && ef.Name == "(net/http.Header).Add" {
			out["+"] = append(out["+"], sentHeader{ef, nil})
		}
	}
	return out
}

// headerRead: the name of the header a value was read from ("" if none).
func headerRead(t *Term) string {
	name := ""
	contains(t, func(x *Term) bool {
		if isCallTo(x, "(net/http.Header).Get") && len(x.Args) == 2 {
			if n, ok := x.Args[1].strVal(); ok {
				name = http.CanonicalHeaderKey(n)
			}
		}
		if x.Op == "mapval" && len(x.Args) >= 2 {
			k := x.Args[1]
			if isCallTo(k, "net/textproto.CanonicalMIMEHeaderKey", "net/http.CanonicalHeaderKey") {
				if n, ok := k.Args[0].strVal(); ok {
					name = http.CanonicalHeaderKey(n)
				}
			} else if n, ok := k.strVal(); ok {
				name = n
			}
		}
		return false
	})
	return name
}

// fieldsOfSC: trace ID, span ID and options of a span context value.
func (c *Ctx) scField(sc *Term, f *types.Var) *Term {
	st, ok := sc.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return c.E.fieldOf(sc, st, i)
		}
	}
	return nil
}

func ruleC12(c *Ctx) {
	e := c.E
	e.useInv = true
	tid, sid, opt := c.field("trace", "SpanContext", "TraceID"), c.field("trace", "SpanContext", "SpanID"), c.field("trace", "SpanContext", "TraceOptions")
	if c.failed() {
		return
	}
	c.c12b3(tid, sid, opt)
	c.c12w3c(tid, sid, opt)
	c.c12sd(tid, sid, opt)
	c.c12bin(tid, sid, opt)
	c.c12tags()
	c.c12grpc()
}

func (c *Ctx) codec(pkg, enc, dec string) (*Run, *Run) {
	fe, fd := c.fn(pkg, enc), c.fn(pkg, dec)
	if fe == nil || fd == nil {
		return nil, nil
	}
	return c.run(fe, c.std()), c.run(fd, c.std())
}

// isWhole: the value is field f of the encoder's span context.
func (c *Ctx) isWhole(v, sc *Term, f *types.Var) bool { return v != nil && v == c.scField(sc, f) }

// filledFrom: the decoded parts an array result is filled from, each with the
// source text of its hex decoding.
func (c *Ctx) filledFrom(r *Run, cond BDD, v *Term) []*Term {
	e := c.E
	var out []*Term
	add := func(x *Term) {
		for _, l := range leaves(x) {
			call := l
			if call.Op == "ext" {
				call = call.Args[0]
			}
			if callNameOf(call) == "encoding/hex.DecodeString" {
				out = append(out, call.Args[0])
			} else {
				out = append(out, nil)
			}
		}
	}
	for _, g := range e.cases(v) {
		if e.decide(e.all(cond, g.C), False) == 1 {
			continue
		}
		if g.T.Op == "copyof" {
			add(g.T.Args[0])
			continue
		}
		n := 0
		for _, ef := range r.Effects {
			if ef.Kind == "copy" && sameRootOf(g.T, ef.Addr) && e.decide(e.all(cond, g.C, ef.PC), False) != 1 {
				add(ef.Val)
				n++
			}
		}
		if n == 0 {
			out = append(out, nil)
		}
	}
	return out
}

func (c *Ctx) c12b3(tid, sid, opt *types.Var) {
	e := c.E
	pkg := "plugin/ochttp/propagation/b3"
	re, rd := c.codec(pkg, "(*HTTPFormat).SpanContextToRequest", "(*HTTPFormat).SpanContextFromRequest")
	if re == nil {
		return
	}
	sc := re.param(1)
	hs := c.headersSet(re)
	pos := c.fpos(re)
	okB := e.bdd(rd.Rets[1])
	out := rd.Rets[0]
	find := func(f *types.Var) string {
		for n, l := range hs {
			for _, h := range l {
				if h.val == nil {
					continue
				}
				ps, ok := c.textOf(re, h.ef, h.val)
				if ok && len(ps) == 1 && ps[0].kind == "hex" && c.isWhole(ps[0].v, sc, f) {
					c.need(len(l) == 1 && e.decide(True, h.ef.PC) == 1, "b3", "always:"+f.Name(), c.pos(h.ef), "the B3 header %s is not always set exactly once", n)
					return n
				}
			}
		}
		return ""
	}
	std := map[*types.Var]string{tid: "X-B3-Traceid", sid: "X-B3-Spanid"}
	for _, f := range []*types.Var{tid, sid} {
		n := find(f)
		if !c.need(n != "", "b3", "encode:"+f.Name(), pos, "the B3 encoder does not write the whole %s in hex", f.Name()) {
			continue
		}
		c.need(n == std[f], "b3", "name:"+f.Name(), pos, "the B3 encoder writes %s as %s", f.Name(), n)
		src := c.filledFrom(rd, okB, c.scField(out, f))
		ok := len(src) > 0
		for _, s := range src {
			ok = ok && s != nil && headerRead(s) == n && isCallTo(s, "(net/http.Header).Get")
		}
		c.need(ok, "b3", "decode:"+f.Name(), c.fpos(rd), "the B3 decoder does not take %s from the header %s the encoder writes", f.Name(), n)
	}
	// sampled
	name := ""
	for n, l := range hs {
		for _, h := range l {
			if h.val == nil {
				continue
			}
			sampled := e.leq(e.mkInt(1, nil), e.bits(c.scField(sc, opt), 1))
			s1, ok1 := e.under(h.val, sampled).strVal()
			s0, ok0 := e.under(h.val, e.not(sampled)).strVal()
			if !ok1 || !ok0 {
				continue
			}
			name = n
			c.need(len(l) == 1 && e.decide(True, h.ef.PC) == 1, "b3", "always:sampled", c.pos(h.ef), "the B3 header %s is not always set exactly once", n)
			c.need(s1 == "1" && s0 == "0", "b3", "sampled-value", c.pos(h.ef), "the B3 encoder writes sampled=%q, not sampled=%q", s1, s0)
		}
	}
	if !c.need(name == "X-B3-Sampled", "b3", "encode:sampled", pos, "the B3 encoder does not write the sampled bit to X-B3-Sampled (%s)", name) {
		return
	}
	ov := c.scField(out, opt)
	var get *Term
	for _, ef := range rd.calls("(net/http.Header).Get") {
		if n, ok := ef.Args[1].strVal(); ok && http.CanonicalHeaderKey(n) == name {
			get = ef.Result
		}
	}
	if !c.need(get != nil, "b3", "decode:sampled", c.fpos(rd), "the B3 decoder does not read %s", name) {
		return
	}
	for s, want := range map[string]int64{"1": 1, "true": 1, "0": 0, "false": 0, "": 0, "d": 0} {
		cond := e.all(okB, c.strIs(get, s, []string{"1", "true", "0", "false", "d"}))
		v := e.under(ov, cond)
		k, ok := v.intVal()
		c.need(ok && k&1 == want, "b3", "decode:sampled:"+s, c.fpos(rd), "the B3 decoder reads sampled=%q as %s", s, c.S(v))
	}
}

// strIs: the string term equals s and none of the others.
func (c *Ctx) strIs(t *Term, s string, others []string) BDD {
	e := c.E
	mk := func(s string) *Term { return e.mkStr(s) }
	out := e.eq(t, mk(s))
	for _, o := range others {
		if o != s {
			out = e.all(out, e.not(e.eq(t, mk(o))))
		}
	}
	return out
}

func (c *Ctx) c12w3c(tid, sid, opt *types.Var) {
	e := c.E
	pkg := "plugin/ochttp/propagation/tracecontext"
	re, rd := c.codec(pkg, "(*HTTPFormat).SpanContextToRequest", "(*HTTPFormat).SpanContextFromRequest")
	if re == nil {
		return
	}
	sc := re.param(1)
	hs := c.headersSet(re)
	tp := hs["Traceparent"]
	if !c.need(len(tp) == 1 && e.decide(True, tp[0].ef.PC) == 1, "w3c", "traceparent", c.fpos(re), "the W3C encoder does not always set traceparent exactly once") {
		return
	}
	ps, ok := c.textOf(re, tp[0].ef, tp[0].val)
	if !c.need(ok, "w3c", "traceparent-form", c.pos(tp[0].ef), "the traceparent header is not built from constant text and hex fields: %s", c.S(tp[0].val)) {
		return
	}
	fs := splitParts(ps, "-")
	form := len(fs) == 4 && len(fs[0]) == 1 && fs[0][0].kind == "lit" && fs[0][0].s == "00"
	for i, f := range []*types.Var{tid, sid} {
		form = form && len(fs[i+1]) == 1 && fs[i+1][0].kind == "hex" && c.isWhole(fs[i+1][0].v, sc, f)
	}
	if form {
		o := fs[3][0].v
		form = len(fs[3]) == 1 && fs[3][0].kind == "hex" && o != nil && intBits(o.T) == 8 && o.Op == "conv8" && o.Args[0] == c.scField(sc, opt)
	}
	c.need(form, "w3c", "traceparent-form", c.pos(tp[0].ef), "the traceparent header is not 00-<trace ID>-<span ID>-<options>: %v", fs)
	// decoder: the section each field comes from
	okB := e.bdd(rd.Rets[1])
	out := rd.Rets[0]
	section := func(s *Term) int64 {
		if s != nil && s.Op == "ld" && s.Args[0].Op == "index" && isCallTo(s.Args[0].Args[0], "strings.Split", "strings.SplitN") {
			sp := s.Args[0].Args[0]
			if sep, _ := sp.Args[1].strVal(); sep == "-" && headerRead(sp.Args[0]) == "Traceparent" {
				k, _ := s.Args[0].Args[1].intVal()
				return k
			}
		}
		return -1
	}
	for i, f := range []*types.Var{tid, sid} {
		src := c.filledFrom(rd, okB, c.scField(out, f))
		ok := len(src) > 0
		for _, s := range src {
			ok = ok && section(s) == int64(i+1)
		}
		c.need(ok, "w3c", "decode:"+f.Name(), c.fpos(rd), "the W3C decoder does not take %s from section %d of traceparent", f.Name(), i+1)
	}
	ov := e.under(c.scField(out, opt), okB)
	okO := true
	for _, g := range e.cases(ov) {
		if e.decide(e.all(okB, g.C), False) == 1 {
			continue
		}
		x := g.T
		for x.Op == "conv" || x.Op == "conv8" {
			x = x.Args[0]
		}
		o := false
		if x.Op == "ld" && x.Args[0].Op == "index" && constInt(x.Args[0].Args[1], 0) {
			call := x.Args[0].Args[0]
			if call.Op == "ext" {
				call = call.Args[0]
			}
			o = callNameOf(call) == "encoding/hex.DecodeString" && section(call.Args[0]) == 3
		}
		okO = okO && o
	}
	c.need(okO, "w3c", "decode:options", c.fpos(rd), "the W3C decoder does not take the options from section 3 of traceparent: %s", c.S(ov))
	c.c12tracestate(re, rd, hs, sc)
}

func (c *Ctx) c12tracestate(re, rd *Run, hs map[string][]sentHeader, sc *Term) {
	e := c.E
	tsF := c.field("trace", "SpanContext", "Tracestate")
	kF, vF := c.field("trace/tracestate", "Entry", "Key"), c.field("trace/tracestate", "Entry", "Value")
	ents := c.field("trace/tracestate", "Tracestate", "entries")
	if c.failed() {
		return
	}
	ts := hs["Tracestate"]
	if !c.need(len(ts) == 1, "w3c", "tracestate", c.fpos(re), "the W3C encoder does not write tracestate") {
		return
	}
	// encoder: pairs key=value of every entry, in order, joined by commas
	t := e.under(ts[0].val, ts[0].ef.PC)
	ok := isCallTo(t, "strings.Join")
	if ok {
		sep, _ := t.Args[1].strVal()
		ok = sep == ","
	}
	if !c.need(ok, "w3c", "tracestate-form", c.pos(ts[0].ef), "tracestate is not a comma separated list: %s", c.S(t)) {
		return
	}
	st := c.scField(sc, tsF)
	isEnts := func(x *Term) bool {
		return e.containsC(x, func(y *Term) bool {
			return y.Op == "ld" && y.Args[0].Op == "field" && addrField(y.Args[0]) == ents && y.Args[0].Args[0] == st
		})
	}
	okP := false
	for _, ef := range re.calls("strings.Join") {
		if ef.Result == t {
			continue
		}
		l := loopOver(ef, isEnts)
		if l == nil || !l.Full {
			continue
		}
		ps, ok := c.textOf(re, ef, ef.Result)
		if ok && len(ps) == 3 && ps[1].kind == "lit" && ps[1].s == "=" && elemField(ps[0].v, l, kF) && elemField(ps[2].v, l, vF) {
			okP = true
		}
	}
	if !okP {
		// concatenation
		for _, ef := range re.Effects {
			for _, a := range append([]*Term{ef.Val}, ef.Args...) {
				if a == nil || a.Op != "bcat" && !isCallTo(a, "fmt.Sprintf") {
					continue
				}
				l := loopOver(ef, isEnts)
				if l == nil || !l.Full {
					continue
				}
				ps, ok := c.textOf(re, ef, a)
				if ok && len(ps) == 3 && ps[1].kind == "lit" && ps[1].s == "=" && elemField(ps[0].v, l, kF) && elemField(ps[2].v, l, vF) {
					okP = true
				}
			}
		}
	}
	c.need(okP, "w3c", "tracestate-pairs", c.pos(ts[0].ef), "tracestate does not list key=value for every entry")
	// written whenever it is non-empty and not too long
	skip := ts[0].ef.PC
	lt := e.length(t)
	long := e.not(e.leq(lt, e.mkInt(512, nil)))
	want := e.all(e.not(e.isNil(st)), e.not(long), e.leq(e.mkInt(1, nil), lt))
	c.need(e.provable(re, want, skip), "w3c", "tracestate-dropped", c.pos(ts[0].ef), "the W3C encoder drops a trace state that fits: written only if %s", c.P(skip))
	c.need(e.provable(re, skip, e.not(long)), "w3c", "tracestate-long", c.pos(ts[0].ef), "the W3C encoder may write a trace state of more than 512 bytes")
	// decoder
	okD := false
	for _, ef := range rd.Effects {
		if ef.Kind != "call" || ef.Name != "strings.Split" {
			continue
		}
		sep, _ := ef.Args[1].strVal()
		l := loopOver(ef, func(x *Term) bool {
			if callNameOf(x) != "strings.Split" || headerRead(x) != "Tracestate" {
				return false
			}
			s, _ := x.Args[1].strVal()
			return s == ","
		})
		if l == nil || sep != "=" {
			continue
		}
		isPart := func(x *Term, i int64) bool {
			return x != nil && x.Op == "ld" && x.Args[0].Op == "index" && x.Args[0].Args[0] == ef.Result && constInt(x.Args[0].Args[1], i)
		}
		k, v := false, false
		for _, s := range rd.where("store", func(s *Effect) bool { return len(s.Loops) > 0 && s.Loops[len(s.Loops)-1] == l }) {
			k = k || addrField(s.Addr) == kF && isPart(s.Val, 0)
			v = v || addrField(s.Addr) == vF && isPart(s.Val, 1)
			if s.Val.Op == "struct" && len(s.Val.Args) == 2 {
				k = k || isPart(s.Val.Args[0], 0)
				v = v || isPart(s.Val.Args[1], 1)
			}
		}
		okD = okD || k && v
	}
	c.need(okD, "w3c", "tracestate-decode", c.fpos(rd), "the W3C decoder does not read comma separated key=value pairs from tracestate")
}

func (c *Ctx) c12sd(tid, sid, opt *types.Var) {
	e := c.E
	pkg := "exporter/stackdriver/propagation"
	re, rd := c.codec(pkg, "(*HTTPFormat).SpanContextToRequest", "(*HTTPFormat).SpanContextFromRequest")
	if re == nil {
		return
	}
	sc := re.param(1)
	const hn = "X-Cloud-Trace-Context"
	h := c.headersSet(re)[hn]
	if !c.need(len(h) == 1 && e.decide(True, h[0].ef.PC) == 1, "stackdriver", "header", c.fpos(re), "the Stackdriver encoder does not always set %s exactly once", hn) {
		return
	}
	ps, ok := c.textOf(re, h[0].ef, h[0].val)
	if !c.need(ok, "stackdriver", "form", c.pos(h[0].ef), "the Stackdriver header is not built from constant text, hex and decimal fields: %s", c.S(h[0].val)) {
		return
	}
	fs := splitParts(ps, "/")
	form := len(fs) == 2 && len(fs[0]) == 1 && fs[0][0].kind == "hex" && c.isWhole(fs[0][0].v, sc, tid)
	if form {
		g := splitParts(fs[1], ";")
		form = len(g) == 2 && len(g[0]) == 1 && g[0][0].kind == "dec" && len(g[1]) == 2 && g[1][0].kind == "lit" && g[1][0].s == "o=" && g[1][1].kind == "dec"
		if form {
			n := g[0][0].v
			form = isCallTo(n, "(encoding/binary.bigEndian).Uint64")
			if form {
				v, _ := c.contentOfBytes(re, h[0].ef, n.Args[1])
				form = c.isWhole(v, sc, sid) && !isUnsignedWrong(n)
			}
			o := g[1][1].v
			for o.Op == "conv" && intBits(o.T) >= 32 || o.Op == "conv" && o.T == nil {
				o = o.Args[0]
			}
			form = form && o == c.scField(sc, opt)
		}
	}
	c.need(form, "stackdriver", "form", c.pos(h[0].ef), "the Stackdriver header is not <trace ID hex>/<span ID decimal>;o=<options decimal>: %v", ps)
	// decoder
	okB := e.bdd(rd.Rets[1])
	out := rd.Rets[0]
	isHdr := func(t *Term) bool { return isCallTo(t, "(net/http.Header).Get") && headerRead(t) == hn }
	// seps: a linear expression of positions of separators in the header, and
	// the constant added.
	seps := func(t *Term) (string, int64) {
		l := e.toLin(t)
		var out []string
		for x, k := range l.co {
			if k != 1 || !isCallTo(x, "strings.Index", "strings.IndexByte", "strings.IndexRune") {
				return "?", 0
			}
			base := x.Args[0]
			for base.Op == "slice" {
				base = base.Args[0]
			}
			if !isHdr(base) {
				return "?", 0
			}
			s, ok := x.Args[1].strVal()
			if !ok {
				n, _ := x.Args[1].intVal()
				s = string(rune(n))
			}
			if x.Args[0] != base {
				// searched for in what follows a slash
				lo, hi := sliceBounds(x.Args[0])
				if lo == nil || hi != nil || len(e.toLin(lo).co) != 1 {
					return "?", 0
				}
				s += "+"
			}
			out = append(out, s)
		}
		sort.Strings(out)
		return strings.Join(out, ""), l.k
	}
	end := func(t *Term) string { // text up to a separator
		_, hi := sliceBounds(t)
		if hi == nil {
			return ""
		}
		s, k := seps(hi)
		switch {
		case s == "/" && k == 0 || s == ";" && k == 0:
			return s
		case s == "/;+" && k == 1:
			return ";"
		}
		return "?"
	}
	begin := func(t *Term) (string, int64) { // text from after a separator
		lo, _ := sliceBounds(t)
		if lo == nil {
			return "", 0
		}
		s, k := seps(lo)
		switch s {
		case "/", ";":
			return s, k - 1
		case "/;+":
			return ";", k - 2
		}
		return "?", k
	}
	cutHdr := func(t *Term) bool { return t.Op == "slice" && isHdr(t.Args[0]) }
	src := c.filledFrom(rd, okB, c.scField(out, tid))
	ok = len(src) > 0
	for _, s := range src {
		ok = ok && s != nil && cutHdr(s) && end(s) == "/" && func() bool { lo, _ := sliceBounds(s); return lo == nil || constInt(lo, 0) }()
	}
	c.need(ok, "stackdriver", "decode:TraceID", c.fpos(rd), "the Stackdriver decoder does not take the trace ID from the hex text before the slash")
	// span ID
	ok = false
	for _, ef := range rd.calls("(encoding/binary.bigEndian).PutUint64") {
		if !arrayTarget(ef.Args[1], 8) || !sameRootOf(c.scField(out, sid), ef.Args[1]) {
			continue
		}
		n := ef.Args[2]
		if n.Op == "ext" {
			n = n.Args[0]
		}
		if !isCallTo(n, "strconv.ParseUint") || !constInt(n.Args[1], 10) {
			continue
		}
		ok = true
		for _, g := range e.cases(n.Args[0]) {
			if e.decide(e.all(okB, ef.PC, g.C), False) == 1 {
				continue
			}
			ok = ok && cutHdr(g.T)
			if ok {
				b, k := begin(g.T)
				en := end(g.T)
				ok = b == "/" && k == 0 && (en == ";" || en == "")
			}
		}
	}
	c.need(ok, "stackdriver", "decode:SpanID", c.fpos(rd), "the Stackdriver decoder does not take the span ID, big endian, from the decimal text between slash and semicolon")
	// options
	n := 0
	for _, g := range e.cases(c.scField(out, opt)) {
		cond := e.all(okB, g.C)
		if e.decide(cond, False) == 1 || constInt(g.T, 0) {
			continue
		}
		n++
		x := g.T
		for x.Op == "conv" {
			x = x.Args[0]
		}
		if x.Op == "ext" {
			x = x.Args[0]
		}
		good := isCallTo(x, "strconv.ParseUint") && constInt(x.Args[1], 10)
		if good {
			for _, y := range e.cases(x.Args[0]) {
				cc := e.all(cond, y.C)
				if e.decide(cc, False) == 1 {
					continue
				}
				t := y.T
				if isCallTo(t, "strings.TrimPrefix") {
					p, _ := t.Args[1].strVal()
					t = t.Args[0]
					good = good && p == "o=" && cutHdr(t)
					if good {
						b, k := begin(t)
						good = (b == ";" || b == "/") && k == 0
					}
					continue
				}
				for t, cc := range c.splitIte(rd, t, cc) {
					good = good && cutHdr(t) && end(t) == ""
					if good {
						b, k := begin(t)
						good = (b == ";" || b == "/") && k == 2 && c.prefixed(rd, cc, t, "o=")
					}
				}
			}
		}
		c.need(good, "stackdriver", "decode:options", c.fpos(rd), "the Stackdriver decoder does not take the options from the decimal text after ;o=: %s", c.S(g.T))
	}
	c.floor("stackdriver", "decoded options", n, 1)
}

// prefixed: cc implies that the text before t (two bytes earlier) starts with p.
func (c *Ctx) prefixed(r *Run, cc BDD, t *Term, p string) bool {
	e := c.E
	lo, _ := sliceBounds(t)
	want := e.plus(lo, -int64(len(p)))
	for _, ef := range r.calls("strings.HasPrefix") {
		s, _ := ef.Args[1].strVal()
		if s != p || ef.Result == nil || e.decide(e.all(cc, ef.PC), e.bdd(ef.Result)) != 1 {
			continue
		}
		ok := true
		for _, g := range e.cases(ef.Args[0]) {
			if e.decide(e.all(cc, ef.PC, g.C), False) == 1 {
				continue
			}
			l, _ := sliceBounds(g.T)
			ok = ok && g.T.Op == "slice" && g.T.Args[0] == t.Args[0] && l == want
		}
		if ok {
			return true
		}
	}
	return false
}

func isUnsignedWrong(t *Term) bool { return t.T != nil && !isUnsigned(t.T) }

func (e *Eng) mkStr(s string) *Term {
	return e.constVal(constant.MakeString(s), types.Typ[types.String])
}

// opaque: the standard options, with the given functions not looked into.
func (c *Ctx) opaque(fs ...*ssa.Function) Opts {
	o := c.std()
	o.Inline = func(f *ssa.Function) bool {
		for _, x := range fs {
			if x == f {
				return false
			}
		}
		return true
	}
	return o
}

func (c *Ctx) c12bin(tid, sid, opt *types.Var) {
	e := c.E
	re, rd := c.codec("trace/propagation", "Binary", "FromBinary")
	if re == nil {
		return
	}
	sc := re.param(0)
	pos := c.fpos(re)
	zero := e.eq(sc, e.zero(sc.T))
	type cell struct {
		f   *types.Var
		off int64
		k   int64
		opt bool
	}
	for _, g := range e.cases(re.Rets[0]) {
		if e.decide(g.C, False) == 1 {
			continue
		}
		if g.T.Op == "nil" || g.T.Op == "zero" {
			c.need(e.decide(g.C, zero) == 1, "binary", "dropped", pos, "Binary encodes a span context that is not empty as nothing (if %s)", c.P(g.C))
			continue
		}
		base := g.T
		want := map[int64]cell{18: {k: 1}, 27: {k: 2}, 28: {opt: true}, 0: {}, 1: {}}
		for i := int64(0); i < 16; i++ {
			want[2+i] = cell{f: tid, off: i}
		}
		for i := int64(0); i < 8; i++ {
			want[19+i] = cell{f: sid, off: i}
		}
		optOf := func(x *Term) bool {
			for x.Op == "conv8" || x.Op == "conv" || x.Op == "band" && constInt(x.Args[1], 255) {
				x = x.Args[0]
			}
			return x == c.scField(sc, opt)
		}
		wholeOf := func(ef *Effect, x *Term) *types.Var {
			if src, _ := c.contentOfBytes(re, ef, x); src != nil {
				for _, f := range []*types.Var{tid, sid} {
					if c.isWhole(src, sc, f) {
						return f
					}
				}
			}
			return nil
		}
		if base.Op == "append" && constInt(e.length(base.Args[0]), 0) {
			// the fields appended one after the other to an empty buffer
			got := map[int64]cell{}
			off, ok := int64(0), true
			for _, a := range base.Args[1:] {
				if a.Op == "spread" {
					var f *types.Var
					for _, ef := range re.where("append", func(ef *Effect) bool { return len(ef.Args) == 2 && ef.Args[1] == a.Args[0] }) {
						f = wholeOf(ef, a.Args[0])
					}
					if ok = ok && f != nil; !ok {
						break
					}
					for i := int64(0); i < f.Type().Underlying().(*types.Array).Len(); i++ {
						got[off] = cell{f: f, off: i}
						off++
					}
					continue
				}
				if v, isC := a.intVal(); isC {
					got[off] = cell{k: v}
				} else {
					ok = ok && optOf(a)
					got[off] = cell{opt: true}
				}
				off++
			}
			for _, ef := range re.Effects {
				if (ef.Kind == "store" || ef.Kind == "copy") && ef.Addr != nil && contains(ef.Addr, func(t *Term) bool { return t.Op == "append" }) {
					ok = false
				}
			}
			c.need(ok && off == 29, "binary", "length", pos, "the binary format is not 29 bytes long")
			for i := int64(0); i < 29; i++ {
				ok = ok && got[i] == want[i]
			}
			c.need(ok, "binary", "layout", pos, "the bytes written by Binary are not version 0, field 0 trace ID, field 1 span ID, field 2 options")
			continue
		}
		if !c.need(base.Op == "slice" || base.Op == "make", "binary", "form", pos, "Binary returns %s, not a buffer it filled", c.S(base)) {
			continue
		}
		if base.Op == "slice" {
			lo, hi := sliceBounds(base)
			c.need((lo == nil || constInt(lo, 0)) && (hi == nil || constInt(hi, 29)), "binary", "form", pos, "Binary returns only part of its buffer")
			base = base.Args[0]
		}
		c.need(constInt(e.capOf(base, false), 29), "binary", "length", pos, "the binary format is not 29 bytes long")
		got := map[int64]cell{}
		ok := isFresh(rootOf(base))
		for _, ef := range re.Effects {
			if ef.Addr == nil || rootOf(ef.Addr) != rootOf(base) {
				continue
			}
			always := e.decide(g.C, ef.PC) == 1
			switch {
			case ef.Kind == "copy":
				var lo int64
				ok2 := always && len(ef.Loops) == 0
				n := int64(0)
				f := wholeOf(ef, ef.Val)
				if f != nil {
					n = f.Type().Underlying().(*types.Array).Len()
				}
				if ef.Addr.Op == "slice" {
					l, h := sliceBounds(ef.Addr)
					if l != nil {
						k, isK := l.intVal()
						lo, ok2 = k, ok2 && isK
					}
					if h != nil {
						k, isK := h.intVal()
						ok2 = ok2 && isK && k >= lo+n
					}
				}
				ok = ok && ok2 && f != nil
				for i := int64(0); i < n; i++ {
					got[lo+i] = cell{f: f, off: i}
				}
			case ef.Kind == "store" && ef.Addr.Op == "index":
				k, isK := ef.Addr.Args[1].intVal()
				ok = ok && isK && always && len(ef.Loops) == 0
				if v, isC := ef.Val.intVal(); isC {
					got[k] = cell{k: v}
				} else {
					got[k] = cell{opt: optOf(ef.Val)}
					ok = ok && got[k].opt
				}
			}
		}
		for i := int64(0); i < 29; i++ {
			ok = ok && got[i] == want[i]
		}
		c.need(ok, "binary", "layout", pos, "the bytes written by Binary are not version 0, field 0 trace ID, field 1 span ID, field 2 options")
	}
	// the decoder, given such bytes
	b := rd.param(0)
	is := func(i, v int64) BDD { return e.eq(rd.byteOf(b, i), e.mkInt(v, types.Typ[types.Uint8])) }
	l29 := e.mkInt(29, nil)
	given := e.all(is(0, 0), is(1, 0), is(18, 1), is(27, 2), e.leq(l29, e.length(b)), e.leq(e.length(b), l29))
	pos = c.fpos(rd)
	c.need(e.provable(rd, given, e.bdd(rd.Rets[1])), "binary", "decode", pos, "FromBinary may reject what Binary wrote")
	for _, w := range []struct {
		f  *types.Var
		lo int64
	}{{tid, 2}, {sid, 19}} {
		n := w.f.Type().Underlying().(*types.Array).Len()
		ok := false
		for _, g := range e.cases(c.scField(rd.Rets[0], w.f)) {
			if e.provable(rd, e.all(given, g.C), False) {
				continue
			}
			ok = false
			if g.T.Op == "copyof" && g.T.Args[0].Op == "slice" && g.T.Args[0].Args[0] == b {
				lo, hi := sliceBounds(g.T.Args[0])
				ok = lo != nil && constInt(lo, w.lo) && (hi == nil || e.provable(rd, given, e.leq(e.mkInt(w.lo+n, nil), hi)))
			}
			if !ok {
				break
			}
		}
		c.need(ok, "binary", "decode:"+w.f.Name(), pos, "FromBinary does not take %s from bytes %d to %d", w.f.Name(), w.lo, w.lo+n)
	}
	ok := false
	for _, g := range e.cases(c.scField(rd.Rets[0], opt)) {
		if e.provable(rd, e.all(given, g.C), False) {
			continue
		}
		// the tests of the input's length are decided by the given length
		x := e.under(g.T, given)
		ok = false
		for x := range c.splitIte(rd, stripConv(x), given) {
			ok = stripConv(x) == rd.byteOf(b, 28)
			if !ok {
				break
			}
		}
		if !ok {
			break
		}
	}
	c.need(ok, "binary", "decode:options", pos, "FromBinary does not take the options from byte 28")
}

type wireOp struct {
	kind string // byte, varint, bytes
	pos  *Term
	buf  *Term
	n    *Term // number, or the source
	ef   *Effect
}

// tagWrites: the writes of the tag encoder, in order.
func (c *Ctx) tagWrites(r *Run) []wireOp {
	e := c.E
	var out []wireOp
	cut := func(a *Term) (*Term, *Term) {
		if a.Op == "slice" {
			lo, _ := sliceBounds(a)
			if lo == nil {
				lo = e.mkInt(0, types.Typ[types.Int])
			}
			return a.Args[0], lo
		}
		return a, e.mkInt(0, types.Typ[types.Int])
	}
	isBytes := func(t *Term) bool {
		if t == nil || t.T == nil {
			return false
		}
		s, ok := t.T.Underlying().(*types.Slice)
		return ok && intBits(s.Elem()) == 8
	}
	for _, ef := range r.Effects {
		switch {
		case ef.Kind == "store" && ef.Addr.Op == "index" && isBytes(ef.Addr.Args[0]):
			out = append(out, wireOp{"byte", ef.Addr.Args[1], ef.Addr.Args[0], ef.Val, ef})
		case ef.Kind == "call" && ef.Name == "encoding/binary.PutUvarint":
			b, p := cut(ef.Args[0])
			out = append(out, wireOp{"varint", p, b, ef.Args[1], ef})
		case ef.Kind == "copy" && isBytes(ef.Addr):
			if ef.Addr.Op == "make" {
				continue // growth
			}
			b, p := cut(ef.Addr)
			out = append(out, wireOp{"bytes", p, b, ef.Val, ef})
		}
	}
	return out
}

func stripConv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "conv8") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func (c *Ctx) c12tags() {
	e := c.E
	fe, fd := c.fn("tag", "Encode"), c.fn("tag", "DecodeEach")
	if fe == nil || fd == nil {
		return
	}
	o := c.std()
	o.Overflow = false
	re := c.runInv(func() *Run { return c.run(fe, o) })
	pos := c.fpos(re)
	ws := c.tagWrites(re)
	add := func(a, b *Term) *Term {
		return e.fromLin(e.toLin(a).add(e.toLin(b), 1), types.Typ[types.Int])
	}
	eqT := func(pc BDD, a, b *Term) bool {
		return a == b || e.same(pc, a, b) || e.provable(re, pc, e.all(e.leqx(a, b), e.leqx(b, a)))
	}
	var pre, in []wireOp
	for _, w := range ws {
		if len(w.ef.Loops) == 0 {
			pre = append(pre, w)
		} else {
			in = append(in, w)
		}
	}
	if !c.need(len(pre) == 1 && pre[0].kind == "byte" && constInt(pre[0].pos, 0) && constInt(pre[0].n, 0), "tags", "version", pos, "Encode does not start with the version byte 0") {
		return
	}
	kinds := ""
	for _, w := range in {
		kinds += w.kind + " "
	}
	if !c.need(kinds == "byte varint bytes varint bytes ", "tags", "fields", pos, "Encode does not write type, key length, key, value length, value for each tag, but: %s", kinds) {
		return
	}
	l := in[0].ef.Loops[len(in[0].ef.Loops)-1]
	pc := in[0].ef.PC
	for i, w := range in {
		c.need(e.decide(pc, w.ef.PC) == 1 && e.decide(w.ef.PC, pc) == 1 && len(w.ef.Loops) > 0 && w.ef.Loops[len(w.ef.Loops)-1] == l, "tags", "fields", c.pos(w.ef), "Encode writes only some of the fields of a tag (%d)", i)
	}
	c.need(constInt(in[0].n, 0), "tags", "type", c.pos(in[0].ef), "Encode writes tags with a type other than 0")
	// positions
	at := add(in[0].pos, e.mkInt(1, nil))
	isVal := func(t *Term) bool {
		return e.containsC(stripConv(t), func(x *Term) bool { return x.Op == "rval" })
	}
	isKey := func(t *Term) bool {
		return e.containsC(stripConv(t), func(x *Term) bool { return x.Op == "rkey" })
	}
	for i := 1; i+1 < len(in); i += 2 {
		v, b := in[i], in[i+1]
		c.need(eqT(pc, v.pos, at), "tags", "contiguous", c.pos(v.ef), "Encode leaves a gap or overlap before a length")
		n := e.length(b.n)
		c.need(stripConv(v.n) == n || eqT(pc, stripConv(v.n), n) || stripConv(v.n) == e.length(stripConv(b.n)), "tags", "length", c.pos(v.ef), "the length written is not the length of what follows")
		c.need(eqT(pc, b.pos, add(at, v.ef.Result)), "tags", "contiguous", c.pos(b.ef), "Encode does not write the bytes right after their length")
		room := e.leqx(add(b.pos, n), e.length(b.buf))
		c.need(e.provable(re, b.ef.PC, room), "tags", "truncated", c.pos(b.ef), "the buffer may be too small for what is written, which truncates it")
		at = add(add(at, v.ef.Result), n)
		if i == 1 {
			c.need(isKey(b.n) && !isVal(b.n), "tags", "key", c.pos(b.ef), "Encode does not write the tag's key first")
		} else {
			c.need(isVal(b.n) && !isKey(b.n), "tags", "value", c.pos(b.ef), "Encode does not write the tag's value second")
		}
	}
	// the position carried around the loop, and the result
	var W *Term
	for _, lp := range re.loopVars() {
		if lp.L == l && lp.Term == in[0].pos {
			W = lp.Term
			c.need(constInt(lp.Init, 1) || eqT(lp.L.Entry, lp.Init, e.mkInt(1, types.Typ[types.Int])), "tags", "contiguous", pos, "the first tag is not written right after the version")
			for k, b := range lp.Back {
				bpc := True
				if k < len(lp.BPC) {
					bpc = lp.BPC[k]
				}
				for _, g := range e.cases(b) {
					cc := e.all(bpc, g.C)
					if e.decide(cc, False) == 1 || e.decide(e.all(cc, pc), False) == 1 && (g.T == W || e.same(cc, g.T, W)) {
						continue
					}
					c.need(eqT(e.all(cc, pc), g.T, at) && (e.decide(cc, pc) == 1 || g.T == at), "tags", "contiguous", pos, "the next tag does not start where the previous one ended")
				}
			}
		}
	}
	c.need(W != nil, "tags", "contiguous", pos, "the write position is not carried from tag to tag: %s", c.S(in[0].pos))
	// growth keeps the whole content
	ng := 0
	for _, ef := range re.Effects {
		if ef.Kind == "copy" && ef.Addr.Op == "make" {
			ng++
			ok := e.provable(re, ef.PC, e.leqx(e.length(ef.Val), e.length(ef.Addr)))
			c.need(ok, "tags", "growth", c.pos(ef), "growing the buffer may drop what was already written")
		}
	}
	for _, g := range e.cases(re.Rets[0]) {
		if g.T.Op == "nil" || g.T.Op == "zero" {
			c.need(e.decide(g.C, e.isNil(re.param(0))) == 1, "tags", "result", pos, "Encode returns nothing for a tag map")
			continue
		}
		ok := g.T.Op == "slice"
		if ok {
			lo, hi := sliceBounds(g.T)
			ok = (lo == nil || constInt(lo, 0)) && hi != nil && W != nil && (hi == W || e.containsC(hi, func(x *Term) bool { return x == W || x.Op == "loopout" && len(x.Args) > 0 && x.Args[0] == W }))
		}
		c.need(ok, "tags", "result", pos, "Encode does not return exactly what was written: %s", c.S(g.T))
	}
	c.c12tagRead(fd)
}

func (c *Ctx) c12tagRead(fd *ssa.Function) {
	e := c.E
	rd := c.runInv(func() *Run { return c.run(fd, c.std()) })
	pos := c.fpos(rd)
	in := rd.param(0)
	// key and value texts reach the handler
	n := 0
	for _, ef := range rd.Effects {
		if ef.Kind != "call" || ef.Name != "dyn" || ef.Val != rd.param(1) || len(ef.Args) < 2 {
			continue
		}
		n++
		val := stripConv(ef.Args[1])
		var key *Term
		e.containsC(ef.Args[0], func(x *Term) bool {
			if x.Op == "slice" && x.Args[0] == in && key == nil {
				key = x
			}
			return false
		})
		if !c.need(key != nil && val.Op == "slice" && val.Args[0] == in, "tags", "decode", c.pos(ef), "DecodeEach does not hand over parts of its input: %s, %s", c.S(ef.Args[0]), c.S(ef.Args[1])) {
			continue
		}
		// a field is uvarint length then that many bytes
		field := func(s *Term, what string) *Term { // returns where the length starts
			lo, hi := sliceBounds(s)
			if lo == nil || hi == nil {
				c.bad("tags", "decode:"+what, c.pos(ef), "the %s is not delimited by its length", what)
				return nil
			}
			var u *Term
			for x := range e.toLin(lo).co {
				if x.Op == "ext" && callNameOf(x.Args[0]) == "encoding/binary.Uvarint" && x == e.extTerm(x.Args[0], 1) {
					a := x.Args[0].Args[0]
					if a.Op != "slice" || a.Args[0] != in {
						continue
					}
					s0, _ := sliceBounds(a)
					if s0 == nil {
						continue
					}
					end := e.fromLin(e.toLin(s0).add(e.toLin(x), 1), types.Typ[types.Int])
					if end == lo {
						u = x.Args[0]
					}
				}
			}
			if u == nil {
				c.bad("tags", "decode:"+what, c.pos(ef), "the %s does not start right after its length", what)
				return nil
			}
			d := e.toLin(hi).add(e.toLin(lo), -1)
			okN := d.k == 0 && len(d.co) == 1
			for x, k := range d.co {
				okN = okN && k == 1 && stripConv(x) == e.extTerm(u, 0)
				for y := x; y.Op == "conv" || y.Op == "conv8"; y = y.Args[0] {
					okN = okN && intBits(y.T) == 64
				}
			}
			c.need(okN, "tags", "decode:"+what, c.pos(ef), "the %s is not as long as its length says", what)
			s0, _ := sliceBounds(u.Args[0])
			return s0
		}
		ks := field(key, "key")
		vs := field(val, "value")
		if ks == nil || vs == nil {
			continue
		}
		_, kEnd := sliceBounds(key)
		_, vEnd := sliceBounds(val)
		c.need(e.sameInt(vs, kEnd), "tags", "decode:order", c.pos(ef), "the value's length is not read right after the key")
		start := e.plus(ks, -1)
		ty := e.ld(e.indexAddr(in, start, types.Typ[types.Uint8]))
		c.need(e.decide(ef.PC, e.eq(ty, e.mkInt(0, types.Typ[types.Uint8]))) == 1, "tags", "decode:type", c.pos(ef), "a tag is accepted although the byte before its key is not type 0")
		found := false
		for _, lp := range rd.loopVars() {
			if lp.Term != start {
				continue
			}
			found = true
			c.need(constInt(lp.Init, 1), "tags", "decode:start", pos, "decoding does not start right after the version byte")
			for k, b := range lp.Back {
				okN := true
				for _, g := range e.cases(b) {
					cc := e.all(lp.BPC[k], g.C)
					okN = okN && (e.decide(cc, False) == 1 || e.sameInt(g.T, vEnd) || e.same(cc, g.T, vEnd))
				}
				c.need(okN, "tags", "decode:next", c.pos(ef), "the next tag is not read from where the previous one ended: %s", c.S(b))
			}
		}
		c.need(found, "tags", "decode:start", pos, "the read position is not carried from tag to tag: %s", c.S(start))
	}
	c.floor("tags", "tag handler calls", n, 1)
}

func (c *Ctx) c12grpc() {
	e := c.E
	bin, from := c.fn("trace/propagation", "Binary"), c.fn("trace/propagation", "FromBinary")
	ct, st := c.fn("plugin/ocgrpc", "(*ClientHandler).TagRPC"), c.fn("plugin/ocgrpc", "(*ServerHandler).TagRPC")
	enc, dec := c.fn("tag", "Encode"), c.fn("tag", "Decode")
	fromCtx := c.fn("tag", "FromContext")
	if c.failed() || bin == nil || from == nil || ct == nil || st == nil || enc == nil || dec == nil || fromCtx == nil {
		return
	}
	o := c.opaque(bin, from, enc, dec)
	rc, rs := c.run(ct, o), c.run(st, o)
	// client: trace context
	key := ""
	for _, ef := range rc.calls("google.golang.org/grpc/metadata.AppendToOutgoingContext") {
		els := rc.elemsAt(ef, ef.Args[1])
		if len(els) != 2 {
			continue
		}
		k, _ := els[0].strVal()
		v := stripConv(els[1])
		if callNameOf(v) == fnName(bin) || isCallTo(v, bin.String()) {
			key = k
			sp := v.Args[0]
			c.need(e.containsC(sp, func(x *Term) bool {
				return isCallTo(x, "invoke (trace.Tracer).StartSpan") || isCallTo(x, "invoke (trace.SpanInterface).SpanContext")
			}), "grpc", "client-context", c.pos(ef), "the client does not send the context of the span it started: %s", c.S(sp))
			c.need(e.decide(True, ef.PC) == 1, "grpc", "client-always", c.pos(ef), "the client does not always send its trace context (only if %s)", c.P(ef.PC))
			c.need(e.containsC(rc.Rets[0], func(x *Term) bool { return x == ef.Result }), "grpc", "client-result", c.pos(ef), "the context carrying the trace header is not returned")
		}
	}
	if !c.need(key != "", "grpc", "client-key", c.fpos(rc), "the gRPC client does not append the binary trace context to the outgoing metadata") {
		return
	}
	c.need(strings.HasSuffix(key, "-bin"), "grpc", "client-key", c.fpos(rc), "binary metadata is sent under the text key %q", key)
	c.need(key == "grpc-trace-bin", "grpc", "client-key", c.fpos(rc), "the trace context is sent under %q", key)
	// server
	n := 0
	for _, ef := range rs.Effects {
		if ef.Kind != "call" || ef.Callee != from {
			continue
		}
		n++
		v := stripConv(ef.Args[0])
		ok := v.Op == "ld" && v.Args[0].Op == "index" && constInt(v.Args[0].Args[1], 0)
		if ok {
			m := v.Args[0].Args[0]
			if m.Op == "mapval" {
				k, _ := m.Args[1].strVal()
				ok = k == key
			} else if isCallTo(m, "(google.golang.org/grpc/metadata.MD).Get") {
				k, _ := m.Args[1].strVal()
				ok = k == key
			} else {
				ok = false
			}
			ok = ok && e.containsC(m, func(x *Term) bool { return isCallTo(x, "google.golang.org/grpc/metadata.FromIncomingContext") })
		}
		c.need(ok, "grpc", "server-key", c.pos(ef), "the server does not read the trace context from the first value of %s: %s", key, c.S(v))
	}
	c.floor("grpc", "server trace context decodings", n, 1)
	// tags
	n = 0
	for _, ef := range rc.calls("google.golang.org/grpc/stats.SetTags") {
		n++
		v := ef.Args[1]
		c.need(v.Op == "call" && callNameOf(v) == fnName(enc) || isCallTo(v, enc.String()), "grpc", "client-tags", c.pos(ef), "the client does not send the encoded tags of the context: %s", c.S(v))
		c.need(e.containsC(rc.Rets[0], func(x *Term) bool { return x == ef.Result }), "grpc", "client-tags", c.pos(ef), "the context carrying the tags is not returned")
		var m *Term
		if len(v.Args) > 0 {
			m = v.Args[0]
			given := e.all(e.not(e.isNil(m)), e.not(e.isNil(rc.param(2))))
			if m.Op == "ta" && len(m.Args) == 1 {
				given = e.all(given, e.not(e.isNil(m.Args[0])), e.isType(m.Args[0], m.T))
			}
			c.need(e.decide(given, ef.PC) == 1, "grpc", "client-tags", c.pos(ef), "the client sends the tags only if %s", c.P(ef.PC))
		}
	}
	c.floor("grpc", "client tag encodings", n, 1)
	n = 0
	for _, ef := range rs.Effects {
		if ef.Kind == "call" && ef.Callee == dec {
			n++
			c.need(isCallTo(ef.Args[0], "google.golang.org/grpc/stats.Tags"), "grpc", "server-tags", c.pos(ef), "the server does not decode the received tags: %s", c.S(ef.Args[0]))
		}
	}
	c.floor("grpc", "server tag decodings", n, 1)
}

// splitIte: the values a term has under cond, by the conditions inside it.
func (c *Ctx) splitIte(r *Run, t *Term, cond BDD) map[*Term]BDD {
	e := c.E
	out := map[*Term]BDD{}
	var rec func(t *Term, cond BDD, d int)
	rec = func(t *Term, cond BDD, d int) {
		if e.provable(r, cond, False) {
			return
		}
		t = e.under(t, cond)
		var b BDD
		found := false
		contains(t, func(x *Term) bool {
			if !found && x.Op == "ite" {
				b, found = x.Obj.(BDD), true
			}
			return found
		})
		if !found || d > 8 {
			if o, ok := out[t]; ok {
				out[t] = e.any(o, cond)
			} else {
				out[t] = cond
			}
			return
		}
		rec(t, e.all(cond, b), d+1)
		rec(t, e.all(cond, e.not(b)), d+1)
	}
	rec(t, cond, 0)
	return out
}
