package main

import (
	"fmt"
	"go/types"
	"sort"
)

func init() {
	reg("C10", "static bounds analysis of every wire decoder: index and slice obligations discharged from path conditions with linear arithmetic over lengths",
		"Every index and slice expression reachable from a decoder (inlined through its helpers) carries an obligation 0 <= lo <= hi <= len; it is discharged from the path condition, the length axioms of the standard library calls involved and wrap-around-aware integer arithmetic. Nil dereferences of absent values are included.", ruleC10)
}

type decoder struct{ pkg, fn string }

func (c *Ctx) decoders() []decoder {
	return []decoder{
		{"plugin/ochttp/propagation/b3", "ParseTraceID"},
		{"plugin/ochttp/propagation/b3", "ParseSpanID"},
		{"plugin/ochttp/propagation/b3", "ParseSampled"},
		{"plugin/ochttp/propagation/b3", "(*HTTPFormat).SpanContextFromRequest"},
		{"plugin/ochttp/propagation/tracecontext", "(*HTTPFormat).SpanContextFromHeaders"},
		{"plugin/ochttp/propagation/tracecontext", "(*HTTPFormat).SpanContextFromRequest"},
		{"exporter/stackdriver/propagation", "(*HTTPFormat).SpanContextFromRequest"},
		{"trace/propagation", "FromBinary"},
		{"tag", "Decode"},
		{"tag", "DecodeEach"},
	}
}

func ruleC10(c *Ctx) {
	n := 0
	for _, d := range c.decoders() {
		f := c.fn(d.pkg, d.fn)
		if f == nil {
			continue
		}
		o := c.std()
		o.Overflow = true
		r := c.runInv(func() *Run { return c.run(f, o) })
		n += c.boundsOf(r, d.pkg+"."+d.fn)
		for _, ef := range r.where("panic", func(*Effect) bool { return true }) {
			c.need(c.E.decide(ef.PC, False) == 1, "panic", fnName(f), c.pos(ef), "%s panics (if %s)", fnName(f), c.P(ef.PC))
		}
	}
	c.floor("bounds", "index and slice obligations in decoders", n, 20)
}

// boundsOf discharges the bounds obligations of a run.
func (c *Ctx) boundsOf(r *Run, what string) int {
	e := c.E
	n := 0
	for _, ef := range r.Effects {
		switch ef.Kind {
		case "index":
			n++
			for _, gb := range e.cases(ef.Addr) {
				for _, gi := range e.cases(ef.Key) {
					pc := e.all(ef.PC, gb.C, gi.C)
					if e.decide(pc, False) == 1 {
						continue
					}
					ln := e.capOf(gb.T, false)
					if ln == nil {
						continue
					}
					goal := e.all(e.leq(e.mkInt(0, nil), gi.T), e.lt(gi.T, ln))
					ok := e.provable(r, pc, goal)
					c.need(ok, "bounds", what+":index", c.pos(ef), "%s may index out of range: %s[%s] with length %s (if %s)", what, c.S(gb.T), c.S(gi.T), c.S(ln), c.P(pc))
				}
			}
		case "slice":
			n++
			for _, gb := range e.cases(ef.Addr) {
				ln := e.capOf(gb.T, true)
				if ln == nil {
					continue
				}
				lo, hi := ef.Args[0], ef.Args[1]
				if lo == nil {
					lo = e.mkInt(0, nil)
				}
				if hi == nil {
					hi = e.length(gb.T)
					if x := e.capOf(gb.T, false); x != nil {
						hi = x
					}
				}
				for _, gl := range e.cases(lo) {
					for _, gh := range e.cases(hi) {
						pc := e.all(ef.PC, gb.C, gl.C, gh.C)
						if e.decide(pc, False) == 1 {
							continue
						}
						goal := e.all(e.leq(e.mkInt(0, nil), gl.T), e.leq(gl.T, gh.T), e.leq(gh.T, ln))
						c.need(e.provable(r, pc, goal), "bounds", what+":slice", c.pos(ef), "%s may slice out of range: %s[%s:%s] (if %s)", what, c.S(gb.T), c.S(gl.T), c.S(gh.T), c.P(pc))
					}
				}
			}
		}
	}
	return n
}

// capOf: the number of elements that may be indexed (or sliced to).
func (e *Eng) capOf(b *Term, slicing bool) *Term {
	if b.T == nil {
		return nil
	}
	t := b.T.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return e.mkInt(a.Len(), nil)
	}
	if _, ok := t.(*types.Map); ok {
		return nil
	}
	if slicing {
		if b.Op == "make" && len(b.Args) == 2 {
			return b.Args[1]
		}
	}
	return e.length(b)
}

// provable: pc and the axioms about the values involved imply the goal.
func (e *Eng) provable(r *Run, pc, goal BDD) bool {
	if goal == True || e.decide(pc, goal) == 1 {
		return true
	}
	ax := e.axioms(pc, goal)
	return e.decide(e.all(pc, ax), goal) == 1 || e.linEntails(e.rawOf(pc), ax, goal)
}

// axioms about the library calls occurring in some conditions.
func (e *Eng) axioms(bs ...BDD) BDD {
	seen := map[*Term]bool{}
	out := True
	add := func(b BDD) { out = e.all(out, b) }
	zero := e.mkInt(0, nil)
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		if t.Op == "lin" {
			for k := range t.Obj.(lin).co {
				visit(k)
			}
		}
		if t.Op == "ite" {
			for _, v := range e.B.Support(t.Obj.(BDD)) {
				visit(e.atoms[v])
			}
		}
		call := t
		if t.Op == "ext" {
			call = t.Args[0]
		}
		switch callNameOf(call) {
		case "strings.Split", "bytes.Split":
			if s := constString(call.Args[1]); s != "" {
				add(e.leq(e.mkInt(1, nil), e.length(call)))
			}
		case "strings.SplitN":
			if k, ok := call.Args[2].intVal(); ok && k > 0 {
				add(e.leq(e.mkInt(1, nil), e.length(call)))
				add(e.leq(e.length(call), e.mkInt(k, nil)))
			}
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "bytes.IndexByte", "bytes.Index":
			add(e.leq(e.mkInt(-1, nil), call))
			w := int64(1)
			if isString(call.Args[1].T) {
				w = int64(len(constString(call.Args[1])))
			}
			// found: the match lies within the text
			found := e.leq(zero, call)
			add(e.any(e.not(found), e.leq(e.plus(call, w), e.length(call.Args[0]))))
		case "strings.HasPrefix", "strings.HasSuffix":
			if b := e.bddOf(call); b != False {
				add(e.any(e.not(b), e.leqx(e.length(call.Args[1]), e.length(call.Args[0]))))
			}
		case "encoding/hex.DecodeString":
			dec, er := e.extTerm(call, 0), e.extTerm(call, 1)
			if dec != nil && er != nil {
				l2 := e.fromLin(e.toLin(e.length(dec)).scale(2), types.Typ[types.Int])
				ls := e.length(call.Args[0])
				add(e.any(e.not(e.isNil(er)), e.all(e.leq(l2, ls), e.leq(ls, l2))))
				add(e.leq(l2, ls))
			}
		case "(*regexp.Regexp).FindStringSubmatch":
			if pat := e.regexpOf(call.Args[0]); pat != "" {
				n := int64(reGroups(pat) + 1)
				add(e.any(e.isNil(call), e.eq(e.length(call), e.mkInt(n, types.Typ[types.Int]))))
				add(e.any(e.isNil(call), e.all(e.leq(e.mkInt(n, nil), e.length(call)), e.leq(e.length(call), e.mkInt(n, nil)))))
			}
		case "encoding/binary.Uvarint", "encoding/binary.Varint":
			if n := e.extTerm(call, 1); n != nil {
				add(e.leq(n, e.length(call.Args[0])))
				add(e.leq(e.mkInt(-10, nil), n))
				add(e.leq(n, e.mkInt(10, nil)))
			}
		case "encoding/binary.PutUvarint":
			add(e.leq(call, e.mkInt(10, nil)))
			add(e.leq(e.mkInt(1, nil), call))
		case "strings.Cut":
			// parts are no longer than the whole
			for i := 0; i < 2; i++ {
				if x := e.extTerm(call, i); x != nil {
					add(e.leq(e.length(x), e.length(call.Args[0])))
				}
			}
		}
		if t.Op == "copied" {
			add(e.leq(zero, t))
		}
		add(e.convAxioms(t))
		if e.useInv && e.nnCandidate(t) {
			add(e.leq(zero, t))
		}
	}
	for _, b := range bs {
		for _, v := range e.B.Support(b) {
			visit(e.atoms[v])
		}
	}
	if e.useInv {
		var is, ss []*Term
		for t := range seen {
			if e.nnCandidate(t) {
				is = append(is, t)
			}
			if (t.Op == "loopmem" || t.Op == "loopphi") && isSlice(t.T) {
				ss = append(ss, t)
			}
		}
		byID := func(x []*Term) { sort.Slice(x, func(i, j int) bool { return x[i].ID < x[j].ID }) }
		byID(is)
		byID(ss)
		for _, i := range is {
			for _, s := range ss {
				if sameLoopVar(i, s) && !e.noPair[[2]*Term{i, s}] {
					add(e.leq(i, e.length(s)))
				}
			}
		}
	}
	return out
}

// extTerm is result i of a multi-result call term.
func (e *Eng) extTerm(call *Term, i int) *Term {
	tu, ok := call.T.(*types.Tuple)
	if !ok || i >= tu.Len() {
		return nil
	}
	return e.wrapBool(e.mk("ext", fmt.Sprint(i), tu.At(i).Type(), nil, call))
}

func reGroups(pat string) int {
	n := 0
	for reGroup(pat, n+1) != "" {
		n++
		if n > 50 {
			break
		}
	}
	return n
}

func (e *Eng) bddOf(t *Term) BDD {
	if !isBool(t.T) {
		return False
	}
	return e.bdd(t)
}
