package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C24", "static effect and value analysis of the metric registry: injectivity of the series key, inverse decoding, guarded atomic map operations",
		"Every operation on the map of series of every function of the API: its key is an injective encoding (self-delimiting length and content of every label value, constant ones first, absence distinguished) computed from a private list, under the count check; entries are created with an atomic load-or-store and never removed. The decoder inverts the encoder field by field. Every registration stores the metric exactly when no metric of another kind has the name.", ruleC24)
	reg("C25", "static typestate and value analysis of the atomic operations on metric entries",
		"Every write to the value of an entry of every entry type: atomic, of the added value exactly once per call (compare-and-swap loops leave exactly after success with the sum of what was compared), and for cumulatives only under a positive increment. Reads load once and clamp at zero; derived reads report the function's result.", ruleC25)
	reg("C26", "static value analysis of the metric kinds against the table of the API",
		"For every kind of metric the registry offers: descriptor type, kind tag (distinct per kind), value type of points and of entry functions, start time, and that reading yields one series of one point per entry and one metric per registered metric.", ruleC26)
}

type mKind struct {
	t                 *types.Named
	add, op           *ssa.Function // Registry.AddX, GetEntry or UpsertEntry
	flt, cum, derived bool
	entry             *types.Named
}

type metricN struct {
	vals, desc, start, keys, consts, typ, regs, bm *types.Var
	kinds                                          []*mKind
}

// metricn finds the kinds of metric the registry offers.
func (c *Ctx) metricn() *metricN {
	p := "metric"
	n := &metricN{vals: c.field(p, "baseMetric", "vals"), desc: c.field(p, "baseMetric", "desc"), start: c.field(p, "baseMetric", "start"),
		keys: c.field(p, "baseMetric", "keys"), consts: c.field(p, "baseMetric", "constLabelValues"), typ: c.field(p, "baseMetric", "bmType"),
		regs: c.field(p, "Registry", "baseMetrics")}
	if c.failed() {
		return n
	}
	for _, f := range c.pkgFuncs(p) {
		sg := f.Signature
		if sg.Recv() == nil || !typeIs(sg.Recv().Type(), "Registry") || !f.Object().Exported() || sg.Results().Len() != 2 {
			continue
		}
		nt, ok := deref(sg.Results().At(0).Type()).(*types.Named)
		if !ok || !strings.HasPrefix(f.Name(), "Add") {
			continue
		}
		k := &mKind{t: nt, add: f}
		nm := f.Name()
		k.flt, k.cum, k.derived = strings.Contains(nm, "Float64"), strings.Contains(nm, "Cumulative"), strings.Contains(nm, "Derived")
		for _, m := range []string{"GetEntry", "UpsertEntry"} {
			if g := c.methodOf(types.NewPointer(nt), m); g != nil {
				k.op = g
			}
		}
		if k.op == nil {
			c.bad("kinds", nm, c.W.position(f.Pos()), "%s has no operation that makes entries", nt.Obj().Name())
			continue
		}
		n.kinds = append(n.kinds, k)
	}
	c.floor("kinds", "kinds of metric", len(n.kinds), 8)
	// the entries each kind makes
	for _, k := range n.kinds {
		r := c.run(k.op, c.stdLoads())
		for _, ef := range n.ops(r) {
			for _, a := range ef.Args[1:] {
				if u := unif(a); u != a || u.Op == "alloc" {
					if nt, ok := deref(u.T).(*types.Named); ok && isStructT(nt) {
						if k.entry != nil && k.entry != nt {
							c.bad("kinds", k.t.Obj().Name()+":entries", c.pos(ef), "%s makes entries of types %s and %s", name(r), k.entry, nt)
						}
						k.entry = nt
					}
				}
			}
		}
		c.need(k.entry != nil, "kinds", k.t.Obj().Name()+":entry", c.fpos(r), "%s stores no entry", name(r))
	}
	return n
}

func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// ops: the operations on the map of series.
func (n *metricN) ops(r *Run) []*Effect {
	return r.where("call", func(ef *Effect) bool {
		return strings.HasPrefix(ef.Name, "(*sync.Map).") && addrField(ef.Args[0]) == n.vals
	})
}

func ruleC24(c *Ctx) {
	n := c.metricn()
	if c.failed() {
		return
	}
	lv, lp := c.field("metric/metricdata", "LabelValue", "Value"), c.field("metric/metricdata", "LabelValue", "Present")
	if c.failed() {
		return
	}
	var codes []*labelCode
	nops := 0
	derived := map[*types.Named]bool{}
	for _, k := range n.kinds {
		derived[k.entry] = k.derived
	}
	for _, f := range c.roots("metric") {
		r := c.run(f, c.stdLoads())
		for _, ef := range n.ops(r) {
			m := strings.TrimPrefix(ef.Name, "(*sync.Map).")
			key := name(r) + ":" + m
			switch m {
			case "Range":
				continue
			case "Load", "LoadOrStore", "Store", "Swap":
			default:
				c.need(false, "entries", key, c.pos(ef), "%s removes or conditionally replaces a series with %s: a concurrent read misses it or an update is lost", name(r), m)
				continue
			}
			nops++
			cd := c24key(c, n, r, ef, unif(ef.Args[1]), lv, lp, key)
			if cd != nil {
				codes = append(codes, cd)
			}
			switch m {
			case "Store", "Swap":
				u := unif(ef.Args[2])
				nt, _ := deref(u.T).(*types.Named)
				c.need(isFresh(rootOf(u)) && derived[nt], "entries", key+":kept", c.pos(ef), "%s replaces an entry that callers update: what they add afterwards is lost", name(r))
			case "LoadOrStore":
				c.need(isFresh(rootOf(unif(ef.Args[2]))), "entries", key+":fresh", c.pos(ef), "%s stores an entry that is not new: %s", name(r), c.S(ef.Args[2]))
			}
		}
	}
	c.floor("entries", "operations on the map of series", nops, 8)
	for _, k := range n.kinds {
		c24op(c, n, k)
		c24add(c, n, k)
	}
	c24decode(c, n, codes, lv, lp)
}

// labelCode is what the analysis found out about the encoding of one list.
type labelCode struct {
	kind string // uvarint
	off  int64  // length header of a present value = len + off
}

// c24key: the key of a map operation encodes every label value injectively.
func c24key(c *Ctx, n *metricN, r *Run, ef *Effect, key *Term, lv, lp *types.Var, what string) *labelCode {
	e := c.E
	p := c.pos(ef)
	k := unconv(key)
	ph := loopPhiOf(r, k)
	if !c.need(ph != nil && ph.L.Kind == "slice" && ph.L.Full && e.loopDone(ph.L), "key", what+":form", p, "the key is not computed by one complete pass over the label values: %s", c.S(k)) {
		return nil
	}
	l := ph.L
	// the list: constant labels, then the given ones; a private one
	parts := sliceParts(e, r, l.Coll)
	recv, given := r.param(0), r.param(len(r.Root.params)-1)
	okp := len(parts) == 2 && isField(e.wholeSlice(parts[0]), n.consts, nil) && contains(parts[0], func(t *Term) bool { return t == recv }) && parts[1] == given
	c.need(okp, "key", what+":values", p, "the series is identified by %s, not by the constant label values followed by the given ones", c.S(l.Coll))
	c.need(privateAppend(e, r, l.Coll), "key", what+":private", p, "the label values are appended to the shared list of constant label values: concurrent calls overwrite each other's labels: %s", c.S(l.Coll))
	cnt := e.ld(e.fa(n.bmOf(e, r), n.keys))
	c.need(e.sameLin(ef.PC, e.length(l.Coll), e.length(cnt)), "key", what+":count", p, "the series is accessed although the number of label values may differ from the number of label keys: if %s", c.P(ef.PC))
	c.need(ph.Init != nil && constInt(e.length(ph.Init), 0), "key", what+":start", p, "the key starts as %s", c.S(ph.Init))
	cd := &labelCode{}
	good := true
	for i, b := range ph.Back {
		bc := True
		if i < len(ph.BPC) {
			bc = ph.BPC[i]
		}
		for _, g := range e.cases(b) {
			cc := e.all(bc, g.C)
			el := elemOf(l, e)
			contains(g.T, func(t *Term) bool {
				if t.Op == "ld" && types.Identical(t.T, el.T) && isElemOf(t, l) {
					el = t
				}
				return false
			})
			pres := e.bdd(e.partOf(el, lp))
			for _, q := range []BDD{pres, e.not(pres)} {
				qc := e.all(cc, q)
				if e.decide(qc, False) == 1 {
					continue
				}
				if !c24item(c, r, ph, qc, e.under(g.T, qc), el, q == pres, lv, cd, p, what) {
					good = false
				}
			}
		}
	}
	if !good {
		return nil
	}
	return cd
}

func elemOf(l *LoopCtx, e *Eng) *Term {
	t := l.Coll.T.Underlying().(*types.Slice).Elem()
	return e.ld(e.indexAddr(l.Coll, l.Iter, t))
}

func (n *metricN) bmOf(e *Eng, r *Run) *Term {
	recv := r.param(0)
	st := deref(recv.T).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isStructT(st.Field(i).Type()) && ownerHas(st.Field(i).Type(), n.vals) {
			return e.fa(recv, st.Field(i))
		}
	}
	return recv
}

func ownerHas(t types.Type, f *types.Var) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return true
		}
	}
	return false
}

// wholeSlice: a slice of all elements is the slice itself.
func (e *Eng) wholeSlice(t *Term) *Term {
	for t.Op == "slice" {
		lo, hi := sliceBounds(t)
		if lo != nil && !constInt(lo, 0) || hi != nil && hi != e.length(t.Args[0]) {
			break
		}
		t = t.Args[0]
	}
	return t
}

// privateAppend: appending cannot write into the backing array of an existing list.
func privateAppend(e *Eng, r *Run, t *Term) bool {
	if lp := loopPhiOf(r, t); lp != nil && lp.Init != nil {
		for _, b := range lp.Back {
			for b.Op == "append" {
				b = b.Args[0]
			}
			if b != lp.Term {
				return false
			}
		}
		return privateInit(e, lp.Init) && privateAppend(e, r, lp.Init)
	}
	for t.Op == "append" {
		if len(t.Args) > 1 {
			b := t.Args[0]
			if b.Op != "append" && !constInt(e.length(b), 0) && !isFresh(rootOf(b)) {
				// a full slice expression without spare capacity
				if !(b.Op == "slice" && len(b.Args) > 3 && b.Args[3] != nil && b.Args[2] == b.Args[3]) {
					return false
				}
			}
			if constInt(e.length(b), 0) && b.Op == "slice" && !isFresh(rootOf(b)) {
				return false
			}
		}
		t = t.Args[0]
	}
	return true
}

// privateInit: a list that may be appended to.
func privateInit(e *Eng, t *Term) bool {
	return t.Op == "append" || t.Op == "loopphi" || isFresh(rootOf(t)) || e.isNil(t) == True
}

// pieces: what is appended to base.
func pieces(t, base *Term) ([]*Term, bool) {
	if t == base {
		return nil, true
	}
	switch t.Op {
	case "append":
		p, ok := pieces(t.Args[0], base)
		return append(p, t.Args[1:]...), ok
	case "bcat":
		p, ok := pieces(t.Args[0], base)
		return append(p, t.Args[1:]...), ok
	}
	return nil, false
}

func c24item(c *Ctx, r *Run, ph *LoopPhi, cc BDD, t, el *Term, present bool, lv *types.Var, cd *labelCode, p, what string) bool {
	e := c.E
	ps, ok := pieces(t, ph.Term)
	if !c.need(ok && len(ps) > 0, "key", what+":item", p, "a label value that is present=%v adds nothing self-delimiting to the key: %s (if %s)", present, c.S(t), c.P(cc)) {
		return false
	}
	// the header
	h := ps[0]
	if h.Op == "spread" {
		h = h.Args[0]
	}
	var x *Term
	if _, isc := h.intVal(); isc && len(ps[0].Args) == 0 {
		x = h
	} else if h.Op == "slice" {
		lo, hi := sliceBounds(h)
		at, _ := deref(h.Args[0].T).Underlying().(*types.Array)
		if lo == nil && hi != nil && isCallTo(hi, "encoding/binary.PutUvarint") && rootOf(hi.Args[0]) == rootOf(h) && at != nil && at.Len() >= 10 {
			x = hi.Args[1]
		}
	}
	if !c.need(x != nil, "key", what+":delimited", p, "a label value (present=%v) is not preceded by a self-delimiting length of any size: %s", present, c.S(ps[0])) {
		return false
	}
	cd.kind = "uvarint"
	x = e.under(unconv(x), cc)
	ln := e.length(e.partOf(el, lv))
	if !present {
		return c.need(len(ps) == 1 && constInt(x, 0), "key", what+":absent", p, "an absent label value is encoded as %s", c.S(t))
	}
	d := e.toLin(x).add(e.toLin(ln), -1)
	if !c.need(len(d.co) == 0 && d.k >= 1, "key", what+":length", p, "a present label value is preceded by %s, which does not tell its length (and from an absent value)", c.S(x)) {
		return false
	}
	if cd.off != 0 && cd.off != d.k {
		return c.need(false, "key", what+":length", p, "lengths are encoded in two ways")
	}
	cd.off = d.k
	v := ps[len(ps)-1]
	if v.Op == "spread" {
		v = v.Args[0]
	}
	return c.need(len(ps) == 2 && e.same(cc, unconv(v), e.partOf(el, lv)), "key", what+":content", p, "a present label value is encoded with the content %s", c.S(v))
}

// c24op: GetEntry and UpsertEntry fail exactly for a wrong number of values or
// a nil function, and otherwise hand out what the map holds.
func c24op(c *Ctx, n *metricN, k *mKind) {
	e := c.E
	r := c.run(k.op, c.stdLoads())
	p, nm := c.fpos(r), name(r)
	bm := n.bmOf(e, r)
	all := e.fromLin(e.toLin(e.length(e.ld(e.fa(bm, n.consts)))).add(e.toLin(e.length(r.param(len(r.Root.params)-1))), 1), types.Typ[types.Int])
	valid := e.eq(all, e.length(e.ld(e.fa(bm, n.keys))))
	if k.derived {
		valid = e.all(valid, e.not(e.isNil(r.param(1))))
	}
	errT := r.Rets[len(r.Rets)-1]
	okc := e.isNilx(errT)
	c.need(e.implies(valid, okc), "errors", nm+":valid", p, "%s reports an error for a matching number of label values: succeeds if %s", nm, c.P(okc))
	c.need(e.implies(okc, valid), "errors", nm+":mismatch", p, "%s reports no error for a wrong number of label values or a nil function: succeeds if %s", nm, c.P(okc))
	stored := False
	for _, ef := range n.ops(r) {
		if m := ef.Name; strings.HasSuffix(m, ").Store") || strings.HasSuffix(m, ").Swap") || strings.HasSuffix(m, ").LoadOrStore") {
			stored = e.any(stored, ef.PC)
		}
		c.need(e.once(ef), "entries", nm+":loop", c.pos(ef), "%s accesses the series in a loop", nm)
	}
	if k.derived {
		c.need(e.implies(valid, stored), "entries", nm+":stored", p, "%s succeeds without storing the entry: stores if %s", nm, c.P(stored))
		return
	}
	for _, g := range e.cases(r.Rets[0]) {
		cc := e.all(g.C, valid)
		if e.decide(cc, False) == 1 {
			continue
		}
		u := unif(g.T)
		for u.Op == "ta" {
			u = u.Args[0]
		}
		ok := u.Op == "ext" && isCallTo(u.Args[0], "(*sync.Map).Load", "(*sync.Map).LoadOrStore")
		if ok && isCallTo(u.Args[0], "(*sync.Map).Load") {
			found := e.bdd(e.extTerm(u.Args[0], 1))
			ok = e.decide(cc, found) == 1
		}
		c.need(ok, "entries", nm+":shared", p, "%s hands out %s, which is not the entry the map holds: concurrent callers with equal label values get different entries", nm, c.S(g.T))
	}
}

func (e *Eng) isNilx(t *Term) BDD {
	out := False
	for _, g := range e.cases(t) {
		out = e.any(out, e.all(g.C, e.isNil(g.T)))
	}
	return out
}

// c24add: the metric is registered under its name exactly if no metric of
// another kind has the name; constant labels come first, in step.
func c24add(c *Ctx, n *metricN, k *mKind) {
	e := c.E
	r := c.run(k.add, c.stdLoads())
	p, nm := c.fpos(r), name(r)
	st := r.where("call", func(ef *Effect) bool {
		return strings.HasPrefix(ef.Name, "(*sync.Map).") && addrField(ef.Args[0]) == n.regs
	})
	var store, load *Effect
	for _, ef := range st {
		switch strings.TrimPrefix(ef.Name, "(*sync.Map).") {
		case "Store":
			c.need(store == nil, "register", nm+":once", c.pos(ef), "%s stores two metrics", nm)
			store = ef
		case "Load":
			load = ef
		default:
			c.need(false, "register", nm+":op", c.pos(ef), "%s changes the registry with %s", nm, ef.Name)
		}
	}
	if !c.need(store != nil && load != nil, "register", nm, p, "%s does not look up and store the metric by name", nm) {
		return
	}
	nameP := r.param(1)
	c.need(unif(store.Args[1]) == nameP && unif(load.Args[1]) == nameP, "register", nm+":name", c.pos(store), "%s registers the metric under %s, looked up as %s", nm, c.S(store.Args[1]), c.S(load.Args[1]))
	bm := unif(store.Args[2])
	own := r.final(e.fa(bm, n.typ))
	own = e.under(own, store.PC)
	found := e.bdd(e.extTerm(resultTerm(load), 1))
	// the kind of the metric found
	var other *Term
	for _, a := range e.atomsOf(e.all(store.PC)) {
		contains(a, func(t *Term) bool {
			if isField(t, n.typ, nil) && contains(t, func(x *Term) bool { return x == resultTerm(load) }) {
				other = t
			}
			return false
		})
	}
	okc := e.isNilx(r.Rets[1])
	if c.need(other != nil, "register", nm+":kind", c.pos(store), "%s does not compare the kind of the metric with that name: stores if %s", nm, c.P(store.PC)) {
		want := e.any(e.not(found), e.eq(other, own))
		c.need(e.equiv(store.PC, want), "register", nm+":guard", c.pos(store), "%s registers the metric if %s, not if there is none of another kind by that name", nm, c.P(store.PC))
		c.need(e.equiv(okc, want), "register", nm+":error", p, "%s succeeds if %s", nm, c.P(okc))
	}
	// the metric registered is the one returned
	for _, g := range e.cases(r.Rets[0]) {
		if e.decide(e.all(g.C, okc), False) == 1 {
			c.need(e.decide(e.all(g.C, e.not(okc)), e.isNil(g.T)) == 1 || g.C == False, "register", nm+":nil", p, "%s returns a metric with an error", nm)
			continue
		}
		c.need(rootOf(bm) == rootOf(g.T) && isFresh(rootOf(bm)), "register", nm+":same", p, "%s registers %s but returns %s", nm, c.S(bm), c.S(g.T))
	}
	// labels
	keys, consts := e.under(r.final(e.fa(bm, n.keys)), store.PC), e.under(r.final(e.fa(bm, n.consts)), store.PC)
	kp := sliceParts(e, r, keys)
	if !c.need(len(kp) == 2 && isField(kp[1], c.field("metric", "metricOptions", "labelkeys"), nil), "labels", nm+":keys", p, "the label keys are %s, not the constant labels' keys followed by the given ones", c.S(keys)) {
		return
	}
	cm := c.field("metric", "metricOptions", "constLabels")
	cl := kp[0]
	c.need(privateAppend(e, r, keys) || allKeysAny(e, r, cl, cm) != nil, "labels", nm+":private", p, "the label keys are appended to a shared list")
	m := allKeysAny(e, r, cl, cm)
	c.need(m != nil, "labels", nm+":all", p, "the constant labels' keys are not all the keys of the constant labels: %s", c.S(cl))
	ph := loopPhiOf(r, consts)
	ok := ph != nil && ph.L.Kind == "slice" && ph.L.Coll == cl && ph.L.Full && e.loopDone(ph.L) && len(ph.Back) == 1 && constInt(e.length(ph.Init), 0)
	if ok {
		ps, ok2 := pieces(ph.Back[0], ph.Term)
		ok = ok2 && len(ps) == 1 && ps[0].Op == "mapval" && ps[0].Args[0] == m && isElemOf(ps[0].Args[1], ph.L) && inOrder(ps[0].Args[1], ph.L)
	}
	if c.need(ok, "labels", nm+":values", p, "the constant label values %s are not, one by one, the values of the constant labels' keys", c.S(consts)) {
		// nothing reorders the keys after the values were taken
		first := -1
		for _, ef := range r.Effects {
			for _, l := range ef.Loops {
				if l == ph.L && (first < 0 || ef.Seq < first) {
					first = ef.Seq
				}
			}
		}
		for _, ef := range r.where("call", nil) {
			if first >= 0 && ef.Seq > first && !strings.HasPrefix(ef.Name, "(*sync.Map)") {
				for _, a := range ef.Args {
					c.need(!contains(a, func(t *Term) bool { return t == cl }), "labels", nm+":order", c.pos(ef), "%s may reorder the constant label keys after their values were taken", ef.Name)
				}
			}
		}
	}
}

func resultTerm(ef *Effect) *Term { return ef.Result }

// allKeysAny: the list holds all keys of a map read from the field.
func allKeysAny(e *Eng, r *Run, t *Term, f *types.Var) *Term {
	for _, l := range r.Loops {
		if l.Kind == "map" && l.Coll != nil && isField(l.Coll, f, nil) && allKeysOf(e, r, t, l.Coll) {
			return l.Coll
		}
	}
	return nil
}

// callback analyses the function value handed to a call, with its captured
// variables as they are at the call.
func (c *Ctx) callback(r *Run, ef *Effect, cl *Term, o Opts) *Run {
	f := calleeOf(cl)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	var args []*Term
	for i := range f.Params {
		args = append(args, c.E.param(f, i))
	}
	var free []*Term
	if cl.Op == "closure" {
		free = cl.Args
	}
	// the captured variables as the call may leave them
	cr := c.E.AnalyseWith(f, args, free, r.Final, o)
	c.note(cr)
	return cr
}

// readerOf finds the function that reads a metric: it ranges over the series.
func (n *metricN) reader(c *Ctx) (*Run, *Effect, *Run) {
	for _, f := range c.pkgFuncs("metric") {
		if f.Parent() != nil {
			continue
		}
		o := c.stdLoads()
		o.Inline = func(g *ssa.Function) bool { return false }
		has := false
		c.instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && fnName(g) == "(*sync.Map).Range" {
					has = true
				}
			}
		})
		if !has {
			continue
		}
		r := c.run(f, c.stdLoads())
		for _, ef := range n.ops(r) {
			if strings.HasSuffix(ef.Name, ").Range") {
				cr := c.callback(r, ef, ef.Args[1], c.stdLoads())
				if cr != nil {
					return r, ef, cr
				}
			}
		}
	}
	c.bad("read", "reader", "-", "no function reads the series of a metric")
	return nil, nil, nil
}

// c24decode: the labels reported with a series are the ones it was stored
// under: the inverse of the encoder.
func c24decode(c *Ctx, n *metricN, codes []*labelCode, lv, lp *types.Var) {
	e := c.E
	off := int64(0)
	for _, cd := range codes {
		if off != 0 && cd.off != off {
			c.need(false, "decode", "codes", "-", "series are stored under different encodings")
		}
		off = cd.off
	}
	if off == 0 {
		return
	}
	r, _, cr := n.reader(c)
	if r == nil {
		return
	}
	tv := c.field("metric/metricdata", "TimeSeries", "LabelValues")
	if c.failed() {
		return
	}
	ns := 0
	for _, ef := range cr.storesTo(tv) {
		ns++
		p := c.pos(ef)
		pe := c.perElem(cr, ef.Val)
		keyed := func(l *LoopCtx) bool { // one iteration per label key
			if isField(l.Coll, n.keys, nil) {
				return true
			}
			lf := e.toLin(e.length(l.Coll))
			for a, k := range lf.co {
				return len(lf.co) == 1 && lf.k == 0 && k == 1 && a.Op == "len" && isField(a.Args[0], n.keys, nil)
			}
			return false
		}
		if !c.need(pe != nil && e.loopDone(pe.L) && pe.L.Coll != nil && keyed(pe.L), "decode", "form", p, "the label values of a series are not decoded one per label key: %s", c.S(ef.Val)) {
			continue
		}
		l := pe.L
		// the read of the length header
		var hd *Effect
		for _, x := range cr.calls("encoding/binary.Uvarint") {
			if len(x.Loops) > 0 && x.Loops[len(x.Loops)-1] == l {
				c.need(hd == nil, "decode", "one-header", c.pos(x), "a label value is decoded with two length headers")
				hd = x
			}
		}
		if !c.need(hd != nil, "decode", "header", p, "the length header of a label value is not decoded") {
			continue
		}
		c.need(e.everyIter(hd, l), "decode", "header-always", c.pos(hd), "the length header is read only if %s", c.P(hd.PC))
		size, k := e.extTerm(hd.Result, 0), e.extTerm(hd.Result, 1)
		rest := hd.Args[0]
		// the position in the key: a shrinking slice or an index
		var pp *LoopPhi
		base := rest
		if q := loopPhiOf(cr, rest); q != nil && q.L == l {
			pp = q
			c.need(isKeyParam(unconv(q.Init), cr), "decode", "source", c.pos(hd), "label values are decoded from %s, not from the series' key", c.S(q.Init))
		} else if rest.Op == "slice" {
			lo, hi := sliceBounds(rest)
			if lo != nil && hi == nil {
				if q := loopPhiOf(cr, lo); q != nil && q.L == l && constInt(q.Init, 0) {
					pp = q
					c.need(isKeyParam(unconv(rest.Args[0]), cr), "decode", "source", c.pos(hd), "label values are decoded from %s, not from the series' key", c.S(rest))
				}
			}
		}
		if !c.need(pp != nil, "decode", "position", c.pos(hd), "a label value is decoded from %s, which does not advance through the key", c.S(rest)) {
			continue
		}
		T := types.Typ[types.Int]
		zero := e.eq(size, e.mkInt(0, size.T))
		content := e.fromLin(e.toLin(size).add(e.toLin(e.mkInt(off, T)), -1), T)
		endAbsent, endPresent := k, e.fromLin(e.toLin(k).add(e.toLin(content), 1), T)
		plain := func(x *Term) *Term { // without widening of the decoded length
			if x == nil {
				return nil
			}
			lf := e.toLin(x)
			out := e.toLin(e.mkInt(lf.k, T))
			for a, k := range lf.co {
				y := a
				if stripConv(a) == size {
					y = size
				}
				out = out.add(e.toLin(y), k)
			}
			return e.fromLin(out, T)
		}
		// offset of a slice of the key relative to rest
		rel := func(x *Term) (lo, hi *Term, ok bool) {
			if x == base {
				return e.mkInt(0, T), nil, true
			}
			if x.Op != "slice" {
				return nil, nil, false
			}
			b := x.Args[0]
			lo, hi = sliceBounds(x)
			if lo == nil {
				lo = e.mkInt(0, T)
			}
			if b == base {
				return lo, hi, true
			}
			if base.Op == "slice" && b == base.Args[0] {
				d := e.toLin(base.Args[1])
				lo = e.fromLin(e.toLin(lo).add(d, -1), T)
				if hi != nil {
					hi = e.fromLin(e.toLin(hi).add(d, -1), T)
				}
				return lo, hi, true
			}
			return nil, nil, false
		}
		each := func(q *LoopPhi, f func(cc BDD, t *Term, absent bool)) {
			for i, b := range q.Back {
				bc := e.all(l.Entry, l.More)
				if i < len(q.BPC) {
					bc = q.BPC[i]
				}
				for _, g := range e.cases(b) {
					for _, ab := range []bool{true, false} {
						z := zero
						if !ab {
							z = e.not(zero)
						}
						cc := e.all(bc, g.C, z)
						if e.decide(cc, False) != 1 {
							f(cc, e.under(g.T, cc), ab)
						}
					}
				}
			}
		}
		each(pp, func(cc BDD, t *Term, ab bool) {
			want := endPresent
			if ab {
				want = endAbsent
			}
			var lo *Term
			if isInt(t.T) {
				lo = e.fromLin(e.toLin(t).add(e.toLin(pp.Term), -1), T)
			} else {
				x, hi, ok := rel(t)
				if !ok || hi != nil {
					c.need(false, "decode", "advance", p, "after a label value decoding goes on with %s", c.S(t))
					return
				}
				lo = x
			}
			c.need(e.sameLin(cc, plain(lo), want), "decode", "advance", p, "after a label value (present=%v) decoding goes on at %s, not at its end %s", !ab, c.S(lo), c.S(want))
		})
		pt, ok1 := pe.El(lp)
		vt, ok2 := pe.El(lv)
		if !c.need(ok1 && ok2, "decode", "item", p, "decoding a label value appends %s", c.S(ef.Val)) {
			continue
		}
		for _, ab := range []bool{true, false} {
			z := zero
			if !ab {
				z = e.not(zero)
			}
			cc := e.all(pe.PC, z)
			if e.decide(cc, False) == 1 {
				continue
			}
			pres := e.bdd(e.under(pt, cc))
			for _, g := range e.cases(e.under(vt, cc)) {
				gc := e.all(cc, g.C)
				if e.decide(gc, False) == 1 {
					continue
				}
				if ab {
					s, isc := g.T.strVal()
					c.need(e.decide(gc, e.not(pres)) == 1 && isc && s == "", "decode", "absent", p, "an absent label value is decoded as %s", c.S(g.T))
					continue
				}
				lo, hi, ok := rel(unconv(g.T))
				c.need(e.decide(gc, pres) == 1 && ok && hi != nil && e.sameLin(gc, plain(lo), k) && e.sameLin(gc, plain(hi), endPresent), "decode", "present", p, "a present label value is decoded as %s", c.S(g.T))
			}
		}
	}
	c.floor("decode", "label values of series", ns, 1)
}

func isKeyParam(t *Term, cr *Run) bool {
	for t.Op == "ta" || t.Op == "ext" {
		t = t.Args[0]
	}
	return t == cr.param(0) || len(cr.Root.params) > 1 && t == cr.param(len(cr.Root.params)-2)
}

// ---------- C25 ----------

// casLoop: the compare-and-swap is repeated until it succeeds, and not after.
func (e *Eng) casLoop(r *Run, cas *Effect) (bool, string) {
	if len(cas.Loops) == 0 {
		return false, "it is tried only once"
	}
	l := cas.Loops[len(cas.Loops)-1]
	done := e.bdd(cas.Result)
	outer := e.not(done)
	if !e.everyIter(cas, l) && e.decide(e.all(l.Entry, l.More), cas.PC) != 1 {
		return false, "an iteration skips it"
	}
	// the condition of going on after an iteration
	for i, b := range l.BackPC {
		cont := b
		var ph *LoopPhi
		for _, q := range l.phis {
			if q.Term != nil && isBool(q.Term.T) && e.dependsOn(l.More, q.Term) {
				ph = q
			}
		}
		if ph != nil {
			x := e.bdd(ph.Term)
			on, off := e.restrict(l.More, x), e.restrict(l.More, e.not(x))
			if i < len(ph.Back) {
				nb := e.bdd(ph.Back[i])
				again := e.any(e.all(nb, on), e.all(e.not(nb), off))
				cont = e.all(b, again)
				if !e.implies(e.all(b, e.not(again)), done) {
					return false, "it is given up although it did not succeed"
				}
			}
			ib := e.bdd(ph.Init)
			if !e.implies(l.Entry, e.any(e.all(ib, on), e.all(e.not(ib), off))) {
				return false, "it may not be tried at all"
			}
		}
		if !e.implies(cont, outer) {
			return false, "it is repeated after it succeeded"
		}
	}
	for _, x := range l.early {
		if !e.implies(x, done) {
			return false, "it is given up although it did not succeed"
		}
	}
	// no other way out, such as a limit
	flag := false
	for _, q := range l.phis {
		flag = flag || q.Term != nil && isBool(q.Term.T) && e.dependsOn(l.More, q.Term) && e.implies(e.not(l.More), e.any(e.bdd(q.Term), done)) || q.Term != nil && isBool(q.Term.T) && e.dependsOn(l.More, q.Term) && e.implies(e.not(l.More), e.any(e.not(e.bdd(q.Term)), done))
	}
	if !flag && !e.implies(e.all(l.Entry, e.not(l.More)), done) {
		return false, "it is given up after some attempts"
	}
	return true, ""
}

// restrict: what is left of the condition once a literal holds.
func (e *Eng) restrict(b, lit BDD) BDD {
	out := e.all(b, lit)
	for _, v := range e.B.Support(lit) {
		out = e.B.Exists(out, v)
	}
	return out
}

// dependsOn: the condition mentions the boolean.
func (e *Eng) dependsOn(b BDD, t *Term) bool {
	for _, a := range e.atomsOf(b) {
		if a == t {
			return true
		}
	}
	return false
}

func ruleC25(c *Ctx) {
	n := c.metricn()
	if c.failed() {
		return
	}
	e := c.E
	nw := map[*mKind]int{}
	for _, k := range n.kinds {
		if k.entry == nil {
			continue
		}
		if k.derived {
			c25derived(c, k)
			continue
		}
		st := k.entry.Underlying().(*types.Struct)
		if !c.need(st.NumFields() == 1, "value", k.entry.Obj().Name(), "-", "entries of type %s have several fields", k.entry.Obj().Name()) {
			continue
		}
		val := st.Field(0)
		kn := k.entry.Obj().Name()
		for _, f := range c.roots("metric") {
			r := c.run(f, c.stdLoads())
			var ws []*Effect
			for _, ef := range r.Effects {
				switch {
				case ef.Kind == "store" && addrField(ef.Addr) == val && !isFresh(rootOf(ef.Addr)):
					c.need(false, "atomic", name(r), c.pos(ef), "%s writes the value of an entry without an atomic operation", name(r))
				case ef.Kind == "call" && strings.HasPrefix(ef.Name, "sync/atomic.") && len(ef.Args) > 0 && addrField(ef.Args[0]) == val:
					if !strings.HasPrefix(ef.Name, "sync/atomic.Load") {
						ws = append(ws, ef)
					}
				}
			}
			if len(ws) == 0 {
				continue
			}
			nw[k]++
			p, fnm := c.fpos(r), name(r)
			if !c.need(len(r.Root.params) == 2, "write", fnm+":form", p, "%s changes the value of entries of type %s", fnm, kn) {
				continue
			}
			x := r.param(1)
			pos := e.gtZero(x)
			cov := False
			adds := false
			for _, ef := range ws {
				op := strings.TrimPrefix(ef.Name, "sync/atomic.")
				cov = e.any(cov, e.dropLoops(ef))
				for _, w := range ws {
					if w != ef {
						c.need(e.decide(e.all(e.dropLoops(w), e.dropLoops(ef)), False) == 1, "write", fnm+":once", c.pos(ef), "%s changes the value twice", fnm)
					}
				}
				switch {
				case strings.HasPrefix(op, "Add"):
					adds = true
					c.need(e.once(ef), "write", fnm+":loop", c.pos(ef), "%s adds in a loop", fnm)
					c.need(!k.flt && e.same(ef.PC, unconv(ef.Args[1]), x), "write", fnm+":amount", c.pos(ef), "%s adds %s, not the given amount", fnm, c.S(ef.Args[1]))
				case strings.HasPrefix(op, "CompareAndSwap"):
					adds = true
					ok, why := e.casLoop(r, ef)
					c.need(ok, "write", fnm+":retry", c.pos(ef), "%s does not retry the compare-and-swap exactly until it succeeds: %s", fnm, why)
					old := ef.Args[1]
					ld := false
					for _, y := range r.Effects {
						if y.Kind == "call" && strings.HasPrefix(y.Name, "sync/atomic.Load") && addrField(y.Args[0]) == val && len(y.Loops) > 0 && y.Loops[len(y.Loops)-1] == ef.Loops[len(ef.Loops)-1] && y.Seq < ef.Seq && (y.Result == old || isField(old, val, nil)) {
							ld = true
						}
					}
					c.need(ld, "write", fnm+":old", c.pos(ef), "%s compares with %s, which is not read in the same attempt", fnm, c.S(old))
					c.need(e.isSum(unconv(ef.Args[2]), old, x, k.flt), "write", fnm+":amount", c.pos(ef), "%s replaces the value by %s, not by the sum of what it compared with and the given amount", fnm, c.S(ef.Args[2]))
				case strings.HasPrefix(op, "Store"), strings.HasPrefix(op, "Swap"):
					c.need(!k.cum, "monotone", fnm+":set", c.pos(ef), "%s sets the value of a cumulative, which can lower it", fnm)
					c.need(len(ef.Loops) == 0 && e.isBits(ef.Args[1], x, k.flt), "write", fnm+":value", c.pos(ef), "%s stores %s, not the given value", fnm, c.S(ef.Args[1]))
				default:
					c.need(false, "write", fnm+":op", c.pos(ef), "%s changes the value with %s", fnm, ef.Name)
				}
			}
			if k.cum {
				c.need(e.implies(cov, pos), "monotone", fnm, p, "%s changes a cumulative although the increment may not be positive: if %s", fnm, c.P(cov))
				c.need(e.implies(pos, cov), "write", fnm+":always", p, "%s ignores positive increments: adds if %s", fnm, c.P(cov))
			} else if adds {
				nz := e.not(e.eq(x, e.zero(x.T)))
				c.need(e.implies(nz, cov), "write", fnm+":always", p, "%s ignores some amounts: adds if %s", fnm, c.P(cov))
			} else {
				c.need(e.implies(True, cov), "write", fnm+":always", p, "%s ignores some values: sets if %s", fnm, c.P(cov))
			}
		}
		c25read(c, k, val)
	}
	for _, k := range n.kinds {
		if !k.derived {
			want := 1
			if !k.cum {
				want = 2
			}
			c.floor("write", "operations that change entries of "+k.t.Obj().Name(), nw[k], want)
		}
	}
}

// dropLoops: the condition under which an effect happens at least once.
func (e *Eng) dropLoops(ef *Effect) BDD {
	b := ef.PC
	if len(ef.Loops) > 0 {
		b = ef.Loops[0].Entry
	}
	return b
}

// gtZero: a number is greater than zero (NaN is not).
func (e *Eng) gtZero(x *Term) BDD {
	if isInt(x.T) {
		return e.not(e.leq(x, e.mkInt(0, x.T)))
	}
	return e.lessF(e.zero(x.T), x)
}

// isBits: t is the representation of x in an atomic word.
func (e *Eng) isBits(t, x *Term, flt bool) bool {
	t = unif(t)
	if flt {
		return isCallTo(t, "math.Float64bits") && t.Args[0] == x
	}
	return unconv(t) == x
}

// isSum: t represents old + x.
func (e *Eng) isSum(t, old, x *Term, flt bool) bool {
	if !flt {
		d := e.toLin(t).add(e.toLin(old), -1).add(e.toLin(x), -1)
		return len(d.co) == 0 && d.k == 0
	}
	if !isCallTo(t, "math.Float64bits") {
		return false
	}
	s := t.Args[0]
	if s.Op != "arith" || s.Aux != "+" {
		return false
	}
	fb := func(a *Term) bool { return isCallTo(a, "math.Float64frombits") && a.Args[0] == old }
	return s.Args[0] == x && fb(s.Args[1]) || s.Args[1] == x && fb(s.Args[0])
}

// point takes apart the points a read function returns.
func (c *Ctx) point(r *Run) (val, tm *Term) {
	e := c.E
	vf, tf := c.field("metric/metricdata", "Point", "Value"), c.field("metric/metricdata", "Point", "Time")
	if c.failed() || len(r.Rets) != 1 {
		return nil, nil
	}
	return e.partOf(r.Rets[0], vf), e.partOf(r.Rets[0], tf)
}

func c25read(c *Ctx, k *mKind, val *types.Var) {
	e := c.E
	f := c.methodOf(types.NewPointer(k.entry), "read")
	if f == nil {
		c.bad("read", k.entry.Obj().Name(), "-", "entries of type %s cannot be read", k.entry.Obj().Name())
		return
	}
	r := c.run(f, c.stdLoads())
	p, nm := c.fpos(r), name(r)
	v, _ := c.point(r)
	if v == nil {
		return
	}
	var lds []*Effect
	for _, ef := range r.Effects {
		if ef.Kind == "call" && strings.HasPrefix(ef.Name, "sync/atomic.") && addrField(ef.Args[0]) == val {
			lds = append(lds, ef)
		}
		if ef.Kind == "load" && addrField(ef.Addr) == val {
			c.need(false, "read", nm+":atomic", c.pos(ef), "%s reads the value without an atomic operation", nm)
		}
	}
	if !c.need(len(lds) == 1 && strings.HasPrefix(lds[0].Name, "sync/atomic.Load") && len(lds[0].Loops) == 0, "read", nm+":once", p, "%s does not read the value exactly once", nm) {
		return
	}
	isVal := func(t *Term) bool {
		t = unif(t)
		if k.flt {
			return isCallTo(t, "math.Float64frombits") && (isField(t.Args[0], val, nil) || t.Args[0] == lds[0].Result)
		}
		return isField(t, val, nil) || t == lds[0].Result
	}
	var whole *Term
	contains(v, func(t *Term) bool {
		if isVal(t) {
			whole = t
		}
		return false
	})
	for _, g := range e.cases(unif(v)) {
		u := unif(g.T)
		if isVal(u) {
			if !k.cum {
				neg := e.gtNeg(u)
				c.need(e.decide(g.C, e.not(neg)) == 1, "read", nm+":clamp", p, "%s reports negative values (if %s)", nm, c.P(g.C))
			}
			continue
		}
		if u.isConst() && isZeroConst(u) && whole != nil {
			c.need(e.decide(g.C, e.any(e.gtNeg(whole), e.eq(whole, e.zero(whole.T)))) == 1, "read", nm+":value", p, "%s reports zero for a positive value (if %s)", nm, c.P(g.C))
			continue
		}
		c.need(false, "read", nm+":value", p, "%s reports %s (if %s), not the value", nm, c.S(u), c.P(g.C))
	}
}

// gtNeg: a number is less than zero.
func (e *Eng) gtNeg(x *Term) BDD {
	if isInt(x.T) {
		return e.lt(x, e.mkInt(0, x.T))
	}
	return e.lessF(x, e.zero(x.T))
}

func c25derived(c *Ctx, k *mKind) {
	e := c.E
	en := k.entry.Obj().Name()
	f := c.methodOf(types.NewPointer(k.entry), "read")
	if f == nil {
		c.bad("read", en, "-", "entries of type %s cannot be read", en)
		return
	}
	r := c.run(f, c.stdLoads())
	p, nm := c.fpos(r), name(r)
	v, _ := c.point(r)
	calls := r.where("call", func(ef *Effect) bool { return ef.Name == "dyn" })
	if v == nil || !c.need(len(calls) == 1 && len(calls[0].Loops) == 0 && e.implies(True, calls[0].PC), "derived", nm+":call", p, "%s does not call the function exactly once", nm) {
		return
	}
	c.need(unif(v) == calls[0].Result, "derived", nm+":value", p, "%s reports %s, not what the function returned", nm, c.S(v))
	fld := fieldOfTerm(calls[0].Val)
	c.need(fld != nil, "derived", nm+":function", p, "%s calls %s", nm, c.S(calls[0].Val))
	// the function stored is the one given
	u := c.run(k.op, c.stdLoads())
	ns := 0
	for _, ef := range u.Effects {
		if ef.Kind == "store" && addrField(ef.Addr) == fld {
			ns++
			c.need(ef.Val == u.param(1), "derived", name(u)+":function", c.pos(ef), "%s stores %s, not the given function", name(u), c.S(ef.Val))
		}
	}
	c.need(ns > 0, "derived", name(u)+":stored", c.fpos(u), "%s does not store the function", name(u))
}

func fieldOfTerm(t *Term) *types.Var {
	if t == nil {
		return nil
	}
	if t.Op == "ld" || t.Op == "loopmem" {
		return addrField(t.Args[0])
	}
	return nil
}

// ---------- C26 ----------

func ruleC26(c *Ctx) {
	n := c.metricn()
	if c.failed() {
		return
	}
	e := c.E
	md := "metric/metricdata"
	dName, dDesc, dUnit, dType, dKeys := c.field(md, "Descriptor", "Name"), c.field(md, "Descriptor", "Description"), c.field(md, "Descriptor", "Unit"), c.field(md, "Descriptor", "Type"), c.field(md, "Descriptor", "LabelKeys")
	oDesc, oUnit := c.field("metric", "metricOptions", "desc"), c.field("metric", "metricOptions", "unit")
	if c.failed() {
		return
	}
	tags := map[int64]string{}
	tagOf := map[*mKind]int64{}
	for _, k := range n.kinds {
		r := c.run(k.add, c.stdLoads())
		p, nm := c.fpos(r), name(r)
		var store *Effect
		for _, ef := range r.calls("(*sync.Map).Store") {
			if addrField(ef.Args[0]) == n.regs {
				store = ef
			}
		}
		if !c.need(store != nil, "kinds", nm+":stored", p, "%s stores no metric", nm) {
			continue
		}
		bm := unif(store.Args[2])
		at := func(f *types.Var) *Term { return e.under(r.at(store, e.fa(bm, f)), store.PC) }
		tag := at(n.typ)
		tv, isc := tag.intVal()
		if c.need(isc, "kinds", nm+":tag", p, "%s creates a metric of kind %s", nm, c.S(tag)) {
			c.need(tags[tv] == "", "kinds", nm+":distinct", p, "%s and %s create metrics of the same kind: adding one with the other's name is not an error", nm, tags[tv])
			tags[tv], tagOf[k] = nm, tv
		}
		want := "TypeGauge"
		if k.cum {
			want = "TypeCumulative"
		}
		if k.flt {
			want += "Float64"
		} else {
			want += "Int64"
		}
		wv := c.constOf(md, want)
		desc := at(n.desc)
		part := func(f *types.Var) *Term { return e.under(e.partOf(desc, f), store.PC) }
		c.need(wv != nil && constIs(part(dType), wv), "type", nm, p, "%s creates a metric whose descriptor has the type %s, not %s", nm, c.S(part(dType)), want)
		c.need(part(dName) == r.param(1), "descriptor", nm+":name", p, "the descriptor's name is %s", c.S(part(dName)))
		c.need(isField(part(dDesc), oDesc, nil), "descriptor", nm+":description", p, "the descriptor's description is %s", c.S(part(dDesc)))
		c.need(isField(part(dUnit), oUnit, nil), "descriptor", nm+":unit", p, "the descriptor's unit is %s", c.S(part(dUnit)))
		c.need(e.same(store.PC, part(dKeys), at(n.keys)), "descriptor", nm+":keys", p, "the descriptor's label keys are %s, those of the series %s", c.S(part(dKeys)), c.S(at(n.keys)))
		c.need(isCallTo(at(n.start), "time.Now"), "start", nm+":created", p, "the start time of the metric is %s", c.S(at(n.start)))
		// points
		want2 := types.Typ[types.Int64]
		if k.flt {
			want2 = types.Typ[types.Float64]
		}
		if k.entry == nil {
			continue
		}
		if f := c.methodOf(types.NewPointer(k.entry), "read"); c.need(f != nil, "points", k.entry.Obj().Name(), p, "entries of %s cannot be read", k.t.Obj().Name()) {
			er := c.run(f, c.stdLoads())
			v, tm := c.point(er)
			if v != nil {
				for _, x := range leaves(v) {
					c.need(x.Op == "iface" && types.Identical(x.Obj.(types.Type), want2) || x.isConst() && types.Identical(x.T, want2), "points", name(er)+":type", c.fpos(er), "points of %s have values of another type: %s", k.t.Obj().Name(), c.S(x))
				}
				c.need(tm == er.param(1), "points", name(er)+":time", c.fpos(er), "points of %s have the time %s", k.t.Obj().Name(), c.S(tm))
			}
		}
		if k.derived {
			ft, ok := k.op.Params[1].Type().Underlying().(*types.Signature)
			c.need(ok && ft.Params().Len() == 0 && ft.Results().Len() == 1 && types.Identical(ft.Results().At(0).Type(), want2), "points", fnName(k.op)+":function", c.W.position(k.op.Pos()), "%s takes functions of type %s", fnName(k.op), k.op.Params[1].Type())
		} else {
			rt, _ := deref(k.op.Signature.Results().At(0).Type()).(*types.Named)
			c.need(rt == k.entry, "points", fnName(k.op)+":entry", c.W.position(k.op.Pos()), "%s stores entries of type %s but hands out %s: the conversion panics", fnName(k.op), k.entry, rt)
		}
	}
	c26options(c)
	c26read(c, n, tagOf)
}

func constIs(t *Term, v interface{ String() string }) bool {
	k, ok := t.intVal()
	return ok && v != nil && v.String() == itoa(k)
}

func itoa(k int64) string { return strconv.FormatInt(k, 10) }

// c26options: every option sets its own part of the options.
func c26options(c *Ctx) {
	for _, o := range [][2]string{{"WithDescription", "desc"}, {"WithUnit", "unit"}, {"WithConstLabel", "constLabels"}, {"WithLabelKeysAndDescription", "labelkeys"}, {"WithLabelKeys", "labelkeys"}} {
		f := c.fn("metric", o[0])
		fld := c.field("metric", "metricOptions", o[1])
		if f == nil || fld == nil {
			continue
		}
		r := c.run(f, c.stdLoads())
		cl := r.Rets[0]
		g := calleeOf(cl)
		if !c.need(g != nil, "options", o[0], c.fpos(r), "%s returns %s", o[0], c.S(cl)) {
			continue
		}
		e := c.E
		var free []*Term
		if cl.Op == "closure" {
			free = cl.Args
		}
		cr := e.AnalyseWith(g, []*Term{e.param(g, 0)}, free, r.Final, c.stdLoads())
		c.note(cr)
		v := cr.final(e.fa(cr.param(0), fld))
		if o[0] == "WithLabelKeys" {
			kf := c.field("metric/metricdata", "LabelKey", "Key")
			pe := c.perElem(cr, v)
			ok := pe != nil && pe.L.Coll == r.param(0) && e.loopDone(pe.L)
			if ok {
				kx, ok2 := pe.El(kf)
				ok = ok2 && allLeaves(kx, func(t *Term) bool { return isElemOf(t, pe.L) && inOrder(t, pe.L) })
			}
			c.need(ok, "options", o[0], c.fpos(r), "%s does not set one label key for each of the given names: %s", o[0], c.S(v))
			continue
		}
		c.need(v == r.param(0), "options", o[0], c.fpos(r), "%s sets %s to %s", o[0], o[1], c.S(v))
	}
	// the options are all applied
	o := c.stdLoads()
	nOk := 0
	for _, f := range c.roots("metric") {
		if f.Signature.Recv() == nil || !typeIs(f.Signature.Recv().Type(), "Registry") || len(f.Params) != 3 {
			continue
		}
		r := c.run(f, o)
		for _, ef := range r.where("call", func(x *Effect) bool { return x.Name == "dyn" }) {
			if len(ef.Loops) == 1 && isElemOf(ef.Val, ef.Loops[0]) && inOrder(ef.Val, ef.Loops[0]) && ef.Loops[0].Coll == r.param(2) && ef.Loops[0].Full {
				nOk++
				for _, st := range r.calls("(*sync.Map).Store") {
					c.need(ef.Seq < st.Seq && c.E.implies(st.PC, ef.Loops[0].Entry), "options", name(r)+":applied", c.pos(ef), "%s registers the metric before its options are applied", name(r))
				}
			}
		}
	}
	c.floor("options", "registrations that apply all options", nOk, 8)
}

func c26read(c *Ctx, n *metricN, tagOf map[*mKind]int64) {
	e := c.E
	md := "metric/metricdata"
	tsF, stF, ptF := c.field(md, "Metric", "TimeSeries"), c.field(md, "TimeSeries", "StartTime"), c.field(md, "TimeSeries", "Points")
	mDesc := c.field(md, "Metric", "Descriptor")
	r, rng, _ := n.reader(c)
	if r == nil || c.failed() {
		return
	}
	p, nm := c.fpos(r), name(r)
	bm := r.param(0)
	c.need(e.implies(True, rng.PC) && len(rng.Loops) == 0, "series", nm+":range", c.pos(rng), "%s visits the series only if %s", nm, c.P(rng.PC))
	o := c.stdLoads()
	o.Resolve = c.keepIface("baseEntry")
	cr := c.callback(r, rng, rng.Args[1], o)
	c.need(e.implies(True, e.bdd(cr.Rets[0])), "series", nm+":all", c.pos(rng), "%s stops at a series if %s", nm, c.P(e.not(e.bdd(cr.Rets[0]))))
	// one series appended per entry
	var sts []*Effect
	for _, ef := range cr.where("store", nil) {
		if addrField(ef.Addr) == tsF || ef.Val != nil && types.Identical(ef.Val.T, tsF.Type()) {
			sts = append(sts, ef)
		}
	}
	if c.need(len(sts) == 1 && len(sts[0].Loops) == 0 && e.implies(True, sts[0].PC), "series", nm+":append", c.pos(rng), "%s does not add exactly one series for every entry", nm) {
		got := r.final(e.fa(r.Rets[0], tsF))
		c.need(sts[0].Addr == e.fa(r.Rets[0], tsF) || got == r.final(sts[0].Addr), "series", nm+":result", p, "%s adds the series to %s but returns %s", nm, c.S(sts[0].Addr), c.S(got))
		ps, ok := pieces(sts[0].Val, e.ld(sts[0].Addr))
		if !ok {
			ps, ok = pieces(sts[0].Val, r.final(sts[0].Addr))
		}
		if c.need(ok && len(ps) == 1, "series", nm+":one", c.pos(sts[0]), "%s replaces the series by %s", nm, c.S(sts[0].Val)) {
			ts := ps[0]
			c.need(isFresh(rootOf(ts)), "series", nm+":new", c.pos(sts[0]), "the series added is not a new one")
			pts := cr.final(e.fa(ts, ptF))
			els := cr.elemsAt(sts[0], pts)
			if els == nil {
				els = sliceParts(e, cr, pts)
			}
			okp := len(els) == 1
			if okp {
				x := els[0]
				okp = (strings.HasPrefix(callNameOf(x), "invoke ") && strings.HasSuffix(callNameOf(x), ").read")) && contains(x, func(t *Term) bool { return t == cr.param(len(cr.Root.params)-1) })
				if okp {
					c.need(isCallTo(x.Args[len(x.Args)-1], "time.Now"), "series", nm+":now", c.pos(sts[0]), "points are read for the time %s", c.S(x.Args[len(x.Args)-1]))
				}
			}
			c.need(okp, "series", nm+":point", c.pos(sts[0]), "a series has the points %s, not one point read from its entry", c.S(pts))
			start := cr.final(e.fa(ts, stF))
			for k, tv := range tagOf {
				is := e.eq(e.ld(e.fa(bm, n.typ)), e.mkInt(tv, nil))
				for _, g := range e.cases(start) {
					if e.decide(e.all(g.C, is), False) == 1 {
						continue
					}
					if k.cum {
						x := e.under(g.T, is)
						c.need(isField(x, n.start, bm), "start", k.t.Obj().Name(), c.pos(sts[0]), "the start time of a series of %s is %s, not the start of the metric", k.t.Obj().Name(), c.S(x))
					}
				}
			}
		}
	}
	d := r.final(e.fa(r.Rets[0], mDesc))
	c.need(isField(d, n.desc, bm), "descriptor", nm, p, "%s reports the descriptor %s", nm, c.S(d))
	// the registry
	nr := 0
	for _, f := range c.pkgFuncs("metric") {
		if f.Signature.Recv() == nil || !typeIs(f.Signature.Recv().Type(), "Registry") || f.Signature.Results().Len() != 1 || !isSlice(f.Signature.Results().At(0).Type()) || !f.Object().Exported() {
			continue
		}
		o := c.stdLoads()
		o.Inline = notInline(r.Root.fn)
		rr := c.run(f, o)
		for _, ef := range rr.calls("(*sync.Map).Range") {
			if addrField(ef.Args[0]) != n.regs {
				continue
			}
			nr++
			c.need(e.implies(True, ef.PC) && len(ef.Loops) == 0, "metrics", name(rr)+":range", c.pos(ef), "%s visits the metrics only if %s", name(rr), c.P(ef.PC))
			xr := c.callback(rr, ef, ef.Args[1], o)
			if !c.need(xr != nil, "metrics", name(rr)+":callback", c.pos(ef), "%s visits the metrics with %s", name(rr), c.S(ef.Args[1])) {
				continue
			}
			c.need(e.implies(True, e.bdd(xr.Rets[0])), "metrics", name(rr)+":all", c.pos(ef), "%s stops at a metric if %s", name(rr), c.P(e.not(e.bdd(xr.Rets[0]))))
			okm := false
			for _, st := range xr.where("store", nil) {
				ps, ok := pieces(st.Val, rr.final(st.Addr))
				if ok && len(ps) == 1 && isCallTo(ps[0], fnName(r.Root.fn)) && isEntryOf(ps[0].Args[0], xr.param(len(xr.Root.params)-1)) && e.implies(True, st.PC) && len(st.Loops) == 0 {
					// the cell returned
					okm = okm || rr.Rets[0] == rr.final(st.Addr)
				}
			}
			c.need(okm, "metrics", name(rr)+":each", c.pos(ef), "%s does not add what reading each metric yields to its result %s", name(rr), c.S(rr.Rets[0]))
		}
	}
	c.floor("metrics", "functions that read the registry", nr, 1)
}

func isEntryOf(t, p *Term) bool {
	for t.Op == "ta" || t.Op == "ext" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t == p
}
