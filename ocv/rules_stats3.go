package main

import (
	"go/types"
	"sort"
)

func init() {
	reg("C20", "static escape and ownership analysis of collected data",
		"Every clone operation of the aggregation data types (each field the collector writes through must be a complete private copy), every construction of a row and of exporter data (data are clones, slices freshly built), every store into exemplars and bucket bounds, and every row table (clones never become live data).", ruleC20)
}

// aggTypes: the types that hold aggregated data.
func (c *Ctx) aggTypes() []*types.Named {
	it := c.W.typ("stats/view", "AggregationData")
	if it == nil {
		return nil
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	scope := it.Obj().Pkg().Scope()
	var out []*types.Named
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), iface) {
			out = append(out, nt)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// throughField: the field of base whose value the address was reached through
// (a.F[i], *a.F, a.F[i].X …), or the field itself when it is written directly.
func throughField(addr, base *Term) (f *types.Var, direct bool) {
	t := addr
	first := true
	for t != nil {
		switch t.Op {
		case "field":
			if t.Args[0] == base {
				v, _ := t.Obj.(*types.Var)
				return v, first
			}
			t = t.Args[0]
		case "index", "ld", "slice", "loopmem", "indexof", "fieldof", "mapval":
			if t.Op != "index" || t.Args[0].T != nil {
				first = false
			}
			t = t.Args[0]
		default:
			return nil, false
		}
	}
	return nil, false
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Chan:
		return true
	}
	return false
}

func ruleC20(c *Ctx) {
	e := c.E
	n := c.statn()
	rowTags, rowData := c.field("stats/view", "Row", "Tags"), c.field("stats/view", "Row", "Data")
	dRows := c.field("stats/view", "Data", "Rows")
	if c.failed() {
		return
	}
	ts := c.aggTypes()
	c.floor("clone", "types of aggregated data", len(ts), 1)
	written := map[*types.Var]bool{} // reference fields written through
	for _, nt := range ts {
		nm := nt.Obj().Name()
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		add, cl := c.methodOf(types.NewPointer(nt), "addSample"), c.methodOf(types.NewPointer(nt), "clone")
		if !c.need(add != nil && cl != nil, "anchor", nm, "-", "%s has no addSample or clone", nm) {
			continue
		}
		ra := c.run(add, c.std())
		through := map[*types.Var]bool{}
		for _, ef := range ra.where("store", nil) {
			for _, l := range leaves(ef.Addr) {
				if f, direct := throughField(l, ra.param(0)); f != nil && !direct {
					through[f] = true
					written[f] = true
				}
			}
		}
		for _, ef := range ra.where("mapupdate", nil) {
			for _, l := range leaves(ef.Addr) {
				if f, _ := throughField(l, ra.param(0)); f != nil {
					through[f] = true
				}
			}
		}
		for _, ef := range ra.where("copy", nil) {
			for _, l := range leaves(ef.Addr) {
				if f, _ := throughField(l, ra.param(0)); f != nil {
					through[f] = true
				}
			}
		}
		r := c.run(cl, c.std())
		a := r.param(0)
		if len(r.Rets) != 1 {
			continue
		}
		nc := 0
		for _, g := range e.cases(r.Rets[0]) {
			if e.decide(g.C, False) == 1 {
				continue
			}
			x := unif(g.T)
			p := c.fpos(r)
			nc++
			if !c.need(isFresh(x) && x != a, "clone", nm+":fresh", p, "%s.clone returns %s, not a private copy", nm, c.S(x)) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				v := r.final(e.fa(x, f))
				o := e.ld(e.fa(a, f))
				for _, vg := range e.cases(v) {
					if e.decide(e.all(g.C, vg.C), False) == 1 {
						continue
					}
					same := vg.T == o
					switch {
					case !refType(f.Type()):
						c.need(same, "clone", nm+":"+f.Name(), p, "%s.clone has %s = %s", nm, f.Name(), c.S(vg.T))
					case through[f]:
						c.need(!same && e.freshIn(r, vg.T), "clone", nm+":"+f.Name(), p, "%s.clone shares %s with the live data, which later samples write into", nm, f.Name())
						c.need(contentOf(e, r, vg.T, o, nil) || e.decide(e.all(g.C, vg.C), e.leq(e.length(o), e.mkInt(0, nil))) == 1, "clone", nm+":"+f.Name()+":all", p, "%s.clone does not copy all of %s: %s", nm, f.Name(), c.S(vg.T))
					default:
						c.need(same || e.freshIn(r, vg.T) && contentOf(e, r, vg.T, o, nil), "clone", nm+":"+f.Name(), p, "%s.clone has %s = %s", nm, f.Name(), c.S(vg.T))
					}
				}
			}
			// the copy is not written again once the original could be touched
		}
		c.floor("clone", nm+" copies", nc, 1)
		for _, ef := range append(r.where("store", nil), r.where("copy", nil)...) {
			for _, l := range leaves(ef.Addr) {
				f, _ := throughField(l, a)
				c.need(f == nil, "clone", nm+":writes", c.pos(ef), "%s.clone writes to the live data", nm)
			}
		}
	}
	// what is shared is never written: exemplars, bounds
	nst := 0
	for _, f := range c.roots("stats/view") {
		if f.Parent() != nil {
			continue
		}
		r := c.runWith(f, Opts{Resolve: c.keepIface("AggregationData")})
		for _, ef := range append(r.where("store", nil), r.where("copy", nil)...) {
			for _, ad := range leaves(ef.Addr) {
				nst++
				// exemplar objects
				for t := ad; t != nil && (t.Op == "field" || t.Op == "index"); t = t.Args[0] {
					if t.Op != "field" {
						continue
					}
					if ow := namedOf(deref(t.Args[0].T)); ow != nil && (ow.Obj().Name() == "Exemplar" || ow.Obj().Name() == "Row") {
						c.need(isFresh(rootOf(t.Args[0])), "shared", fnName(f)+":"+ow.Obj().Name(), c.pos(ef), "%s changes an existing %s, which may have been handed out", fnName(f), ow.Obj().Name())
					}
				}
				if ow, ok := deref(ad.T).(*types.Named); ok && (ow.Obj().Name() == "Exemplar" || ow.Obj().Name() == "Row") {
					c.need(isFresh(rootOf(ad)), "shared", fnName(f)+":"+ow.Obj().Name(), c.pos(ef), "%s changes an existing %s, which may have been handed out", fnName(f), ow.Obj().Name())
				}
				if sl, ok := deref(ad.T).Underlying().(*types.Slice); ok && ef.Kind == "store" && types.Identical(sl.Elem(), types.Typ[types.Float64]) {
					grown := anyLeaf(ef.Val, func(t *Term) bool { return t.Op == "append" && !e.freshIn(r, t) })
					c.need(!grown, "shared", fnName(f)+":bounds", c.pos(ef), "%s builds bounds in place of %s, which data handed out may share", fnName(f), c.S(ef.Val))
				}
				// bounds
				if ad.Op == "index" || ef.Kind == "copy" || ad.Op == "slice" {
					b := ad
					for b != nil && (b.Op == "index" || b.Op == "slice") {
						b = b.Args[0]
					}
					if b != nil && b.Op == "ld" {
						if bf := addrField(b.Args[0]); bf != nil {
							if sl, ok := bf.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Float64]) && !isFresh(rootOf(b.Args[0])) {
								c.bad("shared", fnName(f)+":"+bf.Name(), c.pos(ef), "%s writes to elements of %s, which data handed out share", fnName(f), bf.Name())
							}
						}
					}
				}
			}
		}
		// rows
		for _, s := range r.storesTo(rowData) {
			ok := allLeaves(s.Val, func(t *Term) bool { return isCallTo(t, "invoke (stats/view.AggregationData).clone") })
			c.need(ok, "rows", fnName(f)+":data", c.pos(s), "%s hands out the data %s, not a copy", fnName(f), c.S(s.Val))
			// and the copy is used once
			for _, mu := range r.where("mapupdate", nil) {
				c.need(mu.Val != s.Val, "rows", fnName(f)+":live", c.pos(mu), "%s keeps handed-out data as live data", fnName(f))
			}
		}
		for _, s := range r.storesTo(rowTags) {
			c.need(e.freshIn(r, s.Val) || s.Val.Op == "loopphi" && e.freshLoop(r, s.Val), "rows", fnName(f)+":tags", c.pos(s), "%s hands out rows that share the tags %s", fnName(f), c.S(s.Val))
		}
		for _, s := range r.storesTo(dRows) {
			c.need(e.freshIn(r, s.Val), "rows", fnName(f)+":rows", c.pos(s), "%s hands out the slice of rows %s, which is not private", fnName(f), c.S(s.Val))
		}
		for _, mu := range r.where("mapupdate", func(m *Effect) bool { return isField(m.Addr, n.sigs, nil) }) {
			c.need(!anyLeaf(mu.Val, func(t *Term) bool { return isCallTo(t, "invoke (stats/view.AggregationData).clone") }), "rows", fnName(f)+":live", c.pos(mu), "%s makes a copy that may have been handed out the live data", fnName(f))
		}
	}
	c.floor("shared", "stores examined", nst, 10)
	// the answers and the metrics contain only such rows
	nr := 0
	for _, f := range c.roots("stats/view") {
		if f.Parent() != nil {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			sl, ok := res.At(i).Type().Underlying().(*types.Slice)
			if !ok || namedOf(deref(sl.Elem())) == nil {
				continue
			}
			en := namedOf(deref(sl.Elem())).Obj().Name()
			if en != "Row" && en != "Metric" && en != "TimeSeries" && en != "LabelValue" && en != "Tag" {
				continue
			}
			if f.Name() == "RetrieveData" {
				continue // passes on the answer of the command
			}
			r := c.runWith(f, Opts{Resolve: c.keepIface("AggregationData")})
			if i < len(r.Rets) {
				nr++
				c.need(e.freshIn(r, r.Rets[i]), "results", fnName(f), c.fpos(r), "%s returns %s, which is not a private slice", fnName(f), c.S(r.Rets[i]))
			}
		}
	}
	c.floor("results", "functions returning rows or metrics", nr, 1)
	// the command's answer
	na := 0
	for _, h := range n.handlers {
		r := c.runWith(h, Opts{Resolve: c.keepIface("AggregationData")})
		for _, s := range r.where("store", func(s *Effect) bool {
			sl := s.Val.T
			if sl == nil {
				return false
			}
			x, ok := sl.Underlying().(*types.Slice)
			return ok && namedOf(deref(x.Elem())) != nil && namedOf(deref(x.Elem())).Obj().Name() == "Row"
		}) {
			na++
			c.need(e.freshIn(r, s.Val), "results", name(r), c.pos(s), "%s answers with the rows %s, which are not private", name(r), c.S(s.Val))
		}
	}
	c.floor("results", "answers with rows", na, 1)
	// points: whatever toPoint keeps of its receiver is not written through
	for _, nt := range ts {
		f := c.methodOf(types.NewPointer(nt), "toPoint")
		if f == nil {
			continue
		}
		r := c.run(f, c.std())
		for _, s := range r.where("store", func(s *Effect) bool {
			return isFresh(rootOf(s.Addr)) && s.Val.T != nil && refType(s.Val.T)
		}) {
			for _, l := range leaves(s.Val) {
				if l.Op == "ld" && l.Args[0].Op == "field" && l.Args[0].Args[0] == r.param(0) {
					bf := addrField(l.Args[0])
					c.need(!written[bf], "points", nt.Obj().Name()+":"+bf.Name(), c.pos(s), "a metric point of %s shares %s with the collected data", nt.Obj().Name(), bf.Name())
				}
			}
		}
	}
}

// freshLoop: a slice built up by a loop from nothing.
func (e *Eng) freshLoop(r *Run, t *Term) bool {
	lp := loopPhiOf(r, t)
	if lp == nil || lp.Init == nil || !e.freshValue(lp.Init, nil) {
		return false
	}
	for _, b := range lp.Back {
		if !e.freshValue(b, func(x *Term) bool { return x == t }) {
			return false
		}
	}
	return true
}
