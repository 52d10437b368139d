package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"math/rand"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C21", "static final-state specification of every aggregation step, with algebraic identity of the formulas, plus table checks over all measure and aggregation types",
		"addSample of every aggregation data type (final value of every field, the bucket incremented on every path), the constructors of each aggregation (initial data), the conversion table of measure and aggregation types to metric types, and the metric points and label values built from the data.", ruleC21)
}

// ratEval evaluates a term as a rational function of its leaves. Identity of
// two such functions over random values decides their algebraic equality.
func ratEval(t *Term, env func(*Term) *big.Rat) *big.Rat {
	switch {
	case t.Op == "const":
		if v, ok := t.Obj.(constant.Value); ok && (v.Kind() == constant.Int || v.Kind() == constant.Float) {
			f := constant.ToFloat(v)
			if n, ok := new(big.Rat).SetString(f.ExactString()); ok {
				return n
			}
		}
	case t.Op == "arith" && len(t.Args) == 2:
		a, b := ratEval(t.Args[0], env), ratEval(t.Args[1], env)
		if a == nil || b == nil {
			return nil
		}
		out := new(big.Rat)
		switch t.Aux {
		case "+":
			return out.Add(a, b)
		case "-":
			return out.Sub(a, b)
		case "*":
			return out.Mul(a, b)
		case "/":
			if b.Sign() == 0 || !isFloat(t.T) {
				return nil
			}
			return out.Quo(a, b)
		}
		return nil
	case strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 && (isFloat(t.T) && (isInt(t.Args[0].T) || isFloat(t.Args[0].T))):
		return ratEval(t.Args[0], env)
	case t.Op == "lin":
		l := t.Obj.(lin)
		out := new(big.Rat).SetInt64(l.k)
		for x, k := range l.co {
			v := ratEval(x, env)
			if v == nil {
				return nil
			}
			out.Add(out, new(big.Rat).Mul(v, new(big.Rat).SetInt64(k)))
		}
		return out
	}
	return env(t)
}

// sameFormula: two terms denote the same rational function, given values
// fixed for some of the leaves.
func sameFormula(a, b *Term, fixed map[*Term]int64) bool {
	rnd := rand.New(rand.NewSource(1))
	for k := 0; k < 6; k++ {
		vals := map[*Term]*big.Rat{}
		env := func(t *Term) *big.Rat {
			if v, ok := fixed[t]; ok {
				return new(big.Rat).SetInt64(v)
			}
			if v, ok := vals[t]; ok {
				return v
			}
			var v *big.Rat
			if isInt(t.T) {
				v = new(big.Rat).SetInt64(rnd.Int63n(1000) + 2)
			} else {
				v = big.NewRat(rnd.Int63n(1<<40)-1<<39, rnd.Int63n(1<<20)+1)
			}
			vals[t] = v
			return v
		}
		x, y := ratEval(a, env), ratEval(b, env)
		if x == nil || y == nil || x.Cmp(y) != 0 {
			return false
		}
	}
	return true
}

// fltOrder states that < and <= on the floats compared are those of a total
// order (NaN aside).
func (e *Eng) fltOrder(bs ...BDD) BDD {
	out := True
	lt := func(a, b *Term) BDD { return e.atom(e.mk("flt", "", types.Typ[types.Bool], nil, a, b)) }
	seen := map[[2]*Term]bool{}
	for _, b := range bs {
		for _, a := range e.atomsOf(b) {
			if a.Op != "flt" && a.Op != "fle" {
				continue
			}
			x, y := a.Args[0], a.Args[1]
			if a.Op == "fle" {
				out = e.all(out, e.iff(e.atom(a), e.not(lt(y, x))))
			}
			if !seen[[2]*Term{x, y}] {
				seen[[2]*Term{x, y}], seen[[2]*Term{y, x}] = true, true
				out = e.all(out, e.not(e.all(lt(x, y), lt(y, x))))
			}
		}
	}
	return out
}

func (e *Eng) iff(a, b BDD) BDD {
	return e.any(e.all(a, b), e.all(e.not(a), e.not(b)))
}

func (e *Eng) lessF(a, b *Term) BDD {
	return e.atom(e.mk("flt", "", types.Typ[types.Bool], nil, a, b))
}

func ruleC21(c *Ctx) {
	e := c.E
	fld := func(t, f string) *types.Var { return c.field("stats/view", t, f) }
	cv, cs := fld("CountData", "Value"), fld("CountData", "Start")
	sv, ss := fld("SumData", "Value"), fld("SumData", "Start")
	lv := fld("LastValueData", "Value")
	d := map[string]*types.Var{}
	for _, f := range []string{"Count", "Min", "Max", "Mean", "SumOfSquaredDev", "CountPerBucket", "ExemplarsPerBucket", "Start"} {
		d[f] = fld("DistributionData", f)
	}
	bounds := fld("DistributionData", "bounds")
	aType, aBuckets, aNew := fld("Aggregation", "Type"), fld("Aggregation", "Buckets"), fld("Aggregation", "newData")
	if c.failed() {
		return
	}
	add := func(t string) *Run { return c.go1("stats/view", "(*"+t+").addSample") }
	// final value of a field of the receiver in every case
	final := func(r *Run, f *types.Var) []guarded {
		var out []guarded
		pc := r.Final.pc
		for _, g := range e.cases(r.final(e.fa(r.param(0), f))) {
			g.C = e.all(pc, g.C)
			if e.decide(g.C, False) != 1 {
				out = append(out, g)
			}
		}
		return out
	}
	formula := func(r *Run, what string, gs []guarded, want func(g guarded, n0 bool) *Term, cnt *Term) {
		for _, g := range gs {
			ns := []bool{false}
			if cnt != nil {
				ns = []bool{true, false}
			}
			for _, n0 := range ns {
				fx := map[*Term]int64{}
				if cnt != nil {
					z := e.eq(cnt, e.mkInt(0, nil))
					if n0 {
						if e.decide(e.all(g.C, z), False) == 1 {
							continue
						}
						fx[cnt] = 0
					} else if e.decide(e.all(g.C, e.not(z)), False) == 1 {
						continue
					}
				}
				w := want(g, n0)
				for _, wg := range e.cases(w) {
					if e.decide(e.all(g.C, wg.C), False) == 1 {
						continue
					}
					c.need(sameFormula(g.T, wg.T, fx), "step", what, c.fpos(r), "%s becomes %s instead of %s", what, c.S(g.T), c.S(wg.T))
				}
			}
		}
	}
	if r := add("CountData"); r != nil {
		formula(r, "CountData.Value", final(r, cv), func(guarded, bool) *Term { return e.plus(e.ld(e.fa(r.param(0), cv)), 1) }, nil)
		c.need(e.implies(True, r.Final.pc), "step", "CountData:returns", c.fpos(r), "adding a sample may not return")
		c21keeps(c, r, cs)
	}
	if r := add("SumData"); r != nil {
		formula(r, "SumData.Value", final(r, sv), func(guarded, bool) *Term {
			return e.mk("arith", "+", types.Typ[types.Float64], nil, e.ld(e.fa(r.param(0), sv)), r.param(1))
		}, nil)
		c21keeps(c, r, ss)
	}
	if r := add("LastValueData"); r != nil {
		for _, g := range final(r, lv) {
			c.need(g.T == r.param(1), "step", "LastValueData.Value", c.fpos(r), "the last value becomes %s", c.S(g.T))
		}
	}
	if r := add("DistributionData"); r != nil {
		a, v := r.param(0), r.param(1)
		old := func(f string) *Term { return e.ld(e.fa(a, d[f])) }
		n := old("Count")
		formula(r, "DistributionData.Count", final(r, d["Count"]), func(guarded, bool) *Term { return e.plus(n, 1) }, nil)
		ar := func(op string, x, y *Term) *Term { return e.mk("arith", op, types.Typ[types.Float64], nil, x, y) }
		n1 := e.mk("conv", "float64", types.Typ[types.Float64], nil, e.plus(n, 1))
		mean := ar("+", old("Mean"), ar("/", ar("-", v, old("Mean")), n1))
		formula(r, "DistributionData.Mean", final(r, d["Mean"]), func(g guarded, n0 bool) *Term {
			if n0 {
				return v
			}
			return mean
		}, n)
		formula(r, "DistributionData.SumOfSquaredDev", final(r, d["SumOfSquaredDev"]), func(g guarded, n0 bool) *Term {
			if n0 {
				// the mean and deviation are 0 before the first sample
				return old("SumOfSquaredDev")
			}
			return ar("+", old("SumOfSquaredDev"), ar("*", ar("-", v, old("Mean")), ar("-", v, mean)))
		}, n)
		// extremes
		for _, x := range []struct {
			f    string
			call string
			beat func(o *Term) BDD
		}{
			{"Min", "math.Min", func(o *Term) BDD { return e.lessF(v, o) }},
			{"Max", "math.Max", func(o *Term) BDD { return e.lessF(o, v) }},
		} {
			o := old(x.f)
			first := e.eq(n, e.mkInt(0, nil))
			for _, g := range final(r, d[x.f]) {
				pc := e.all(g.C, e.fltOrder(g.C, x.beat(o)))
				switch {
				case g.T == v:
					// taken when it beats, ties, or comes first
					c.need(e.decide(pc, e.any(x.beat(o), first)) == 1 || e.decide(pc, e.any(e.not(e.lessF(o, v)), first)) == 1 && x.f == "Min" || e.decide(pc, e.any(e.not(e.lessF(v, o)), first)) == 1 && x.f == "Max",
						"step", "DistributionData."+x.f, c.fpos(r), "%s becomes the new value if %s", x.f, c.P(g.C))
				case g.T == o:
					c.need(e.decide(pc, e.not(x.beat(o))) == 1, "step", "DistributionData."+x.f, c.fpos(r), "%s is kept if %s", x.f, c.P(g.C))
				case isCallTo(g.T, x.call):
					c.need(g.T.Args[0] == v && g.T.Args[1] == o || g.T.Args[0] == o && g.T.Args[1] == v, "step", "DistributionData."+x.f, c.fpos(r), "%s becomes %s", x.f, c.S(g.T))
				default:
					c.bad("step", "DistributionData."+x.f, c.fpos(r), "%s becomes %s", x.f, c.S(g.T))
				}
			}
		}
		c21keeps(c, r, d["Start"], bounds, d["CountPerBucket"], d["ExemplarsPerBucket"])
		c21bucket(c, r, d["CountPerBucket"], d["ExemplarsPerBucket"], bounds)
	}
	c21new(c, aType, aBuckets, aNew, bounds, d, cs, ss)
	c21types(c, aType)
	c21points(c, cv, sv, lv, d, bounds)
	c21labels(c)
}

// c21keeps: the fields are not changed.
func c21keeps(c *Ctx, r *Run, fs ...*types.Var) {
	for _, f := range fs {
		for _, s := range r.storesTo(f) {
			c.need(isFresh(rootOf(s.Addr)) || s.Val == c.E.ld(s.Addr), "step", name(r)+":"+f.Name(), c.pos(s), "adding a sample replaces %s", f.Name())
		}
	}
}

// firstAbove: under pc, ix is the position of the first bound above v, or the
// number of bounds if there is none.
func (c *Ctx) firstAbove(r *Run, pc BDD, ix, v *Term, isBounds func(*Term) bool) string {
	e := c.E
	if isCallTo(ix, "sort.Search") {
		f := calleeOf(ix.Args[1])
		if ix.Args[0].Op != "len" || !isBounds(ix.Args[0].Args[0]) || f == nil {
			return "not a search over all bounds"
		}
		i := e.param(f, 0)
		rr := e.AnalyseWith(f, []*Term{i}, ix.Args[1].Args, r.Final, c.std())
		c.note(rr)
		if len(rr.Rets) == 1 {
			b := e.bdd(rr.Rets[0])
			at := e.atomsOf(b)
			if len(at) == 1 && at[0].Op == "flt" && e.atom(at[0]) == b && at[0].Args[0] == v {
				x := at[0].Args[1]
				if x.Op == "ld" && x.Args[0].Op == "index" && x.Args[0].Args[1] == i && isBounds(x.Args[0].Args[0]) {
					return ""
				}
			}
		}
		return "the search does not look for the first bound above the value"
	}
	for _, l := range r.Loops {
		if l.Kind != "slice" || l.Coll == nil || !isBounds(l.Coll) {
			continue
		}
		at := func(t *Term) bool { return isElemOf(t, l) && inOrder(t, l) }
		above := func(b BDD, want bool) bool {
			for _, a := range e.atomsOf(b) {
				if (a.Op == "flt" || a.Op == "fle") && (a.Args[0] == v && at(a.Args[1]) || a.Args[1] == v && at(a.Args[0])) {
					x := a.Args[0]
					if x == v {
						x = a.Args[1]
					}
					lt := e.lessF(v, x)
					if !want {
						lt = e.not(lt)
					}
					if e.decide(e.all(b, e.fltOrder(b, e.lessF(v, x))), lt) == 1 {
						return true
					}
				}
			}
			return false
		}
		back := e.any(l.BackPC...)
		if !above(back, false) {
			return "the search goes past a bound that is above the value"
		}
		done := e.completed(pc, l)
		if done {
			if ix == l.Iter || ix.Op == "len" && isBounds(ix.Args[0]) {
				return ""
			}
			continue
		}
		if len(l.early) > 0 && e.decide(pc, e.any(l.early...)) == 1 && ix == l.Iter {
			for _, x := range l.early {
				if !above(e.rawOf(x), true) {
					return "the search stops at a bound that is not above the value"
				}
			}
			return ""
		}
	}
	return "the index is " + c.S(ix)
}

func c21bucket(c *Ctx, r *Run, cpb, epb, bounds *types.Var) {
	e := c.E
	a, v := r.param(0), r.param(1)
	isB := func(t *Term) bool { return isField(t, bounds, a) }
	cov := False
	nb := 0
	// the exits of the search, to look at each path by itself
	paths := []BDD{True}
	for _, l := range r.Loops {
		if l.Kind == "slice" && isB(l.Coll) && len(l.early) > 0 {
			ex := e.any(l.early...)
			paths = []BDD{ex, e.not(ex)}
		}
	}
	for _, s := range r.where("store", nil) {
		hit := false
		for _, g := range e.cases(s.Addr) {
			if f, direct := throughField(g.T, a); f != cpb || direct {
				continue
			}
			hit = true
			for _, ph := range paths {
				pc := e.all(s.PC, g.C, ph)
				if e.decide(pc, False) == 1 {
					continue
				}
				nb++
				p := c.pos(s)
				c.need(e.once(s), "bucket", "once", p, "a sample is counted in several buckets")
				c.need(e.decide(e.all(cov, pc), False) == 1, "bucket", "twice", p, "a sample is counted twice")
				cov = e.any(cov, pc)
				if !c.need(g.T.Op == "index", "bucket", "at", p, "buckets are changed at %s", c.S(g.T)) {
					continue
				}
				for _, ig := range e.cases(g.T.Args[1]) {
					ipc := e.all(pc, ig.C)
					if e.decide(ipc, False) == 1 {
						continue
					}
					msg := c.firstAbove(r, ipc, ig.T, v, isB)
					c.need(msg == "", "bucket", "which", p, "the bucket counted is not that of the value: %s", msg)
				}
				for _, vg := range e.cases(s.Val) {
					if e.decide(e.all(pc, vg.C), False) == 1 {
						continue
					}
					ok := false
					for _, og := range e.cases(e.ld(g.T)) {
						ok = ok || vg.T == e.plus(og.T, 1)
					}
					ok = ok || isPlusOneOf(e, vg.T, cpb)
					c.need(ok, "bucket", "by", p, "the bucket of the value becomes %s", c.S(vg.T))
				}
			}
		}
		if hit {
			continue
		}
		for _, g := range e.cases(s.Addr) {
			if f, direct := throughField(g.T, a); f == epb && !direct && e.decide(e.all(s.PC, g.C), False) != 1 {
				for _, ph := range paths {
					pc := e.all(s.PC, g.C, ph)
					if e.decide(pc, False) == 1 || g.T.Op != "index" {
						continue
					}
					for _, ig := range e.cases(g.T.Args[1]) {
						ipc := e.all(pc, ig.C)
						if e.decide(ipc, False) == 1 {
							continue
						}
						msg := c.firstAbove(r, ipc, ig.T, v, isB)
						c.need(msg == "", "bucket", "exemplar", c.pos(s), "the exemplar is kept for another bucket: %s", msg)
					}
				}
			}
		}
	}
	c.need(e.decide(r.Final.pc, cov) == 1, "bucket", "always", c.fpos(r), "a sample may not be counted in any bucket (counted if %s)", c.P(cov))
	c.floor("bucket", "bucket updates", nb, 1)
}

func isPlusOneOf(e *Eng, t *Term, f *types.Var) bool {
	if t.Op != "lin" {
		return false
	}
	l := t.Obj.(lin)
	if l.k != 1 || len(l.co) != 1 {
		return false
	}
	for x, k := range l.co {
		if k != 1 || !contains(x, func(y *Term) bool { return isField(y, f, nil) }) {
			return false
		}
	}
	return true
}

// c21new: each aggregation starts with empty data of its own kind.
func c21new(c *Ctx, aType, aBuckets, aNew, bounds *types.Var, d map[string]*types.Var, cs, ss *types.Var) {
	e := c.E
	want := map[string]string{}
	for k, v := range map[string]string{"AggTypeCount": "CountData", "AggTypeSum": "SumData", "AggTypeDistribution": "DistributionData", "AggTypeLastValue": "LastValueData"} {
		if x := c.constOf("stats/view", k); x != nil {
			want[x.ExactString()] = v
		}
	}
	n := 0
	seen := map[string]bool{}
	fs := c.roots("stats/view")
	for _, f := range c.W.Funcs {
		if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "stats/view") && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		if f.Parent() != nil {
			continue
		}
		r := c.run(f, c.std())
		for _, s := range r.storesTo(aNew) {
			n++
			agg := s.Addr.Args[0]
			p := c.pos(s)
			var kt *Term
			for _, q := range r.storesTo(aType) {
				if q.Addr.Args[0] == agg {
					kt = q.Val
				}
			}
			if kt == nil || kt.Obj == nil || !kt.isConst() {
				c.bad("new", fnName(f), p, "an aggregation of unknown type")
				continue
			}
			kv, _ := kt.Obj.(constant.Value)
			if kv == nil {
				continue
			}
			tn := want[kv.ExactString()]
			seen[tn] = true
			cl := s.Val
			g := calleeOf(cl)
			if !c.need(g != nil && tn != "", "new", fnName(f)+":func", p, "the constructor of new data is %s", c.S(cl)) {
				continue
			}
			t0 := e.param(g, 0)
			rr := e.AnalyseWith(g, []*Term{t0}, cl.Args, nil, c.std())
			c.note(rr)
			if len(rr.Rets) != 1 {
				continue
			}
			x := unif(rr.Rets[0])
			p = c.W.position(g.Pos())
			if !c.need(isFresh(x) && typeIs(x.T, tn), "new", tn+":kind", p, "an aggregation of type %s collects %s", kv, c.S(x)) {
				continue
			}
			st := deref(x.T).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				fv := st.Field(i)
				v := rr.final(e.fa(x, fv))
				key := tn + ":" + fv.Name()
				switch fv {
				case d["Min"], d["Max"]:
					w := constant.MakeFloat64(1.7976931348623157e308)
					if fv == d["Max"] {
						w = constant.MakeFloat64(-1.7976931348623157e308)
					}
					cvv, _ := v.Obj.(constant.Value)
					okm := v.Op == "const" && cvv != nil && constant.Compare(constant.ToFloat(cvv), token.EQL, w)
					okm = okm || isCallTo(v, "math.Inf") && (fv == d["Min"] && constInt(v.Args[0], 1) || fv == d["Max"] && constInt(v.Args[0], -1))
					c.need(okm, "new", key, p, "%s starts as %s", fv.Name(), c.S(v))
				case bounds:
					c.need(isField(v, aBuckets, nil), "new", key, p, "the bounds of new data are %s, not those of the aggregation", c.S(v))
				case d["CountPerBucket"], d["ExemplarsPerBucket"]:
					b := rr.final(e.fa(x, bounds))
					c.need(isFresh(rootOf(v)) && b != nil && e.sameLin(True, e.length(v), e.plus(e.length(b), 1)), "new", key, p, "new data has %s entries in %s for %s bounds", c.S(e.length(v)), fv.Name(), c.S(e.length(b)))
				case cs, ss, d["Start"]:
					c.need(v == t0, "new", key, p, "new data starts at %s", c.S(v))
				default:
					z := v.Op == "zero" || v.isConst() && (constInt(v, 0) || v.Obj != nil && isZeroConst(v))
					c.need(z, "new", key, p, "%s starts as %s", fv.Name(), c.S(v))
				}
			}
		}
		if f.Name() == "Distribution" && f.Signature.Recv() == nil {
			for _, s := range r.storesTo(aBuckets) {
				c.need(s.Val == r.param(0), "new", "buckets", c.pos(s), "a distribution has the buckets %s", c.S(s.Val))
			}
		}
	}
	for _, tn := range want {
		c.need(seen[tn], "new", tn, "-", "no aggregation creates %s", tn)
	}
	c.floor("new", "constructors of aggregations", n, 4)
}

func isZeroConst(t *Term) bool {
	v, ok := t.Obj.(constant.Value)
	return ok && (v.Kind() == constant.Int || v.Kind() == constant.Float) && constant.Sign(v) == 0
}

func typeIs(t types.Type, nm string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == nm
}

func (c *Ctx) constOf(pkg, name string) constant.Value {
	for _, f := range c.W.Funcs {
		if f.Pkg != nil && (f.Pkg.Pkg.Path() == modPath+"/"+pkg || f.Pkg.Pkg.Path() == modPath && pkg == "") {
			if o, ok := f.Pkg.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return o.Val()
			}
			break
		}
	}
	c.bad("anchor", name, "-", "constant %s.%s not found", pkg, name)
	return nil
}

// c21types: every combination of aggregation and measure type has the
// documented metric type and unit.
func c21types(c *Ctx, aType *types.Var) {
	e := c.E
	r := c.go1("stats/view", "getType")
	if r == nil {
		return
	}
	v := r.param(0)
	aggF, mF := c.field("stats/view", "View", "Aggregation"), c.field("stats/view", "View", "Measure")
	if c.failed() {
		return
	}
	at := e.ld(e.fa(e.ld(e.fa(v, aggF)), aType))
	m := e.ld(e.fa(v, mF))
	i64, f64 := c.W.typ("stats", "Int64Measure"), c.W.typ("stats", "Float64Measure")
	k := func(n string) *Term {
		x := c.constOf("stats/view", n)
		if x == nil {
			return e.mkInt(-1, nil)
		}
		i, _ := constant.Int64Val(x)
		return e.mkInt(i, at.T)
	}
	mt := func(n string) int64 {
		x := c.constOf("metric/metricdata", n)
		if x == nil {
			return -1
		}
		i, _ := constant.Int64Val(x)
		return i
	}
	for _, row := range []struct{ agg, i, f string }{
		{"AggTypeCount", "TypeCumulativeInt64", "TypeCumulativeInt64"},
		{"AggTypeSum", "TypeCumulativeInt64", "TypeCumulativeFloat64"},
		{"AggTypeDistribution", "TypeCumulativeDistribution", "TypeCumulativeDistribution"},
		{"AggTypeLastValue", "TypeGaugeInt64", "TypeGaugeFloat64"},
	} {
		for j, want := range []string{row.i, row.f} {
			isI, isF := e.atom(e.mk("isT", tstr(types.NewPointer(i64)), types.Typ[types.Bool], types.NewPointer(i64), m)), e.atom(e.mk("isT", tstr(types.NewPointer(f64)), types.Typ[types.Bool], types.NewPointer(f64), m))
			cond := e.all(e.eq(at, k(row.agg)), isI, e.not(isF))
			mn := "int64"
			if j == 1 {
				cond = e.all(e.eq(at, k(row.agg)), isF, e.not(isI))
				mn = "float64"
			}
			for _, pn := range r.where("panic", nil) {
				c.need(e.decide(e.all(cond, pn.PC), False) == 1, "types", row.agg+":"+mn, c.pos(pn), "the metric type of a %s view of %s measures fails", row.agg, mn)
			}
			n := 0
			for _, g := range e.cases(r.Rets[0]) {
				pc := e.all(cond, g.C)
				if e.decide(pc, False) == 1 {
					continue
				}
				n++
				c.need(constInt(g.T, mt(want)), "types", row.agg+":"+mn, c.fpos(r), "a %s view of %s measures becomes a metric of type %s, not %s", row.agg, mn, c.S(g.T), want)
			}
			c.need(n > 0, "types", row.agg+":"+mn, c.fpos(r), "no metric type for a %s view of %s measures", row.agg, mn)
			// the data of the aggregation converts to it
			tn := map[string]string{"AggTypeCount": "CountData", "AggTypeSum": "SumData", "AggTypeDistribution": "DistributionData", "AggTypeLastValue": "LastValueData"}[row.agg]
			if pr := c.go1("stats/view", "(*"+tn+").toPoint"); pr != nil {
				tp := e.eq(pr.param(1), e.mkInt(mt(want), pr.param(1).T))
				for _, pn := range pr.where("panic", nil) {
					c.need(e.decide(e.all(tp, pn.PC), False) == 1, "types", tn+":"+want, c.pos(pn), "%s cannot be converted to a metric of type %s", tn, want)
				}
				c.need(e.decide(e.all(pr.Final.pc, tp), False) != 1, "types", tn+":"+want, c.fpos(pr), "%s cannot be converted to a metric of type %s", tn, want)
			}
		}
	}
	// the unit
	ur := c.go1("stats/view", "convertUnit")
	if ur == nil || len(ur.Rets) != 1 {
		return
	}
	uv := ur.param(0)
	ut := e.ld(e.fa(e.ld(e.fa(uv, aggF)), aType))
	isCount := e.eq(ut, k("AggTypeCount"))
	for _, g := range e.cases(ur.Rets[0]) {
		pc := e.all(g.C, ur.Final.pc)
		if e.decide(pc, False) == 1 {
			continue
		}
		if !c.need(g.T.isConst() && isString(g.T.T), "unit", "form", c.fpos(ur), "the unit of a view is %s", c.S(g.T)) {
			continue
		}
		u := constString(g.T)
		if u == "1" {
			// everything but a known unit of a value
			for _, a := range e.atomsOf(pc) {
				if a.Op == "eq" && a.Args[1].isConst() && isString(a.Args[1].T) && contains(a.Args[0], func(t *Term) bool { return isCallTo(t, "invoke (stats.Measure).Unit") }) {
					if s := constString(a.Args[1]); s == "ms" || s == "By" {
						c.need(e.decide(e.all(pc, e.not(isCount)), e.not(e.atom(a))) == 1 || e.decide(e.all(pc, e.not(isCount), e.atom(a)), False) == 1, "unit", s, c.fpos(ur), "the unit %s of a measure is lost", s)
					}
				}
			}
			continue
		}
		c.need(e.decide(pc, e.not(isCount)) == 1, "unit", "count", c.fpos(ur), "a count has the unit %s", u)
		okU := false
		for _, a := range e.atomsOf(pc) {
			if a.Op == "eq" && a.Args[1].isConst() && isString(a.Args[1].T) && constString(a.Args[1]) == u && e.decide(pc, e.atom(a)) == 1 {
				okU = true
			}
		}
		c.need(okU, "unit", u, c.fpos(ur), "a measure of another unit gets the unit %s", u)
	}
}

// c21points: the points hold the values of the data.
func c21points(c *Ctx, cv, sv, lv *types.Var, d map[string]*types.Var, bounds *types.Var) {
	e := c.E
	pv, pt := c.field("metric/metricdata", "Point", "Value"), c.field("metric/metricdata", "Point", "Time")
	md := func(t, f string) *types.Var { return c.field("metric/metricdata", t, f) }
	dc, dsum, dssd, dbo, dbk := md("Distribution", "Count"), md("Distribution", "Sum"), md("Distribution", "SumOfSquaredDeviation"), md("Distribution", "BucketOptions"), md("Distribution", "Buckets")
	bc, be, bb := md("Bucket", "Count"), md("Bucket", "Exemplar"), md("BucketOptions", "Bounds")
	if c.failed() {
		return
	}
	for tn, f := range map[string]*types.Var{"CountData": cv, "SumData": sv, "LastValueData": lv} {
		r := c.go1("stats/view", "(*"+tn+").toPoint")
		if r == nil || len(r.Rets) != 1 {
			continue
		}
		o := e.ld(e.fa(r.param(0), f))
		val := e.partOf(r.Rets[0], pv)
		for _, g := range e.cases(val) {
			pc := e.all(g.C, r.Final.pc)
			if e.decide(pc, False) == 1 {
				continue
			}
			x := unif(g.T)
			isI := False
			for _, n := range []string{"TypeGaugeInt64", "TypeCumulativeInt64"} {
				if k := c.constOf("metric/metricdata", n); k != nil {
					i, _ := constant.Int64Val(k)
					isI = e.any(isI, e.eq(r.param(1), e.mkInt(i, r.param(1).T)))
				}
			}
			wantInt := e.decide(pc, isI) == 1
			c.need(wantInt || e.decide(pc, e.not(isI)) == 1, "point", tn+":kind", c.fpos(r), "points of different types are alike")
			okT := x == o || strings.HasPrefix(x.Op, "conv") && x.Args[0] == o
			c.need(okT, "point", tn+":value", c.fpos(r), "the point of %s holds %s", tn, c.S(x))
			b, isB := x.T.Underlying().(*types.Basic)
			c.need(isB && (wantInt && b.Kind() == types.Int64 || !wantInt && b.Kind() == types.Float64), "point", tn+":type", c.fpos(r), "the point of %s has a value of type %s", tn, x.T)
		}
		c.need(e.partOf(r.Rets[0], pt) == r.param(2), "point", tn+":time", c.fpos(r), "the point of %s has the time %s", tn, c.S(e.partOf(r.Rets[0], pt)))
	}
	r := c.go1("stats/view", "(*DistributionData).toPoint")
	if r == nil || len(r.Rets) != 1 {
		return
	}
	a := r.param(0)
	x := unif(e.partOf(r.Rets[0], pv))
	p := c.fpos(r)
	if !c.need(isFresh(x), "point", "distribution", p, "the point of a distribution is %s", c.S(x)) {
		return
	}
	old := func(f string) *Term { return e.ld(e.fa(a, d[f])) }
	c.need(r.final(e.fa(x, dc)) == old("Count"), "point", "distribution:count", p, "the point's count is %s", c.S(r.final(e.fa(x, dc))))
	c.need(r.final(e.fa(x, dssd)) == old("SumOfSquaredDev"), "point", "distribution:ssd", p, "the point's sum of squared deviations is %s", c.S(r.final(e.fa(x, dssd))))
	sum := e.mk("arith", "*", types.Typ[types.Float64], nil, old("Mean"), e.mk("conv", "float64", types.Typ[types.Float64], nil, old("Count")))
	c.need(sameFormula(r.final(e.fa(x, dsum)), sum, nil), "point", "distribution:sum", p, "the point's sum is %s", c.S(r.final(e.fa(x, dsum))))
	c.need(e.partOf(r.Rets[0], pt) == r.param(2), "point", "distribution:time", p, "the point has the time %s", c.S(e.partOf(r.Rets[0], pt)))
	bo := r.final(e.fa(x, dbo))
	if c.need(isFresh(bo), "point", "distribution:options", p, "the point's bucket options are %s", c.S(bo)) {
		bv := r.final(e.fa(bo, bb))
		c.need(isField(bv, bounds, a) || contentOf(e, r, bv, e.ld(e.fa(a, bounds)), nil), "point", "distribution:bounds", p, "the point's bounds are %s", c.S(bv))
	}
	// the buckets, in order
	bk := r.final(e.fa(x, dbk))
	isC, isE := func(t *Term) bool { return isField(t, d["CountPerBucket"], a) }, func(t *Term) bool { return isField(t, d["ExemplarsPerBucket"], a) }
	elemAt := func(t *Term, l *LoopCtx, is func(*Term) bool) bool {
		return t != nil && t.Op == "ld" && t.Args[0].Op == "index" && is(t.Args[0].Args[0]) && t.Args[0].Args[1] == l.Iter
	}
	ok := false
	if lp := loopPhiOf(r, bk); lp != nil && lp.L.Kind == "slice" && isC(lp.L.Coll) && lp.L.Full && constInt(e.length(lp.Init), 0) && len(lp.Back) == 1 && lp.Back[0].Op == "append" && lp.Back[0].Args[0] == lp.Term && len(lp.Back[0].Args) == 2 {
		el := lp.Back[0].Args[1]
		ok = elemAt(e.partOf(el, bc), lp.L, isC) && elemAt(e.partOf(el, be), lp.L, isE)
	} else if isFresh(rootOf(bk)) && e.sameLin(True, e.length(bk), e.length(old("CountPerBucket"))) {
		n := 0
		good := true
		for _, s := range append(r.storesTo(bc), r.storesTo(be)...) {
			if s.Addr.Args[0].Op != "index" || s.Addr.Args[0].Args[0] != bk {
				continue
			}
			l := loopOver(s, isC)
			is := isC
			if addrField(s.Addr) == be {
				is = isE
			}
			n++
			good = good && l != nil && l.Full && elemAt(s.Val, l, is) && s.Addr.Args[0].Args[1] == l.Iter && e.everyIter(s, l)
		}
		for _, s := range r.where("store", func(s *Effect) bool { return s.Addr.Op == "index" && s.Addr.Args[0] == bk }) {
			l := loopOver(s, isC)
			n += 2
			good = good && l != nil && l.Full && s.Addr.Args[1] == l.Iter && e.everyIter(s, l) && elemAt(e.partOf(s.Val, bc), l, isC) && elemAt(e.partOf(s.Val, be), l, isE)
		}
		ok = n >= 2 && good
	}
	c.need(ok, "point", "distribution:buckets", p, "the point does not list the count and exemplar of every bucket in order: %s", c.S(bk))
}

// c21labels: a row's labels are the values of the view's keys, in order.
func c21labels(c *Ctx) {
	e := c.E
	md := func(t, f string) *types.Var { return c.field("metric/metricdata", t, f) }
	tsP, tsL, tsS := md("TimeSeries", "Points"), md("TimeSeries", "LabelValues"), md("TimeSeries", "StartTime")
	dT, dL := md("Descriptor", "Type"), md("Descriptor", "LabelKeys")
	lvV, lvP, lkK := md("LabelValue", "Value"), md("LabelValue", "Present"), md("LabelKey", "Key")
	rowTags, rowData := c.field("stats/view", "Row", "Tags"), c.field("stats/view", "Row", "Data")
	tagV := c.field("tag", "Tag", "Value")
	keys := c.field("stats/view", "View", "TagKeys")
	vi := c.field("stats/view", "viewInternal", "metricDescriptor")
	if c.failed() {
		return
	}
	f := c.fn("stats/view", "rowToTimeseries")
	if f == nil {
		return
	}
	r := c.runWith(f, Opts{Resolve: c.keepIface("AggregationData")})
	if len(r.Rets) != 1 || !c.need(isFresh(r.Rets[0]), "series", "fresh", c.fpos(r), "a row becomes %s", c.S(r.Rets[0])) {
		return
	}
	ts, p := r.Rets[0], c.fpos(r)
	// receiver-side terms
	isDesc := func(t *Term, f *types.Var) bool {
		return isField(t, f, nil) && contains(t, func(x *Term) bool { return isField(x, vi, nil) })
	}
	pts := r.final(e.fa(ts, tsP))
	okP := false
	okA := false
	contains(pts, func(t *Term) bool {
		return false
	})
	for _, ef := range r.where("call", func(ef *Effect) bool { return ef.Name == "invoke (stats/view.AggregationData).toPoint" }) {
		okA = isField(ef.Args[0], rowData, nil) && isDesc(ef.Args[1], dT)
		if n := e.length(pts); constInt(n, 1) {
			b := pts
			for b.Op == "slice" {
				b = b.Args[0]
			}
			if b.Op == "alloc" {
				okP = r.final(e.indexAddr(b, e.mkInt(0, types.Typ[types.Int]), types.NewPointer(types.Typ[types.Int]))) == ef.Result || len(r.where("store", func(s *Effect) bool {
					return s.Val == ef.Result && s.Addr.Op == "index" && s.Addr.Args[0] == b
				})) == 1
			} else {
				okP = b == ef.Result || b.Op == "append" && b.Args[len(b.Args)-1] == ef.Result || b.Op == "lst" && b.Args[0] == ef.Result
			}
		}
	}
	c.need(okA, "series", "point", p, "a row's point is not built from its data for the view's metric type")
	c.need(okP, "series", "points", p, "a row's series has the points %s", c.S(pts))
	st := r.final(e.fa(ts, tsS))
	c.need(isCallTo(st, "invoke (stats/view.AggregationData).StartTime") && isField(st.Args[0], rowData, nil), "series", "start", p, "a row's series starts at %s", c.S(st))
	// labels
	lab := r.final(e.fa(ts, tsL))
	pe := c.perElem(r, lab)
	if c.need(pe != nil && isDesc(pe.L.Coll, dL), "series", "labels", p, "the labels are not built from all label keys, one each: %s", c.S(lab)) {
		isKey := func(t *Term) bool { return isField(t, lkK, nil) && isElemOf(t, pe.L) && inOrder(t, pe.L) }
		pc := pe.PC
		val, ok1 := pe.El(lvV)
		pres, ok2 := pe.El(lvP)
		if c.need(ok1 && ok2, "series", "labels-each", p, "the labels are not built one for each key: %s", c.S(lab)) {
			pb := e.bdd(pres)
			has := False
			for _, a := range e.atomsIn(func(t *Term) bool { return t.Op == "mapok" && isKey(t.Args[1]) }, pc, pb) {
				has = e.any(has, a)
			}
			c.need(e.decide(e.all(pc, has), pb) == 1 && e.decide(e.all(pc, e.not(has)), e.not(pb)) == 1, "series", "present", p, "a label is present if %s", c.P(e.all(pc, pb)))
			for _, vg := range e.cases(val) {
				if e.decide(e.all(pc, vg.C, pb), False) == 1 {
					continue
				}
				c.need(vg.T.Op == "mapval" && isKey(vg.T.Args[1]), "series", "label", p, "a label has the value %s", c.S(vg.T))
			}
		}
	}
	// the map of the row's tags
	nm := 0
	for _, mu := range r.where("mapupdate", nil) {
		nm++
		l := loopOver(mu, func(t *Term) bool { return isField(t, rowTags, nil) })
		ok := l != nil && l.Full && e.everyIter(mu, l) && elemField(mu.Val, l, tagV) && contains(mu.Key, func(t *Term) bool { return isElemOf(t, l) })
		c.need(ok, "series", "tags", c.pos(mu), "the row's tags are not all looked at: %s is %s", c.S(mu.Key), c.S(mu.Val))
	}
	c.floor("series", "tag maps", nm, 1)
	// the descriptor's label keys are the names of the view's keys in order
	dr := c.go1("stats/view", "viewToMetricDescriptor")
	if dr != nil && len(dr.Rets) == 1 && isFresh(dr.Rets[0]) {
		x, v := dr.Rets[0], dr.param(0)
		lk := dr.final(e.fa(x, dL))
		pe := c.perElem(dr, lk)
		if c.need(pe != nil && isField(pe.L.Coll, keys, v), "series", "label-keys", c.fpos(dr), "the label keys are %s", c.S(lk)) {
			k, ok := pe.El(lkK)
			c.need(ok && allLeaves(k, func(t *Term) bool {
				return contains(t, func(t *Term) bool { return isElemOf(t, pe.L) && inOrder(t, pe.L) })
			}), "series", "label-key", c.fpos(dr), "a label key is %s", c.S(k))
		}
		for _, q := range []struct{ d, v string }{{"Name", "Name"}, {"Description", "Description"}} {
			df, vf := md("Descriptor", q.d), c.field("stats/view", "View", q.v)
			if df != nil && vf != nil {
				c.need(isField(dr.final(e.fa(x, df)), vf, v), "series", "descriptor:"+q.d, c.fpos(dr), "the metric's %s is %s", q.d, c.S(dr.final(e.fa(x, df))))
			}
		}
	}
}

var _ *ssa.Function
