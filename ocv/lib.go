package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- reporting ----------

type Violation struct {
	Rule, Key, Pos, Msg string
}

// Ctx is one property's check run.
type Ctx struct {
	W          *World
	ID         string
	E          *Eng
	Oblig      int
	Done       int
	Violations []Violation
	Rules      map[string]int
	Funcs      map[string]bool
	Samples    []string
	Notes      []string
	Assume     []string
	runs       map[string]*Run
	res        func(recv *Term, m *types.Func) []*ssa.Function
	globW      map[*ssa.Global]bool
}

func newCtx(w *World, id string) *Ctx {
	c := &Ctx{W: w, ID: id, E: newEng(w), Rules: map[string]int{}, Funcs: map[string]bool{}, runs: map[string]*Run{}}
	// tables that never change, looked up with a constant
	c.E.constLookup = func(a, k *Term) (*Term, bool, bool) {
		g, _ := a.Obj.(*ssa.Global)
		ks, vs, ok := c.constMap(g)
		if !ok {
			return nil, false, false
		}
		for i, x := range ks {
			if !x.isConst() || !vs[i].isConst() {
				return nil, false, false
			}
			if unconv(x) == unconv(k) {
				return vs[i], true, true
			}
		}
		return nil, false, true
	}
	return c
}

// need records one obligation of a rule about a construct.
func (c *Ctx) need(ok bool, rule, key, pos, format string, a ...any) bool {
	c.Oblig++
	c.Rules[rule]++
	if ok {
		c.Done++
		if len(c.Samples) < 60 && c.Rules[rule] <= 3 {
			c.Samples = append(c.Samples, rule+": "+key+" ("+pos+")")
		}
		return true
	}
	msg := fmt.Sprintf(format, a...)
	for _, v := range c.Violations {
		if v.Rule == rule && v.Key == key && v.Pos == pos {
			return false
		}
	}
	c.Violations = append(c.Violations, Violation{rule, key, pos, msg})
	return false
}

func (c *Ctx) bad(rule, key, pos, format string, a ...any) {
	c.need(false, rule, key, pos, format, a...)
}

// floor fails when fewer instances than expected were found: an anchor that no
// longer resolves must not pass silently.
func (c *Ctx) floor(rule, what string, n, min int) bool {
	return c.need(n >= min, rule, "anchor:"+what, "-", "only %d instance(s) of %s found, expected at least %d: the construct this rule is anchored to is gone, so the property is undecided", n, what, min)
}

func (c *Ctx) fn(pkg, name string) *ssa.Function {
	f := c.W.fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.bad("anchor", pkg+"."+name, "-", "function %s.%s not found: the property is undecided", pkg, name)
		return nil
	}
	return f
}

func (c *Ctx) field(pkg, typ, field string) *types.Var {
	v := c.fieldq(pkg, typ, field)
	if v == nil {
		c.bad("anchor", pkg+"."+typ+"."+field, "-", "field %s.%s.%s not found: the property is undecided", pkg, typ, field)
	}
	return v
}

func (c *Ctx) fieldq(pkg, typ, field string) *types.Var {
	n := c.W.typ(pkg, typ)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	find := func(field string) *types.Var {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				return st.Field(i)
			}
		}
		return nil
	}
	if v := find(field); v != nil {
		return v
	}
	if f := c.W.renamedField(pkg, typ, n.Obj().Name(), field); f != "" {
		return find(f)
	}
	return nil
}

// run analyses a function once (memoised per option key).
func (c *Ctx) run(f *ssa.Function, o Opts) *Run {
	k := fmt.Sprintf("%s|%v|%v|%v|%v", f.String(), o.Loads, o.Overflow, o.Inline != nil, o.Resolve != nil)
	if r, ok := c.runs[k]; ok && o.Inline == nil {
		return r
	}
	r := c.E.Analyse(f, o)
	c.note(r)
	c.runs[k] = r
	return r
}

func (c *Ctx) note(r *Run) {
	for f := range r.visited {
		c.Funcs[fnName(f)] = true
	}
}

func (c *Ctx) pos(ef *Effect) string { return c.W.instrPos(ef.Instr) }

// ---------- effect queries ----------

func (r *Run) where(kind string, p func(*Effect) bool) []*Effect {
	var out []*Effect
	for _, ef := range r.Effects {
		if ef.Kind == kind && (p == nil || p(ef)) {
			out = append(out, ef)
		}
	}
	return out
}

func (r *Run) calls(name string) []*Effect {
	return r.where("call", func(e *Effect) bool { return e.Name == name })
}

func (r *Run) storesTo(f *types.Var) []*Effect {
	return r.where("store", func(e *Effect) bool { return addrField(e.Addr) == f })
}

func addrField(a *Term) *types.Var {
	if a == nil {
		return nil
	}
	if a.Op == "ite" {
		if f := addrField(a.Args[0]); f != nil {
			return f
		}
		return addrField(a.Args[1])
	}
	if a.Op == "field" {
		return a.Obj.(*types.Var)
	}
	return nil
}

// isField: t is a read of field f (of base b when b != nil).
func isField(t *Term, f *types.Var, b *Term) bool {
	if t == nil || f == nil {
		return false
	}
	switch t.Op {
	case "ld":
		a := t.Args[0]
		return a.Op == "field" && a.Obj == any(f) && (b == nil || a.Args[0] == b)
	case "fieldof":
		return t.Obj == any(f)
	case "loopmem":
		a := t.Args[0]
		return a.Op == "field" && a.Obj == any(f) && (b == nil || a.Args[0] == b)
	}
	return false
}

// contains reports whether some sub-term satisfies p.
func contains(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		if l, ok := t.Obj.(*LoopPhi); ok && (t.Op == "loopphi") {
			if rec(l.Init) {
				return true
			}
			for _, b := range l.Back {
				if rec(b) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// containsC also looks into the predicates of ite and bool terms.
func (e *Eng) containsC(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		if b, ok := t.Obj.(BDD); ok {
			for _, v := range e.B.Support(b) {
				if rec(e.atoms[v]) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// leaves lists the alternatives of a gated value.
func leaves(t *Term) []*Term {
	if t != nil && t.Op == "ite" {
		return append(leaves(t.Args[0]), leaves(t.Args[1])...)
	}
	return []*Term{t}
}

type guarded struct {
	C BDD
	T *Term
}

// cases lists the alternatives of a gated value with their conditions.
func (e *Eng) cases(t *Term) []guarded {
	var out []guarded
	var rec func(c BDD, t *Term)
	rec = func(c BDD, t *Term) {
		if c == False {
			return
		}
		if t != nil && t.Op == "ite" {
			x := t.Obj.(BDD)
			rec(e.B.And(c, x), t.Args[0])
			rec(e.B.And(c, e.B.Not(x)), t.Args[1])
			return
		}
		// a list to which something was appended conditionally
		if t != nil && t.Op == "append" && e.condBase(t) {
			for _, g := range e.cases(t.Args[0]) {
				if x := e.B.And(c, g.C); x != False {
					out = append(out, guarded{x, e.mk("append", t.Aux, t.T, t.Obj, append([]*Term{g.T}, t.Args[1:]...)...)})
				}
			}
			return
		}
		out = append(out, guarded{c, t})
	}
	rec(True, t)
	return out
}

func (e *Eng) condBase(t *Term) bool {
	for t.Op == "append" {
		t = t.Args[0]
	}
	return t.Op == "ite"
}

// under simplifies t assuming cond (deciding predicates with the linear and
// equality theory).
func (e *Eng) under(t *Term, cond BDD) *Term {
	if t == nil {
		return nil
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil || len(t.Args) == 0 && t.Op != "bool" {
			return t
		}
		if x, ok := memo[t]; ok {
			return x
		}
		memo[t] = t
		var out *Term
		switch t.Op {
		case "bool":
			b := t.Obj.(BDD)
			switch e.decide(cond, b) {
			case 1:
				out = e.mkBool(True)
			case -1:
				out = e.mkBool(False)
			default:
				out = e.mkBool(e.B.simplify(b, cond))
			}
		case "ite":
			b := t.Obj.(BDD)
			switch e.decide(cond, b) {
			case 1:
				out = rec(t.Args[0])
			case -1:
				out = rec(t.Args[1])
			default:
				out = e.ite(b, rec(t.Args[0]), rec(t.Args[1]))
			}
		case "lin":
			l := t.Obj.(lin)
			n := lin{map[*Term]int64{}, l.k}
			for k, c := range l.co {
				n = n.add(e.toLin(rec(k)), c)
			}
			out = e.fromLin(n, t.T)
		case "append":
			args := make([]*Term, 0, len(t.Args))
			for i, a := range t.Args {
				x := rec(a)
				if i == 0 && x.Op == "append" {
					args = append(args, x.Args...)
				} else {
					args = append(args, x)
				}
			}
			out = e.mk("append", t.Aux, t.T, t.Obj, args...)
		case "len":
			x := rec(t.Args[0])
			if x != t.Args[0] && t.Aux == "" {
				out = e.length(x)
			} else {
				out = t
			}
		default:
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			out = t
			switch {
			case ch && t.Op == "slice" && len(args) == 4:
				out = e.mkSlice(t.T, args[0], args[1], args[2], args[3])
			case ch && t.Op == "index":
				out = e.indexAddr(args[0], args[1], deref(t.T))
			case ch:
				out = e.mk(t.Op, t.Aux, t.T, t.Obj, args...)
			}
		}
		memo[t] = out
		return out
	}
	return rec(t)
}

// decide: 1 when cond => b, -1 when cond => !b, 0 otherwise, modulo theory.
func (e *Eng) decide(cond, b BDD) int {
	if e.B.Implies(cond, b) {
		return 1
	}
	if b == False {
		// is it unreachable?
		if e.B.And(cond, e.theory(cond)) == False {
			return 1
		}
		return -1
	}
	if e.B.And(cond, b) == False {
		return -1
	}
	th := e.theory(cond, b)
	c := e.B.And(cond, th)
	if c == False {
		return 1
	}
	if e.B.Implies(c, b) {
		return 1
	}
	if e.B.And(c, b) == False {
		return -1
	}
	return 0
}

// implies modulo theory.
func (e *Eng) implies(a, b BDD) bool {
	if e.B.Implies(a, b) {
		return true
	}
	return e.B.Implies(e.B.And(a, e.theory(a, b)), b)
}

func (e *Eng) equiv(a, b BDD) bool { return e.implies(a, b) && e.implies(b, a) }

// theory returns the pairwise consequences among the predicates of the given
// conditions: equalities with different constants exclude each other, type
// tests for different concrete types exclude each other, and linear bounds
// over the same expression are ordered.
func (e *Eng) theory(bs ...BDD) BDD {
	vs := map[int]bool{}
	for _, b := range bs {
		for _, v := range e.B.Support(b) {
			vs[v] = true
		}
	}
	var l []int
	for v := range vs {
		l = append(l, v)
	}
	sort.Ints(l)
	th := True
	// leaving a loop early implies the condition of the exit
	for _, v := range l {
		if a := e.atoms[v]; a.Op == "more" && a.Args[0].Op == "ite" {
			// only a collection that is not nil has elements
			some := False
			for _, g := range e.cases(a.Args[0]) {
				if g.T.Op != "nil" {
					some = e.B.Or(some, g.C)
				}
			}
			th = e.B.And(th, e.B.Or(e.B.Not(e.B.Var(v)), some))
		}
		if a := e.atoms[v]; a.Op == "exists" {
			if raw, ok := a.Obj.(BDD); ok {
				key := fmt.Sprint(raw, l)
				p, ok := e.exitFacts[key]
				if !ok {
					p = raw
					for _, x := range e.B.Support(raw) {
						if !vs[x] || x == v {
							p = e.B.Exists(p, x)
						}
					}
					if e.exitFacts == nil {
						e.exitFacts = map[string]BDD{}
					}
					e.exitFacts[key] = p
				}
				th = e.B.And(th, e.B.Or(e.B.Not(e.B.Var(v)), p))
			}
		}
	}
	for i := 0; i < len(l); i++ {
		for j := i + 1; j < len(l); j++ {
			th = e.B.And(th, e.pair(l[i], l[j]))
		}
	}
	return e.B.And(th, e.linTheory(l))
}

// linTheory adds the consequences of linear integer bounds: all bounds on one
// linear form against each other, and sums of two bounds against a third.
func (e *Eng) linTheory(l []int) BDD {
	type at struct {
		v   int
		eq  bool
		k   int64 // P <= k or P == k
		key string
		p   lin // linear part only
	}
	key := func(p lin) string {
		var sb strings.Builder
		for _, t := range p.keys() {
			fmt.Fprintf(&sb, "%d*%d ", p.co[t], t.ID)
		}
		return sb.String()
	}
	var as []at
	groups := map[string][]at{}
	nn := map[*Term]bool{}
	for _, v := range l {
		t := e.atoms[v]
		if t.Op != "le" && t.Op != "eq" {
			continue
		}
		k, ok := t.Args[1].intVal()
		if !ok {
			continue
		}
		p := e.toLin(t.Args[0])
		if len(p.co) == 0 {
			continue
		}
		k -= p.k
		p = lin{p.co, 0}
		a := at{v, t.Op == "eq", k, key(p), p}
		as = append(as, a)
		groups[a.key] = append(groups[a.key], a)
		if len(p.co) > 1 || len(as) < 40 {
			for x := range p.co {
				if e.nonneg(x) {
					nn[x] = true
				}
			}
		}
	}
	th := True
	var gk []string
	for k := range groups {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		g := groups[k]
		if len(g) < 3 {
			continue // pairs are covered by pair
		}
		var pts []int64
		seen := map[int64]bool{}
		add := func(x int64) {
			if !seen[x] {
				seen[x] = true
				pts = append(pts, x)
			}
		}
		for _, a := range g {
			add(a.k)
			add(a.k + 1)
			if a.eq {
				add(a.k - 1)
			}
		}
		any := False
		for _, x := range pts {
			c := True
			for _, a := range g {
				b := e.B.Var(a.v)
				if a.eq && a.k != x || !a.eq && x > a.k {
					b = e.B.Not(b)
				}
				c = e.B.And(c, b)
			}
			any = e.B.Or(any, c)
		}
		th = e.B.And(th, any)
	}
	if len(as) > 40 {
		return th
	}
	// sums of two bounds
	type cons struct {
		lit BDD
		l   lin // l <= 0
	}
	var cs []cons
	var free []cons
	for _, a := range as {
		b := e.B.Var(a.v)
		up := lin{a.p.co, -a.k}
		dn := a.p.scale(-1)
		if a.eq {
			dn.k = a.k
			cs = append(cs, cons{b, up}, cons{b, dn})
		} else {
			dn.k = a.k + 1
			cs = append(cs, cons{b, up}, cons{e.B.Not(b), dn})
		}
	}
	var nt []*Term
	for x := range nn {
		nt = append(nt, x)
	}
	sort.Slice(nt, func(i, j int) bool { return nt[i].ID < nt[j].ID })
	for _, x := range nt {
		free = append(free, cons{True, lin{map[*Term]int64{x: -1}, 0}})
	}
	if len(free) > 20 {
		free = free[:20]
	}
	all := append(append([]cons{}, cs...), free...)
	emit := func(lit BDD, m lin) {
		if len(m.co) == 0 {
			if m.k > 0 {
				th = e.B.And(th, e.B.Not(lit))
			}
			return
		}
		for _, s := range []int64{1, -1} {
			p := m.scale(s)
			g := groups[key(lin{p.co, 0})]
			for _, a := range g {
				b := e.B.Var(a.v)
				if s == 1 { // P <= -m.k
					if !a.eq && -m.k <= a.k {
						th = e.B.And(th, e.B.Or(e.B.Not(lit), b))
					}
					if a.eq && a.k > -m.k {
						th = e.B.And(th, e.B.Not(e.B.And(lit, b)))
					}
				} else { // P >= m.k
					if a.k < m.k {
						th = e.B.And(th, e.B.Not(e.B.And(lit, b)))
					}
				}
			}
		}
	}
	for i := 0; i < len(all); i++ {
		for j := i + 1; j < len(all); j++ {
			x, y := all[i], all[j]
			shared := false
			for t, c := range x.l.co {
				if d, ok := y.l.co[t]; ok && (c > 0) != (d > 0) {
					shared = true
				}
			}
			if !shared {
				continue
			}
			lit := e.B.And(x.lit, y.lit)
			if lit == False {
				continue
			}
			emit(lit, x.l.add(y.l, 1))
		}
	}
	return th
}

func (e *Eng) pair(i, j int) BDD {
	a, b := e.atoms[i], e.atoms[j]
	A, B := e.B.Var(i), e.B.Var(j)
	out := True
	no := func(x, y BDD) { out = e.B.And(out, e.B.Not(e.B.And(x, y))) }
	if a.Op == "isT" && b.Op == "isT" && a.Args[0] == b.Args[0] {
		ta, tb := a.Obj.(types.Type), b.Obj.(types.Type)
		if !types.IsInterface(ta) && !types.IsInterface(tb) {
			no(A, B)
		}
		return out
	}
	nilT := func(x, y *Term, X, Y BDD) {
		// isT(v,T) implies v != nil
		if x.Op == "isT" && y.Op == "eq" && y.Args[0] == x.Args[0] && y.Args[1].Op == "nil" {
			no(X, Y)
		}
	}
	nilT(a, b, A, B)
	nilT(b, a, B, A)
	if a.Op == "eq" && b.Op == "eq" && a.Args[0] == b.Args[0] && a.Args[1] != b.Args[1] && a.Args[1].Op == "const" && b.Args[1].Op == "const" {
		no(A, B)
		return out
	}
	ints := func(t *Term) (l lin, kind string, ok bool) {
		if t.Op != "le" && t.Op != "eq" {
			return
		}
		k, okk := t.Args[1].intVal()
		if !okk {
			return
		}
		l = e.toLin(t.Args[0])
		l.k -= k
		return l, t.Op, true
	}
	la, ka, ok1 := ints(a)
	lb, kb, ok2 := ints(b)
	if ok1 && ok2 {
		// same linear part up to sign?
		for _, s := range []int64{1, -1} {
			d := la.add(lb, -s)
			if len(d.co) != 0 {
				continue
			}
			// a: x + la.k ; b: s*(x + lb.k*s...) => express both over x = linear part of a
			// a(le): x <= -la.k ; a(eq): x == -la.k
			// b: lb = s*x + lb.k : le -> s=1: x <= -lb.k ; s=-1: x >= lb.k
			type iv struct{ lo, hi int64 }
			const inf = int64(1) << 60
			rng := func(kind string, s, k int64, pos bool) []iv {
				if kind == "eq" {
					v := -k * s
					if pos {
						return []iv{{v, v}}
					}
					return []iv{{-inf, v - 1}, {v + 1, inf}}
				}
				if s == 1 {
					if pos {
						return []iv{{-inf, -k}}
					}
					return []iv{{-k + 1, inf}}
				}
				if pos {
					return []iv{{k, inf}}
				}
				return []iv{{-inf, k - 1}}
			}
			for _, pa := range []bool{true, false} {
				for _, pb := range []bool{true, false} {
					ok := false
					for _, x := range rng(ka, 1, la.k, pa) {
						for _, y := range rng(kb, s, lb.k, pb) {
							lo, hi := x.lo, x.hi
							if y.lo > lo {
								lo = y.lo
							}
							if y.hi < hi {
								hi = y.hi
							}
							if lo <= hi {
								ok = true
							}
						}
					}
					if !ok {
						X, Y := A, B
						if !pa {
							X = e.B.Not(X)
						}
						if !pb {
							Y = e.B.Not(Y)
						}
						no(X, Y)
					}
				}
			}
			return out
		}
	}
	return out
}

// atomWhere returns the disjunction-free predicate of the unique atom
// matching p within the support of the given conditions.
func (e *Eng) atomsIn(p func(*Term) bool, bs ...BDD) []BDD {
	var out []BDD
	seen := map[int]bool{}
	for _, b := range bs {
		for _, v := range e.B.Support(b) {
			if !seen[v] && p(e.atoms[v]) {
				seen[v] = true
				out = append(out, e.B.Var(v))
			}
		}
	}
	return out
}

// project existentially removes every atom not kept.
func (e *Eng) project(b BDD, keep func(*Term) bool) BDD {
	for _, v := range e.B.Support(b) {
		if !keep(e.atoms[v]) {
			b = e.B.Exists(b, v)
		}
	}
	return b
}

// forget existentially removes atoms that match.
func (e *Eng) forget(b BDD, drop func(*Term) bool) BDD {
	return e.project(b, func(t *Term) bool { return !drop(t) })
}

func loopAtom(t *Term) bool {
	switch t.Op {
	case "more", "exists":
		return true
	case "le", "eq":
		// a condition on the position, not on the element there
		return positionOnly(t)
	}
	return false
}

func positionOnly(t *Term) bool {
	found := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || found {
			return
		}
		switch t.Op {
		case "iter":
			found = true
			return
		case "index", "indexof", "ld", "len", "mapval", "mapok", "call", "ext":
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		if lf, ok := t.Obj.(lin); ok && t.Op == "lin" {
			for x := range lf.co {
				rec(x)
			}
		}
	}
	rec(t)
	return found
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

func (c *Ctx) P(b BDD) string    { return short(c.E.P(b), 400) }
func (c *Ctx) S(t *Term) string  { return short(c.E.S(t), 300) }
func (r *Run) param(i int) *Term { return r.Root.params[i] }

// anyLoc finds struct field address terms: field f of base.
func (e *Eng) fa(base *Term, f *types.Var) *Term {
	if base.Op == "ite" {
		return e.ite(base.Obj.(BDD), e.fa(base.Args[0], f), e.fa(base.Args[1], f))
	}
	return e.mk("field", e.oid(f), types.NewPointer(f.Type()), f, base)
}

// fv is the initial value of field f of base.
func (e *Eng) fv(base *Term, f *types.Var) *Term {
	t := e.mk("ld", "", f.Type(), nil, e.fa(base, f))
	if isBool(f.Type()) {
		return e.mkBool(e.bdd(t))
	}
	return t
}

// final is the value of a location when the analysed root returns.
func (r *Run) final(a *Term) *Term {
	if r.Final == nil {
		return nil
	}
	return r.loadT(r.Final, a, deref(a.T))
}
