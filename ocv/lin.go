package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Linear integer arithmetic: entailment between conditions decided by
// Fourier-Motzkin elimination with integer tightening over the cubes of a
// condition. Incomplete (never claims an entailment that does not hold).

type lcon struct { // sum co*x + k <= 0
	co map[*Term]*big.Int
	k  *big.Int
}

func mkLcon(l lin, neg bool) *lcon {
	c := &lcon{co: map[*Term]*big.Int{}, k: big.NewInt(l.k)}
	for t, v := range l.co {
		c.co[t] = big.NewInt(v)
	}
	if neg { // l > 0  <=> -l + 1 <= 0
		for _, v := range c.co {
			v.Neg(v)
		}
		c.k.Neg(c.k)
		c.k.Add(c.k, big.NewInt(1))
	}
	return c
}

func (c *lcon) tighten() {
	if len(c.co) == 0 {
		return
	}
	g := new(big.Int)
	for _, v := range c.co {
		g.GCD(nil, nil, g, new(big.Int).Abs(v))
	}
	if g.Cmp(big.NewInt(1)) <= 0 {
		return
	}
	for _, v := range c.co {
		v.Quo(v, g)
	}
	// sum <= -k  =>  sum/g <= floor(-k/g)
	nk := new(big.Int).Neg(c.k)
	q, m := new(big.Int).DivMod(nk, g, new(big.Int))
	_ = m
	c.k = q.Neg(q)
}

func (c *lcon) key() string {
	var ks []*Term
	for t := range c.co {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	var sb strings.Builder
	for _, t := range ks {
		fmt.Fprintf(&sb, "%d*%s,", t.ID, c.co[t])
	}
	return sb.String()
}

// fmUnsat reports whether the constraints have no integer solution (by
// rational elimination with tightening).
func fmUnsat(cs []*lcon) bool {
	for round := 0; round < 60; round++ {
		best := map[string]*lcon{}
		var order []string
		for _, c := range cs {
			c.tighten()
			if len(c.co) == 0 {
				if c.k.Sign() > 0 {
					return true
				}
				continue
			}
			k := c.key()
			if o := best[k]; o == nil {
				best[k] = c
				order = append(order, k)
			} else if c.k.Cmp(o.k) > 0 {
				best[k] = c
			}
		}
		cs = cs[:0:0]
		for _, k := range order {
			cs = append(cs, best[k])
		}
		if len(cs) == 0 {
			return false
		}
		// the variable with the cheapest elimination
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, c := range cs {
			for t, v := range c.co {
				if v.Sign() > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		var pick *Term
		cost := 1 << 30
		var ts []*Term
		seen := map[*Term]bool{}
		for _, c := range cs {
			for t := range c.co {
				if !seen[t] {
					seen[t] = true
					ts = append(ts, t)
				}
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
		for _, t := range ts {
			if k := pos[t]*neg[t] - pos[t] - neg[t]; k < cost {
				cost, pick = k, t
			}
		}
		var next, up, dn []*lcon
		for _, c := range cs {
			switch v := c.co[pick]; {
			case v == nil:
				next = append(next, c)
			case v.Sign() > 0:
				up = append(up, c)
			default:
				dn = append(dn, c)
			}
		}
		if len(up)*len(dn) > 4000 {
			return false
		}
		for _, u := range up {
			for _, d := range dn {
				a := u.co[pick]
				b := new(big.Int).Neg(d.co[pick])
				n := &lcon{co: map[*Term]*big.Int{}, k: new(big.Int)}
				n.k.Add(new(big.Int).Mul(u.k, b), new(big.Int).Mul(d.k, a))
				for t, v := range u.co {
					n.co[t] = new(big.Int).Mul(v, b)
				}
				for t, v := range d.co {
					w := n.co[t]
					if w == nil {
						w = new(big.Int)
						n.co[t] = w
					}
					w.Add(w, new(big.Int).Mul(v, a))
				}
				for t, v := range n.co {
					if v.Sign() == 0 {
						delete(n.co, t)
					}
				}
				next = append(next, n)
			}
		}
		cs = next
	}
	return false
}

// litCons turns a literal into linear constraints (nil when it is none).
func (e *Eng) litCons(a *Term, pos bool) []*lcon {
	if a.Op != "le" && a.Op != "eq" {
		return nil
	}
	if a.Op == "eq" && !isInt(a.Args[0].T) && !isInt(a.Args[1].T) {
		return nil
	}
	l := e.toLin(a.Args[0]).add(e.toLin(a.Args[1]), -1)
	if a.Op == "le" {
		return []*lcon{mkLcon(l, !pos)}
	}
	if !pos {
		return nil
	}
	return []*lcon{mkLcon(l, false), mkLcon(l.scale(-1), false)}
}

func isLinAtom(t *Term) bool {
	return t.Op == "le" || t.Op == "eq" && (isInt(t.Args[0].T) || isInt(t.Args[1].T))
}

// linEntails: pc and ax imply goal, by linear arithmetic.
func (e *Eng) linEntails(pc, ax, goal BDD) bool {
	bad := e.all(pc, ax, e.not(goal))
	if bad == False {
		return true
	}
	bad = e.project(bad, isLinAtom)
	cubes, ok := e.B.Cubes(bad, 3000)
	if !ok {
		return false
	}
	for _, cu := range cubes {
		var cs []*lcon
		vars := map[*Term]bool{}
		for _, l := range cu {
			for _, c := range e.litCons(e.atoms[l.v], l.pos) {
				cs = append(cs, c)
				for t := range c.co {
					vars[t] = true
				}
			}
		}
		cs = append(cs, e.rangeCons(vars)...)
		if !fmUnsat(cs) {
			return false
		}
	}
	return true
}

// rangeCons: bounds that hold of terms by their kind.
func (e *Eng) rangeCons(vars map[*Term]bool) []*lcon {
	var cs []*lcon
	for t := range vars {
		le := func(k *big.Int) { // t <= k
			cs = append(cs, &lcon{co: map[*Term]*big.Int{t: big.NewInt(1)}, k: new(big.Int).Neg(k)})
		}
		ge := func(k *big.Int) { // t >= k
			cs = append(cs, &lcon{co: map[*Term]*big.Int{t: big.NewInt(-1)}, k: new(big.Int).Set(k)})
		}
		p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
		switch t.Op {
		case "len", "cap", "iter", "copied":
			ge(big.NewInt(0))
			le(p(40))
			continue
		}
		if e.nonneg(t) {
			ge(big.NewInt(0))
		}
		if isInt(t.T) {
			b := uint(intBits(t.T))
			if isUnsigned(t.T) {
				ge(big.NewInt(0))
				le(new(big.Int).Sub(p(b), big.NewInt(1)))
			} else {
				le(new(big.Int).Sub(p(b-1), big.NewInt(1)))
				ge(new(big.Int).Neg(p(b - 1)))
			}
		}
	}
	return cs
}

// fits: the ideal result l of arithmetic in T does not leave T's range.
func (r *Run) fits(st *State, l lin, T types.Type) bool {
	e := r.Eng
	b := uint(intBits(T))
	t := e.fromLin(l, T)
	if t.Op == "const" {
		return true
	}
	// the range of 64-bit types does not fit the constants used here;
	// require a stronger bound
	lo, hi := int64(0), int64(1)<<62
	if b < 64 {
		hi = int64(1)<<b - 1
		if !isUnsigned(T) {
			hi = int64(1)<<(b-1) - 1
		}
	}
	if !isUnsigned(T) {
		lo = -hi
	}
	a := l
	a.k -= hi
	c := l.scale(-1)
	c.k += lo
	goal := e.all(e.leZeroRaw(a), e.leZeroRaw(c))
	return e.linEntails(st.pc, e.axioms(st.pc, goal), goal)
}

// leZeroRaw is leZero without the shortcuts for trivially true bounds, so that
// range facts stay visible.
func (e *Eng) leZeroRaw(l lin) BDD {
	if len(l.co) == 0 {
		if l.k <= 0 {
			return True
		}
		return False
	}
	return e.leZero(l)
}

// convAxioms: a conversion keeps the value when it is in range.
func (e *Eng) convAxioms(t *Term) BDD {
	if (t.Op != "conv" && t.Op != "conv8") || !isInt(t.T) || len(t.Args) != 1 || !isInt(t.Args[0].T) {
		return True
	}
	x := t.Args[0]
	hi := int64(1) << 62
	if b := intBits(t.T); b < 64 {
		hi = int64(1)<<uint(b) - 1
		if !isUnsigned(t.T) {
			hi = int64(1)<<uint(b-1) - 1
		}
	}
	in := e.all(e.leq(e.mkInt(0, nil), x), e.leq(x, e.mkInt(hi, nil)))
	eq := e.all(e.leq(t, x), e.leq(x, t))
	out := e.any(e.not(in), eq)
	if isUnsigned(t.T) && !isUnsigned(x.T) && intBits(t.T) == 64 {
		// negative values become huge
		out = e.all(out, e.any(e.leq(e.mkInt(0, nil), x), e.leq(e.mkInt(hi, nil), t)))
	}
	return out
}

// ---- loop invariants t >= 0, by assumption and induction ----

func (e *Eng) nnCandidate(t *Term) bool {
	return (t.Op == "loopphi" || t.Op == "loopmem") && isInt(t.T) && !e.noInv[t]
}

// runInv analyses f, assuming that every loop-carried integer stays
// non-negative, and repeats without the assumptions that induction refutes.
func (c *Ctx) runInv(run func() *Run) *Run {
	e := c.E
	for i := 0; ; i++ {
		e.useInv = true
		r := run()
		bad := 0
		zero := e.mkInt(0, nil)
		nonneg := func(pc BDD, t *Term) bool {
			for _, g := range e.cases(t) {
				if !e.provable(r, e.all(pc, g.C), e.leq(zero, g.T)) {
					return false
				}
			}
			return true
		}
		for _, p := range e.lenPairs(r.loopVars()) {
			if e.noPair[[2]*Term{p[0].Term, p[1].Term}] {
				continue
			}
			ok := len(p[0].Back) == len(p[1].Back) && e.lenPair(r, p[0].L.Entry, p[0].Init, p[1].Init)
			for k := range p[0].Back {
				pc := True
				if k < len(p[0].BPC) {
					pc = p[0].BPC[k]
				}
				ok = ok && e.lenPair(r, pc, p[0].Back[k], p[1].Back[k])
			}
			if !ok {
				e.noPair[[2]*Term{p[0].Term, p[1].Term}] = true
				bad++
			}
		}
		for _, lp := range r.loopVars() {
			t := lp.Term
			if !e.nnCandidate(t) {
				continue
			}
			ok := nonneg(lp.L.Entry, lp.Init)
			for k, b := range lp.Back {
				pc := True
				if k < len(lp.BPC) {
					pc = lp.BPC[k]
				}
				ok = ok && nonneg(pc, b)
			}
			if !ok {
				e.noInv[t] = true
				bad++
			}
		}
		if bad == 0 {
			return r
		}
		if i > 6 {
			return run()
		}
	}
}

func (r *Run) addOvf(st *State, op token.Token, a, b *Term, T types.Type) *Term {
	s := int64(1)
	if op == token.SUB {
		s = -1
	}
	l := r.toLin(a).add(r.toLin(b), s)
	if r.bounded(st, a) && r.bounded(st, b) && !isUnsigned(T) && intBits(T) == 64 {
		return r.fromLin(l, T)
	}
	if r.fits(st, l, T) {
		return r.fromLin(l, T)
	}
	return r.mk("wrap"+op.String(), "", T, nil, a, b)
}

// leqx is leq with conditional operands split.
func (e *Eng) leqx(a, b *Term) BDD {
	out := True
	for _, x := range e.cases(a) {
		for _, y := range e.cases(b) {
			out = e.all(out, e.any(e.not(e.all(x.C, y.C)), e.leq(x.T, y.T)))
		}
	}
	return out
}

// loopVars are the loop-carried values of a run.
func (r *Run) loopVars() []*LoopPhi {
	var out []*LoopPhi
	for _, l := range r.Loops {
		for _, lp := range l.phis {
			out = append(out, lp)
		}
		for _, lp := range l.Memvar {
			out = append(out, lp)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Term.ID < out[j].Term.ID })
	return out
}

// lenPairs: the candidate invariants i <= len(s) of loop-carried i and s.
func (e *Eng) lenPairs(vs []*LoopPhi) [][2]*LoopPhi {
	var out [][2]*LoopPhi
	for _, a := range vs {
		if !e.nnCandidate(a.Term) {
			continue
		}
		for _, b := range vs {
			if a.L == b.L && isSlice(b.Term.T) {
				out = append(out, [2]*LoopPhi{a, b})
			}
		}
	}
	return out
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// lenPair: i <= len(s) under pc, case by case.
func (e *Eng) lenPair(r *Run, pc BDD, i, s *Term) bool {
	for _, gi := range e.cases(i) {
		for _, gs := range e.cases(s) {
			cc := e.all(pc, gi.C, gs.C)
			if e.decide(cc, False) == 1 {
				continue
			}
			for _, gl := range e.cases(e.length(gs.T)) {
				if !e.provable(r, e.all(cc, gl.C), e.leq(gi.T, gl.T)) {
					return false
				}
			}
		}
	}
	return true
}

// sameLoopVar: two loop-carried values of one loop.
func sameLoopVar(a, b *Term) bool {
	if a.Op != b.Op {
		return false
	}
	if a.Op == "loopmem" {
		return a.Aux == b.Aux
	}
	x, ok1 := a.Obj.(*LoopPhi)
	y, ok2 := b.Obj.(*LoopPhi)
	return ok1 && ok2 && x.L == y.L
}
