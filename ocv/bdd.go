package main

// A small reduced ordered BDD package.  Branch predicates of the analysed
// program are the variables; a program point's reachability condition is a
// BDD.  All decisions are exact over the finite set of predicates; there is
// no solver.

type BDD int32

const (
	False BDD = 0
	True  BDD = 1
)

type bddNode struct {
	v      int32
	lo, hi BDD
}

type bddMgr struct {
	nodes  []bddNode
	unique map[bddNode]BDD
	memo   map[[3]BDD]BDD
}

func newBDD() *bddMgr {
	m := &bddMgr{unique: map[bddNode]BDD{}, memo: map[[3]BDD]BDD{}}
	m.nodes = append(m.nodes, bddNode{1 << 30, 0, 0}, bddNode{1 << 30, 1, 1})
	return m
}

func (m *bddMgr) mk(v int32, lo, hi BDD) BDD {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if b, ok := m.unique[n]; ok {
		return b
	}
	b := BDD(len(m.nodes))
	m.nodes = append(m.nodes, n)
	m.unique[n] = b
	return b
}

func (m *bddMgr) Var(v int) BDD { return m.mk(int32(v), False, True) }

func (m *bddMgr) ite(f, g, h BDD) BDD {
	if f == True {
		return g
	}
	if f == False {
		return h
	}
	if g == h {
		return g
	}
	if g == True && h == False {
		return f
	}
	k := [3]BDD{f, g, h}
	if r, ok := m.memo[k]; ok {
		return r
	}
	v := m.nodes[f].v
	if x := m.nodes[g].v; x < v {
		v = x
	}
	if x := m.nodes[h].v; x < v {
		v = x
	}
	co := func(b BDD, hi bool) BDD {
		n := m.nodes[b]
		if n.v != v {
			return b
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	lo := m.ite(co(f, false), co(g, false), co(h, false))
	hi := m.ite(co(f, true), co(g, true), co(h, true))
	r := m.mk(v, lo, hi)
	m.memo[k] = r
	return r
}

func (m *bddMgr) And(a, b BDD) BDD { return m.ite(a, b, False) }
func (m *bddMgr) Or(a, b BDD) BDD  { return m.ite(a, True, b) }
func (m *bddMgr) Not(a BDD) BDD    { return m.ite(a, False, True) }
func (m *bddMgr) Implies(a, b BDD) bool {
	return m.ite(a, b, True) == True
}

// restrict fixes variable v to val.
func (m *bddMgr) restrict(b BDD, v int32, val bool) BDD {
	memo := map[BDD]BDD{}
	var rec func(b BDD) BDD
	rec = func(b BDD) BDD {
		n := m.nodes[b]
		if n.v > v {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		var r BDD
		if n.v == v {
			if val {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = m.mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[b] = r
		return r
	}
	return rec(b)
}

func (m *bddMgr) Exists(b BDD, v int) BDD {
	return m.Or(m.restrict(b, int32(v), false), m.restrict(b, int32(v), true))
}

func (m *bddMgr) Forall(b BDD, v int) BDD {
	return m.And(m.restrict(b, int32(v), false), m.restrict(b, int32(v), true))
}

// constrain: simplify f assuming care set c (Coudert-Madre "restrict"), so
// relative conditions stay small.
func (m *bddMgr) simplify(f, c BDD) BDD {
	if c == False {
		return f
	}
	type k struct{ f, c BDD }
	memo := map[k]BDD{}
	var rec func(f, c BDD) BDD
	rec = func(f, c BDD) BDD {
		if c == True || f == True || f == False {
			return f
		}
		if f == c {
			return True
		}
		kk := k{f, c}
		if r, ok := memo[kk]; ok {
			return r
		}
		fn, cn := m.nodes[f], m.nodes[c]
		var r BDD
		if cn.v < fn.v {
			r = rec(f, m.Or(cn.lo, cn.hi))
		} else {
			cl, ch := c, c
			if cn.v == fn.v {
				cl, ch = cn.lo, cn.hi
			}
			if cl == False {
				r = rec(fn.hi, ch)
			} else if ch == False {
				r = rec(fn.lo, cl)
			} else {
				r = m.mk(fn.v, rec(fn.lo, cl), rec(fn.hi, ch))
			}
		}
		memo[kk] = r
		return r
	}
	return rec(f, c)
}

func (m *bddMgr) Support(b BDD) []int {
	seen := map[BDD]bool{}
	vs := map[int]bool{}
	var rec func(b BDD)
	rec = func(b BDD) {
		if b <= 1 || seen[b] {
			return
		}
		seen[b] = true
		vs[int(m.nodes[b].v)] = true
		rec(m.nodes[b].lo)
		rec(m.nodes[b].hi)
	}
	rec(b)
	var out []int
	for v := range vs {
		out = append(out, v)
	}
	sortInts(out)
	return out
}

type lit struct {
	v   int
	pos bool
}

// Cubes enumerates the paths to True, up to max (second result false when
// there are more).
func (m *bddMgr) Cubes(b BDD, max int) ([][]lit, bool) {
	var out [][]lit
	ok := true
	var rec func(b BDD, cur []lit)
	rec = func(b BDD, cur []lit) {
		if !ok || b == False {
			return
		}
		if b == True {
			if len(out) >= max {
				ok = false
				return
			}
			out = append(out, append([]lit(nil), cur...))
			return
		}
		n := m.nodes[b]
		rec(n.lo, append(cur, lit{int(n.v), false}))
		rec(n.hi, append(cur, lit{int(n.v), true}))
	}
	rec(b, nil)
	return out, ok
}
