package main

import "go/token"

const tokLEQ = token.LEQ

// facts returns the literals implied by pc, expanding loop-exit atoms.
type factLit struct {
	Atom *Term
	Pos  bool
}

func (e *Eng) facts(pc BDD) []factLit {
	var out []factLit
	seen := map[BDD]bool{}
	var rec func(b BDD)
	rec = func(b BDD) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, v := range e.B.Support(b) {
			vv := e.B.Var(v)
			if e.B.Implies(b, vv) {
				out = append(out, factLit{e.atoms[v], true})
				if a := e.atoms[v]; a.Op == "exists" {
					rec(a.Obj.(BDD))
				}
			} else if e.B.Implies(b, e.B.Not(vv)) {
				out = append(out, factLit{e.atoms[v], false})
			}
		}
	}
	rec(pc)
	return out
}

func (r *Run) boundedByFacts(st *State, t *Term) bool {
	lo := r.nonneg(t)
	hi := false
	for _, f := range r.facts(st.pc) {
		a := f.Atom
		if a.Op == "eq" && f.Pos && (a.Args[0] == t || a.Args[1] == t) {
			return true
		}
		if a.Op != "le" {
			continue
		}
		k, _ := a.Args[1].intVal()
		l := r.toLin(a.Args[0])
		c := l.co[t]
		if c == 0 {
			continue
		}
		// l <= k  (pos)  or l >= k+1 (neg); other terms must be small
		ok := true
		for o := range l.co {
			if o != t {
				switch o.Op {
				case "len", "cap", "iter", "conv8":
				default:
					ok = false
				}
			}
		}
		if !ok || k > 1<<40 || k < -(1<<40) {
			continue
		}
		if (c > 0) == f.Pos {
			hi = true
		} else {
			lo = true
		}
	}
	return lo && hi
}
