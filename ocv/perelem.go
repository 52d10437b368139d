package main

import "go/types"

// perElem describes a list that has one element for each element of another
// list, in order: built by appending or by filling a new slice.
type perElem struct {
	L  *LoopCtx
	PC BDD                              // an iteration (that goes on)
	El func(f *types.Var) (*Term, bool) // field f of the element (nil: all of it)
}

func (c *Ctx) perElem(r *Run, t *Term) *perElem {
	e := c.E
	lp := loopPhiOf(r, t)
	if lp == nil {
		lp = loopPhiOf(r, rootOf(t))
	}
	if lp != nil {
		l := lp.L
		if l.Kind != "slice" || !l.Full || lp.Init == nil || !constInt(e.length(lp.Init), 0) {
			return nil
		}
		var pcs []BDD
		var els []*Term
		for i, b := range lp.Back {
			for _, g := range e.cases(b) {
				pc := e.all(lp.BPC[i], g.C)
				if e.decide(pc, False) == 1 {
					continue
				}
				if g.T.Op != "append" || g.T.Args[0] != lp.Term || len(g.T.Args) != 2 || g.T.Args[1].Op == "spread" {
					return nil
				}
				pcs = append(pcs, pc)
				els = append(els, g.T.Args[1])
			}
		}
		if len(els) == 0 {
			return nil
		}
		return &perElem{l, e.any(pcs...), func(f *types.Var) (*Term, bool) {
			var v *Term
			for i, x := range els {
				if f != nil {
					x = e.partOf(x, f)
				}
				if v == nil {
					v = x
				} else {
					v = e.ite(pcs[i], x, v)
				}
			}
			return v, v != nil
		}}
	}
	b := t
	for b.Op == "slice" {
		b = b.Args[0]
	}
	if !isFresh(b) {
		return nil
	}
	var l *LoopCtx
	var sts []*Effect
	for _, s := range r.where("store", nil) {
		ix := s.Addr
		for ix.Op == "field" {
			ix = ix.Args[0]
		}
		if ix.Op != "index" || rootOf(ix) != rootOf(b) {
			continue
		}
		if len(s.Loops) == 0 {
			return nil
		}
		k := s.Loops[len(s.Loops)-1]
		if l == nil {
			l = k
		}
		if k != l || l.Kind != "slice" || !l.Full || ix.Args[1] != l.Iter || ix.Args[0] != t && ix.Args[0] != b {
			return nil
		}
		if s.Addr != ix && s.Addr.Args[0] != ix {
			return nil
		}
		sts = append(sts, s)
	}
	if l == nil || l.Coll == nil || !e.sameLin(True, e.length(t), e.length(l.Coll)) {
		return nil
	}
	return &perElem{l, e.any(l.BackPC...), func(f *types.Var) (*Term, bool) {
		var v *Term
		if sl, ok := t.T.Underlying().(*types.Slice); ok {
			if f != nil {
				v = e.zero(f.Type())
			} else {
				v = e.zero(sl.Elem())
			}
		}
		if v == nil {
			return nil, false
		}
		for _, s := range sts {
			x := s.Val
			if s.Addr.Op == "field" {
				if f == nil {
					return nil, false
				}
				if addrField(s.Addr) != f {
					continue
				}
			} else if f != nil {
				x = e.partOf(x, f)
			}
			v = e.ite(s.PC, x, v)
		}
		return v, true
	}}
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
