package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
)

// Regular languages as lazily determinised automata, to decide inclusion and
// disjointness of the regular expressions found in the source.

type reNFA struct{ p *syntax.Prog }

func reParse(pat string) (*reNFA, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return reOf(re)
}

func reOf(re *syntax.Regexp) (*reNFA, error) {
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &reNFA{p}, nil
}

// closure of a set of instructions; begin: at the start of the text; the
// second result: the text may end here.
func (n *reNFA) closure(pcs []uint32, begin bool) ([]uint32, bool) {
	seen := map[uint32]bool{}
	acc := false
	var rec func(pc uint32, end bool)
	seenEnd := map[uint32]bool{}
	rec = func(pc uint32, end bool) {
		if end {
			if seenEnd[pc] {
				return
			}
			seenEnd[pc] = true
		} else {
			if seen[pc] {
				return
			}
			seen[pc] = true
		}
		in := &n.p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			rec(in.Out, end)
			rec(in.Arg, end)
		case syntax.InstCapture, syntax.InstNop:
			rec(in.Out, end)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			if op&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && !begin {
				return
			}
			if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				return
			}
			if op&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 {
				end = true
			}
			rec(in.Out, end)
		case syntax.InstMatch:
			acc = true
		}
	}
	for _, pc := range pcs {
		rec(pc, false)
	}
	var out []uint32
	for pc := range seen {
		switch n.p.Inst[pc].Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			out = append(out, pc)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out, acc
}

func (n *reNFA) start() ([]uint32, bool) { return n.closure([]uint32{uint32(n.p.Start)}, true) }

func (n *reNFA) step(set []uint32, r rune) ([]uint32, bool) {
	var nx []uint32
	for _, pc := range set {
		if n.p.Inst[pc].MatchRune(r) {
			nx = append(nx, n.p.Inst[pc].Out)
		}
	}
	return n.closure(nx, false)
}

func (n *reNFA) bounds(m map[rune]bool) {
	for i := range n.p.Inst {
		in := &n.p.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			rs := in.Rune
			if len(rs) == 1 {
				rs = []rune{rs[0], rs[0]}
			}
			for j := 0; j+1 < len(rs); j += 2 {
				m[rs[j]] = true
				m[rs[j+1]+1] = true
			}
		case syntax.InstRuneAnyNotNL:
			m['\n'] = true
			m['\n'+1] = true
		}
	}
}

func setKey(s []uint32) string {
	var sb strings.Builder
	for _, x := range s {
		sb.WriteString(strconv.Itoa(int(x)))
		sb.WriteByte(',')
	}
	return sb.String()
}

// product explores the joint automaton of several languages until bad holds
// for the vector of acceptance (and liveness) flags (languages in need must
// still be matchable); it returns a witness.
func reProduct(ns []*reNFA, need int, bad func(acc, live []bool) bool) (string, bool, error) {
	m := map[rune]bool{0: true}
	for _, n := range ns {
		n.bounds(m)
	}
	var reps []rune
	for r := range m {
		if r <= 0x10FFFF && !(r >= 0xD800 && r < 0xE000) {
			reps = append(reps, r)
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	type node struct {
		sets [][]uint32
		acc  []bool
		w    string
	}
	mkkey := func(n *node) string {
		var sb strings.Builder
		for i, s := range n.sets {
			sb.WriteString(setKey(s))
			if n.acc[i] {
				sb.WriteByte('!')
			}
			sb.WriteByte(';')
		}
		return sb.String()
	}
	st := &node{}
	for _, n := range ns {
		s, a := n.start()
		st.sets = append(st.sets, s)
		st.acc = append(st.acc, a)
	}
	seen := map[string]bool{mkkey(st): true}
	q := []*node{st}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		live := make([]bool, len(ns))
		for i := range ns {
			live[i] = len(x.sets[i]) > 0
		}
		if bad(x.acc, live) {
			return x.w, true, nil
		}
		if len(seen) > 200000 {
			return "", false, fmt.Errorf("automaton too large")
		}
		for _, r := range reps {
			y := &node{w: x.w + string(r)}
			any := false
			for i, n := range ns {
				s, a := n.step(x.sets[i], r)
				y.sets = append(y.sets, s)
				y.acc = append(y.acc, a)
				if len(s) > 0 || a {
					any = true
				}
			}
			dead := false
			for i := range ns {
				if need&(1<<i) != 0 && len(y.sets[i]) == 0 && !y.acc[i] {
					dead = true
				}
			}
			if !any || dead {
				continue
			}
			k := mkkey(y)
			if !seen[k] {
				seen[k] = true
				q = append(q, y)
			}
		}
	}
	return "", false, nil
}

// reSame: both expressions match (somewhere in the text, as MatchString does)
// the same texts.
func reSame(a, b string) (string, bool) {
	a, b = "(?s:.*)(?:"+a+")(?s:.*)", "(?s:.*)(?:"+b+")(?s:.*)"
	na, err := reParse(a)
	if err != nil {
		return err.Error(), false
	}
	nb, err := reParse(b)
	if err != nil {
		return err.Error(), false
	}
	w, diff, err := reProduct([]*reNFA{na, nb}, 0, func(acc, _ []bool) bool { return acc[0] != acc[1] })
	if err != nil {
		return err.Error(), false
	}
	return w, !diff
}

// reSubset: every text of a is in b.
func reSubset(a, b string) (string, bool) {
	na, err := reParse(a)
	if err != nil {
		return err.Error(), false
	}
	nb, err := reParse(b)
	if err != nil {
		return err.Error(), false
	}
	w, diff, err := reProduct([]*reNFA{na, nb}, 1, func(acc, _ []bool) bool { return acc[0] && !acc[1] })
	if err != nil {
		return err.Error(), false
	}
	return w, !diff
}

// reDisjoint: no text is in both.
func reDisjoint(a, b string) (string, bool) {
	na, err := reParse(a)
	if err != nil {
		return err.Error(), false
	}
	nb, err := reParse(b)
	if err != nil {
		return err.Error(), false
	}
	w, both, err := reProduct([]*reNFA{na, nb}, 3, func(acc, _ []bool) bool { return acc[0] && acc[1] })
	if err != nil {
		return err.Error(), false
	}
	return w, !both
}

// reGroup is the source of capture group n.
func reGroup(pat string, n int) string {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return ""
	}
	var find func(r *syntax.Regexp) *syntax.Regexp
	find = func(r *syntax.Regexp) *syntax.Regexp {
		if r.Op == syntax.OpCapture && r.Cap == n {
			return r.Sub[0]
		}
		for _, s := range r.Sub {
			if x := find(s); x != nil {
				return x
			}
		}
		return nil
	}
	g := find(re)
	if g == nil {
		return ""
	}
	return g.String()
}

// regexpOf is the pattern a package-level compiled expression is made from.
func (e *Eng) regexpOf(t *Term) string {
	if t == nil {
		return ""
	}
	if t.Op == "ld" && t.Args[0].Op == "global" {
		v := e.globalInit(t.Args[0])
		if v == nil || v == t {
			return ""
		}
		t = v
	}
	if n := callNameOf(t); n == "regexp.MustCompile" || n == "regexp.MustCompilePOSIX" {
		if s, ok := t.Args[0].strVal(); ok {
			return s
		}
	}
	return ""
}
