package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect is one observable action (call, store, map update, send, lock
// operation, return, panic, index...) together with the condition under which
// control reaches it from the analysed root.
type Effect struct {
	Kind     string
	PC       BDD
	Seq      int
	Addr     *Term // store/load address, map, channel, indexed object, mutex
	Key      *Term // map key / index
	Val      *Term
	Args     []*Term
	Name     string // callee name
	Callee   *ssa.Function
	Instr    ssa.Instruction
	Frame    *Frame
	Locks    map[*Term]int
	Once     []*Term
	Loops    []*LoopCtx
	Deferred bool
	Result   *Term
	Elem     types.Type
	mem      *State
	after    *State // with Opts.Escape: the state after an unknown call
}

type Frame struct {
	key     string
	fn      *ssa.Function
	caller  *Frame
	site    ssa.Instruction
	vals    map[ssa.Value]*Term
	params  []*Term
	free    []*Term
	depth   int
	loops   map[*ssa.BasicBlock]*LoopCtx // header -> loop
	inLoop  map[*ssa.BasicBlock][]*LoopCtx
	order   []*ssa.BasicBlock
	deferd  bool
	outer   []*LoopCtx
	curLoop []*LoopCtx
}

type LoopCtx struct {
	Frame  *Frame
	Header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	exits  [][2]*ssa.BasicBlock
	Kind   string // slice, map, chan, count, other
	Coll   *Term
	Iter   *Term
	More   BDD // predicate of staying in the loop, at the header
	Full   bool
	Entry  BDD
	havoc  map[*Term]bool
	hver   map[string]bool
	phis   map[*ssa.Phi]*LoopPhi
	early  []BDD
	BackPC []BDD // conditions under which an iteration is followed by another
	hexits []*State
	memIn  *State
	Memvar map[*Term]*LoopPhi
}

type LoopPhi struct {
	Term *Term
	Init *Term
	Back []*Term
	BPC  []BDD
	Step int64
	L    *LoopCtx
	Addr *Term
}

type deferRec struct {
	pc   BDD
	call *ssa.CallCommon
	in   *ssa.Defer
	fv   *Term
	args []*Term
	recv *Term
	seq  int
}

type State struct {
	pc     BDD
	mem    map[*Term]*Term
	ver    map[string]string
	locks  map[*Term]int
	maybe  map[*Term]heldIf // locks held on some of the paths joined
	defers []*deferRec
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, mem: make(map[*Term]*Term, len(s.mem)), ver: make(map[string]string, len(s.ver)), locks: make(map[*Term]int, len(s.locks)), defers: append([]*deferRec(nil), s.defers...)}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	for k, v := range s.maybe {
		n.setMaybe(k, v)
	}
	return n
}

func newState() *State {
	return &State{pc: True, mem: map[*Term]*Term{}, ver: map[string]string{}, locks: map[*Term]int{}}
}

type Opts struct {
	Inline   func(*ssa.Function) bool
	Loads    bool
	Resolve  func(recv *Term, m *types.Func) []*ssa.Function
	MaxDepth int
	Budget   int
	Overflow bool // treat integer addition of unbounded operands as wrapping
	Assume   func(e *Eng, name string, args []*Term, site string) *Term
	BoundIdx bool // record index/slice obligations
	Escape   bool // an unknown function may change what it can reach through its arguments
}

type Run struct {
	copied map[string]copiedFrom
	*Eng
	opts      Opts
	Effects   []*Effect
	Truncated []string
	once      []*Term
	budget    int
	Rets      []*Term
	Final     *State
	Root      *Frame
	visited   map[*ssa.Function]bool
	Loops     []*LoopCtx
	deferDep  int
	cur       *State
}

func (e *Eng) newRun(o Opts) *Run {
	if o.MaxDepth == 0 {
		o.MaxDepth = 14
	}
	if o.Budget == 0 {
		o.Budget = 600000
	}
	if o.Inline == nil {
		o.Inline = func(f *ssa.Function) bool { return true }
	}
	return &Run{Eng: e, opts: o, budget: o.Budget, visited: map[*ssa.Function]bool{}}
}

// Param returns the term of a root parameter.
func (e *Eng) param(f *ssa.Function, i int) *Term {
	p := f.Params[i]
	return e.mk("param", fmt.Sprintf("%s:%d~%s", e.oid(f), i, p.Name()), p.Type(), p)
}

// Analyse evaluates root abstractly; free variables of a closure become
// symbols.
func (e *Eng) Analyse(f *ssa.Function, o Opts) *Run {
	var args []*Term
	for i := range f.Params {
		args = append(args, e.param(f, i))
	}
	return e.AnalyseWith(f, args, nil, nil, o)
}

func (e *Eng) AnalyseWith(f *ssa.Function, args, free []*Term, st *State, o Opts) *Run {
	r := e.newRun(o)
	if st == nil {
		st = newState()
	}
	if free == nil {
		for _, fv := range f.FreeVars {
			free = append(free, e.mk("free", e.oid(f)+"~"+fv.Name(), fv.Type(), fv))
		}
	}
	e.nrun++
	fr := &Frame{key: fmt.Sprintf("%d", e.nrun), fn: f, params: args, free: free}
	r.Root = fr
	r.Rets, r.Final = r.evalFn(fr, st.clone())
	return r
}

// heldIf is a lock held under a condition, within one frame and loop body.
type heldIf struct {
	cond BDD
	mode int
	in   *LoopCtx
	fr   *Frame
}

func (fr *Frame) innermost() *LoopCtx {
	if n := len(fr.curLoop); n > 0 {
		return fr.curLoop[n-1]
	}
	return nil
}

func (fr *Frame) within(g *Frame) bool {
	for ; fr != nil; fr = fr.caller {
		if fr == g {
			return true
		}
	}
	return false
}

func (s *State) setMaybe(k *Term, h heldIf) {
	if s.maybe == nil {
		s.maybe = map[*Term]heldIf{}
	}
	s.maybe[k] = h
}

func (r *Run) emit(fr *Frame, st *State, ef *Effect) *Effect {
	ef.PC = st.pc
	ef.Frame = fr
	ef.Seq = len(r.Effects)
	ef.Locks = map[*Term]int{}
	for k, v := range st.locks {
		ef.Locks[k] = v
	}
	for k, v := range st.maybe {
		if v.fr != nil && fr.within(v.fr) && v.fr.innermost() == v.in && r.implies(st.pc, v.cond) {
			ef.Locks[k] = v.mode
		}
	}
	ef.Once = append([]*Term(nil), r.once...)
	ef.Deferred = r.deferDep > 0
	ef.Loops = append(append([]*LoopCtx(nil), fr.outer...), fr.curLoop...)
	switch ef.Kind {
	case "call", "send", "return", "mapupdate", "go", "unlock", "copy", "store", "delete", "lock", "select", "append":
		ef.mem = st.clone()
	}
	r.Effects = append(r.Effects, ef)
	return ef
}

// ---------- loops and block order ----------

func (fr *Frame) analyseLoops(r *Run) {
	fr.loops = map[*ssa.BasicBlock]*LoopCtx{}
	fr.inLoop = map[*ssa.BasicBlock][]*LoopCtx{}
	f := fr.fn
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fr.loops[s]
				if l == nil {
					l = &LoopCtx{Frame: fr, Header: s, body: map[*ssa.BasicBlock]bool{s: true}, havoc: map[*Term]bool{}, hver: map[string]bool{}, phis: map[*ssa.Phi]*LoopPhi{}, Memvar: map[*Term]*LoopPhi{}}
					fr.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range fr.loops {
		for _, b := range f.Blocks {
			if !l.body[b] {
				continue
			}
			for _, s := range b.Succs {
				if !l.body[s] {
					l.exits = append(l.exits, [2]*ssa.BasicBlock{b, s})
				}
			}
		}
	}
	for _, b := range f.Blocks {
		var ls []*LoopCtx
		for _, l := range fr.loops {
			if l.body[b] {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) > len(ls[j].body) })
		fr.inLoop[b] = ls
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if l := fr.loops[b]; l != nil {
			for _, x := range l.exits {
				dfs(x[1])
			}
		}
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.order = append(fr.order, post[i])
	}
}

// ---------- memory ----------

func rootOf(a *Term) *Term {
	for a.Op == "field" || a.Op == "index" || a.Op == "slice" {
		a = a.Args[0]
	}
	return a
}

func isFresh(t *Term) bool { return t.Op == "alloc" || t.Op == "make" }

func (r *Run) class(a *Term) string {
	switch a.Op {
	case "field":
		return "f" + a.Aux
	case "index":
		return "e" + tstr(deref(a.T))
	case "global":
		return "g" + a.Aux
	case "mapelem":
		return "m" + tstr(a.Args[0].T)
	}
	return "t" + tstr(deref(a.T))
}

func under(k, a *Term) bool {
	for {
		if k == a {
			return true
		}
		if k.Op == "field" || k.Op == "index" || k.Op == "slice" {
			k = k.Args[0]
			continue
		}
		return false
	}
}

func (r *Run) loadT(st *State, a *Term, t types.Type) *Term {
	if a.Op == "ite" {
		return r.ite(a.Obj.(BDD), r.loadT(st, a.Args[0], t), r.loadT(st, a.Args[1], t))
	}
	if a.Op == "index" && a.Args[0].Op == "ite" && st.mem[a] == nil {
		// a choice between parts of one sequence
		x, y := a.Args[0].Args[0], a.Args[0].Args[1]
		if x.Op == "slice" && y.Op == "slice" && x.Args[0] == y.Args[0] {
			el := deref(a.T)
			return r.ite(a.Args[0].Obj.(BDD), r.loadT(st, r.indexAddr(x, a.Args[1], el), t), r.loadT(st, r.indexAddr(y, a.Args[1], el), t))
		}
	}
	sub := false
	for k := range st.mem {
		if k != a && under(k, a) {
			sub = true
			break
		}
	}
	stt, isStruct := t.Underlying().(*types.Struct)
	if sub && isStruct {
		args := make([]*Term, stt.NumFields())
		for i := range args {
			args[i] = r.loadT(st, r.fieldAddr(a, stt, i), stt.Field(i).Type())
		}
		return r.mkStruct(t, args)
	}
	if at, ok := t.Underlying().(*types.Array); ok && sub {
		args := make([]*Term, 0, at.Len())
		if at.Len() <= 64 {
			for i := int64(0); i < at.Len(); i++ {
				args = append(args, r.loadT(st, r.indexAddr(a, r.mkInt(i, nil), at.Elem()), at.Elem()))
			}
			return r.mk("array", tstr(t), t, nil, args...)
		}
	}
	if v, ok := st.mem[a]; ok {
		return v
	}
	// nearest ancestor stored as a whole
	switch a.Op {
	case "field":
		if anc := r.stored(st, a.Args[0]); anc != nil {
			bt := deref(a.Args[0].T)
			if s, ok := bt.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i) == a.Obj.(*types.Var) {
						return r.fieldOf(anc, s, i)
					}
				}
			}
		}
	case "index":
		if anc := r.stored(st, a.Args[0]); anc != nil {
			if i, ok := a.Args[1].intVal(); ok && anc.Op == "array" && int(i) < len(anc.Args) {
				return anc.Args[i]
			}
			if anc.Op == "zero" {
				return r.zero(t)
			}
			return r.mk("indexof", "", t, nil, anc, a.Args[1])
		}
	}
	root := rootOf(a)
	if isFresh(root) && a.Op != "mapelem" {
		v := st.ver["r"+fmt.Sprint(root.ID)]
		if a.Op == "index" && !a.Args[1].isConst() || len(a.Args) > 0 && a.Args[0].Op == "index" && !a.Args[0].Args[1].isConst() {
			// a symbolic position of a local array: any of the stored elements
			var al []*Term
			for k := range st.mem {
				if k.Op == a.Op && k != a && r.mayAlias(k, a) {
					al = append(al, k)
				}
			}
			if at, ok := deref(root.T).Underlying().(*types.Array); ok && at.Len() == 1 && len(al) == 1 && al[0].Op == "index" && al[0].Args[0] == root && a.Op == "index" && a.Args[0] == root {
				return st.mem[al[0]]
			}
			if len(al) > 0 {
				sort.Slice(al, func(i, j int) bool { return al[i].ID < al[j].ID })
				args := []*Term{a}
				for _, k := range al {
					args = append(args, st.mem[k])
				}
				x := r.mk("anyelem", v, t, nil, args...)
				return r.wrapBool(x)
			}
		}
		if v == "" {
			return r.zero(t)
		}
		if cp, ok := r.copied[v]; ok && a.Op == "index" && a.Args[0] == root {
			// an element of a copy of another slice, unchanged since
			src := r.indexAddr(cp.src, a.Args[1], deref(a.T))
			same := st.ver[r.class(src)] == cp.ver
			for k := range st.mem {
				if under(k, cp.src) {
					same = false
				}
			}
			if same {
				return r.loadT(st, src, t)
			}
		}
		return r.mk("ld", v, t, nil, a)
	}
	if root != nil && root.Op == "global" {
		if x := r.constLoad(a, root, t); x != nil {
			return x
		}
	}
	v := st.ver[r.class(a)]
	if isStruct {
		var vs []string
		any := v != ""
		var walk func(s *types.Struct)
		walk = func(s *types.Struct) {
			for i := 0; i < s.NumFields(); i++ {
				x := st.ver["f"+r.oid(s.Field(i))]
				if x != "" {
					any = true
					vs = append(vs, x)
				}
				if n, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
					walk(n)
				}
			}
		}
		walk(stt)
		if any {
			v = v + "+" + strings.Join(vs, "+")
		}
	}
	return r.mk("ld", v, t, nil, a)
}

// stored returns the value stored at exactly a, or derived from an ancestor.
func (r *Run) stored(st *State, a *Term) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if a.Op == "field" {
		if anc := r.stored(st, a.Args[0]); anc != nil {
			bt := deref(a.Args[0].T)
			if s, ok := bt.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i) == a.Obj.(*types.Var) {
						return r.fieldOf(anc, s, i)
					}
				}
			}
		}
	}
	return nil
}

func (r *Run) mayAlias(k, a *Term) bool {
	if k == a {
		return true
	}
	if k.Op != a.Op {
		return false
	}
	switch k.Op {
	case "field":
		if k.Obj != a.Obj {
			return false
		}
		return r.baseAlias(k.Args[0], a.Args[0])
	case "index":
		if i, ok := k.Args[1].intVal(); ok {
			if j, ok2 := a.Args[1].intVal(); ok2 && i != j {
				return false
			}
		}
		if !types.Identical(deref(k.T), deref(a.T)) {
			return false
		}
		return r.baseAlias(k.Args[0], a.Args[0])
	case "mapelem":
		if k.Args[0] != a.Args[0] {
			return r.baseAlias(k.Args[0], a.Args[0])
		}
		if k.Args[1].isConst() && a.Args[1].isConst() {
			return false
		}
		return true
	}
	if k.Op == "global" {
		return false
	}
	return r.baseAlias(k, a)
}

func (r *Run) baseAlias(x, y *Term) bool {
	if x == y {
		return true
	}
	fx, fy := isFresh(x), isFresh(y)
	if fx || fy {
		return false
	}
	if x.Op == "global" || y.Op == "global" {
		return false
	}
	if x.T != nil && y.T != nil && !types.Identical(x.T, y.T) {
		return false
	}
	if x.Op == "field" && y.Op == "field" {
		return r.mayAlias(x, y)
	}
	if x.Op == "index" && y.Op == "index" {
		return r.mayAlias(x, y)
	}
	return true
}

func (r *Run) store(fr *Frame, st *State, a, v *Term, tok string) {
	if a.Op == "ite" {
		c := a.Obj.(BDD)
		old0 := r.loadT(st, a.Args[0], v.T)
		old1 := r.loadT(st, a.Args[1], v.T)
		r.store(fr, st, a.Args[0], r.ite(c, v, old0), tok)
		r.store(fr, st, a.Args[1], r.ite(c, old1, v), tok)
		return
	}
	for k, ov := range st.mem {
		if k == a {
			continue
		}
		if under(k, a) {
			delete(st.mem, k)
			continue
		}
		if r.mayAlias(k, a) {
			st.mem[k] = r.mk("hv", tok, ov.T, nil, k)
		}
	}
	st.mem[a] = v
	if !isFresh(rootOf(a)) || a.Op == "mapelem" {
		st.ver[r.class(a)] = tok
	}
}

func (r *Run) havoc(st *State, a *Term, tok string) {
	if a.Op == "ite" {
		r.havoc(st, a.Args[0], tok)
		r.havoc(st, a.Args[1], tok)
		return
	}
	for a.Op == "slice" || a.Op == "iface" {
		a = a.Args[0]
	}
	if a.Op == "closure" {
		for _, b := range a.Args {
			r.havoc(st, b, tok)
		}
		return
	}
	root := rootOf(a)
	// unexported fields that nothing in the module changes keep their value
	keep := map[*Term]*Term{}
	if a == root && a.Op == "alloc" {
		if nt := namedOf(deref(a.T)); nt != nil && nt.Obj().Pkg() != nil && isModPkg(nt.Obj().Pkg().Path()) {
			if s, ok := nt.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					if _, st2 := f.Type().Underlying().(*types.Struct); !f.Exported() && !st2 && !r.mutable()[f] {
						fa := r.fieldAddr(a, s, i)
						keep[fa] = r.loadT(st, fa, f.Type())
					}
				}
			}
		}
	}
	defer func() {
		for k, v := range keep {
			st.mem[k] = v
		}
	}()
	for k := range st.mem {
		if under(k, a) {
			delete(st.mem, k)
		}
	}
	if isFresh(root) {
		// keep sibling fields precise: materialise only when havocking the root
		if a == root {
			st.ver["r"+fmt.Sprint(root.ID)] = tok
		} else if a.T != nil {
			t := deref(a.T)
			st.mem[a] = r.mk("ld", tok, t, nil, a)
		}
		return
	}
	switch a.Op {
	case "field", "index", "global":
		st.ver[r.class(a)] = tok
		if s, ok := deref(a.T).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				st.ver["f"+r.oid(s.Field(i))] = tok
			}
		}
	}
}

// ---------- merging ----------

type edgeIn struct {
	st   *State
	pred *ssa.BasicBlock
}

func (r *Run) merge(ins []*State, tok string) *State {
	if len(ins) == 1 {
		return ins[0].clone()
	}
	acc := ins[0].clone()
	for _, n := range ins[1:] {
		acc = r.merge2(acc, n, tok)
	}
	return acc
}

func (r *Run) merge2(a, b *State, tok string) *State {
	if a.pc == False {
		return b.clone()
	}
	if b.pc == False {
		return a
	}
	pc := r.B.Or(a.pc, b.pc)
	c := r.B.simplify(a.pc, pc)
	out := newState()
	out.pc = pc
	keys := map[*Term]bool{}
	for k := range a.mem {
		keys[k] = true
	}
	for k := range b.mem {
		keys[k] = true
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	// versions first
	vk := map[string]bool{}
	for k := range a.ver {
		vk[k] = true
	}
	for k := range b.ver {
		vk[k] = true
	}
	for k := range vk {
		if a.ver[k] == b.ver[k] {
			out.ver[k] = a.ver[k]
		} else {
			out.ver[k] = tok
		}
	}
	for _, k := range ks {
		va, oka := a.mem[k]
		vb, okb := b.mem[k]
		if oka && okb && va == vb {
			out.mem[k] = va
			continue
		}
		var t types.Type
		if oka {
			t = va.T
		} else {
			t = vb.T
		}
		if k.T != nil {
			if p, ok := k.T.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
		}
		if k.Op == "mapelem" {
			// keep track of presence
			side := func(s *State) *Term {
				if isBool(t) {
					return r.mk("hv", tok, t, nil, k)
				}
				v, ok := r.lookup(s, k.Args[0], k.Args[1], t)
				return r.ite(ok, v, r.mk("absent", "", t, nil))
			}
			if !oka {
				va = side(a)
			}
			if !okb {
				vb = side(b)
			}
			if isBool(t) {
				out.mem[k] = r.mk("hv", tok, t, nil, k)
				continue
			}
			out.mem[k] = r.ite(c, va, vb)
			continue
		}
		if !oka {
			va = r.loadT(a, k, t)
		}
		if !okb {
			vb = r.loadT(b, k, t)
		}
		out.mem[k] = r.ite(c, va, vb)
	}
	// an ancestor written in one state and its parts in the other: drop parts
	for k, m := range a.locks {
		if m2, ok := b.locks[k]; ok {
			if m2 < m {
				m = m2
			}
			out.locks[k] = m
		}
	}
	for _, xy := range [2][2]*State{{a, b}, {b, a}} {
		x, y := xy[0], xy[1]
		for k, m := range x.locks {
			if _, ok := y.locks[k]; ok {
				continue
			}
			h := heldIf{cond: x.pc, mode: m}
			if o, ok := y.maybe[k]; ok {
				h.cond = r.B.Or(h.cond, r.B.And(y.pc, o.cond))
				if o.mode < m {
					h.mode = o.mode
				}
			}
			out.setMaybe(k, h)
		}
		for k, o := range x.maybe {
			if _, ok := y.locks[k]; ok {
				continue
			}
			h := heldIf{r.B.And(x.pc, o.cond), o.mode, o.in, o.fr}
			if p, ok := y.maybe[k]; ok {
				if p.in != o.in || p.fr != o.fr {
					continue
				}
				h.cond = r.B.Or(h.cond, r.B.And(y.pc, p.cond))
				if p.mode < h.mode {
					h.mode = p.mode
				}
			}
			if _, ok := out.maybe[k]; !ok {
				out.setMaybe(k, h)
			}
		}
	}
	seen := map[*deferRec]bool{}
	for _, l := range [][]*deferRec{a.defers, b.defers} {
		for _, d := range l {
			if !seen[d] {
				seen[d] = true
				out.defers = append(out.defers, d)
			}
		}
	}
	sort.SliceStable(out.defers, func(i, j int) bool { return out.defers[i].seq < out.defers[j].seq })
	return out
}

// ---------- functions ----------

func (r *Run) evalFn(fr *Frame, st *State) ([]*Term, *State) {
	r.visited[fr.fn] = true
	fr.analyseLoops(r)
	in0 := st.clone()
	in0.defers = nil
	saved := st.defers
	start := len(r.Effects)
	lstart := len(r.Loops)
	for iter := 0; ; iter++ {
		fr.vals = map[ssa.Value]*Term{}
		for i, p := range fr.fn.Params {
			if i < len(fr.params) {
				fr.vals[p] = fr.params[i]
			}
		}
		for i, p := range fr.fn.FreeVars {
			if i < len(fr.free) {
				fr.vals[p] = fr.free[i]
			}
		}
		rets, out, again := r.evalOnce(fr, in0.clone())
		if again && iter < 12 && r.budget > 0 {
			r.Effects = r.Effects[:start]
			r.Loops = r.Loops[:lstart]
			continue
		}
		if again {
			r.Truncated = append(r.Truncated, "loop fixpoint not reached in "+fnName(fr.fn))
		}
		if out != nil {
			out.defers = saved
		}
		return rets, out
	}
}

func (r *Run) tok(fr *Frame, in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%s/%d.%d", fr.key, b.Index, i)
		}
	}
	return fmt.Sprintf("%s/%d.x", fr.key, b.Index)
}

func (r *Run) evalOnce(fr *Frame, st *State) (rets []*Term, out *State, again bool) {
	type retRec struct {
		st *State
		vs []*Term
	}
	var returns []retRec
	ins := map[*ssa.BasicBlock][]edgeIn{}
	ins[fr.fn.Blocks[0]] = []edgeIn{{st, nil}}
	backs := map[*LoopCtx][]edgeIn{}
	for _, l := range fr.loops {
		l.early, l.hexits = nil, nil
		l.phis = map[*ssa.Phi]*LoopPhi{}
		l.Memvar = map[*Term]*LoopPhi{}
		l.Iter, l.Coll, l.Kind = nil, nil, ""
	}
	for _, b := range fr.order {
		es := ins[b]
		var live []edgeIn
		for _, e := range es {
			if e.st.pc != False {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		r.budget -= len(b.Instrs)
		if r.budget < 0 {
			r.Truncated = append(r.Truncated, "budget exhausted in "+fnName(fr.fn))
			return nil, nil, false
		}
		r.cur = nil
		var sts []*State
		for _, e := range live {
			sts = append(sts, e.st)
		}
		cur := r.merge(sts, fmt.Sprintf("%s/j%d", fr.key, b.Index))
		fr.curLoop = fr.inLoop[b]
		for k, v := range cur.maybe {
			switch {
			case v.fr == nil:
				v.fr, v.in = fr, fr.innermost()
				cur.maybe[k] = v
			case v.fr == fr && v.in != fr.innermost() || v.fr != fr && !fr.within(v.fr):
				delete(cur.maybe, k)
			}
		}
		if l := fr.loops[b]; l != nil {
			l.Entry = cur.pc
			l.memIn = cur.clone()
			ltok := fmt.Sprintf("%s/L%d", fr.key, b.Index)
			for k := range l.hver {
				cur.ver[k] = ltok
			}
			var hk []*Term
			for k := range l.havoc {
				hk = append(hk, k)
			}
			sort.Slice(hk, func(i, j int) bool { return hk[i].ID < hk[j].ID })
			for _, k := range hk {
				var t types.Type
				if p, ok := k.T.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				} else {
					t = k.T
				}
				init := r.loadT(l.memIn, k, t)
				for k2 := range cur.mem {
					if k2 != k && under(k2, k) {
						delete(cur.mem, k2)
					}
				}
				tm := r.mk("loopmem", ltok, t, nil, k)
				lp := &LoopPhi{Term: tm, Init: init, L: l, Addr: k}
				cur.mem[k] = tm
				if k.Op == "mapelem" {
					l.Memvar[k] = lp
					continue
				}
				if isBool(t) {
					cur.mem[k] = r.mkBool(r.atom(tm))
				}
				l.Memvar[k] = lp
			}
			r.Loops = append(r.Loops, l)
		}
		// phis
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			r.evalPhi(fr, b, phi, live)
		}
		rs, ok := r.evalBlock(fr, b, cur)
		r.cur = cur
		if !ok {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		var conds []BDD
		switch x := last.(type) {
		case *ssa.If:
			c := r.bdd(r.val(fr, x.Cond))
			conds = []BDD{c, r.B.Not(c)}
		case *ssa.Jump:
			conds = []BDD{True}
		case *ssa.Return:
			returns = append(returns, retRec{cur, rs})
			continue
		default:
			continue
		}
		for i, s := range b.Succs {
			ns := cur.clone()
			ns.pc = r.B.And(cur.pc, conds[i])
			// leaving loops?
			for li := len(fr.inLoop[b]) - 1; li >= 0; li-- {
				l := fr.inLoop[b][li]
				if l.body[s] {
					break
				}
				if l.Header == b {
					r.classify(l, r.B.Not(conds[i]))
					raw := conds[i]
					if l.Kind != "other" {
						raw = True
					}
					pc := r.B.And(l.Entry, raw)
					for _, x := range l.early {
						pc = r.B.And(pc, r.B.Not(x))
					}
					ns.pc = pc
					l.hexits = append(l.hexits, ns)
				} else {
					raw := ns.pc
					if raw == False {
						continue
					}
					ex := r.mk("exists", fmt.Sprintf("%s/L%d>%d.%d", fr.key, l.Header.Index, b.Index, i), types.Typ[types.Bool], raw)
					ex.Obj = raw
					av := r.atom(ex)
					pc := r.B.And(l.Entry, av)
					for _, x := range l.early {
						pc = r.B.And(pc, r.B.Not(x))
					}
					l.early = append(l.early, av)
					for _, h := range l.hexits {
						h.pc = r.B.And(h.pc, r.B.Not(av))
					}
					ns.pc = pc
				}
			}
			if s.Dominates(b) {
				l := fr.loops[s]
				backs[l] = append(backs[l], edgeIn{ns, b})
				continue
			}
			ins[s] = append(ins[s], edgeIn{ns, b})
		}
	}
	for _, l := range fr.loops {
		l.Full = true
		for _, x := range l.exits {
			if x[0] != l.Header {
				l.Full = false
			}
		}
		l.BackPC = nil
		for _, be := range backs[l] {
			l.BackPC = append(l.BackPC, be.st.pc)
		}
		for phi, lp := range l.phis {
			lp.Back, lp.BPC = nil, nil
			for _, be := range backs[l] {
				for i, p := range phi.Block().Preds {
					if p == be.pred {
						lp.Back = append(lp.Back, r.val(fr, phi.Edges[i]))
						lp.BPC = append(lp.BPC, be.st.pc)
					}
				}
			}
		}
		for _, be := range backs[l] {
			if be.st.pc == False {
				continue
			}
			for k, v := range be.st.ver {
				hv := l.memIn.ver[k]
				if l.hver[k] {
					continue
				}
				if v != hv {
					l.hver[k] = true
					again = true
				}
			}
			for k, v := range be.st.mem {
				if lp := l.Memvar[k]; lp != nil {
					lp.Back = append(lp.Back, v)
					lp.BPC = append(lp.BPC, be.st.pc)
					continue
				}
				if l.havoc[k] {
					continue
				}
				hv, ok := l.memIn.mem[k]
				if !ok {
					// written inside the loop; an address that itself depends on
					// the loop's own symbols (iter) is a fresh location per
					// iteration and its class version is bumped instead
					var t types.Type = v.T
					if p, ok := k.T.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					hv = r.loadT(l.memIn, k, t)
				}
				if hv != v {
					l.havoc[k] = true
					again = true
				}
			}
		}
	}
	if len(returns) == 0 {
		return nil, nil, again
	}
	n := 0
	if fr.fn.Signature.Results() != nil {
		n = fr.fn.Signature.Results().Len()
	}
	acc := returns[0].st.clone()
	vals := append([]*Term(nil), returns[0].vs...)
	for _, x := range returns[1:] {
		if x.st.pc == False {
			continue
		}
		if acc.pc == False {
			acc = x.st.clone()
			vals = append([]*Term(nil), x.vs...)
			continue
		}
		c := r.B.simplify(acc.pc, r.B.Or(acc.pc, x.st.pc))
		acc = r.merge2(acc, x.st, fr.key+"/ret")
		for i := 0; i < n && i < len(vals); i++ {
			vals[i] = r.ite(c, vals[i], x.vs[i])
		}
	}
	return vals, acc, again
}

// classify works out what a loop iterates over from its header condition.
func (r *Run) classify(l *LoopCtx, more BDD) {
	if l.Kind != "" {
		return
	}
	l.More = more
	l.Kind = "other"
	sup := r.B.Support(more)
	for _, in := range l.Header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && l.Frame != nil {
			// a range over alternatives: the condition is split over them
			if it := r.val(l.Frame, nx.Iter); it != nil && it.Op == "range" && it.Args[0].Op == "ite" {
				l.Kind, l.Coll = "map", it.Args[0]
				if isString(it.Args[0].T) {
					l.Kind = "string"
				}
				return
			}
		}
	}
	if len(sup) > 1 {
		// a range over one of several slices
		c := r.lenOperand(l)
		if c == nil || c.Op != "ite" {
			return
		}
		within := func(t *Term) BDD {
			w := False
			for _, g := range r.cases(r.length(c)) {
				w = r.B.Or(w, r.B.And(g.C, r.lt(t, g.T)))
			}
			return w
		}
		for _, v := range sup {
			if r.atoms[v].Op != "le" {
				continue
			}
			for t := range r.toLin(r.atoms[v].Args[0]).co {
				if t.Op == "iter" && t.Obj.(*LoopCtx).Header == l.Header && t.Obj.(*LoopCtx).Frame == l.Frame && r.B.And(l.Entry, more) == r.B.And(l.Entry, within(t)) {
					l.Kind, l.Coll, l.Iter = "slice", c, t
					return
				}
			}
		}
		return
	}
	if len(sup) != 1 {
		return
	}
	a := r.atoms[sup[0]]
	if a.Op == "more" {
		l.Kind, l.Coll = "map", a.Args[0]
		if a.Args[0].T != nil && isString(a.Args[0].T) {
			l.Kind = "string"
		}
		return
	}
	if a.Op == "le" {
		lf := r.toLin(a.Args[0])
		var it, ln *Term
		for t := range lf.co {
			if t.Op == "iter" && t.Obj.(*LoopCtx).Header == l.Header && t.Obj.(*LoopCtx).Frame == l.Frame {
				it = t
			} else if t.Op == "len" {
				ln = t
			}
		}
		if it == nil {
			return
		}
		l.Iter = it
		if len(lf.co) == 1 {
			l.Kind = "count"
			return
		}
		kk, _ := a.Args[1].intVal()
		if len(lf.co) == 2 && ln != nil && lf.co[it] == -lf.co[ln] && (lf.co[it] == 1 && kk-lf.k == -1 && r.B.Var(sup[0]) == more || lf.co[it] == -1 && kk-lf.k == 0 && r.B.Var(sup[0]) != more) {
			l.Kind = "slice"
			l.Coll = ln.Args[0]
			return
		}
		l.Kind = "count"
		if c := r.lenOperand(l); c != nil && (lf.co[it] == 1 && kk == -1 && r.B.Var(sup[0]) == more || lf.co[it] == -1 && kk == 0 && r.B.Var(sup[0]) != more) {
			// the length of a slice put together from others
			d := r.toLin(r.length(c))
			same := len(d.co) == len(lf.co)-1 && lf.k == -lf.co[it]*d.k
			for x, k := range d.co {
				same = same && lf.co[x] == -k*lf.co[it]
			}
			if same {
				l.Kind, l.Coll = "slice", c
			}
		}
	}
}

// lenOperand returns the slice whose length a loop header compares with.
func (r *Run) lenOperand(l *LoopCtx) *Term {
	if l.Frame == nil {
		return nil
	}
	for _, in := range l.Header.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, v := range []ssa.Value{b.X, b.Y} {
			if c, ok := v.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return r.val(l.Frame, c.Call.Args[0])
				}
			}
		}
	}
	return nil
}

func (r *Run) evalPhi(fr *Frame, b *ssa.BasicBlock, phi *ssa.Phi, live []edgeIn) {
	l := fr.loops[b]
	if l == nil {
		var acc *Term
		accpc := False
		for _, e := range live {
			for i, p := range b.Preds {
				if p != e.pred {
					continue
				}
				v := r.val(fr, phi.Edges[i])
				// same pred may appear twice (both If arms): use once per edge
				if acc == nil {
					acc, accpc = v, e.st.pc
				} else {
					npc := r.B.Or(accpc, e.st.pc)
					acc = r.ite(r.B.simplify(accpc, npc), acc, v)
					accpc = npc
				}
				break
			}
		}
		fr.vals[phi] = acc
		return
	}
	var init *Term
	accpc := False
	for _, e := range live {
		for i, p := range b.Preds {
			if p != e.pred {
				continue
			}
			v := r.val(fr, phi.Edges[i])
			if init == nil {
				init, accpc = v, e.st.pc
			} else {
				npc := r.B.Or(accpc, e.st.pc)
				init = r.ite(r.B.simplify(accpc, npc), init, v)
				accpc = npc
			}
			break
		}
	}
	lp := &LoopPhi{Init: init, L: l}
	// induction variable?
	var step int64
	ind := isInt(phi.Type())
	for i, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		bo, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != ssa.Value(phi) {
			ind = false
			break
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			ind = false
			break
		}
		n, _ := constant.Int64Val(constant.ToInt(c.Value))
		if bo.Op == token.SUB {
			n = -n
		}
		if step != 0 && step != n {
			ind = false
			break
		}
		step = n
	}
	key := fmt.Sprintf("%s/L%d", fr.key, b.Index)
	if ind && step != 0 && init != nil {
		it := r.mk("iter", key, types.Typ[types.Int], l)
		it.Obj = l
		lp.Step = step
		fr.vals[phi] = r.fromLin(r.toLin(init).add(r.toLin(it).scale(step), 1), phi.Type())
		lp.Term = fr.vals[phi]
		l.phis[phi] = lp
		return
	}
	t := r.mk("loopphi", key+"#"+phi.Name(), phi.Type(), lp)
	t.Obj = lp
	lp.Term = t
	l.phis[phi] = lp
	if isBool(phi.Type()) {
		fr.vals[phi] = r.mkBool(r.atom(t))
		return
	}
	fr.vals[phi] = t
}

func (r *Run) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return r.mkConst(x)
	case *ssa.Global:
		return r.mk("global", r.oid(x), x.Type(), x)
	case *ssa.Function:
		return r.mk("fn", r.oid(x), x.Type(), x)
	case *ssa.Builtin:
		return r.mk("builtin", x.Name(), x.Type(), x)
	}
	if t, ok := fr.vals[v]; ok && t != nil {
		return r.red(t)
	}
	t := r.mk("opaque", fr.key+"#"+v.Name()+"@"+r.oid(fr.fn), v.Type(), v)
	if isBool(v.Type()) {
		return r.mkBool(r.atom(t))
	}
	return t
}

// red resolves a gated value whose gate is decided by the current
// reachability condition.
func (r *Run) red(t *Term) *Term {
	if r.cur == nil {
		return t
	}
	for t != nil && t.Op == "ite" {
		c := t.Obj.(BDD)
		if r.B.Implies(r.cur.pc, c) {
			t = t.Args[0]
		} else if r.B.And(r.cur.pc, c) == False {
			t = t.Args[1]
		} else {
			break
		}
	}
	return t
}

func (r *Eng) wrapBool(t *Term) *Term {
	if isBool(t.T) && t.Op != "bool" {
		return r.mkBool(r.bdd(t))
	}
	return t
}

func (r *Run) evalBlock(fr *Frame, b *ssa.BasicBlock, st *State) ([]*Term, bool) {
	for _, in := range b.Instrs {
		r.cur = st
		if st.pc == False {
			return nil, false
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump:
		case *ssa.Return:
			var vs []*Term
			for _, v := range x.Results {
				vs = append(vs, r.val(fr, v))
			}
			r.emit(fr, st, &Effect{Kind: "return", Args: vs, Instr: x})
			return vs, true
		case *ssa.Panic:
			r.emit(fr, st, &Effect{Kind: "panic", Val: r.val(fr, x.X), Instr: x})
			return nil, false
		case *ssa.Store:
			a, v := r.val(fr, x.Addr), r.val(fr, x.Val)
			r.emit(fr, st, &Effect{Kind: "store", Addr: a, Val: v, Instr: x})
			r.store(fr, st, a, v, r.tok(fr, in))
		case *ssa.MapUpdate:
			m, k, v := r.val(fr, x.Map), r.val(fr, x.Key), r.val(fr, x.Value)
			r.emit(fr, st, &Effect{Kind: "mapupdate", Addr: m, Key: k, Val: v, Instr: x})
			r.store(fr, st, r.mapElem(m, k, v.T), v, r.tok(fr, in))
		case *ssa.Send:
			r.emit(fr, st, &Effect{Kind: "send", Addr: r.val(fr, x.Chan), Val: r.val(fr, x.X), Instr: x})
		case *ssa.Go:
			ef := &Effect{Kind: "go", Instr: x}
			r.fillCall(fr, &x.Call, ef)
			r.emit(fr, st, ef)
		case *ssa.Defer:
			d := &deferRec{pc: st.pc, call: &x.Call, in: x, seq: len(r.Effects)}
			if x.Call.IsInvoke() {
				d.recv = r.val(fr, x.Call.Value)
			} else {
				d.fv = r.val(fr, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, r.val(fr, a))
			}
			ef := &Effect{Kind: "defer", Instr: x}
			r.fillCall(fr, &x.Call, ef)
			r.emit(fr, st, ef)
			st.defers = append(st.defers, d)
		case *ssa.RunDefers:
			r.runDefers(fr, st)
			if st.pc == False {
				return nil, false
			}
		case ssa.Value:
			t := r.evalValue(fr, st, x, in)
			if t == nil { // call never returns
				return nil, false
			}
			fr.vals[x] = t
		}
	}
	return nil, true
}

func (r *Run) mapElem(m, k *Term, vt types.Type) *Term {
	return r.mk("mapelem", "", types.NewPointer(vt), nil, m, k)
}

func (r *Run) fillCall(fr *Frame, c *ssa.CallCommon, ef *Effect) {
	for _, a := range c.Args {
		ef.Args = append(ef.Args, r.val(fr, a))
	}
	if c.IsInvoke() {
		ef.Name = "invoke " + methodName(c.Method)
		ef.Args = append([]*Term{r.val(fr, c.Value)}, ef.Args...)
		return
	}
	ef.Val = r.val(fr, c.Value)
	if f := calleeOf(ef.Val); f != nil {
		ef.Callee = f
		ef.Name = fnName(f)
	}
}

func calleeOf(t *Term) *ssa.Function {
	if t == nil {
		return nil
	}
	switch t.Op {
	case "fn", "closure":
		return t.Obj.(*ssa.Function)
	}
	return nil
}

func methodName(m *types.Func) string {
	s := m.FullName()
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (r *Run) runDefers(fr *Frame, st *State) {
	ds := st.defers
	st.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		c := r.B.And(st.pc, d.pc)
		if c == False {
			continue
		}
		r.deferDep++
		if c == st.pc {
			r.evalCall(fr, st, d.in, d.call, d.recv, d.fv, d.args)
		} else {
			t := st.clone()
			t.pc = c
			u := st.clone()
			u.pc = r.B.And(st.pc, r.B.Not(d.pc))
			r.evalCall(fr, t, d.in, d.call, d.recv, d.fv, d.args)
			m := r.merge([]*State{t, u}, r.tok(fr, d.in))
			*st = *m
		}
		r.deferDep--
	}
}

func (r *Run) evalValue(fr *Frame, st *State, x ssa.Value, in ssa.Instruction) *Term {
	T := x.Type()
	switch v := x.(type) {
	case *ssa.Alloc:
		a := r.mk("alloc", r.tok(fr, in)+"#"+r.oid(fr.fn)+v.Name(), T, v)
		// a new cell: reset
		for k := range st.mem {
			if under(k, a) {
				delete(st.mem, k)
			}
		}
		delete(st.ver, "r"+fmt.Sprint(a.ID))
		return a
	case *ssa.FieldAddr:
		return r.fieldAddr(r.val(fr, v.X), deref(v.X.Type()).Underlying().(*types.Struct), v.Field)
	case *ssa.Field:
		return r.wrapBool(r.fieldOf(r.val(fr, v.X), v.X.Type().Underlying().(*types.Struct), v.Field))
	case *ssa.IndexAddr:
		base, idx := r.val(fr, v.X), r.val(fr, v.Index)
		r.emit(fr, st, &Effect{Kind: "index", Addr: base, Key: idx, Instr: in})
		return r.indexAddr(base, idx, deref(T))
	case *ssa.Index:
		base, idx := r.val(fr, v.X), r.val(fr, v.Index)
		r.emit(fr, st, &Effect{Kind: "index", Addr: base, Key: idx, Instr: in})
		if i, ok := idx.intVal(); ok && base.Op == "array" && int(i) < len(base.Args) {
			return base.Args[i]
		}
		return r.wrapBool(r.mk("indexof", "", T, nil, base, idx))
	case *ssa.Lookup:
		m, k := r.val(fr, v.X), r.val(fr, v.Index)
		if isString(v.X.Type()) {
			r.emit(fr, st, &Effect{Kind: "index", Addr: m, Key: k, Instr: in})
			return r.mk("indexof", "", T, nil, m, k)
		}
		vt := v.X.Type().Underlying().(*types.Map).Elem()
		if r.opts.Loads {
			r.emit(fr, st, &Effect{Kind: "lookup", Addr: m, Key: k, Instr: in})
		}
		val, ok := r.lookup(st, m, k, vt)
		if v.CommaOk {
			return r.mk("tuple", "", T, nil, val, r.mkBool(ok))
		}
		return val
	case *ssa.Extract:
		t := r.val(fr, v.Tuple)
		if t.Op == "tuple" && v.Index < len(t.Args) {
			return t.Args[v.Index]
		}
		if t.Op == "ite" {
			return r.extIte(t, v.Index, T)
		}
		return r.wrapBool(r.mk("ext", fmt.Sprint(v.Index), T, nil, t))
	case *ssa.UnOp:
		a := r.val(fr, v.X)
		switch v.Op {
		case token.MUL:
			if r.opts.Loads {
				r.emit(fr, st, &Effect{Kind: "load", Addr: a, Instr: in})
			}
			return r.red(r.wrapBool(r.loadT(st, a, T)))
		case token.NOT:
			return r.mkBool(r.B.Not(r.bdd(a)))
		case token.SUB:
			if isInt(T) {
				return r.fromLin(r.toLin(a).scale(-1), T)
			}
		case token.ARROW:
			r.emit(fr, st, &Effect{Kind: "recv", Addr: a, Instr: in})
			if v.CommaOk {
				el := a.T.Underlying().(*types.Chan).Elem()
				val := r.wrapBool(r.mk("recv", r.tok(fr, in), el, nil, a))
				return r.mk("tuple", "", T, nil, val, r.mkBool(r.atom(r.mk("recvok", r.tok(fr, in), types.Typ[types.Bool], nil, a))))
			}
			return r.wrapBool(r.mk("recv", r.tok(fr, in), T, nil, a))
		}
		if v.Op == token.XOR {
			if n, ok := a.intVal(); ok {
				val := constant.UnaryOp(token.XOR, constant.MakeInt64(n), 0)
				if isUnsigned(T) {
					val = constant.UnaryOp(token.XOR, constant.MakeInt64(n), uint(intBits(T)))
				}
				return r.constVal(val, T)
			}
		}
		return r.mk("un", v.Op.String(), T, nil, a)
	case *ssa.BinOp:
		return r.binop(fr, st, v)
	case *ssa.ChangeType:
		return r.retype(r.val(fr, v.X), T)
	case *ssa.ChangeInterface:
		return r.val(fr, v.X)
	case *ssa.Convert:
		return r.convert(r.val(fr, v.X), v.X.Type(), T)
	case *ssa.MakeInterface:
		ct := v.X.Type()
		return r.mk("iface", tstr(ct), T, ct, r.val(fr, v.X))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range v.Bindings {
			bs = append(bs, r.val(fr, b))
		}
		f := v.Fn.(*ssa.Function)
		return r.mk("closure", r.oid(f), T, f, bs...)
	case *ssa.MakeMap, *ssa.MakeChan:
		t := r.mk("make", r.tok(fr, in)+"#"+r.oid(fr.fn)+x.Name(), T, x)
		delete(st.ver, "r"+fmt.Sprint(t.ID))
		return t
	case *ssa.MakeSlice:
		t := r.mk("make", r.tok(fr, in)+"#"+r.oid(fr.fn)+x.Name(), T, x, r.val(fr, v.Len), r.val(fr, v.Cap))
		return t
	case *ssa.Slice:
		base := r.val(fr, v.X)
		g := func(y ssa.Value) *Term {
			if y == nil {
				return nil
			}
			return r.val(fr, y)
		}
		lo, hi, mx := g(v.Low), g(v.High), g(v.Max)
		r.emit(fr, st, &Effect{Kind: "slice", Addr: base, Args: []*Term{lo, hi, mx}, Instr: in})
		if lo == nil && hi == nil && mx == nil {
			if _, ok := base.T.Underlying().(*types.Pointer); !ok {
				return base
			}
		}
		return r.mkSlice(T, base, lo, hi, mx)
	case *ssa.SliceToArrayPointer:
		return r.mk("s2a", "", T, nil, r.val(fr, v.X))
	case *ssa.TypeAssert:
		return r.typeAssert(fr, st, v)
	case *ssa.Range:
		return r.mk("range", r.tok(fr, in), T, nil, r.val(fr, v.X))
	case *ssa.Next:
		it := r.val(fr, v.Iter)
		coll := it
		if it.Op == "range" {
			coll = it.Args[0]
		}
		k := r.tok(fr, in)
		more := r.mk("more", k, types.Typ[types.Bool], nil, coll)
		var kt, vt types.Type = types.Typ[types.Int], types.Typ[types.Rune]
		if coll.T != nil {
			if mt, ok := coll.T.Underlying().(*types.Map); ok {
				kt, vt = mt.Key(), mt.Elem()
			}
		}
		if r.opts.Loads {
			r.emit(fr, st, &Effect{Kind: "rangeover", Addr: coll, Instr: in})
		}
		return r.mk("tuple", "", T, nil, r.mkBool(r.atom(more)), r.wrapBool(r.mk("rkey", k, kt, nil, coll)), r.wrapBool(r.mk("rval", k, vt, nil, coll)))
	case *ssa.Select:
		ef := &Effect{Kind: "select", Instr: in}
		for _, s := range v.States {
			ef.Args = append(ef.Args, r.val(fr, s.Chan))
		}
		// the case chosen: one of the states, or the default
		tok := r.tok(fr, in)
		sel := r.mk("select", tok, T, nil, ef.Args...)
		tt := T.(*types.Tuple)
		last := len(v.States) - 1
		idx := r.mkInt(-1, tt.At(0).Type())
		if v.Blocking && last >= 0 {
			idx = r.mkInt(int64(last), tt.At(0).Type())
			last--
		}
		var cases []BDD
		for i := last; i >= 0; i-- {
			b := r.atom(r.mk("selcase", fmt.Sprint(i), types.Typ[types.Bool], nil, sel))
			idx = r.ite(b, r.mkInt(int64(i), tt.At(0).Type()), idx)
		}
		for i := range v.States {
			cases = append(cases, r.eq(idx, r.mkInt(int64(i), tt.At(0).Type())))
		}
		for i, s := range v.States {
			if s.Send != nil {
				st2 := *st
				st2.pc = r.B.And(st.pc, cases[i])
				r.emit(fr, &st2, &Effect{Kind: "send", Addr: r.val(fr, s.Chan), Val: r.val(fr, s.Send), Instr: in, Name: "select"})
			}
		}
		r.emit(fr, st, ef)
		parts := []*Term{idx}
		for i := 1; i < tt.Len(); i++ {
			parts = append(parts, r.wrapBool(r.mk("ext", fmt.Sprint(i), tt.At(i).Type(), nil, sel)))
		}
		return r.mk("tuple", "", T, nil, parts...)
	case *ssa.Call:
		var recv, fv *Term
		if v.Call.IsInvoke() {
			recv = r.val(fr, v.Call.Value)
		} else {
			fv = r.val(fr, v.Call.Value)
		}
		var args []*Term
		for _, a := range v.Call.Args {
			args = append(args, r.val(fr, a))
		}
		return r.evalCall(fr, st, v, &v.Call, recv, fv, args)
	}
	return r.wrapBool(r.mk("opaque", r.tok(fr, in), T, x))
}

func (r *Run) extIte(t *Term, i int, T types.Type) *Term {
	if t.Op == "ite" {
		return r.ite(t.Obj.(BDD), r.extIte(t.Args[0], i, T), r.extIte(t.Args[1], i, T))
	}
	if t.Op == "tuple" && i < len(t.Args) {
		return t.Args[i]
	}
	return r.wrapBool(r.mk("ext", fmt.Sprint(i), T, nil, t))
}

func (r *Run) retype(t *Term, T types.Type) *Term {
	return t
}

func (r *Run) convert(a *Term, from, to types.Type) *Term {
	if a.Op == "ite" {
		return r.ite(a.Obj.(BDD), r.convert(a.Args[0], from, to), r.convert(a.Args[1], from, to))
	}
	if isInt(from) && isInt(to) {
		if n, ok := a.intVal(); ok {
			b := intBits(to)
			if b == 64 {
				if n >= 0 || !isUnsigned(to) {
					return r.mkInt(n, to)
				}
			} else if isUnsigned(to) {
				return r.mkInt(n&(1<<uint(b)-1), to)
			} else if n >= -(1<<uint(b-1)) && n < 1<<uint(b-1) {
				return r.mkInt(n, to)
			}
		}
		fb, tb := intBits(from), intBits(to)
		fu, tu := isUnsigned(from), isUnsigned(to)
		if fb == tb && fu == tu || fb < tb && (fu || !tu) || fb <= tb && !fu && tu && r.nonneg(a) && tb == 64 {
			return a
		}
		op := "conv"
		if tb == 8 && tu {
			op = "conv8"
		}
		return r.mk(op, tstr(to.Underlying()), to, nil, a)
	}
	if a.Op == "const" && isFloat(to) {
		if c, ok := a.Obj.(constant.Value); ok && (c.Kind() == constant.Int || c.Kind() == constant.Float) {
			return r.constVal(c, to)
		}
	}
	if a.Op == "const" && isString(to) && isString(from) {
		return a
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return a
	}
	return r.mk("conv", tstr(to.Underlying()), to, nil, a)
}

func (r *Run) lookup(st *State, m, k *Term, vt types.Type) (*Term, BDD) {
	if m.Op == "ite" {
		a, oa := r.lookup(st, m.Args[0], k, vt)
		b, ob := r.lookup(st, m.Args[1], k, vt)
		c := m.Obj.(BDD)
		return r.ite(c, a, b), r.B.ite(c, oa, ob)
	}
	if m.Op == "nil" {
		return r.zero(vt), False
	}
	if r.constLookup != nil && k.isConst() && m.Op == "ld" && m.Args[0].Op == "global" {
		if v, ok, known := r.constLookup(m.Args[0], k); known {
			if !ok {
				return r.zero(vt), False
			}
			return v, True
		}
	}
	addr := r.mapElem(m, k, vt)
	unknown := func() (*Term, BDD) {
		ver := st.ver[r.class(addr)]
		v := r.wrapBool(r.mk("mapval", ver, vt, nil, m, k))
		return v, r.atom(r.mk("mapok", ver, types.Typ[types.Bool], nil, m, k))
	}
	if v, ok := st.mem[addr]; ok {
		var pres func(v *Term) (*Term, BDD)
		pres = func(v *Term) (*Term, BDD) {
			switch {
			case v.Op == "absent":
				return r.zero(vt), False
			case v.Op == "hv" || v.Op == "loopmem":
				return unknown()
			case v.Op == "ite":
				a, oa := pres(v.Args[0])
				b, ob := pres(v.Args[1])
				c := v.Obj.(BDD)
				return r.ite(c, a, b), r.B.ite(c, oa, ob)
			}
			return v, True
		}
		return pres(v)
	}
	if m.Op == "make" {
		// any update through this map?
		upd := false
		for kk := range st.mem {
			if kk.Op == "mapelem" && kk.Args[0] == m {
				upd = true
			}
		}
		if !upd && st.ver["m"+tstr(m.T)] == "" && st.ver["r"+fmt.Sprint(m.ID)] == "" {
			return r.zero(vt), False
		}
	}
	return unknown()
}

func (r *Run) typeAssert(fr *Frame, st *State, v *ssa.TypeAssert) *Term {
	x := r.val(fr, v.X)
	val, ok := r.assertTo(x, v.AssertedType)
	if v.CommaOk {
		return r.mk("tuple", "", v.Type(), nil, r.ite(ok, val, r.zero(v.AssertedType)), r.mkBool(ok))
	}
	if ok != True {
		r.emit(fr, st, &Effect{Kind: "assert", Val: x, Key: r.mkBool(ok), Instr: v, Elem: v.AssertedType})
	}
	return r.wrapBool(val)
}

func (r *Run) assertTo(x *Term, T types.Type) (*Term, BDD) {
	_, toIface := T.Underlying().(*types.Interface)
	switch x.Op {
	case "iface":
		ct := x.Obj.(types.Type)
		if toIface {
			if types.Implements(ct, T.Underlying().(*types.Interface)) {
				return x, True
			}
			return r.zero(T), False
		}
		if types.Identical(ct, T) {
			return x.Args[0], True
		}
		return r.zero(T), False
	case "nil":
		return r.zero(T), False
	case "ite":
		a, oa := r.assertTo(x.Args[0], T)
		b, ob := r.assertTo(x.Args[1], T)
		c := x.Obj.(BDD)
		return r.ite(c, a, b), r.B.ite(c, oa, ob)
	}
	if toIface && x.T != nil && types.Implements(x.T, T.Underlying().(*types.Interface)) {
		// static type already has the methods: succeeds iff non-nil
		return x, r.B.Not(r.eq(x, r.zero(x.T)))
	}
	ok := r.atom(r.mk("isT", tstr(T), types.Typ[types.Bool], T, x))
	if toIface {
		return x, ok
	}
	return r.wrapBool(r.mk("ta", tstr(T), T, T, x)), ok
}

func (r *Run) binop(fr *Frame, st *State, v *ssa.BinOp) *Term {
	a, b := r.val(fr, v.X), r.val(fr, v.Y)
	T := v.Type()
	ot := v.X.Type()
	switch v.Op {
	case token.EQL:
		return r.mkBool(r.eq(a, b))
	case token.NEQ:
		return r.mkBool(r.B.Not(r.eq(a, b)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := v.Op
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		return r.mkBool(r.cmp(op, a, b, ot, 0))
	}
	return r.arith(st, v.Op, a, b, T, 0)
}

func (r *Run) cmp(op token.Token, a, b *Term, t types.Type, d int) BDD {
	if d < 6 {
		if a.Op == "ite" {
			return r.B.ite(a.Obj.(BDD), r.cmp(op, a.Args[0], b, t, d+1), r.cmp(op, a.Args[1], b, t, d+1))
		}
		if b.Op == "ite" {
			return r.B.ite(b.Obj.(BDD), r.cmp(op, a, b.Args[0], t, d+1), r.cmp(op, a, b.Args[1], t, d+1))
		}
	}
	if isInt(t) {
		// uint(x) < k: a negative x is a large number
		if isUnsigned(t) {
			signed := func(x *Term) *Term {
				if x.Op == "conv" && x.Args[0].T != nil && isInt(x.Args[0].T) && !isUnsigned(x.Args[0].T) && intBits(x.Args[0].T) <= intBits(t) {
					return x.Args[0]
				}
				return nil
			}
			small := func(k, x *Term) bool {
				n, ok := k.intVal()
				return ok && n >= 0 && (intBits(x.T) == 64 || n < 1<<uint(intBits(x.T)-1)) || !ok && (k.Op == "len" || k.Op == "cap") && intBits(x.T) == 64
			}
			if x := signed(a); x != nil && small(b, x) {
				return r.B.And(r.cmp(token.LEQ, r.mkInt(0, x.T), x, x.T, d+1), r.cmp(op, x, b, x.T, d+1))
			}
			if x := signed(b); x != nil && small(a, x) {
				return r.B.Or(r.cmp(token.LSS, x, r.mkInt(0, x.T), x.T, d+1), r.cmp(op, a, x, x.T, d+1))
			}
		}
		l := r.toLin(a).add(r.toLin(b), -1)
		if op == token.LSS {
			l.k++
		}
		// unsigned x - y < 0 style is not produced: operands compared as ints
		return r.leZero(l)
	}
	if a.Op == "const" && b.Op == "const" {
		va, ok1 := a.Obj.(constant.Value)
		vb, ok2 := b.Obj.(constant.Value)
		if ok1 && ok2 {
			if constant.Compare(va, op, vb) {
				return True
			}
			return False
		}
	}
	n := "flt"
	if op == token.LEQ {
		n = "fle"
	}
	if isString(t) {
		// strings are totally ordered: a<=b == !(b<a)
		if op == token.LEQ {
			return r.B.Not(r.atom(r.mk("slt", "", types.Typ[types.Bool], nil, b, a)))
		}
		return r.atom(r.mk("slt", "", types.Typ[types.Bool], nil, a, b))
	}
	return r.atom(r.mk(n, "", types.Typ[types.Bool], nil, a, b))
}

func (r *Run) arith(st *State, op token.Token, a, b *Term, T types.Type, d int) *Term {
	if d < 5 && (isInt(T) || isString(T) || isFloat(T)) {
		if a.Op == "ite" {
			return r.ite(a.Obj.(BDD), r.arith(st, op, a.Args[0], b, T, d+1), r.arith(st, op, a.Args[1], b, T, d+1))
		}
		if b.Op == "ite" {
			return r.ite(b.Obj.(BDD), r.arith(st, op, a, b.Args[0], T, d+1), r.arith(st, op, a, b.Args[1], T, d+1))
		}
	}
	if a.Op == "const" && b.Op == "const" {
		va, ok1 := a.Obj.(constant.Value)
		vb, ok2 := b.Obj.(constant.Value)
		if ok1 && ok2 {
			switch op {
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(vb); ok && isInt(T) && n < 64 {
					return r.wrapInt(constant.Shift(va, op, uint(n)), T)
				}
			case token.QUO, token.REM:
				if constant.Sign(vb) != 0 {
					if isInt(T) {
						if op == token.QUO {
							op = token.QUO_ASSIGN
						}
						return r.wrapInt(constant.BinaryOp(va, op, vb), T)
					}
					if op == token.QUO {
						return r.constVal(constant.BinaryOp(va, op, vb), T)
					}
				}
			default:
				if isInt(T) {
					return r.wrapInt(constant.BinaryOp(va, op, vb), T)
				}
				return r.constVal(constant.BinaryOp(va, op, vb), T)
			}
		}
	}
	if isInt(T) {
		switch op {
		case token.ADD, token.SUB:
			if r.opts.Overflow {
				return r.addOvf(st, op, a, b, T)
			}
			s := int64(1)
			if op == token.SUB {
				s = -1
			}
			return r.fromLin(r.toLin(a).add(r.toLin(b), s), T)
		case token.MUL:
			if n, ok := a.intVal(); ok && !r.opts.Overflow {
				return r.fromLin(r.toLin(b).scale(n), T)
			}
			if n, ok := b.intVal(); ok && !r.opts.Overflow {
				return r.fromLin(r.toLin(a).scale(n), T)
			}
			if a.ID > b.ID {
				a, b = b, a
			}
			return r.mk("mul", "", T, nil, a, b)
		case token.AND_NOT:
			if n, ok := b.intVal(); ok {
				return r.arith(st, token.AND, a, r.wrapInt(constant.MakeInt64(^n), T), T, d+1)
			}
		case token.AND:
			if a.isConst() || (!b.isConst() && a.ID > b.ID) {
				a, b = b, a
			}
			// a & 0xff  == byte(a)
			if n, ok := b.intVal(); ok && n == 0xff {
				return r.mk("conv8", "uint8", T, nil, r.unconv8(a))
			}
			if m, ok := b.intVal(); ok {
				if a.Op == "band" {
					if n, ok := a.Args[1].intVal(); ok {
						return r.arith(st, op, a.Args[0], r.mkInt(n&m, T), T, d+1)
					}
				}
				if m == 0 {
					return r.mkInt(0, T)
				}
				if a.Op == "b|" {
					for i, x := range a.Args {
						if n, ok := x.intVal(); ok {
							if n&m == m {
								return r.mkInt(m, T)
							}
							if n&m == 0 {
								return r.arith(st, op, a.Args[1-i], b, T, d+1)
							}
						}
					}
				}
			}
			return r.mk("band", "", T, nil, a, b)
		case token.OR, token.XOR:
			if a.ID > b.ID {
				a, b = b, a
			}
			return r.mk("b"+op.String(), "", T, nil, a, b)
		}
		return r.mk("arith", op.String(), T, nil, a, b)
	}
	if isString(T) && op == token.ADD {
		if s, ok := a.strVal(); ok && s == "" {
			return b
		}
		if s, ok := b.strVal(); ok && s == "" {
			return a
		}
		var parts []*Term
		for _, x := range []*Term{a, b} {
			if x.Op == "bcat" {
				parts = append(parts, x.Args...)
			} else {
				parts = append(parts, x)
			}
		}
		return r.mk("bcat", "", T, nil, parts...)
	}
	if (op == token.ADD || op == token.MUL) && a.ID > b.ID {
		a, b = b, a
	}
	return r.mk("arith", op.String(), T, nil, a, b)
}

func (r *Run) unconv8(a *Term) *Term {
	if a.Op == "conv8" {
		return a.Args[0]
	}
	return a
}

func (r *Run) wrapInt(v constant.Value, T types.Type) *Term {
	b := uint(intBits(T))
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, b)
	v = constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(v) < 0 {
		v = constant.BinaryOp(v, token.ADD, mod)
	}
	if !isUnsigned(T) {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, b-1)
		if constant.Compare(v, token.GEQ, half) {
			v = constant.BinaryOp(v, token.SUB, mod)
		}
	}
	return r.constVal(v, T)
}

// mkSlice is base[lo:hi:mx]; slices of slices are composed.
func (e *Eng) mkSlice(T types.Type, base, lo, hi, mx *Term) *Term {
	if lo != nil {
		if n, ok := lo.intVal(); ok && n == 0 {
			lo = nil
		}
	}
	if base.Op == "slice" && mx == nil && base.Args[3] == nil {
		bl := base.Args[1]
		add := func(t *Term) *Term {
			if bl == nil {
				return t
			}
			if t == nil {
				return bl
			}
			return e.fromLin(e.toLin(bl).add(e.toLin(t), 1), types.Typ[types.Int])
		}
		nhi := base.Args[2]
		if hi != nil {
			nhi = add(hi)
		}
		return e.mk("slice", "", T, nil, base.Args[0], add(lo), nhi, nil)
	}
	return e.mk("slice", "", T, nil, base, lo, hi, mx)
}
