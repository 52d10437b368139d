package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C37", "interprocedural typestate analysis of every lock: held-set exploration of each function's control-flow graph, may-acquire summaries over the call graph, cycle search in the lock order (locks, onces and channel hand-offs)",
		"Every function of the library; every path through its control-flow graph, with the locks held at each point, including deferred releases and panics of callbacks; every pair of a held lock and a lock acquired under it, directly, through calls, callbacks of the library and goroutines waited for.", ruleC37)
}

// lheld is a lock held (or, if neg, released without having been taken here).
type lheld struct {
	key, class string
	mode       int // 2 exclusive, 1 shared, 3 once
	neg        bool
	site       ssa.Instruction
}

type ldefer struct {
	call ssa.CallInstruction
	env  *lenv
}

// lenv names the parameters, free variables and calls of one activation.
type lenv struct {
	fn     *ssa.Function
	params map[ssa.Value]lpath
	depth  int
	up     *lenv
	id     string
}

type lpath struct {
	key, class string
	fn         *ssa.Function // a known function value
	fenv       *lenv         // where its bindings live
	mc         *ssa.MakeClosure
}

type lstate struct {
	held   []lheld
	defers []ldefer
	dec    map[string]bool
}

func (s *lstate) clone() *lstate {
	n := &lstate{held: append([]lheld(nil), s.held...), defers: append([]ldefer(nil), s.defers...), dec: map[string]bool{}}
	for k, v := range s.dec {
		n.dec[k] = v
	}
	return n
}

func (s *lstate) key() string {
	var b strings.Builder
	for _, h := range s.held {
		fmt.Fprintf(&b, "%s/%d/%v;", h.key, h.mode, h.neg)
	}
	b.WriteString("|")
	for _, d := range s.defers {
		fmt.Fprintf(&b, "%p;", d.call)
	}
	b.WriteString("|")
	var ks []string
	for k, v := range s.dec {
		ks = append(ks, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	return b.String()
}

type lexit struct {
	st    *lstate
	at    ssa.Instruction
	panic bool
}

// lacq is what a call may acquire.
type lacq struct {
	class string
	key   string // relative to the parameters of the function ("p0.mu"), or ""
	mode  int
	via   string
}

type ledge struct {
	from, to string
	pos      string
	what     string
}

// busyPath is a value being named.
type busyPath struct {
	v   ssa.Value
	env *lenv
}

type locks struct {
	c      *Ctx
	fns    []*ssa.Function
	in     map[*ssa.Function]bool
	acq    map[*ssa.Function]map[string]lacq
	user   map[*ssa.Function]string // a callback of the user's that the function may call
	unbal  map[*ssa.Function]bool
	stored map[string][]*ssa.Function // function values stored in a variable or field
	iface  map[string][]*ssa.Function
	edges  map[string]*ledge
	busy   map[busyPath]bool
	steps  int
	sites  int
	seen   map[string]bool
	quiet  bool
	ifUses map[*ssa.Function]map[string]int
	watch  func(ssa.Instruction, *lstate)
}

func lockOp(cc *ssa.CallCommon) (op string, mode int) {
	f := cc.StaticCallee()
	if f == nil {
		return "", 0
	}
	switch fnName(f) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock", 2
	case "(*sync.RWMutex).RLock":
		return "lock", 1
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "unlock", 2
	case "(*sync.RWMutex).RUnlock":
		return "unlock", 1
	case "(*sync.Once).Do":
		return "once", 3
	}
	return "", 0
}

func (l *locks) fieldClass(t types.Type, i int) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	owner := "struct"
	if n := namedOf(deref(t)); n != nil && n.Obj().Pkg() != nil {
		owner = shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return owner + "." + st.Field(i).Name()
}

// path names an address or value.
func (l *locks) path(v ssa.Value, env *lenv) lpath { return l.path1(v, env, 0) }

func (l *locks) path1(v ssa.Value, env *lenv, d int) lpath {
	own := lpath{key: env.id + ":" + v.Name(), class: "local:" + env.id + ":" + v.Name()}
	if d > 12 {
		return own
	}
	if p, ok := env.params[v]; ok {
		return p
	}
	// a value that is computed from itself (around a loop) has its own name
	bk := busyPath{v, env}
	if l.busy[bk] {
		return own
	}
	if l.busy == nil {
		l.busy = map[busyPath]bool{}
	}
	l.busy[bk] = true
	defer delete(l.busy, bk)
	rec := func(x ssa.Value) lpath { return l.path1(x, env, d+1) }
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range env.fn.Params {
			if p == x {
				return lpath{key: fmt.Sprintf("p%d", i), class: "param"}
			}
		}
	case *ssa.FreeVar:
		return lpath{key: "fv:" + x.Name(), class: "free"}
	case *ssa.Global:
		n := x.Name()
		if x.Pkg != nil {
			n = shortPkg(x.Pkg.Pkg.Path()) + "." + n
		}
		return lpath{key: n, class: n}
	case *ssa.Function:
		return lpath{key: x.String(), class: "func", fn: x, fenv: env}
	case *ssa.MakeClosure:
		return lpath{key: own.key, class: "func", fn: x.Fn.(*ssa.Function), fenv: env, mc: x}
	case *ssa.FieldAddr:
		return lpath{key: rec(x.X).key + "." + fmt.Sprint(x.Field), class: l.fieldClass(x.X.Type(), x.Field)}
	case *ssa.Field:
		return lpath{key: rec(x.X).key + "." + fmt.Sprint(x.Field), class: l.fieldClass(x.X.Type(), x.Field)}
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return rec(x.X)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return rec(ta.X)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := l.only(x.X, env); s != nil {
				return rec(s)
			}
			p := rec(x.X)
			return lpath{key: p.key, class: p.class}
		}
	case *ssa.Phi:
		var p lpath
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			q := rec(e)
			if i > 0 && p.key != "" && q.key != p.key {
				return own
			}
			p = q
		}
		if p.key != "" {
			return p
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && l.in[f] && len(f.Blocks) > 0 {
			// a function that returns one closure, or one address
			var ret ssa.Value
			n := 0
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					n++
					ret = r.Results[0]
				}
			}
			if n == 1 && env.depth < 6 {
				return l.path1(ret, l.callEnv(f, x, env), d+1)
			}
		}
	}
	return own
}

// only is the value a local variable holds throughout, if it is stored once.
func (l *locks) only(a ssa.Value, env *lenv) ssa.Value {
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != al || val != nil {
				return nil
			}
			val = x.Val
		case *ssa.MakeClosure:
			// captured: fine as long as the closure does not store to it
			for i, b := range x.Bindings {
				if b == al {
					for _, rr := range *x.Fn.(*ssa.Function).FreeVars[i].Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == x.Fn.(*ssa.Function).FreeVars[i] {
							return nil
						}
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return val
}

func (l *locks) callEnv(f *ssa.Function, call ssa.CallInstruction, env *lenv) *lenv {
	e := &lenv{fn: f, params: map[ssa.Value]lpath{}, depth: env.depth + 1, up: env, id: env.id + "/" + f.Name()}
	if call != nil {
		args := call.Common().Args
		for i, p := range f.Params {
			if i < len(args) && len(args) == len(f.Params) {
				e.params[p] = l.path(args[i], env)
			}
		}
	}
	return e
}

// closureEnv binds the free variables of a closure.
func (l *locks) bind(e *lenv, p lpath) {
	if p.mc == nil || p.fenv == nil {
		return
	}
	for i, fv := range p.fn.FreeVars {
		q := lpath{}
		b := p.mc.Bindings[i]
		if s := l.only(b, p.fenv); s != nil {
			q = l.path(s, p.fenv)
			// the free variable is the address: its load is the value
			e.params[fv] = q
			continue
		}
		q = l.path(b, p.fenv)
		e.params[fv] = q
	}
}

// targets lists the module functions a call may reach, with known function
// values first; known is false when user code may be called.
func (l *locks) targets(cc *ssa.CallCommon, env *lenv) (out []*ssa.Function, p lpath, known bool) {
	if cc.IsInvoke() {
		return l.implementers(cc.Value.Type(), cc.Method), lpath{}, false
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			return []*ssa.Function{f}, lpath{fn: f, mc: mc, fenv: env}, true
		}
		return []*ssa.Function{f}, lpath{fn: f, fenv: env}, true
	}
	q := l.path(cc.Value, env)
	if q.fn != nil {
		return []*ssa.Function{q.fn}, q, true
	}
	fs := l.stored[q.class]
	return fs, lpath{}, len(fs) > 0
}

func (l *locks) implementers(t types.Type, m *types.Func) []*ssa.Function {
	k := t.String() + "." + m.Name()
	if fs, ok := l.iface[k]; ok {
		return fs
	}
	it, _ := t.Underlying().(*types.Interface)
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	if it != nil {
		for _, p := range l.c.W.Prog.AllPackages() {
			if p.Pkg == nil || !libPkg(p.Pkg.Path()) {
				continue
			}
			for _, mem := range p.Members {
				tm, ok := mem.(*ssa.Type)
				if !ok || types.IsInterface(tm.Type()) {
					continue
				}
				for _, x := range []types.Type{tm.Type(), types.NewPointer(tm.Type())} {
					if types.Implements(x, it) {
						if f := l.c.W.Prog.LookupMethod(x, m.Pkg(), m.Name()); f != nil && !seen[f] {
							if n := namedOf(x); n != nil && f.Synthetic != "" && f.Pkg == nil {
								continue // promoted from an embedded interface or type
							}
							seen[f] = true
							out = append(out, f)
						}
						break
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	l.iface[k] = out
	return out
}

// libPkg: a package of the library, not an example or a test aid.
func libPkg(p string) bool {
	if !isModPkg(p) {
		return false
	}
	s := shortPkg(p)
	return !strings.HasPrefix(s, "examples") && !strings.HasPrefix(s, "internal/readme") && !strings.HasPrefix(s, "internal/check") && !strings.HasPrefix(s, "internal/testpb") && s != "metric/test"
}

// ---------- summaries ----------

func (l *locks) addAcq(f *ssa.Function, a lacq) bool {
	k := a.class + "@" + a.key
	if _, ok := l.acq[f][k]; ok {
		return false
	}
	l.acq[f][k] = a
	return true
}

// callees lists what may run, in this goroutine, because of a call.
func (l *locks) callees(cc *ssa.CallCommon, env *lenv) []*ssa.Function {
	fs, _, _ := l.targets(cc, env)
	out := append([]*ssa.Function(nil), fs...)
	// function values handed over may be called
	for _, a := range cc.Args {
		if p := l.path(a, env); p.fn != nil {
			out = append(out, p.fn)
		}
	}
	// so may the methods of values handed to other code
	if f := cc.StaticCallee(); f != nil && !l.in[f] {
		sig := f.Signature
		for i, a := range cc.Args {
			mi, ok := a.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			j := i
			if sig.Recv() != nil {
				j--
			}
			if j < 0 || j >= sig.Params().Len() {
				continue
			}
			it, ok := sig.Params().At(j).Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for k := 0; k < it.NumMethods(); k++ {
				if m := l.c.W.Prog.LookupMethod(mi.X.Type(), it.Method(k).Pkg(), it.Method(k).Name()); m != nil && l.in[m] {
					out = append(out, m)
				}
			}
		}
	}
	return out
}

// subst names what a callee acquires in the terms of its caller.
func (l *locks) subst(a lacq, f *ssa.Function, cc *ssa.CallCommon, env *lenv) lacq {
	k := a.key
	a.key = ""
	if strings.HasPrefix(k, "p") && cc.StaticCallee() == f {
		for i := range f.Params {
			pre := fmt.Sprintf("p%d.", i)
			if strings.HasPrefix(k, pre) && i < len(cc.Args) {
				a.key = l.path(cc.Args[i], env).key + "." + k[len(pre):]
			}
		}
	} else if a.class == k {
		a.key = k
	}
	return a
}

func (l *locks) summaries() {
	for _, f := range l.fns {
		l.acq[f] = map[string]lacq{}
	}
	type dep struct {
		f  *ssa.Function
		g  *ssa.Function
		cc *ssa.CallCommon
		in ssa.Instruction
	}
	var deps []dep
	for _, f := range l.fns {
		env := &lenv{fn: f, params: map[ssa.Value]lpath{}, id: fnName(f)}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call, *ssa.Defer:
					cc := x.(ssa.CallInstruction).Common()
					if op, mode := lockOp(cc); op != "" {
						if op == "lock" || op == "once" {
							p := l.path(cc.Args[0], env)
							l.addAcq(f, lacq{class: p.class, key: p.key, mode: mode})
						}
						if op != "once" {
							continue
						}
					}
					for _, g := range l.callees(cc, env) {
						if l.in[g] {
							deps = append(deps, dep{f, g, cc, in})
						}
					}
					if u := l.userCall(cc, env); u != "" && l.user[f] == "" {
						l.user[f] = u
					}
				case *ssa.Send:
					l.addAcq(f, lacq{class: "send " + l.path(x.Chan, env).class})
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						l.addAcq(f, lacq{class: "recv " + l.path(x.X, env).class})
					}
				case *ssa.Select:
					if n := selectNode(l, x, env); n != "" {
						l.addAcq(f, lacq{class: n})
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, d := range deps {
			env := &lenv{fn: d.f, params: map[ssa.Value]lpath{}, id: fnName(d.f)}
			for _, a := range l.acq[d.g] {
				b := l.subst(a, d.g, d.cc, env)
				if strings.HasPrefix(b.class, "local:") {
					continue
				}
				b.via = fnName(d.g)
				if l.addAcq(d.f, b) {
					changed = true
				}
			}
			if l.user[d.f] == "" && l.user[d.g] != "" {
				l.user[d.f] = l.user[d.g]
				changed = true
			}
		}
	}
}

// selectNode names a select that blocks: it goes on when any of its channels
// does.
func selectNode(l *locks, x *ssa.Select, env *lenv) string {
	if !x.Blocking {
		return ""
	}
	var ns []string
	for _, s := range x.States {
		op := "recv "
		if s.Dir == types.SendOnly {
			op = "send "
		}
		ns = append(ns, op+l.path(s.Chan, env).class)
	}
	sort.Strings(ns)
	return strings.Join(ns, ", ")
}

// userCall: the call may enter code of the user's.
func (l *locks) userCall(cc *ssa.CallCommon, env *lenv) string {
	if cc.IsInvoke() {
		n := namedOf(cc.Value.Type())
		if n != nil && n.Obj().Pkg() != nil && isModPkg(n.Obj().Pkg().Path()) && !l.c.W.closedIface(n) && !strings.Contains(n.Obj().Pkg().Path(), "/internal") {
			switch n.Obj().Name() {
			case "Exporter", "Producer", "Sampler", "IDGenerator", "Mutator":
				return n.Obj().Name() + "." + cc.Method.Name()
			}
		}
		if n != nil && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "io.Writer", "io.Reader", "io.ReadCloser", "io.Closer", "net/http.ResponseWriter", "net/http.RoundTripper", "net/http.Handler":
				return n.Obj().Name() + "." + cc.Method.Name()
			}
		}
		return ""
	}
	if f := cc.StaticCallee(); f != nil {
		if l.in[f] || isModPkg(fnPkgPath(f)) {
			return ""
		}
		for _, a := range cc.Args {
			n := namedOf(a.Type())
			if n == nil || n.Obj().Pkg() == nil || !types.IsInterface(a.Type()) {
				continue
			}
			if _, ok := a.(*ssa.MakeInterface); ok {
				continue
			}
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "io.Writer", "io.Reader", "net/http.ResponseWriter":
				return fnName(f) + " on the caller's " + n.Obj().Name()
			}
		}
		return ""
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return ""
	}
	_, _, known := l.targets(cc, env)
	if known {
		return ""
	}
	return "a callback"
}

// ---------- exploration ----------

type lrep struct{ kind, key, pos, msg string }

func (l *locks) report(kind, key string, at ssa.Instruction, format string, a ...any) {
	if l.quiet {
		return
	}
	k := kind + "/" + key
	if l.seen[k] {
		return
	}
	l.seen[k] = true
	l.c.bad(kind, key, l.c.W.instrPos(at), format, a...)
}

func (l *locks) acquire(st *lstate, p lpath, mode int, at ssa.Instruction, fn string) {
	for i, h := range st.held {
		if h.neg && h.key == p.key && h.mode == mode {
			st.held = append(st.held[:i:i], st.held[i+1:]...)
			return
		}
	}
	for _, h := range st.held {
		if h.neg {
			continue
		}
		if h.key == p.key {
			l.report("reenter", fn+":"+p.class, at, "%s is acquired by %s, which already holds it (acquired at %s)", p.class, fn, l.c.W.instrPos(h.site))
			return
		}
		l.edge(h, lacq{class: p.class, key: p.key}, at, fn)
	}
	st.held = append(st.held, lheld{key: p.key, class: p.class, mode: mode, site: at})
}

func (l *locks) edge(h lheld, a lacq, at ssa.Instruction, fn string) {
	if l.quiet || h.neg {
		return
	}
	k := h.class + " -> " + a.class
	if _, ok := l.edges[k]; !ok {
		via := ""
		if a.via != "" {
			via = " through " + a.via
		}
		l.edges[k] = &ledge{h.class, a.class, l.c.W.instrPos(at), fn + via}
	}
}

func (l *locks) release(st *lstate, p lpath, mode int, at ssa.Instruction, fn string) {
	best := -1
	for i := len(st.held) - 1; i >= 0; i-- {
		h := st.held[i]
		if h.neg || h.mode == 3 {
			continue
		}
		if h.key == p.key {
			best = i
			break
		}
		if best < 0 && h.class == p.class && !strings.HasPrefix(h.class, "param") && !strings.HasPrefix(h.class, "free") {
			best = i
		}
	}
	if best < 0 {
		n := 0
		for _, h := range st.held {
			if h.neg && h.key == p.key {
				n++
			}
		}
		if n > 1 {
			return
		}
		st.held = append(st.held, lheld{key: p.key, class: p.class, mode: mode, neg: true, site: at})
		return
	}
	if st.held[best].mode != mode {
		l.report("mode", fn+":"+p.class, at, "%s is released in another mode than it was acquired in", p.class)
	}
	st.held = append(st.held[:best:best], st.held[best+1:]...)
}

// condKey names a condition so that two tests of the same values agree.
func condKey(v ssa.Value) (string, []ssa.Value, bool) {
	neg := false
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = !neg
			v = u.X
			continue
		}
		break
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		if b.Op == token.NEQ {
			neg = !neg
		}
		x, y := valName(b.X), valName(b.Y)
		if x > y {
			x, y = y, x
		}
		return x + "==" + y, []ssa.Value{b.X, b.Y}, neg
	}
	return valName(v), []ssa.Value{v}, neg
}

func valName(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	return v.Name()
}

func (l *locks) condUses(f *ssa.Function) map[string]int {
	if m, ok := l.ifUses[f]; ok {
		return m
	}
	m := map[string]int{}
	for _, b := range f.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			k, vs, _ := condKey(i.Cond)
			m[k]++
			for _, v := range vs {
				if p, ok := v.(*ssa.Phi); ok && isBool(p.Type()) {
					m[k] += 2
				}
			}
		}
	}
	l.ifUses[f] = m
	return m
}

// explore follows every path of a function from a state.
func (l *locks) explore(f *ssa.Function, env *lenv, init *lstate) []lexit {
	type node struct {
		b  *ssa.BasicBlock
		st *lstate
	}
	var exits []lexit
	exitSeen := map[string]bool{}
	exit := func(st *lstate, at ssa.Instruction, pn bool) {
		k := fmt.Sprintf("%v|%s", pn, (&lstate{held: st.held}).key())
		if !exitSeen[k] {
			exitSeen[k] = true
			exits = append(exits, lexit{&lstate{held: st.held, dec: map[string]bool{}}, at, pn})
		}
	}
	visited := map[string]bool{}
	work := []node{{f.Blocks[0], &lstate{held: append([]lheld(nil), init.held...), dec: map[string]bool{}}}}
	visited[fmt.Sprintf("%d|%s", 0, work[0].st.key())] = true
	uses := l.condUses(f)
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		l.steps++
		if l.steps > 4000000 {
			return exits
		}
		states := []*lstate{n.st}
		var last ssa.Instruction
		for _, in := range n.b.Instrs {
			last = in
			var next []*lstate
			for _, st := range states {
				next = append(next, l.step(f, env, st, in, exit)...)
			}
			states = dedupe(next)
			if len(states) == 0 {
				break
			}
		}
		for _, st := range states {
			var succs []int
			switch x := last.(type) {
			case *ssa.Return:
				exit(st, x, false)
			case *ssa.Panic:
				for _, s := range l.runDefers(f, env, st, x) {
					exit(s, x, true)
				}
			case *ssa.If:
				k, _, neg := condKey(x.Cond)
				if c, ok := x.Cond.(*ssa.Const); ok && c.Value != nil {
					if constant.BoolVal(c.Value) {
						succs = []int{0}
					} else {
						succs = []int{1}
					}
				} else if v, ok := st.dec[k]; ok {
					if v != neg {
						succs = []int{0}
					} else {
						succs = []int{1}
					}
				} else {
					succs = []int{0, 1}
				}
				for _, i := range succs {
					s := st.clone()
					if uses[k] > 1 {
						s.dec[k] = (i == 0) != neg
					}
					push(n.b, n.b.Succs[i], s, &work, visited, func(b *ssa.BasicBlock, st *lstate) node { return node{b, st} })
				}
			case *ssa.Jump:
				push(n.b, n.b.Succs[0], st.clone(), &work, visited, func(b *ssa.BasicBlock, st *lstate) node { return node{b, st} })
			}
		}
	}
	return exits
}

func push[N any](from, to *ssa.BasicBlock, st *lstate, work *[]N, visited map[string]bool, mk func(*ssa.BasicBlock, *lstate) N) {
	// values of the block are defined anew
	defs := map[string]bool{}
	for _, in := range to.Instrs {
		if v, ok := in.(ssa.Value); ok {
			defs[v.Name()] = true
		}
	}
	set := map[string]bool{}
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok || !isBool(ph.Type()) || idx < 0 {
			continue
		}
		if c, ok := ph.Edges[idx].(*ssa.Const); ok && c.Value != nil {
			set[ph.Name()] = constant.BoolVal(c.Value)
		} else {
			k, _, neg := condKey(ph.Edges[idx])
			if v, ok := st.dec[k]; ok {
				set[ph.Name()] = v != neg
			}
		}
	}
	for k := range st.dec {
		for _, part := range strings.Split(k, "==") {
			if defs[part] {
				delete(st.dec, k)
			}
		}
	}
	for k, v := range set {
		st.dec[k] = v
	}
	k := fmt.Sprintf("%d|%s", to.Index, st.key())
	if visited[k] {
		return
	}
	visited[k] = true
	*work = append(*work, mk(to, st))
}

func dedupe(ss []*lstate) []*lstate {
	if len(ss) < 2 {
		return ss
	}
	seen := map[string]bool{}
	var out []*lstate
	for _, s := range ss {
		if k := s.key(); !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func (l *locks) step(f *ssa.Function, env *lenv, st *lstate, in ssa.Instruction, exit func(*lstate, ssa.Instruction, bool)) []*lstate {
	if l.watch != nil {
		l.watch(in, st)
	}
	switch x := in.(type) {
	case *ssa.Call:
		return l.call(f, env, st, x, exit)
	case *ssa.Defer:
		for _, d := range st.defers {
			if d.call == x {
				return []*lstate{st} // deferred again in a loop
			}
		}
		s := st.clone()
		s.defers = append(s.defers, ldefer{x, env})
		return []*lstate{s}
	case *ssa.RunDefers:
		return l.runDefers(f, env, st, x)
	case *ssa.Send:
		l.block(st, lacq{class: "send " + l.path(x.Chan, env).class}, x, fnName(f))
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			l.block(st, lacq{class: "recv " + l.path(x.X, env).class}, x, fnName(f))
		}
	case *ssa.Select:
		if n := selectNode(l, x, env); n != "" {
			l.block(st, lacq{class: n}, x, fnName(f))
		}
	}
	return []*lstate{st}
}

func (l *locks) block(st *lstate, a lacq, at ssa.Instruction, fn string) {
	for _, h := range st.held {
		l.edge(h, a, at, fn)
	}
}

// runDefers applies the deferred calls in reverse order.
func (l *locks) runDefers(f *ssa.Function, env *lenv, st *lstate, at ssa.Instruction) []*lstate {
	states := []*lstate{st.clone()}
	for i := len(st.defers) - 1; i >= 0; i-- {
		var next []*lstate
		for _, s := range states {
			s.defers = s.defers[:i:i]
			next = append(next, l.call(f, st.defers[i].env, s, st.defers[i].call, func(*lstate, ssa.Instruction, bool) {})...)
		}
		states = dedupe(next)
	}
	return states
}

func (l *locks) call(f *ssa.Function, env *lenv, st *lstate, x ssa.CallInstruction, exit func(*lstate, ssa.Instruction, bool)) []*lstate {
	cc := x.Common()
	fn := fnName(f)
	if op, mode := lockOp(cc); op != "" {
		s := st.clone()
		p := l.path(cc.Args[0], env)
		switch op {
		case "lock":
			l.sites++
			l.acquire(s, p, mode, x, fn)
			return []*lstate{s}
		case "unlock":
			l.release(s, p, mode, x, fn)
			return []*lstate{s}
		case "once":
			l.sites++
			l.acquire(s, p, 3, x, fn)
			q := l.path(cc.Args[1], env)
			var outs []*lstate
			if q.fn != nil && l.in[q.fn] {
				outs = l.enter(f, env, s, x, q.fn, q, exit)
			} else {
				outs = []*lstate{s}
			}
			for _, o := range outs {
				for i, h := range o.held {
					if h.mode == 3 && h.key == p.key && !h.neg {
						o.held = append(o.held[:i:i], o.held[i+1:]...)
						break
					}
				}
			}
			// not the first call
			return dedupe(append(outs, st.clone()))
		}
	}
	// what the call may acquire, under what is held
	if len(st.held) > 0 {
		for _, g := range l.callees(cc, env) {
			if !l.in[g] || l.unbal[g] {
				continue
			}
			for _, a := range l.acq[g] {
				b := l.subst(a, g, cc, env)
				if b.via == "" {
					b.via = fnName(g)
				} else {
					b.via = fnName(g) + ", " + b.via
				}
				for _, h := range st.held {
					if h.neg {
						continue
					}
					if b.key != "" && b.key == h.key || b.class == h.class && !strings.HasPrefix(b.class, "local:") && b.class != "param" && b.class != "free" {
						l.report("reenter", fn+":"+h.class+":"+fnName(g), x, "%s may be acquired by %s, called while %s holds it (acquired at %s)", h.class, b.via, fn, l.c.W.instrPos(h.site))
						continue
					}
					l.edge(h, b, x, fn)
				}
			}
		}
		// a panic of the callback
		u := l.userCall(cc, env)
		for _, g := range l.callees(cc, env) {
			if u == "" && l.in[g] {
				u = l.user[g]
			}
		}
		if u != "" {
			q := l.quiet
			l.quiet = true
			outs := l.runDefers(f, env, st, x)
			l.quiet = q
			for _, o := range outs {
				exit(o, x, true)
			}
		}
	}
	fs, p, _ := l.targets(cc, env)
	if len(fs) == 1 && l.in[fs[0]] && (l.unbal[fs[0]]) && !cc.IsInvoke() {
		return l.enter(f, env, st, x, fs[0], p, exit)
	}
	return []*lstate{st}
}

// enter follows a call into a function.
func (l *locks) enter(f *ssa.Function, env *lenv, st *lstate, x ssa.CallInstruction, g *ssa.Function, p lpath, exit func(*lstate, ssa.Instruction, bool)) []*lstate {
	if env.depth > 6 || len(g.Blocks) == 0 {
		return []*lstate{st}
	}
	for e := env; e != nil; e = e.up {
		if e.fn == g {
			return []*lstate{st}
		}
	}
	ne := l.callEnv(g, x, env)
	if op, _ := lockOp(x.Common()); op == "once" {
		ne = l.callEnv(g, nil, env)
	}
	l.bind(ne, p)
	var out []*lstate
	for _, ex := range l.explore(g, ne, st) {
		s := st.clone()
		s.held = ex.st.held
		if ex.panic {
			for _, o := range l.runDefers(f, env, s, x) {
				exit(o, x, true)
			}
			continue
		}
		out = append(out, s)
	}
	return dedupe(out)
}

func newLocks(c *Ctx) *locks {
	l := &locks{c: c, in: map[*ssa.Function]bool{}, acq: map[*ssa.Function]map[string]lacq{}, user: map[*ssa.Function]string{}, unbal: map[*ssa.Function]bool{}, stored: map[string][]*ssa.Function{}, iface: map[string][]*ssa.Function{}, edges: map[string]*ledge{}, seen: map[string]bool{}, ifUses: map[*ssa.Function]map[string]int{}}
	for _, f := range c.W.Funcs {
		if len(f.Blocks) > 0 && libPkg(fnPkgPath(f)) {
			l.fns = append(l.fns, f)
			l.in[f] = true
			c.Funcs[fnName(f)] = true
		}
	}
	sort.Slice(l.fns, func(i, j int) bool { return l.fns[i].String() < l.fns[j].String() })
	return l
}

func ruleC37(c *Ctx) {
	l := newLocks(c)
	// function values kept in variables and fields
	static := map[*ssa.Function]int{}
	value := map[*ssa.Function]bool{}
	gone := map[*ssa.Function]bool{}
	c.instrs(l.fns, func(f *ssa.Function, in ssa.Instruction) {
		env := &lenv{fn: f, params: map[ssa.Value]lpath{}, id: fnName(f)}
		if st, ok := in.(*ssa.Store); ok {
			if p := l.path(st.Val, env); p.fn != nil {
				k := l.path(st.Addr, env).class
				l.stored[k] = append(l.stored[k], p.fn)
			}
		}
		ci, isCall := in.(ssa.CallInstruction)
		if isCall {
			if g := ci.Common().StaticCallee(); g != nil {
				if _, ok := in.(*ssa.Go); ok {
					gone[g] = true
				} else {
					static[g]++
				}
			}
		}
		for _, op := range in.Operands(nil) {
			if g, ok := (*op).(*ssa.Function); ok {
				if isCall && ci.Common().Value == *op {
					continue
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					// a closure that is only called here is not a value
					called := true
					for _, r := range *mc.Referrers() {
						ci, ok := r.(ssa.CallInstruction)
						if _, isGo := r.(*ssa.Go); !ok || isGo || ci.Common().Value != mc {
							called = false
						}
					}
					if !called {
						value[g] = true
					} else {
						static[g]++
					}
					continue
				}
				value[g] = true
			}
		}
	})
	l.summaries()
	// functions that return with another set of locks than they were called
	// with are followed from their callers
	l.quiet = true
	for pass := 0; pass < 4; pass++ {
		changed := false
		for _, f := range l.fns {
			if l.unbal[f] {
				continue
			}
			env := &lenv{fn: f, params: map[ssa.Value]lpath{}, id: fnName(f)}
			for _, ex := range l.explore(f, env, &lstate{dec: map[string]bool{}}) {
				if len(ex.st.held) > 0 && !ex.panic {
					l.unbal[f] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	l.quiet = false
	l.steps, l.sites = 0, 0
	for _, f := range l.fns {
		helper := l.unbal[f] && static[f] > 0 && !value[f] && !gone[f] && !(token.IsExported(f.Name()) && f.Parent() == nil)
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		env := &lenv{fn: f, params: map[ssa.Value]lpath{}, id: fnName(f)}
		bad := false
		for _, ex := range l.explore(f, env, &lstate{dec: map[string]bool{}}) {
			if helper {
				continue
			}
			for _, h := range ex.st.held {
				if h.mode == 3 && ex.panic {
					continue // a once counts as done when its function panics
				}
				bad = bad || !h.neg || f.Parent() == nil
				switch {
				case h.neg && f.Parent() == nil:
					l.report("unlock", fnName(f)+":"+h.class, h.site, "%s releases %s, which it does not hold", fnName(f), h.class)
				case h.neg:
				case ex.panic:
					l.report("panic", fnName(f)+":"+h.class, ex.at, "a panic here leaves %s locked (acquired at %s)", h.class, c.W.instrPos(h.site))
				default:
					l.report("leak", fnName(f)+":"+h.class, ex.at, "%s returns here with %s still locked (acquired at %s)", fnName(f), h.class, c.W.instrPos(h.site))
				}
			}
		}
		c.need(!bad || l.quiet, "balance", fnName(f), c.W.position(f.Pos()), "%s does not release what it acquires", fnName(f))
	}
	c.floor("balance", "acquisitions", l.sites, 40)
	l.handoffs()
	l.order()
}

// handoffs adds, for every channel operation that is waited for while a lock
// is held, the locks its counterpart needs to get there.
func (l *locks) handoffs() {
	sites := map[string]map[*ssa.Function]map[string]bool{} // operation -> counterpart -> classes
	waits := map[string]map[*ssa.Function]bool{}
	wait := func(op string, f *ssa.Function) {
		if waits[op] == nil {
			waits[op] = map[*ssa.Function]bool{}
		}
		waits[op][f] = true
	}
	add := func(op string, b *ssa.BasicBlock, f *ssa.Function) {
		if sites[op] == nil {
			sites[op] = map[*ssa.Function]map[string]bool{}
		}
		if sites[op][f] == nil {
			sites[op][f] = map[string]bool{}
		}
		for a := range l.around(f, b, 0) {
			sites[op][f][a] = true
		}
	}
	l.c.instrs(l.fns, func(f *ssa.Function, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Send:
			for k := range l.chanClasses(x.Chan, f, 0) {
				add("recv "+k, in.Block(), f)
				wait("send "+k, f)
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				for k := range l.chanClasses(x.X, f, 0) {
					add("send "+k, in.Block(), f)
					wait("recv "+k, f)
				}
			}
		case *ssa.Select:
			for _, s := range x.States {
				op := "send "
				if s.Dir == types.SendOnly {
					op = "recv "
				}
				for k := range l.chanClasses(s.Chan, f, 0) {
					add(op+k, in.Block(), f)
				}
			}
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				for k := range l.chanClasses(x.Common().Args[0], f, 0) {
					add("recv "+k, in.Block(), f)
				}
			}
		}
	})
	counter := map[string]map[string]bool{}
	for op, fs := range sites {
		counter[op] = map[string]bool{}
		for f, cs := range fs {
			if waits[op][f] && len(fs) > 1 {
				continue // it is not this one that ends its own waiting
			}
			for k := range cs {
				counter[op][k] = true
			}
		}
	}
	var nodes []string
	for _, e := range l.edges {
		nodes = append(nodes, e.to)
	}
	sort.Strings(nodes)
	for _, n := range nodes {
		if !strings.HasPrefix(n, "send ") && !strings.HasPrefix(n, "recv ") {
			continue
		}
		// a select waits for all of its channels only if all are stuck
		var common map[string]bool
		for _, op := range strings.Split(n, ", ") {
			cs := counter[op]
			if common == nil {
				common = map[string]bool{}
				for k := range cs {
					common[k] = true
				}
				continue
			}
			for k := range common {
				if !cs[k] {
					delete(common, k)
				}
			}
		}
		var ks []string
		for k := range common {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			e := n + " -> " + k
			if _, ok := l.edges[e]; !ok {
				l.edges[e] = &ledge{n, k, "-", "the other side of the channel"}
			}
		}
	}
}

// around lists the locks acquired on the way (back) to a block: in the loop
// around it, or before it.
// chanClasses names the channels a value can be, following parameters to
// the arguments of every call and captured variables to what was captured.
func (l *locks) chanClasses(v ssa.Value, f *ssa.Function, depth int) map[string]bool {
	out := map[string]bool{}
	join := func(m map[string]bool) {
		for k := range m {
			out[k] = true
		}
	}
	// what a variable (a local one or a captured one) is set to
	var stored func(a ssa.Value, f *ssa.Function, depth int)
	stored = func(a ssa.Value, f *ssa.Function, depth int) {
		switch a := a.(type) {
		case *ssa.Alloc:
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == a {
					join(l.chanClasses(st.Val, f, depth+1))
				}
			}
		case *ssa.FreeVar:
			l.bindings(f, a, func(b ssa.Value, g *ssa.Function) { stored(b, g, depth+1) })
		}
	}
	if depth < 6 {
		switch x := v.(type) {
		case *ssa.ChangeType:
			return l.chanClasses(x.X, f, depth)
		case *ssa.Phi:
			for _, e := range x.Edges {
				join(l.chanClasses(e, f, depth+1))
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				stored(x.X, f, depth)
			}
		case *ssa.FreeVar:
			l.bindings(f, x, func(b ssa.Value, g *ssa.Function) { join(l.chanClasses(b, g, depth+1)) })
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p != x {
					continue
				}
				l.c.instrs(l.fns, func(h *ssa.Function, in ssa.Instruction) {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && i < len(ci.Common().Args) {
						join(l.chanClasses(ci.Common().Args[i], h, depth+1))
					}
				})
			}
		}
	}
	if len(out) == 0 {
		env := &lenv{fn: f, params: map[ssa.Value]lpath{}, id: fnName(f)}
		out[l.path(v, env).class] = true
	}
	return out
}

// bindings lists what a captured variable of f is bound to.
func (l *locks) bindings(f *ssa.Function, fv *ssa.FreeVar, yield func(b ssa.Value, g *ssa.Function)) {
	g := f.Parent()
	if g == nil {
		return
	}
	for i, x := range f.FreeVars {
		if x != fv {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && i < len(mc.Bindings) {
					yield(mc.Bindings[i], g)
				}
			}
		}
	}
}

func (l *locks) around(f *ssa.Function, b *ssa.BasicBlock, depth int) map[string]bool {
	out := map[string]bool{}
	env := &lenv{fn: f, params: map[ssa.Value]lpath{}, id: fnName(f)}
	reach := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock(nil), from.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if !seen[x] {
				seen[x] = true
				st = append(st, x.Succs...)
			}
		}
		return seen
	}
	after := reach(b)
	inLoop := after[b]
	for _, x := range f.Blocks {
		if x != b && !reach(x)[b] || inLoop && !after[x] {
			continue
		}
		for _, in := range x.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			if op, _ := lockOp(ci.Common()); op == "lock" {
				out[l.path(ci.Common().Args[0], env).class] = true
			}
			for _, g := range l.callees(ci.Common(), env) {
				for _, a := range l.acq[g] {
					if !strings.HasPrefix(a.class, "send ") && !strings.HasPrefix(a.class, "recv ") {
						out[a.class] = true
					}
				}
			}
		}
	}
	if !inLoop && depth < 3 {
		l.c.instrs(l.fns, func(h *ssa.Function, in ssa.Instruction) {
			if ci, ok := in.(*ssa.Call); ok && ci.Common().StaticCallee() == f && h != f {
				for k := range l.around(h, in.Block(), depth+1) {
					out[k] = true
				}
			}
		})
	}
	return out
}

// order looks for cycles.
func (l *locks) order() {
	var ks []string
	next := map[string][]string{}
	for k, e := range l.edges {
		ks = append(ks, k)
		next[e.from] = append(next[e.from], e.to)
	}
	sort.Strings(ks)
	for _, v := range next {
		sort.Strings(v)
	}
	for _, k := range ks {
		e := l.edges[k]
		// a way back?
		prev := map[string]string{e.to: ""}
		q := []string{e.to}
		found := e.to == e.from
		for len(q) > 0 && !found {
			x := q[0]
			q = q[1:]
			for _, y := range next[x] {
				if _, ok := prev[y]; ok {
					continue
				}
				prev[y] = x
				if y == e.from {
					found = true
					break
				}
				q = append(q, y)
			}
		}
		msg := ""
		if found {
			for y := e.from; y != ""; y = prev[y] {
				p := prev[y]
				if p == "" {
					break
				}
				if b := l.edges[p+" -> "+y]; b != nil {
					msg = fmt.Sprintf("; %s before %s in %s (%s)", p, y, b.what, b.pos) + msg
				}
			}
		}
		l.c.need(!found, "order", k, e.pos, "%s is waited for in %s while %s is held, and the other way round%s", e.to, e.what, e.from, msg)
	}
	l.c.Notes = append(l.c.Notes, fmt.Sprintf("lock order edges: %s", strings.Join(ks, " | ")))
	l.c.floor("order", "pairs of locks", len(ks), 5)
}

func init() {
	reg("C38", "access analysis of every variable used with sync/atomic (all uses of its address, fresh-object and once exceptions) and layout computation for 32-bit platforms",
		"Every variable whose address reaches a function of sync/atomic, every use of it in the library, and its offset in every type that contains it under the 32-bit layouts.", ruleC38)
}

// atomicVars are the variables known to be shared without a lock: they stay
// atomic for as long as they exist as plain integers.
var atomicVars = map[string][]string{
	"stats":          {"measureDescriptor.subs"},
	"stats/view":     {"viewInternal.subscribed"},
	"metric":         {"Float64Entry.val", "Int64GaugeEntry.val", "Float64CumulativeEntry.val", "Int64CumulativeEntry.val"},
	"plugin/ochttp":  {"tracker.respSize"},
	"plugin/ocgrpc":  {"rpcData.sentBytes", "rpcData.sentCount", "rpcData.recvBytes", "rpcData.recvCount"},
	"trace":          {"defaultIDGenerator.nextSpanID"},
	"stats/internal": nil,
}

// avar is a variable: a field of a struct or a package-level variable.
type avar struct {
	f *types.Var
	g *ssa.Global
}

func (v avar) String() string {
	if v.g != nil {
		return shortPkg(v.g.Pkg.Pkg.Path()) + "." + v.g.Name()
	}
	o := "struct"
	if n := ownerNamed(v.f); n != "" {
		o = n
	}
	return shortPkg(v.f.Pkg().Path()) + "." + o + "." + v.f.Name()
}

var ownerTab map[*types.Var]string

func ownerNamed(f *types.Var) string { return ownerTab[f] }

type ause struct {
	fn   *ssa.Function
	in   ssa.Instruction
	kind string // atomic, read, write, escape
	base ssa.Value
}

func addrVar(v ssa.Value) (avar, ssa.Value) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		return avar{f: st.Field(x.Field)}, x.X
	case *ssa.Global:
		return avar{g: x}, nil
	case *ssa.IndexAddr:
		return addrVar(x.X)
	}
	return avar{}, nil
}

func isAtomicFn(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" && f.Signature.Recv() == nil
}

// usesOf classifies the uses of an address.
func usesOf(a ssa.Value, fn *ssa.Function, base ssa.Value, in map[*ssa.Function]bool, seen map[ssa.Value]bool, out *[]ause) {
	if seen[a] || a.Referrers() == nil {
		return
	}
	seen[a] = true
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			*out = append(*out, ause{fn, x, "read", base})
		case *ssa.Store:
			if x.Addr == a {
				*out = append(*out, ause{fn, x, "write", base})
			} else {
				*out = append(*out, ause{fn, x, "escape", base})
			}
		case *ssa.Phi:
			usesOf(x, fn, base, in, seen, out)
		case *ssa.ChangeType:
			usesOf(x, fn, base, in, seen, out)
		case *ssa.DebugRef:
		case *ssa.BinOp:
			// compared with another pointer
		case ssa.CallInstruction:
			cc := x.Common()
			g := cc.StaticCallee()
			if isAtomicFn(g) {
				*out = append(*out, ause{fn, r, "atomic", base})
				continue
			}
			if g != nil && in[g] && len(cc.Args) == len(g.Params) {
				for i, arg := range cc.Args {
					if arg == a {
						usesOf(g.Params[i], g, base, in, seen, out)
					}
				}
				continue
			}
			*out = append(*out, ause{fn, r, "escape", base})
		case *ssa.IndexAddr, *ssa.FieldAddr:
			usesOf(r.(ssa.Value), fn, base, in, seen, out)
		default:
			*out = append(*out, ause{fn, r, "escape", base})
		}
	}
}

// unshared: the object was allocated in the function and no other reference to
// it exists yet when the instruction runs.
func unshared(base ssa.Value, at ssa.Instruction) bool {
	for {
		if fa, ok := base.(*ssa.FieldAddr); ok {
			base = fa.X
			continue
		}
		break
	}
	al, ok := base.(*ssa.Alloc)
	if !ok || al.Parent() != at.Parent() {
		return false
	}
	for _, r := range *al.Referrers() {
		esc := false
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			esc = x.Val == al
		default:
			esc = true
		}
		if esc && r != at && reaches(r, at) {
			return false
		}
	}
	return true
}

// reaches: b may run after a in the same activation.
func reaches(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b.Block() {
			return true
		}
		if !seen[x] {
			seen[x] = true
			st = append(st, x.Succs...)
		}
	}
	return false
}

func ruleC38(c *Ctx) {
	l := newLocks(c)
	ownerTab = map[*types.Var]string{}
	var named []*types.Named
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg == nil || !libPkg(p.Pkg.Path()) {
			continue
		}
		for _, m := range p.Members {
			if tm, ok := m.(*ssa.Type); ok {
				if n, ok := tm.Type().(*types.Named); ok {
					named = append(named, n)
					if st, ok := n.Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if _, ok := ownerTab[st.Field(i)]; !ok {
								ownerTab[st.Field(i)] = n.Obj().Name()
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(named, func(i, j int) bool { return named[i].String() < named[j].String() })
	uses := map[avar][]ause{}
	c.instrs(l.fns, func(f *ssa.Function, in ssa.Instruction) {
		v, ok := in.(ssa.Value)
		if fv, isF := in.(*ssa.Field); isF {
			// a field of a struct value: the copy of the struct was the access
			_ = fv
		}
		if !ok {
			return
		}
		if fa, isFA := v.(*ssa.FieldAddr); isFA {
			av, base := addrVar(fa)
			var us []ause
			usesOf(fa, f, base, l.in, map[ssa.Value]bool{}, &us)
			uses[av] = append(uses[av], us...)
		}
	})
	// package-level variables
	c.instrs(l.fns, func(f *ssa.Function, in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			g, ok := (*op).(*ssa.Global)
			if !ok {
				continue
			}
			if _, isInt := deref(g.Type()).Underlying().(*types.Basic); !isInt {
				continue
			}
			k := "read"
			switch x := in.(type) {
			case *ssa.Store:
				k = "write"
				if x.Val == g {
					k = "escape"
				}
			case *ssa.UnOp:
			case ssa.CallInstruction:
				k = "escape"
				cc := x.Common()
				if h := cc.StaticCallee(); isAtomicFn(h) {
					k = "atomic"
				} else if h != nil && l.in[h] && len(cc.Args) == len(h.Params) {
					var us []ause
					for i, a := range cc.Args {
						if a == ssa.Value(g) {
							usesOf(h.Params[i], h, nil, l.in, map[ssa.Value]bool{}, &us)
						}
					}
					uses[avar{g: g}] = append(uses[avar{g: g}], us...)
					continue
				}
			default:
				k = "escape"
			}
			if f.Name() == "init" && f.Synthetic != "" {
				continue // initialisation
			}
			uses[avar{g: g}] = append(uses[avar{g: g}], ause{f, in, k, nil})
		}
	})
	must := map[string]bool{}
	for p, fs := range atomicVars {
		for _, f := range fs {
			must[p+"."+f] = true
		}
	}
	onces := l.onceOnly()
	var vars []avar
	for v, us := range uses {
		at := false
		for _, u := range us {
			at = at || u.kind == "atomic"
		}
		if !at && must[v.String()] && v.f != nil {
			if b, ok := v.f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				at = !l.guarded(us)
			}
		}
		if at {
			vars = append(vars, v)
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].String() < vars[j].String() })
	isAtomic := map[avar]bool{}
	for _, v := range vars {
		isAtomic[v] = true
		for _, u := range uses[v] {
			ok := u.kind == "atomic" || u.base != nil && unshared(u.base, u.in) || onces[u.fn]
			what := map[string]string{"read": "is read without", "write": "is written without", "escape": "is handed on by address to code that need not use"}[u.kind]
			c.need(ok, "plain", v.String()+":"+fnName(u.fn)+":"+u.kind, c.W.instrPos(u.in), "%s, shared through atomic operations, %s an atomic operation in %s", v, what, fnName(u.fn))
		}
	}
	// copies of a whole struct that holds such a variable
	c.instrs(l.fns, func(f *ssa.Function, in ssa.Instruction) {
		var t types.Type
		var a ssa.Value
		k := "read"
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				t, a = x.Type(), x.X
			}
		case *ssa.Store:
			t, a = x.Val.Type(), x.Addr
			k = "overwritten"
		}
		if t == nil || a == nil {
			return
		}
		v, ok := holds(t, isAtomic, 0)
		if !ok {
			return
		}
		c.need(unshared(a, in), "copy", v.String()+":"+fnName(f)+":"+k, c.W.instrPos(in), "a %s that holds %s, shared through atomic operations, is %s as a whole in %s", t, v, k, fnName(f))
	})
	// layout
	n := 0
	for _, v := range vars {
		t := deref(v.typ())
		if w := types.SizesFor("gc", "amd64").Sizeof(t); w != 8 {
			continue
		}
		if v.f == nil {
			n++
			continue // package-level 64-bit variables are aligned
		}
		for _, arch := range []string{"386", "arm", "mips"} {
			sz := types.SizesFor("gc", arch)
			for _, o := range l.layouts(named, v.f, sz) {
				n++
				c.need(o.off%8 == 0, "align", v.String()+":"+o.in+":"+arch, c.W.position(v.f.Pos()), "%s, accessed by 64-bit atomic operations, lies at offset %d of %s on %s", v, o.off, o.in, arch)
			}
		}
	}
	c.floor("plain", "atomic variables", len(vars), 4)
	c.floor("align", "layouts", n, 4)
}

func (v avar) typ() types.Type {
	if v.g != nil {
		return v.g.Type()
	}
	return v.f.Type()
}

// holds: a value of the type contains an atomic variable.
func holds(t types.Type, is map[avar]bool, depth int) (avar, bool) {
	if depth > 6 {
		return avar{}, false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if v := (avar{f: u.Field(i)}); is[v] {
				return v, true
			}
			if v, ok := holds(u.Field(i).Type(), is, depth+1); ok {
				return v, true
			}
		}
	case *types.Array:
		return holds(u.Elem(), is, depth+1)
	}
	return avar{}, false
}

type layout struct {
	off int64
	in  string
}

// layouts lists the offsets of a field in every type of the library that
// contains it by value, including elements of arrays and slices.
func (l *locks) layouts(named []*types.Named, f *types.Var, sz types.Sizes) []layout {
	var out []layout
	var rec func(t types.Type, off int64, in string, depth int)
	seen := map[string]bool{}
	add := func(off int64, in string) {
		k := fmt.Sprint(in, off)
		if !seen[k] {
			seen[k] = true
			out = append(out, layout{off, in})
		}
	}
	rec = func(t types.Type, off int64, in string, depth int) {
		if depth > 6 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs := sz.Offsetsof(fs)
			for i, x := range fs {
				if x == f {
					add(off+offs[i], in)
					continue
				}
				rec(x.Type(), off+offs[i], in, depth+1)
			}
		case *types.Array:
			for i := int64(0); i < u.Len() && i < 2; i++ {
				rec(u.Elem(), off+i*sz.Sizeof(u.Elem()), in, depth+1)
			}
		}
	}
	for _, n := range named {
		if n.TypeParams().Len() > 0 {
			continue
		}
		rec(n, 0, shortPkg(n.Obj().Pkg().Path())+"."+n.Obj().Name(), 0)
	}
	// package-level variables and allocations of unnamed types, and slices
	l.c.instrs(l.fns, func(fn *ssa.Function, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Alloc:
			rec(deref(x.Type()), 0, "a "+typeName(deref(x.Type())), 0)
		case *ssa.MakeSlice:
			el := x.Type().Underlying().(*types.Slice).Elem()
			for i := int64(0); i < 2; i++ {
				rec(el, i*sz.Sizeof(el), "a slice of "+typeName(el), 0)
			}
		}
	})
	return out
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

// onceOnly lists the functions that run only under a once.
func (l *locks) onceOnly() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	other := map[*ssa.Function]bool{}
	type call struct{ from, to *ssa.Function }
	var calls []call
	l.c.instrs(l.fns, func(f *ssa.Function, in ssa.Instruction) {
		env := &lenv{fn: f, params: map[ssa.Value]lpath{}, id: fnName(f)}
		ci, ok := in.(ssa.CallInstruction)
		if ok {
			if op, _ := lockOp(ci.Common()); op == "once" {
				if p := l.path(ci.Common().Args[1], env); p.fn != nil {
					out[p.fn] = true
				}
				return
			}
			if g := ci.Common().StaticCallee(); g != nil {
				calls = append(calls, call{f, g})
			}
		}
		for _, op := range in.Operands(nil) {
			if g, isF := (*op).(*ssa.Function); isF && !(ok && ci.Common().Value == *op) {
				if mc, isMC := in.(*ssa.MakeClosure); isMC {
					only := true
					for _, r := range *mc.Referrers() {
						if ci, ok := r.(ssa.CallInstruction); ok {
							if o, _ := lockOp(ci.Common()); o == "once" {
								continue
							}
						}
						only = false
					}
					if only {
						continue
					}
				}
				other[g] = true
			}
		}
	})
	for i := 0; i < 3; i++ {
		from := map[*ssa.Function]int{}
		all := map[*ssa.Function]int{}
		for _, k := range calls {
			all[k.to]++
			if out[k.from] {
				from[k.to]++
			}
		}
		for g, n := range from {
			if n == all[g] && !other[g] && !token.IsExported(g.Name()) {
				out[g] = true
			}
		}
	}
	for g := range out {
		if other[g] {
			delete(out, g)
		}
	}
	return out
}

// guarded: every use happens with some lock held, or on an unshared object.
func (l *locks) guarded(us []ause) bool {
	for _, u := range us {
		if u.base != nil && unshared(u.base, u.in) {
			continue
		}
		held := true
		env := &lenv{fn: u.fn, params: map[ssa.Value]lpath{}, id: fnName(u.fn)}
		l.watch = func(in ssa.Instruction, st *lstate) {
			if in == u.in && len(st.held) == 0 {
				held = false
			}
		}
		l.quiet = true
		l.explore(u.fn, env, &lstate{dec: map[string]bool{}})
		l.watch = nil
		if !held {
			return false
		}
	}
	return len(us) > 0
}
