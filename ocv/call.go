package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// functions whose result depends only on their arguments and which have no
// effect the analysis cares about
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "encoding/hex": true, "path": true, "net/textproto": true, "math/bits": true, "reflect": true, "html": true, "net/url": true, "bytes": true}

var pureFns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "net/http.StatusText": true, "net/http.CanonicalHeaderKey": true,
	"(time.Time).Sub": true, "(time.Time).Before": true, "(time.Time).After": true, "(time.Time).IsZero": true, "(time.Time).Add": true, "(time.Time).Unix": true,
	"(net/http.Header).Get": true, "(net/http.Header).Values": true, "(time.Time).Equal": true, "(time.Time).Round": true,
	"(encoding/binary.littleEndian).Uint64": true, "(encoding/binary.bigEndian).Uint64": true,
	"(encoding/binary.littleEndian).Uint32": true, "(encoding/binary.bigEndian).Uint32": true,
	"encoding/binary.Uvarint": true, "(*regexp.Regexp).FindStringSubmatch": true, "(*regexp.Regexp).MatchString": true,
	"(time.Duration).Seconds": true, "(time.Duration).Nanoseconds": true, "(*net/http.Request).Context": true, "(*net/http.Request).UserAgent": true, "(*net/http.Request).Referer": true, "(*net/http.Request).ProtoAtLeast": true, "(*net/url.URL).String": true,
	"(google.golang.org/grpc/metadata.MD).Get": true, "google.golang.org/grpc/status.FromError": true, "google.golang.org/grpc/codes.Code.String": true,
	"(*google.golang.org/grpc/internal/status.Status).Code": true, "(*google.golang.org/grpc/internal/status.Status).Message": true,
	"invoke (context.Context).Value":                      true,
	"google.golang.org/grpc/metadata.FromIncomingContext": true, "google.golang.org/grpc/metadata.FromOutgoingContext": true,
}

var noHavocPkgs = map[string]bool{"fmt": true, "context": true, "sync": true, "log": true, "errors": true, "time": true, "testing": true, "runtime/trace": true, "runtime/pprof": true, "google.golang.org/grpc/metadata": true, "google.golang.org/grpc/status": true, "text/tabwriter": true}

func (r *Run) onStack(fr *Frame, f *ssa.Function) bool {
	n := 0
	for x := fr; x != nil; x = x.caller {
		if x.fn == f {
			n++
		}
	}
	if f.Synthetic != "" {
		return n > 3 // wrappers of wrapped objects of the same type
	}
	return n > 0
}

func (r *Run) evalCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, recv, fv *Term, args []*Term) *Term {
	var T types.Type = c.Signature().Results()
	if c.Signature().Results().Len() == 1 {
		T = c.Signature().Results().At(0).Type()
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		if v, ok := in.(ssa.Value); ok {
			T = v.Type()
		}
		return r.builtin(fr, st, in, bi, args, T)
	}
	if c.IsInvoke() {
		return r.invoke(fr, st, in, c, recv, args, T)
	}
	return r.callTerm(fr, st, in, fv, args, T)
}

func (r *Run) fork(fr *Frame, st *State, in ssa.Instruction, c BDD, f func(st *State) *Term, g func(st *State) *Term) *Term {
	a, b := st.clone(), st.clone()
	a.pc = r.B.And(st.pc, c)
	b.pc = r.B.And(st.pc, r.B.Not(c))
	var x, y *Term
	if a.pc != False {
		r.cur = a
		x = f(a)
	}
	if b.pc != False {
		r.cur = b
		y = g(b)
	}
	if x == nil {
		a.pc = False
	}
	if y == nil {
		b.pc = False
	}
	if a.pc == False && b.pc == False {
		st.pc = False
		return nil
	}
	cc := c
	*st = *r.merge([]*State{a, b}, r.tok(fr, in)+"f")
	r.cur = st
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	return r.itet(cc, x, y)
}

// itet merges possibly-tuple values.
func (r *Run) itet(c BDD, x, y *Term) *Term {
	if x.Op == "tuple" && y.Op == "tuple" && len(x.Args) == len(y.Args) {
		args := make([]*Term, len(x.Args))
		for i := range args {
			args[i] = r.ite(c, x.Args[i], y.Args[i])
		}
		return r.mk("tuple", "", x.T, nil, args...)
	}
	return r.ite(c, x, y)
}

func (r *Run) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, recv *Term, args []*Term, T types.Type) *Term {
	if recv.Op == "ite" && unknownRecv(recv) && (r.opts.Resolve == nil || len(r.opts.Resolve(recv, c.Method)) == 0) {
		ef := &Effect{Kind: "call", Name: "invoke " + methodName(c.Method), Args: append([]*Term{recv}, args...), Instr: in}
		return r.opaqueCall(fr, st, in, ef, T, false)
	}
	switch recv.Op {
	case "ite":
		return r.fork(fr, st, in, recv.Obj.(BDD),
			func(s *State) *Term { return r.invoke(fr, s, in, c, recv.Args[0], args, T) },
			func(s *State) *Term { return r.invoke(fr, s, in, c, recv.Args[1], args, T) })
	case "nil":
		r.emit(fr, st, &Effect{Kind: "panic", Name: "nil interface call", Val: recv, Instr: in})
		st.pc = False
		return nil
	case "iface":
		ct := recv.Obj.(types.Type)
		if f := r.W.Prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); f != nil {
			return r.callFn(fr, st, in, f, nil, append([]*Term{recv.Args[0]}, args...), T)
		}
	}
	if r.opts.Resolve != nil {
		if fs := r.opts.Resolve(recv, c.Method); len(fs) > 0 {
			var do func(s *State, i int) *Term
			do = func(s *State, i int) *Term {
				f := fs[i]
				rt := f.Signature.Recv().Type()
				val, ok := r.assertTo(recv, rt)
				if i == len(fs)-1 {
					return r.callFn(fr, s, in, f, nil, append([]*Term{val}, args...), T)
				}
				return r.fork(fr, s, in, ok,
					func(s *State) *Term { return r.callFn(fr, s, in, f, nil, append([]*Term{val}, args...), T) },
					func(s *State) *Term { return do(s, i+1) })
			}
			return do(st, 0)
		}
	}
	ef := &Effect{Kind: "call", Name: "invoke " + methodName(c.Method), Args: append([]*Term{recv}, args...), Instr: in}
	return r.opaqueCall(fr, st, in, ef, T, pureFns[ef.Name])
}

// unknownRecv: none of the alternatives has a known type.
func unknownRecv(t *Term) bool {
	if t.Op == "ite" {
		return unknownRecv(t.Args[0]) && unknownRecv(t.Args[1])
	}
	return t.Op != "iface" && t.Op != "nil"
}

func (r *Run) callTerm(fr *Frame, st *State, in ssa.Instruction, fv *Term, args []*Term, T types.Type) *Term {
	switch fv.Op {
	case "fn":
		return r.callFn(fr, st, in, fv.Obj.(*ssa.Function), nil, args, T)
	case "closure":
		return r.callFn(fr, st, in, fv.Obj.(*ssa.Function), fv.Args, args, T)
	case "ite":
		return r.fork(fr, st, in, fv.Obj.(BDD),
			func(s *State) *Term { return r.callTerm(fr, s, in, fv.Args[0], args, T) },
			func(s *State) *Term { return r.callTerm(fr, s, in, fv.Args[1], args, T) })
	}
	ef := &Effect{Kind: "call", Name: "dyn", Val: fv, Args: args, Instr: in}
	return r.opaqueCall(fr, st, in, ef, T, false)
}

// callFn calls a known function: models for synchronisation primitives,
// virtual inlining for module functions, opaque otherwise.
func (r *Run) callFn(fr *Frame, st *State, in ssa.Instruction, f *ssa.Function, free, args []*Term, T types.Type) *Term {
	name := fnName(f)
	if name == "(time.Time).After" && len(args) == 2 {
		if m := r.W.Prog.LookupMethod(args[0].T, nil, "Before"); m != nil {
			return r.callFn(fr, st, in, m, nil, []*Term{args[1], args[0]}, T)
		}
	}
	unit := func() *Term { return r.mk("unit", "", T, nil) }
	// bound method wrappers / thunks are followed through their bodies
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		m := 2
		if strings.HasSuffix(name, "RLock") {
			m = 1
		}
		r.emit(fr, st, &Effect{Kind: "lock", Addr: args[0], Key: r.mkInt(int64(m), nil), Instr: in, Name: name})
		st.locks[args[0]] = m
		delete(st.maybe, args[0])
		return unit()
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		r.emit(fr, st, &Effect{Kind: "unlock", Addr: args[0], Instr: in, Name: name})
		delete(st.locks, args[0])
		delete(st.maybe, args[0])
		return unit()
	case "(*sync.Once).Do":
		r.emit(fr, st, &Effect{Kind: "once", Addr: args[0], Val: args[1], Instr: in, Name: name})
		r.once = append(r.once, args[0])
		r.callTerm(fr, st, in, args[1], nil, types.NewTuple())
		r.once = r.once[:len(r.once)-1]
		if st.pc == False {
			return nil
		}
		return unit()
	case "(time.Duration).Milliseconds":
		return r.arith(st, token.QUO, args[0], r.mkInt(1e6, T), T, 0)
	case "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
		ef := &Effect{Kind: "call", Name: name, Args: args, Callee: f, Instr: in}
		r.emit(fr, st, ef)
		if cf, hf := r.structField(T, "ctx"), r.structField(T, "Header"); cf != nil && hf != nil {
			n := r.mk("alloc", r.tok(fr, in)+"#req", T, nil)
			r.store(fr, st, n, r.loadT(st, args[0], deref(T)), r.tok(fr, in))
			r.store(fr, st, r.fa(n, cf), args[1], r.tok(fr, in))
			if strings.HasSuffix(name, "Clone") {
				h := r.mk("make", r.tok(fr, in)+"#hdr", hf.Type(), nil)
				r.store(fr, st, r.fa(n, hf), h, r.tok(fr, in))
			}
			ef.Result = n
			return n
		}
	case "(*net/http.Request).Context":
		if cf := r.structField(args[0].T, "ctx"); cf != nil && args[0].Op != "param" {
			if isFresh(rootOf(args[0])) {
				return r.loadT(st, r.fa(args[0], cf), T)
			}
			if args[0].Op == "ite" {
				return r.fork(fr, st, in, args[0].Obj.(BDD),
					func(s *State) *Term { return r.callFn(fr, s, in, f, free, []*Term{args[0].Args[0]}, T) },
					func(s *State) *Term { return r.callFn(fr, s, in, f, free, []*Term{args[0].Args[1]}, T) })
			}
		}
	case "(*sync/atomic.Value).Load":
		ef := &Effect{Kind: "call", Name: name, Args: args, Callee: f, Instr: in}
		r.emit(fr, st, ef)
		ef.Result = r.loadT(st, r.mk("field", "atomicval", types.NewPointer(T), atomicValVar, args[0]), T)
		return ef.Result
	case "(*sync/atomic.Value).Store":
		r.emit(fr, st, &Effect{Kind: "call", Name: name, Args: args, Callee: f, Instr: in})
		r.store(fr, st, r.mk("field", "atomicval", types.NewPointer(args[1].T), atomicValVar, args[0]), args[1], r.tok(fr, in))
		return unit()
	case "encoding/hex.Decode":
		// decodes into the destination, which must be long enough
		src := args[1]
		if src.Op == "conv" && len(src.Args) == 1 && src.Args[0] != nil && src.Args[0].T != nil && isString(src.Args[0].T) {
			src = src.Args[0]
		} else {
			src = r.mk("conv", "", types.Typ[types.String], nil, src)
		}
		rt := types.NewTuple(types.NewVar(0, nil, "", types.NewSlice(types.Typ[types.Uint8])), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type()))
		ef := &Effect{Kind: "call", Name: "encoding/hex.DecodeString", Callee: f, Args: []*Term{src}, Instr: in}
		d := r.opaqueCall(fr, st, in, ef, rt, true)
		dec, er := r.extTerm(d, 0), r.extTerm(d, 1)
		r.emit(fr, st, &Effect{Kind: "slice", Addr: args[0], Args: []*Term{nil, r.length(dec), nil}, Instr: in})
		dst := r.mkSlice(args[0].T, args[0], nil, r.length(dec), nil)
		r.emit(fr, st, &Effect{Kind: "copy", Addr: dst, Val: dec, Instr: in})
		r.copyInto(st, args[0], dec, r.tok(fr, in))
		return r.mk("tuple", "", T, nil, r.length(dec), er)
	case "sync/atomic.LoadInt64", "sync/atomic.LoadUint64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint32":
		ef := &Effect{Kind: "call", Name: name, Args: args, Callee: f, Instr: in}
		r.emit(fr, st, ef)
		ef.Result = r.loadT(st, args[0], T)
		return ef.Result
	}
	if len(f.Blocks) > 0 && (r.W.inModule(f) || extInline(f)) && !r.onStack(fr, f) && fr.depth < r.opts.MaxDepth && (extInline(f) || r.opts.Inline(f)) {
		nf := &Frame{key: r.tok(fr, in) + fmt.Sprintf(":%d", f.Pos()%1000), fn: f, caller: fr, site: in, params: args, free: free, depth: fr.depth + 1, deferd: r.deferDep > 0}
		nf.outer = append(append([]*LoopCtx(nil), fr.outer...), fr.curLoop...)
		cl := fr.curLoop
		rets, out := r.evalFn(nf, st)
		r.cur = st
		fr.curLoop = cl
		if out == nil {
			st.pc = False
			return nil
		}
		*st = *out
		switch len(rets) {
		case 0:
			return unit()
		case 1:
			return rets[0]
		}
		return r.mk("tuple", "", T, nil, rets...)
	}
	if r.W.inModule(f) && len(f.Blocks) > 0 && (extInline(f) || r.opts.Inline(f)) {
		r.Truncated = append(r.Truncated, "not inlined: "+name+" called from "+fnName(fr.fn))
	}
	ef := &Effect{Kind: "call", Name: name, Callee: f, Args: args, Instr: in}
	pure := pureFns[name] || f.Pkg != nil && f.Signature.Recv() == nil && purePkgs[f.Pkg.Pkg.Path()]
	return r.opaqueCall(fr, st, in, ef, T, pure)
}

var atomicValVar = types.NewField(0, nil, "value", types.Typ[types.Int], false)

func (r *Run) opaqueCall(fr *Frame, st *State, in ssa.Instruction, ef *Effect, T types.Type, pure bool) *Term {
	r.emit(fr, st, ef)
	aux := ef.Name
	tok := r.tok(fr, in)
	if !pure {
		aux += "#" + tok
		pkg := ""
		if ef.Callee != nil {
			pkg = fnPkgPath(ef.Callee)
			if pkg == "" && ef.Callee.Pkg != nil {
				pkg = ef.Callee.Pkg.Pkg.Path()
			}
		}
		if ef.Callee != nil && r.W.inModule(ef.Callee) && !r.opts.Inline(ef.Callee) {
			// policy: treated as not modifying its arguments
		} else if !noHavocPkgs[pkg] && ef.Name != "dyn" && !strings.HasPrefix(ef.Name, "invoke ") {
			for _, a := range ef.Args {
				r.havocArg(st, a, tok)
			}
		} else if strings.HasPrefix(ef.Name, "invoke ") || ef.Name == "dyn" {
			for _, a := range ef.Args {
				if a != nil && (a.Op == "alloc" || a.Op == "field" && isFresh(rootOf(a))) && !strings.Contains(ef.Name, "RoundTrip") && !strings.Contains(ef.Name, "ExportSpan") {
					if _, isS := deref(a.T).Underlying().(*types.Struct); !isS || ef.Name == "dyn" {
						r.havocArg(st, a, tok)
					}
				}
			}
		}
	}
	if ef.Name != "(*sync.Once).Do" {
		for _, a := range ef.Args {
			r.havocCaptured(st, a, tok)
		}
	}
	if r.opts.Escape && !pure && (ef.Callee == nil || strings.HasSuffix(ef.Name, ").ServeHTTP") && !r.W.inModule(ef.Callee)) {
		r.havocReach(st, ef.Args, tok)
		ef.after = st.clone()
	}
	ci := &callInfo{name: ef.Name, site: in}
	margs := ef.Args
	if ef.Name == "dyn" {
		margs = append([]*Term{ef.Val}, margs...)
	}
	if pure {
		// content of byte arguments matters, not just identity
		for i, a := range margs {
			if a != nil && (a.Op == "slice" || a.Op == "alloc") && isFresh(rootOf(a)) {
				cp := append([]*Term(nil), margs...)
				cp[i] = r.snapshot(st, a)
				margs = cp
			}
		}
	}
	t := r.mk("call", aux, T, ci, margs...)
	if ef.Callee != nil && isNoReturn(ef.Name) {
		st.pc = False
		return nil
	}
	if isBool(T) {
		t = r.mkBool(r.atom(t))
	}
	ef.Result = t
	return t
}

func (e *Eng) structField(t types.Type, name string) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

// havocReach forgets the variables that an unknown function can reach through
// its arguments and that the library changes after their construction.
func (r *Run) havocReach(st *State, args []*Term, tok string) {
	seen := map[*Term]bool{}
	var cells []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "alloc" {
			cells = append(cells, t)
			for k, v := range st.mem {
				if rootOf(k) == t {
					walk(v)
				}
			}
		}
		for _, x := range t.Args {
			walk(x)
		}
	}
	for _, a := range args {
		walk(a)
	}
	mut := r.mutable()
	for _, c := range cells {
		s, ok := deref(c.T).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); mut[f] {
				r.havoc(st, r.fa(c, f), tok)
			}
		}
	}
}

// mutable are the fields that some function of the module changes, or lets
// others change, in an object it did not just create.
func (e *Eng) mutable() map[*types.Var]bool {
	if e.mutF != nil {
		return e.mutF
	}
	e.mutF = map[*types.Var]bool{}
	for _, f := range e.W.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sto, ok := in.(*ssa.Store); ok {
					// a whole object overwritten
					if s, ok := sto.Val.Type().Underlying().(*types.Struct); ok {
						if _, own := sto.Addr.(*ssa.Alloc); !own {
							for i := 0; i < s.NumFields(); i++ {
								e.mutF[s.Field(i)] = true
							}
						}
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Referrers() == nil {
					continue
				}
				if _, own := fa.X.(*ssa.Alloc); own {
					continue
				}
				v := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
				if v.Pkg() == nil || !isModPkg(v.Pkg().Path()) {
					continue
				}
				for _, u := range *fa.Referrers() {
					if ld, isld := u.(*ssa.UnOp); !isld || ld.X != fa {
						if _, sub := u.(*ssa.FieldAddr); !sub {
							e.mutF[v] = true
						}
					}
				}
			}
		}
	}
	return e.mutF
}

// snapshot replaces a slice over a local array by its current contents.
func (r *Run) snapshot(st *State, a *Term) *Term {
	b := a
	if b.Op == "slice" {
		b = b.Args[0]
	}
	if b.Op != "alloc" {
		return a
	}
	at, ok := deref(b.T).Underlying().(*types.Array)
	if !ok || at.Len() > 16 {
		return a
	}
	var els []*Term
	for i := int64(0); i < at.Len(); i++ {
		els = append(els, r.loadT(st, r.indexAddr(b, r.mkInt(i, nil), at.Elem()), at.Elem()))
	}
	return r.mk("lst", "", a.T, nil, els...)
}

func isNoReturn(n string) bool {
	return n == "os.Exit" || n == "log.Fatal" || n == "log.Fatalf" || n == "runtime.Goexit" || n == "log.Panicf" || n == "log.Panic"
}

// havocCaptured forgets what a function value handed to an unknown function
// may write of the variables it captured.
func (r *Run) havocCaptured(st *State, cl *Term, tok string) {
	if cl != nil && cl.Op == "iface" {
		cl = cl.Args[0]
	}
	if cl == nil || cl.Op != "closure" {
		return
	}
	f := calleeOf(cl)
	for i, fv := range f.FreeVars {
		if i >= len(cl.Args) || fv.Referrers() == nil {
			continue
		}
		for _, u := range *fv.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				// a pointer kept in the variable: is something stored through it?
				if u.Referrers() == nil {
					continue
				}
				for _, w := range *u.Referrers() {
					x, ok := w.(ssa.Value)
					if !ok {
						continue
					}
					switch w.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if storedThrough(x) {
							if v := st.mem[cl.Args[i]]; v != nil && isFresh(rootOf(v)) {
								r.havoc(st, r.addrLike(v, w), tok)
							}
						}
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				if storedThrough(u.(ssa.Value)) {
					r.havoc(st, cl.Args[i], tok)
				}
			case *ssa.Store:
				if u.Addr == fv {
					r.havoc(st, cl.Args[i], tok)
				}
			case *ssa.MakeClosure:
				for j, b := range u.Bindings {
					if b == fv && capturedWrite(u.Fn.(*ssa.Function), j) {
						r.havoc(st, cl.Args[i], tok)
					}
				}
			}
		}
	}
}

// addrLike is the field or element address of v that the instruction takes.
func (r *Run) addrLike(v *Term, in ssa.Instruction) *Term {
	if fa, ok := in.(*ssa.FieldAddr); ok {
		st := deref(fa.X.Type()).Underlying().(*types.Struct)
		return r.fa(v, st.Field(fa.Field))
	}
	return v
}

func storedThrough(x ssa.Value) bool {
	if x.Referrers() == nil {
		return false
	}
	for _, u := range *x.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == x {
				return true
			}
		case *ssa.FieldAddr:
			if storedThrough(u) {
				return true
			}
		case *ssa.IndexAddr:
			if storedThrough(u) {
				return true
			}
		}
	}
	return false
}

func capturedWrite(f *ssa.Function, i int) bool {
	if i >= len(f.FreeVars) || f.FreeVars[i].Referrers() == nil {
		return false
	}
	for _, u := range *f.FreeVars[i].Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == f.FreeVars[i] {
				return true
			}
		case *ssa.FieldAddr:
			if storedThrough(u) {
				return true
			}
		case *ssa.MakeClosure:
			for j, b := range u.Bindings {
				if b == f.FreeVars[i] && capturedWrite(u.Fn.(*ssa.Function), j) {
					return true
				}
			}
		}
	}
	return false
}

func (r *Run) havocArg(st *State, a *Term, tok string) {
	if a == nil {
		return
	}
	switch a.Op {
	case "anyelem":
		for _, x := range a.Args[1:] {
			r.havocArg(st, x, tok)
		}
	case "alloc", "field", "index", "slice", "iface", "ite", "make", "global":
		if a.Op == "iface" {
			switch a.Args[0].Op {
			case "alloc", "field", "index", "slice":
			default:
				return
			}
		}
		r.havoc(st, a, tok)
	}
}

func (r *Run) builtin(fr *Frame, st *State, in ssa.Instruction, bi *ssa.Builtin, args []*Term, T types.Type) *Term {
	switch bi.Name() {
	case "len":
		x := args[0]
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Map); ok {
				if r.opts.Loads {
					r.emit(fr, st, &Effect{Kind: "lookup", Addr: x, Instr: in})
				}
				var l func(x *Term) *Term
				l = func(x *Term) *Term {
					switch x.Op {
					case "ite":
						return r.ite(x.Obj.(BDD), l(x.Args[0]), l(x.Args[1]))
					case "nil":
						return r.mkInt(0, T)
					}
					return r.mk("len", st.ver["m"+tstr(x.T)], T, nil, x)
				}
				return l(x)
			}
		}
		return r.length(x)
	case "cap":
		if args[0].Op == "make" && len(args[0].Args) == 2 {
			return args[0].Args[1]
		}
		return r.mk("cap", "", T, nil, args[0])
	case "append":
		base := args[0]
		r.emit(fr, st, &Effect{Kind: "append", Addr: base, Args: args, Instr: in})
		if len(args) == 1 {
			return base
		}
		els := r.elemsOf(st, args[1])
		var parts []*Term
		if base.Op == "append" {
			parts = append(parts, base.Args...)
		} else {
			parts = append(parts, base)
		}
		if els == nil {
			sp := args[1]
			parts = append(parts, r.mk("spread", "", sp.T, nil, sp))
		} else {
			parts = append(parts, els...)
			if len(els) == 0 {
				return base
			}
		}
		return r.mk("append", "", T, in, parts...)
	case "copy":
		r.emit(fr, st, &Effect{Kind: "copy", Addr: args[0], Val: args[1], Instr: in})
		tok := r.tok(fr, in)
		root := rootOf(args[0])
		if isFresh(root) || args[0].Op == "slice" || args[0].Op == "field" {
			r.copyInto(st, args[0], args[1], tok)
		} else if sl, ok := args[0].T.Underlying().(*types.Slice); ok {
			st.ver["e"+tstr(sl.Elem())] = tok
		}
		// the smaller of the two lengths
		dl, sl := r.length(args[0]), r.length(args[1])
		room := r.leqx(sl, dl)
		if lo, hi := sliceBounds(args[0]); args[0].Op == "slice" && lo != nil && hi == nil {
			room = r.leqx(r.fromLin(r.toLin(sl).add(r.toLin(lo), 1), types.Typ[types.Int]), r.length(args[0].Args[0]))
		}
		switch {
		case r.implies(st.pc, r.leq(dl, sl)):
			return dl
		case r.implies(st.pc, r.leq(sl, dl)), r.provable(r, st.pc, room):
			return sl
		}
		return r.mk("copied", tok, T, nil, args...)
	case "delete":
		r.emit(fr, st, &Effect{Kind: "delete", Addr: args[0], Key: args[1], Instr: in})
		vt := args[0].T
		if m, ok := args[0].T.Underlying().(*types.Map); ok {
			vt = m.Elem()
		}
		a := r.mapElem(args[0], args[1], vt)
		r.store(fr, st, a, r.mk("absent", "", vt, nil), r.tok(fr, in))
		return r.mk("unit", "", T, nil)
	case "close":
		r.emit(fr, st, &Effect{Kind: "close", Addr: args[0], Instr: in})
		return r.mk("unit", "", T, nil)
	case "panic":
		r.emit(fr, st, &Effect{Kind: "panic", Val: args[0], Instr: in})
		st.pc = False
		return nil
	case "recover":
		return r.mk("opaque", r.tok(fr, in), T, in)
	case "min", "max":
		acc := args[0]
		for _, a := range args[1:] {
			if isInt(T) {
				c := r.cmp(tokLEQ, acc, a, T, 0)
				if bi.Name() == "max" {
					c = r.B.Not(c)
				}
				acc = r.ite(c, acc, a)
			} else {
				acc = r.mk(bi.Name(), "", T, nil, acc, a)
			}
		}
		return acc
	case "ssa:wrapnilchk":
		return args[0]
	}
	r.emit(fr, st, &Effect{Kind: "call", Name: "builtin " + bi.Name(), Args: args, Instr: in})
	return r.wrapBool(r.mk("opaque", r.tok(fr, in), T, in))
}

// copyInto models copy(dst, src) for locally allocated arrays: the whole
// destination range takes "copy of src" values.
// copiedFrom is the slice a new slice was filled from.
type copiedFrom struct {
	src *Term
	ver string
}

func sliceElem(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return s.Elem(), true
}

func (r *Run) copyInto(st *State, dst, src *Term, tok string) {
	b := dst
	for b.Op == "slice" {
		b = b.Args[0]
	}
	if dst.Op == "slice" && dst.Args[1] == nil && dst.Args[2] == nil && b.T != nil {
		if at, ok := deref(b.T).Underlying().(*types.Array); ok {
			for k := range st.mem {
				if under(k, b) {
					delete(st.mem, k)
				}
			}
			st.mem[b] = r.mk("copyof", "", at, nil, r.srcVal(st, src))
			return
		}
	}
	first := int64(0) // elements before this one are not overwritten
	if dst.Op == "slice" && dst.Args[1] != nil && dst.Args[0] == b {
		if n, ok := dst.Args[1].intVal(); ok {
			first = n
		}
	}
	for k := range st.mem {
		if k != b && under(k, b) {
			ix := k
			for ix.Args[0] != b {
				ix = ix.Args[0]
			}
			if ix.Op == "index" {
				if n, ok := ix.Args[1].intVal(); ok && n < first {
					continue
				}
			}
			delete(st.mem, k)
		}
	}
	if isFresh(rootOf(b)) {
		if old, ok := st.mem[b]; ok {
			st.mem[b] = r.mk("patched", tok, old.T, nil, old, dst, src)
		} else if b == rootOf(b) {
			st.ver["r"+fmt.Sprint(b.ID)] = tok
			if et, ok := sliceElem(b.T); ok && b == dst && b.Op == "make" && !isFresh(rootOf(src)) && src.Op != "ite" && r.length(b) == r.length(src) {
				if r.copied == nil {
					r.copied = map[string]copiedFrom{}
				}
				r.copied[tok] = copiedFrom{src, st.ver[r.class(r.indexAddr(src, r.mkInt(0, nil), et))]}
			}
		} else {
			st.mem[b] = r.mk("patched", tok, deref(b.T), nil, dst, src)
		}
	} else {
		r.havoc(st, b, tok)
	}
}

func (r *Run) srcVal(st *State, src *Term) *Term {
	if src.Op == "slice" && src.Args[1] == nil && src.Args[2] == nil && src.Args[0].T != nil {
		if at, ok := deref(src.Args[0].T).Underlying().(*types.Array); ok {
			return r.loadT(st, src.Args[0], at)
		}
	}
	return src
}

// elemsOf returns the elements of a slice over a locally built array (the
// shape of variadic arguments and slice literals), or nil.
func (r *Run) elemsOf(st *State, x *Term) []*Term {
	if x.Op == "nil" {
		return []*Term{}
	}
	if x.Op != "slice" || x.Args[1] != nil || x.Args[2] != nil || x.Args[0].Op != "alloc" {
		return nil
	}
	at, ok := deref(x.Args[0].T).Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return nil
	}
	out := []*Term{}
	for i := int64(0); i < at.Len(); i++ {
		out = append(out, r.loadT(st, r.indexAddr(x.Args[0], r.mkInt(i, nil), at.Elem()), at.Elem()))
	}
	return out
}

// bounded: a value known not to make small sums overflow.
func (r *Run) bounded(st *State, t *Term) bool {
	switch t.Op {
	case "len", "cap", "const", "iter", "conv8", "copied":
		return true
	case "lin":
		l := t.Obj.(lin)
		for k, c := range l.co {
			if c > 1<<20 || c < -(1<<20) || !r.bounded(st, k) {
				return false
			}
		}
		return true
	}
	if isInt(t.T) && intBits(t.T) <= 16 {
		return true
	}
	return r.boundedByFacts(st, t)
}

// extInline: trivial accessors of the gRPC event types.
func extInline(f *ssa.Function) bool {
	return f.Name() == "IsClient" && fnPkgPath(f) == "google.golang.org/grpc/stats"
}
