package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value number: the abstract value of an SSA register
// or memory location, expressed over the parameters of the analysed root.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	T    types.Type
	Obj  any
}

// Eng owns the term and predicate tables.
type Eng struct {
	constLookup func(a, k *Term) (v *Term, ok, known bool)
	mutF        map[*types.Var]bool
	nrun        int // runs so far: the terms of a run are its own
	exitFacts   map[string]BDD
	W           *World
	B           *bddMgr
	terms       map[string]*Term
	byID        []*Term
	objs        map[any]int
	atoms       []*Term // bdd var -> atom term
	avar        map[*Term]int
	inits       map[*ssa.Package]*Run
	constLd     map[*Term]bool
	globC       map[*ssa.Global]bool

	useInv bool           // assume loop-carried integers non-negative
	noInv  map[*Term]bool // assumptions refuted
	noPair map[[2]*Term]bool
}

func newEng(w *World) *Eng {
	return &Eng{W: w, B: newBDD(), terms: map[string]*Term{}, objs: map[any]int{}, avar: map[*Term]int{}, noInv: map[*Term]bool{}, noPair: map[[2]*Term]bool{}}
}

func (e *Eng) oid(o any) string {
	i, ok := e.objs[o]
	if !ok {
		i = len(e.objs) + 1
		e.objs[o] = i
	}
	return strconv.Itoa(i)
}

func (e *Eng) mk(op, aux string, t types.Type, obj any, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		if a == nil {
			sb.WriteByte('-')
		} else {
			sb.WriteString(strconv.Itoa(a.ID))
		}
	}
	k := sb.String()
	if x, ok := e.terms[k]; ok {
		return x
	}
	x := &Term{ID: len(e.byID), Op: op, Aux: aux, Args: args, T: t, Obj: obj}
	e.byID = append(e.byID, x)
	e.terms[k] = x
	return x
}

func tstr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return strings.TrimPrefix(p.Path(), modPath+"/") })
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// ---- booleans ----

func (e *Eng) mkBool(b BDD) *Term {
	return e.mk("bool", strconv.Itoa(int(b)), types.Typ[types.Bool], b)
}

func (e *Eng) atom(t *Term) BDD {
	v, ok := e.avar[t]
	if !ok {
		v = len(e.atoms)
		e.atoms = append(e.atoms, t)
		e.avar[t] = v
	}
	return e.B.Var(v)
}

func (e *Eng) bdd(t *Term) BDD {
	if t == nil {
		return False
	}
	switch t.Op {
	case "bool":
		return t.Obj.(BDD)
	case "ite":
		return e.B.ite(t.Obj.(BDD), e.bdd(t.Args[0]), e.bdd(t.Args[1]))
	}
	return e.atom(t)
}

// ---- constants ----

func (e *Eng) mkInt(n int64, t types.Type) *Term {
	if t == nil {
		t = types.Typ[types.Int]
	}
	return e.mk("const", "i"+strconv.FormatInt(n, 10), t, constant.MakeInt64(n))
}

func (e *Eng) mkConst(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	return e.constVal(c.Value, t)
}

func (e *Eng) constVal(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return e.mkBool(True)
		}
		return e.mkBool(False)
	case constant.Int:
		if isFloat(t) {
			return e.mk("const", "f"+v.ExactString(), t, constant.ToFloat(v))
		}
		if n, ok := constant.Int64Val(v); ok {
			return e.mkInt(n, t)
		}
		return e.mk("const", "I"+v.ExactString(), t, v)
	case constant.String:
		return e.mk("const", "s"+constant.StringVal(v), t, v)
	}
	if isInt(t) {
		return e.constVal(constant.ToInt(v), t)
	}
	if constant.ToInt(v).Kind() == constant.Int {
		return e.mk("const", "f"+constant.ToInt(v).ExactString(), t, constant.ToFloat(v))
	}
	return e.mk("const", "f"+v.ExactString(), t, v)
}

func (e *Eng) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.mkBool(False)
		case u.Info()&types.IsInteger != 0:
			return e.mkInt(0, t)
		case u.Info()&types.IsFloat != 0:
			return e.mk("const", "f0", t, constant.MakeFloat64(0))
		case u.Info()&types.IsString != 0:
			return e.mk("const", "s", t, constant.MakeString(""))
		}
		return e.mk("nil", "", t, nil)
	case *types.Struct, *types.Array:
		return e.mk("zero", tstr(t), t, nil)
	}
	return e.mk("nil", "", t, nil)
}

func (t *Term) isConst() bool { return t.Op == "const" || t.Op == "nil" || t.Op == "zero" }

func (t *Term) intVal() (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	v, ok := t.Obj.(constant.Value)
	if !ok || v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

func (t *Term) strVal() (string, bool) {
	if t == nil || t.Op != "const" || len(t.Aux) == 0 || t.Aux[0] != 's' {
		return "", false
	}
	return t.Aux[1:], true
}

// ---- linear forms ----

type lin struct {
	co map[*Term]int64
	k  int64
}

func (e *Eng) toLin(t *Term) lin {
	if n, ok := t.intVal(); ok {
		return lin{map[*Term]int64{}, n}
	}
	if t.Op == "lin" {
		l := t.Obj.(lin)
		m := map[*Term]int64{}
		for k, v := range l.co {
			m[k] = v
		}
		return lin{m, l.k}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}

func (l lin) add(o lin, s int64) lin {
	m := map[*Term]int64{}
	for k, v := range l.co {
		m[k] += v
	}
	for k, v := range o.co {
		m[k] += s * v
	}
	for k, v := range m {
		if v == 0 {
			delete(m, k)
		}
	}
	return lin{m, l.k + s*o.k}
}

func (l lin) scale(s int64) lin {
	m := map[*Term]int64{}
	if s != 0 {
		for k, v := range l.co {
			m[k] = v * s
		}
	}
	return lin{m, l.k * s}
}

func (l lin) keys() []*Term {
	var ks []*Term
	for k := range l.co {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

func (e *Eng) fromLin(l lin, t types.Type) *Term {
	if len(l.co) == 0 {
		return e.mkInt(l.k, t)
	}
	ks := l.keys()
	if len(ks) == 1 && l.k == 0 && l.co[ks[0]] == 1 {
		return ks[0]
	}
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%d,", l.co[k])
	}
	fmt.Fprintf(&sb, ";%d", l.k)
	return e.mk("lin", sb.String(), t, l, ks...)
}

func (e *Eng) nonneg(t *Term) bool {
	switch t.Op {
	case "len", "cap":
		return true
	case "const":
		n, ok := t.intVal()
		return ok && n >= 0
	case "band":
		for _, a := range t.Args {
			if n, ok := a.intVal(); ok && n >= 0 {
				return true
			}
		}
	case "iter":
		return true
	}
	if t.Op == "lin" {
		l := t.Obj.(lin)
		if l.k < 0 {
			return false
		}
		for k, c := range l.co {
			if c < 0 || !e.nonneg(k) {
				return false
			}
		}
		return !isUnsigned(t.T) || true
	}
	return isUnsigned(t.T)
}

// leZero returns the predicate l <= 0.
func (e *Eng) leZero(l lin) BDD {
	if len(l.co) == 0 {
		if l.k <= 0 {
			return True
		}
		return False
	}
	ks := l.keys()
	if l.co[ks[0]] < 0 {
		// l<=0  <=> -l >= 0 <=> !( -l <= -1 ) <=> !(-l+1 <= 0)
		n := l.scale(-1)
		n.k++
		return e.B.Not(e.leZero(n))
	}
	if len(ks) == 1 {
		c := l.co[ks[0]]
		// c*x <= -k  <=> x <= floor(-k/c)
		b := floorDiv(-l.k, c)
		x := ks[0]
		if e.nonneg(x) && b < 0 {
			return False
		}
		if x.Op == "conv8" && b >= 255 {
			return True
		}
		return e.atom(e.mk("le", "", types.Typ[types.Bool], nil, x, e.mkInt(b, nil)))
	}
	kk := l.k
	l.k = 0
	return e.atom(e.mk("le", "", types.Typ[types.Bool], nil, e.fromLin(l, types.Typ[types.Int]), e.mkInt(-kk, nil)))
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (e *Eng) isNonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "iface", "closure", "fn", "make", "global", "field", "index", "newctx":
		return true
	case "append":
		return len(t.Args) > 1 && t.Args[1].Op != "spread"
	case "ld":
		return e.nonNilGlobal(t)
	case "call":
		// constructors of the standard library that never return nil
		n := t.callName()
		switch n {
		case "errors.New", "fmt.Errorf", "context.WithValue", "context.Background", "math/rand.New", "context.TODO", "net/http.NewServeMux":
			return true
		}
	}
	return false
}

func (t *Term) callName() string {
	if t.Op != "call" {
		return ""
	}
	if ci, ok := t.Obj.(*callInfo); ok {
		return ci.name
	}
	return ""
}

type callInfo struct {
	name string
	site ssa.Instruction
}

// eq returns the predicate a == b.
func (e *Eng) eq(a, b *Term) BDD { return e.eqd(a, b, 0) }

func (e *Eng) eqd(a, b *Term, d int) BDD {
	if a == b {
		if isFloat(a.T) && !a.isConst() {
			return e.atom(e.mk("eq", "", types.Typ[types.Bool], nil, a, b))
		}
		return True
	}
	if isBool(a.T) || isBool(b.T) || a.Op == "bool" || b.Op == "bool" {
		x, y := e.bdd(a), e.bdd(b)
		return e.B.ite(x, y, e.B.Not(y))
	}
	simple := func(t *Term) bool { return t.Op == "nil" || t.Op == "const" }
	if a.Op == "ite" && simple(b) || b.Op == "ite" && simple(a) {
		x, k := a, b
		if simple(a) {
			x, k = b, a
		}
		memo := map[*Term]BDD{}
		var rec func(t *Term) BDD
		rec = func(t *Term) BDD {
			if t.Op != "ite" {
				return e.eqd(t, k, d)
			}
			if r, ok := memo[t]; ok {
				return r
			}
			r := e.B.ite(t.Obj.(BDD), rec(t.Args[0]), rec(t.Args[1]))
			memo[t] = r
			return r
		}
		return rec(x)
	}
	if d < 8 {
		if a.Op == "ite" {
			return e.B.ite(a.Obj.(BDD), e.eqd(a.Args[0], b, d+1), e.eqd(a.Args[1], b, d+1))
		}
		if b.Op == "ite" {
			return e.B.ite(b.Obj.(BDD), e.eqd(a, b.Args[0], d+1), e.eqd(a, b.Args[1], d+1))
		}
	}
	if a.Op == "iface" && b.Op == "iface" {
		if types.Identical(a.Obj.(types.Type), b.Obj.(types.Type)) {
			return e.eqd(a.Args[0], b.Args[0], d+1)
		}
		return False
	}
	if a.Op == "nil" && e.isNonNil(b) || b.Op == "nil" && e.isNonNil(a) {
		return False
	}
	if a.Op == "nil" && b.Op == "nil" {
		return True
	}
	if a.Op == "const" && b.Op == "const" {
		va, ok1 := a.Obj.(constant.Value)
		vb, ok2 := b.Obj.(constant.Value)
		if ok1 && ok2 && (va.Kind() == vb.Kind() || (va.Kind() != constant.String && vb.Kind() != constant.String)) {
			if constant.Compare(va, token.EQL, vb) {
				return True
			}
			return False
		}
		return False
	}
	fresh := func(t *Term) bool { return t.Op == "alloc" || t.Op == "make" || t.Op == "global" || t.Op == "fn" }
	if fresh(a) && fresh(b) {
		return False
	}
	if isString(a.T) || isString(b.T) {
		if s, ok := b.strVal(); ok && s == "" {
			return e.leZero(lin{map[*Term]int64{e.length(a): 1}, 0})
		}
		if s, ok := a.strVal(); ok && s == "" {
			return e.leZero(lin{map[*Term]int64{e.length(b): 1}, 0})
		}
	}
	if a.Op == "struct" && b.Op == "zero" {
		return e.structEq(a, nil, d)
	}
	if b.Op == "struct" && a.Op == "zero" {
		return e.structEq(b, nil, d)
	}
	if a.Op == "struct" && b.Op == "struct" && a.Aux == b.Aux {
		return e.structEq(a, b, d)
	}
	if a.T != nil && b.T != nil {
		if st, ok := a.T.Underlying().(*types.Struct); ok && types.Identical(a.T, b.T) && st.NumFields() >= 1 && st.NumFields() <= 2 {
			r := True
			for i := 0; i < st.NumFields(); i++ {
				r = e.B.And(r, e.eqd(e.fieldOf(a, st, i), e.fieldOf(b, st, i), d+1))
			}
			return r
		}
	}
	if isInt(a.T) && isInt(b.T) {
		l := e.toLin(a).add(e.toLin(b), -1)
		if len(l.co) == 0 {
			if l.k == 0 {
				return True
			}
			return False
		}
		ks := l.keys()
		if l.co[ks[0]] < 0 {
			l = l.scale(-1)
		}
		if len(ks) == 1 {
			c := l.co[ks[0]]
			if l.k%c != 0 {
				return False
			}
			v := -l.k / c
			x := ks[0]
			if e.nonneg(x) {
				if v < 0 {
					return False
				}
				if v == 0 {
					return e.leZero(lin{map[*Term]int64{x: 1}, 0})
				}
			}
			// single-bit masks have two values only
			if x.Op == "band" {
				for _, m := range x.Args {
					if n, ok := m.intVal(); ok && n > 0 && n&(n-1) == 0 {
						if v == n {
							return e.B.Not(e.leZero(lin{map[*Term]int64{x: 1}, 0}))
						}
						return False
					}
				}
			}
			return e.atom(e.mk("eq", "", types.Typ[types.Bool], nil, x, e.mkInt(v, nil)))
		}
		kk := l.k
		l.k = 0
		return e.atom(e.mk("eq", "", types.Typ[types.Bool], nil, e.fromLin(l, types.Typ[types.Int]), e.mkInt(-kk, nil)))
	}
	canon := func(t *Term) *Term { // the zero array, whatever its type's name
		if t.Op == "zero" {
			if at, ok := t.T.Underlying().(*types.Array); ok {
				return e.zero(at)
			}
		}
		return t
	}
	a, b = canon(a), canon(b)
	if a == b {
		return True
	}
	if a.isConst() && !b.isConst() || (a.isConst() == b.isConst() && a.ID > b.ID) {
		a, b = b, a
	}
	return e.atom(e.mk("eq", "", types.Typ[types.Bool], nil, a, b))
}

func (e *Eng) structEq(a, b *Term, d int) BDD {
	r := True
	for i, f := range a.Args {
		var o *Term
		if b != nil {
			o = b.Args[i]
		} else {
			o = e.zero(a.T.Underlying().(*types.Struct).Field(i).Type())
		}
		r = e.B.And(r, e.eqd(f, o, d+1))
	}
	return r
}

func (e *Eng) length(x *Term) *Term {
	I := types.Typ[types.Int]
	switch x.Op {
	case "const":
		if s, ok := x.strVal(); ok {
			return e.mkInt(int64(len(s)), nil)
		}
	case "nil":
		return e.mkInt(0, nil)
	case "make":
		if len(x.Args) > 0 && x.Args[0] != nil {
			if _, ok := x.T.Underlying().(*types.Slice); ok {
				return x.Args[0]
			}
		}
	case "slice":
		hi := x.Args[2]
		if hi == nil {
			hi = e.length(x.Args[0])
		}
		lo := x.Args[1]
		if lo == nil {
			return hi
		}
		return e.fromLin(e.toLin(hi).add(e.toLin(lo), -1), I)
	case "append":
		l := e.toLin(e.length(x.Args[0]))
		for _, a := range x.Args[1:] {
			if a.Op == "spread" {
				l = l.add(e.toLin(e.length(a.Args[0])), 1)
			} else {
				l.k++
			}
		}
		return e.fromLin(l, I)
	case "ite":
		return e.ite(x.Obj.(BDD), e.length(x.Args[0]), e.length(x.Args[1]))
	case "conv":
		if len(x.Args) == 1 && x.Args[0] != nil && x.Args[0].T != nil {
			_, sl := x.Args[0].T.Underlying().(*types.Slice)
			if (isString(x.T) && sl) || isString(x.Args[0].T) {
				if e.byteConv(x) {
					return e.length(x.Args[0])
				}
			}
		}
	case "bcat":
		l := lin{map[*Term]int64{}, 0}
		for _, a := range x.Args {
			l = l.add(e.toLin(e.length(a)), 1)
		}
		return e.fromLin(l, I)
	}
	t := x.T
	if t != nil {
		if a, ok := deref(t).Underlying().(*types.Array); ok {
			return e.mkInt(a.Len(), nil)
		}
	}
	return e.mk("len", "", I, nil, x)
}

// byteConv: a string<->[]byte conversion (length preserving).
func (e *Eng) byteConv(x *Term) bool {
	b := func(t types.Type) bool {
		if isString(t) {
			return true
		}
		s, ok := t.Underlying().(*types.Slice)
		return ok && intBits(s.Elem()) == 8
	}
	return b(x.T) && b(x.Args[0].T)
}

func (e *Eng) ite(c BDD, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a == nil || b == nil {
		if a == nil {
			return b
		}
		return a
	}
	if a.Op == "bool" || b.Op == "bool" || isBool(a.T) {
		return e.mkBool(e.B.ite(c, e.bdd(a), e.bdd(b)))
	}
	if a.Op == "ite" && a.Obj.(BDD) == c {
		return e.ite(c, a.Args[0], b)
	}
	if b.Op == "ite" && b.Obj.(BDD) == c {
		return e.ite(c, a, b.Args[1])
	}
	// ite(c, a, ite(d, a, b)) -> ite(c|d, a, b)
	if b.Op == "ite" && b.Args[0] == a {
		return e.ite(e.B.Or(c, b.Obj.(BDD)), a, b.Args[1])
	}
	if b.Op == "ite" && b.Args[1] == a {
		return e.ite(e.B.Or(c, e.B.Not(b.Obj.(BDD))), a, b.Args[0])
	}
	if a.Op == "ite" && a.Args[0] == b {
		return e.ite(e.B.And(c, e.B.Not(a.Obj.(BDD))), a.Args[1], b)
	}
	if a.Op == "ite" && a.Args[1] == b {
		return e.ite(e.B.And(c, a.Obj.(BDD)), a.Args[0], b)
	}
	if a.Op == "struct" && b.Op == "struct" && a.Aux == b.Aux {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = e.ite(c, a.Args[i], b.Args[i])
		}
		return e.mkStruct(a.T, args)
	}
	if a.Op == "struct" && b.Op == "zero" {
		return e.ite(c, a, e.expand(b))
	}
	if a.Op == "zero" && b.Op == "struct" {
		return e.ite(c, e.expand(a), b)
	}
	return e.mk("ite", strconv.Itoa(int(c)), a.T, c, a, b)
}

func (e *Eng) expand(z *Term) *Term {
	st, ok := z.T.Underlying().(*types.Struct)
	if !ok {
		return z
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		args[i] = e.fieldOf(z, st, i)
	}
	return e.mk("struct", tstr(z.T), z.T, nil, args...)
}

func (e *Eng) mkStruct(t types.Type, args []*Term) *Term {
	st := t.Underlying().(*types.Struct)
	allz := true
	var src *Term
	same := len(args) > 0
	for i, a := range args {
		if a != e.zero(st.Field(i).Type()) {
			allz = false
		}
		if same {
			if a.Op == "fieldof" && a.Obj == any(st.Field(i)) && (src == nil || src == a.Args[0]) {
				src = a.Args[0]
			} else {
				same = false
			}
		}
	}
	if allz {
		return e.zero(t)
	}
	if same && src != nil {
		return src
	}
	return e.mk("struct", tstr(t), t, nil, args...)
}

func (e *Eng) fieldOf(x *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	switch x.Op {
	case "struct":
		return x.Args[i]
	case "zero":
		return e.zero(f.Type())
	case "ite":
		return e.ite(x.Obj.(BDD), e.fieldOf(x.Args[0], st, i), e.fieldOf(x.Args[1], st, i))
	case "ld":
		if x.Aux == "" {
			return e.mk("ld", "", f.Type(), nil, e.fieldAddr(x.Args[0], st, i))
		}
	}
	return e.mk("fieldof", e.oid(f), f.Type(), f, x)
}

func (e *Eng) fieldAddr(base *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	if base.Op == "ite" {
		return e.ite(base.Obj.(BDD), e.fieldAddr(base.Args[0], st, i), e.fieldAddr(base.Args[1], st, i))
	}
	return e.mk("field", e.oid(f), types.NewPointer(f.Type()), f, base)
}

func (e *Eng) indexAddr(base, idx *Term, elem types.Type) *Term {
	// normalise through re-slicing
	for base.Op == "slice" {
		if base.Args[1] != nil {
			idx = e.fromLin(e.toLin(idx).add(e.toLin(base.Args[1]), 1), idx.T)
		}
		base = base.Args[0]
	}
	return e.mk("index", "", types.NewPointer(elem), nil, base, idx)
}

// ---- printing ----

func (e *Eng) S(t *Term) string { return e.str(t, 6) }

func (e *Eng) str(t *Term, d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	a := func(i int) string { return e.str(t.Args[i], d-1) }
	list := func(from int) string {
		var s []string
		for i := from; i < len(t.Args); i++ {
			s = append(s, a(i))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		if s, ok := t.strVal(); ok {
			return strconv.Quote(s)
		}
		return t.Aux[1:]
	case "nil":
		return "nil"
	case "zero":
		return t.Aux + "{}"
	case "bool":
		return "[" + e.P(t.Obj.(BDD)) + "]"
	case "ite":
		return "if(" + e.Pd(t.Obj.(BDD), d-1) + " ? " + a(0) + " : " + a(1) + ")"
	case "param", "free":
		return t.Aux[strings.LastIndex(t.Aux, "~")+1:]
	case "global":
		return "&" + strings.ReplaceAll(t.Obj.(*ssa.Global).String(), modPath+"/", "")
	case "fn":
		return fnName(t.Obj.(*ssa.Function))
	case "closure":
		return "closure " + fnName(t.Obj.(*ssa.Function)) + "{" + list(0) + "}"
	case "alloc":
		return "new(" + tstr(deref(t.T)) + ")" + t.Aux[strings.LastIndex(t.Aux, "#"):]
	case "make":
		return "make(" + tstr(t.T) + ")" + t.Aux[strings.LastIndex(t.Aux, "#"):]
	case "field":
		return a(0) + "." + t.Obj.(*types.Var).Name()
	case "fieldof":
		return a(0) + "." + t.Obj.(*types.Var).Name()
	case "index":
		return a(0) + "[" + a(1) + "]"
	case "ld":
		v := t.Aux
		if v != "" {
			v = "@" + v[strings.LastIndex(v, "/")+1:]
		}
		if x := t.Args[0]; x.Op == "global" {
			return strings.TrimPrefix(e.str(x, d), "&") + v
		} else if x.Op == "field" || x.Op == "index" {
			return e.str(x, d) + v
		}
		return "*" + a(0) + v
	case "lin":
		l := t.Obj.(lin)
		var s []string
		for i, k := range t.Args {
			c := l.co[k]
			switch c {
			case 1:
				s = append(s, a(i))
			default:
				s = append(s, fmt.Sprintf("%d*%s", c, a(i)))
			}
		}
		if l.k != 0 {
			s = append(s, fmt.Sprint(l.k))
		}
		return "(" + strings.Join(s, "+") + ")"
	case "call":
		return t.callName() + "(" + list(0) + ")"
	case "ext":
		return a(0) + "#" + t.Aux
	case "iface":
		return a(0)
	case "eq":
		return a(0) + "==" + a(1)
	case "le":
		return a(0) + "<=" + a(1)
	case "exists":
		return "∃" + t.Aux
	case "slice":
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case "struct":
		st := t.T.Underlying().(*types.Struct)
		var s []string
		for i := range t.Args {
			if t.Args[i] != e.zero(st.Field(i).Type()) {
				s = append(s, st.Field(i).Name()+":"+a(i))
			}
		}
		return t.Aux + "{" + strings.Join(s, ", ") + "}"
	}
	aux := t.Aux
	if i := strings.LastIndex(aux, "/"); i >= 0 && strings.Contains(aux, "#") {
		aux = aux[i:]
	}
	return t.Op + ":" + aux + "(" + list(0) + ")"
}

// P prints a predicate as a disjunction of conjunctions.
func (e *Eng) P(b BDD) string { return e.Pd(b, 5) }

func (e *Eng) Pd(b BDD, d int) string {
	if b == True {
		return "true"
	}
	if b == False {
		return "false"
	}
	if d <= 0 {
		return "…"
	}
	cs, ok := e.B.Cubes(b, 6)
	var out []string
	for _, c := range cs {
		var s []string
		for _, l := range c {
			x := e.str(e.atoms[l.v], d)
			if !l.pos {
				x = "!(" + x + ")"
			}
			s = append(s, x)
		}
		out = append(out, strings.Join(s, " & "))
	}
	if !ok {
		out = append(out, "…")
	}
	return strings.Join(out, " | ")
}
