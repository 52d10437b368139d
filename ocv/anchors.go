package main

import (
	_ "embed"
	"encoding/json"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules name unexported types, fields, functions and variables. A renamed
// one is found again through this table of the declarations the rules were
// written against: the only declaration that is new in the same place and has
// the same type.

//go:embed anchors.json
var anchorData []byte

type anchorPkg struct {
	Types   map[string][][2]string `json:"types"` // struct types: field name, type
	Funcs   map[string]string      `json:"funcs"` // "f" or "T.m": signature
	Globals map[string]string      `json:"globals"`
}

var anchorTab map[string]*anchorPkg

func anchors() map[string]*anchorPkg {
	if anchorTab == nil {
		anchorTab = map[string]*anchorPkg{}
		json.Unmarshal(anchorData, &anchorTab)
	}
	return anchorTab
}

func ttext(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sigText(s *types.Signature) string {
	var sb strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		sb.WriteString(ttext(s.Params().At(i).Type()) + ",")
	}
	if s.Variadic() {
		sb.WriteString("...")
	}
	sb.WriteString("->")
	for i := 0; i < s.Results().Len(); i++ {
		sb.WriteString(ttext(s.Results().At(i).Type()) + ",")
	}
	return sb.String()
}

func describe(sp *ssa.Package, w *World) *anchorPkg {
	a := &anchorPkg{map[string][][2]string{}, map[string]string{}, map[string]string{}}
	sc := sp.Pkg.Scope()
	for _, nm := range sc.Names() {
		switch o := sc.Lookup(nm).(type) {
		case *types.TypeName:
			n, ok := types.Unalias(o.Type()).(*types.Named)
			if !ok {
				continue
			}
			fs := [][2]string{}
			if st, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					fs = append(fs, [2]string{st.Field(i).Name(), ttext(st.Field(i).Type())})
				}
			} else {
				fs = append(fs, [2]string{"", ttext(n.Underlying())})
			}
			a.Types[nm] = fs
			for i := 0; i < n.NumMethods(); i++ {
				a.Funcs[nm+"."+n.Method(i).Name()] = sigText(n.Method(i).Type().(*types.Signature))
			}
		case *types.Func:
			a.Funcs[nm] = sigText(o.Type().(*types.Signature))
		case *types.Var:
			a.Globals[nm] = ttext(o.Type())
		}
	}
	return a
}

func writeAnchors(w *World, file string) error {
	out := map[string]*anchorPkg{}
	for p, sp := range w.ByPkg {
		if isModPkg(p) {
			out[shortPkg(p)] = describe(sp, w)
		}
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

// renamed* return the present name of a declaration that is gone, or "".

func (w *World) now(pkg string) *anchorPkg {
	if w.nowTab == nil {
		w.nowTab = map[string]*anchorPkg{}
	}
	if w.nowTab[pkg] == nil {
		if sp := w.ByPkg[modPath+"/"+pkg]; sp != nil {
			w.nowTab[pkg] = describe(sp, w)
		}
	}
	return w.nowTab[pkg]
}

func only(cands []string) string {
	if len(cands) == 1 {
		return cands[0]
	}
	return ""
}

func (w *World) renamedType(pkg, name string) string {
	old, cur := anchors()[pkg], w.now(pkg)
	if old == nil || cur == nil || old.Types[name] == nil {
		return ""
	}
	var c []string
	for n, fs := range cur.Types {
		if old.Types[n] == nil && sameFields(fs, old.Types[name], name, n) {
			c = append(c, n)
		}
	}
	return only(c)
}

func sameFields(a, b [][2]string, oldName, newName string) bool {
	if len(a) != len(b) {
		return false
	}
	var x, y []string
	for i := range a {
		x = append(x, strings.ReplaceAll(a[i][1], newName, oldName))
		y = append(y, b[i][1])
	}
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "|") == strings.Join(y, "|")
}

func (w *World) renamedField(pkg, typ, curTyp, field string) string {
	old, cur := anchors()[pkg], w.now(pkg)
	if old == nil || cur == nil {
		return ""
	}
	t := ""
	was := map[string]bool{}
	for _, f := range old.Types[typ] {
		was[f[0]] = true
		if f[0] == field {
			t = f[1]
		}
	}
	var c []string
	for _, f := range cur.Types[curTyp] {
		if !was[f[0]] && t != "" && f[1] == t {
			c = append(c, f[0])
		}
	}
	return only(c)
}

func (w *World) renamedFunc(pkg, name string) string {
	old, cur := anchors()[pkg], w.now(pkg)
	if old == nil || cur == nil {
		return ""
	}
	recv, m := "", name
	if i := strings.Index(name, "."); i >= 0 {
		recv, m = strings.Trim(name[:i], "(*)"), name[i+1:]
	}
	key, prefix := m, ""
	if recv != "" {
		key = recv + "." + m
		prefix = recv + "."
	}
	sig, ok := old.Funcs[key]
	if !ok {
		return ""
	}
	if recv != "" && cur.Types[recv] == nil {
		if n := w.renamedType(pkg, recv); n != "" {
			if _, ok := cur.Funcs[n+"."+m]; ok {
				return n + "." + m
			}
			prefix = n + "."
		}
	}
	var c []string
	for n, s := range cur.Funcs {
		_, was := old.Funcs[n]
		if !was && s == sig && strings.HasPrefix(n, prefix) && (prefix != "" || !strings.Contains(n, ".")) {
			c = append(c, n)
		}
	}
	return only(c)
}

func (w *World) renamedGlobal(pkg, name string) string {
	old, cur := anchors()[pkg], w.now(pkg)
	if old == nil || cur == nil || old.Globals[name] == "" {
		return ""
	}
	var c []string
	for n, t := range cur.Globals {
		if old.Globals[n] == "" && t == old.Globals[name] {
			c = append(c, n)
		}
	}
	return only(c)
}
