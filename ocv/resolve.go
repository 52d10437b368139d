package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// defaultResolve maps calls through unexported module interfaces (and the
// interfaces of internal packages) to the module's own implementations, when
// the module defines all of them.
func defaultResolve(w *World) func(recv *Term, m *types.Func) []*ssa.Function {
	cache := map[*types.Func][]*ssa.Function{}
	return func(recv *Term, m *types.Func) []*ssa.Function {
		if fs, ok := cache[m]; ok {
			return fs
		}
		var out []*ssa.Function
		rt := m.Type().(*types.Signature).Recv()
		if rt != nil && m.Pkg() != nil {
			n := namedOf(rt.Type())
			if n != nil && w.closedIface(n) {
				it, _ := n.Underlying().(*types.Interface)
				for _, p := range w.Prog.AllPackages() {
					if p.Pkg == nil || !isModPkg(p.Pkg.Path()) {
						continue
					}
					for _, mem := range p.Members {
						tm, ok := mem.(*ssa.Type)
						if !ok {
							continue
						}
						tn := tm.Type()
						if types.IsInterface(tn) {
							continue
						}
						for _, t := range []types.Type{tn, types.NewPointer(tn)} {
							if types.Implements(t, it) {
								if f := w.Prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
									out = append(out, f)
								}
								break
							}
						}
					}
				}
				sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
			}
		}
		cache[m] = out
		return out
	}
}

func isModPkg(p string) bool {
	return p == modPath || len(p) > len(modPath) && p[:len(modPath)+1] == modPath+"/"
}

// closedIface: an interface that code outside the module cannot implement:
// unexported, or containing an unexported method.
func (w *World) closedIface(n *types.Named) bool {
	if n.Obj().Pkg() == nil || !isModPkg(n.Obj().Pkg().Path()) {
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	if !n.Obj().Exported() {
		return true
	}
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			return true
		}
	}
	return false
}
