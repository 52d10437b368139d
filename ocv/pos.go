package main

import (
	"fmt"
	"go/token"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
)

type goPos = token.Pos

func (w *World) position(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Prog.Fset.Position(p)
	rel, err := filepath.Rel(w.dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (w *World) instrPos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if b := in.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					p = x.Pos()
					break
				}
			}
			if !p.IsValid() {
				p = b.Parent().Pos()
			}
		}
	}
	return w.position(p)
}
