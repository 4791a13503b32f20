package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// dump prints the branch conditions, stores and calls of a function (development aid).
func (w *World) dump(name string) {
	fn := w.Func(name)
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.If:
				fmt.Println(w.ipos(in), "IF  ", w.rels(x.Cond, true), "->", b.Succs[0].Index, b.Succs[1].Index)
			case *ssa.Store:
				fmt.Println(w.ipos(in), "STO ", w.render(x.Addr), ":=", w.render(x.Val))
			case ssa.CallInstruction:
				var a []string
				for _, y := range callArgs(x) {
					a = append(a, w.render(y))
				}
				fmt.Println(w.ipos(in), "CALL", calleeName(x), a)
			case *ssa.Return:
				var a []string
				for i := range x.Results {
					a = append(a, w.render(retVal(x, i)))
				}
				fmt.Println(w.ipos(in), "RET ", a)
			}
		}
	}
}
