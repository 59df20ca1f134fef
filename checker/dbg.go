package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["callees"] = &checkDef{run: func(ld *Loaded, r *Result) {
		m := map[string]int{}
		for _, fn := range ld.repoFns() {
			if fnPkgPath(fn) == flatPath {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil && !isRepoFn(f) {
							m[f.String()+"  <- "+fn.Name()]++
						}
					}
				}
			}
		}
		for k := range m {
			fmt.Println(k)
		}
		e := newEngine(ld)
		e.initGlobals()
		for g, id := range e.globals {
			fmt.Println(g, trunc(showVal(e.initHeap[id].val), 300))
		}
	}}
}
