package ai

import (
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// FindFn finds a function by its full SSA name.
func FindFn(p *Program, name string) *ssa.Function {
	for fn := range ssautil.AllFunctions(p.SSA) {
		if fn.String() == name {
			return fn
		}
	}
	return nil
}
