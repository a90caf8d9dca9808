package ai

import "golang.org/x/tools/go/ssa"

// liveness gives the values still needed at the start of each block, after
// its phis.
func (fi *fnInfo) liveness(fn *ssa.Function) map[*ssa.BasicBlock][]bool {
	in := map[*ssa.BasicBlock][]bool{}
	for _, b := range fn.Blocks {
		in[b] = make([]bool, len(fi.num))
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := make([]bool, len(fi.num))
			for _, t := range b.Succs {
				for k, v := range fi.liveOn(in, b, t) {
					cur[k] = cur[k] || v
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				if v, ok := x.(ssa.Value); ok {
					cur[fi.num[v]] = false
				}
				for _, o := range x.Operands(nil) {
					if k, ok := fi.num[*o]; ok && *o != nil {
						cur[k] = true
					}
				}
			}
			for k, v := range cur {
				if v && !in[b][k] {
					in[b][k] = true
					changed = true
				}
			}
		}
	}
	return in
}

// liveOn gives the values needed on an edge, before the phis of its target.
func (fi *fnInfo) liveOn(in map[*ssa.BasicBlock][]bool, b, t *ssa.BasicBlock) []bool {
	r := append([]bool(nil), in[t]...)
	var phis []*ssa.Phi
	for _, x := range t.Instrs {
		if p, ok := x.(*ssa.Phi); ok {
			phis = append(phis, p)
			r[fi.num[p]] = false
		}
	}
	for _, p := range phis {
		for k, q := range t.Preds {
			if q == b {
				if n, ok := fi.num[p.Edges[k]]; ok {
					r[n] = true
				}
			}
		}
	}
	return r
}
