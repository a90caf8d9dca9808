package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

func checkV08(c *Ctx) {
	c.Rule("every dequantised coefficient is the standard's value limited to -2048..2047; every eight bit sample made from a wider value is 255 for values from 255 up, 0 for values from 0 down and otherwise the value itself, each of the 64 of a block at its own place; every other conversion to eight bits keeps the value; no arithmetic is done in eight bits")
	c.blockRules("limit")
	c.sampleRules()
}

func is8bit(t types.Type) bool { return isInt(t, 1) }

// narrowing conversions to eight bits in f
func narrows(f *ssa.Function) (r []*ssa.Convert) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Convert); ok && is8bit(x.Type()) && !is8bit(x.X.Type()) {
				if _, k := x.X.(*ssa.Const); k {
					continue
				}
				if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 {
					r = append(r, x)
				}
			}
		}
	}
	return
}

// fewBits says whether v is what a read of at most eight bits returned, or a
// value masked to eight bits.
func (c *Ctx) fewBits(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			for _, a := range cl.Call.Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && isBitRead(cl) {
					return k.Uint64() <= 8
				}
			}
		}
	case *ssa.BinOp:
		if x.Op == token.AND {
			for _, y := range []ssa.Value{x.X, x.Y} {
				if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Int64() >= 0 && k.Int64() <= 255 {
					return true
				}
			}
		}
	}
	return false
}

// isBitRead: a method of the bit reader that returns the next n bits.
func isBitRead(cl *ssa.Call) bool {
	n := ""
	if cl.Call.IsInvoke() {
		n = cl.Call.Method.Name()
	} else if g := cl.Call.StaticCallee(); g != nil {
		n = g.Name()
	}
	switch n {
	case "Read8", "Read16", "Read32", "Read64", "Peek8", "Peek16", "Peek32", "Peek64":
		return true
	}
	return false
}

func (c *Ctx) sampleRules() {
	a := c.videoAnchors()
	below := a.g.closure(a.mb)
	isBlock := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		ar, ok := p.Elem().Underlying().(*types.Array)
		return ok && ar.Len() == 64 && isInt(ar.Elem(), 4)
	}
	clampers := map[*ssa.Function]bool{}
	var fs []*ssa.Function
	for _, f := range c.funcs(c.Pkg("video")) {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	wide := func(f *ssa.Function) bool {
		for _, x := range narrows(f) {
			if !c.fewBits(x.X) {
				return true
			}
		}
		return false
	}
	// the functions that turn blocks into samples
	samplers := a.g.innermost(func(f *ssa.Function) bool {
		if !below[f] || a.g.reads[f] {
			return false
		}
		ok := false
		for _, p := range f.Params {
			ok = ok || isBlock(p.Type())
		}
		if !ok {
			return false
		}
		for g := range a.g.closure(f) {
			if wide(g) {
				return true
			}
		}
		return false
	})
	if len(samplers) == 0 {
		c.Anchor("the function that turns a block into samples")
	}
	for _, f := range samplers {
		f := f
		for g := range a.g.closure(f) {
			clampers[g] = true
		}
		c.Guard("samples of "+f.Name(), func() { c.clampRun(f, isBlock) })
		c.Sample("samples made by %s", f)
	}
	// every other conversion
	for _, f := range fs {
		for _, x := range narrows(f) {
			c.Count("conversion_obligations", 1)
			if c.fewBits(x.X) || clampers[f] {
				continue
			}
			if !c.narrowHolds(f, x, 0) {
				c.Failf("narrow/"+f.Name(), c.P.Where(x.Pos()), "%s: the conversion from %s to %s may lose information", f, x.X.Type(), x.Type())
			}
		}
		if !below[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.BinOp)
				if !ok || !is8bit(x.Type()) {
					continue
				}
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.SHL:
					c.Failf("wrap/"+f.Name(), c.P.Where(x.Pos()), "%s: sample arithmetic in eight bits may wrap", f)
				}
			}
		}
	}
}

// narrowHolds: the conversion keeps the value, for any arguments of f or of
// all of its callers.
func (c *Ctx) narrowHolds(f *ssa.Function, x *ssa.Convert, depth int) bool {
	ok := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		e := c.Engine()
		r := c.Prepare(e, f)
		for j := range r.Args {
			r.Args[j] = NonNil(r.Args[j])
		}
		e.Merge = func(*ssa.Function) ai.MergeMode { return ai.MergeAll }
		r.Run()
		seen := false
		for k, o := range e.Obls {
			if k.Kind == "narrow" && k.Pos == x.Pos() {
				if o.Failed {
					return false
				}
				seen = true
			}
		}
		return seen
	}()
	if ok || depth > 2 {
		return ok
	}
	// with the arguments it is given
	n := 0
	for _, g := range c.funcs(c.Pkg("video")) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cl, isCall := in.(ssa.CallInstruction); isCall && cl.Common().StaticCallee() == f && g != f {
					n++
					if !c.narrowHolds(g, x, depth+1) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// clampRun follows the function that turns a block into samples.
func (c *Ctx) clampRun(fn *ssa.Function, isBlock func(types.Type) bool) {
	e := c.Engine()
	e.Coalesce = true
	r := c.Prepare(e, fn)
	for j := range r.Args {
		r.Args[j] = NonNil(r.Args[j])
	}
	bi := r.ArgOf(isBlock)
	bp := r.Args[bi].(ai.Ptr)
	et := bpElem(fn.Params[bi].Type())
	src := make([]*ai.Lin, 64)
	for k := range src {
		l, ok := r.S.Load(bp.Obj, bp.Path+idx(k), et).(*ai.Lin)
		if !ok {
			c.Anchor("the block " + fn.String() + " works on")
		}
		src[k] = l
	}
	mon := e.SymObj("samples", types.NewStruct(nil, nil))
	cell := func(k int) string { return idx(k) }
	for k := range src {
		r.S.Store(mon, cell(k), tInt, ai.Const(0))
	}
	get := func(s *ai.State, k int) *ai.Lin {
		l, _ := s.Load(mon, cell(k), tInt).(*ai.Lin)
		return s.Norm(l)
	}
	good := func(s *ai.State, v *ai.Lin, k int) bool {
		x := s.Norm(src[k])
		switch {
		case v.Is(255) && s.Decide(Ge(x, 255)) == ai.True:
			return true
		case v.Is(0) && s.Decide(Le(x, 0)) == ai.True:
			return true
		}
		lo, hi := s.Range(x)
		return v.Equal(x) && lo >= 0 && hi <= 255
	}
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, f *ssa.Function) {
		l, ok := v.(*ai.Lin)
		if !ok || obj == mon || obj == bp.Obj {
			return
		}
		fields, ix := e.Comps(path)
		if len(ix) == 0 || len(fields) == 0 {
			return
		}
		// an element of an array or slice of samples
		ar, ok := s.Obj(obj).T.Underlying().(*types.Array)
		fixed := ok && ar.Len() == 64 && is8bit(ar.Elem()) && ix[0] != nil && s.Norm(ix[0]).IsConst()
		if !fixed {
			if lo, hi := s.Range(l); lo < 0 || hi > 255 {
				return
			}
		}
		c.Count("sample_obligations", 1)
		l = s.Norm(l)
		for k := 0; k < 64; k++ {
			if fixed && int(s.Norm(ix[0]).K) != k {
				continue
			}
			if good(s, l, k) {
				s.Store(mon, cell(k), tInt, ai.Const(1))
				return
			}
			if fixed {
				s.Store(mon, cell(k), tInt, ai.Const(0))
			}
		}
		c.Failf("sample/value", c.P.Where(pos), "%s stores %v for a sample, which is not the value of the block limited to 0..255", f, l)
	}
	e.RootName = fn.String()
	outs := e.Call(r.S, fn, r.Args, nil)
	if len(outs) == 0 {
		c.Failf("vacuous/samples", c.P.Where(fn.Pos()), "no path through %s", fn)
	}
	for _, o := range outs {
		if o.Panicked {
			continue
		}
		for k := 0; k < 64; k++ {
			c.Count("sample_obligations", 1)
			if o.S.Decide(Eq(get(o.S, k), 1)) != ai.True {
				c.Failf("sample/missing", c.P.Where(fn.Pos()), "%s: sample %d of the block is not stored on some path", fn, k)
				break
			}
		}
	}
	for k, o := range e.Obls {
		if k.Kind == "narrow" && o.Failed && (strings.HasSuffix(k.Detail, "uint8") || strings.HasSuffix(k.Detail, "to byte") || strings.HasSuffix(k.Detail, "int8")) {
			c.Failf("sample/narrow", c.P.Where(k.Pos), "%s: %s: %s", k.Fn, k.Detail, o.Why)
		}
	}
}
