package checks

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// X03. Every way around every loop consumes input, waits for a channel or
// approaches a bound.

type loopVerdict struct {
	ok  bool
	why string
	pos token.Pos
}

// progressOf collects the verdict on every loop the engine followed. A callee
// in always consumes input whenever it succeeds.
func progressOf(e *ai.Engine, always map[*ssa.Function]bool, into map[*ssa.BasicBlock]*loopVerdict) (n int) {
	for _, l := range e.Loops {
		v := into[l.Header]
		if v == nil {
			v = &loopVerdict{ok: true}
			into[l.Header] = v
		}
		for i, b := range l.Backs {
			n++
			why := l.Progress[i]
			if why == "" {
				_, via := consumes(b, l.HeadEv)
				for f := range via {
					if always[f] {
						why = "calls " + f.Name()
					}
				}
				for _, ev := range b.Events(l.HeadEv) {
					if ev.Kind == "packet" || ev.Kind == "loopstep" {
						why = "reads a packet"
					}
				}
			}
			if why == "" {
				v.ok, v.pos = false, l.BackPos[i]
			} else if v.why == "" {
				v.why = why
			}
		}
	}
	return
}

// counted is the syntactic rule: a variable moves by a constant towards a
// bound that the loop does not change, and the loop is left at the bound.
func counted(l ai.LoopShape) bool {
	h := l.Header
	outside := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return true
		case ssa.Instruction:
			return !l.Blocks[x.Block()]
		}
		return false
	}
	var bound func(v ssa.Value) bool
	bound = func(v ssa.Value) bool {
		if outside(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			return bound(x.X) && bound(x.Y)
		case *ssa.Convert:
			return bound(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return steady(l, x, outside)
			}
			return x.Op != token.ARROW && bound(x.X)
		case *ssa.Call:
			// the length of something the loop does not assign
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				ld, isLoad := x.Call.Args[0].(*ssa.UnOp)
				return outside(x.Call.Args[0]) || isLoad && ld.Op == token.MUL && steady(l, ld, outside)
			}
		}
		return false
	}
	var latches []*ssa.BasicBlock
	for _, p := range h.Preds {
		if l.Blocks[p] {
			latches = append(latches, p)
		}
	}
	step := func(v ssa.Value, ph *ssa.Phi) (int64, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return 0, false
		}
		k, isK := b.Y.(*ssa.Const)
		x := b.X
		if !isK && b.Op == token.ADD {
			k, isK = b.X.(*ssa.Const)
			x = b.Y
		}
		if !isK || k.Value == nil || x != ssa.Value(ph) {
			return 0, false
		}
		n, exact := constant.Int64Val(constant.ToInt(k.Value))
		if b.Op == token.SUB {
			n = -n
		}
		return n, exact
	}
	wide := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var d int64
		good := true
		var nexts []ssa.Value
		for i, p := range h.Preds {
			if !l.Blocks[p] {
				continue
			}
			n, ok := step(ph.Edges[i], ph)
			if !ok || n == 0 || d != 0 && (n > 0) != (d > 0) {
				good = false
				break
			}
			d = n
			nexts = append(nexts, ph.Edges[i])
		}
		if !good || d == 0 {
			continue
		}
		for b := range l.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || l.Blocks[b.Succs[0]] == l.Blocks[b.Succs[1]] {
				continue
			}
			all := true
			for _, t := range latches {
				if !b.Dominates(t) {
					all = false
				}
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !all || !ok {
				continue
			}
			moving := func(v ssa.Value) bool {
				if v == ssa.Value(ph) {
					return true
				}
				if n, ok := step(v, ph); ok && (n > 0) == (d > 0) {
					return true
				}
				for _, x := range nexts {
					if x == v {
						return true
					}
				}
				return false
			}
			op, x, y := cmp.Op, cmp.X, cmp.Y
			if !moving(x) {
				x, y = y, x
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			}
			if !moving(x) || !bound(y) {
				continue
			}
			if !l.Blocks[b.Succs[0]] { // leaves when the condition holds
				op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}[op]
			}
			switch {
			case d > 0 && op == token.LSS && (d == 1 || wide(x.Type())),
				d > 0 && op == token.LEQ && wide(x.Type()),
				d < 0 && op == token.GTR && (d == -1 || wide(x.Type())),
				d < 0 && op == token.GEQ && wide(x.Type()):
				return true
			}
		}
	}
	return false
}

// steady says whether a load reads a variable that the loop leaves alone: it
// calls nothing but builtins and stores nothing of the variable's type.
func steady(l ai.LoopShape, ld *ssa.UnOp, outside func(ssa.Value) bool) bool {
	a := ld.X
	for {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			break
		}
		a = fa.X
	}
	if _, global := a.(*ssa.Global); !global && !outside(a) {
		return false
	}
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				t := x.Val.Type()
				if types.Identical(t, ld.Type()) {
					return false
				}
				switch t.Underlying().(type) {
				case *types.Struct, *types.Array:
					return false
				}
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
				if _, ok := x.(*ssa.Call); !ok {
					return false
				}
			case *ssa.Send, *ssa.Select:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			}
		}
	}
	return true
}

func init() {
	needsHarness["X03"] = true
	register("X03", "loop progress by abstract interpretation over go/ssa (each way around a loop consumes input, waits on a channel or approaches an invariant bound), a counted-loop rule on the control-flow graph for loops over samples, and absence of recursion in the call graph", "", func(c *Ctx) {
		c.Rule("every way around every loop consumes at least one bit, reads a packet, receives or sends, or strictly approaches an invariant bound; no loop goes on after a failed read; Read never returns 0, nil for a non-empty buffer; the call graph has no cycle")
		gs, all := c.readingAll()
		always := map[*ssa.Function]bool{}
		verdicts := map[*ssa.BasicBlock]*loopVerdict{}
		merge := func(m map[*ssa.BasicBlock]*loopVerdict) {
			for h, v := range m {
				o := verdicts[h]
				if o == nil {
					verdicts[h] = v
				} else if !v.ok {
					o.ok, o.pos = false, v.pos
				}
			}
		}
		fls := c.flows(all, func(c *Ctx, r *Root) { c.failedLoops(r.E, r.Fn.String()) })
		for ch := true; ch; {
			ch = false
			for _, f := range fls {
				if f == nil || always[f.fn] {
					continue
				}
				ok := true
				if !f.direct {
					for _, via := range f.via {
						one := false
						for g := range via {
							one = one || always[g]
						}
						ok = ok && one
					}
				}
				if ok {
					always[f.fn], ch = true, true
				}
			}
		}
		// reading functions
		redo := map[*ssa.Function]bool{}
		for _, f := range fls {
			if f == nil {
				continue
			}
			m := map[*ssa.BasicBlock]*loopVerdict{}
			c.Count("loop_obligations", progressOf(f.e, always, m))
			bad := false
			for _, v := range m {
				bad = bad || !v.ok
			}
			if bad {
				redo[f.fn] = true // again, with more of its callees
				continue
			}
			merge(m)
		}
		var again []*ssa.Function
		for _, f := range all {
			if redo[f] {
				again = append(again, f)
			}
		}
		res := make([]map[*ssa.BasicBlock]*loopVerdict, len(again))
		c.parallelN(len(again), func(c *Ctx, i int) {
			c.Guard(again[i].String(), func() {
				e := c.Engine()
				e.PreciseExits = false
				e.Peel = everyLoop
				for _, h := range all {
					if h != again[i] && always[h] {
						c.contract(e, h)
					}
				}
				e.Merge = func(f *ssa.Function) ai.MergeMode { return ai.MergeSame }
				if again[i].Pkg == c.Pkg("video") {
					c.videoAnchorsOf(e).stubPixels(c)
				}
				r := c.Prepare(e, again[i])
				for k := range r.Args {
					r.Args[k] = NonNil(r.Args[k])
				}
				r.Run()
				m := map[*ssa.BasicBlock]*loopVerdict{}
				c.Count("loop_obligations", progressOf(e, always, m))
				res[i] = m
			})
		})
		for _, m := range res {
			merge(m)
		}
		// goroutines and readers
		type part struct {
			name string
			e    func(c *Ctx) *ai.Engine
		}
		var parts []part
		for _, n := range []string{"demux", "demux0"} {
			parts = append(parts, part{n, func(c *Ctx) *ai.Engine { return c.demuxRun(n).e }})
		}
		parts = append(parts, part{"decode", func(c *Ctx) *ai.Engine { return c.decodeRun().e }})
		for _, n := range []string{"tsOnly", "pesOnly", "tsUnits"} {
			parts = append(parts, part{n, func(c *Ctx) *ai.Engine { return c.adapterRun(n).e }})
		}
		for _, n := range []string{"tsPayload", "tsPayloadBoth", "tsUnit", "pesPayload", "psPayload"} {
			parts = append(parts, part{n, func(c *Ctx) *ai.Engine {
				rr := c.readerRoot(n)
				c.readerObls(rr, "X03")
				c.failedLoops(rr.mon.e, n)
				return rr.mon.e
			}})
		}
		pres := make([]map[*ssa.BasicBlock]*loopVerdict, len(parts))
		c.parallelN(len(parts), func(c *Ctx, i int) {
			c.Guard(parts[i].name, func() {
				m := map[*ssa.BasicBlock]*loopVerdict{}
				c.Count("loop_obligations", progressOf(parts[i].e(c), always, m))
				pres[i] = m
			})
		})
		for _, m := range pres {
			merge(m)
		}
		// every loop
		for _, p := range repoPkgs {
			for _, f := range gs[p].fns {
				if c.P.Irreducible(f) {
					c.Failf("undecided/"+f.String(), c.P.Where(f.Pos()), "%s has a cycle that is not a natural loop", f)
				}
				for i, l := range c.P.LoopShapes(f) {
					c.Count("loops", 1)
					c.Count("loop_obligations", 1)
					v := verdicts[l.Header]
					unrolled := false
					for _, e := range c.engines {
						unrolled = unrolled || e.LoopsSeen[l.Header]
					}
					where := c.P.Where(l.Pos)
					switch {
					case counted(l):
						c.Sample("loop %s: counts towards a bound", where)
					case v != nil && v.ok:
						c.Sample("loop %s: %s", where, v.why)
					case v != nil:
						c.Failf(key("spin", f, i), where, "%s: a way around this loop (by %s) neither consumes input, nor waits, nor approaches a bound", f, c.P.Where(v.pos))
					case unrolled:
						c.Sample("loop %s: constant number of iterations, followed one by one", where)
					default:
						c.Failf(key("undecided-loop", f, i), where, "%s: no analysed path reaches this loop and it does not count towards a bound", f)
					}
				}
			}
			for _, f := range recursive(gs[p]) {
				c.Failf("recursion/"+f.String(), c.P.Where(f.Pos()), "%s may call itself", f)
			}
		}
	})
}

func key(what string, f *ssa.Function, i int) string {
	return what + "/" + f.String() + "/" + string(rune('0'+i))
}

// recursive lists the functions on cycles of the call graph.
func recursive(g *graph) (r []*ssa.Function) {
	// calls of functions by name; compositions of testers are finite
	below := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		work := []*ssa.Function{f}
		for len(work) > 0 {
			h := work[0]
			work = work[1:]
			for _, ce := range g.calls[h] {
				if ce.site.Common().StaticCallee() != nil && !seen[ce.fn] {
					seen[ce.fn] = true
					work = append(work, ce.fn)
				}
			}
		}
		return seen
	}
	for _, f := range g.fns {
		if below(f)[f] {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return
}
