package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

func init() {
	const run = "path-sensitive abstract interpretation over go/ssa: symbolic canonical form of every coefficient per class of blocks"
	register("V04", run, "", checkV04)
	register("V08", run+"; value ranges of every sample stored", "", checkV08)
	register("V12", "path-sensitive dataflow over go/ssa: bit-provenance of every installed matrix entry", "", checkV12)
	register("V19", run+" and parity forms for mismatch control", "", checkV19)
}

func checkV04(c *Ctx) {
	c.Rule("for every class of blocks (scan x scale type x scale code x intra x component x chroma format) each of the 64 dequantised coefficients equals the formula of ISO/IEC 13818-2 7.4 over the coefficient at the position table 7.3 gives, the scale of table 7-6 and the matrix selected; without a downloaded matrix the sequence header installs the default matrices of 6.3.11")
	c.blockRules("value")
	c.matrixRules(false)
}

func checkV19(c *Ctx) {
	c.Rule("for every class of blocks and every sign pattern each coefficient is ((2*QF+k)*W*scale)/32 with division towards zero (k the sign of QF in non-intra blocks), the intra DC coefficient is QF times 8, 4, 2 or 1 by precision, and the last coefficient's lowest bit is toggled exactly when the sum of all saturated coefficients is even")
	c.blockRules("value,mismatch")
}

func checkV12(c *Ctx) {
	c.Rule("after a sequence header and after a quant matrix extension each entry of the four installed matrices is the byte transmitted at its zigzag position, the default entry, or what it was before, as the load flags say; nothing else stores to them")
	c.matrixRules(true)
}

// matrixRules checks what sequence headers and quant matrix extensions install.
func (c *Ctx) matrixRules(all bool) {
	mpath, mt := c.matrixField()
	t := c.Named("video", "VideoSequence")
	var fv *types.Var
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if "."+st.Field(i).Name() == mpath {
			fv = st.Field(i)
		}
	}
	a := c.videoAnchors()
	g := a.g
	parse := c.parserOf("video", "SequenceHeader")
	stores := func(f *ssa.Function) bool { return usesField(f, fv) && storesField(f, fv) }
	hasVS := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if c.isVS(p.Type()) {
				return f.Parent() == nil && f.Synthetic == ""
			}
		}
		return false
	}
	below := func(f *ssa.Function, ok func(*ssa.Function) bool) bool {
		for h := range g.closure(f) {
			if ok(h) {
				return true
			}
		}
		return false
	}
	reachesParse := func(f *ssa.Function) bool { return below(f, func(h *ssa.Function) bool { return h == parse }) }
	install := c.One(g.innermost(func(f *ssa.Function) bool {
		return hasVS(f) && reachesParse(f) && below(f, stores)
	}), "the function that installs the matrices of a sequence header")

	cells := func(s *ai.State, vs ai.Ptr) (r [4][64]*ai.Lin) {
		for i := range r {
			for k := range r[i] {
				p, ct := matrixCell(mt, i*64+k)
				l, ok := s.Load(vs.Obj, vs.Path+mpath+p, ct).(*ai.Lin)
				if !ok {
					c.Anchor("the quantisation matrices of the decoder")
				}
				r[i][k] = l
			}
		}
		return
	}
	vsArg := func(r *Root) ai.Ptr {
		i := r.ArgOf(c.isVS)
		r.Args[i] = NonNil(r.Args[i])
		return r.Args[i].(ai.Ptr)
	}
	downloaded := func(w *Walk, got [64]*ai.Lin, what string, pos *ai.Lin) {
		for k := range got {
			w.Eq(what, got[k], w.At(pos.AddK(8*stdScan[0][k]), 8))
		}
	}
	fixed := func(w *Walk, got [64]*ai.Lin, what string, want func(k int) *ai.Lin) {
		for k := range got {
			w.Eq(what, got[k], want(k))
		}
	}
	name := [4]string{"intra", "non-intra", "chroma-intra", "chroma-non-intra"}
	c.Guard("sequence header", func() {
		e := c.Engine()
		e.Endless = true
		r := c.Prepare(e, install)
		vs := vsArg(r)
		stream := r.StreamOf()
		r.S.Stream(stream).AlignAt = ai.Const(0)
		r.Run()
		r.Successes(func(o ai.Outcome) {
			c.Spec(e, o, install, stream, 0, ai.Const(0), "header/", func(w *Walk) {
				w.Skip(32 + 12 + 12 + 4 + 4 + 18 + 1 + 10 + 1)
				got := cells(w.S, vs)
				for m := 0; m < 2; m++ {
					load := w.IfSet(w.U(1))
					for i := m; i < 4; i += 2 {
						switch {
						case load && all:
							downloaded(w, got[i], "downloaded-"+name[i], w.Pos)
						case !load && m == 0:
							fixed(w, got[i], "default-"+name[i], func(k int) *ai.Lin { return ai.Const(stdDefaultIntra[k]) })
						case !load:
							fixed(w, got[i], "default-"+name[i], func(k int) *ai.Lin { return ai.Const(16) })
						}
					}
					if load {
						w.Skip(64 * 8)
					}
				}
			})
		})
		c.Sample("sequence header matrices installed by %s", install)
	})
	if !all {
		return
	}
	// the extension
	var ext *ssa.Function
	c.Guard("quant matrix extension", func() {
		under := g.closure(install)
		cand := g.innermost(func(f *ssa.Function) bool { return hasVS(f) && !under[f] && g.reads[f] && below(f, stores) })
		var levels [][]*ssa.Function
		for len(cand) > 0 && len(levels) < 6 {
			levels = append(levels, cand)
			done := map[*ssa.Function]bool{}
			for _, l := range levels {
				for _, f := range l {
					done[f] = true
				}
			}
			cand = g.innermost(func(f *ssa.Function) bool {
				if !hasVS(f) || under[f] || done[f] || !g.reads[f] || reachesParse(f) {
					return false
				}
				return below(f, func(h *ssa.Function) bool { return done[h] })
			})
		}
		var r *Root
		var vs ai.Ptr
		var before [4][64]*ai.Lin
		var stream int
		for _, l := range levels {
			for _, f := range l {
				func() {
					defer func() { recover() }()
					e := c.Engine()
					e.Endless = true
					q := c.Prepare(e, f)
					p := vsArg(q)
					b := cells(q.S, p)
					sid := q.StreamOf()
					q.S.Stream(sid).AlignAt = ai.Const(0)
					q.Run()
					n, ok := 0, true
					for _, o := range q.Outs {
						if !o.Panicked && Succeeded(o, f) == ai.True {
							n++
							ok = ok && o.S.Decide(Eq(e.Bits(sid, 0, ai.Const(0), 4), 3)) == ai.True
						}
					}
					if n > 0 && ok && r == nil {
						r, vs, before, stream, ext = q, p, b, sid, f
					}
				}()
			}
			if r != nil {
				break
			}
		}
		if r == nil {
			c.Anchor("the parser of the quant matrix extension")
		}
		r.Successes(func(o ai.Outcome) {
			c.Spec(r.E, o, ext, stream, 0, ai.Const(0), "extension/", func(w *Walk) {
				w.Must("id", Eq(w.U(4), 3))
				got := cells(w.S, vs)
				src := [4]*ai.Lin{}
				for m, slots := range [4][]int{{0, 2}, {1, 3}, {2}, {3}} {
					if w.IfSet(w.U(1)) {
						for _, i := range slots {
							src[i] = w.Pos
						}
						w.Skip(64 * 8)
					}
					_ = m
				}
				for i := range got {
					if src[i] != nil {
						downloaded(w, got[i], "downloaded-"+name[i], src[i])
					} else {
						fixed(w, got[i], "kept-"+name[i], func(k int) *ai.Lin { return before[i][k] })
					}
				}
				w.stopsAtStartCode()
			})
		})
		c.Sample("quant matrix extension read by %s", ext)
	})
	// nothing else
	if ext == nil {
		return
	}
	ok := map[*ssa.Function]bool{}
	for _, r := range []*ssa.Function{install, ext} {
		for f := range g.closure(r) {
			ok[f] = true
		}
	}
	for _, f := range c.funcs(c.Pkg("video")) {
		c.Count("function_obligations", 1)
		if !ok[f] && stores(f) {
			c.Failf("other-store", c.P.Where(f.Pos()), "%s stores to the quantisation matrices", f)
		}
	}
}

// storesField says whether f stores to (part of) the field itself.
func storesField(f *ssa.Function, v *types.Var) bool {
	return storesThrough(f, func(x ssa.Value) bool {
		y, ok := x.(*ssa.FieldAddr)
		return ok && y.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(y.Field) == v
	}, 6)
}

// storesThrough says whether f stores through an address derived from one of
// the roots, itself or in what it calls.
func storesThrough(f *ssa.Function, root func(ssa.Value) bool, depth int) bool {
	if depth == 0 {
		return true
	}
	at := map[ssa.Value]bool{}
	for _, p := range f.Params {
		at[p] = root(p)
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(ssa.Value)
				if !ok || at[x] {
					continue
				}
				at[x] = root(x)
				switch y := in.(type) {
				case *ssa.FieldAddr:
					at[x] = at[x] || at[y.X]
				case *ssa.IndexAddr:
					at[x] = at[x] || at[y.X]
				case *ssa.Slice:
					at[x] = at[y.X]
				case *ssa.ChangeType:
					at[x] = at[y.X]
				case *ssa.Phi:
					for _, e := range y.Edges {
						at[x] = at[x] || at[e]
					}
				}
				changed = changed || at[x]
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if at[y.Addr] || at[y.Val] {
					return true
				}
			case *ssa.MakeClosure:
				for _, a := range y.Bindings {
					if at[a] {
						return true
					}
				}
			case ssa.CallInstruction:
				for i, a := range y.Common().Args {
					if !at[a] {
						continue
					}
					g := y.Common().StaticCallee()
					if bi, ok := y.Common().Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" && i == 0 {
							return true
						}
						continue
					}
					if g == nil || len(g.Blocks) == 0 || i >= len(g.Params) {
						return true
					}
					p := g.Params[i]
					if storesThrough(g, func(x ssa.Value) bool { return x == ssa.Value(p) }, depth-1) {
						return true
					}
				}
			}
		}
	}
	return false
}
