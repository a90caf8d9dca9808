package checks

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// multipleOf says whether l is a multiple of m for all values.
func multipleOf(s *ai.State, l *ai.Lin, m int64) bool {
	l = s.Norm(l)
	k := l.K
	rest := &ai.Lin{}
	for _, t := range l.T {
		if t.C%m == 0 {
			continue
		}
		// x - x mod m is a multiple of m
		if a := t.A; (a.Fn == "mod" || a.Fn == "%") && len(a.Args) == 2 {
			if n := s.Norm(a.Args[1]); n.IsConst() && n.K%m == 0 {
				x := s.Norm(a.Args[0])
				if lo, _ := s.Range(x); a.Fn == "mod" || lo >= 0 {
					rest = rest.AddMul(x, t.C)
					continue
				}
			}
		}
		rest = rest.AddMul(ai.AtomLin(t.A), t.C)
	}
	rest = s.Norm(rest.AddK(k))
	for _, t := range rest.T {
		if t.C%m != 0 {
			return false
		}
	}
	return rest.K%m == 0
}

// divisible also uses the remainders the path has tested.
func divisible(e *ai.Engine, s *ai.State, l *ai.Lin, m int64) bool {
	if multipleOf(s, l, m) {
		return true
	}
	ok := false
	e.EachAtom(func(a *ai.Atom) {
		if ok || len(a.Args) != 2 || a.Fn != "mod" && a.Fn != "%" {
			return
		}
		x, n, r := s.Norm(a.Args[0]), s.Norm(a.Args[1]), s.Norm(ai.AtomLin(a))
		if n.IsConst() && n.K > 0 && n.K%m == 0 && r.IsConst() {
			ok = multipleOf(s, l.Sub(x).Add(r), m)
		}
	})
	return ok
}

// quotients are the facts m*q <= x <= m*q+m-1 (and those of remainders) for
// the operations l is made of.
func quotients(s *ai.State, l *ai.Lin) {
	deepAtoms(s.Norm(l), func(a *ai.Atom) {
		if len(a.Args) != 2 {
			return
		}
		x, n := s.Norm(a.Args[0]), s.Norm(a.Args[1])
		if !n.IsConst() {
			return
		}
		m := n.K
		switch a.Fn {
		case ">>":
			if n.K < 0 || n.K > 40 {
				return
			}
			m = 1 << uint(n.K)
		case "/":
			if lo, _ := s.Range(x); lo < 0 || m <= 0 {
				return
			}
		default:
			return
		}
		q := ai.AtomLin(a).Mul(m)
		s.Assume(ai.Cmp{Op: ai.LE, L: q.Sub(x)})
		s.Assume(ai.Cmp{Op: ai.LE, L: x.Sub(q).AddK(1 - m)})
	})
}

// exactQuotients replaces quotients of numbers whose remainder is known.
func exactQuotients(s *ai.State, l *ai.Lin) *ai.Lin {
	l = s.Norm(l)
	out := ai.Const(l.K)
	for _, t := range l.T {
		v := ai.AtomLin(t.A).Mul(t.C)
		if a := t.A; (a.Fn == ">>" || a.Fn == "/") && len(a.Args) == 2 {
			x, n := s.Norm(a.Args[0]), s.Norm(a.Args[1])
			m := int64(0)
			if n.IsConst() && a.Fn == "/" {
				if lo, _ := s.Range(x); lo >= 0 {
					m = n.K
				}
			} else if n.IsConst() && n.K >= 0 && n.K < 40 {
				m = 1 << uint(n.K)
			}
			for r := int64(0); m > 0 && m <= 64 && r < m && t.C%m == 0; r++ {
				if multipleOf(s, x.AddK(-r), m) {
					v = x.AddK(-r).Mul(t.C / m)
					break
				}
			}
		}
		out = out.Add(v)
	}
	return s.Norm(out)
}

// remainders are the values of the remainders in l that are known from what
// their operands are multiples of; it says whether the state can be at all.
func remainders(s *ai.State, l *ai.Lin) (feasible bool) {
	feasible = true
	deepAtoms(s.Norm(l), func(a *ai.Atom) {
		if len(a.Args) != 2 || a.Fn != "mod" && a.Fn != "%" {
			return
		}
		x, n := s.Norm(a.Args[0]), s.Norm(a.Args[1])
		if lo, _ := s.Range(x); !n.IsConst() || n.K <= 0 || a.Fn == "%" && lo < 0 {
			return
		}
		for r := int64(0); r < n.K && n.K <= 64; r++ {
			if multipleOf(s, x.AddK(-r), n.K) {
				feasible = feasible && s.Assume(ai.Cmp{Op: ai.EQ, L: ai.AtomLin(a).AddK(-r)})
				return
			}
		}
	})
	return
}

// sizes limits the header fields a size is made of to what their readers
// leave in them.
func (c *Ctx) sizes(s *ai.State, vs ai.Ptr, headers int) (w, h *ai.Lin) {
	t := c.Named("video", "VideoSequence")
	num := func(p ai.Ptr, pt types.Type, name string, hi int64) *ai.Lin {
		c.setRange(s, p, pt, name, 0, hi)
		return c.Field(s, p, pt, name).(*ai.Lin)
	}
	for n, name := range []string{"SequenceHeader", "SequenceExtension"} {
		if headers <= n {
			path, ft := promoted(t, name)
			if ft == nil {
				c.Anchor("VideoSequence." + name)
			}
			s.Store(vs.Obj, vs.Path+path, ft, ai.Ptr{Nil: ai.Const(1)})
			continue
		}
		p, pt := c.headerObj(s, vs, name)
		if n == 0 {
			w, h = num(p, pt, "horizontal_size_value", 4095), num(p, pt, "vertical_size_value", 4095)
		} else {
			w = w.AddMul(num(p, pt, "horizontal_size_extension", 3), 4096)
			h = h.AddMul(num(p, pt, "vertical_size_extension", 3), 4096)
		}
	}
	if headers == 0 {
		w, h = ai.Const(-1), ai.Const(-1)
	}
	return
}

func (c *Ctx) sizeRule(headers int) {
	e := c.Engine()
	fn := c.Client("videoSize")
	r := c.Prepare(e, fn)
	r.Args[0] = NonNil(r.Args[0])
	w, h := c.sizes(r.S, r.Args[0].(ai.Ptr), headers)
	r.Run()
	n := 0
	for _, o := range r.Outs {
		if o.Panicked {
			c.FailAt("size/panic", o, fn, "Size panics: %s", o.Why)
			continue
		}
		n++
		for i, want := range []*ai.Lin{w, h} {
			c.Count("size_obligations", 1)
			got, ok := o.Vals[i].(*ai.Lin)
			if !ok || o.S.Decide(EqL(got, want)) != ai.True {
				c.FailAt("size", o, fn, "with %d sequence headers read, Size yields %s for the %s, want %v", headers, ai.ValString(o.Vals[i]), []string{"width", "height"}[i], o.S.Norm(want))
			}
		}
	}
	if n == 0 {
		c.Failf("vacuous/size", "-", "Size never returns")
	}
}

// imageConst is a constant of package image.
func (c *Ctx) imageConst(name string) int64 {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() != "image" {
			continue
		}
		if k, ok := p.Members[name].(*ssa.NamedConst); ok {
			return k.Value.Int64()
		}
	}
	c.Anchor("image." + name)
	return 0
}

func (c *Ctx) bufferRule(cf int64, progressive int64) {
	a := c.videoAnchors()
	e := a.e
	for _, f := range c.setters(a) {
		c.stubMods(a, f)
	}
	for _, f := range c.startCodeScans() {
		c.stubFields(a, f)
	}
	img := func(s *ai.State, args []ai.Val, fn *ssa.Function) int {
		for i, p := range fn.Params {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isImage(pt.Elem()) {
				if x, ok := args[i].(ai.Ptr); ok {
					return x.Obj
				}
			}
		}
		return 0
	}
	created := func(s *ai.State) *ai.Event {
		var last *ai.Event
		for _, ev := range s.Events(nil) {
			if ev.Kind == "newimage" {
				last = ev
			}
		}
		return last
	}
	used := 0
	c.element(a, a.slice, "a slice", func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
		c.Count("buffer_obligations", 1)
		used++
		if ev := created(s); ev == nil || ev.Obj != img(s, args, a.slice) {
			c.Failf("buffer/slice", c.P.Where(site.Pos()), "%s: the slice is not decoded into the buffer made for the picture", site.Parent())
		}
	})
	r := c.Prepare(e, a.picture)
	i := r.ArgOf(c.isVS)
	if i < 0 {
		c.Anchor("the decoder parameter of " + a.picture.String())
	}
	r.Args[i] = NonNil(r.Args[i])
	vs := r.Args[i].(ai.Ptr)
	w, h := c.sizes(r.S, vs, 2)
	se, set := c.headerObj(r.S, vs, "SequenceExtension")
	c.setNum(r.S, se, set, "chroma_format", cf)
	c.setNum(r.S, se, set, "progressive_sequence", progressive)
	ratio := c.imageConst([]string{"", "YCbCrSubsampleRatio420", "YCbCrSubsampleRatio422", "YCbCrSubsampleRatio444"}[cf])
	e.Merge = nil
	e.Peel = everyLoop
	r.Run()
	what := fmt.Sprintf("chroma format %d, progressive_sequence %d", cf, progressive)
	r.Successes(func(o ai.Outcome) {
		ev := created(o.S)
		p, _ := o.Vals[0].(ai.Ptr)
		c.Count("buffer_obligations", 6)
		if ev == nil || ev.Obj != p.Obj {
			c.FailAt("buffer/returned", o, a.picture, "returns %s, not the buffer made for the picture (%s)", ai.ValString(o.Vals[0]), what)
			return
		}
		s := o.S.Clone()
		agg, ok := ev.Args[0].(*ai.Agg)
		l, ok2 := ev.Args[1].(*ai.Lin)
		if !ok || !ok2 {
			panic(ai.Unsupported{Msg: "the bounds of a new image"})
		}
		if s.Decide(Eq(l, ratio)) != ai.True {
			c.FailAt("buffer/chroma", o, a.picture, "the chroma subsampling is %v, want %d (%s)", s.Norm(l), ratio, what)
		}
		for _, x := range []struct {
			lo, hi string
			size   *ai.Lin
			unit   int64
		}{{".Min.X", ".Max.X", w, 16}, {".Min.Y", ".Max.Y", h, 32 - 16*progressive}} {
			lo, ok := s.AggGet(agg, x.lo, tInt).(*ai.Lin)
			hi, ok2 := s.AggGet(agg, x.hi, tInt).(*ai.Lin)
			if !ok || !ok2 {
				panic(ai.Unsupported{Msg: "the bounds of a new image"})
			}
			if !remainders(s, hi) {
				continue
			}
			hi = exactQuotients(s, hi)
			quotients(s, hi)
			fits := s.Decide(Ge(hi.Sub(x.size), 0)) == ai.True && s.Decide(Le(hi.Sub(x.size), x.unit-1)) == ai.True
			if s.Decide(Eq(lo, 0)) != ai.True || !fits || !divisible(e, s, hi, x.unit) {
				c.FailAt("buffer/size", o, a.picture, "the bounds run from %s %v to %s %v, want 0 and %v rounded up to a multiple of %d (%s)", x.lo, s.Norm(lo), x.hi, s.Norm(hi), s.Norm(x.size), x.unit, what)
			}
		}
	})
	if used == 0 {
		c.Failf("vacuous/slice", "-", "no slice is decoded")
	}
}

func init() {
	needsHarness["V11"] = true
	register("V11", "dataflow over go/ssa: the reported size and the bounds of the frame buffer as linear forms over the header fields, with quotient and congruence reasoning", "", func(c *Ctx) {
		c.Rule("Size yields (-1,-1) without headers, the 12-bit sizes with a sequence header, and these plus 4096 times the extensions with a sequence extension; on every successful path of the picture decoder the returned frame, and the one slices are decoded into, is the buffer it made, from (0,0) to that size rounded up to whole macroblocks (macroblock pairs vertically unless the sequence is progressive), with the subsampling of the chroma format")
		var us []unit
		for k := 0; k < 3; k++ {
			k := k
			us = append(us, unit{fmt.Sprintf("size, %d headers", k), func(c *Ctx) { c.sizeRule(k) }})
		}
		for cf := int64(1); cf <= 3; cf++ {
			for p := int64(0); p < 2; p++ {
				cf, p := cf, p
				us = append(us, unit{fmt.Sprintf("buffer, chroma format %d, progressive %d", cf, p), func(c *Ctx) { c.bufferRule(cf, p) }})
			}
		}
		c.units(us)
	})
}
