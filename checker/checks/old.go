package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// Who writes samples (V07): the pictures a run finds in memory when it starts
// are those of earlier calls, and nothing may write to their planes, nor to
// the pictures themselves.

type oldSamples struct {
	c       *Ctx
	e       *ai.Engine
	images  map[int]bool // pictures that are being decoded
	planes  map[int]bool // their planes
	foreign map[int]string
}

func newOldSamples(c *Ctx, e *ai.Engine) *oldSamples {
	o := &oldSamples{c: c, e: e, images: map[int]bool{}, planes: map[int]bool{}, foreign: map[int]string{}}
	e.OnLoad, e.OnStore, e.OnEvent = o.load, o.store, o.event
	return o
}

// decoding says that a picture is the one being decoded.
func (o *oldSamples) decoding(s *ai.State, p ai.Ptr, t types.Type) {
	o.images[p.Obj] = true
	for _, id := range o.c.planesOf(s, p, t).obj {
		o.planes[id] = true
	}
}

func byteSlice(t types.Type) bool {
	st, ok := t.Underlying().(*types.Slice)
	return ok && isInt(st.Elem(), 1)
}

func (o *oldSamples) load(s *ai.State, obj int, path string, t types.Type, v ai.Val, pos token.Pos, fn *ssa.Function) {
	if o == nil {
		return
	}
	x := s.Obj(obj)
	if !x.Sym || o.images[obj] || !isImage(x.T) || !byteSlice(t) {
		return
	}
	if sl, ok := v.(ai.Slice); ok && sl.Obj != 0 && !o.planes[sl.Obj] {
		o.foreign[sl.Obj] = x.Name + path
	}
}

func (o *oldSamples) write(s *ai.State, obj int, pos token.Pos, fn *ssa.Function) {
	if o == nil || obj == 0 {
		return
	}
	o.c.Count("write_obligations", 1)
	x := s.Obj(obj)
	switch {
	case o.foreign[obj] != "" && !o.planes[obj]:
		o.c.Failf("old/samples "+fnName(fn), o.c.P.Where(pos), "%s: writes samples of a picture decoded before (%s)", fnName(fn), o.foreign[obj])
	case x != nil && x.Sym && isImage(x.T):
		o.c.Failf("old/picture "+fnName(fn), o.c.P.Where(pos), "%s: changes the planes or the bounds of a picture (%s)", fnName(fn), x.Name)
	}
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.String()
}

func (o *oldSamples) store(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) {
	o.write(s, obj, pos, fn)
}

func (o *oldSamples) event(s *ai.State, ev *ai.Event) {
	switch ev.Kind {
	case "copy", "append", "clear":
		o.write(s, ev.Obj, ev.Pos, ev.Fn)
	}
}

// fresh says whether a picture and its planes were made by the run itself.
func (o *oldSamples) fresh(s *ai.State, p ai.Ptr, t types.Type) string {
	x := s.Obj(p.Obj)
	if p.Obj == 0 || x == nil || x.Sym {
		return "is not made by it"
	}
	pl := o.c.planesOf(s, p, t)
	for i, id := range pl.obj {
		if y := s.Obj(id); id == 0 || y == nil || y.Sym {
			nm := "?"
			if y != nil {
				nm = y.Name
			}
			return fmt.Sprintf("has a plane %s that is not made by it (%d %s in %s)", planeNames[i], id, nm, x.Name)
		}
	}
	return ""
}

func imageArg(fn *ssa.Function, args []ai.Val) (ai.Ptr, types.Type) {
	for i, p := range fn.Params {
		if isImagePtr(p.Type()) {
			if q, ok := args[i].(ai.Ptr); ok {
				return q, p.Type().Underlying().(*types.Pointer).Elem()
			}
		}
	}
	return ai.Ptr{}, nil
}

// freshRule: each picture is decoded into, and returned in, memory of its own.
func (c *Ctx) freshRule(cf, progressive int64) {
	a := c.videoAnchors()
	e := a.e
	for _, f := range c.setters(a) {
		c.stubMods(a, f)
	}
	for _, f := range c.startCodeScans() {
		c.stubFields(a, f)
	}
	o := newOldSamples(c, e)
	used := 0
	// slices leave the picture itself alone, as the other runs show
	c.stubFieldsOf(a, a.slice, func(s *ai.State, p ai.Ptr, pt types.Type) {
		if isImagePtr(pt) {
			for _, id := range c.planesOf(s, p, pt.Underlying().(*types.Pointer).Elem()).obj {
				s.HavocUnder(id, "", "slice")
			}
			return
		}
		c.havocAround(s, p, pt)
	})
	c.watch(a, a.slice, func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
		used++
		c.Count("buffer_obligations", 1)
		p, t := imageArg(a.slice, args)
		if t == nil {
			c.Anchor("the picture given to " + a.slice.String())
		}
		if why := o.fresh(s, p, t); why != "" {
			c.Failf("fresh/slice", c.P.Where(site.Pos()), "%s: the picture slices are decoded into %s", fnName(site.Parent()), why)
		}
	})
	r := c.Prepare(e, a.picture)
	i := r.ArgOf(c.isVS)
	if i < 0 {
		c.Anchor("the decoder parameter of " + a.picture.String())
	}
	r.Args[i] = NonNil(r.Args[i])
	vs := r.Args[i].(ai.Ptr)
	c.sizes(r.S, vs, 2)
	se, set := c.headerObj(r.S, vs, "SequenceExtension")
	c.setNum(r.S, se, set, "chroma_format", cf)
	c.setNum(r.S, se, set, "progressive_sequence", progressive)
	e.Merge, e.Peel = nil, everyLoop
	r.Run()
	r.Successes(func(x ai.Outcome) {
		c.Count("buffer_obligations", 1)
		p, ok := x.Vals[0].(ai.Ptr)
		if !ok {
			c.FailAt("fresh/returned", x, a.picture, "returns %s", ai.ValString(x.Vals[0]))
			return
		}
		if why := o.fresh(x.S, p, a.picture.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()); why != "" {
			c.FailAt("fresh/returned", x, a.picture, "the picture returned %s", why)
		}
	})
	if used == 0 {
		c.Failf("vacuous/slice", "-", "no slice is decoded")
	}
}

// aroundRule: the functions around the picture decoder leave samples alone.
func (c *Ctx) aroundRule(next bool) {
	a := c.videoAnchors()
	e := a.e
	v := c.videoElemsOf(a)
	o := newOldSamples(c, e)
	stub, fn := v.picture, v.step
	if next {
		stub, fn = v.step, c.Client("videoNext")
	} else {
		for _, f := range c.startCodeScans() {
			c.stubFields(a, f)
		}
		for _, f := range []*ssa.Function{v.seqhdr, v.seqext, v.eaud, v.pce, v.gop, v.pichdr} {
			c.element(a, f, f.Name(), func(*ai.State, ssa.CallInstruction, []ai.Val) {})
		}
	}
	calls := 0
	c.element(a, stub, "the next picture", func(s *ai.State, site ssa.CallInstruction, args []ai.Val) { calls++ })
	inner := e.FnModels[stub]
	e.FnModels[stub] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		alts := inner(e, s, site, args)
		for _, alt := range alts {
			if t, ok := alt.V.(ai.Tuple); ok && !next {
				if p, ok := t[0].(ai.Ptr); ok && p.Obj != 0 {
					// what step does to the picture it decoded last is still decoding
					o.decoding(alt.S, p, stub.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
				}
			}
		}
		return alts
	}
	r := c.Prepare(e, fn)
	for i := range r.Args {
		r.Args[i] = NonNil(r.Args[i])
	}
	e.Merge = nil
	e.Peel, e.Rotate = everyLoop, true
	r.Run()
	if calls == 0 {
		c.Failf("vacuous/"+stub.Name(), "-", "%s is not called", stub)
	}
	n := 0
	r.Successes(func(ai.Outcome) { n++ })
	c.Count("paths", n)
	if n == 0 {
		c.Failf("vacuous/"+fn.Name(), "-", "%s never succeeds", fn)
	}
}

// writesSamples says whether a function itself may write memory of samples:
// elements of a byte slice, or fields of a picture.
func writesSamples(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch y := x.Addr.(type) {
				case *ssa.IndexAddr:
					if byteSlice(y.X.Type()) {
						return true
					}
				case *ssa.FieldAddr:
					if pt, ok := y.X.Type().Underlying().(*types.Pointer); ok && isImage(pt.Elem()) {
						if _, local := y.X.(*ssa.Alloc); !local {
							return true
						}
					}
				}
				if isImage(x.Val.Type()) {
					if _, local := x.Addr.(*ssa.Alloc); !local {
						return true
					}
				}
			case ssa.CallInstruction:
				cm := x.Common()
				if bi, ok := cm.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "append", "clear":
						if byteSlice(cm.Args[0].Type()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// oldPictures runs the macroblock decoder on every kind of macroblock.
func (m *mbLayer) oldPictures() {
	c := m.c
	idctFn := c.residualAnchor(m.a, m.deq)
	seen := map[bool]bool{}
	for ci := range m.caps {
		cap := &m.caps[ci]
		if seen[cap.first] {
			continue
		}
		seen[cap.first] = true
		for _, k := range m.oldCases() {
			if cap.first && k.flags != "----i-" {
				continue
			}
			p := &pixRun{m: m, k: k}
			outs := p.run(*cap, idctFn)
			if len(outs) == 0 {
				c.Failf("vacuous/macroblock", c.P.Where(m.a.mb.Pos()), "no way through %s for %s, %s", m.a.mb, m.k, k)
			}
			c.Count("macroblock_kinds", 1)
		}
	}
}

func (m *mbLayer) oldCases() []pixCase {
	k := m.k
	r := []pixCase{{flags: "----i-"}}
	both := [2]vclass{vclassOf(5), vclassOf(58)}
	add := func(fl string, skip int64) {
		for d := int64(0); d <= 1-k.framePred; d++ {
			r = append(r, pixCase{flags: fl, vec: both, dct: d, skip: skip})
		}
	}
	switch k.coding {
	case 2:
		for _, fl := range []string{"-f-p--", "-f----", "---p--"} {
			add(fl, 0)
			add(fl, 2)
		}
	case 3:
		for _, fl := range []string{"-fbp--", "-fb---", "--bp--", "--b---", "-f-p--", "-f----"} {
			add(fl, 0)
		}
		add("-fb---", 1)
	}
	return r
}

func init() {
	needsHarness["V07"] = true
	register("V07", "effect analysis by path-sensitive dataflow over go/ssa: the object every write of the decoder goes to, with the pictures of earlier calls told apart from the one being decoded", "", func(c *Ctx) {
		c.Rule("on every path, slices are decoded into a picture that, with its planes, was made by the same call of the picture decoder, and that picture is returned; the slice and the macroblock decoder, for every kind of macroblock, and the functions around the picture decoder never write to a picture they found in memory, or to its planes, except for the one being decoded; every function that writes elements of byte slices or fields of pictures was followed")
		us := []unit{
			{"next", func(c *Ctx) { c.aroundRule(true) }},
			{"step", func(c *Ctx) { c.aroundRule(false) }},
		}
		for cf := int64(1); cf <= 3; cf++ {
			for p := int64(0); p < 2; p++ {
				us = append(us, unit{fmt.Sprintf("picture, chroma format %d, progressive %d", cf, p), func(c *Ctx) { c.freshRule(cf, p) }})
			}
		}
		c.units(us)
		c.mbLayers(func(m *mbLayer) { m.oldPictures() })
		// nothing else writes samples
		a := c.videoAnchors()
		v := c.videoElemsOf(a)
		var fs []*ssa.Function
		for f := range a.g.closure(v.step) {
			fs = append(fs, f)
		}
		for f := range a.g.closure(c.Client("videoNext")) {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		under := a.g.closure(a.picture)
		for i, f := range fs {
			if i > 0 && fs[i-1] == f || f.Blocks == nil || !c.P.InRepo(f) {
				continue
			}
			c.Count("function_obligations", 1)
			if !writesSamples(f) || c.visited(f) {
				continue
			}
			if !under[f] && !touchesPicture(f) {
				continue // a header parser: it has no pictures
			}
			c.Failf("unfollowed/"+f.String(), c.P.Where(f.Pos()), "%s writes samples, and no run of the decoder was followed into it", f)
		}
	})
}
