package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// ---- X02

// videoClient follows a user of the video decoder through any sequence of
// calls; the slice decoder is replaced by what it may do to the decoder.
func (c *Ctx) videoClient(e *ai.Engine, see func(s *ai.State, fn *ssa.Function, o ai.Outcome)) {
	a := c.videoAnchorsOf(e)
	c.stubSlice(a)
	for _, f := range c.headerParsers(a) {
		c.contract(e, f)
	}
	for _, f := range c.setters(a) {
		c.stubMods(a, f)
	}
	for _, f := range c.valueParsers(a) {
		c.stubFields(a, f)
	}
	e.Merge = func(f *ssa.Function) ai.MergeMode { return ai.MergeAll }
	e.Loose = true
	r := c.Prepare(e, c.Client("videoNew"))
	r.Args[0] = NonNil(r.Args[0])
	e.RootName = "videoNew"
	type call struct {
		fn   *ssa.Function
		args []ai.Val
	}
	var calls []call
	for _, n := range []string{"videoNext", "videoAlign", "videoSize"} {
		fn := c.Client(n)
		k := call{fn: fn}
		for _, p := range fn.Params[1:] {
			k.args = append(k.args, r.S.Sym(n+"."+p.Name(), p.Type()))
		}
		calls = append(calls, k)
	}
	var init []*ai.State
	var vs ai.Val
	for _, o := range e.Call(r.S, r.Fn, r.Args, nil) {
		if o.Panicked {
			c.FailAt("videoNew/panic", o, r.Fn, "may panic: %s", o.Why)
			continue
		}
		if vs != nil {
			panic(ai.Unsupported{Msg: "several ways to make a decoder"})
		}
		vs = o.Vals[0]
		init = append(init, o.S)
	}
	if vs == nil {
		c.Anchor("a new video decoder")
	}
	c.steps("video", init, []ai.Val{vs}, func(s *ai.State) []ai.Outcome {
		var outs []ai.Outcome
		for _, k := range calls {
			t := s.Clone()
			e.RootName = k.fn.Name()
			os := e.Call(t, k.fn, append([]ai.Val{vs}, k.args...), nil)
			if c.Debug {
				fmt.Println("client", k.fn.Name(), len(os))
			}
			for _, o := range os {
				if see != nil {
					see(s, k.fn, o)
				}
			}
			outs = append(outs, os...)
		}
		return outs
	})
}

// headerParsers are the reading functions of the video package that see
// nothing but the bit reader.
func (c *Ctx) headerParsers(a *videoAnchors) (r []*ssa.Function) {
	for _, f := range a.g.reading() {
		if f.Pkg != c.Pkg("video") {
			continue
		}
		ok := false
		for _, p := range f.Params {
			if isBitReader(p.Type()) {
				ok = true
			} else if refType(p.Type()) {
				ok = false
				break
			}
		}
		if ok && !a.g.closure(a.slice)[f] {
			r = append(r, f)
		}
	}
	return
}

// valueParsers are the reading methods of the decoder that use no reference it
// holds but the reader, and store only values.
func (c *Ctx) valueParsers(a *videoAnchors) (r []*ssa.Function) {
	t := c.Named("video", "VideoSequence")
	st := t.Underlying().(*types.Struct)
	below := a.g.closure(a.slice)
	for _, f := range a.g.reading() {
		if f.Pkg != c.Pkg("video") || below[f] || len(f.Params) != 1 || !c.isVS(f.Params[0].Type()) {
			continue
		}
		stored := storedFields(a.g.closure(f), t)
		ok := len(stored) > 0
		for g := range a.g.closure(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if fa, is := in.(*ssa.FieldAddr); is && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), t) {
						ft := st.Field(fa.Field).Type()
						if !isReaderLike(ft) && mayHoldRefs(ft) {
							ok = false
						}
					}
				}
			}
		}
		if ok {
			r = append(r, f)
		}
	}
	return
}

// setters are the functions outside of slice decoding that only write
// something other than the decoder itself.
func (c *Ctx) setters(a *videoAnchors) (r []*ssa.Function) {
	md := a.g.mods()
	below := a.g.closure(a.slice)
	for _, f := range a.g.fns {
		ms := md.sets[f]
		if f.Pkg != c.Pkg("video") || f.Parent() != nil || ms == nil || !ms.ok || len(ms.paths) == 0 || below[f] || a.g.reads[f] || f.Signature.Results().Len() > 0 {
			continue
		}
		vs := false
		for _, p := range f.Params {
			vs = vs || c.isVS(p.Type())
		}
		for _, p := range ms.paths {
			vs = vs || p.kind == "global"
		}
		if !vs {
			r = append(r, f)
		}
	}
	return
}

// stubMods replaces a function by what it may write.
func (c *Ctx) stubMods(a *videoAnchors, f *ssa.Function) {
	ms := a.g.mods().sets[f]
	a.e.FnModels[f] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		if !ms.apply(c, e, s, args, nil, "h:"+f.Name()) {
			panic(ai.Unsupported{Msg: "effects of " + f.String()})
		}
		return []ai.Alt{{S: s, V: ai.Tuple{}}}
	}
}

// stubSlice replaces the slice decoder by what it may do: it moves the stream,
// fails, and writes the fields its functions store to.
func (c *Ctx) stubSlice(a *videoAnchors) {
	c.stubFields(a, a.slice)
}

// stubFields replaces a reading method of the decoder by its contract, which
// includes the fields it may store to.
func (c *Ctx) stubFields(a *videoAnchors, fn *ssa.Function) { c.stubFieldsOf(a, fn, c.havocAround) }

// stubFieldsOf is stubFields with a given effect on what is not the decoder.
func (c *Ctx) stubFieldsOf(a *videoAnchors, fn *ssa.Function, effect func(s *ai.State, p ai.Ptr, t types.Type)) {
	t := c.Named("video", "VideoSequence")
	fields := storedFields(a.g.closure(fn), t)
	var names []string
	for f := range fields {
		names = append(names, f)
	}
	sort.Strings(names)
	c.Sample("fields of the decoder that %s may write: %v", fn, names)
	st := t.Underlying().(*types.Struct)
	c.contractOf(a.e, fn, func(s *ai.State, p ai.Ptr, pt types.Type) {
		if !c.isVS(pt) {
			effect(s, p, pt)
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); fields[f.Name()] && !isReaderLike(f.Type()) {
				s.HavocUnder(p.Obj, p.Path+"."+f.Name(), "slice")
			}
		}
	})
}

// storedFields lists the direct fields of the named struct that functions of
// the set store to, or let escape by address.
func storedFields(fns map[*ssa.Function]bool, t *types.Named) map[string]bool {
	r := map[string]bool{}
	st := t.Underlying().(*types.Struct)
	var used func(v ssa.Value, depth int) bool
	used = func(v ssa.Value, depth int) bool {
		if v.Referrers() == nil || depth > 8 {
			return true
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if used(x, depth+1) {
					return true
				}
			case *ssa.IndexAddr:
				if used(x, depth+1) {
					return true
				}
			case *ssa.Call:
				// methods that only read
				h := x.Call.StaticCallee()
				if h == nil || len(h.Blocks) == 0 {
					return true
				}
				for i, a := range x.Call.Args {
					if a == v && used(h.Params[i], depth+1) {
						return true
					}
				}
			default:
				return true
			}
		}
		return false
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer)
				if !types.Identical(pt.Elem(), t) {
					continue
				}
				if used(fa, 0) {
					r[st.Field(fa.Field).Name()] = true
				}
			}
		}
	}
	return r
}

// crashes judges the obligations that guard against run-time panics.
func (c *Ctx) crashes(e *ai.Engine, what string) {
	if c.crashObls(e, what) == 0 {
		c.Failf("vacuous/"+what, "-", "no obligation arose for %s", what)
	}
}

func (c *Ctx) crashObls(e *ai.Engine, what string) int {
	var keys []ai.OblKey
	for k := range e.Obls {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	n := 0
	for _, k := range keys {
		o := e.Obls[k]
		if strings.HasPrefix(o.Kind, "mon:") || o.Kind == "narrow" || o.Kind == "dropped-error" || isClient(o.Fn) {
			continue
		}
		n++
		if o.Failed {
			c.Failf(fmt.Sprintf("%s/%s/%s", o.Fn, o.Kind, o.Detail), c.P.Where(o.Pos), "%s may fail here: %s %s (%s), while analysing %s", o.Fn, o.Kind, o.Detail, o.Why, what)
		}
	}
	c.Count("panic_obligations", n)
	c.Sample("%s: %d obligations", what, n)
	return n
}

// crashRoot looks for panics of one function that is given anything.
func (c *Ctx) crashRoot(f *ssa.Function) {
	e := c.Engine()
	r := c.Prepare(e, f)
	for i := range r.Args {
		r.Args[i] = NonNil(r.Args[i])
	}
	r.Run()
	c.panics(r.Fn, r.Outs)
	// a function may have nothing that can fail
	c.crashObls(e, f.String())
}

type unit struct {
	name string
	run  func(c *Ctx)
}

// units runs the parts of a check in parallel.
func (c *Ctx) units(us []unit) {
	c.parallelN(len(us), func(c *Ctx, i int) {
		if only := os.Getenv("VERIF_UNIT"); c.Debug && only != "" && only != us[i].name {
			return
		}
		c.Guard(us[i].name, func() {
			t0 := time.Now()
			us[i].run(c)
			if c.Debug {
				fmt.Println(time.Since(t0), us[i].name)
			}
		})
	})
}

func init() {
	needsHarness["X02"] = true
	register("X02", "abstract interpretation over go/ssa with nil, index, slice, conversion and allocation obligations at every instruction, from the exported entry points with unconstrained input", "", func(c *Ctx) {
		c.Rule("from every exported entry point and in every client history: each dereference, index, slice expression, type assertion and make is shown safe for all inputs; no panic is reachable; data-dependent allocations stay below 64 KiB")
		var us []unit
		root := func(f *ssa.Function) {
			us = append(us, unit{f.String(), func(c *Ctx) { c.crashRoot(f) }})
		}
		fn := func(pkg, name string) { root(c.Fn(pkg, name)) }
		method := func(pkg, typ, name string) { root(c.Method(pkg, typ, name)) }
		fn("ts", "NewPacket")
		method("ts", "Packet", "Next")
		fn("pes", "NewPacket")
		method("pes", "Packet", "Next")
		fn("ps", "NewPackHeader")
		seen := map[string]bool{}
		va := c.videoAnchorsOf(c.Engine())
		for _, f := range append(c.setters(va), c.valueParsers(va)...) {
			root(f)
		}
		for _, f := range c.headerParsers(va) {
			seen[f.Name()] = true
			root(f)
		}
		for _, n := range []string{"ReadSequenceHeader", "ReadGOPHeader"} {
			if !seen[n] {
				fn("video", n)
			}
		}
		us = append(us, unit{"video client", func(c *Ctx) {
			e := c.Engine()
			c.videoClient(e, func(s *ai.State, fn *ssa.Function, o ai.Outcome) {
				c.panics(fn, []ai.Outcome{o})
			})
			c.crashes(e, "video client")
		}})
		for _, n := range []string{"demux", "demux0"} {
			us = append(us, unit{n, func(c *Ctx) { c.crashes(c.demuxRun(n).e, n) }})
		}
		us = append(us, unit{"decode", func(c *Ctx) { c.crashes(c.decodeRun().e, "decode") }})
		for _, n := range []string{"tsOnly", "pesOnly", "tsUnits"} {
			us = append(us, unit{n, func(c *Ctx) { c.crashes(c.adapterRun(n).e, n) }})
		}
		for _, n := range []string{"tsPayload", "tsPayloadBoth", "tsUnit", "pesPayload", "psPayload"} {
			us = append(us, unit{n, func(c *Ctx) { c.crashes(c.readerRoot(n).mon.e, n) }})
		}
		c.units(us)
	})
}

func (c *Ctx) panics(fn *ssa.Function, outs []ai.Outcome) {
	for _, o := range outs {
		c.Count("outcome_obligations", 1)
		if o.Panicked {
			c.FailAt("panic/"+fn.Name()+"/"+o.Why, o, fn, "may panic: %s", o.Why)
		}
	}
}
