package checks

import (
	"sort"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// Malformed slices (V18). Whatever goes wrong below the slice decoder, a
// function between it and the caller of the package has to turn into an error:
// it defers a call that recovers before it decodes any slice.

type barrier struct {
	c       *Ctx
	g       *graph
	callers map[*ssa.Function][]callEdge // edges with the caller in fn
	open    map[*ssa.Function]*ssa.Function
	guards  map[*ssa.Function]bool
}

const slicePanic = "decoding a slice"

// defers: the function defers a call.
func defers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

// guard follows a function whose callees may panic, and says whether no panic
// leaves it.
func (b *barrier) guard(f *ssa.Function, bad map[*ssa.Function]bool) bool {
	c := b.c
	if !defers(f) {
		return false
	}
	a := c.videoAnchors()
	e := a.e
	for _, x := range a.g.calls[f] {
		if _, ok := x.site.(*ssa.Defer); ok || !c.P.InRepo(x.fn) || e.FnModels[x.fn] != nil {
			continue
		}
		if ErrIdx(x.fn) < 0 || len(x.fn.Params) == 0 || !c.isVS(x.fn.Params[0].Type()) {
			continue
		}
		c.stubFields(a, x.fn)
	}
	calls := 0
	for h := range bad {
		inner := e.FnModels[h]
		if inner == nil {
			c.contract(e, h)
			inner = e.FnModels[h]
		}
		e.FnModels[h] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
			calls++
			p := s.Clone()
			return append(inner(e, s, site, args), ai.Alt{S: p, Panicked: true, Why: slicePanic})
		}
	}
	r := c.Prepare(e, f)
	for i := range r.Args {
		r.Args[i] = NonNil(r.Args[i])
	}
	e.Merge, e.Peel = nil, everyLoop
	r.Run()
	if calls == 0 {
		return false
	}
	ok := true
	for _, o := range r.Outs {
		c.Count("path_obligations", 1)
		after := ""
		for _, ev := range o.S.Events(nil) {
			if ev.Kind == "recovered" || ev.Kind == "recover" && after == "" {
				after = "recovered " + ev.Name
			}
		}
		if o.Panicked {
			if o.Why == slicePanic || after != "" {
				ok = false
			}
			continue
		}
		suc := Succeeded(o, f)
		if after != "" {
			if suc != ai.False {
				c.FailAt("swallowed", o, f, "a panic (%s) is not reported as an error", after)
			}
			continue
		}
		if suc != ai.True {
			continue
		}
		for i, v := range o.Vals {
			if p, isPtr := v.(ai.Ptr); isPtr && i != ErrIdx(f) {
				if o.S.Decide(ai.Cmp{Op: ai.EQ, L: p.Nil}) != ai.True {
					c.FailAt("nothing", o, f, "returns neither a picture nor an error")
				}
			}
		}
	}
	return ok
}

func (c *Ctx) sliceBarrier() {
	a := c.videoAnchors()
	g := a.g
	b := &barrier{c: c, g: g, callers: map[*ssa.Function][]callEdge{}, open: map[*ssa.Function]*ssa.Function{a.slice: nil}, guards: map[*ssa.Function]bool{}}
	for _, f := range g.fns {
		for _, x := range g.calls[f] {
			b.callers[x.fn] = append(b.callers[x.fn], callEdge{site: x.site, fn: f})
		}
	}
	// a closure is called where its function says
	for _, f := range g.fns {
		if p := f.Parent(); p != nil {
			b.callers[f] = append(b.callers[f], callEdge{fn: p})
		}
	}
	exported := func(f *ssa.Function) bool {
		o := f.Object()
		return o != nil && o.Exported() && f.Parent() == nil
	}
	if defers(a.slice) {
		// the slice decoder itself recovers from what it calls
		direct := map[*ssa.Function]bool{}
		for _, x := range g.calls[a.slice] {
			if g.closure(x.fn)[a.mb] {
				direct[x.fn] = true
			}
		}
		c.Count("function_obligations", 1)
		if len(direct) > 0 && b.guard(a.slice, direct) {
			b.guards[a.slice] = true
			delete(b.open, a.slice)
			c.Sample("panics below %s end there", a.slice)
		}
	}
	for ch := len(b.open) > 0; ch; {
		ch = false
		bad := map[*ssa.Function]bool{}
		var todo []*ssa.Function
		for f := range b.open {
			bad[f] = true
			for _, x := range b.callers[f] {
				if _, ok := b.open[x.fn]; !ok {
					todo = append(todo, x.fn)
				}
			}
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].String() < todo[j].String() })
		for _, f := range todo {
			if b.guards[f] {
				continue
			}
			if _, ok := b.open[f]; ok {
				continue
			}
			ch = true
			c.Count("function_obligations", 1)
			direct := map[*ssa.Function]bool{}
			var via *ssa.Function
			for _, x := range g.calls[f] {
				if bad[x.fn] {
					direct[x.fn] = true
					via = x.fn
				}
			}
			var ok bool
			if via != nil {
				ok = b.guard(f, direct)
			}
			if ok {
				b.guards[f] = true
				c.Sample("panics below %s end there", f)
				continue
			}
			b.open[f] = via
		}
	}
	var fs []*ssa.Function
	for f := range b.open {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		if exported(f) || g.taken[f] {
			path := f.String()
			for h := b.open[f]; h != nil; h = b.open[h] {
				path += " -> " + h.String()
			}
			c.Failf("unguarded/"+f.String(), c.P.Where(f.Pos()), "a panic while a slice is decoded leaves %s: no function of %s recovers", f, path)
		}
	}
	if len(b.guards) == 0 && len(b.open) > 0 {
		c.Failf("unguarded", c.P.Where(a.slice.Pos()), "no function above %s recovers from what malformed slices cause", a.slice)
	}
	// what no recover stops
	under := g.closure(a.slice)
	for f := range b.guards {
		for h := range g.closure(f) {
			under[h] = true
		}
	}
	fs = fs[:0]
	for f := range under {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		c.Count("function_obligations", 1)
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					c.Failf("goroutine/"+f.String(), c.P.Where(x.Pos()), "%s: a panic in a goroutine ends the program", f)
				case ssa.CallInstruction:
					h := x.Common().StaticCallee()
					if h == nil || h.Pkg == nil {
						continue
					}
					switch n := h.Pkg.Pkg.Path() + "." + h.Name(); n {
					case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "syscall.Exit":
						c.Failf("exit/"+f.String(), c.P.Where(x.Pos()), "%s: %s ends the program", f, n)
					}
				}
			}
		}
	}
}

func init() {
	needsHarness["V18"] = true
	register("V18", "call graph reachability over go/ssa with abstract interpretation of the recovering functions: every way from an exported function to the slice decoder passes one that turns a panic into an error", "", func(c *Ctx) {
		c.Rule("every call path from an exported function of the package to the slice decoder goes through a function that defers a recovering call before it; when its callee panics it returns an error, and without one it returns a picture; nothing below it starts goroutines or ends the program; whatever a slice leaves behind, nothing the decoder does around slices can panic")
		us := []unit{
			{"panics below the slice decoder", func(c *Ctx) { c.sliceBarrier() }},
			{"the decoder around the slices", func(c *Ctx) {
				e := c.Engine()
				c.videoClient(e, func(s *ai.State, fn *ssa.Function, o ai.Outcome) {
					c.panics(fn, []ai.Outcome{o})
				})
				c.crashes(e, "the decoder around the slices")
			}},
		}
		for _, f := range c.setters(c.videoAnchorsOf(c.Engine())) {
			us = append(us, unit{f.String(), func(c *Ctx) { c.crashRoot(f) }})
		}
		c.units(us)
	})
}
