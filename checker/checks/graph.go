package checks

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// graph is a static call graph of the repository: direct calls, calls of
// function values resolved through interpreted package variables where they
// are constant, and otherwise by signature.
type graph struct {
	c     *Ctx
	e     *ai.Engine
	s     *ai.State
	fns   []*ssa.Function
	taken map[*ssa.Function]bool
	calls map[*ssa.Function][]callEdge
	// variable length code tables reached
	reach map[*ssa.Function]map[string]bool
	reads map[*ssa.Function]bool
	roles map[int]string
}

type callEdge struct {
	site ssa.CallInstruction
	fn   *ssa.Function
	vlc  []string // for closures over a decoder: its tables
}

// inst is a function value with the tables its captured decoders use.
type inst struct {
	fn  *ssa.Function
	vlc []string
}

// Graph builds the call graph over the given packages.
func (c *Ctx) Graph(e *ai.Engine, roles map[int]string, pkgs ...string) *graph {
	g := &graph{c: c, e: e, s: e.NewState(), taken: map[*ssa.Function]bool{}, calls: map[*ssa.Function][]callEdge{}, reach: map[*ssa.Function]map[string]bool{}, reads: map[*ssa.Function]bool{}, roles: roles}
	var all func(f *ssa.Function)
	all = func(f *ssa.Function) {
		g.fns = append(g.fns, f)
		for _, a := range f.AnonFuncs {
			all(a)
		}
	}
	for _, p := range pkgs {
		for _, f := range c.funcs(c.Pkg(p)) {
			all(f)
		}
		if in := c.Pkg(p).Func("init"); in != nil {
			for _, a := range in.AnonFuncs {
				all(a)
			}
		}
	}
	var ops []*ssa.Value
	for _, f := range g.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, _ := in.(ssa.CallInstruction)
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if o == nil {
						continue
					}
					if h, ok := (*o).(*ssa.Function); ok {
						if cl != nil && *o == cl.Common().Value {
							continue
						}
						g.taken[h] = true
					}
				}
			}
		}
	}
	// function values in package variables
	var insts []inst
	for _, p := range pkgs {
		for _, m := range c.Pkg(p).Members {
			if gl, ok := m.(*ssa.Global); ok {
				insts = append(insts, g.instsIn(e.GlobalObj(gl), "")...)
			}
		}
	}
	for _, f := range g.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := cl.Common()
				if cm.IsInvoke() {
					switch {
					case isBitReader(cm.Value.Type()):
						g.reads[f] = true
					case cm.Method.Name() == "Decode":
						g.reads[f] = true
						for _, r := range g.tablesOf(cm.Value) {
							g.note(f, r)
						}
					}
					continue
				}
				if h := cm.StaticCallee(); h != nil {
					if len(h.Params) > 0 && isBitReader(h.Params[0].Type()) && h.Synthetic != "" {
						g.reads[f] = true // a bound or thunk
					}
					if h.Synthetic != "" {
						// promoted method of an embedded reader
						if c.wrapsReader(h) {
							g.reads[f] = true
						}
					}
					g.calls[f] = append(g.calls[f], callEdge{site: cl, fn: h})
					continue
				}
				if _, ok := cm.Value.(*ssa.Builtin); ok {
					continue
				}
				// constant package variable?
				if obj, path, ok := g.globalPath(cm.Value); ok {
					if is := g.instsIn(obj, path); len(is) > 0 {
						for _, i := range is {
							g.calls[f] = append(g.calls[f], callEdge{cl, i.fn, i.vlc})
						}
						continue
					}
				}
				sig, _ := cm.Value.Type().Underlying().(*types.Signature)
				seen := map[*ssa.Function]bool{}
				for _, i := range insts {
					if sig != nil && types.Identical(i.fn.Signature, sig) {
						g.calls[f] = append(g.calls[f], callEdge{cl, i.fn, i.vlc})
						seen[i.fn] = true
					}
				}
				for h := range g.taken {
					if sig != nil && !seen[h] && types.Identical(h.Signature, sig) {
						g.calls[f] = append(g.calls[f], callEdge{site: cl, fn: h})
					}
				}
			}
		}
	}
	// closures run where they are made, at the latest
	for ch := true; ch; {
		ch = false
		for _, f := range g.fns {
			for _, ce := range g.calls[f] {
				if g.reads[ce.fn] && !g.reads[f] {
					g.reads[f], ch = true, true
				}
				for _, v := range ce.vlc {
					ch = g.note(f, v) || ch
				}
				for v := range g.reach[ce.fn] {
					ch = g.note(f, v) || ch
				}
			}
		}
	}
	return g
}

func (c *Ctx) wrapsReader(h *ssa.Function) bool {
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok && cl.Common().IsInvoke() && isBitReader(cl.Common().Value.Type()) {
				return true
			}
		}
	}
	return false
}

func (g *graph) note(f *ssa.Function, r string) bool {
	if g.reach[f] == nil {
		g.reach[f] = map[string]bool{}
	}
	if g.reach[f][r] {
		return false
	}
	g.reach[f][r] = true
	return true
}

// globalPath resolves an address or loaded value to a package variable.
func (g *graph) globalPath(v ssa.Value) (int, string, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		return g.globalPath(x.X)
	case *ssa.Global:
		return g.e.GlobalObj(x), "", true
	case *ssa.FieldAddr:
		o, p, ok := g.globalPath(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return o, p + "." + st.Field(x.Field).Name(), ok
	case *ssa.Field:
		o, p, ok := g.globalPath(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		return o, p + "." + st.Field(x.Field).Name(), ok
	case *ssa.IndexAddr:
		return g.globalPath(x.X) // any element
	}
	return 0, "", false
}

// instsIn lists the function values stored under a path of an object.
func (g *graph) instsIn(obj int, path string) []inst {
	var r []inst
	g.e.EachCell(g.s, obj, func(p string, v ai.Val) {
		if !strings.HasPrefix(p, path) {
			return
		}
		if f, ok := v.(ai.Func); ok && f.Fn != nil {
			i := inst{fn: f.Fn}
			for _, b := range f.Bind {
				i.vlc = append(i.vlc, g.tablesIn(b, 0)...)
			}
			r = append(r, i)
		}
	})
	return r
}

// tablesIn lists the code tables reachable from a value.
func (g *graph) tablesIn(v ai.Val, depth int) []string {
	if depth > 4 {
		return nil
	}
	switch x := v.(type) {
	case ai.Iface:
		return g.tablesIn(x.V, depth)
	case ai.Ptr:
		if x.Obj == 0 {
			return nil
		}
		if r, ok := g.roles[x.Obj]; ok {
			return []string{r}
		}
		var r []string
		g.e.EachCell(g.s, x.Obj, func(p string, v ai.Val) {
			r = append(r, g.tablesIn(v, depth+1)...)
		})
		return r
	case ai.Func:
		var r []string
		for _, b := range x.Bind {
			r = append(r, g.tablesIn(b, depth+1)...)
		}
		return r
	}
	return nil
}

// tablesOf lists the tables a decoder operand may be; captured decoders are
// accounted for at the closure value.
func (g *graph) tablesOf(v ssa.Value) []string {
	if obj, path, ok := g.globalPath(v); ok {
		var r []string
		g.e.EachCell(g.s, obj, func(p string, v ai.Val) {
			if strings.HasPrefix(p, path) {
				r = append(r, g.tablesIn(v, 0)...)
			}
		})
		return r
	}
	if ph, ok := v.(*ssa.Phi); ok {
		var r []string
		for _, e := range ph.Edges {
			if e != v {
				r = append(r, g.tablesOf(e)...)
			}
		}
		return r
	}
	return nil
}

// callers lists the functions that call f directly.
func (g *graph) callers(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, h := range g.fns {
		for _, ce := range g.calls[h] {
			if ce.fn == f {
				r = append(r, h)
				break
			}
		}
	}
	return r
}

// closure lists the functions reachable from f (f included).
func (g *graph) closure(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		h := work[0]
		work = work[1:]
		for _, ce := range g.calls[h] {
			if !seen[ce.fn] {
				seen[ce.fn] = true
				work = append(work, ce.fn)
			}
		}
	}
	return seen
}

// innermost finds the functions that satisfy want while none of the functions
// they call does.
func (g *graph) innermost(want func(f *ssa.Function) bool) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range g.fns {
		if !want(f) {
			continue
		}
		ok := true
		for _, ce := range g.calls[f] {
			if ce.fn != f && want(ce.fn) {
				ok = false
			}
		}
		if ok {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// outermost finds the functions that satisfy want and have no caller that does.
func (g *graph) outermost(want func(f *ssa.Function) bool) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range g.fns {
		if !want(f) {
			continue
		}
		ok := true
		for _, h := range g.callers(f) {
			if h != f && want(h) {
				ok = false
			}
		}
		if ok {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// uses says whether f refers to the package variable.
func uses(f *ssa.Function, gl *ssa.Global) bool {
	var ops []*ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if o != nil && *o == ssa.Value(gl) {
					return true
				}
			}
		}
	}
	return false
}

// reaches says whether f or something it calls satisfies want.
func (g *graph) reaches(f *ssa.Function, want func(f *ssa.Function) bool) bool {
	for h := range g.closure(f) {
		if want(h) {
			return true
		}
	}
	return false
}

// One expects exactly one function.
func (c *Ctx) One(fs []*ssa.Function, what string) *ssa.Function {
	if len(fs) != 1 {
		var n []string
		for _, f := range fs {
			n = append(n, f.String())
		}
		if c.Debug {
			println(what, strings.Join(n, ", "))
		}
		c.Anchor(what)
	}
	return fs[0]
}
