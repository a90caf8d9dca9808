package checks

import (
	"fmt"
	"go/types"
	"runtime"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// X01. Every function that reads the source and returns an error is analysed on
// its own; the functions it calls are replaced by the contract that is being
// shown: no error means that no read failed.

// readerFields lists the fields through which a structure reads its source.
func isReaderLike(t types.Type) bool {
	if isBitReader(t) {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && n.Obj().Name() == "Reader"
}

// streamOfArgs finds the reader a call has access to.
func (c *Ctx) streamOfArgs(e *ai.Engine, s *ai.State, fn *ssa.Function, args []ai.Val) int {
	for i, a := range args {
		if k := c.streamIn(s, a, fn.Params[i].Type()); k >= 0 {
			return k
		}
	}
	for _, a := range args {
		if k := e.StreamOfVal(s, a); k >= 0 {
			return k
		}
	}
	return -1
}

// contract replaces a reading function by its contract.
func (c *Ctx) contract(e *ai.Engine, fn *ssa.Function) { c.contractOf(e, fn, c.havocAround) }

// contractOf is contract with a given effect on what pointer arguments refer to.
func (c *Ctx) contractOf(e *ai.Engine, fn *ssa.Function, effect func(s *ai.State, p ai.Ptr, t types.Type)) {
	rs := fn.Signature.Results()
	ei := ErrIdx(fn)
	e.FnModels[fn] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		id := c.streamOfArgs(e, s, fn, args)
		if id < 0 {
			panic(ai.Unsupported{Msg: "no reader in the call of " + fn.String()})
		}
		e.Forget(s, id)
		for i, a := range args {
			p, ok := a.(ai.Ptr)
			if !ok || p.Obj == 0 {
				continue
			}
			effect(s, p, fn.Params[i].Type())
		}
		f, err := e.FailOp(s, site.Parent(), site.Pos(), id, fn.Name())
		ret := func(s *ai.State, err ai.Val) ai.Val {
			var t ai.Tuple
			for i := 0; i < rs.Len(); i++ {
				if i == ei {
					t = append(t, err)
					continue
				}
				v := s.Sym(fmt.Sprintf("ret:%s~%d", fn.Name(), e.FreshID()), rs.At(i).Type())
				if ai.IsOK(err) {
					if _, ok := rs.At(i).Type().Underlying().(*types.Pointer); ok {
						v = NonNil(v)
					}
				}
				t = append(t, v)
			}
			if len(t) == 1 {
				return t[0]
			}
			return t
		}
		good, bad := ret(s, ai.Iface{Nil: ai.Const(1)}), ret(f, err)
		res, ok := good.(ai.Tuple)
		if !ok {
			res = ai.Tuple{good}
		}
		s.Emit(ai.Event{Kind: "stub", Pos: site.Pos(), Fn: site.Parent(), Name: fn.Name(), Callee: fn, Args: args, Res: res, Stream: id})
		return []ai.Alt{{S: s, V: good}, {S: f, V: bad}}
	}
}

// havocAround forgets what p points to, except for the readers in it.
func (c *Ctx) havocAround(s *ai.State, p ai.Ptr, t types.Type) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		s.HavocUnder(p.Obj, p.Path, "call")
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); !isReaderLike(f.Type()) {
			s.HavocUnder(p.Obj, p.Path+"."+f.Name(), "call")
		}
	}
}

// reading lists the named functions of a package that read a source and
// return an error.
func (g *graph) reading() (r []*ssa.Function) {
	for _, f := range g.fns {
		if g.reads[f] && f.Parent() == nil && ErrIdx(f) >= 0 {
			r = append(r, f)
		}
	}
	return
}

// retains says whether the receiver keeps an error for later.
func retains(e *ai.Engine, s *ai.State, p ai.Ptr, pend *ai.Pending) bool {
	found := false
	if p.Obj == 0 || !s.Existing(p.Obj) {
		return false
	}
	e.EachCell(s, p.Obj, func(path string, v ai.Val) {
		if f, ok := v.(ai.Iface); ok {
			if ev, ok := f.V.(*ai.ErrVal); ok && ev.Src == pend && IsNil(s, f) == ai.False {
				found = true
			}
		}
	})
	return found
}

// flow is what the root of one reading function showed.
type flow struct {
	fn     *ssa.Function
	direct bool                     // every success consumes input itself
	via    []map[*ssa.Function]bool // else: the callees called on each such path
	e      *ai.Engine
}

// consumes says whether the events since stop consume input, or else which
// reading functions were called.
func consumes(s *ai.State, stop *ai.Event) (bool, map[*ssa.Function]bool) {
	m := map[*ssa.Function]bool{}
	for _, ev := range s.Events(stop) {
		switch ev.Kind {
		case "consume", "vlc", "packet":
			if ev.From != nil && ev.To != nil {
				if lo, _ := s.Range(ev.To.Sub(ev.From)); lo >= 1 {
					return true, nil
				}
			}
		case "stub":
			if ev.Callee != nil {
				m[ev.Callee] = true
			}
		}
	}
	return false, m
}

// readingAll lists the reading functions of the repository.
func (c *Ctx) readingAll() (map[string]*graph, []*ssa.Function) {
	base := c.Engine()
	gs := map[string]*graph{}
	var all []*ssa.Function
	for _, p := range repoPkgs {
		gs[p] = c.Graph(base, nil, p)
		fs := gs[p].reading()
		if len(fs) == 0 {
			c.Failf("vacuous/"+p, "-", "no reading function in package %s", p)
		}
		all = append(all, fs...)
	}
	return gs, all
}

var repoPkgs = []string{"ts", "pes", "ps", "video"}

// flows analyses every reading function on its own. An internal helper that
// cannot be judged apart from its callers is judged as part of them; it has
// no result then.
func (c *Ctx) flows(all []*ssa.Function, see func(c *Ctx, r *Root)) []*flow {
	var apart []*ssa.Function
	for _, f := range all {
		if !callsBack(f) || !c.internal(f) {
			apart = append(apart, f)
		}
	}
	for pass := 0; ; pass++ {
		sub := c.child()
		res, bad := sub.flowsOf(apart, see)
		inner := map[*ssa.Function]bool{}
		for f := range bad {
			if pass < 4 && c.internal(f) && size(f, map[*ssa.Function]bool{}) < 1200 {
				inner[f] = true
			}
		}
		// the innermost first
		for f := range inner {
			for g := range inner {
				if f != g && reaches(f, g) && !reaches(g, f) {
					delete(inner, f)
					break
				}
			}
		}
		if c.Debug {
			for f := range bad {
				fmt.Println("not judged apart:", f, inner[f])
			}
		}
		if len(inner) == 0 {
			c.adopt(sub)
			full := make([]*flow, len(all))
			for i, f := range all {
				for k, g := range apart {
					if f == g {
						full[i] = res[k]
					}
				}
			}
			return full
		}
		var rest []*ssa.Function
		for _, f := range apart {
			if !inner[f] {
				rest = append(rest, f)
			}
		}
		apart = rest
	}
}

// callees lists the functions a function calls by name.
func callees(fn *ssa.Function) (r []*ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil {
					r = append(r, f)
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		r = append(r, a)
		r = append(r, callees(a)...)
	}
	return
}

func reaches(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, h := range callees(f) {
			if h == g {
				return true
			}
			if !seen[h] && len(h.Blocks) > 0 && h.Pkg == g.Pkg {
				seen[h] = true
				if walk(h) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// size counts the instructions of a function and of what it calls in its package.
func size(f *ssa.Function, seen map[*ssa.Function]bool) (n int) {
	if seen[f] {
		return 0
	}
	seen[f] = true
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	for _, g := range callees(f) {
		if g.Pkg == f.Pkg {
			n += size(g, seen)
		}
	}
	return
}

// callsBack says whether a function reads through functions it is given, or
// writes what a list it is given points to: a contract describes neither.
func callsBack(fn *ssa.Function) bool {
	var holds func(t types.Type, depth int) bool
	holds = func(t types.Type, depth int) bool {
		if isReaderLike(t) {
			return true
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		for i := 0; ok && depth < 3 && i < st.NumFields(); i++ {
			if holds(st.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	var points func(t types.Type) bool
	points = func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return true
		case *types.Slice:
			return points(u.Elem())
		case *types.Array:
			return points(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if points(u.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	reader := false
	for _, p := range fn.Params {
		reader = reader || holds(p.Type(), 0)
		if s, ok := p.Type().Underlying().(*types.Slice); ok && points(s.Elem()) {
			return true
		}
	}
	return !reader
}

// internal says whether all uses of a function are plain calls in its package.
func (c *Ctx) internal(fn *ssa.Function) bool {
	if fn.Object() == nil || fn.Object().Exported() || fn.Pkg == nil {
		return false
	}
	n := 0
	var in func(f *ssa.Function) bool
	in = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, _ := in.(*ssa.Call)
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					if call == nil || op != &call.Call.Value {
						return false
					}
					n++
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if !in(a) {
				return false
			}
		}
		return true
	}
	for _, f := range c.funcs(fn.Pkg) {
		if !in(f) {
			return false
		}
	}
	return n > 0
}

func (c *Ctx) flowsOf(all []*ssa.Function, see func(c *Ctx, r *Root)) ([]*flow, map[*ssa.Function]bool) {
	res := make([]*flow, len(all))
	bad := map[*ssa.Function]bool{}
	var mu sync.Mutex
	at := map[*ssa.Function]int{}
	for i, f := range all {
		at[f] = i
	}
	c.parallel(all, func(c *Ctx, fn *ssa.Function) {
		sub := c.child()
		var f *flow
		sub.Guard(fn.String(), func() { f = sub.flowOf(fn, all, nil, see) })
		if len(sub.Fails) > 0 {
			// with its small helpers as they are
			leaf := map[*ssa.Function]bool{}
			for _, h := range callees(fn) {
				if _, ok := at[h]; !ok || !c.internal(h) || size(h, map[*ssa.Function]bool{}) > 300 {
					continue
				}
				leaf[h] = true
				for g := range at {
					if g != h && reaches(h, g) {
						delete(leaf, h)
					}
				}
			}
			if len(leaf) > 0 {
				again := c.child()
				var f2 *flow
				again.Guard(fn.String(), func() { f2 = again.flowOf(fn, all, leaf, see) })
				if len(again.Fails) == 0 {
					sub, f = again, f2
				}
			}
		}
		if len(sub.Fails) > 0 {
			mu.Lock()
			bad[fn] = true
			mu.Unlock()
		}
		c.adopt(sub)
		res[at[fn]] = f
	})
	return res, bad
}

func (c *Ctx) flowOf(fn *ssa.Function, all []*ssa.Function, inline map[*ssa.Function]bool, see func(c *Ctx, r *Root)) *flow {
	e := c.Engine()
	e.PreciseExits = false
	for _, h := range all {
		if h != fn && !inline[h] {
			c.contract(e, h)
		}
	}
	e.Merge = func(f *ssa.Function) ai.MergeMode { return ai.MergeSame }
	if fn.Pkg == c.Pkg("video") {
		c.videoAnchorsOf(e).stubPixels(c)
	}
	r := c.Prepare(e, fn)
	for i := range fn.Params {
		r.Args[i] = NonNil(r.Args[i])
	}
	t0 := time.Now()
	r.Run()
	if c.Debug && time.Since(t0) > time.Second {
		fmt.Println(time.Since(t0), fn)
	}
	if see != nil {
		see(c, r)
	}
	f := &flow{fn: fn, direct: true}
	ei := ErrIdx(fn)
	for _, o := range r.Outs {
		if o.Panicked {
			continue
		}
		for _, x := range splitNil(o, ei) {
			if IsNil(x.S, x.Vals[ei]) == ai.False {
				continue
			}
			if ok, via := consumes(x.S, nil); !ok {
				f.direct = false
				f.via = append(f.via, via)
			}
		}
	}
	f.e = e
	return f
}

// errorFlow judges the failing paths of one reading function.
func errorFlow(c *Ctx, r *Root) {
	e, fn := r.E, r.Fn
	name := fn.String()
	ei := ErrIdx(fn)
	regular := func(s *ai.State, p *ai.Pending) bool {
		return p.Op == "ReadAll" && p.Kind != nil && s.Decide(Eq(p.Kind, e.ErrKind("ts.EOP"))) == ai.True
	}
	for _, o := range r.Outs {
		if o.Panicked || len(o.S.Pend) == 0 {
			continue
		}
		for _, x := range splitNil(o, ei) {
			v, _ := x.Vals[ei].(ai.Iface)
			c.Count("failure_obligations", 1)
			if IsNil(x.S, v) != ai.False {
				for _, p := range x.S.Pend {
					if regular(x.S, p) {
						continue
					}
					if a, ok := r.Args[0].(ai.Ptr); ok && fn.Signature.Recv() != nil && retains(e, x.S, a, p) {
						continue
					}
					c.FailAt("swallowed/"+name+"/"+p.Op, x, fn, "%s at %s fails, yet success is reported", p.Op, c.P.Where(p.Pos))
				}
				continue
			}
			ev, _ := v.V.(*ai.ErrVal)
			ok := false
			for _, p := range x.S.Pend {
				switch {
				case regular(x.S, p), ev != nil && ev.Src == p:
					ok = true
				case ev != nil && ev.Kind != nil && x.S.Decide(Eq(ev.Kind, ai.KindUEOF)) == ai.True && p.Kind != nil && x.S.Decide(Eq(p.Kind, ai.KindEOF)) == ai.True:
					ok = true
				}
			}
			if !ok {
				p := x.S.Pend[0]
				c.FailAt("replaced/"+name+"/"+p.Op, x, fn, "%s at %s fails, and another error is reported", p.Op, c.P.Where(p.Pos))
			}
		}
	}
	c.failedLoops(e, name)
	for _, ob := range e.Obls {
		if ob.Kind == "dropped-error" && ob.Failed {
			c.Failf("dropped/"+ob.Fn.String()+"/"+ob.Detail, c.P.Where(ob.Pos), "%s: %s", ob.Fn, ob.Why)
		}
	}
}

// failedLoops: no loop goes on after a failed read.
func (c *Ctx) failedLoops(e *ai.Engine, name string) {
	for _, l := range e.Loops {
		for i, b := range l.Backs {
			c.Count("loop_obligations", 1)
			if len(b.Pend) > len(l.Head.Pend) {
				p := b.Pend[len(b.Pend)-1]
				c.Failf("continued/"+name+"/"+l.Fn.Name()+"/"+p.Op, c.P.Where(l.BackPos[i]), "%s: %s at %s fails, and the loop goes on", l.Fn, p.Op, c.P.Where(p.Pos))
			}
		}
	}
}

// splitNil makes the nil-ness of the error of an outcome definite.
func splitNil(o ai.Outcome, ei int) (r []ai.Outcome) {
	if IsNil(o.S, o.Vals[ei]) != ai.Unknown {
		return []ai.Outcome{o}
	}
	n := NilOf(o.Vals[ei])
	for _, op := range []ai.CmpOp{ai.NE, ai.EQ} {
		x := o
		x.S = o.S.Clone()
		if x.S.Assume(ai.Cmp{Op: op, L: n}) {
			r = append(r, x)
		}
	}
	return
}

// parallel runs f for every function, each on a context of its own.
func (c *Ctx) parallel(fns []*ssa.Function, f func(c *Ctx, fn *ssa.Function)) {
	c.parallelN(len(fns), func(c *Ctx, i int) {
		c.Guard(fns[i].String(), func() { f(c, fns[i]) })
	})
}

// parallelN runs f for 0..n-1, each on a context of its own.
func (c *Ctx) parallelN(n int, f func(c *Ctx, i int)) {
	subs := make([]*Ctx, n)
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := range subs {
		subs[i] = c.child()
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f(subs[i], i)
		}()
	}
	wg.Wait()
	for _, s := range subs {
		c.adopt(s)
	}
}

func init() {
	needsHarness["X01"] = true
	register("X01", "path-sensitive error-flow analysis (abstract interpretation over go/ssa), one root per reading function with its callees replaced by the contract being shown", "", func(c *Ctx) {
		c.Rule("on every path with a failed read the function returns that error (or io.ErrUnexpectedEOF for io.EOF); no loop goes on after a failed read")
		gs, all := c.readingAll()
		c.flows(all, errorFlow)
		for _, n := range []string{"demux", "demux0"} {
			c.Guard(n, func() { c.demuxRun(n).report(n, "T08") })
		}
		c.Guard("decode", func() { c.decodeRun().report("decode", "S02 result", "S02 pack error") })
		for _, n := range []string{"tsPayload", "tsPayloadBoth", "tsUnit", "pesPayload", "psPayload"} {
			c.Guard(n, func() { c.readerObls(c.readerRoot(n), "X01", "T11 source", "T12 last") })
		}
		for _, p := range repoPkgs {
			for _, f := range gs[p].fns {
				if gs[p].reads[f] {
					c.Count("reading_functions", 1)
					if !c.visited(f) {
						c.Failf("undecided/"+f.String(), c.P.Where(f.Pos()), "%s reads the source but is reached by no analysed root", f)
					}
				}
			}
		}
	})
}
