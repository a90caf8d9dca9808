package checks

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// Which memory a function may write, as access paths from its parameters,
// captured variables and package variables (flow insensitive).

type modStep struct {
	op   string // ".f", "[]", "*"
	name string
	t    types.Type // "*": the type of the loaded pointer or slice
	n    int64      // "[]": the length of an array, 0 for a slice
}

type modPath struct {
	kind  string // "param", "free", "global"
	idx   int
	gl    *ssa.Global
	steps []modStep
	elem  types.Type // type of what is written
}

func (m modPath) key() string {
	s := m.kind + string(rune('0'+m.idx))
	if m.gl != nil {
		s += m.gl.Name()
	}
	for _, st := range m.steps {
		s += st.op + st.name
	}
	return s
}

func (m modPath) with(st ...modStep) modPath {
	m.steps = append(append([]modStep(nil), m.steps...), st...)
	return m
}

type modSet struct {
	paths []modPath
	seen  map[string]bool
	ok    bool
	why   string
}

func (m *modSet) add(p modPath) bool {
	if len(p.steps) > 12 {
		m.fail("deep access path")
		return false
	}
	k := p.key()
	if m.seen[k] {
		return false
	}
	m.seen[k] = true
	m.paths = append(m.paths, p)
	return true
}

func (m *modSet) fail(why string) {
	if m.ok {
		m.ok, m.why = false, why
	}
}

var pureExternals = map[string]bool{
	"image": true, "math": true, "math/bits": true, "errors": true, "fmt": true, "image/color": true,
}

type modder struct {
	g    *graph
	sets map[*ssa.Function]*modSet
}

// mods computes the sets for every function of the graph.
func (g *graph) mods() *modder {
	m := &modder{g: g, sets: map[*ssa.Function]*modSet{}}
	for _, f := range g.fns {
		m.sets[f] = &modSet{seen: map[string]bool{}, ok: true}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range g.fns {
			if m.pass(f) {
				ch = true
			}
		}
	}
	return m
}

func (m *modder) pass(f *ssa.Function) bool {
	set := m.sets[f]
	n, ok := len(set.paths), set.ok
	write := func(addr ssa.Value, elem bool, t types.Type) {
		if localVar(addr) {
			return
		}
		ls, known := m.loc(f, addr)
		if !known {
			set.fail("store through an address of unknown origin")
			return
		}
		for _, l := range ls {
			if elem {
				l = l.with(modStep{op: "[]"})
			}
			l.elem = t
			set.add(l)
		}
	}
	edges := map[ssa.CallInstruction][]callEdge{}
	for _, ce := range m.g.calls[f] {
		edges[ce.site] = append(edges[ce.site], ce)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				write(x.Addr, false, x.Val.Type())
			case *ssa.MapUpdate:
				write(x.Map, true, x.Value.Type())
			case *ssa.Send:
				set.fail("sends on a channel")
			case *ssa.Go:
				set.fail("starts a goroutine")
			case ssa.CallInstruction:
				cm := x.Common()
				if bi, isb := cm.Value.(*ssa.Builtin); isb {
					switch bi.Name() {
					case "copy", "append", "clear":
						if st, isSlice := cm.Args[0].Type().Underlying().(*types.Slice); isSlice {
							write(cm.Args[0], true, st.Elem())
						}
					case "close", "delete":
						set.fail("builtin " + bi.Name())
					}
					continue
				}
				if cm.IsInvoke() {
					set.fail("calls an interface method")
					continue
				}
				es := edges[x]
				if len(es) == 0 {
					set.fail("calls an unknown function")
					continue
				}
				for _, ce := range es {
					h := ce.fn
					cs := m.sets[h]
					if cs == nil {
						if h.Pkg != nil && pureExternals[h.Pkg.Pkg.Path()] {
							continue
						}
						set.fail("calls " + h.String())
						continue
					}
					if !cs.ok {
						set.fail(cs.why)
					}
					for _, p := range cs.paths {
						switch p.kind {
						case "global":
							set.add(p)
						case "param":
							if p.idx >= len(cm.Args) {
								set.fail("argument mismatch")
								continue
							}
							ls, known := m.locAt(f, cm.Args[p.idx], p.steps)
							if !known {
								set.fail("passes memory of unknown origin to " + h.String())
								continue
							}
							for _, l := range ls {
								q := l
								q.elem = p.elem
								set.add(q)
							}
						case "free":
							mc, isMC := cm.Value.(*ssa.MakeClosure)
							if !isMC || p.idx >= len(mc.Bindings) {
								set.fail("calls a closure")
								continue
							}
							ls, known := m.locAt(f, mc.Bindings[p.idx], p.steps)
							if !known {
								set.fail("captures memory of unknown origin")
								continue
							}
							for _, l := range ls {
								q := l
								q.elem = p.elem
								set.add(q)
							}
						}
					}
				}
			}
		}
	}
	return len(set.paths) != n || set.ok != ok
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// loc is the memory a pointer or slice denotes (nothing for memory the
// function made itself), or the place a struct value was loaded from.
func (m *modder) loc(f *ssa.Function, v ssa.Value) ([]modPath, bool) {
	w := &modWalk{m: m, seen: map[ssa.Value]bool{}}
	return w.follow(f, v, nil)
}

// locAt is the memory found from a value by the steps of an access path.
func (m *modder) locAt(f *ssa.Function, v ssa.Value, steps []modStep) ([]modPath, bool) {
	w := &modWalk{m: m, seen: map[ssa.Value]bool{}}
	return w.follow(f, v, steps)
}

type modWalk struct {
	m     *modder
	seen  map[ssa.Value]bool
	depth int
}

func prepend(st []modStep, rest []modStep) []modStep {
	return append(append([]modStep(nil), st...), rest...)
}

func (w *modWalk) follow(f *ssa.Function, v ssa.Value, steps []modStep) ([]modPath, bool) {
	switch v.(type) {
	case *ssa.Phi, *ssa.Alloc:
		if w.seen[v] {
			return nil, true
		}
		w.seen[v] = true
		defer delete(w.seen, v)
	}
	deref := func(t types.Type) []modStep {
		if refType(t) {
			return prepend([]modStep{{op: "*", t: t}}, steps)
		}
		return steps
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == x {
				return []modPath{{kind: "param", idx: i, steps: steps}}, true
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == x {
				return []modPath{{kind: "free", idx: i, steps: steps}}, true
			}
		}
	case *ssa.Global:
		return []modPath{{kind: "global", gl: x, steps: steps}}, true
	case *ssa.Const:
		return nil, true
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure:
		for _, st := range steps {
			if st.op == "*" {
				return nil, false
			}
		}
		return nil, true
	case *ssa.Alloc:
		// memory of the function; what it holds is found through its stores
		for i, st := range steps {
			if st.op == "*" {
				return w.held(f, x, x, nil, steps[:i], steps[i:])
			}
		}
		return nil, true
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return w.follow(f, x.X, prepend([]modStep{{op: ".", name: st.Field(x.Field).Name()}}, steps))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return w.follow(f, x.X, prepend([]modStep{{op: ".", name: st.Field(x.Field).Name()}}, deref(x.Type())))
	case *ssa.IndexAddr:
		return w.follow(f, x.X, prepend([]modStep{{op: "[]", n: arrayLen(x.X.Type())}}, steps))
	case *ssa.Index:
		return w.follow(f, x.X, prepend([]modStep{{op: "[]"}}, deref(x.Type())))
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		return w.follow(f, x.X, deref(x.Type()))
	case *ssa.Slice:
		return w.follow(f, x.X, steps)
	case *ssa.ChangeType:
		return w.follow(f, x.X, steps)
	case *ssa.ChangeInterface:
		return w.follow(f, x.X, steps)
	case *ssa.MakeInterface:
		return w.follow(f, x.X, steps)
	case *ssa.Phi:
		var r []modPath
		for _, e := range x.Edges {
			ls, ok := w.follow(f, e, steps)
			if !ok {
				return nil, false
			}
			r = append(r, ls...)
		}
		return r, true
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return w.result(f, cl, x.Index, steps)
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" {
				return w.follow(f, x.Call.Args[0], steps)
			}
			return nil, false
		}
		if h := x.Call.StaticCallee(); h != nil && h.Pkg != nil && pureExternals[h.Pkg.Pkg.Path()] && len(x.Call.Args) > 0 {
			return nil, !refType(x.Type()) || h.String() == "image.NewYCbCr"
		}
		return w.result(f, x, 0, steps)
	}
	return nil, false
}

// result follows a result of a function of the graph into what it returns.
func (w *modWalk) result(f *ssa.Function, cl *ssa.Call, n int, steps []modStep) ([]modPath, bool) {
	h := cl.Call.StaticCallee()
	if h == nil || w.m.sets[h] == nil || w.depth > 4 || len(h.Blocks) == 0 {
		return nil, false
	}
	w.depth++
	defer func() { w.depth-- }()
	var r []modPath
	for _, b := range h.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || n >= len(ret.Results) {
			continue
		}
		ls, ok := w.follow(h, ret.Results[n], steps)
		if !ok {
			return nil, false
		}
		for _, l := range ls {
			switch l.kind {
			case "global":
				r = append(r, l)
			case "param":
				if l.idx >= len(cl.Call.Args) {
					return nil, false
				}
				qs, ok := w.follow(f, cl.Call.Args[l.idx], l.steps)
				if !ok {
					return nil, false
				}
				r = append(r, qs...)
			default:
				return nil, false
			}
		}
	}
	return r, true
}

// localVar says whether an address lies in a variable of the function itself.
func localVar(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localVar(x.X)
	case *ssa.IndexAddr:
		return arrayLen(x.X.Type()) > 0 && localVar(x.X)
	}
	return false
}

func arrayLen(t types.Type) int64 {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return 0
}

func mayHoldRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayHoldRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return mayHoldRefs(u.Elem())
	case *types.Basic:
		return false
	}
	return true
}

// held follows what a local variable holds at a place (want), through
// everything that was stored there or around it. addr is an address in the
// variable, at is its place.
func (w *modWalk) held(f *ssa.Function, a *ssa.Alloc, addr ssa.Value, at, want, rest []modStep) ([]modPath, bool) {
	refs := addr.Referrers()
	if refs == nil {
		return nil, true
	}
	var r []modPath
	for _, ref := range *refs {
		var ls []modPath
		ok := true
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != addr {
				return nil, false // the address escapes
			}
			if !agree(at, want) {
				continue
			}
			if len(at) > len(want) {
				continue
			}
			if rem := want[len(at):]; len(rem) == 0 {
				ls, ok = w.follow(f, x.Val, rest[1:])
			} else {
				ls, ok = w.follow(f, x.Val, prepend(rem, rest))
			}
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			ls, ok = w.held(f, a, x, prepend(at, []modStep{{op: ".", name: st.Field(x.Field).Name()}}), want, rest)
		case *ssa.IndexAddr:
			ls, ok = w.held(f, a, x, prepend(at, []modStep{{op: "[]"}}), want, rest)
		case *ssa.Slice:
			if mayHoldRefs(x.Type().Underlying().(*types.Slice).Elem()) {
				return nil, false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case ssa.CallInstruction:
			// the callee may store into it, unless it only holds plain values there
			if agree(at, want) && mayHoldRefs(addr.Type().Underlying().(*types.Pointer).Elem()) {
				return nil, false
			}
		default:
			return nil, false
		}
		if !ok {
			return nil, false
		}
		r = append(r, ls...)
	}
	return r, true
}

// agree says whether one place lies in the other.
func agree(a, b []modStep) bool {
	for i := range a {
		if i < len(b) && (a[i].op != b[i].op || a[i].name != b[i].name) {
			return false
		}
	}
	return true
}

// apply makes everything in the set unknown in s, for a call with args.
func (ms *modSet) apply(c *Ctx, e *ai.Engine, s *ai.State, args, bind []ai.Val, tag string) bool {
	ok := true
	for _, p := range ms.paths {
		var v ai.Val
		switch p.kind {
		case "param":
			v = args[p.idx]
		case "free":
			v = bind[p.idx]
		case "global":
			v = ai.Ptr{Obj: e.GlobalObj(p.gl)}
		}
		if !applyPath(e, s, v, p.steps, tag) {
			ok = false
		}
	}
	return ok
}

func applyPath(e *ai.Engine, s *ai.State, v ai.Val, steps []modStep, tag string) bool {
	obj, path := 0, ""
	switch x := v.(type) {
	case ai.Ptr:
		obj, path = x.Obj, x.Path
	case ai.Slice:
		obj, path = x.Obj, x.Path
	case ai.Iface:
		return applyPath(e, s, x.V, steps, tag)
	case *ai.Agg:
		// a struct passed by value: follow it to the first pointer
		p := ""
		for i, st := range steps {
			switch st.op {
			case ".":
				p += "." + st.name
			case "*":
				return applyPath(e, s, s.AggGet(x, p, st.t), steps[i+1:], tag)
			default:
				return false
			}
		}
		return true // the callee's own copy
	default:
		return false
	}
	if obj == 0 {
		return true // nil
	}
	for i, st := range steps {
		switch st.op {
		case ".":
			path += "." + st.name
		case "[]":
			s.HavocUnder(obj, path, tag)
			for _, r := range steps[i+1:] {
				if r.op == "*" {
					return false
				}
			}
			return true
		case "*":
			return applyPath(e, s, s.Load(obj, path, st.t), steps[i+1:], tag)
		}
	}
	s.HavocUnder(obj, path, tag)
	return true
}

// samplesOnly says whether the set contains nothing but coefficient blocks
// and sample planes.
func (ms *modSet) samplesOnly() bool {
	if !ms.ok {
		return false
	}
	for _, p := range ms.paths {
		n, k := int64(1), 0
		for i := len(p.steps) - 1; i >= 0 && p.steps[i].op == "[]"; i-- {
			k++
			if p.steps[i].n == 0 {
				n = 64
			} else {
				n *= p.steps[i].n
			}
		}
		if p.kind == "global" || k == 0 || n < 64 {
			return false
		}
	}
	return true
}
