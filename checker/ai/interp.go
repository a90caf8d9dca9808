package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a function call can end.
type Outcome struct {
	S        *State
	Vals     []Val
	Panicked bool
	Why      string
	Pos      token.Pos
}

type deferred struct {
	site ssa.CallInstruction
	fn   Val
	args []Val
}

type frame struct {
	fn   *ssa.Function
	info *fnInfo
	env  []Val
	defs []deferred
}

func (fr *frame) clone() *frame {
	n := *fr
	n.env = append([]Val(nil), fr.env...)
	n.defs = append([]deferred(nil), fr.defs...)
	return &n
}

func (fr *frame) set(v ssa.Value, x Val) { fr.env[fr.info.num[v]] = x }

// loopCtx collects control leaving the region being executed.
type loopCtx struct {
	loop  *natLoop
	backs []edge
	exits []edge
	// headOnly: stop when the loop's test continues into the loop
	headOnly bool
	tests    map[*ssa.BasicBlock]bool
	ins      []edge
}

type edge struct {
	s        *State
	fr       *frame
	from, to *ssa.BasicBlock
}

// Call interprets fn.
func (e *Engine) Call(s *State, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(Unsupported{"no body: " + fn.String()})
	}
	if len(e.callStack) > 60 {
		panic(Unsupported{"call depth at " + fn.String()})
	}
	e.Visited[fn] = true
	rec := 0
	for _, f := range e.callStack {
		if f == fn {
			rec++
		}
	}
	if rec > 3 {
		panic(Unsupported{"recursion in " + fn.String()})
	}
	e.Stats.Calls++
	e.callStack = append(e.callStack, fn)
	defer func() { e.callStack = e.callStack[:len(e.callStack)-1] }()
	info := e.P.info(fn)
	fr := &frame{fn: fn, info: info, env: make([]Val, len(info.num))}
	for i, p := range fn.Params {
		fr.set(p, args[i])
	}
	for i, p := range fn.FreeVars {
		fr.set(p, bind[i])
	}
	var outs []Outcome
	e.enter(s, fr, nil, fn.Blocks[0], nil, &outs)
	return outs
}

// enter transfers control along an edge.
func (e *Engine) enter(s *State, fr *frame, from, to *ssa.BasicBlock, ctx *loopCtx, outs *[]Outcome) {
	if ctx != nil {
		if to == ctx.loop.header {
			ctx.backs = append(ctx.backs, edge{s, fr, from, to})
			return
		}
		if !ctx.loop.blocks[to] {
			ctx.exits = append(ctx.exits, edge{s, fr, from, to})
			return
		}
		if ctx.headOnly && !ctx.tests[to] {
			ctx.ins = append(ctx.ins, edge{s, fr, from, to})
			return
		}
	}
	if l := fr.info.loops[to]; l != nil {
		e.handleLoop(s, fr, l, from, ctx, outs)
		return
	}
	e.phis(s, fr, from, to)
	e.run(s, fr, to, 0, ctx, outs)
}

func (e *Engine) phis(s *State, fr *frame, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []Val
	var ph []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, e.val(s, fr, p.Edges[idx]))
	}
	for i, p := range ph {
		fr.set(p, vals[i])
	}
}

// run executes block b from instruction i.
func (e *Engine) run(s *State, fr *frame, b *ssa.BasicBlock, i int, ctx *loopCtx, outs *[]Outcome) {
	for ; i < len(b.Instrs); i++ {
		e.Stats.Instrs++
		e.Budget--
		if e.Budget < 0 {
			panic(Unsupported{"instruction budget exhausted in " + e.RootName})
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			e.enter(s, fr, b, b.Succs[0], ctx, outs)
			return
		case *ssa.If:
			cv, ok := e.val(s, fr, in.Cond).(Bool)
			if !ok {
				panic(Unsupported{"branch on non-boolean in " + fr.fn.String()})
			}
			if cv.IsConst {
				k := 1
				if cv.V {
					k = 0
				}
				e.enter(s, fr, b, b.Succs[k], ctx, outs)
				return
			}
			for _, sk := range e.condSinks {
				*sk = append(*sk, Cmp{cv.C.Op, s.Norm(cv.C.L)})
			}
			switch s.Decide(cv.C) {
			case True:
				e.enter(s, fr, b, b.Succs[0], ctx, outs)
				return
			case False:
				e.enter(s, fr, b, b.Succs[1], ctx, outs)
				return
			}
			e.Stats.Forks++
			s2, fr2 := s.Clone(), fr.clone()
			if s.Assume(cv.C) {
				e.enter(s, fr, b, b.Succs[0], ctx, outs)
			}
			if s2.Assume(cv.C.Not()) {
				e.enter(s2, fr2, b, b.Succs[1], ctx, outs)
			}
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range in.Results {
				vals = append(vals, e.val(s, fr, r))
			}
			e.Stats.Paths++
			*outs = append(*outs, Outcome{S: s, Vals: vals, Pos: in.Pos()})
			return
		case *ssa.Panic:
			msg := ValString(e.val(s, fr, in.X))
			e.noteObl(fr.fn, in.Pos(), "panic", "explicit panic "+msg, false, func() string { return "reachable" })
			e.unwind(s, fr, "panic "+msg, in.Pos(), outs)
			return
		case *ssa.Store:
			p := e.val(s, fr, in.Addr)
			if !e.store(s, fr, in.Pos(), p, in.Val.Type(), e.val(s, fr, in.Val)) {
				e.unwind(s, fr, "nil dereference", in.Pos(), outs)
				return
			}
			continue
		case *ssa.Defer:
			fv, args := e.callee(s, fr, in)
			fr.defs = append(fr.defs, deferred{in, fv, args})
			continue
		case *ssa.Go:
			fv, args := e.callee(s, fr, in)
			s.event(Event{Kind: "go", Pos: in.Pos(), Fn: fr.fn, Val: fv, Args: args, Snap: s.Clone()})
			continue
		case *ssa.RunDefers:
			alts := []Alt{{S: s}}
			for k := len(fr.defs) - 1; k >= 0; k-- {
				d := fr.defs[k]
				var next []Alt
				for _, a := range alts {
					for _, r := range e.invoke(a.S, fr.fn, d.site, d.fn, d.args) {
						if r.Panicked {
							*outs = append(*outs, Outcome{S: r.S, Panicked: true, Why: r.Why, Pos: in.Pos()})
							continue
						}
						next = append(next, r)
					}
				}
				alts = next
			}
			fr.defs = nil
			for k, a := range alts {
				f2 := fr
				if k < len(alts)-1 {
					f2 = fr.clone()
				}
				e.run(a.S, f2, b, i+1, ctx, outs)
			}
			return
		case *ssa.Send:
			ch := e.val(s, fr, in.Chan)
			v := e.val(s, fr, in.X)
			c, _ := ch.(Chan)
			s.event(Event{Kind: "send", Pos: in.Pos(), Fn: fr.fn, Obj: c.Obj, Val: v, Args: []Val{ch}, Snap: s.Clone()})
			continue
		case *ssa.MapUpdate:
			e.mapUpdate(s, fr, in)
			continue
		case ssa.Value:
			alts := e.eval(s, fr, in, b.Instrs[i])
			if len(alts) == 1 && !alts[0].Panicked {
				s = alts[0].S
				fr.set(in, alts[0].V)
				continue
			}
			if len(alts) > 1 {
				e.Stats.Forks++
			}
			for k, a := range alts {
				if a.Panicked {
					f2 := fr
					if len(fr.defs) > 0 {
						f2 = fr.clone()
					}
					e.unwind(a.S, f2, a.Why, in.Pos(), outs)
					continue
				}
				f2 := fr
				if k < len(alts)-1 {
					f2 = fr.clone()
				}
				f2.set(in, a.V)
				e.run(a.S, f2, b, i+1, ctx, outs)
			}
			return
		default:
			panic(Unsupported{fmt.Sprintf("instruction %T in %s", in, fr.fn)})
		}
	}
}

// unwind runs the deferred calls of a frame that panics. When one of them
// recovers, the function returns what its results hold then.
func (e *Engine) unwind(s *State, fr *frame, why string, pos token.Pos, outs *[]Outcome) {
	if len(fr.defs) == 0 {
		*outs = append(*outs, Outcome{S: s, Panicked: true, Why: why, Pos: pos})
		return
	}
	alts := []Alt{{S: s, Panicked: true, Why: why}}
	for k := len(fr.defs) - 1; k >= 0; k-- {
		d := fr.defs[k]
		var next []Alt
		for _, a := range alts {
			st := a.S
			if a.Panicked {
				st.Ghost[panicGhost] = Const(int64(len(e.callStack) + 1))
			}
			for _, r := range e.invoke(st, fr.fn, d.site, d.fn, d.args) {
				if r.Panicked {
					delete(r.S.Ghost, panicGhost)
					next = append(next, Alt{S: r.S, Panicked: true, Why: r.Why})
					continue
				}
				_, still := r.S.Ghost[panicGhost]
				delete(r.S.Ghost, panicGhost)
				next = append(next, Alt{S: r.S, Panicked: still, Why: a.Why})
			}
		}
		alts = next
	}
	for k, a := range alts {
		f2 := fr
		if k < len(alts)-1 {
			f2 = fr.clone()
		}
		f2.defs = nil
		switch {
		case a.Panicked:
			*outs = append(*outs, Outcome{S: a.S, Panicked: true, Why: a.Why, Pos: pos})
		case fr.fn.Recover != nil:
			a.S.event(Event{Kind: "recovered", Pos: pos, Fn: fr.fn, Name: a.Why})
			e.run(a.S, f2, fr.fn.Recover, 0, nil, outs)
		default:
			panic(Unsupported{"a recovered panic in " + fr.fn.String()})
		}
	}
}

const panicGhost = "panicking"

func (e *Engine) val(s *State, fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return Ptr{Obj: e.globalObj(v), Nil: Const(0)}
	case *ssa.Function:
		return Func{Fn: v, Nil: Const(0)}
	case *ssa.Builtin:
		return Func{Key: "builtin:" + v.Name(), Nil: Const(0)}
	}
	n, ok := fr.info.num[v]
	if !ok {
		panic(Unsupported{fmt.Sprintf("value %T", v)})
	}
	x := fr.env[n]
	if x == nil {
		panic(Unsupported{fmt.Sprintf("undefined value %s in %s", v.Name(), fr.fn)})
	}
	return x
}

func constVal(v *ssa.Const) Val {
	if v.Value == nil {
		return ZeroVal(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return BoolConst(constant.BoolVal(v.Value))
	case constant.Int:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, exact := constant.Int64Val(v.Value); exact {
				return Const(n)
			}
			return Opaque{v.Type(), v.Value.ExactString()}
		}
		return Opaque{v.Type(), v.Value.ExactString()}
	case constant.String:
		return Str{Known: true, S: constant.StringVal(v.Value)}
	}
	return Opaque{v.Type(), v.Value.ExactString()}
}

// store writes through a pointer value; false: certainly a nil dereference.
func (e *Engine) store(s *State, fr *frame, pos token.Pos, p Val, t types.Type, v Val) bool {
	pt, ok := p.(Ptr)
	if !ok {
		panic(Unsupported{fmt.Sprintf("store through %T", p)})
	}
	if !e.Oblige(s, fr.fn, pos, "nil", "store", Cmp{EQ, pt.Nil}) {
		return false
	}
	path := s.normPath(pt.Path)
	if e.OnStore != nil {
		e.OnStore(s, pt.Obj, path, v, pos, fr.fn)
	}
	if !e.inInit {
		s.event(Event{Kind: "store", Pos: pos, Fn: fr.fn, Obj: pt.Obj, Path: path, Val: v})
	}
	s.Store(pt.Obj, path, t, v)
	return true
}

func ret(s *State, v Val) []Alt { return []Alt{{S: s, V: v}} }

func panicked(s *State, why string) []Alt { return []Alt{{S: s, Panicked: true, Why: why}} }

func (e *Engine) eval(s *State, fr *frame, v ssa.Value, instr ssa.Instruction) []Alt {
	switch in := v.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := s.newObj(t, fr.fn.Name()+"."+in.Comment, in.Pos())
		return ret(s, Ptr{Obj: o.ID, Nil: Const(0)})
	case *ssa.FieldAddr:
		p := e.ptr(s, fr, in.X)
		if !e.Oblige(s, fr.fn, in.Pos(), "nil", "field of "+in.X.Name(), Cmp{EQ, p.Nil}) {
			return panicked(s, "nil dereference")
		}
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return ret(s, Ptr{Obj: p.Obj, Path: p.Path + "." + st.Field(in.Field).Name(), Nil: Const(0)})
	case *ssa.Field:
		a, ok := e.val(s, fr, in.X).(*Agg)
		if !ok {
			panic(Unsupported{"field of non-aggregate"})
		}
		st := in.X.Type().Underlying().(*types.Struct)
		f := st.Field(in.Field)
		return ret(s, s.AggGet(a, "."+f.Name(), f.Type()))
	case *ssa.IndexAddr:
		return e.indexAddr(s, fr, in)
	case *ssa.Index:
		return e.index(s, fr, in)
	case *ssa.UnOp:
		return e.unop(s, fr, in)
	case *ssa.BinOp:
		x, y := e.val(s, fr, in.X), e.val(s, fr, in.Y)
		return e.binop(s, fr, in.Pos(), in.Op, x, y, in.X.Type(), in.Type(), in.Y.Type())
	case *ssa.ChangeType:
		return ret(s, e.val(s, fr, in.X))
	case *ssa.ChangeInterface:
		return ret(s, e.val(s, fr, in.X))
	case *ssa.Convert:
		return e.convert(s, fr, in)
	case *ssa.MakeInterface:
		x := e.val(s, fr, in.X)
		return ret(s, Iface{Dyn: in.X.Type(), V: x, Nil: Const(0)})
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range in.Bindings {
			bind = append(bind, e.val(s, fr, b))
		}
		return ret(s, Func{Fn: in.Fn.(*ssa.Function), Bind: bind, Nil: Const(0)})
	case *ssa.MakeChan:
		o := s.newObj(in.Type(), "chan", in.Pos())
		sz := e.val(s, fr, in.Size)
		if l, ok := sz.(*Lin); ok && l.IsConst() {
			o.Data = ChanCap(l.K)
		}
		s.event(Event{Kind: "makechan", Pos: in.Pos(), Fn: fr.fn, Obj: o.ID, Val: sz})
		return ret(s, Chan{Obj: o.ID, Nil: Const(0)})
	case *ssa.MakeMap:
		o := s.newObj(in.Type(), "map", in.Pos())
		o.Data = &mapData{}
		return ret(s, Map{Obj: o.ID, Nil: Const(0)})
	case *ssa.MakeSlice:
		return e.makeSlice(s, fr, in)
	case *ssa.Slice:
		return e.slice(s, fr, in)
	case *ssa.Extract:
		t, ok := e.val(s, fr, in.Tuple).(Tuple)
		if !ok {
			panic(Unsupported{"extract from non-tuple"})
		}
		return ret(s, t[in.Index])
	case *ssa.TypeAssert:
		return e.typeAssert(s, fr, in)
	case *ssa.Lookup:
		return e.lookup(s, fr, in)
	case *ssa.Call:
		fv, args := e.callee(s, fr, in)
		return e.invoke(s, fr.fn, in, fv, args)
	}
	panic(Unsupported{fmt.Sprintf("value instruction %T in %s", v, fr.fn)})
}

func (e *Engine) ptr(s *State, fr *frame, v ssa.Value) Ptr {
	p, ok := e.val(s, fr, v).(Ptr)
	if !ok {
		panic(Unsupported{fmt.Sprintf("pointer expected, got %s in %s", ValString(e.val(s, fr, v)), fr.fn)})
	}
	return p
}

func lin(v Val) *Lin {
	if l, ok := v.(*Lin); ok {
		return l
	}
	panic(Unsupported{"integer expected, got " + ValString(v)})
}

func (e *Engine) indexAddr(s *State, fr *frame, in *ssa.IndexAddr) []Alt {
	x := e.val(s, fr, in.X)
	idxv := e.val(s, fr, in.Index)
	idx, ok := idxv.(*Lin)
	if !ok {
		panic(Unsupported{"index " + ValString(idxv)})
	}
	var ln *Lin
	var p Ptr
	switch x := x.(type) {
	case Slice:
		ln = x.Len
		if !e.Oblige(s, fr.fn, in.Pos(), "index", "lower bound", Cmp{LE, idx.Neg()}) {
			return panicked(s, "index out of range")
		}
		if !e.Oblige(s, fr.fn, in.Pos(), "index", "upper bound", Cmp{LE, idx.Sub(ln).AddK(1)}) {
			return panicked(s, "index out of range")
		}
		p = Ptr{Obj: x.Obj, Path: x.Path + e.idxPath(s, x.Lo.Add(idx)), Nil: Const(0)}
	case Ptr:
		if !e.Oblige(s, fr.fn, in.Pos(), "nil", "index", Cmp{EQ, x.Nil}) {
			return panicked(s, "nil dereference")
		}
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !e.Oblige(s, fr.fn, in.Pos(), "index", "lower bound", Cmp{LE, idx.Neg()}) {
			return panicked(s, "index out of range")
		}
		if !e.Oblige(s, fr.fn, in.Pos(), "index", "upper bound", Cmp{LE, idx.AddK(1 - n)}) {
			return panicked(s, "index out of range")
		}
		p = Ptr{Obj: x.Obj, Path: x.Path + e.idxPath(s, idx), Nil: Const(0)}
	default:
		panic(Unsupported{"index of " + ValString(x)})
	}
	return ret(s, p)
}

func (e *Engine) index(s *State, fr *frame, in *ssa.Index) []Alt {
	x := e.val(s, fr, in.X)
	idx := lin(e.val(s, fr, in.Index))
	switch x := x.(type) {
	case *Agg:
		n := in.X.Type().Underlying().(*types.Array).Len()
		if !e.Oblige(s, fr.fn, in.Pos(), "index", "lower bound", Cmp{LE, idx.Neg()}) ||
			!e.Oblige(s, fr.fn, in.Pos(), "index", "upper bound", Cmp{LE, idx.AddK(1 - n)}) {
			return panicked(s, "index out of range")
		}
		tmp := &Obj{ID: -1, Name: "agg", own: s}
		tmp.mem = x.mem
		path := e.idxPath(s, idx)
		if v, ok := s.symIndexLoad(tmp, path, in.Type()); ok {
			return ret(s, v)
		}
		return ret(s, s.AggGet(x, path, in.Type()))
	case Str:
		if x.Known && idx.IsConst() && idx.K >= 0 && idx.K < int64(len(x.S)) {
			return ret(s, Const(int64(x.S[idx.K])))
		}
		return ret(s, AtomLin(e.Fresh("strbyte", 0, 255)))
	}
	panic(Unsupported{"index of " + ValString(x)})
}

func (e *Engine) unop(s *State, fr *frame, in *ssa.UnOp) []Alt {
	x := e.val(s, fr, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			panic(Unsupported{"load through " + ValString(x)})
		}
		if !e.Oblige(s, fr.fn, in.Pos(), "nil", "load", Cmp{EQ, p.Nil}) {
			return panicked(s, "nil dereference")
		}
		path := s.normPath(p.Path)
		v := s.Load(p.Obj, path, in.Type())
		if e.OnLoad != nil {
			e.OnLoad(s, p.Obj, path, in.Type(), v, in.Pos(), fr.fn)
		}
		return ret(s, v)
	case token.NOT:
		return ret(s, x.(Bool).Not())
	case token.SUB:
		if l, ok := x.(*Lin); ok {
			return e.wrap(s, l.Neg(), in.Type(), "neg")
		}
		return ret(s, Opaque{in.Type(), e.freshName("neg")})
	case token.XOR:
		l := lin(x)
		// ^x = -x-1 (signed) or max-x (unsigned)
		lo, hi := TypeRange(in.Type())
		if lo < 0 {
			return ret(s, l.Neg().AddK(-1))
		}
		if hi == PInf {
			return ret(s, AtomLin(e.Fresh("not", 0, PInf)))
		}
		return ret(s, Const(hi).Sub(l))
	case token.ARROW:
		c, _ := x.(Chan)
		t := in.X.Type().Underlying().(*types.Chan).Elem()
		name := e.freshName("recv")
		v := s.Sym(name, t)
		s2 := s.Clone()
		s.event(Event{Kind: "recv", Pos: in.Pos(), Fn: fr.fn, Obj: c.Obj, Val: v, Args: []Val{x}})
		if !in.CommaOk {
			return ret(s, v)
		}
		s2.event(Event{Kind: "recvclosed", Pos: in.Pos(), Fn: fr.fn, Obj: c.Obj, Args: []Val{x}})
		return []Alt{{S: s, V: Tuple{v, BoolConst(true)}}, {S: s2, V: Tuple{ZeroVal(t), BoolConst(false)}}}
	}
	panic(Unsupported{"unop " + in.Op.String()})
}

func nilBool(n *Lin) Bool {
	if n.IsConst() {
		return BoolConst(n.K != 0)
	}
	return Bool{C: Cmp{NE, n}}
}

func nilOf(v Val) (*Lin, bool) {
	switch v := v.(type) {
	case Ptr:
		return v.Nil, true
	case Slice:
		return v.Nil, true
	case Iface:
		return v.Nil, true
	case Func:
		return v.Nil, true
	case Chan:
		return v.Nil, true
	case Map:
		return v.Nil, true
	}
	return nil, false
}

// equal evaluates x == y.
func (e *Engine) equal(s *State, x, y Val) Bool {
	opaque := func(tag string) Bool { return Bool{C: Cmp{NE, AtomLin(e.Fresh("eq:"+tag, 0, 1))}} }
	switch a := x.(type) {
	case *Lin:
		if b, ok := y.(*Lin); ok {
			return Bool{C: Cmp{EQ, a.Sub(b)}}
		}
	case Bool:
		b, ok := y.(Bool)
		if !ok {
			break
		}
		if a.IsConst {
			a, b = b, a
		}
		if b.IsConst {
			if b.V {
				return a
			}
			return a.Not()
		}
		// decide both if possible
		ta, tb := s.Decide(a.C), s.Decide(b.C)
		if ta != Unknown && tb != Unknown {
			return BoolConst(ta == tb)
		}
		return opaque("bool")
	case Str:
		if b, ok := y.(Str); ok && a.Known && b.Known {
			return BoolConst(a.S == b.S)
		}
		return opaque("str")
	}
	nx, okx := nilOf(x)
	ny, oky := nilOf(y)
	if okx && oky {
		nx, ny = s.Norm(nx), s.Norm(ny)
		if ny.Is(1) {
			return nilBool(nx)
		}
		if nx.Is(1) {
			return nilBool(ny)
		}
		if !nx.IsConst() || !ny.IsConst() {
			// maybe nil on one side
			if ix, ok := x.(Iface); ok {
				if iy, ok := y.(Iface); ok {
					if ex, ok := ix.V.(*ErrVal); ok && ny.Is(0) {
						if ey, ok := iy.V.(*ErrVal); ok {
							// x != nil is known to the caller in practice
							_ = ex
							_ = ey
							if s.Decide(Cmp{EQ, nx}) == True {
								return Bool{C: Cmp{EQ, ex.Kind.Sub(ey.Kind)}}
							}
						}
					}
				}
			}
			return opaque("nilable")
		}
		switch a := x.(type) {
		case Ptr:
			b := y.(Ptr)
			if a.Obj == b.Obj {
				switch s.mayAlias(a.Path, b.Path) {
				case True:
					return BoolConst(a.Path == b.Path || s.normPath(a.Path) == s.normPath(b.Path))
				case False:
					return BoolConst(false)
				}
				return opaque("ptr")
			}
			if !s.Obj(a.Obj).Sym || !s.Obj(b.Obj).Sym {
				return BoolConst(false)
			}
			return opaque("ptr")
		case Iface:
			b := y.(Iface)
			ea, ok1 := a.V.(*ErrVal)
			eb, ok2 := b.V.(*ErrVal)
			if ok1 && ok2 {
				if ea == eb {
					return BoolConst(true)
				}
				return Bool{C: Cmp{EQ, ea.Kind.Sub(eb.Kind)}}
			}
			if a.Dyn != nil && b.Dyn != nil {
				if !types.Identical(a.Dyn, b.Dyn) {
					return BoolConst(false)
				}
				return e.equal(s, a.V, b.V)
			}
		case Chan:
			if a.Obj == y.(Chan).Obj {
				return BoolConst(true)
			}
		}
	}
	return opaque("val")
}

func (e *Engine) binop(s *State, fr *frame, pos token.Pos, op token.Token, x, y Val, xt, rt, yt types.Type) []Alt {
	switch op {
	case token.EQL:
		return ret(s, e.equal(s, x, y))
	case token.NEQ:
		return ret(s, e.equal(s, x, y).Not())
	}
	a, ok1 := x.(*Lin)
	b, ok2 := y.(*Lin)
	if !ok1 || !ok2 {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ret(s, Bool{C: Cmp{NE, AtomLin(e.Fresh("cmp", 0, 1))}})
		}
		if bb, ok := rt.Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
			xs, _ := x.(Str)
			ys, _ := y.(Str)
			if xs.Known && ys.Known && op == token.ADD {
				return ret(s, Str{Known: true, S: xs.S + ys.S})
			}
			return ret(s, Str{Key: e.freshName("str")})
		}
		if bb, ok := rt.Underlying().(*types.Basic); ok && bb.Info()&types.IsInteger != 0 {
			lo, hi := TypeRange(rt)
			return ret(s, AtomLin(e.Fresh("op", lo, hi)))
		}
		return ret(s, Opaque{rt, e.freshName("op")})
	}
	a, b = s.Norm(a), s.Norm(b)
	switch op {
	case token.LSS:
		return ret(s, Bool{C: Cmp{LE, a.Sub(b).AddK(1)}})
	case token.LEQ:
		return ret(s, Bool{C: Cmp{LE, a.Sub(b)}})
	case token.GTR:
		return ret(s, Bool{C: Cmp{LE, b.Sub(a).AddK(1)}})
	case token.GEQ:
		return ret(s, Bool{C: Cmp{LE, b.Sub(a)}})
	}
	if op == token.SHL || op == token.SHR {
		lo, _ := TypeRange(yt)
		if lo < 0 {
			if !e.Oblige(s, fr.fn, pos, "shift", "negative shift count", Cmp{LE, b.Neg()}) {
				return panicked(s, "negative shift")
			}
		}
	}
	if op == token.QUO || op == token.REM {
		if !e.Oblige(s, fr.fn, pos, "div", "division by zero", Cmp{NE, b}) {
			return panicked(s, "division by zero")
		}
	}
	return e.arith(s, op, a, b, rt)
}

// arith computes an integer operation exactly where the domain can.
func (e *Engine) arith(s *State, op token.Token, a, b *Lin, t types.Type) (res []Alt) {
	lo, hi := TypeRange(t)
	opaque := func(l, h int64) []Alt {
		key := fmt.Sprintf("(%s %s %s):%d", a.Key(), op, b.Key(), typeBitsSafe(t))
		at := e.Atom(key, max(lo, l), min(hi, h))
		if at.Fn == "" {
			at.Fn, at.Args = op.String(), []*Lin{a, b}
		}
		return ret(s, AtomLin(at))
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(overflow); is {
				res = opaque(lo, hi)
				return
			}
			panic(r)
		}
	}()
	switch op {
	case token.ADD:
		return e.wrap(s, a.Add(b), t, "add")
	case token.SUB:
		return e.wrap(s, a.Sub(b), t, "sub")
	case token.MUL:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			return e.wrap(s, a.Mul(b.K), t, "mul")
		}
		al, ah := s.Range(a)
		bl, bh := s.Range(b)
		// boolean-like selector: product of a bit and something is opaque
		l, h := mulRange(al, ah, bl, bh)
		if a.Key() > b.Key() {
			a, b = b, a
		}
		if l < lo || h > hi {
			return opaque(lo, hi)
		}
		return opaque(l, h)
	case token.QUO:
		if b.IsConst() {
			return ret(s, e.quo(s, a, b.K, t))
		}
		al, ah := s.Range(a)
		bl, bh := s.Range(b)
		if al >= 0 && bl >= 1 {
			q := ah
			if ah != PInf {
				q = ah / bl
			}
			_ = bh
			return opaque(0, q)
		}
		return opaque(lo, hi)
	case token.REM:
		al, ah := s.Range(a)
		if b.IsConst() && b.K != 0 {
			k := b.K
			if k < 0 {
				k = -k
			}
			if al >= 0 {
				if ah < k {
					return ret(s, a)
				}
				if l, ok := modK(s, a, k); ok {
					return ret(s, l)
				}
				return opaque(0, k-1)
			}
			return opaque(-(k - 1), k-1)
		}
		if al >= 0 {
			return opaque(0, ah)
		}
		return opaque(lo, hi)
	case token.SHL:
		if b.IsConst() {
			if b.K >= 63 {
				if b.K >= int64(typeBits(t)) {
					return ret(s, Const(0))
				}
				return opaque(lo, hi)
			}
			return e.wrap(s, a.Mul(int64(1)<<uint(b.K)), t, "shl")
		}
		bl, bh := s.Range(b)
		al, ah := s.Range(a)
		if bl >= 0 && bh < 62 && al >= 0 {
			l, h := satMul(al, int64(1)<<uint(bl)), satMul(ah, int64(1)<<uint(bh))
			if h <= hi {
				return opaque(l, h)
			}
		}
		return opaque(lo, hi)
	case token.SHR:
		if b.IsConst() {
			if b.K >= 63 {
				al, _ := s.Range(a)
				if al >= 0 {
					return ret(s, Const(0))
				}
				return opaque(-1, 0)
			}
			return ret(s, e.shr(s, a, uint(b.K), t))
		}
		al, ah := s.Range(a)
		if al >= 0 {
			return opaque(0, ah)
		}
		return opaque(al, max(ah, 0))
	case token.AND:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if l, ok := e.maskK(s, a, b.K, t); ok {
				return ret(s, l)
			}
			if b.K >= 0 {
				return opaque(0, b.K)
			}
			al, ah := s.Range(a)
			if al >= 0 {
				return opaque(0, ah)
			}
			return opaque(lo, hi)
		}
		al, ah := s.Range(a)
		bl, bh := s.Range(b)
		if a.Key() > b.Key() {
			a, b = b, a
		}
		if a.Equal(b) {
			return ret(s, a)
		}
		// both single bits scaled equally: b & (b>>?) is opaque
		if al >= 0 && bl >= 0 {
			return opaque(0, min(ah, bh))
		}
		return opaque(lo, hi)
	case token.OR:
		if a.IsConst() {
			a, b = b, a
		}
		if a.Equal(b) {
			return ret(s, a)
		}
		if b.IsConst() && b.K >= 0 {
			al, _ := s.Range(a)
			if al >= 0 {
				if m, ok := e.maskK(s, a, b.K, t); ok {
					return ret(s, a.Sub(m).AddK(b.K))
				}
			}
		}
		if disjoint(s, a, b) {
			return e.wrap(s, a.Add(b), t, "or")
		}
		al, ah := s.Range(a)
		bl, bh := s.Range(b)
		if a.Key() > b.Key() {
			a, b = b, a
		}
		if al >= 0 && bl >= 0 {
			return opaque(max(al, bl), pow2ceil(max(ah, bh)))
		}
		return opaque(lo, hi)
	case token.XOR:
		if a.IsConst() {
			a, b = b, a
		}
		if disjoint(s, a, b) {
			return e.wrap(s, a.Add(b), t, "xor")
		}
		if b.IsConst() && b.K > 0 {
			if m, ok := e.maskK(s, a, b.K, t); ok {
				// flip the masked bits
				return ret(s, a.AddMul(m, -2).AddK(b.K))
			}
		}
		al, ah := s.Range(a)
		bl, bh := s.Range(b)
		if a.Key() > b.Key() {
			a, b = b, a
		}
		if al >= 0 && bl >= 0 {
			return opaque(0, pow2ceil(max(ah, bh)))
		}
		return opaque(lo, hi)
	case token.AND_NOT:
		if b.IsConst() && b.K >= 0 {
			al, ah := s.Range(a)
			if m, ok := e.maskK(s, a, b.K, t); ok {
				return ret(s, a.Sub(m))
			}
			if al >= 0 {
				return opaque(0, ah)
			}
		}
		return opaque(lo, hi)
	}
	panic(Unsupported{"binop " + op.String()})
}

func typeBitsSafe(t types.Type) int {
	if _, ok := t.Underlying().(*types.Basic); ok {
		return typeBits(t)
	}
	return 0
}

func pow2ceil(x int64) int64 {
	if x == PInf {
		return PInf
	}
	r := int64(1)
	for r <= x && r > 0 {
		r <<= 1
	}
	if r <= 0 {
		return PInf
	}
	return r - 1
}

func mulRange(al, ah, bl, bh int64) (int64, int64) {
	p := []int64{satMul2(al, bl), satMul2(al, bh), satMul2(ah, bl), satMul2(ah, bh)}
	l, h := p[0], p[0]
	for _, v := range p {
		l, h = min(l, v), max(h, v)
	}
	return l, h
}

func satMul2(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if b == PInf || b == NInf {
		if (a > 0) == (b > 0) {
			return PInf
		}
		return NInf
	}
	return satMul(a, b)
}

// divisible splits a into the part divisible by m and the rest, with the
// rest's range.
func divisible(s *State, a *Lin, m int64) (q, r *Lin) {
	q, r = &Lin{}, &Lin{}
	qk := floorDiv(a.K, m)
	q.K = qk
	r.K = a.K - qk*m
	for _, t := range a.T {
		if t.C%m == 0 {
			q.T = append(q.T, Term{t.A, t.C / m})
		} else {
			r.T = append(r.T, t)
		}
	}
	return
}

func modK(s *State, a *Lin, m int64) (*Lin, bool) {
	a = s.Norm(a)
	_, r := divisible(s, a, m)
	lo, hi := s.Range(r)
	if lo >= 0 && hi < m {
		return r, true
	}
	// the rest may need one borrow: a in known residue block
	if lo != NInf && hi != PInf && floorDiv(lo, m) == floorDiv(hi, m) {
		return r.AddK(-floorDiv(lo, m) * m), true
	}
	return nil, false
}

// Shr is a >> k, rounding down.
func (e *Engine) Shr(s *State, a *Lin, k uint) *Lin {
	return e.shr(s, a, k, types.Typ[types.Int])
}

func (e *Engine) shr(s *State, a *Lin, k uint, t types.Type) *Lin {
	m := int64(1) << k
	a = s.Norm(a)
	if k == 0 {
		return a
	}
	q, r := divisible(s, a, m)
	lo, hi := s.Range(r)
	if lo != NInf && hi != PInf && floorDiv(lo, m) == floorDiv(hi, m) {
		return q.AddK(floorDiv(lo, m))
	}
	al, ah := s.Range(a)
	l, h := int64(NInf), int64(PInf)
	if al != NInf {
		l = floorDiv(al, m)
	}
	if ah != PInf {
		h = floorDiv(ah, m)
	}
	at := e.Atom(fmt.Sprintf("(%s >> %d)", a.Key(), k), l, h)
	if at.Fn == "" {
		at.Fn, at.Args = ">>", []*Lin{a, Const(int64(k))}
	}
	s.AssumeRange(AtomLin(at), l, h)
	return AtomLin(at)
}

func (e *Engine) quo(s *State, a *Lin, k int64, t types.Type) *Lin {
	a = s.Norm(a)
	al, ah := s.Range(a)
	if k > 0 && al >= 0 {
		q, r := divisible(s, a, k)
		lo, hi := s.Range(r)
		if lo >= 0 && hi < k {
			return q
		}
	}
	if k > 0 && ah <= 0 {
		// truncation towards zero
		q, r := divisible(s, a.Neg(), k)
		lo, hi := s.Range(r)
		if lo >= 0 && hi < k {
			return q.Neg()
		}
	}
	if k > 0 {
		exact := a.K%k == 0
		for _, t := range a.T {
			if t.C%k != 0 {
				exact = false
			}
		}
		if exact {
			q, _ := divisible(s, a, k)
			return q
		}
	}
	lo, hi := TypeRange(t)
	if k > 0 {
		if al != NInf {
			lo = al / k
		}
		if ah != PInf {
			hi = ah / k
		}
	}
	at := e.Atom(fmt.Sprintf("(%s / %d)", a.Key(), k), lo, hi)
	if at.Fn == "" {
		at.Fn, at.Args = "/", []*Lin{a, Const(k)}
	}
	s.AssumeRange(AtomLin(at), lo, hi)
	return AtomLin(at)
}

// maskK computes a & k for a non-negative a (or a low mask).
func (e *Engine) maskK(s *State, a *Lin, k int64, t types.Type) (*Lin, bool) {
	a = s.Norm(a)
	if k == 0 {
		return Const(0), true
	}
	if k < 0 {
		// ...111000: a - (a & low)
		low := ^k
		if low&(low+1) == 0 {
			if m, ok := e.maskK(s, a, low, t); ok {
				return a.Sub(m), true
			}
		}
		return nil, false
	}
	res := Const(0)
	// contiguous runs of ones
	for bit := uint(0); bit < 63; {
		if k>>bit&1 == 0 {
			bit++
			continue
		}
		end := bit
		for end < 63 && k>>end&1 == 1 {
			end++
		}
		// (a >> bit) mod 2^(end-bit)
		sh := e.shr(s, a, bit, t)
		al, ah := s.Range(sh)
		n := end - bit
		var piece *Lin
		if n >= 62 {
			if al < 0 {
				return nil, false
			}
			piece = sh
		} else if al >= 0 && ah < int64(1)<<n {
			piece = sh
		} else if p, ok := modK(s, sh, int64(1)<<n); ok {
			piece = p
		} else {
			at := e.Atom(fmt.Sprintf("(%s mod %d)", sh.Key(), int64(1)<<n), 0, int64(1)<<n-1)
			if at.Fn == "" {
				at.Fn, at.Args = "mod", []*Lin{sh, Const(int64(1) << n)}
			}
			piece = AtomLin(at)
		}
		res = res.AddMul(piece, int64(1)<<bit)
		bit = end
	}
	return res, true
}

// support returns a mask of the bits a non-negative form may occupy.
func support(s *State, a *Lin) (uint64, bool) {
	a = s.Norm(a)
	if a.K < 0 {
		return 0, false
	}
	used := uint64(a.K)
	for _, t := range a.T {
		lo, hi := s.atomBounds(t.A)
		if lo < 0 || t.C <= 0 || hi == PInf {
			return 0, false
		}
		sh := uint(0)
		c := t.C
		for c&1 == 0 {
			c >>= 1
			sh++
		}
		m := pow2ceil(satMul(hi, c))
		if m == PInf || sh > 62 || (uint64(m)<<sh)>>sh != uint64(m) {
			return 0, false
		}
		bits := uint64(m) << sh
		if used&bits != 0 {
			_, h := s.interval(a)
			if h == PInf || h < 0 {
				return 0, false
			}
			return uint64(pow2ceil(h)), true
		}
		used |= bits
	}
	return used, true
}

func disjoint(s *State, a, b *Lin) bool {
	x, ok1 := support(s, a)
	y, ok2 := support(s, b)
	return ok1 && ok2 && x&y == 0
}

// wrap reduces an exact result to the range of t.
func (e *Engine) wrap(s *State, l *Lin, t types.Type, op string) []Alt {
	lo, hi := TypeRange(t)
	if lo == NInf && hi == PInf {
		return ret(s, l)
	}
	l = s.Norm(l)
	rl, rh := s.Range(l)
	if rl >= lo && rh <= hi {
		return ret(s, l)
	}
	if hi == PInf { // 64-bit unsigned
		if rl >= 0 {
			return ret(s, l)
		}
		if rh < 0 {
			return ret(s, AtomLin(e.Fresh("wrap64", 1<<62, PInf)))
		}
		s2 := s.Clone()
		var alts []Alt
		if s.Assume(Cmp{LE, l.Neg()}) {
			alts = append(alts, Alt{S: s, V: l})
		}
		if s2.Assume(Cmp{LE, l.AddK(1)}) {
			alts = append(alts, Alt{S: s2, V: AtomLin(e.Fresh("wrap64", 1<<62, PInf))})
		}
		return alts
	}
	bits := uint(typeBits(t))
	m := int64(1) << bits
	// drop multiples of 2^w
	r := &Lin{K: l.K}
	changed := false
	for _, tm := range l.T {
		if tm.C%m == 0 {
			changed = true
			continue
		}
		r.T = append(r.T, tm)
	}
	if r.K%m == 0 && r.K != 0 {
		r.K = 0
		changed = true
	}
	if changed {
		a, b := s.Range(r)
		if a >= lo && b <= hi {
			return ret(s, r)
		}
		l, rl, rh = r, a, b
	}
	if rl != NInf && rh != PInf {
		// at most one wrap on either side: partition
		if rl >= lo-m && rh <= hi+m {
			var alts []Alt
			parts := []struct {
				off int64
			}{{0}, {m}, {-m}}
			for i, p := range parts {
				// value l+off within [lo,hi]
				v := l.AddK(p.off)
				a, b := satAdd(rl, p.off), satAdd(rh, p.off)
				if b < lo || a > hi {
					continue
				}
				s2 := s.Clone()
				if s2.AssumeRange(v, lo, hi) {
					alts = append(alts, Alt{S: s2, V: v})
				}
				_ = i
			}
			return alts
		}
	}
	key := fmt.Sprintf("wrap%d(%s)", int(bits)*sgn(lo), l.Key())
	at := e.Atom(key, lo, hi)
	if at.Fn == "" {
		at.Fn, at.Args = "wrap", []*Lin{l}
	}
	return ret(s, AtomLin(at))
}

func sgn(lo int64) int {
	if lo < 0 {
		return -1
	}
	return 1
}

func (e *Engine) convert(s *State, fr *frame, in *ssa.Convert) []Alt {
	x := e.val(s, fr, in.X)
	tb, ok := in.Type().Underlying().(*types.Basic)
	if l, isl := x.(*Lin); isl && ok && tb.Info()&types.IsInteger != 0 {
		l = s.Norm(l)
		lo, hi := TypeRange(in.Type())
		rl, rh := s.Range(l)
		if rl < lo || rh > hi {
			e.noteObl(fr.fn, in.Pos(), "narrow", in.X.Type().String()+" to "+in.Type().String(), false, func() string {
				return fmt.Sprintf("value in [%d,%d] does not fit", rl, rh)
			})
			// truncation of a wide form: reduce modulo
			if hi != PInf && lo == 0 {
				if r, ok := modK(s, l, hi+1); ok {
					return ret(s, r)
				}
			}
		} else if hi != PInf {
			e.noteObl(fr.fn, in.Pos(), "narrow", in.X.Type().String()+" to "+in.Type().String(), true, nil)
		}
		return e.wrap(s, l, in.Type(), "conv")
	}
	switch {
	case ok && tb.Info()&types.IsInteger != 0:
		lo, hi := TypeRange(in.Type())
		return ret(s, AtomLin(e.Fresh("conv", lo, hi)))
	case ok && tb.Info()&types.IsString != 0:
		if st, ok := x.(Str); ok {
			return ret(s, st)
		}
		return ret(s, Str{Key: e.freshName("str")})
	case ok && tb.Kind() == types.UnsafePointer:
		panic(Unsupported{"unsafe conversion in " + fr.fn.String()})
	case ok:
		return ret(s, Opaque{in.Type(), e.freshName("conv")})
	}
	if _, ok := in.Type().Underlying().(*types.Slice); ok {
		return ret(s, s.Sym(e.freshName("bytes"), in.Type()))
	}
	return ret(s, x)
}

func (e *Engine) makeSlice(s *State, fr *frame, in *ssa.MakeSlice) []Alt {
	ln, cp := lin(e.val(s, fr, in.Len)), lin(e.val(s, fr, in.Cap))
	et := in.Type().Underlying().(*types.Slice).Elem()
	size := types.SizesFor("gc", "amd64").Sizeof(et)
	if size == 0 {
		size = 1
	}
	if !e.Oblige(s, fr.fn, in.Pos(), "makeslice", "non-negative length", Cmp{LE, ln.Neg()}) {
		return panicked(s, "negative make length")
	}
	if !e.Oblige(s, fr.fn, in.Pos(), "makeslice", "length within capacity", Cmp{LE, ln.Sub(cp)}) {
		return panicked(s, "make length above capacity")
	}
	if !s.Norm(cp).IsConst() {
		lim := e.MaxAlloc / size
		_, hi := s.Range(cp)
		e.noteObl(fr.fn, in.Pos(), "alloc", "data-dependent size", hi <= lim, func() string {
			return fmt.Sprintf("up to %d elements of %d bytes", hi, size)
		})
	}
	o := s.newObj(types.NewArray(et, 0), "make", in.Pos())
	s.event(Event{Kind: "make", Pos: in.Pos(), Fn: fr.fn, Obj: o.ID, Count: ln})
	return ret(s, Slice{Obj: o.ID, Lo: Const(0), Len: ln, Cap: cp, Nil: Const(0)})
}

func (e *Engine) slice(s *State, fr *frame, in *ssa.Slice) []Alt {
	x := e.val(s, fr, in.X)
	get := func(v ssa.Value, def *Lin) *Lin {
		if v == nil {
			return def
		}
		return lin(e.val(s, fr, v))
	}
	switch x := x.(type) {
	case Slice:
		lo := get(in.Low, Const(0))
		hi := get(in.High, x.Len)
		mx := get(in.Max, x.Cap)
		limit := x.Cap
		ok := e.Oblige(s, fr.fn, in.Pos(), "slice", "0 <= low", Cmp{LE, lo.Neg()}) &&
			e.Oblige(s, fr.fn, in.Pos(), "slice", "low <= high", Cmp{LE, lo.Sub(hi)}) &&
			(in.High == nil || e.Oblige(s, fr.fn, in.Pos(), "slice", "high <= cap", Cmp{LE, hi.Sub(limit)})) &&
			(in.Max == nil || e.Oblige(s, fr.fn, in.Pos(), "slice", "max <= cap", Cmp{LE, mx.Sub(limit)}))
		if !ok {
			return panicked(s, "slice bounds")
		}
		return ret(s, Slice{Obj: x.Obj, Path: x.Path, Lo: x.Lo.Add(lo), Len: hi.Sub(lo), Cap: mx.Sub(lo), Nil: x.Nil})
	case Ptr:
		if !e.Oblige(s, fr.fn, in.Pos(), "nil", "slice of array", Cmp{EQ, x.Nil}) {
			return panicked(s, "nil dereference")
		}
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		lo := get(in.Low, Const(0))
		hi := get(in.High, Const(n))
		mx := get(in.Max, Const(n))
		ok := e.Oblige(s, fr.fn, in.Pos(), "slice", "0 <= low", Cmp{LE, lo.Neg()}) &&
			e.Oblige(s, fr.fn, in.Pos(), "slice", "low <= high", Cmp{LE, lo.Sub(hi)}) &&
			e.Oblige(s, fr.fn, in.Pos(), "slice", "high <= cap", Cmp{LE, hi.AddK(-n)}) &&
			(in.Max == nil || e.Oblige(s, fr.fn, in.Pos(), "slice", "max <= cap", Cmp{LE, mx.AddK(-n)}))
		if !ok {
			return panicked(s, "slice bounds")
		}
		return ret(s, Slice{Obj: x.Obj, Path: x.Path, Lo: lo, Len: hi.Sub(lo), Cap: mx.Sub(lo), Nil: Const(0)})
	case Str:
		return ret(s, Str{Key: e.freshName("substr")})
	}
	panic(Unsupported{"slice of " + ValString(x)})
}

func (e *Engine) typeAssert(s *State, fr *frame, in *ssa.TypeAssert) []Alt {
	x, ok := e.val(s, fr, in.X).(Iface)
	if !ok {
		panic(Unsupported{"type assertion on " + ValString(e.val(s, fr, in.X))})
	}
	t := in.AssertedType
	wrapRes := func(s *State, v Val, ok bool) Alt {
		if in.CommaOk {
			return Alt{S: s, V: Tuple{v, BoolConst(ok)}}
		}
		return Alt{S: s, V: v}
	}
	var alts []Alt
	nl := s.Norm(x.Nil)
	fail := func(s *State) {
		if in.CommaOk {
			alts = append(alts, wrapRes(s, ZeroVal(t), false))
			return
		}
		e.noteObl(fr.fn, in.Pos(), "typeassert", t.String(), false, func() string { return "dynamic type may differ" })
		alts = append(alts, Alt{S: s, Panicked: true, Why: "type assertion"})
	}
	if nl.Is(1) {
		fail(s)
		return alts
	}
	if !nl.IsConst() && s.Decide(Cmp{EQ, nl}) != True {
		s2 := s.Clone()
		if s2.Assume(Cmp{NE, nl}) {
			fail(s2)
		}
		if !s.Assume(Cmp{EQ, nl}) {
			return alts
		}
	}
	if x.Dyn != nil {
		match := false
		if it, ok := t.Underlying().(*types.Interface); ok {
			match = types.Implements(x.Dyn, it)
			if match {
				return append(alts, wrapRes(s, x, true))
			}
		} else {
			match = types.Identical(x.Dyn, t)
			if match {
				return append(alts, wrapRes(s, x.V, true))
			}
		}
		fail(s)
		return alts
	}
	s2 := s.Clone()
	if types.IsInterface(t) {
		alts = append(alts, wrapRes(s, x, true))
	} else {
		alts = append(alts, wrapRes(s, s.Sym(e.freshName("assert"), t), true))
	}
	fail(s2)
	return alts
}

type mapData struct {
	Keys []Val
	Vals []Val
}

// MapEntries returns the constant entries of a map object.
func (s *State) MapEntries(id int) ([]Val, []Val) {
	if d, ok := s.Obj(id).Data.(*mapData); ok {
		return d.Keys, d.Vals
	}
	return nil, nil
}

func (e *Engine) mapUpdate(s *State, fr *frame, in *ssa.MapUpdate) {
	m, ok := e.val(s, fr, in.Map).(Map)
	if !ok {
		panic(Unsupported{"map update on " + ValString(e.val(s, fr, in.Map))})
	}
	o := s.objW(m.Obj)
	d, _ := o.Data.(*mapData)
	k, v := e.val(s, fr, in.Key), e.val(s, fr, in.Value)
	nd := &mapData{}
	if d != nil {
		nd.Keys = append(nd.Keys, d.Keys...)
		nd.Vals = append(nd.Vals, d.Vals...)
	}
	for i, kk := range nd.Keys {
		if b := e.equal(s, kk, k); b.IsConst && b.V {
			nd.Vals[i] = v
			o.Data = nd
			return
		}
	}
	nd.Keys = append(nd.Keys, k)
	nd.Vals = append(nd.Vals, v)
	o.Data = nd
	if !e.inInit {
		s.event(Event{Kind: "mapstore", Pos: in.Pos(), Fn: fr.fn, Obj: m.Obj})
	}
}

func (e *Engine) lookup(s *State, fr *frame, in *ssa.Lookup) []Alt {
	x := e.val(s, fr, in.X)
	if st, ok := x.(Str); ok {
		_ = st
		return ret(s, AtomLin(e.Fresh("strbyte", 0, 255)))
	}
	m, ok := x.(Map)
	if !ok {
		panic(Unsupported{"lookup in " + ValString(x)})
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	mk := func(s *State, v Val, ok bool) Alt {
		if in.CommaOk {
			return Alt{S: s, V: Tuple{v, BoolConst(ok)}}
		}
		return Alt{S: s, V: v}
	}
	if s.Norm(m.Nil).Is(1) {
		return []Alt{mk(s, ZeroVal(vt), false)}
	}
	d, isd := s.Obj(m.Obj).Data.(*mapData)
	key := e.val(s, fr, in.Index)
	if !isd {
		s2 := s.Clone()
		return []Alt{mk(s, s.Sym(e.freshName("mapval"), vt), true), mk(s2, ZeroVal(vt), false)}
	}
	var alts []Alt
	cur := s
	for i, k := range d.Keys {
		b := e.equal(cur, k, key)
		if b.IsConst {
			if b.V {
				return append(alts, mk(cur, d.Vals[i], true))
			}
			continue
		}
		switch cur.Decide(b.C) {
		case True:
			return append(alts, mk(cur, d.Vals[i], true))
		case False:
			continue
		}
		hit := cur.Clone()
		if hit.Assume(b.C) {
			alts = append(alts, mk(hit, d.Vals[i], true))
		}
		if !cur.Assume(b.C.Not()) {
			return alts
		}
	}
	return append(alts, mk(cur, ZeroVal(vt), false))
}
