package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Method is the target of an interface method call.
type Method struct {
	Recv Val
	M    *types.Func
}

// HuffTable is the content of a variable length code decoder.
type HuffTable struct {
	Codes  []string
	Vals   []Val
	Depth  int
	MapObj int
}

const maxErrKind = 1 << 20

func (e *Engine) callee(s *State, fr *frame, in ssa.CallInstruction) (Val, []Val) {
	c := in.Common()
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(s, fr, a))
	}
	if c.IsInvoke() {
		return Method{Recv: e.val(s, fr, c.Value), M: c.Method}, args
	}
	return e.val(s, fr, c.Value), args
}

func resultVal(vals []Val) Val {
	switch len(vals) {
	case 0:
		return Tuple{}
	case 1:
		return vals[0]
	}
	return Tuple(vals)
}

func (e *Engine) invoke(s *State, fn *ssa.Function, site ssa.CallInstruction, fv Val, args []Val) []Alt {
	switch f := fv.(type) {
	case Method:
		return e.invokeMethod(s, fn, site, f, args)
	case Func:
		if strings.HasPrefix(f.Key, "builtin:") {
			return e.builtin(s, fn, site, f.Key[8:], args)
		}
		if f.Fn != nil {
			return e.callFn(s, fn, site, f.Fn, args, f.Bind)
		}
		if !e.Oblige(s, fn, site.Pos(), "nil", "call of function value", Cmp{EQ, f.Nil}) {
			return panicked(s, "nil function call")
		}
		// unknown function value
		sig := site.Common().Value.Type().Underlying().(*types.Signature)
		return e.unknownCall(s, fn, site, f.Key, sig, args)
	}
	panic(Unsupported{"call of " + ValString(fv)})
}

// unknownCall models a call of caller-supplied code: results are unknown, and
// it is assumed to leave the library's objects alone.
func (e *Engine) unknownCall(s *State, fn *ssa.Function, site ssa.CallInstruction, key string, sig *types.Signature, args []Val) []Alt {
	if e.OnUnknown != nil {
		if alts := e.OnUnknown(s, site, key, sig, args); alts != nil {
			return alts
		}
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, s.Sym(e.freshName("ret:"+key), sig.Results().At(i).Type()))
	}
	s.event(Event{Kind: "call", Pos: site.Pos(), Fn: fn, Name: key, Args: args, Res: res})
	return ret(s, resultVal(res))
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

var inlinePkgs = map[string]bool{"image": true, "math/bits": true, "encoding/binary": true, "slices": true, "cmp": true, "errors": false}

func (e *Engine) callFn(s *State, caller *ssa.Function, site ssa.CallInstruction, fn *ssa.Function, args, bind []Val) []Alt {
	if m := e.FnModels[fn]; m != nil {
		return m(e, s, site, args)
	}
	name := fnName(fn)
	if m := e.Models[name]; m != nil {
		return m(e, s, site, args)
	}
	inl := e.P.InRepo(fn)
	if !inl && len(fn.Blocks) > 0 {
		if fn.Synthetic != "" && fn.Name() != "init" {
			inl = true
		} else if fn.Pkg != nil && inlinePkgs[fn.Pkg.Pkg.Path()] {
			inl = true
		} else if fn.Parent() != nil && inlinePkgs[pkgPathOf(fn)] {
			inl = true
		} else if o := fn.Origin(); o != nil && o.Pkg != nil && inlinePkgs[o.Pkg.Pkg.Path()] {
			inl = true
		}
	}
	if fn.Name() == "init" && !e.P.InRepo(fn) {
		return ret(s, Tuple{})
	}
	if inl && fn.Name() == "init" && len(e.callStack) > 0 && fn != e.callStack[0] {
		return ret(s, Tuple{}) // handled by Engine.Init in dependency order
	}
	if inl {
		mode := NoMerge
		var pre *State
		if e.Merge != nil {
			mode = e.Merge(fn)
		}
		if mode != NoMerge || e.OnReturn != nil {
			pre = s.Clone()
		}
		var alts []Alt
		for _, o := range e.Call(s, fn, args, bind) {
			if o.Panicked {
				alts = append(alts, Alt{S: o.S, Panicked: true, Why: o.Why})
				continue
			}
			alts = append(alts, Alt{S: o.S, V: resultVal(o.Vals)})
		}
		if e.OnReturn != nil {
			e.OnReturn(fn, pre, args, alts)
		}
		if mode != NoMerge {
			alts = e.mergeAlts(pre, fn, alts, mode == MergeAll)
		}
		return alts
	}
	return e.havocCall(s, caller, site, name, fn.Signature, args)
}

func pkgPathOf(f *ssa.Function) string {
	for ; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
	}
	return ""
}

// havocCall models an external function nothing is known about.
func (e *Engine) havocCall(s *State, fn *ssa.Function, site ssa.CallInstruction, name string, sig *types.Signature, args []Val) []Alt {
	if !e.inInit {
		e.Havocs[name]++
	}
	for _, a := range args {
		e.havocArg(s, a, name)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, s.Sym(e.freshName("ext:"+name), sig.Results().At(i).Type()))
	}
	s.event(Event{Kind: "ext", Pos: site.Pos(), Fn: fn, Name: name, Args: args, Res: res})
	return ret(s, resultVal(res))
}

func (e *Engine) havocArg(s *State, a Val, name string) {
	switch a := a.(type) {
	case Ptr:
		if a.Obj != 0 {
			s.HavocUnder(a.Obj, a.Path, name)
		}
	case Slice:
		if a.Obj != 0 {
			s.HavocUnder(a.Obj, a.Path, name)
		}
	case Iface:
		if a.V != nil {
			if st, ok := a.V.(StreamV); ok {
				e.newEpoch(s, s.Stream(st.ID))
				return
			}
			e.havocArg(s, a.V, name)
		}
	}
}

// ---- interface methods

func (e *Engine) invokeMethod(s *State, fn *ssa.Function, site ssa.CallInstruction, m Method, args []Val) []Alt {
	ifc, ok := m.Recv.(Iface)
	if !ok {
		panic(Unsupported{"method call on " + ValString(m.Recv)})
	}
	if !e.Oblige(s, fn, site.Pos(), "nil", "method call "+m.M.Name(), Cmp{EQ, ifc.Nil}) {
		return panicked(s, "nil interface call")
	}
	switch v := ifc.V.(type) {
	case StreamV:
		return e.streamOp(s, fn, site, v.ID, m.M.Name(), args)
	case *ErrVal:
		if m.M.Name() == "Error" {
			return ret(s, Str{Key: e.freshName("errstr")})
		}
	case Ptr:
		if v.Obj != 0 {
			if h, ok := s.Obj(v.Obj).Data.(*HuffTable); ok && m.M.Name() == "Decode" {
				return e.vlcDecode(s, fn, site, v.Obj, h, args[0])
			}
		}
	}
	if ifc.Dyn != nil {
		f := e.P.SSA.LookupMethod(ifc.Dyn, m.M.Pkg(), m.M.Name())
		if f == nil {
			panic(Unsupported{"method " + m.M.Name() + " of " + ifc.Dyn.String()})
		}
		return e.callFn(s, fn, site, f, append([]Val{ifc.V}, args...), nil)
	}
	sig := m.M.Type().(*types.Signature)
	if m.M.Name() == "Read" && len(args) == 1 {
		if buf, ok := args[0].(Slice); ok {
			return e.readerRead(s, fn, site, ifc.Key, buf)
		}
	}
	if m.M.Name() == "Decode" && sig.Results().Len() == 2 && len(args) == 1 {
		// decoder of unknown content
		if id, ok := e.streamOf(s, args[0]); ok {
			return e.vlcUnknown(s, fn, site, ifc.Key, id, sig)
		}
	}
	return e.unknownCall(s, fn, site, ifc.Key+"."+m.M.Name(), sig, args)
}

// readerRead models Read of an arbitrary io.Reader.
func (e *Engine) readerRead(s *State, fn *ssa.Function, site ssa.CallInstruction, key string, buf Slice) []Alt {
	s2 := s.Clone()
	n := AtomLin(e.Fresh("n:"+key, 0, 1<<40))
	s.AssumeRange(buf.Len.Sub(n), 0, PInf)
	e.opaqueRegion(s, buf, n)
	s.event(Event{Kind: "read", Pos: site.Pos(), Fn: fn, Name: key, Obj: buf.Obj, Count: n})
	n2 := AtomLin(e.Fresh("n:"+key, 0, 1<<40))
	s2.AssumeRange(buf.Len.Sub(n2), 0, PInf)
	e.opaqueRegion(s2, buf, n2)
	k := AtomLin(e.Fresh("kind:"+key, 0, maxErrKind))
	p := e.pending(s2, fn, site.Pos(), "Read "+key, 0, k)
	s2.event(Event{Kind: "read", Pos: site.Pos(), Fn: fn, Name: key, Obj: buf.Obj, Count: n2, Err: true})
	return []Alt{
		{S: s, V: Tuple{n, Iface{Nil: Const(1)}}},
		{S: s2, V: Tuple{n2, errIface(k, p)}},
	}
}

func errIface(kind *Lin, p *Pending) Iface {
	return Iface{V: &ErrVal{Kind: kind, Src: p, Name: "source error"}, Nil: Const(0)}
}

func (e *Engine) pending(s *State, fn *ssa.Function, pos token.Pos, op string, stream int, kind *Lin) *Pending {
	e.nextPend++
	p := &Pending{ID: e.nextPend, Pos: pos, Fn: fn, Op: op, Stream: stream, Kind: kind}
	s.Pend = append(s.Pend, p)
	return p
}

func (e *Engine) opaqueRegion(s *State, b Slice, n *Lin) {
	if b.Obj == 0 {
		return
	}
	s.regionWrite(b.Obj, Region{Path: b.Path, Lo: b.Lo, Len: n, Src: "opaque"})
}

// regionWrite records that elements [Lo,Lo+Len) of an array were replaced.
func (s *State) regionWrite(obj int, r Region) {
	if s.Decide(Cmp{EQ, r.Len}) == True {
		return
	}
	o := s.objW(obj)
	pre := r.Path + "["
	for _, k := range sortedKeys(o.cells) {
		if !strings.HasPrefix(k, pre) {
			continue
		}
		cs := s.E.splitPath(k[len(r.Path):])
		if len(cs) == 0 || cs[0].idx == nil {
			continue
		}
		// idx < Lo or idx >= Lo+Len ?
		if s.Decide(Cmp{LE, cs[0].idx.Sub(r.Lo).AddK(1)}) == True || s.Decide(Cmp{LE, r.Lo.Add(r.Len).Sub(cs[0].idx)}) == True {
			continue
		}
		delete(o.cells, k)
	}
	o.Log = append(o.Log, r)
	s.E.storeNote(s, obj)
}

func (e *Engine) storeNote(s *State, obj int) {}

// regionLoad resolves an element load through the content log.
func (s *State) regionLoad(o *Obj, path string, t types.Type) (Val, bool) {
	if len(o.Log) == 0 {
		return nil, false
	}
	if isAggregate(t) {
		for i := len(o.Log) - 1; i >= 0; i-- {
			r := o.Log[i]
			if r.Lo == nil {
				if under(path, r.Path) {
					return nil, false
				}
				continue
			}
			if under(r.Path, path) || under(path, r.Path) {
				a := &Agg{T: t}
				a.cells = map[string]cell{}
				a.defs = []prefDef{{"", defSym, s.E.freshName("agg")}}
				return a, true
			}
		}
		return nil, false
	}
	for k := range o.cells {
		if hasSym(k) && s.mayAlias(k, path) != False {
			return s.Sym(s.E.freshName("elem"), t), true
		}
	}
	for i := len(o.Log) - 1; i >= 0; i-- {
		r := o.Log[i]
		if r.Lo == nil {
			if under(path, r.Path) {
				return nil, false // covered by a havoc default
			}
			continue
		}
		if !strings.HasPrefix(path, r.Path+"[") {
			continue
		}
		cs := s.E.splitPath(path[len(r.Path):])
		if len(cs) != 1 || cs[0].idx == nil {
			continue
		}
		idx := cs[0].idx
		below := s.Decide(Cmp{LE, idx.Sub(r.Lo).AddK(1)})
		above := s.Decide(Cmp{LE, r.Lo.Add(r.Len).Sub(idx)})
		if below == True || above == True {
			continue
		}
		if below == False && above == False && r.Src == "stream" {
			return s.E.Bits(r.Stream, r.Epoch, s.Norm(r.Pos.AddMul(idx.Sub(r.Lo), 8)), 8), true
		}
		if below == False && above == False && r.Src == "obj" && r.SrcObj != 0 {
			// valid only while the source is unchanged; be conservative
			if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return s.Sym(s.E.freshName("elem"), t), true
			}
		}
		return s.Sym(s.E.freshName("elem"), t), true
	}
	return nil, false
}

// ---- bit reader

func (e *Engine) newEpoch(s *State, st *Stream) {
	e.nextFresh++
	st.Epoch = e.nextFresh
	st.Pos = Const(0)
	st.Avail = Const(0)
	st.AlignAt, st.NotAligned = nil, nil
}

// streamOf finds the bit reader behind an interface or pointer value.
func (e *Engine) streamOf(s *State, v Val) (int, bool) {
	switch v := v.(type) {
	case StreamV:
		return v.ID, true
	case Iface:
		if st, ok := v.V.(StreamV); ok {
			return st.ID, true
		}
		if p, ok := v.V.(Ptr); ok && v.Dyn != nil {
			pt, ok := v.Dyn.Underlying().(*types.Pointer)
			if !ok {
				return 0, false
			}
			stt, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok {
				return 0, false
			}
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				if f.Embedded() && e.isBitReader(f.Type()) {
					return e.streamOf(s, s.Load(p.Obj, p.Path+"."+f.Name(), f.Type()))
				}
			}
		}
	}
	return 0, false
}

var readWidth = map[string]int64{"Read1": 1, "Read8": 8, "Read16": 16, "Read32": 32, "Read64": 64,
	"Peek1": 1, "Peek8": 8, "Peek16": 16, "Peek32": 32, "Peek64": 64}

func (e *Engine) avail(s *State, st *Stream, n *Lin) bool {
	if e.Endless {
		return true
	}
	return s.Decide(Cmp{LE, st.Pos.Add(n).Sub(st.Avail)}) == True
}

// aligned says whether position Pos is byte aligned.
func (e *Engine) aligned(s *State, st *Stream) Tri {
	pos := s.Norm(st.Pos)
	if st.AlignAt != nil {
		d := s.Norm(pos.Sub(st.AlignAt))
		if r, ok := modK(s, d, 8); ok {
			return s.Decide(Cmp{EQ, r})
		}
		return Unknown
	}
	if st.NotAligned != nil && s.Norm(st.NotAligned).Equal(pos) {
		return False
	}
	return Unknown
}

func (e *Engine) doAlign(s *State, st *Stream) (skipped *Lin) {
	pos := s.Norm(st.Pos)
	if st.AlignAt != nil {
		if r, ok := modK(s, s.Norm(pos.Sub(st.AlignAt)), 8); ok {
			if s.Decide(Cmp{EQ, r}) == True {
				return Const(0)
			}
			if r.IsConst() {
				st.Pos = pos.AddK(8 - r.K)
				if s.Decide(Cmp{LE, st.Avail.Sub(st.Pos)}) == True {
					st.Avail = st.Pos
				}
				return Const(8 - r.K)
			}
		}
	}
	lo := int64(0)
	if e.aligned(s, st) == False {
		lo = 1
	}
	a := e.Fresh("align", lo, 7)
	st.Pos = pos.Add(AtomLin(a))
	st.AlignAt, st.NotAligned = st.Pos, nil
	return AtomLin(a)
}

func (e *Engine) raiseAvail(s *State, st *Stream, to *Lin) {
	if s.Decide(Cmp{LE, st.Avail.Sub(to)}) != False {
		st.Avail = to
	}
}

// failOp makes a failed variant of s.
func (e *Engine) failOp(s *State, fn *ssa.Function, pos token.Pos, id int, op string, peek bool) (*State, Iface) {
	f := s.Clone()
	st := f.Stream(id)
	k := AtomLin(e.Fresh("kind", 0, maxErrKind))
	if !peek {
		f.Assume(Cmp{NE, k.AddK(-KindEOF)})
	}
	p := e.pending(f, fn, pos, op, id, k)
	f.event(Event{Kind: "fail", Pos: pos, Fn: fn, Name: op, Stream: id, Epoch: st.Epoch, From: st.Pos, Err: true})
	if !peek {
		e.newEpoch(f, st)
	}
	st.Ended = true
	return f, errIface(k, p)
}

func (e *Engine) streamOp(s *State, fn *ssa.Function, site ssa.CallInstruction, id int, op string, args []Val) []Alt {
	st := s.Stream(id)
	pos := site.Pos()
	e.curSite = site
	okErr := Iface{Nil: Const(1)}
	switch op {
	case "IsAligned":
		switch e.aligned(s, st) {
		case True:
			return ret(s, BoolConst(true))
		case False:
			return ret(s, BoolConst(false))
		}
		if st.AlignAt != nil {
			// relative position not decidable: an opaque verdict
			return ret(s, Bool{C: Cmp{NE, AtomLin(e.Fresh("aligned", 0, 1))}})
		}
		s2 := s.Clone()
		st.AlignAt, st.NotAligned = st.Pos, nil
		s2.Stream(id).NotAligned = st.Pos
		return []Alt{{S: s, V: BoolConst(true)}, {S: s2, V: BoolConst(false)}}
	case "Align":
		from := st.Pos
		n := e.doAlign(s, st)
		s.event(Event{Kind: "align", Pos: pos, Fn: fn, Stream: id, Epoch: st.Epoch, From: from, To: st.Pos})
		return ret(s, Tuple{n, okErr})
	case "Skip":
		n := lin(args[0])
		return e.consume(s, fn, pos, id, op, n, func(*State, *Stream) Val { return nil })
	case "Read1", "Peek1":
		mk := func(s *State, st *Stream) Val {
			return Bool{C: Cmp{NE, AtomLin(e.Bit(id, st.Epoch, s.Norm(st.Pos)))}}
		}
		if op == "Peek1" {
			return e.peek(s, fn, pos, id, op, 1, mk)
		}
		return e.consume(s, fn, pos, id, op, Const(1), mk)
	case "Read8", "Read16", "Read32", "Read64", "Peek8", "Peek16", "Peek32", "Peek64":
		w := readWidth[op]
		n := s.Norm(lin(args[0]))
		var alts []Alt
		if s.Decide(Cmp{LE, n.AddK(-w)}) != True {
			bad := s.Clone()
			if bad.Assume(Cmp{LE, n.Neg().AddK(w + 1)}) {
				k := Const(e.ErrKind("bitreader.overflow"))
				bad.event(Event{Kind: "overflow", Pos: pos, Fn: fn, Name: op, Stream: id})
				alts = append(alts, Alt{S: bad, V: Tuple{Const(0), Iface{V: &ErrVal{Kind: k, Name: "overflow"}, Nil: Const(0)}}})
			}
			if !s.Assume(Cmp{LE, n.AddK(-w)}) {
				return alts
			}
			n = s.Norm(n)
			st = s.Stream(id)
		}
		if !n.IsConst() && e.SplitReads > 0 {
			lo, hi := s.Range(n)
			if lo >= 0 && hi-lo < int64(e.SplitReads) {
				for v := lo; v <= hi; v++ {
					c := s.Clone()
					if !c.Assume(Cmp{EQ, n.AddK(-v)}) {
						continue
					}
					alts = append(alts, e.streamOp(c, fn, site, id, op, []Val{Const(v)})...)
				}
				return alts
			}
		}
		if n.IsConst() {
			mk := func(s *State, st *Stream) Val { return e.Bits(id, st.Epoch, s.Norm(st.Pos), int(n.K)) }
			if op[0] == 'P' {
				return append(alts, e.peek(s, fn, pos, id, op, n.K, mk)...)
			}
			return append(alts, e.consume(s, fn, pos, id, op, n, mk)...)
		}
		_, hi := s.Range(n)
		mk := func(s *State, st *Stream) Val {
			top := int64(PInf)
			if hi < 62 {
				top = int64(1)<<uint(hi) - 1
			}
			a := e.Atom(fmt.Sprintf("rd s%d.%d[%s]#%s", id, st.Epoch, s.Norm(st.Pos).Key(), n.Key()), 0, top)
			a.Fn, a.Args = "readbits", []*Lin{n}
			return AtomLin(a)
		}
		if op[0] == 'P' {
			panic(Unsupported{"peek of variable width"})
		}
		return append(alts, e.consume(s, fn, pos, id, op, n, mk)...)
	case "Read":
		return e.streamRead(s, fn, site, id, args[0].(Slice), "Read", false)
	}
	panic(Unsupported{"bit reader method " + op})
}

// errUnused says whether the error result of a call is never looked at.
func errUnused(site ssa.CallInstruction) bool {
	v := site.Value()
	if v == nil || v.Referrers() == nil {
		return v == nil
	}
	tp, ok := v.Type().(*types.Tuple)
	if !ok {
		return len(*v.Referrers()) == 0
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Extract:
			if r.Index == tp.Len()-1 && r.Referrers() != nil {
				for _, q := range *r.Referrers() {
					if _, dbg := q.(*ssa.DebugRef); !dbg {
						return false
					}
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// dropped notes reads whose error is discarded on the spot. Their failure is
// then not followed any further.
func (e *Engine) dropped(fn *ssa.Function, pos token.Pos, op string) bool {
	if !e.PruneDropped || e.curSite == nil || !errUnused(e.curSite) {
		return false
	}
	e.noteObl(fn, pos, "dropped-error", op, false, func() string { return "the error of a failing " + op + " is discarded" })
	return true
}

func (e *Engine) consume(s *State, fn *ssa.Function, pos token.Pos, id int, op string, n *Lin, mk func(*State, *Stream) Val) []Alt {
	st := s.Stream(id)
	var alts []Alt
	wrap := func(v Val, err Iface) Val {
		if op == "Skip" {
			return err
		}
		return Tuple{v, err}
	}
	infallible := s.Decide(Cmp{LE, n}) == True || e.avail(s, st, n)
	if !infallible && !e.dropped(fn, pos, op) {
		f, err := e.failOp(s, fn, pos, id, op, false)
		var z Val = Const(0)
		if op == "Read1" {
			z = BoolConst(false)
		}
		alts = append(alts, Alt{S: f, V: wrap(z, err)})
	}
	v := mk(s, st)
	from := st.Pos
	st.Pos = s.Norm(st.Pos.Add(n))
	if !infallible {
		st.Avail = st.Pos
	}
	s.event(Event{Kind: "consume", Pos: pos, Fn: fn, Name: op, Stream: id, Epoch: st.Epoch, From: from, To: st.Pos, Val: v})
	return append([]Alt{{S: s, V: wrap(v, Iface{Nil: Const(1)})}}, alts...)
}

func (e *Engine) peek(s *State, fn *ssa.Function, pos token.Pos, id int, op string, n int64, mk func(*State, *Stream) Val) []Alt {
	st := s.Stream(id)
	var alts []Alt
	if n > 0 && !e.avail(s, st, Const(n)) && !e.dropped(fn, pos, op) {
		f, err := e.failOp(s, fn, pos, id, op, true)
		var z Val = Const(0)
		if op == "Peek1" {
			z = BoolConst(false)
		}
		alts = append(alts, Alt{S: f, V: Tuple{z, err}})
	}
	v := mk(s, st)
	e.raiseAvail(s, st, s.Norm(st.Pos.AddK(n)))
	s.event(Event{Kind: "peek", Pos: pos, Fn: fn, Name: op, Stream: id, Epoch: st.Epoch, From: st.Pos, To: st.Pos.AddK(n), Val: v})
	return append([]Alt{{S: s, V: Tuple{v, Iface{Nil: Const(1)}}}}, alts...)
}

// streamRead models br.Read(p) (full=false) and the io.ReadFull family.
func (e *Engine) streamRead(s *State, fn *ssa.Function, site ssa.CallInstruction, id int, buf Slice, op string, full bool) []Alt {
	pos := site.Pos()
	if full {
		if s.Decide(Cmp{EQ, buf.Len}) == True {
			return ret(s, Tuple{Const(0), Iface{Nil: Const(1)}})
		}
		var alts []Alt
		// failure variants
		base := s.Clone()
		if base.Assume(Cmp{LE, buf.Len.Neg().AddK(1)}) && !e.availAfterAlign(s, id, buf.Len) {
			f1 := base.Clone()
			st1 := f1.Stream(id)
			p := e.pending(f1, fn, pos, op, id, Const(KindEOF))
			f1.event(Event{Kind: "fail", Pos: pos, Fn: fn, Name: op, Stream: id, Epoch: st1.Epoch, From: st1.Pos, Err: true})
			st1.Ended = true
			e.newEpoch(f1, st1)
			alts = append(alts, Alt{S: f1, V: Tuple{Const(0), errIface(Const(KindEOF), p)}})
			f2, err := e.failOp(base, fn, pos, id, op, false)
			n := AtomLin(e.Fresh("partial", 0, 1<<40))
			f2.AssumeRange(buf.Len.Sub(n), 1, PInf)
			e.opaqueRegion(f2, buf, n)
			f2.event(Event{Kind: "partial", Pos: pos, Fn: fn, Obj: buf.Obj, Count: n})
			alts = append(alts, Alt{S: f2, V: Tuple{n, err}})
		}
		st := s.Stream(id)
		from := st.Pos
		e.doAlign(s, st)
		at := s.Norm(st.Pos)
		st.Pos = s.Norm(st.Pos.AddMul(buf.Len, 8))
		e.raiseAvail(s, st, st.Pos)
		if buf.Obj != 0 {
			s.regionWrite(buf.Obj, Region{Path: buf.Path, Lo: buf.Lo, Len: buf.Len, Src: "stream", Stream: id, Epoch: st.Epoch, Pos: at})
		}
		s.event(Event{Kind: "consume", Pos: pos, Fn: fn, Name: op, Stream: id, Epoch: st.Epoch, From: from, To: st.Pos, Obj: buf.Obj, Path: buf.Path, DstLo: buf.Lo, Count: buf.Len})
		return append([]Alt{{S: s, V: Tuple{buf.Len, Iface{Nil: Const(1)}}}}, alts...)
	}
	// plain Read: any n
	s2 := s.Clone()
	st := s.Stream(id)
	from := st.Pos
	e.doAlign(s, st)
	n := AtomLin(e.Fresh("read", 0, 1<<40))
	s.AssumeRange(buf.Len.Sub(n), 0, PInf)
	at := s.Norm(st.Pos)
	st.Pos = s.Norm(st.Pos.AddMul(n, 8))
	e.raiseAvail(s, st, st.Pos)
	if buf.Obj != 0 {
		s.regionWrite(buf.Obj, Region{Path: buf.Path, Lo: buf.Lo, Len: n, Src: "stream", Stream: id, Epoch: st.Epoch, Pos: at})
	}
	s.event(Event{Kind: "consume", Pos: pos, Fn: fn, Name: op, Stream: id, Epoch: st.Epoch, From: from, To: st.Pos, Obj: buf.Obj, Count: n})
	f, err := e.failOp(s2, fn, pos, id, op, true)
	e.newEpoch(f, f.Stream(id))
	n2 := AtomLin(e.Fresh("read", 0, 1<<40))
	f.AssumeRange(buf.Len.Sub(n2), 0, PInf)
	e.opaqueRegion(f, buf, n2)
	return []Alt{{S: s, V: Tuple{n, Iface{Nil: Const(1)}}}, {S: f, V: Tuple{n2, err}}}
}

func (e *Engine) availAfterAlign(s *State, id int, n *Lin) bool {
	st := s.Stream(id)
	if e.aligned(s, st) != True {
		return false
	}
	return s.Decide(Cmp{LE, st.Pos.AddMul(n, 8).Sub(st.Avail)}) == True
}

// ---- variable length codes

func valTypeKey(v Val) string {
	if f, ok := v.(Iface); ok && f.Dyn != nil {
		return f.Dyn.String()
	}
	return "?"
}

func (e *Engine) vlcDecode(s *State, fn *ssa.Function, site ssa.CallInstruction, obj int, h *HuffTable, src Val) []Alt {
	id, ok := e.streamOf(s, src)
	if !ok {
		panic(Unsupported{"Decode from " + ValString(src)})
	}
	pos := site.Pos()
	nilErr := Iface{Nil: Const(1)}
	var alts []Alt
	st := s.Stream(id)
	if !e.avail(s, st, Const(int64(h.Depth))) {
		f, err := e.failOp(s, fn, pos, id, "Decode", true)
		alts = append(alts, Alt{S: f, V: Tuple{Iface{Nil: Const(1)}, err}})
	}
	e.raiseAvail(s, st, s.Norm(st.Pos.AddK(int64(h.Depth))))
	// missing code word
	miss := s.Clone()
	mk := Const(e.ErrKind("huffman.ErrMissingHuffmanValue"))
	if !e.Endless {
		alts = append(alts, Alt{S: miss, V: Tuple{Iface{Nil: Const(1)}, Iface{V: &ErrVal{Kind: mk, Name: "huffman.ErrMissingHuffmanValue"}, Nil: Const(0)}}})
	}
	type group struct {
		vals []Iface
		lens []int
	}
	var order []string
	groups := map[string]*group{}
	for i, v := range h.Vals {
		f, ok := v.(Iface)
		if !ok {
			f = Iface{V: v, Nil: Const(0)}
		}
		k := valTypeKey(f)
		if _, isp := f.V.(Ptr); isp {
			k = fmt.Sprintf("%s#%d", k, i)
		}
		if groups[k] == nil {
			groups[k] = &group{}
			order = append(order, k)
		}
		groups[k].vals = append(groups[k].vals, f)
		groups[k].lens = append(groups[k].lens, len(cleanCode(h.Codes[i])))
	}
	name := s.Obj(obj).Name
	for _, k := range order {
		g := groups[k]
		c := s.Clone()
		cst := c.Stream(id)
		ll, lh := g.lens[0], g.lens[0]
		for _, l := range g.lens {
			ll, lh = min(ll, l), max(lh, l)
		}
		var n *Lin
		if ll == lh {
			n = Const(int64(ll))
		} else {
			n = AtomLin(e.Fresh("codelen", int64(ll), int64(lh)))
		}
		v := e.joinVals(c, g.vals, name)
		from := cst.Pos
		cst.Pos = c.Norm(cst.Pos.Add(n))
		c.event(Event{Kind: "vlc", Pos: pos, Fn: fn, Obj: obj, Stream: id, Epoch: cst.Epoch, From: from, To: cst.Pos, Val: v})
		alts = append(alts, Alt{S: c, V: Tuple{v, nilErr}})
	}
	return alts
}

func cleanCode(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '0' || r == '1' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// fullBits: the values are exactly the numbers of n bits.
func fullBits(s *State, vs []Iface, hi int64) int {
	n := 0
	for int64(1)<<uint(n) <= hi && n < 16 {
		n++
	}
	if hi != int64(1)<<uint(n)-1 || n < 4 || len(vs) != 1<<uint(n) {
		return 0
	}
	seen := map[int64]bool{}
	for _, v := range vs {
		l := s.Norm(v.V.(*Lin))
		if !l.IsConst() || l.K < 0 {
			return 0
		}
		seen[l.K] = true
	}
	if len(seen) != len(vs) {
		return 0
	}
	return n
}

// joinVals merges table values of one dynamic type.
func (e *Engine) joinVals(s *State, vs []Iface, name string) Iface {
	if len(vs) == 1 {
		return vs[0]
	}
	f := vs[0]
	switch v0 := f.V.(type) {
	case *Lin:
		lo, hi := int64(PInf), int64(NInf)
		for _, v := range vs {
			a, b := s.Range(v.V.(*Lin))
			lo, hi = min(lo, a), max(hi, b)
		}
		if n := fullBits(s, vs, hi); lo == 0 && n > 0 {
			r := Const(0)
			for i := n - 1; i >= 0; i-- {
				r = r.AddMul(AtomLin(e.Fresh(fmt.Sprintf("vlc:%s.%d", name, i), 0, 1)), int64(1)<<uint(i))
			}
			return Iface{Dyn: f.Dyn, V: r, Nil: Const(0)}
		}
		a := e.Fresh("vlc:"+name, lo, hi)
		a.Fn = "vlc:" + name
		return Iface{Dyn: f.Dyn, V: AtomLin(a), Nil: Const(0)}
	case *Agg:
		st, ok := f.Dyn.Underlying().(*types.Struct)
		if !ok {
			break
		}
		r := &Agg{T: f.Dyn}
		r.cells = map[string]cell{}
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			var sub []Iface
			ok := true
			for _, v := range vs {
				x := s.AggGet(v.V.(*Agg), "."+fd.Name(), fd.Type())
				if _, isl := x.(*Lin); !isl {
					ok = false
				}
				sub = append(sub, Iface{Dyn: fd.Type(), V: x})
			}
			if ok {
				r.cells["."+fd.Name()] = cell{e.joinVals(s, sub, name+"."+fd.Name()).V, fd.Type()}
			} else {
				r.cells["."+fd.Name()] = cell{s.Sym(e.freshName("vlc:"+name+"."+fd.Name()), fd.Type()), fd.Type()}
			}
		}
		_ = v0
		return Iface{Dyn: f.Dyn, V: r, Nil: Const(0)}
	}
	return Iface{Dyn: f.Dyn, V: s.Sym(e.freshName("vlc:"+name), f.Dyn), Nil: Const(0)}
}

func (e *Engine) vlcUnknown(s *State, fn *ssa.Function, site ssa.CallInstruction, key string, id int, sig *types.Signature) []Alt {
	pos := site.Pos()
	f, err := e.failOp(s, fn, pos, id, "Decode", true)
	miss := s.Clone()
	mk := Const(e.ErrKind("huffman.ErrMissingHuffmanValue"))
	st := s.Stream(id)
	n := AtomLin(e.Fresh("codelen", 1, 32))
	from := st.Pos
	st.Pos = s.Norm(st.Pos.Add(n))
	v := s.Sym(e.freshName("vlc:"+key), sig.Results().At(0).Type())
	s.event(Event{Kind: "vlc", Pos: pos, Fn: fn, Name: key, Stream: id, Epoch: st.Epoch, From: from, To: st.Pos, Val: v})
	if e.Endless {
		return ret(s, Tuple{v, Iface{Nil: Const(1)}})
	}
	return []Alt{{S: s, V: Tuple{v, Iface{Nil: Const(1)}}}, {S: f, V: Tuple{Iface{Nil: Const(1)}, err}},
		{S: miss, V: Tuple{Iface{Nil: Const(1)}, Iface{V: &ErrVal{Kind: mk, Name: "huffman.ErrMissingHuffmanValue"}, Nil: Const(0)}}}}
}

// ---- builtins

func (e *Engine) builtin(s *State, fn *ssa.Function, site ssa.CallInstruction, name string, args []Val) []Alt {
	pos := site.Pos()
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case Slice:
			if name == "len" {
				return ret(s, a.Len)
			}
			return ret(s, a.Cap)
		case Str:
			if a.Known {
				return ret(s, Const(int64(len(a.S))))
			}
			return ret(s, AtomLin(e.Atom("len:"+a.Key, 0, 1<<40)))
		case *Agg:
			return ret(s, Const(a.T.Underlying().(*types.Array).Len()))
		case Ptr:
			t := site.Common().Args[0].Type().Underlying().(*types.Pointer).Elem()
			return ret(s, Const(t.Underlying().(*types.Array).Len()))
		case Map:
			if d, ok := s.Obj(a.Obj).Data.(*mapData); ok {
				return ret(s, Const(int64(len(d.Keys))))
			}
		}
		return ret(s, AtomLin(e.Fresh("len", 0, 1<<40)))
	case "append":
		return e.appendSlice(s, fn, site, args)
	case "copy":
		return e.copySlice(s, fn, site, args)
	case "close":
		c, _ := args[0].(Chan)
		s.event(Event{Kind: "close", Pos: pos, Fn: fn, Obj: c.Obj, Args: args})
		return ret(s, Tuple{})
	case "min", "max":
		alts := []Alt{{S: s, V: args[0]}}
		for _, a := range args[1:] {
			var next []Alt
			for _, x := range alts {
				cur, ok1 := x.V.(*Lin)
				b, ok2 := a.(*Lin)
				if !ok1 || !ok2 {
					next = append(next, Alt{S: x.S, V: Opaque{site.Common().Args[0].Type(), e.freshName("minmax")}})
					continue
				}
				c := Cmp{LE, cur.Sub(b)} // cur <= b
				pick := func(t bool) Val {
					if t == (name == "min") {
						return cur
					}
					return b
				}
				d := x.S.Decide(c)
				if d == Unknown && x.S.Decide(Cmp{LE, b.Sub(cur)}) == True {
					d = False // they may be equal: either is right
				}
				switch d {
				case True:
					next = append(next, Alt{S: x.S, V: pick(true)})
				case False:
					next = append(next, Alt{S: x.S, V: pick(false)})
				default:
					s2 := x.S.Clone()
					if x.S.Assume(c) {
						next = append(next, Alt{S: x.S, V: pick(true)})
					}
					if s2.Assume(c.Not()) {
						next = append(next, Alt{S: s2, V: pick(false)})
					}
				}
			}
			alts = next
		}
		return alts
	case "print", "println":
		return ret(s, Tuple{})
	case "recover":
		// only in the deferred function itself
		if l, ok := s.Ghost[panicGhost].(*Lin); ok && l.IsConst() && l.K == int64(len(e.callStack)) {
			delete(s.Ghost, panicGhost)
			s.event(Event{Kind: "recover", Fn: fn})
			return ret(s, Iface{Nil: Const(0), Key: "recovered"})
		}
		return ret(s, Iface{Nil: Const(1)})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok {
			if !e.Oblige(s, fn, pos, "nil", "method value", Cmp{EQ, p.Nil}) {
				return panicked(s, "nil dereference")
			}
		}
		return ret(s, args[0])
	case "delete":
		if m, ok := args[0].(Map); ok && m.Obj != 0 {
			s.objW(m.Obj).Data = nil
			s.event(Event{Kind: "mapstore", Pos: pos, Fn: fn, Obj: m.Obj})
		}
		return ret(s, Tuple{})
	case "clear":
		if b, ok := args[0].(Slice); ok && b.Obj != 0 {
			lo, n := s.Norm(b.Lo), s.Norm(b.Len)
			if lo.IsConst() && n.IsConst() && n.K <= 4096 {
				et := elemType(site.Common().Args[0].Type())
				for i := lo.K; i < lo.K+n.K; i++ {
					p := b.Path + e.idxPath(s, Const(i))
					if e.OnStore != nil {
						e.OnStore(s, b.Obj, p, ZeroVal(et), pos, fn)
					}
					s.Store(b.Obj, p, et, ZeroVal(et))
				}
				return ret(s, Tuple{})
			}
			s.HavocUnder(b.Obj, b.Path, "clear")
			s.event(Event{Kind: "clear", Pos: pos, Fn: fn, Obj: b.Obj, Path: b.Path, DstLo: b.Lo, Count: b.Len})
			s.event(Event{Kind: "store", Pos: pos, Fn: fn, Obj: b.Obj, Path: b.Path})
		}
		return ret(s, Tuple{})
	}
	panic(Unsupported{"builtin " + name})
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// copyElems copies a constant number of elements cell by cell.
func (e *Engine) copyElems(s *State, dst, src Slice, n int64, et types.Type) {
	var vals []Val
	for i := int64(0); i < n; i++ {
		vals = append(vals, s.Load(src.Obj, src.Path+e.idxPath(s, src.Lo.AddK(i)), et))
	}
	for i := int64(0); i < n; i++ {
		s.Store(dst.Obj, dst.Path+e.idxPath(s, dst.Lo.AddK(i)), et, vals[i])
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) copySlice(s *State, fn *ssa.Function, site ssa.CallInstruction, args []Val) []Alt {
	dst, ok := args[0].(Slice)
	if !ok {
		panic(Unsupported{"copy into " + ValString(args[0])})
	}
	et := elemType(site.Common().Args[0].Type())
	src, ok := args[1].(Slice)
	if !ok {
		n := AtomLin(e.Fresh("copied", 0, 1<<40))
		s.AssumeRange(dst.Len.Sub(n), 0, PInf)
		e.opaqueRegion(s, dst, n)
		return ret(s, n)
	}
	do := func(s *State, n *Lin) Alt {
		n = s.Norm(n)
		s.event(Event{Kind: "copy", Pos: site.Pos(), Fn: fn, Obj: dst.Obj, Path: dst.Path, DstLo: dst.Lo, SrcObj: src.Obj, SrcPath: src.Path, SrcLo: src.Lo, Count: n})
		e.moveElems(s, dst, src, n, et)
		return Alt{S: s, V: n}
	}
	c := Cmp{LE, dst.Len.Sub(src.Len)}
	switch s.Decide(c) {
	case True:
		return []Alt{do(s, dst.Len)}
	case False:
		return []Alt{do(s, src.Len)}
	}
	if e.TrustBounds {
		// what is open-ended is long enough
		if dc, sc := s.Norm(dst.Len).IsConst(), s.Norm(src.Len).IsConst(); dc != sc {
			if dc {
				return []Alt{do(s, dst.Len)}
			}
			return []Alt{do(s, src.Len)}
		}
	}
	s2 := s.Clone()
	var alts []Alt
	if s.Assume(c) {
		alts = append(alts, do(s, dst.Len))
	}
	if s2.Assume(c.Not()) {
		alts = append(alts, do(s2, src.Len))
	}
	return alts
}

func (e *Engine) moveElems(s *State, dst, src Slice, n *Lin, et types.Type) {
	if dst.Obj == 0 || s.Decide(Cmp{EQ, n}) == True {
		return
	}
	if n.IsConst() && n.K <= 256 && src.Obj != 0 {
		lim := int64(256)
		if isByte(et) && len(s.Obj(src.Obj).Log) > 0 {
			lim = 16
		}
		if n.K <= lim {
			e.copyElems(s, dst, src, n.K, et)
			return
		}
	}
	s.regionWrite(dst.Obj, Region{Path: dst.Path, Lo: dst.Lo, Len: n, Src: "obj", SrcObj: src.Obj, SrcPath: src.Path, Pos: src.Lo})
}

func (e *Engine) appendSlice(s *State, fn *ssa.Function, site ssa.CallInstruction, args []Val) []Alt {
	x, ok := args[0].(Slice)
	if !ok {
		panic(Unsupported{"append to " + ValString(args[0])})
	}
	if len(args) == 1 {
		return ret(s, x)
	}
	st, isSt := site.Common().Args[0].Type().Underlying().(*types.Slice)
	if !isSt {
		panic(Unsupported{"append"})
	}
	et := st.Elem()
	y, ok := args[1].(Slice)
	if !ok {
		y = Slice{Lo: Const(0), Len: AtomLin(e.Fresh("strlen", 0, 1<<40)), Nil: Const(0)}
		y.Cap = y.Len
	}
	if s.Decide(Cmp{EQ, y.Len}) == True {
		return ret(s, x)
	}
	if s.Decide(Cmp{EQ, x.Nil}) != True && s.Decide(Cmp{EQ, y.Len}) != False {
		// nothing is appended to what may be nil
		z := s.Clone()
		if z.Assume(Cmp{EQ, y.Len}) {
			r := ret(z, x)
			if s.Assume(Cmp{LE, Const(1).Sub(y.Len)}) {
				r = append(r, e.appendSlice(s, fn, site, args)...)
			}
			return r
		}
	}
	nl := s.Norm(x.Len.Add(y.Len))
	grow := func(s *State) Alt {
		o := s.newObj(types.NewArray(et, 0), "append", site.Pos())
		cp := AtomLin(e.Fresh("cap", 0, 1<<41))
		s.AssumeRange(cp.Sub(nl), 0, PInf)
		r := Slice{Obj: o.ID, Lo: Const(0), Len: nl, Cap: cp, Nil: Const(0)}
		if x.Obj != 0 && s.Decide(Cmp{EQ, x.Len}) != True {
			if x.Path == "" && s.Norm(x.Lo).Is(0) {
				ob := s.objW(o.ID)
				src := s.Obj(x.Obj)
				ob.mem = src.cloneMem()
				ob.Log = append([]Region(nil), src.Log...)
			} else {
				e.moveElems(s, r, x, x.Len, et)
			}
		}
		s.event(Event{Kind: "append", Pos: site.Pos(), Fn: fn, Obj: o.ID, SrcObj: x.Obj, SrcPath: x.Path, SrcLo: x.Lo, DstLo: x.Len, Count: y.Len, Args: args, Name: "grow", T: et})
		s.event(Event{Kind: "copy", Pos: site.Pos(), Fn: fn, Name: "append", Obj: o.ID, DstLo: x.Len, SrcObj: y.Obj, SrcPath: y.Path, SrcLo: y.Lo, Count: y.Len})
		e.appendTail(s, Slice{Obj: o.ID, Lo: x.Len, Len: y.Len}, y, et)
		return Alt{S: s, V: r}
	}
	inplace := func(s *State) Alt {
		s.event(Event{Kind: "append", Pos: site.Pos(), Fn: fn, Obj: x.Obj, SrcObj: x.Obj, SrcPath: x.Path, SrcLo: x.Lo, DstLo: x.Lo.Add(x.Len), Count: y.Len, Args: args, Name: "inplace", T: et})
		s.event(Event{Kind: "copy", Pos: site.Pos(), Fn: fn, Name: "append", Obj: x.Obj, Path: x.Path, DstLo: x.Lo.Add(x.Len), SrcObj: y.Obj, SrcPath: y.Path, SrcLo: y.Lo, Count: y.Len})
		e.appendTail(s, Slice{Obj: x.Obj, Path: x.Path, Lo: x.Lo.Add(x.Len), Len: y.Len}, y, et)
		return Alt{S: s, V: Slice{Obj: x.Obj, Path: x.Path, Lo: x.Lo, Len: nl, Cap: x.Cap, Nil: Const(0)}}
	}
	if x.Obj == 0 {
		return []Alt{grow(s)}
	}
	c := Cmp{LE, nl.Sub(x.Cap)}
	switch s.Decide(c) {
	case True:
		return []Alt{inplace(s)}
	case False:
		return []Alt{grow(s)}
	}
	s2 := s.Clone()
	var alts []Alt
	if s.Assume(c) {
		alts = append(alts, inplace(s))
	}
	if s2.Assume(c.Not()) {
		alts = append(alts, grow(s2))
	}
	return alts
}

func (e *Engine) appendTail(s *State, dst, y Slice, et types.Type) {
	n := s.Norm(y.Len)
	if n.IsConst() && n.K <= 16 && y.Obj != 0 {
		e.copyElems(s, dst, y, n.K, et)
		return
	}
	e.moveElems(s, dst, y, n, et)
}

// ---- library models

type bufRef struct {
	obj  int
	path string
}

func (e *Engine) bufCounters(s *State, b bufRef) (wr, rd *Lin) {
	it := types.Typ[types.Int]
	wr = s.Norm(lin(s.Load(b.obj, b.path+".#wr", it)))
	rd = s.Norm(lin(s.Load(b.obj, b.path+".#rd", it)))
	s.Store(b.obj, b.path+".#wr", it, wr)
	s.Store(b.obj, b.path+".#rd", it, rd)
	s.AssumeRange(wr.Sub(rd), 0, 1<<40)
	s.AssumeRange(rd, 0, 1<<50)
	return s.Norm(wr), s.Norm(rd)
}

// BufCounters returns bytes ever written to and read from a bytes.Buffer.
func (e *Engine) BufCounters(s *State, obj int, path string) (wr, rd *Lin) {
	return e.bufCounters(s, bufRef{obj, path})
}

func (e *Engine) bufSet(s *State, b bufRef, which string, v *Lin) {
	s.Store(b.obj, b.path+".#"+which, types.Typ[types.Int], v)
}

func bufOf(v Val) (bufRef, bool) {
	if p, ok := v.(Ptr); ok && p.Obj != 0 {
		return bufRef{p.Obj, p.Path}, true
	}
	return bufRef{}, false
}

func (e *Engine) bufRead(s *State, fn *ssa.Function, site ssa.CallInstruction, b bufRef, p Slice) []Alt {
	wr, rd := e.bufCounters(s, b)
	avail := wr.Sub(rd)
	var alts []Alt
	eof := Iface{V: &ErrVal{Kind: Const(KindEOF), Name: "io.EOF"}, Nil: Const(0)}
	emp := s.Clone()
	if emp.Assume(Cmp{EQ, avail}) {
		e2 := emp.Clone()
		if emp.Assume(Cmp{EQ, p.Len}) {
			alts = append(alts, Alt{S: emp, V: Tuple{Const(0), Iface{Nil: Const(1)}}})
		}
		if e2.Assume(Cmp{LE, p.Len.Neg().AddK(1)}) {
			e2.event(Event{Kind: "bufempty", Pos: site.Pos(), Fn: fn, Obj: b.obj, Path: b.path})
			alts = append(alts, Alt{S: e2, V: Tuple{Const(0), eof}})
		}
	}
	if !s.Assume(Cmp{LE, avail.Neg().AddK(1)}) {
		return alts
	}
	do := func(s *State, n *Lin) Alt {
		n = s.Norm(n)
		s.event(Event{Kind: "bufread", Pos: site.Pos(), Fn: fn, Obj: p.Obj, Path: p.Path, DstLo: p.Lo, SrcObj: b.obj, SrcPath: b.path, SrcLo: rd, Count: n})
		if p.Obj != 0 {
			s.regionWrite(p.Obj, Region{Path: p.Path, Lo: p.Lo, Len: n, Src: "buf", SrcObj: b.obj, SrcPath: b.path, Pos: rd})
		}
		e.bufSet(s, b, "rd", s.Norm(rd.Add(n)))
		return Alt{S: s, V: Tuple{n, Iface{Nil: Const(1)}}}
	}
	s2 := s.Clone()
	c := Cmp{LE, p.Len.Sub(avail)}
	if s.Assume(c) {
		alts = append(alts, do(s, p.Len))
	}
	if s2.Assume(c.Not()) {
		alts = append(alts, do(s2, avail))
	}
	return alts
}

func (e *Engine) bufWrite(s *State, fn *ssa.Function, site ssa.CallInstruction, b bufRef, p Slice) {
	wr, _ := e.bufCounters(s, b)
	s.event(Event{Kind: "bufwrite", Pos: site.Pos(), Fn: fn, Obj: b.obj, Path: b.path, DstLo: wr, SrcObj: p.Obj, SrcPath: p.Path, SrcLo: p.Lo, Count: s.Norm(p.Len)})
	e.bufSet(s, b, "wr", s.Norm(wr.Add(p.Len)))
}

// bufTake removes all unread bytes into a fresh slice.
func (e *Engine) bufTake(s *State, fn *ssa.Function, site ssa.CallInstruction, b bufRef) Slice {
	wr, rd := e.bufCounters(s, b)
	n := s.Norm(wr.Sub(rd))
	o := s.newObj(types.NewArray(types.Typ[types.Uint8], 0), "drained", site.Pos())
	s.event(Event{Kind: "bufread", Pos: site.Pos(), Fn: fn, Obj: o.ID, DstLo: Const(0), SrcObj: b.obj, SrcPath: b.path, SrcLo: rd, Count: n, Name: "all"})
	s.regionWrite(o.ID, Region{Lo: Const(0), Len: n, Src: "buf", SrcObj: b.obj, SrcPath: b.path, Pos: rd})
	e.bufSet(s, b, "rd", wr)
	cp := AtomLin(e.Fresh("cap", 0, 1<<41))
	s.AssumeRange(cp.Sub(n), 0, PInf)
	return Slice{Obj: o.ID, Lo: Const(0), Len: n, Cap: cp, Nil: Const(0)}
}

func siteFn(site ssa.CallInstruction) *ssa.Function { return site.Parent() }

func installModels(e *Engine) {
	m := e.Models
	nilErr := Iface{Nil: Const(1)}
	m["github.com/32bitkid/bitreader.NewReader"] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		f, _ := args[0].(Iface)
		key := f.Key
		if key == "" {
			key = e.freshName("src")
		}
		return ret(s, Iface{V: StreamV{e.StreamID("reader(" + key + ")")}, Nil: Const(0), Key: key})
	}
	m["github.com/32bitkid/bitreader.NewBitReader"] = m["github.com/32bitkid/bitreader.NewReader"]
	readFull := func(minArg int) Model {
		return func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
			buf, ok := args[1].(Slice)
			if !ok {
				panic(Unsupported{"ReadFull into " + ValString(args[1])})
			}
			var pre []Alt
			mn := buf.Len
			if minArg > 0 {
				mn = s.Norm(lin(args[minArg]))
				// min > len(buf): ErrShortBuffer
				c := Cmp{LE, mn.Sub(buf.Len)}
				if s.Decide(c) != True {
					bad := s.Clone()
					if bad.Assume(c.Not()) {
						pre = append(pre, Alt{S: bad, V: Tuple{Const(0), Iface{V: &ErrVal{Kind: Const(e.ErrKind("io.ErrShortBuffer")), Name: "io.ErrShortBuffer"}, Nil: Const(0)}}})
					}
					if !s.Assume(c) {
						return pre
					}
				}
				if s.Decide(Cmp{EQ, mn.Sub(buf.Len)}) != True {
					// partial reads allowed: n in [min,len]
					n := AtomLin(e.Fresh("atleast", 0, 1<<40))
					s.AssumeRange(buf.Len.Sub(n), 0, PInf)
					s.AssumeRange(n.Sub(mn), 0, PInf)
					buf = Slice{Obj: buf.Obj, Path: buf.Path, Lo: buf.Lo, Len: n, Cap: buf.Cap, Nil: buf.Nil}
				}
			}
			if id, ok := e.streamOf(s, args[0]); ok {
				return append(pre, e.streamRead(s, siteFn(site), site, id, buf, "ReadFull", true)...)
			}
			f, _ := args[0].(Iface)
			if b, ok := bufOf(f.V); ok && f.Dyn != nil && strings.HasSuffix(f.Dyn.String(), "bytes.Buffer") {
				for _, a := range e.bufRead(s, siteFn(site), site, b, buf) {
					pre = append(pre, a)
				}
				return pre
			}
			alts := e.readerRead(s, siteFn(site), site, f.Key, buf)
			if len(alts) > 0 {
				t := alts[0].V.(Tuple)
				alts[0].S.Assume(Cmp{EQ, t[0].(*Lin).Sub(buf.Len)})
			}
			return append(pre, alts...)
		}
	}
	m["io.ReadFull"] = readFull(0)
	m["io.ReadAtLeast"] = readFull(2)
	readAll := func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		if id, ok := e.streamOf(s, args[0]); ok {
			f, err := e.failOp(s, siteFn(site), site.Pos(), id, "ReadAll", false)
			mk := func(s *State) (Slice, *Lin) {
				o := s.newObj(types.NewArray(types.Typ[types.Uint8], 0), "readall", site.Pos())
				n := AtomLin(e.Fresh("readall", 0, 1<<40))
				cp := AtomLin(e.Fresh("cap", 0, 1<<41))
				s.AssumeRange(cp.Sub(n), 0, PInf)
				return Slice{Obj: o.ID, Lo: Const(0), Len: n, Cap: cp, Nil: Const(0)}, n
			}
			d2, n2 := mk(f)
			st := s.Stream(id)
			from := st.Pos
			e.doAlign(s, st)
			at := s.Norm(st.Pos)
			// what was read before the failure is returned
			f.regionWrite(d2.Obj, Region{Lo: Const(0), Len: n2, Src: "stream", Stream: id, Epoch: st.Epoch, Pos: at})
			f.event(Event{Kind: "partial", Pos: site.Pos(), Fn: siteFn(site), Obj: d2.Obj, Count: n2})
			d1, n := mk(s)
			st = s.Stream(id)
			st.Pos = s.Norm(st.Pos.AddMul(n, 8))
			st.Avail = st.Pos
			st.Ended = true
			s.regionWrite(d1.Obj, Region{Lo: Const(0), Len: n, Src: "stream", Stream: id, Epoch: st.Epoch, Pos: at})
			s.event(Event{Kind: "consume", Pos: site.Pos(), Fn: siteFn(site), Name: "ReadAll", Stream: id, Epoch: st.Epoch, From: from, To: st.Pos, Obj: d1.Obj, DstLo: Const(0), Count: n})
			return []Alt{{S: s, V: Tuple{d1, nilErr}}, {S: f, V: Tuple{d2, err}}}
		}
		f, _ := args[0].(Iface)
		if b, ok := bufOf(f.V); ok {
			return ret(s, Tuple{e.bufTake(s, siteFn(site), site, b), nilErr})
		}
		panic(Unsupported{"ReadAll of " + ValString(args[0])})
	}
	m["io.ReadAll"] = readAll
	m["io/ioutil.ReadAll"] = readAll
	m["io.CopyN"] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		n := s.Norm(lin(args[2]))
		id, ok := e.streamOf(s, args[1])
		if !ok {
			panic(Unsupported{"CopyN from " + ValString(args[1])})
		}
		buf := Slice{Lo: Const(0), Len: n, Cap: n, Nil: Const(0)}
		alts := e.streamRead(s, siteFn(site), site, id, buf, "CopyN", true)
		// CopyN reports io.EOF for any short copy
		for i := range alts {
			t := alts[i].V.(Tuple)
			if f, ok := t[1].(Iface); ok {
				if ev, ok := f.V.(*ErrVal); ok && !ev.Kind.IsConst() {
					k := AtomLin(e.Fresh("kind", 0, maxErrKind))
					f.V = &ErrVal{Kind: k, Src: ev.Src, Name: ev.Name}
					alts[i].V = Tuple{t[0], f}
				}
			}
		}
		if d, ok := args[0].(Iface); ok {
			if b, ok := bufOf(d.V); ok {
				e.bufWrite(alts[0].S, siteFn(site), site, b, buf)
			}
		}
		return alts
	}
	newErr := func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		n := ""
		if st, ok := args[0].(Str); ok && st.Known {
			n = st.S
		}
		name := fmt.Sprintf("errors.New@%s %q", e.P.Where(site.Pos()), n)
		return ret(s, Iface{V: &ErrVal{Kind: Const(e.ErrKind(name)), Name: name}, Nil: Const(0)})
	}
	m["errors.New"] = newErr
	m["fmt.Errorf"] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		name := fmt.Sprintf("fmt.Errorf@%s", e.P.Where(site.Pos()))
		ev := &ErrVal{Kind: Const(e.ErrKind(name)), Name: name}
		// wrapping an error keeps its source (only with %w)
		if fs, ok := args[0].(Str); ok && strings.Contains(fs.S, "%w") && len(args) > 1 {
			if sl, ok := args[1].(Slice); ok && sl.Obj != 0 {
				ln := s.Norm(sl.Len)
				for i := int64(0); ln.IsConst() && i < ln.K; i++ {
					v := s.Load(sl.Obj, sl.Path+e.idxPath(s, sl.Lo.AddK(i)), types.NewInterfaceType(nil, nil))
					if f, ok := v.(Iface); ok {
						if w, ok := f.V.(*ErrVal); ok {
							ev.Src = w.Src
						}
						if in, ok := f.V.(Iface); ok {
							if w, ok := in.V.(*ErrVal); ok {
								ev.Src = w.Src
							}
						}
					}
				}
			}
		}
		return ret(s, Iface{V: ev, Nil: Const(0)})
	}
	m["errors.Is"] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		x, ok1 := args[0].(Iface)
		y, ok2 := args[1].(Iface)
		if ok1 && ok2 {
			return ret(s, e.equal(s, x, y))
		}
		return ret(s, Bool{C: Cmp{NE, AtomLin(e.Fresh("is", 0, 1))}})
	}
	str := func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		return ret(s, Str{Key: e.freshName("str")})
	}
	m["fmt.Sprintf"], m["fmt.Sprint"], m["fmt.Sprintln"] = str, str, str
	// bytes.Buffer
	bb := func(name string, f func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt) {
		m["(*bytes.Buffer)."+name] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
			p, _ := args[0].(Ptr)
			if p.Nil != nil && !e.Oblige(s, siteFn(site), site.Pos(), "nil", "bytes.Buffer."+name, Cmp{EQ, p.Nil}) {
				return panicked(s, "nil dereference")
			}
			b, ok := bufOf(args[0])
			if !ok {
				panic(Unsupported{"bytes.Buffer receiver"})
			}
			return f(s, site, b, args[1:])
		}
	}
	bb("Read", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt {
		return e.bufRead(s, siteFn(site), site, b, args[0].(Slice))
	})
	bb("Write", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt {
		p := args[0].(Slice)
		e.bufWrite(s, siteFn(site), site, b, p)
		return ret(s, Tuple{p.Len, nilErr})
	})
	bb("WriteByte", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt {
		e.bufWrite(s, siteFn(site), site, b, Slice{Lo: Const(0), Len: Const(1), Cap: Const(1), Nil: Const(0)})
		return ret(s, nilErr)
	})
	bb("Len", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt {
		wr, rd := e.bufCounters(s, b)
		return ret(s, s.Norm(wr.Sub(rd)))
	})
	bb("Reset", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt {
		wr, _ := e.bufCounters(s, b)
		s.event(Event{Kind: "bufreset", Pos: site.Pos(), Fn: siteFn(site), Obj: b.obj, Path: b.path})
		e.bufSet(s, b, "rd", wr)
		return ret(s, Tuple{})
	})
	bb("Grow", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt { return ret(s, Tuple{}) })
	bb("Next", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt {
		wr, rd := e.bufCounters(s, b)
		n := lin(args[0])
		var alts []Alt
		take := func(s *State, n *Lin) {
			o := s.newObj(types.NewArray(types.Typ[types.Uint8], 0), "bufnext", site.Pos())
			s.event(Event{Kind: "bufread", Pos: site.Pos(), Fn: siteFn(site), Obj: o.ID, DstLo: Const(0), SrcObj: b.obj, SrcPath: b.path, SrcLo: rd, Count: n})
			e.bufSet(s, b, "rd", s.Norm(rd.Add(n)))
			alts = append(alts, Alt{S: s, V: Slice{Obj: o.ID, Lo: Const(0), Len: n, Cap: n, Nil: Const(0)}})
		}
		s2 := s.Clone()
		if s.Assume(Cmp{LE, n.Sub(wr.Sub(rd))}) {
			take(s, n)
		}
		if s2.Assume(Cmp{LE, wr.Sub(rd).Sub(n).AddK(1)}) {
			take(s2, wr.Sub(rd))
		}
		return alts
	})
	bb("Bytes", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt {
		wr, rd := e.bufCounters(s, b)
		n := s.Norm(wr.Sub(rd))
		// an alias of the buffer's own storage
		it := types.Typ[types.Int]
		id := 0
		if l := s.Norm(lin(s.Load(b.obj, b.path+".#store", it))); l.IsConst() && l.K != 0 {
			id = int(l.K)
		} else {
			id = s.newObj(types.NewArray(types.Typ[types.Uint8], 0), "buffer storage", site.Pos()).ID
			s.Store(b.obj, b.path+".#store", it, Const(int64(id)))
		}
		s.event(Event{Kind: "bufbytes", Pos: site.Pos(), Fn: siteFn(site), Obj: id, SrcObj: b.obj, SrcPath: b.path, SrcLo: rd, Count: n})
		cp := AtomLin(e.Fresh("cap", 0, 1<<41))
		s.AssumeRange(cp.Sub(n), 0, PInf)
		return ret(s, Slice{Obj: id, Lo: rd, Len: n, Cap: cp, Nil: Const(0)})
	})
	bb("Truncate", func(s *State, site ssa.CallInstruction, b bufRef, args []Val) []Alt {
		wr, rd := e.bufCounters(s, b)
		n := lin(args[0])
		if !n.Is(0) {
			panic(Unsupported{"Buffer.Truncate"})
		}
		_ = rd
		s.event(Event{Kind: "bufreset", Pos: site.Pos(), Fn: siteFn(site), Obj: b.obj, Path: b.path})
		e.bufSet(s, b, "rd", wr)
		return ret(s, Tuple{})
	})
	m["bytes.NewBuffer"] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		t := site.Value().Type().(*types.Pointer).Elem()
		o := s.newObj(t, "bytes.Buffer", site.Pos())
		b := bufRef{o.ID, ""}
		p, _ := args[0].(Slice)
		if p.Len != nil && s.Decide(Cmp{EQ, p.Len}) != True {
			e.bufWrite(s, siteFn(site), site, b, p)
		}
		return ret(s, Ptr{Obj: o.ID, Nil: Const(0)})
	}
	nop := func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt { return ret(s, Tuple{}) }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		m[n] = nop
	}
	// huffman
	m["github.com/32bitkid/huffman.NewHuffmanDecoder"] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		mp, ok := args[0].(Map)
		if !ok {
			panic(Unsupported{"decoder table " + ValString(args[0])})
		}
		ks, vs := s.MapEntries(mp.Obj)
		o := s.newObj(types.NewStruct(nil, nil), "vlc@"+e.P.Where(site.Pos()), site.Pos())
		h := &HuffTable{MapObj: mp.Obj}
		for i, k := range ks {
			st, ok := k.(Str)
			if !ok || !st.Known {
				panic(Unsupported{"non-constant code word"})
			}
			c := cleanCode(st.S)
			h.Codes = append(h.Codes, c)
			h.Vals = append(h.Vals, vs[i])
			h.Depth = max(h.Depth, len(c))
		}
		o.Data = h
		return ret(s, Iface{V: Ptr{Obj: o.ID, Nil: Const(0)}, Nil: Const(0), Key: "huffman"})
	}
	m["github.com/32bitkid/huffman.NewBinaryTreeHuffmanDecoder"] = m["github.com/32bitkid/huffman.NewHuffmanDecoder"]
	m["github.com/32bitkid/clog.NewLog"] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		return ret(s, s.Sym("clog", site.Value().Type()))
	}
	m["image.NewYCbCr"] = func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt {
		t := site.Value().Type().(*types.Pointer).Elem()
		o := s.newObj(t, "image.YCbCr", site.Pos())
		st := t.Underlying().(*types.Struct)
		var planes []int
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch f.Name() {
			case "Y", "Cb", "Cr":
				pl := s.newObj(types.NewArray(types.Typ[types.Uint8], 0), "plane "+f.Name(), site.Pos())
				planes = append(planes, pl.ID)
				ln := AtomLin(e.Fresh("planelen."+f.Name(), 0, 1<<40))
				s.Store(o.ID, "."+f.Name(), f.Type(), Slice{Obj: pl.ID, Lo: Const(0), Len: ln, Cap: ln, Nil: Const(0)})
			case "Rect":
				s.Store(o.ID, ".Rect", f.Type(), args[0])
			case "SubsampleRatio":
				s.Store(o.ID, ".SubsampleRatio", f.Type(), args[1])
			case "YStride", "CStride":
				s.Store(o.ID, "."+f.Name(), f.Type(), AtomLin(e.Fresh(f.Name(), 0, 1<<20)))
			}
		}
		s.event(Event{Kind: "newimage", Pos: site.Pos(), Fn: siteFn(site), Obj: o.ID, Args: args})
		return ret(s, Ptr{Obj: o.ID, Nil: Const(0)})
	}
}
