package ai

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Event is one entry of the (shared, persistent) trace of a path.
type Event struct {
	Prev *Event
	N    int
	Kind string
	Pos  token.Pos
	Fn   *ssa.Function

	Obj    int
	Path   string
	Val    Val
	Name   string
	Args   []Val
	Res    []Val
	Callee *ssa.Function
	T      types.Type // element type

	// stream operations
	Stream, Epoch int
	From, To      *Lin

	// copies
	SrcObj       int
	SrcPath      string
	SrcLo, DstLo *Lin
	Count        *Lin

	Loop *LoopInfo
	Snap *State
	Err  bool
}

// Stream is an abstract bit reader.
type Stream struct {
	ID    int
	Name  string
	Epoch int
	Pos   *Lin
	Avail *Lin // bits before this position are buffered
	// a position known to be byte aligned; nil if none is known
	AlignAt *Lin
	// a position known not to be aligned (only meaningful without AlignAt)
	NotAligned *Lin
	Ended      bool
}

type State struct {
	E *Engine
	*Facts
	heap    map[int]*Obj
	streams map[int]*Stream
	Pend    []*Pending
	Ev      *Event
	Ghost   map[string]Val

	canonObjs map[int]int
}

func (s *State) Clone() *State {
	n := &State{E: s.E, Facts: s.Facts.clone(), Ev: s.Ev}
	n.heap = make(map[int]*Obj, len(s.heap)+4)
	for k, o := range s.heap {
		n.heap[k] = o
		o.own = nil
	}
	n.streams = make(map[int]*Stream, len(s.streams))
	for k, v := range s.streams {
		c := *v
		n.streams[k] = &c
	}
	n.Pend = append([]*Pending(nil), s.Pend...)
	n.Ghost = make(map[string]Val, len(s.Ghost))
	for k, v := range s.Ghost {
		n.Ghost[k] = v
	}
	return n
}

func (s *State) event(ev Event) *Event {
	ev.Prev = s.Ev
	if s.Ev != nil {
		ev.N = s.Ev.N + 1
	}
	s.Ev = &ev
	if s.E.OnEvent != nil && !s.E.inInit {
		s.E.OnEvent(s, &ev)
	}
	return &ev
}

// Events returns the trace in order, starting after stop (nil: everything).
func (s *State) Events(stop *Event) []*Event {
	var r []*Event
	for e := s.Ev; e != nil && e != stop; e = e.Prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- objects

func (s *State) newObj(t types.Type, name string, pos token.Pos) *Obj {
	s.E.nextObj++
	o := &Obj{ID: s.E.nextObj, T: t, Name: name, Pos: pos, own: s}
	o.Loops = append([]int(nil), s.E.activeLoops...)
	o.cells = map[string]cell{}
	s.heap[o.ID] = o
	return o
}

// Obj returns the object for reading.
func (s *State) Obj(id int) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := s.E.base[id]; ok {
		return o
	}
	if so, ok := s.E.symObjs[id]; ok {
		o := &Obj{ID: id, T: so.T, Name: so.Name, Sym: true, own: s}
		o.Loops = so.Loops
		o.cells = map[string]cell{}
		o.defs = []prefDef{{"", defSym, so.Name}}
		s.heap[id] = o
		return o
	}
	panic(Unsupported{fmt.Sprintf("unknown object %d", id)})
}

func (s *State) objW(id int) *Obj {
	o := s.Obj(id)
	if o.own == s && s.heap[id] == o {
		return o
	}
	n := *o
	n.mem = o.cloneMem()
	n.own = s
	n.Log = o.Log[:len(o.Log):len(o.Log)]
	s.heap[id] = &n
	return &n
}

// SymObj returns the id of the symbolic object with that name.
func (e *Engine) SymObj(name string, t types.Type) int {
	if id, ok := e.symNames[name]; ok {
		return id
	}
	e.nextObj++
	e.symNames[name] = e.nextObj
	e.symObjs[e.nextObj] = &Obj{ID: e.nextObj, T: t, Name: name, Loops: append([]int(nil), e.activeLoops...)}
	return e.nextObj
}

func (s *State) Stream(id int) *Stream {
	st, ok := s.streams[id]
	if !ok {
		st = &Stream{ID: id, Name: s.E.streamNames[id], Pos: Const(0), Avail: Const(0)}
		s.streams[id] = st
	}
	return st
}

// Sym returns the symbolic value called name of type t.
func (s *State) Sym(name string, t types.Type) Val {
	e := s.E
	nilAtom := func() *Lin { return AtomLin(e.Atom("nil:"+name, 0, 1)) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{C: Cmp{NE, AtomLin(e.Atom("b:"+name, 0, 1))}}
		case u.Info()&types.IsInteger != 0:
			lo, hi := TypeRange(t)
			return AtomLin(e.Atom(name, lo, hi))
		case u.Info()&types.IsString != 0:
			return Str{Key: name}
		case u.Kind() == types.UntypedNil:
			return Iface{Nil: Const(1)}
		}
		return Opaque{t, name}
	case *types.Pointer:
		return Ptr{Obj: e.SymObj(name, u.Elem()), Nil: nilAtom()}
	case *types.Slice:
		id := e.SymObj(name+"[]", types.NewArray(u.Elem(), 0))
		ln := AtomLin(e.Atom("len:"+name, 0, 1<<40))
		cp := AtomLin(e.Atom("cap:"+name, 0, 1<<40))
		s.AssumeRange(cp.Sub(ln), 0, PInf)
		return Slice{Obj: id, Lo: Const(0), Len: ln, Cap: cp, Nil: nilAtom()}
	case *types.Interface:
		if isErrorType(t) {
			return Iface{V: &ErrVal{Kind: AtomLin(e.Atom("err:"+name, 0, 1<<20)), Name: name}, Nil: nilAtom()}
		}
		if e.isBitReader(t) {
			return Iface{V: StreamV{e.StreamID(name)}, Nil: Const(0), Key: name}
		}
		return Iface{Key: name, Nil: nilAtom()}
	case *types.Signature:
		return Func{Key: name, Nil: nilAtom()}
	case *types.Chan:
		return Chan{Obj: e.SymObj(name, t), Nil: nilAtom()}
	case *types.Map:
		return Map{Obj: e.SymObj(name, t), Nil: nilAtom()}
	case *types.Struct, *types.Array:
		a := &Agg{T: t}
		a.cells = map[string]cell{}
		a.defs = []prefDef{{"", defSym, name}}
		return a
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, s.Sym(fmt.Sprintf("%s#%d", name, i), u.At(i).Type()))
		}
		return tp
	}
	return Opaque{t, name}
}

func ZeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolConst(false)
		case u.Info()&types.IsInteger != 0:
			return Const(0)
		case u.Info()&types.IsString != 0:
			return Str{Known: true}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Iface{Nil: Const(1)}
		}
		return Opaque{t, "0"}
	case *types.Pointer:
		return Ptr{Nil: Const(1)}
	case *types.Slice:
		return Slice{Lo: Const(0), Len: Const(0), Cap: Const(0), Nil: Const(1)}
	case *types.Interface:
		return Iface{Nil: Const(1)}
	case *types.Signature:
		return Func{Nil: Const(1)}
	case *types.Chan:
		return Chan{Nil: Const(1)}
	case *types.Map:
		return Map{Nil: Const(1)}
	case *types.Struct, *types.Array:
		a := &Agg{T: t}
		a.cells = map[string]cell{}
		return a
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, ZeroVal(u.At(i).Type()))
		}
		return tp
	}
	return Opaque{t, "0"}
}

// memLoad reads a value of type t at path.
func (s *State) memLoad(m *mem, path string, t types.Type, write func(path string, c cell)) Val {
	if isAggregate(t) {
		a := &Agg{T: t, mem: m.sub(path)}
		return a
	}
	if c, ok := m.cells[path]; ok {
		return c.V
	}
	d := m.def(path)
	var v Val
	if d.mode == defZero {
		v = ZeroVal(t)
		return v
	}
	v = s.Sym(d.base+path[len(d.pre):], t)
	if write != nil {
		write(path, cell{v, t})
	}
	return v
}

// Load reads a value from an object.
func (s *State) Load(obj int, path string, t types.Type) Val {
	o := s.Obj(obj)
	if _, has := o.cells[path]; !has {
		if v, ok := s.regionLoad(o, path, t); ok {
			return v
		}
	}
	if v, ok := s.symIndexLoad(o, path, t); ok {
		return v
	}
	return s.memLoad(&o.mem, path, t, nil)
}

// Store writes v (of type t) at path.
func (s *State) Store(obj int, path string, t types.Type, v Val) {
	o := s.objW(obj)
	s.killAliases(o, path)
	if a, ok := v.(*Agg); ok {
		o.graft(path, &a.mem)
		if len(o.Log) > 0 {
			o.Log = append(o.Log, Region{Path: path})
		}
		return
	}
	o.cells[path] = cell{v, t}
}

// AggField returns a component of an aggregate value.
func (s *State) AggGet(a *Agg, path string, t types.Type) Val {
	return s.memLoad(&a.mem, path, t, nil)
}

// HavocUnder makes everything below path unknown.
func (s *State) HavocUnder(obj int, path, tag string) {
	o := s.objW(obj)
	o.clearUnder(path)
	o.addDef(prefDef{path, defSym, s.E.freshName("h:" + tag)})
	o.Log = append(o.Log, Region{Path: path, Lo: nil, Src: "opaque"})
}

func TypeRange(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return NInf, PInf
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, PInf
	}
	return NInf, PInf
}

func typeBits(t types.Type) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}
