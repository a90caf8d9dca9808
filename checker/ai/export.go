package ai

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Hooks for the models that rules supply themselves.

// StreamOfVal is the stream a value reads from, or -1.
func (e *Engine) StreamOfVal(s *State, v Val) int {
	if id, ok := e.streamOf(s, v); ok {
		return id
	}
	return -1
}

// FailOp returns a variant of s in which an operation on the stream failed.
func (e *Engine) FailOp(s *State, fn *ssa.Function, pos token.Pos, id int, op string) (*State, Iface) {
	return e.failOp(s, fn, pos, id, op, true)
}

// Forget drops what is known about the position of a stream.
func (e *Engine) Forget(s *State, id int) { e.newEpoch(s, s.Stream(id)) }

// Emit records an event.
func (s *State) Emit(ev Event) { s.event(ev) }

// FreshID returns an unused number.
func (e *Engine) FreshID() int {
	e.nextFresh++
	return e.nextFresh
}

// IsOK says whether an error value is the nil error.
func IsOK(v Val) bool {
	f, ok := v.(Iface)
	return ok && f.Nil != nil && f.Nil.Is(1)
}

// EachCell visits the scalar cells of an object in order.
func (e *Engine) EachCell(s *State, obj int, f func(path string, v Val)) {
	o := s.Obj(obj)
	for _, k := range sortedKeys(o.cells) {
		f(k, o.cells[k].V)
	}
}

// Decoder is a variable length code decoder made by a package initialiser.
type Decoder struct {
	Obj   int
	Name  string
	Table *HuffTable
}

// Decoders lists the decoders the package initialisers made.
func (e *Engine) Decoders() []Decoder {
	var r []Decoder
	for id := 1; id <= e.nextObj; id++ {
		if o := e.base[id]; o != nil {
			if h, ok := o.Data.(*HuffTable); ok {
				r = append(r, Decoder{id, o.Name, h})
			}
		}
	}
	return r
}

// SymIdxOf resolves the components of a path: field names, or index forms.
func (e *Engine) Comps(path string) (fields []string, idx []*Lin) {
	for _, c := range e.splitPath(path) {
		fields = append(fields, c.field)
		idx = append(idx, c.idx)
	}
	return
}

// OnStack says whether fn is being executed.
func (e *Engine) OnStack(fn *ssa.Function) bool {
	for _, f := range e.callStack {
		if f == fn {
			return true
		}
	}
	return false
}

// Unconstrained is the state without its numeric facts and history.
func (s *State) Unconstrained() *State {
	n := s.Clone()
	n.Facts = newFacts()
	n.Pend = nil
	return n
}

// Advance moves a stream forward by an unknown number of bits.
func (e *Engine) Advance(s *State, id int, lo, hi int64) (from, to *Lin) {
	st := s.Stream(id)
	from = st.Pos
	st.Pos = s.Norm(st.Pos.Add(AtomLin(e.Fresh("adv", lo, hi))))
	st.Avail = st.Pos
	return from, st.Pos
}

// Existing says whether an object is part of the state (not made up since).
func (s *State) Existing(id int) bool {
	if _, ok := s.heap[id]; ok {
		return true
	}
	_, ok := s.E.base[id]
	return ok
}

// Replace changes the value of a cell.
func (s *State) Replace(obj int, path string, v Val) {
	o := s.objW(obj)
	c := o.cells[path]
	c.V = v
	o.cells[path] = c
}

// LoopShape is a natural loop of a function.
type LoopShape struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Pos    token.Pos
}

// LoopShapes lists the natural loops of fn.
func (p *Program) LoopShapes(fn *ssa.Function) (r []LoopShape) {
	fi := p.info(fn)
	for _, b := range fn.Blocks {
		if l := fi.loops[b]; l != nil {
			r = append(r, LoopShape{l.header, l.blocks, loopPos(l)})
		}
	}
	return
}

// Irreducible says whether fn has a cycle that is not a natural loop.
func (p *Program) Irreducible(fn *ssa.Function) bool {
	fi := p.info(fn)
	const (
		open = 1
		done = 2
	)
	st := map[*ssa.BasicBlock]int{}
	bad := false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		st[b] = open
		for _, h := range b.Succs {
			if st[h] == 0 {
				walk(h)
			} else if st[h] == open && fi.loops[h] == nil {
				bad = true
			}
		}
		st[b] = done
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
	}
	return bad
}

// EachAtom visits the unknowns made so far, in order of creation.
func (e *Engine) EachAtom(f func(a *Atom)) {
	as := make([]*Atom, 0, len(e.atoms))
	for _, a := range e.atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	for _, a := range as {
		f(a)
	}
}

// IdxPath is the path component of an array element.
func (e *Engine) IdxPath(s *State, idx *Lin) string { return e.idxPath(s, idx) }

// HavocGlobal forgets what the initialisers left in a package variable.
func (e *Engine) HavocGlobal(g *ssa.Global) {
	o := e.base[e.globalObj(g)]
	n := &Obj{ID: o.ID, T: o.T, Name: o.Name, Pos: o.Pos, Sym: true}
	n.cells = map[string]cell{}
	n.defs = []prefDef{{"", defSym, o.Name}}
	e.base[o.ID] = n
}
