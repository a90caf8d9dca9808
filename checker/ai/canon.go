package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type canon struct {
	e     *Engine
	s, n  *State
	num   map[int]int
	queue []int
	key   []string
	facts []Cmp
	same  map[string]*Lin // equal numbers stay equal
	order []string
}

// Canonical forgets what is not discrete in the objects reachable from roots.
// It returns a name of the discrete contents, the general state, and the
// general values of the roots.
func (s *State) Canonical(roots ...Val) (string, *State, []Val) {
	k := &canon{e: s.E, s: s, n: s.Unconstrained(), num: map[int]int{}, same: map[string]*Lin{}}
	k.n.Ev = nil
	for _, id := range s.E.Keep {
		k.ref(id)
	}
	var vals []Val
	for _, r := range roots {
		vals = append(vals, k.val("root", r, false))
	}
	for i := 0; i < len(k.queue); i++ {
		k.object(k.queue[i])
	}
	for _, f := range k.facts {
		k.n.Assume(f)
	}
	k.n.canonObjs = k.num
	return strings.Join(k.key, "\n"), k.n, vals
}

func (k *canon) note(f string, a ...any) { k.key = append(k.key, fmt.Sprintf(f, a...)) }

func (k *canon) ref(id int) string {
	if id == 0 {
		return "-"
	}
	if _, ok := k.num[id]; !ok {
		k.num[id] = len(k.num)
		k.queue = append(k.queue, id)
	}
	return fmt.Sprint("#", k.num[id])
}

// lin generalises a number.
func (k *canon) lin(l *Lin) (*Lin, string) {
	if l == nil {
		return nil, "nil"
	}
	l = k.s.Norm(l)
	if l.IsConst() {
		return l, fmt.Sprint(l.K)
	}
	lo, hi := k.s.Range(l)
	if lo == hi {
		return Const(lo), fmt.Sprint(lo)
	}
	lk := l.Key()
	n := len(k.same)
	if f, ok := k.same[lk]; ok {
		for i, o := range k.order {
			if o == lk {
				n = i
			}
		}
		return f, fmt.Sprint("as ", n)
	}
	f := AtomLin(k.e.Fresh("any", NInf, PInf))
	k.same[lk] = f
	k.order = append(k.order, lk)
	d := k.sign(f, lo, hi)
	return f, fmt.Sprintf("%s (%d)", d, n)
}

func (k *canon) sign(f *Lin, lo, hi int64) string {
	switch {
	case lo >= 0 && hi <= 1:
		k.facts = append(k.facts, Cmp{Op: LE, L: f.Neg()}, Cmp{Op: LE, L: f.AddK(-1)})
		return "0/1"
	case lo >= 1:
		k.facts = append(k.facts, Cmp{Op: LE, L: f.Neg().AddK(1)})
		return ">0"
	case lo >= 0:
		k.facts = append(k.facts, Cmp{Op: LE, L: f.Neg()})
		return ">=0"
	}
	return "?"
}

func (k *canon) val(name string, v Val, store bool) Val {
	switch x := v.(type) {
	case *Lin:
		l, d := k.lin(x)
		k.note("%s=%s", name, d)
		return l
	case Bool:
		if !x.IsConst {
			switch k.s.Decide(x.C) {
			case True:
				x = Bool{IsConst: true, V: true}
			case False:
				x = Bool{IsConst: true}
			default:
				k.note("%s=bool", name)
				return Bool{C: Cmp{Op: NE, L: AtomLin(k.e.Fresh("any", 0, 1))}}
			}
		}
		k.note("%s=%v", name, x.V)
		return x
	case Ptr:
		n, d := k.lin(x.Nil)
		if n != nil && n.Is(1) {
			k.note("%s=nil", name)
			return Ptr{Nil: n}
		}
		k.note("%s=%s%s nil %s", name, k.ref(x.Obj), x.Path, d)
		x.Nil = n
		return x
	case Slice:
		n, d := k.lin(x.Nil)
		if n != nil && n.Is(1) {
			k.note("%s=nil slice", name)
			z := Const(0)
			return Slice{Lo: z, Len: z, Cap: z, Nil: n}
		}
		lo, d1 := k.lin(x.Lo)
		ln, d2 := k.lin(x.Len)
		cp, d3 := k.lin(x.Cap)
		k.facts = append(k.facts, Cmp{Op: LE, L: ln.Sub(cp)})
		k.note("%s=%s%s[%s:%s:%s] nil %s", name, k.ref(x.Obj), x.Path, d1, d2, d3, d)
		x.Nil, x.Lo, x.Len, x.Cap = n, lo, ln, cp
		return x
	case Iface:
		n, d := k.lin(x.Nil)
		x.Nil = n
		dyn := "-"
		if x.Dyn != nil {
			dyn = x.Dyn.String()
		}
		switch y := x.V.(type) {
		case *ErrVal:
			kind := "?"
			if y.Kind != nil {
				if l := k.s.Norm(y.Kind); l.IsConst() {
					kind = fmt.Sprint(l.K)
				}
			}
			k.note("%s=error %s nil %s", name, kind, d)
		case Ptr:
			k.note("%s=%s nil %s", name, dyn, d)
			x.V = k.val(name+".(v)", y, false)
		default:
			k.note("%s=%s %s nil %s", name, dyn, x.Key, d)
		}
		return x
	case Func:
		nm := x.Key
		if x.Fn != nil {
			nm = x.Fn.String()
		}
		var b []Val
		for i, y := range x.Bind {
			b = append(b, k.val(fmt.Sprintf("%s bind%d", name, i), y, false))
		}
		x.Bind = b
		k.note("%s=func %s", name, nm)
		return x
	case Chan:
		n, d := k.lin(x.Nil)
		x.Nil = n
		k.note("%s=chan %s nil %s", name, k.ref(x.Obj), d)
		return x
	case Map:
		n, d := k.lin(x.Nil)
		x.Nil = n
		k.note("%s=map %s nil %s", name, k.ref(x.Obj), d)
		return x
	case Tuple:
		var t Tuple
		for i, y := range x {
			t = append(t, k.val(fmt.Sprintf("%s.%d", name, i), y, false))
		}
		return t
	case nil:
		return v
	}
	k.note("%s=%s", name, ValString(v))
	return v
}

func (k *canon) object(id int) {
	if !k.s.Existing(id) {
		return
	}
	type cell struct {
		path string
		v    Val
	}
	var cells []cell
	k.e.EachCell(k.s, id, func(path string, v Val) { cells = append(cells, cell{path, v}) })
	sort.Slice(cells, func(i, j int) bool { return cells[i].path < cells[j].path })
	if len(cells) > 400 {
		panic(Unsupported{Msg: "object of a client is too large"})
	}
	for _, c := range cells {
		name := fmt.Sprintf("#%d%s", k.num[id], c.path)
		// contents of a buffer: only whether there are any
		if strings.HasSuffix(c.path, ".#rd") || strings.HasSuffix(c.path, ".#wr") {
			base := c.path[:len(c.path)-4]
			if strings.HasSuffix(c.path, ".#rd") {
				wr, rd := k.e.BufCounters(k.s, id, base)
				l, d := k.lin(wr.Sub(rd))
				k.note("%s holds %s", name, d)
				k.n.Store(id, base+".#rd", types.Typ[types.Int], Const(0))
				k.n.Store(id, base+".#wr", types.Typ[types.Int], l)
			}
			continue
		}
		if strings.Contains(c.path, "[") {
			continue // contents of arrays are not looked at
		}
		if l, ok := c.v.(*Lin); ok && strings.HasSuffix(c.path, ".#obj") {
			if l = k.s.Norm(l); l.IsConst() {
				k.note("%s=%s", name, k.ref(int(l.K)))
				continue
			}
		}
		v := k.val(name, c.v, true)
		k.n.Replace(id, c.path, v)
	}
}

// partition follows a loop with explicit partitions of the states at its head:
// two of them are identified when their discrete contents agree, and
// everything else is unknown in them.
func (e *Engine) partition(s0 *State, fr0 *frame, l *natLoop, from *ssa.BasicBlock, outs *[]Outcome) []edge {
	e.nextLoop++
	id := e.nextLoop
	e.activeLoops = append(e.activeLoops, id)
	defer func() { e.activeLoops = e.activeLoops[:len(e.activeLoops)-1] }()
	phis := headerPhis(l.header)
	inLoop := map[int]bool{}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				inLoop[fr0.info.num[v]] = true
			}
		}
	}
	type part struct {
		s  *State
		fr *frame
	}
	seen := map[string]bool{}
	var work []part
	add := func(x edge) {
		pv := e.phiVals(x, l.header)
		roots := append([]Val{}, pv...)
		for i, v := range x.fr.env {
			if v != nil && !inLoop[i] {
				roots = append(roots, v)
			}
		}
		key, n, vals := x.s.Canonical(roots...)
		// whatever else changed is forgotten
		for oid := range n.heap {
			if _, ok := n.canonObjs[oid]; ok {
				continue
			}
			if _, ok := s0.heap[oid]; ok && n.heap[oid] != s0.heap[oid] {
				n.HavocUnder(oid, "", "partition")
			}
		}
		if seen[key] {
			return
		}
		seen[key] = true
		if len(seen) > 120 {
			panic(Unsupported{"too many states of the loop at " + e.P.Where(loopPos(l))})
		}
		f := x.fr.clone()
		for i, p := range phis {
			f.set(p, vals[i])
		}
		// the head is entered as if from outside, with its phis in place
		work = append(work, part{n, f})
	}
	add(edge{s0, fr0, from, l.header})
	var exits []edge
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		info := &LoopInfo{ID: id, Fn: fr0.fn, Header: l.header, Pos: loopPos(l), Trip: -1, Entry: w.s, Head: w.s}
		bs := w.s.Clone()
		bs.event(Event{Kind: "loophead", Fn: fr0.fn, Name: fmt.Sprint(id), Loop: info})
		info.HeadEv = bs.Ev
		c := &loopCtx{loop: l}
		e.run(bs, w.fr.clone(), l.header, len(phis), c, outs)
		exits = append(exits, c.exits...)
		for _, b := range c.backs {
			if b.s.bad {
				continue
			}
			b.s.event(Event{Kind: "loopback", Fn: fr0.fn, Name: fmt.Sprint(id)})
			if e.leavesAt(b, l) {
				add(b)
				continue
			}
			info.Backs = append(info.Backs, b.s)
			info.BackPos = append(info.BackPos, lastPos(b.from))
			info.Progress = append(info.Progress, e.progress(info, w.s, b.s, nil, &loopTmpl{locs: map[string]*tmplLoc{}}))
			add(b)
		}
		e.Loops = append(e.Loops, info)
	}
	return exits
}
