package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkpoint of the engine's result tables, to discard trial runs.
type checkpoint struct {
	obls  int
	loops int
	hav   map[string]int
	outs  int
}

func (e *Engine) mark(outs *[]Outcome) checkpoint {
	c := checkpoint{obls: len(e.oblLog), loops: len(e.Loops), hav: make(map[string]int, len(e.Havocs)), outs: len(*outs)}
	for k, n := range e.Havocs {
		c.hav[k] = n
	}
	return c
}

func (e *Engine) rollback(c checkpoint, outs *[]Outcome) {
	for i := len(e.oblLog) - 1; i >= c.obls; i-- {
		u := e.oblLog[i]
		if u.had {
			*e.Obls[u.key] = u.old
		} else {
			delete(e.Obls, u.key)
		}
	}
	e.oblLog = e.oblLog[:c.obls]
	e.Loops = e.Loops[:c.loops]
	e.Havocs = make(map[string]int, len(c.hav))
	for k, n := range c.hav {
		e.Havocs[k] = n
	}
	*outs = (*outs)[:c.outs]
}

var debugLoops = os.Getenv("VERIF_LOOPS") != ""

func (e *Engine) handleLoop(s *State, fr *frame, l *natLoop, from *ssa.BasicBlock, ctx *loopCtx, outs *[]Outcome) {
	var exits []edge
	ok := false
	e.LoopsSeen[l.header] = true
	e.journal++
	if e.NoUnroll == nil || !e.NoUnroll(fr.fn, l.header) {
		exits, ok = e.unrollLoop(s, fr, l, from, outs)
	}
	if !ok && e.Partition != nil && e.Partition(fr.fn, l.header) {
		exits = e.partition(s, fr, l, from, outs)
		ok = true
	}
	if !ok && e.Peel != nil && e.Peel(fr.fn, l.header) {
		c := &loopCtx{loop: l}
		s1, f1 := s.Clone(), fr.clone()
		e.phis(s1, f1, from, l.header)
		e.run(s1, f1, l.header, 0, c, outs)
		exits = c.exits
		for _, b := range c.backs {
			if !b.s.bad {
				exits = append(exits, e.summarise(b.s, b.fr, l, b.from, outs)...)
			}
		}
		ok = true
	}
	if !ok {
		exits = e.summarise(s, fr, l, from, outs)
	}
	if e.journal--; e.journal == 0 {
		e.oblLog = nil
	}
	for _, x := range exits {
		e.enter(x.s, x.fr, x.from, x.to, ctx, outs)
	}
}

// staticVal evaluates v as it would be on entry to the loop header.
func (e *Engine) staticVal(s *State, fr *frame, l *natLoop, from *ssa.BasicBlock, v ssa.Value, depth int) *Lin {
	if depth > 4 {
		return nil
	}
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || !l.blocks[in.Block()] {
		switch v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		default:
			if !isInstr {
				return nil
			}
		}
		if n, ok := fr.info.num[v]; ok && fr.env[n] == nil {
			return nil
		}
		x, ok := e.val(s, fr, v).(*Lin)
		if !ok {
			return nil
		}
		return s.Norm(x)
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() != l.header {
			return nil
		}
		for i, p := range v.Block().Preds {
			if p == from {
				ev := v.Edges[i]
				if ei, ok := ev.(ssa.Instruction); ok && l.blocks[ei.Block()] {
					// back edge: already computed
					if x, ok := e.val(s, fr, ev).(*Lin); ok {
						return s.Norm(x)
					}
					return nil
				}
				return e.staticVal(s, fr, l, from, ev, depth+1)
			}
		}
	case *ssa.BinOp:
		a, b := e.staticVal(s, fr, l, from, v.X, depth+1), e.staticVal(s, fr, l, from, v.Y, depth+1)
		if a == nil || b == nil {
			return nil
		}
		switch v.Op {
		case token.ADD:
			return s.Norm(a.Add(b))
		case token.SUB:
			return s.Norm(a.Sub(b))
		case token.MUL:
			if b.IsConst() {
				a, b = b, a
			}
			if a.IsConst() {
				return s.Norm(b.Mul(a.K))
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := v.Call.Args[0]
			if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return Const(at.Len())
				}
			}
			if at, ok := a.Type().Underlying().(*types.Array); ok {
				return Const(at.Len())
			}
			if ai, ok := a.(ssa.Instruction); ok && l.blocks[ai.Block()] {
				return nil
			}
			if n, ok := fr.info.num[a]; !ok || fr.env[n] != nil {
				if sl, ok := e.val(s, fr, a).(Slice); ok {
					return s.Norm(sl.Len)
				}
			}
		}
	case *ssa.Convert:
		a := e.staticVal(s, fr, l, from, v.X, depth+1)
		if a != nil && a.IsConst() {
			lo, hi := TypeRange(v.Type())
			if a.K >= lo && a.K <= hi {
				return a
			}
		}
	}
	return nil
}

// determined says whether the header's exit test is decided on entry and
// depends on a counter.
func (e *Engine) determined(s *State, fr *frame, l *natLoop, from *ssa.BasicBlock) bool {
	h := l.header
	c, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := c.Cond.(*ssa.BinOp)
	if !ok || b.Block() != h {
		return false
	}
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
	default:
		return false
	}
	if bt, ok := b.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	x, y := e.staticVal(s, fr, l, from, b.X, 0), e.staticVal(s, fr, l, from, b.Y, 0)
	return x != nil && y != nil && (x.IsConst() && y.IsConst() || s.Norm(x.Sub(y)).IsConst())
}

func (e *Engine) unrollLoop(s *State, fr *frame, l *natLoop, from *ssa.BasicBlock, outs *[]Outcome) ([]edge, bool) {
	if !e.determined(s, fr, l, from) {
		return nil, false
	}
	cp := e.mark(outs)
	cur := []edge{{s.Clone(), fr.clone(), from, l.header}}
	var exits []edge
	lim := e.Unroll
	if e.inInit {
		lim = 100000
	}
	for it := 0; len(cur) > 0; it++ {
		live := e.MaxLive
		if it <= 6 && live < 64 {
			live = 64 // a few steps in sequence, written as a loop
		}
		if it > lim || len(cur) > live || len(exits) > 4*e.MaxLive+lim {
			e.rollback(cp, outs)
			return nil, false
		}
		c := &loopCtx{loop: l}
		for _, x := range cur {
			if !e.determined(x.s, x.fr, l, x.from) {
				e.rollback(cp, outs)
				return nil, false
			}
			e.phis(x.s, x.fr, x.from, l.header)
		}
		if e.Coalesce && it > 0 {
			cur = e.coalesce(s, cur, true)
		}
		for _, x := range cur {
			e.run(x.s, x.fr, l.header, 0, c, outs)
		}
		cur = c.backs
		exits = append(exits, c.exits...)
		if e.Coalesce {
			exits = e.coalesce(s, exits, false)
		}
	}
	return exits, true
}

// coalesce merges paths that meet where it can. With phis, the phis of the
// block they go to have been evaluated.
func (e *Engine) coalesce(pre *State, cur []edge, phis bool) []edge {
	if len(cur) < 2 {
		return cur
	}
	type way struct{ from, to *ssa.BasicBlock }
	groups := map[way][]edge{}
	var order []way
	for _, x := range cur {
		if len(x.fr.defs) > 0 {
			return cur
		}
		w := way{x.from, x.to}
		if phis {
			w.from = nil
		}
		if groups[w] == nil {
			order = append(order, w)
		}
		groups[w] = append(groups[w], x)
	}
	fi := cur[0].fr.info
	if e.lives == nil {
		e.lives = map[*fnInfo]map[*ssa.BasicBlock][]bool{}
	}
	if e.lives[fi] == nil {
		e.lives[fi] = fi.liveness(cur[0].fr.fn)
	}
	var r []edge
	for _, w := range order {
		g := groups[w]
		if len(g) == 1 {
			r = append(r, g...)
			continue
		}
		live := e.lives[fi][w.to]
		if !phis {
			live = fi.liveOn(e.lives[fi], w.from, w.to)
		}
		var alts []Alt
		for _, x := range g {
			var t Tuple
			for i, v := range x.fr.env {
				if live[i] && v != nil {
					t = append(t, v)
				} else if live[i] {
					t = append(t, Tuple{})
				}
			}
			alts = append(alts, Alt{S: x.s, V: t})
		}
		for _, a := range e.mergeAlts(pre, g[0].fr.fn, alts, true) {
			fr := g[0].fr.clone()
			k := 0
			for i := range fr.env {
				if !live[i] {
					fr.env[i] = nil
					continue
				}
				v := a.V.(Tuple)[k]
				k++
				if t, ok := v.(Tuple); ok && len(t) == 0 {
					v = nil
				}
				fr.env[i] = v
			}
			r = append(r, edge{a.S, fr, g[0].from, g[0].to})
		}
	}
	return r
}

// ---- summaries

type tmplLoc struct {
	name string
	// lin: init + ratio*acc
	acc   int // index of group; -1: none
	ratio int64
	// non-linear: havoc
	havoc  bool
	nonnil bool
	typ    types.Type
	val    Val // head value of a havoc location
	// shift: the same function of the bits that come next, every time
	shift bool
}

type loopTmpl struct {
	locs    map[string]*tmplLoc
	order   []string
	groups  []*tmplGroup
	arrays  map[string]bool // "obj|prefix" havoc regions
	aorder  []string
	epochs  map[int]bool // streams whose epoch changes
	touched map[int]bool // streams moved
	bufs    map[int]bool
}

type tmplGroup struct {
	acc    *Atom
	nonneg bool
}

func (t *loopTmpl) sig() string {
	var b strings.Builder
	for _, n := range t.order {
		x := t.locs[n]
		fmt.Fprintf(&b, "%s:%d:%d:%v:%v:%v;", n, x.acc, x.ratio, x.havoc, x.nonnil, x.shift)
	}
	for _, g := range t.groups {
		fmt.Fprintf(&b, "g%v;", g.nonneg)
	}
	for _, a := range t.aorder {
		b.WriteString(a + ";")
	}
	fmt.Fprint(&b, len(t.epochs), len(t.touched))
	return b.String()
}

// parts splits a value into named linear components and a rest.
type part struct {
	name string
	l    *Lin
}

func linParts(v Val) ([]part, bool) {
	switch v := v.(type) {
	case *Lin:
		return []part{{"", v}}, true
	case Slice:
		return []part{{".Lo", v.Lo}, {".Len", v.Len}, {".Cap", v.Cap}, {".Nil", v.Nil}}, true
	}
	return nil, false
}

func sameShape(a, b Val) bool {
	switch x := a.(type) {
	case *Lin:
		_, ok := b.(*Lin)
		return ok
	case Slice:
		y, ok := b.(Slice)
		return ok && x.Obj == y.Obj && x.Path == y.Path
	}
	return false
}

func withParts(v Val, f func(part string, l *Lin) *Lin) Val {
	switch v := v.(type) {
	case *Lin:
		return f("", v)
	case Slice:
		v.Lo, v.Len, v.Cap, v.Nil = f(".Lo", v.Lo), f(".Len", v.Len), f(".Cap", v.Cap), f(".Nil", v.Nil)
		return v
	}
	return v
}

// same compares two values under the facts of s.
func (e *Engine) same(s *State, a, b Val) bool {
	eqn := func(x, y *Lin) bool {
		if x == nil || y == nil {
			return x == y
		}
		return s.Norm(x).Equal(s.Norm(y))
	}
	switch x := a.(type) {
	case *Lin:
		y, ok := b.(*Lin)
		return ok && eqn(x, y)
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			return false
		}
		val := func(c Bool) Tri {
			if c.IsConst {
				if c.V {
					return True
				}
				return False
			}
			return s.Decide(c.C)
		}
		tx, ty := val(x), val(y)
		if tx != Unknown || ty != Unknown {
			return tx == ty
		}
		return x.C.Op == y.C.Op && eqn(x.C.L, y.C.L)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || !eqn(x.Nil, y.Nil) {
			return false
		}
		if s.Norm(x.Nil).Is(1) {
			return true
		}
		return x.Obj == y.Obj && s.normPath(x.Path) == s.normPath(y.Path)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.Obj == y.Obj && x.Path == y.Path && eqn(x.Lo, y.Lo) && eqn(x.Len, y.Len) && eqn(x.Cap, y.Cap) && eqn(x.Nil, y.Nil)
	case Iface:
		y, ok := b.(Iface)
		if !ok || !eqn(x.Nil, y.Nil) {
			return false
		}
		if s.Norm(x.Nil).Is(1) {
			return true
		}
		if (x.V == nil) != (y.V == nil) {
			return false
		}
		if x.V == nil {
			return x.Key == y.Key
		}
		return e.same(s, x.V, y.V)
	case *ErrVal:
		y, ok := b.(*ErrVal)
		return ok && (x == y || x.Src == y.Src && eqn(x.Kind, y.Kind))
	case Func:
		y, ok := b.(Func)
		if !ok || x.Fn != y.Fn || x.Key != y.Key || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !e.same(s, x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return eqn(x.Nil, y.Nil)
	case Chan:
		y, ok := b.(Chan)
		return ok && x.Obj == y.Obj && eqn(x.Nil, y.Nil)
	case Map:
		y, ok := b.(Map)
		return ok && x.Obj == y.Obj
	case StreamV:
		y, ok := b.(StreamV)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		return ok && x == y
	case Opaque:
		y, ok := b.(Opaque)
		return ok && x.Key == y.Key
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.same(s, x[i], y[i]) {
				return false
			}
		}
		return true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.cells) != len(y.cells) || len(x.defs) != len(y.defs) {
			return false
		}
		for k, c := range x.cells {
			d, ok := y.cells[k]
			if !ok || !e.same(s, c.V, d.V) {
				return false
			}
		}
		for i := range x.defs {
			if x.defs[i] != y.defs[i] {
				return false
			}
		}
		return true
	}
	return false
}

// loc is an observed location with head and back values.
type locObs struct {
	name string
	typ  types.Type
	init Val
	head Val
	back []Val // per back edge
}

func (e *Engine) phiVals(x edge, h *ssa.BasicBlock) []Val {
	idx := -1
	for i, p := range h.Preds {
		if p == x.from {
			idx = i
		}
	}
	var r []Val
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, e.val(x.s, x.fr, p.Edges[idx]))
	}
	return r
}

func headerPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// buildHead makes the generic loop-head state.
func (e *Engine) buildHead(s0 *State, fr0 *frame, phiInit []Val, l *natLoop, t *loopTmpl, invs []*Lin) (*State, *frame) {
	h, fr := s0.Clone(), fr0.clone()
	apply := func(name string, typ types.Type, init Val) Val {
		if x := t.locs[name]; x != nil && x.shift {
			v, ok := e.shiftVal(init, s0, h)
			if !ok {
				panic(Unsupported{"a value of the next bits in the loop at " + e.P.Where(loopPos(l))})
			}
			return v
		}
		if x := t.locs[name]; x != nil && x.havoc {
			if y := t.locs[name+"~len"]; y != nil {
				hs, ok1 := x.val.(Slice)
				is, ok2 := init.(Slice)
				if ok1 && ok2 {
					want := is.Len
					if y.acc >= 0 {
						want = want.AddMul(AtomLin(t.groups[y.acc].acc), y.ratio)
					}
					h.Assume(Cmp{EQ, hs.Len.Sub(want)})
				}
			}
			return x.val
		}
		if _, ok := linParts(init); !ok {
			return init
		}
		changed := false
		v := withParts(init, func(p string, lv *Lin) *Lin {
			x := t.locs[name+p]
			if x == nil || x.acc < 0 {
				return lv
			}
			changed = true
			return lv.AddMul(AtomLin(t.groups[x.acc].acc), x.ratio)
		})
		if changed {
			switch v := v.(type) {
			case *Lin:
				lo, hi := TypeRange(typ)
				h.AssumeRange(v, lo, hi)
			case Slice:
				h.AssumeRange(v.Len, 0, PInf)
				h.AssumeRange(v.Cap.Sub(v.Len), 0, PInf)
				h.AssumeRange(v.Lo, 0, PInf)
			}
		}
		return v
	}
	for _, g := range t.groups {
		if g.nonneg {
			h.AssumeRange(AtomLin(g.acc), 0, PInf)
		}
	}
	for id := range t.touched {
		st := h.Stream(id)
		i0 := s0.Stream(id)
		if t.epochs[id] {
			e.newEpoch(h, st)
			continue
		}
		nm := fmt.Sprintf("stream:%d", id)
		if x := t.locs[nm]; x != nil && x.acc >= 0 {
			st.Pos = i0.Pos.AddMul(AtomLin(t.groups[x.acc].acc), x.ratio)
		}
		st.Avail = st.Pos
	}
	for i, p := range headerPhis(l.header) {
		fr.set(p, apply("phi:"+fmt.Sprint(i), p.Type(), phiInit[i]))
	}
	for _, a := range t.aorder {
		id, pre := splitHeap(a)
		h.HavocUnder(id, pre, "loop")
	}
	for _, n := range t.order {
		if !strings.HasPrefix(n, "heap:") {
			continue
		}
		base := n
		for _, suf := range []string{".Lo", ".Len", ".Cap", ".Nil"} {
			if t.locs[n].acc >= 0 && t.locs[n].typ != nil && strings.HasSuffix(n, "!"+suf) {
				base = strings.TrimSuffix(n, suf)
			}
		}
		id, path := splitHeap(strings.TrimSuffix(strings.TrimPrefix(base, "heap:"), "!"))
		typ := t.locs[n].typ
		init := s0.Load(id, path, typ)
		v := apply("heap:"+fmt.Sprint(id)+"|"+path+"!", typ, init)
		o := h.objW(id)
		o.cells[path] = cell{v, typ}
	}
	for _, iv := range invs {
		h.Assume(Cmp{LE, iv})
	}
	return h, fr
}

// shiftVal is the value that is to the bits next in state b what v is to the
// bits next in state a. It says whether v depends on such bits.
func (e *Engine) shiftVal(v Val, a, b *State) (Val, bool) {
	lin := func(l *Lin) (*Lin, bool) {
		r := Const(l.K)
		moved := false
		for _, t := range l.T {
			at := t.A
			if at.Pos != nil {
				sa, sb := a.Stream(at.Stream), b.Stream(at.Stream)
				if sa.Epoch == at.Epoch {
					if d := a.Norm(at.Pos.Sub(sa.Pos)); d.IsConst() && d.K >= 0 && d.K < 64 {
						at = e.Bit(at.Stream, sb.Epoch, b.Norm(sb.Pos).AddK(d.K))
						moved = true
					}
				}
			}
			r = r.AddMul(AtomLin(at), t.C)
		}
		return r, moved
	}
	switch x := v.(type) {
	case *Lin:
		return lin(x)
	case Bool:
		if x.IsConst {
			return v, false
		}
		l, ok := lin(x.C.L)
		return Bool{C: Cmp{x.C.Op, l}}, ok
	}
	return v, false
}

func splitHeap(a string) (int, string) {
	i := strings.IndexByte(a, '|')
	var id int
	fmt.Sscan(a[:i], &id)
	return id, a[i+1:]
}

// existed says whether an object is visible at the head of the loop.
func existed(head *State, id, loop int) bool {
	if _, ok := head.heap[id]; ok {
		return true
	}
	if _, ok := head.E.base[id]; ok {
		return true
	}
	o, ok := head.E.symObjs[id]
	if !ok {
		return false
	}
	if strings.Contains(o.Name, "~") {
		// made up while the body was analysed
		for _, l := range o.Loops {
			if l == loop {
				return false
			}
		}
	}
	return true
}

// heapDiff lists the locations of obj that differ between head and back.
func (e *Engine) heapDiff(head, back *State, id int, cells map[string]types.Type, arrays map[string]bool) {
	ob, ok := back.heap[id]
	if !ok {
		return
	}
	oh := head.Obj(id)
	if ob == oh {
		return
	}
	// new defaults or content regions
	if len(ob.Log) != len(oh.Log) {
		for _, r := range ob.Log[min(len(oh.Log), len(ob.Log)):] {
			if r.Lo != nil || true {
				arrays[fmt.Sprintf("%d|%s", id, r.Path)] = true
			}
		}
	}
	old := map[prefDef]bool{}
	for _, d := range oh.defs {
		old[d] = true
	}
	kept := map[prefDef]bool{}
	for _, d := range ob.defs {
		if old[d] {
			kept[d] = true
			continue
		}
		// a graft of a scalar tree or a havoc
		arrays[fmt.Sprintf("%d|%s", id, d.pre)] = true
	}
	for _, d := range oh.defs {
		if kept[d] {
			continue
		}
		// replaced: covered if what replaced it lies above it
		covered := false
		for a := range arrays {
			aid, pre := splitHeap(a)
			if aid == id && under(d.pre, pre) {
				covered = true
			}
		}
		if !covered {
			arrays[fmt.Sprintf("%d|%s", id, "")] = true
		}
	}
	keys := map[string]types.Type{}
	for k, c := range ob.cells {
		keys[k] = c.T
	}
	for k, c := range oh.cells {
		if _, ok := keys[k]; !ok {
			keys[k] = c.T
		}
	}
	for k, t := range keys {
		cb, okb := ob.cells[k]
		ch, okh := oh.cells[k]
		if okb && okh && e.same(back, cb.V, ch.V) {
			continue
		}
		if hasSym(k) {
			if okb && !okh || okb && okh {
				arrays[fmt.Sprintf("%d|%s", id, k[:strings.Index(k, "[#")])] = true
			} else if okh && !okb {
				arrays[fmt.Sprintf("%d|%s", id, k[:strings.Index(k, "[#")])] = true
			}
			continue
		}
		var vb, vh Val
		if okb {
			vb = cb.V
		} else {
			vb = back.memLoad(&ob.mem, k, t, nil)
		}
		if okh {
			vh = ch.V
		} else {
			vh = head.memLoad(&oh.mem, k, t, nil)
		}
		if e.same(back, vb, vh) {
			continue
		}
		cells[k] = t
	}
}

func (e *Engine) summarise(s0 *State, fr0 *frame, l *natLoop, from *ssa.BasicBlock, outs *[]Outcome) []edge {
	e.nextLoop++
	id := e.nextLoop
	tests := loopTests(l)
	if !e.Rotate {
		tests = nil
	}
	entry := s0.Clone()
	if tests != nil {
		var in []edge
		for _, x := range e.loopTest(s0, fr0, l, tests, from, outs).ins {
			if !x.s.bad {
				in = append(in, x)
			}
		}
		if len(in) == 1 {
			s0 = s0.Clone()
			s0.Facts = in[0].s.Facts
		}
	}
	s0.event(Event{Kind: "loopenter", Fn: fr0.fn, Name: fmt.Sprint(id)})
	phiInit := e.phiVals(edge{s0, fr0, from, l.header}, l.header)
	phis := headerPhis(l.header)
	t := &loopTmpl{locs: map[string]*tmplLoc{}, arrays: map[string]bool{}, epochs: map[int]bool{}, touched: map[int]bool{}}
	var invs []*Lin
	var conds []Cmp
	cp := e.mark(outs)
	var head *State
	var hfr *frame
	var ctx *loopCtx

	runBody := func() {
		e.rollback(cp, outs)
		head, hfr = e.buildHead(s0, fr0, phiInit, l, t, invs)
		e.activeLoops = append(e.activeLoops, id)
		defer func() { e.activeLoops = e.activeLoops[:len(e.activeLoops)-1] }()
		conds = nil
		e.condSinks = append(e.condSinks, &conds)
		defer func() { e.condSinks = e.condSinks[:len(e.condSinks)-1] }()
		ctx = &loopCtx{loop: l}
		bs, bf := head.Clone(), hfr.clone()
		bs.event(Event{Kind: "loophead", Fn: fr0.fn, Name: fmt.Sprint(id)})
		e.run(bs, bf, l.header, 0, ctx, outs)
		var ok []edge
		for _, b := range ctx.backs {
			if !b.s.bad {
				ok = append(ok, b)
			}
		}
		ctx.backs = ok
		if tests != nil {
			e.rotate(entry, fr0, l, tests, from, ctx, outs)
		}
		for _, b := range ctx.backs {
			b.s.event(Event{Kind: "loopback", Fn: fr0.fn, Name: fmt.Sprint(id)})
		}
		if len(ctx.backs) > 400 {
			panic(Unsupported{fmt.Sprintf("loop at %s has %d paths", e.P.Where(loopPos(l)), len(ctx.backs))})
		}
	}

	var deltas func() *loopTmpl
	var lastBase [][]*Lin
	deltas = func() *loopTmpl {
		n := &loopTmpl{locs: map[string]*tmplLoc{}, arrays: map[string]bool{}, epochs: map[int]bool{}, touched: map[int]bool{}}
		for a := range t.arrays {
			n.arrays[a] = true
		}
		for k := range t.epochs {
			n.epochs[k] = true
		}
		for k := range t.touched {
			n.touched[k] = true
		}
		type linObs struct {
			name string
			typ  types.Type
			d    []*Lin
		}
		var lins []linObs
		addHavoc := func(name string, typ types.Type, init Val, backs []Val, ss []*State) {
			x := t.locs[name]
			if x == nil || !x.havoc {
				x = &tmplLoc{name: name, havoc: true, acc: -1, typ: typ, nonnil: true}
				x.val = s0.Sym(e.freshName("head:"+name), typ)
			} else {
				c := *x
				x = &c
			}
			nn := x.nonnil
			chk := func(s *State, v Val) {
				nl, ok := nilOf(v)
				if !ok || s.Decide(Cmp{EQ, nl}) != True {
					nn = false
				}
			}
			chk(s0, init)
			for i, b := range backs {
				chk(ss[i], b)
			}
			x.nonnil = nn
			if nn {
				x.val = setNil(x.val, Const(0))
			} else if nl, ok := nilOf(x.val); ok && nl.IsConst() {
				x.val = s0.Sym(e.freshName("head:"+name), typ)
			}
			n.locs[name] = x
			n.order = append(n.order, name)
			// the length of a havoc slice is still tracked
			hs, ok := x.val.(Slice)
			if !ok || t.locs[name] == nil || !t.locs[name].havoc {
				return
			}
			var ds []*Lin
			for i, b := range backs {
				bs, ok := b.(Slice)
				if !ok {
					return
				}
				ds = append(ds, ss[i].Norm(bs.Len).Sub(ss[i].Norm(hs.Len)))
			}
			lins = append(lins, linObs{name + "~len", typ, ds})
		}
		var states []*State
		for _, b := range ctx.backs {
			states = append(states, b.s)
		}
		consider := func(name string, typ types.Type, init, hv Val, bv []Val) {
			if x := t.locs[name]; x != nil && x.havoc {
				addHavoc(name, typ, init, bv, states)
				return
			}
			allSame, shape := true, true
			for i, b := range bv {
				if !e.same(states[i], b, hv) {
					allSame = false
				}
				if !sameShape(hv, b) {
					shape = false
				}
			}
			if x := t.locs[name]; len(bv) > 0 && x == nil || x != nil && x.shift {
				next, moves := true, false
				for i, b := range bv {
					v, ok := e.shiftVal(init, s0, states[i])
					next = next && ok && e.same(states[i], v, b)
					switch v := v.(type) {
					case *Lin:
						h, ok := hv.(*Lin)
						moves = moves || !ok || !v.Equal(h)
					case Bool:
						h, ok := hv.(Bool)
						moves = moves || !ok || h.IsConst || h.C.Op != v.C.Op || !v.C.L.Equal(h.C.L)
					}
				}
				if next && (moves || x != nil) {
					n.locs[name] = &tmplLoc{name: name, acc: -1, typ: typ, shift: true}
					n.order = append(n.order, name)
					return
				}
				if x != nil {
					addHavoc(name, typ, init, bv, states)
					return
				}
			}
			hps, isLin := linParts(hv)
			known := false
			if isLin {
				for _, p := range hps {
					if t.locs[name+p.name] != nil {
						known = true
					}
				}
			}
			if allSame && !known {
				return
			}
			if !isLin || !shape {
				addHavoc(name, typ, init, bv, states)
				return
			}
			for pi, p := range hps {
				var ds []*Lin
				zero := true
				for i, b := range bv {
					bp, _ := linParts(b)
					d := states[i].Norm(bp[pi].l).Sub(states[i].Norm(p.l))
					if !d.Is(0) {
						zero = false
					}
					ds = append(ds, d)
				}
				if zero && t.locs[name+p.name] == nil {
					continue
				}
				lins = append(lins, linObs{name + p.name, typ, ds})
			}
		}
		// phis
		var bphis [][]Val
		for _, b := range ctx.backs {
			bphis = append(bphis, e.phiVals(b, l.header))
		}
		for i, p := range phis {
			var bv []Val
			for _, x := range bphis {
				bv = append(bv, x[i])
			}
			consider(fmt.Sprintf("phi:%d", i), p.Type(), phiInit[i], hfr.env[hfr.info.num[p]], bv)
		}
		// heap
		mod := map[string]types.Type{}
		for _, b := range ctx.backs {
			var ids []int
			for oid := range b.s.heap {
				ids = append(ids, oid)
			}
			sort.Ints(ids)
			for _, oid := range ids {
				if !existed(head, oid, id) {
					continue
				}
				cells := map[string]types.Type{}
				e.heapDiff(head, b.s, oid, cells, n.arrays)
				for k, ty := range cells {
					mod[fmt.Sprintf("%d|%s", oid, k)] = ty
				}
			}
		}
		for nme, x := range t.locs {
			if strings.HasPrefix(nme, "heap:") {
				b := nme[:strings.LastIndexByte(nme, '!')]
				mod[strings.TrimPrefix(b, "heap:")] = x.typ
			}
		}
		var mk []string
		for k := range mod {
			mk = append(mk, k)
		}
		sort.Strings(mk)
		for _, k := range mk {
			oid, path := splitHeap(k)
			covered := false
			for a := range n.arrays {
				aid, pre := splitHeap(a)
				if aid == oid && under(path, pre) {
					covered = true
				}
			}
			if covered {
				continue
			}
			var bv []Val
			for _, b := range ctx.backs {
				bv = append(bv, b.s.Load(oid, path, mod[k]))
			}
			consider("heap:"+k+"!", mod[k], s0.Load(oid, path, mod[k]), head.Load(oid, path, mod[k]), bv)
		}
		// streams
		sids := map[int]bool{}
		for _, b := range ctx.backs {
			for sid := range b.s.streams {
				sids[sid] = true
			}
		}
		var sl []int
		for sid := range sids {
			sl = append(sl, sid)
		}
		sort.Ints(sl)
		for _, sid := range sl {
			hs := head.Stream(sid)
			var ds []*Lin
			moved, ep := false, false
			for _, b := range ctx.backs {
				bs := b.s.Stream(sid)
				if bs.Epoch != hs.Epoch {
					ep, moved = true, true
					continue
				}
				d := b.s.Norm(bs.Pos).Sub(b.s.Norm(hs.Pos))
				ds = append(ds, d)
				if !d.Is(0) || !b.s.Norm(bs.Avail).Equal(b.s.Norm(hs.Avail)) || (bs.AlignAt == nil) != (hs.AlignAt == nil) || bs.NotAligned != hs.NotAligned {
					moved = true
				}
				if bs.AlignAt != nil && hs.AlignAt != nil && !b.s.Norm(bs.AlignAt).Equal(b.s.Norm(hs.AlignAt)) {
					ep, moved = true, true // re-based: forget
				}
			}
			if moved {
				n.touched[sid] = true
			}
			if ep || n.epochs[sid] {
				n.epochs[sid] = true
				n.touched[sid] = true
				continue
			}
			if n.touched[sid] {
				lins = append(lins, linObs{fmt.Sprintf("stream:%d", sid), nil, ds})
			}
		}
		for a := range n.arrays {
			if covered(n.arrays, a) {
				delete(n.arrays, a)
			}
		}
		for a := range n.arrays {
			n.aorder = append(n.aorder, a)
		}
		sort.Strings(n.aorder)
		// group
		lastBase = nil
		keyOf := map[string]int{}
		for _, lo := range lins {
			g := int64(0)
			for _, d := range lo.d {
				g = gcd(g, d.K)
				for _, tm := range d.T {
					g = gcd(g, tm.C)
				}
			}
			if g == 0 {
				// unchanged on every path now, but was in the template
				if x := t.locs[lo.name]; x != nil {
					n.locs[lo.name] = &tmplLoc{name: lo.name, acc: -1, typ: lo.typ}
				}
				continue
			}
			base := make([]*Lin, len(lo.d))
			for i, d := range lo.d {
				base[i] = divLin(d, g)
			}
			// sign: make it non-negative if possible
			lo0, hi0 := true, true
			for i, d := range base {
				a, b := states[i].Range(d)
				if a < 0 {
					lo0 = false
				}
				if b > 0 {
					hi0 = false
				}
			}
			if !lo0 && hi0 {
				g = -g
				for i := range base {
					base[i] = base[i].Neg()
				}
			} else if x := t.locs[lo.name]; !lo0 && !hi0 && x != nil && x.acc >= 0 && x.ratio != 0 {
				// the sign it had
				if (x.ratio < 0) != (g < 0) {
					g = -g
					for i := range base {
						base[i] = base[i].Neg()
					}
				}
			} else if !lo0 && !hi0 {
				// canonical sign
				for _, d := range base {
					if !d.Is(0) {
						if (len(d.T) > 0 && d.T[0].C < 0) || (len(d.T) == 0 && d.K < 0) {
							g = -g
							for i := range base {
								base[i] = base[i].Neg()
							}
						}
						break
					}
				}
			}
			k := ""
			for _, d := range base {
				k += d.Key() + "/"
			}
			gi, ok := keyOf[k]
			if !ok {
				gi = len(n.groups)
				keyOf[k] = gi
				n.groups = append(n.groups, &tmplGroup{nonneg: lo0 || hi0})
				lastBase = append(lastBase, base)
			}
			n.locs[lo.name] = &tmplLoc{name: lo.name, acc: gi, ratio: g, typ: lo.typ}
			n.order = append(n.order, lo.name)
		}
		return n
	}

	stable := false
	for round := 0; round < 12; round++ {
		runBody()
		n := deltas()
		if debugLoops {
			fmt.Printf("loop %s round %d: %s\n", e.P.Where(loopPos(l)), round, n.sig())
		}
		// monotone weakening: nonneg may only be lost for the same location set
		if n.sig() == t.sig() {
			stable = true
			// keep accumulators of t
			for i := range n.groups {
				n.groups[i].acc = t.groups[i].acc
			}
			break
		}
		for i := range n.groups {
			n.groups[i].acc = e.Fresh(fmt.Sprintf("acc%d", id), NInf, PInf)
			n.groups[i].acc.Acc = true
		}
		if round >= 8 {
			// give up relations between locations
			var groups []*tmplGroup
			for _, nm := range n.order {
				if x := n.locs[nm]; x.acc >= 0 {
					a := e.Fresh(fmt.Sprintf("acc%d", id), NInf, PInf)
					a.Acc = true
					x.acc, x.ratio = len(groups), 1
					groups = append(groups, &tmplGroup{acc: a})
				}
			}
			n.groups = groups
			t = n
			invs = nil
			runBody()
			m := deltas()
			if !coarser(m, t) {
				continue
			}
			stable = true
			lastBase = nil
			for range t.groups {
				lastBase = append(lastBase, nil)
			}
			break
		}
		t = n
	}
	if !stable {
		panic(Unsupported{fmt.Sprintf("no loop summary at %s", e.P.Where(loopPos(l)))})
	}
	accIdx := map[*Atom]int{}
	for i, g := range t.groups {
		accIdx[g.acc] = i
	}
	// invariants
	exact := true
	for _, b := range lastBase {
		if b == nil {
			exact = false
		}
	}
	if exact && len(t.groups) > 0 {
		cands := e.candidates(s0, t, accIdx, conds, id)
		for tries := 0; len(cands) > 0 && tries < 6; tries++ {
			invs = cands
			runBody()
			base := lastBase
			m := deltas()
			if m.sig() != t.sig() {
				// refined paths changed the shape; accept only if still covered
				if !coarser(m, t) {
					invs = nil
					runBody()
					deltas()
					break
				}
				// recompute accumulator changes against t's template
				lastBase = e.rebase(t, m, lastBase, len(ctx.backs))
				if lastBase == nil {
					lastBase = base
					invs = nil
					runBody()
					deltas()
					break
				}
			}
			var keep []*Lin
			for _, c := range cands {
				ok := true
				for i, b := range ctx.backs {
					d := c
					for a, gi := range accIdx {
						if cf := c.coef(a); cf != 0 {
							d = d.AddMul(lastBase[gi][i], cf)
						}
					}
					if b.s.Decide(Cmp{LE, d}) != True {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				}
			}
			if len(keep) == len(cands) {
				break
			}
			cands = keep
			if len(cands) == 0 {
				invs = nil
				runBody()
				deltas()
			}
		}
	}
	// record
	info := &LoopInfo{ID: id, Fn: fr0.fn, Header: l.header, Pos: loopPos(l), Trip: -1, Entry: s0.Clone(), Head: head, HeadEv: head.Ev, Invs: invs, frame: hfr}
	for _, g := range t.groups {
		info.Accs = append(info.Accs, g.acc)
	}
	for i, b := range ctx.backs {
		if e.leavesAt(b, l) {
			continue
		}
		info.Backs = append(info.Backs, b.s)
		info.backFr = append(info.backFr, b.fr)
		info.BackPos = append(info.BackPos, lastPos(b.from))
		m := map[*Atom]*Lin{}
		if exact {
			for gi, g := range t.groups {
				if gi < len(lastBase) && i < len(lastBase[gi]) {
					m[g.acc] = lastBase[gi][i]
				}
			}
		}
		info.DeltaOf = append(info.DeltaOf, m)
		info.Progress = append(info.Progress, e.progress(info, head, b.s, m, t))
	}
	e.Loops = append(e.Loops, info)
	// precise exits: first iteration from the entry state, later ones from
	// the states at the back edges.
	if e.PreciseExits && t.hasHavoc() && len(ctx.exits) > 0 && len(ctx.backs) <= 40 && e.preciseDepth < 1 {
		// every iteration is the first one or follows a generic one in which
		// all obligations held, so the generic verdicts are not needed
		backs := ctx.backs
		e.rollback(cp, outs)
		e.Loops = append(e.Loops, info)
		e.preciseDepth++
		defer func() { e.preciseDepth-- }()
		var exits []edge
		e.activeLoops = append(e.activeLoops, id)
		{
			c := &loopCtx{loop: l}
			bs, bf := s0.Clone(), fr0.clone()
			e.phis(bs, bf, from, l.header)
			bs.event(Event{Kind: "loopfirst", Fn: fr0.fn, Name: fmt.Sprint(id), Loop: info})
			e.run(bs, bf, l.header, 0, c, outs)
			exits = append(exits, c.exits...)
		}
		for _, b := range backs {
			c := &loopCtx{loop: l}
			bs, bf := b.s.Clone(), b.fr.clone()
			e.phis(bs, bf, b.from, l.header)
			bs.event(Event{Kind: "loopnext", Fn: fr0.fn, Name: fmt.Sprint(id), Loop: info})
			e.run(bs, bf, l.header, 0, c, outs)
			exits = append(exits, c.exits...)
		}
		e.activeLoops = e.activeLoops[:len(e.activeLoops)-1]
		return exits
	}
	return ctx.exits
}

// testOnly: the header has no effects and decides whether to go on.
// effectFree says whether a block only looks at values and branches.
func effectFree(h *ssa.BasicBlock) bool {
	if len(h.Succs) != 2 {
		return false
	}
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.DebugRef, *ssa.Extract:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return h.Succs[0] != h && h.Succs[1] != h
}

// loopTests returns the blocks a loop's test is made of: the header and, for
// a test of several parts, the blocks only the test enters.
func loopTests(l *natLoop) map[*ssa.BasicBlock]bool {
	if !effectFree(l.header) {
		return nil
	}
	leaves := func(b *ssa.BasicBlock) bool { return !l.blocks[b.Succs[0]] || !l.blocks[b.Succs[1]] }
	tests := map[*ssa.BasicBlock]bool{l.header: true}
	out := leaves(l.header)
	work := []*ssa.BasicBlock{l.header}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for _, n := range b.Succs {
			if tests[n] || !l.blocks[n] || !effectFree(n) || !leaves(n) {
				continue
			}
			own := true
			for _, p := range n.Preds {
				own = own && tests[p]
			}
			if own {
				tests[n] = true
				out = true
				work = append(work, n)
			}
		}
	}
	if !out {
		return nil
	}
	return tests
}

// loopTest evaluates the loop's test on an edge into the loop.
func (e *Engine) loopTest(s *State, fr *frame, l *natLoop, tests map[*ssa.BasicBlock]bool, from *ssa.BasicBlock, outs *[]Outcome) *loopCtx {
	c := &loopCtx{loop: l, headOnly: true, tests: tests}
	s, fr = s.Clone(), fr.clone()
	e.phis(s, fr, from, l.header)
	e.run(s, fr, l.header, 0, c, outs)
	return c
}

// leavesAt says whether a way back to the header surely ends at the loop's
// test: it does not go around the loop again.
func (e *Engine) leavesAt(b edge, l *natLoop) bool {
	tests := loopTests(l)
	if tests == nil {
		return false
	}
	var sunk []Outcome
	c := e.loopTest(b.s, b.fr, l, tests, b.from, &sunk)
	for _, x := range c.ins {
		if !x.s.bad {
			return false
		}
	}
	return len(c.exits) > 0 && len(sunk) == 0
}

// rotate evaluates the loop's test at the end of each traversal: where it
// fails the loop is left with what is known there.
func (e *Engine) rotate(s0 *State, fr0 *frame, l *natLoop, tests map[*ssa.BasicBlock]bool, from *ssa.BasicBlock, ctx *loopCtx, outs *[]Outcome) {
	var exits []edge
	for _, x := range ctx.exits {
		if !tests[x.from] {
			exits = append(exits, x)
		}
	}
	test := func(s *State, fr *frame, from *ssa.BasicBlock) *loopCtx {
		c := e.loopTest(s, fr, l, tests, from, outs)
		for _, x := range c.exits {
			if !x.s.bad {
				exits = append(exits, x)
			}
		}
		return c
	}
	test(s0, fr0, from)
	var backs []edge
	for _, b := range ctx.backs {
		c := test(b.s, b.fr, b.from)
		var in []edge
		for _, x := range c.ins {
			if !x.s.bad {
				in = append(in, x)
			}
		}
		if len(in) == 0 {
			continue
		}
		if len(in) == 1 {
			b.s.Facts = in[0].s.Facts
		}
		backs = append(backs, b)
	}
	ctx.backs, ctx.exits = backs, exits
}

func (t *loopTmpl) hasHavoc() bool {
	for _, x := range t.locs {
		if x.havoc {
			return true
		}
	}
	return false
}

// coarser: every change m observed is allowed by t.
// covered says whether a region lies within another one.
func covered(rs map[string]bool, a string) bool {
	for i := len(a) - 1; i > 0 && a[i] != '|'; i-- {
		if (a[i] == '.' || a[i] == '[') && rs[a[:i]] {
			return true
		}
	}
	return false
}

func coarser(m, t *loopTmpl) bool {
	for n, x := range m.locs {
		y := t.locs[n]
		if y == nil {
			return false
		}
		if x.havoc && (!y.havoc || y.nonnil && !x.nonnil) {
			return false
		}
	}
	for a := range m.arrays {
		if !t.arrays[a] && !covered(t.arrays, a) {
			return false
		}
	}
	for k := range m.epochs {
		if !t.epochs[k] {
			return false
		}
	}
	for k := range m.touched {
		if !t.touched[k] {
			return false
		}
	}
	// grouping: locations sharing an accumulator in t must do so in m
	for n, y := range t.locs {
		for n2, y2 := range t.locs {
			if n >= n2 || y.acc < 0 || y.acc != y2.acc {
				continue
			}
			x, x2 := m.locs[n], m.locs[n2]
			mv := func(z *tmplLoc) bool { return z != nil && z.acc >= 0 }
			if !mv(x) && !mv(x2) {
				continue
			}
			if !mv(x) || !mv(x2) || x.acc != x2.acc || x.ratio*y2.ratio != x2.ratio*y.ratio {
				return false
			}
		}
	}
	for n, y := range t.locs {
		if y.acc >= 0 && t.groups[y.acc].nonneg {
			x := m.locs[n]
			if x == nil || x.acc < 0 {
				continue
			}
			if !m.groups[x.acc].nonneg || (x.ratio > 0) != (y.ratio > 0) {
				return false
			}
		}
	}
	return true
}

// rebase expresses m's per-path changes in terms of t's accumulators.
func (e *Engine) rebase(t, m *loopTmpl, base [][]*Lin, nback int) [][]*Lin {
	r := make([][]*Lin, len(t.groups))
	for n, y := range t.locs {
		if y.acc < 0 || r[y.acc] != nil {
			continue
		}
		x := m.locs[n]
		v := make([]*Lin, nback)
		if x == nil || x.acc < 0 {
			for i := range v {
				v[i] = Const(0)
			}
		} else {
			for i := range v {
				d := base[x.acc][i].Mul(x.ratio)
				if d.K%y.ratio != 0 {
					return nil
				}
				for _, tm := range d.T {
					if tm.C%y.ratio != 0 {
						return nil
					}
				}
				v[i] = divLin(d, y.ratio)
			}
		}
		r[y.acc] = v
	}
	for i := range r {
		if r[i] == nil {
			return nil
		}
	}
	return r
}

func divLin(d *Lin, g int64) *Lin {
	r := &Lin{K: d.K / g}
	for _, t := range d.T {
		r.T = append(r.T, Term{t.A, t.C / g})
	}
	return r
}

func setNil(v Val, n *Lin) Val {
	switch v := v.(type) {
	case Ptr:
		v.Nil = n
		return v
	case Slice:
		v.Nil = n
		return v
	case Iface:
		v.Nil = n
		return v
	case Func:
		v.Nil = n
		return v
	case Chan:
		v.Nil = n
		return v
	case Map:
		v.Nil = n
		return v
	}
	return v
}

// candidates proposes loop invariants L<=0 from the branch conditions seen.
func (e *Engine) candidates(s0 *State, t *loopTmpl, acc map[*Atom]int, conds []Cmp, id int) []*Lin {
	var r []*Lin
	seen := map[string]bool{}
	try := func(l *Lin) {
		k := l.Key()
		if seen[k] || len(r) >= 30 {
			return
		}
		seen[k] = true
		has := false
		l0 := l
		for _, tm := range l.T {
			if _, ok := acc[tm.A]; ok {
				has = true
				l0 = l0.AddMul(AtomLin(tm.A), -tm.C)
				continue
			}
			for _, x := range tm.A.Loops {
				if x == id {
					return
				}
			}
		}
		if !has {
			return
		}
		if s0.Decide(Cmp{LE, l0}) != True {
			return
		}
		r = append(r, l)
	}
	// what a condition says about the values at the head alone
	project := func(l *Lin) *Lin {
		p := l
		for _, tm := range l.T {
			if _, ok := acc[tm.A]; ok {
				continue
			}
			for _, x := range tm.A.Loops {
				if x == id {
					lo, _ := scale(tm.A.Lo, tm.A.Hi, tm.C)
					if lo == NInf || lo == PInf {
						return nil
					}
					p = p.AddMul(AtomLin(tm.A), -tm.C).AddK(lo)
					break
				}
			}
		}
		if p == l {
			return nil
		}
		return p
	}
	for _, c := range conds {
		for _, d := range []int64{0, -1, 1} {
			try(c.L.AddK(d))
			try(c.L.Neg().AddK(d))
		}
	}
	for _, c := range conds {
		for _, l := range []*Lin{c.L, c.L.Neg()} {
			if p := project(l); p != nil {
				try(p)
				try(p.AddK(-1))
			}
		}
	}
	return r
}

// progress explains why a back edge cannot be taken forever.
func (e *Engine) progress(info *LoopInfo, head, back *State, delta map[*Atom]*Lin, t *loopTmpl) string {
	for id, st := range back.streams {
		hs := head.Stream(id)
		if st.Epoch == hs.Epoch {
			if lo, _ := back.Range(back.Norm(st.Pos).Sub(back.Norm(hs.Pos))); lo >= 1 {
				return "consumes input"
			}
		}
	}
	for _, ev := range back.Events(head.Ev) {
		switch ev.Kind {
		case "recv":
			return "waits for a channel"
		case "send":
			return "sends on a channel"
		case "consume", "vlc", "packet":
			if ev.From != nil && ev.To != nil {
				if lo, _ := back.Range(ev.To.Sub(ev.From)); lo >= 1 {
					return "consumes input"
				}
			}
		}
	}
	// ranking: an invariant bound that every traversal approaches
	for _, iv := range info.Invs {
		d := Const(0)
		ok := true
		for _, tm := range iv.T {
			if x, is := delta[tm.A]; is {
				d = d.AddMul(x, tm.C)
			} else if tm.A.Acc && contains(info.Accs, tm.A) {
				ok = false
			}
		}
		if ok {
			if lo, _ := back.Range(d); lo >= 1 {
				return "approaches the bound " + iv.String()
			}
		}
	}
	// a slice that shrinks, or an unsigned counter that falls
	for _, n := range t.order {
		x := t.locs[n]
		if x.acc < 0 || x.typ == nil {
			continue
		}
		d, ok := delta[t.groups[x.acc].acc]
		if !ok {
			continue
		}
		d = d.Mul(x.ratio)
		if strings.HasSuffix(n, ".Len") {
			if _, hi := back.Range(d); hi <= -1 {
				return "shrinks a slice"
			}
		} else if !strings.HasSuffix(n, ".Lo") && !strings.HasSuffix(n, ".Cap") && !strings.HasSuffix(n, ".Nil") {
			if lo, _ := TypeRange(x.typ); lo == 0 {
				if _, hi := back.Range(d); hi <= -1 {
					return "counts down an unsigned value"
				}
			}
		}
	}
	return ""
}

func contains(as []*Atom, a *Atom) bool {
	for _, x := range as {
		if x == a {
			return true
		}
	}
	return false
}

func loopPos(l *natLoop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (best == token.NoPos || in.Pos() < best) {
				best = in.Pos()
			}
		}
	}
	return best
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return token.NoPos
}

// HeadVal returns the value of v at the loop head.
func (li *LoopInfo) HeadVal(v ssa.Value) Val {
	if n, ok := li.frame.info.num[v]; ok {
		return li.frame.env[n]
	}
	return nil
}
