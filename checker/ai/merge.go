package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Merging of the outcomes of a call. Outcomes with the same observable trace
// (everything but stores), the same streams and the same pending errors become
// one outcome; integers and flags that differ become unknown within the hull
// of their ranges. Pointers, slices and the like must agree.

// MergeMode says how the outcomes of a function are merged.
type MergeMode int

const (
	NoMerge MergeMode = iota
	// MergeSame merges outcomes with the same trace.
	MergeSame
	// MergeAll also merges outcomes whose traces and stream positions differ.
	MergeAll
)

// joinedVal is an integer that was joined in the merge under way.
type joinedVal struct {
	ss []*State
	vs []Val
	l  *Lin
}

type mgroup struct {
	alts []Alt
}

func (e *Engine) mergeAlts(pre *State, fn *ssa.Function, alts []Alt, all bool) []Alt {
	if len(alts) < 2 {
		return alts
	}
	var groups []*mgroup
	for _, a := range alts {
		if a.Panicked {
			groups = append(groups, &mgroup{[]Alt{a}})
			continue
		}
		done := false
		for _, g := range groups {
			if !g.alts[0].Panicked && e.mergeable(pre, g.alts[0], a, all) {
				g.alts = append(g.alts, a)
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, &mgroup{[]Alt{a}})
		}
	}
	var r []Alt
	for _, g := range groups {
		if len(g.alts) == 1 {
			r = append(r, g.alts[0])
			continue
		}
		r = append(r, e.mergeGroup(pre, fn, g.alts, all))
	}
	return r
}

// traceKey renders the observable part of a trace since stop.
func (e *Engine) traceKey(s *State, stop *Event) string {
	var b strings.Builder
	for ev := s.Ev; ev != nil && ev != stop; ev = ev.Prev {
		if ev.Kind == "store" {
			continue
		}
		fmt.Fprintf(&b, "%s %d %d%s %s", ev.Kind, ev.Pos, ev.Obj, ev.Path, ev.Name)
		if ev.From != nil && ev.To != nil {
			fmt.Fprintf(&b, " %s %s", ev.From.Key(), ev.To.Key())
		}
		if ev.Kind == "vlc" {
			fmt.Fprintf(&b, " %s", ValString(ev.Val))
		}
		for _, a := range ev.Args {
			fmt.Fprintf(&b, " %s", ValString(a))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func (e *Engine) joinable(pre *State, a, b Val) bool {
	if e.same(pre, a, b) {
		return true
	}
	switch x := a.(type) {
	case *Lin:
		_, ok := b.(*Lin)
		return ok
	case Bool:
		_, ok := b.(Bool)
		return ok
	case Ptr:
		y, ok := b.(Ptr)
		return ok && e.Loose && (x.Obj == 0 || x.Path == "") && (y.Obj == 0 || y.Path == "")
	case Iface:
		y, ok := b.(Iface)
		if !ok || !e.Loose {
			return false
		}
		_, ok1 := x.V.(*ErrVal)
		_, ok2 := y.V.(*ErrVal)
		return ok1 && ok2 && pre.Norm(x.Nil).Is(0) && pre.Norm(y.Nil).Is(0)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.joinable(pre, x[i], y[i]) {
				return false
			}
		}
		return true
	case *Agg:
		y, ok := b.(*Agg)
		return ok && e.joinableMem(pre, &x.mem, &y.mem)
	}
	return false
}

func (e *Engine) joinableMem(pre *State, a, b *mem) bool {
	for k, c := range a.cells {
		if d, ok := b.cells[k]; ok {
			if !e.joinable(pre, c.V, d.V) {
				return false
			}
			continue
		}
		switch c.V.(type) {
		case *Lin, Bool:
		default:
			if v := pre.memLoad(b, k, c.T, nil); !e.joinable(pre, c.V, v) {
				return false
			}
		}
	}
	for k, c := range b.cells {
		if _, ok := a.cells[k]; ok {
			continue
		}
		switch c.V.(type) {
		case *Lin, Bool:
		default:
			if v := pre.memLoad(a, k, c.T, nil); !e.joinable(pre, v, c.V) {
				return false
			}
		}
	}
	return true
}

func (e *Engine) mergeable(pre *State, a, b Alt, all bool) bool {
	if !e.joinable(pre, a.V, b.V) {
		return false
	}
	x, y := a.S, b.S
	if len(x.Pend) != len(y.Pend) {
		return false
	}
	for i := range x.Pend {
		if x.Pend[i] != y.Pend[i] && !e.Loose {
			return false
		}
	}
	if !all {
		for id, st := range x.streams {
			t := y.Stream(id)
			if st.Epoch != t.Epoch || !pre.Norm(st.Pos).Equal(pre.Norm(t.Pos)) || st.Ended != t.Ended {
				return false
			}
		}
		for id := range y.streams {
			if _, ok := x.streams[id]; !ok {
				return false
			}
		}
	}
	for id, o := range x.heap {
		p, ok := y.heap[id]
		if !ok || o == p {
			continue
		}
		if o.Data != p.Data || !e.joinableMem(pre, &o.mem, &p.mem) {
			return false
		}
	}
	if !all && e.traceKey(x, pre.Ev) != e.traceKey(y, pre.Ev) {
		return false
	}
	return true
}

func (e *Engine) joinN(pre *State, ss []*State, vs []Val) Val {
	eq := true
	for _, v := range vs[1:] {
		if !e.same(pre, vs[0], v) {
			eq = false
			break
		}
	}
	if eq {
		return vs[0]
	}
	switch x := vs[0].(type) {
	case *Lin:
		lo, hi := int64(PInf), int64(NInf)
		key := ""
		for i, v := range vs {
			a, b := ss[i].Range(v.(*Lin))
			lo, hi = min(lo, a), max(hi, b)
			key += ss[i].Norm(v.(*Lin)).Key() + "|"
		}
		// what is equal on every path stays equal
		if l := e.joined[key]; l != nil {
			return l
		}
		// so does what differs by the same amount on every path
		if e.Coalesce {
			for _, j := range e.joinedTo {
				if len(j.ss) != len(ss) || j.ss[0] != ss[0] {
					continue
				}
				d := ss[0].Norm(vs[0].(*Lin).Sub(j.vs[0].(*Lin)))
				eq := true
				for i := 1; i < len(vs) && eq; i++ {
					eq = j.ss[i] == ss[i] && ss[i].Norm(vs[i].(*Lin).Sub(j.vs[i].(*Lin))).Equal(d)
				}
				if eq {
					return j.l.Add(d)
				}
			}
		}
		l := AtomLin(e.Fresh("join", lo, hi))
		if e.joined != nil {
			e.joined[key] = l
			e.joinedTo = append(e.joinedTo, joinedVal{ss, vs, l})
		}
		return l
	case Bool:
		return Bool{C: Cmp{NE, AtomLin(e.Fresh("joinb", 0, 1))}}
	case Ptr:
		var ns []Val
		t := x
		for i, v := range vs {
			p := v.(Ptr)
			ns = append(ns, ss[i].Norm(p.Nil))
			if t.Obj == 0 {
				t = p
			}
		}
		var ty types.Type
		for i, v := range vs {
			if v.(Ptr).Obj == t.Obj {
				ty = ss[i].Obj(t.Obj).T
				break
			}
		}
		if ty == nil {
			panic(Unsupported{"join of pointers"})
		}
		return Ptr{Obj: e.SymObj(e.freshName("join"), ty), Nil: e.joinN(pre, ss, ns).(*Lin)}
	case Iface:
		return Iface{V: &ErrVal{Kind: AtomLin(e.Fresh("joinerr", 0, 1<<20)), Src: x.V.(*ErrVal).Src, Name: "join"}, Nil: Const(0)}
	case Tuple:
		r := make(Tuple, len(x))
		for k := range x {
			var sub []Val
			for _, v := range vs {
				sub = append(sub, v.(Tuple)[k])
			}
			r[k] = e.joinN(pre, ss, sub)
		}
		return r
	case *Agg:
		var ms []*mem
		for _, v := range vs {
			ms = append(ms, &v.(*Agg).mem)
		}
		return &Agg{T: x.T, mem: e.joinMem(pre, ss, ms)}
	}
	panic(Unsupported{"join of " + ValString(vs[0])})
}

func sameDefs(a, b []prefDef) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Engine) joinMem(pre *State, ss []*State, ms []*mem) mem {
	n := ms[0].cloneMem()
	// regions with different defaults become unknown
	var lost []string
	for _, m := range ms[1:] {
		if sameDefs(ms[0].defs, m.defs) {
			continue
		}
		k := 0
		for k < len(m.defs) && k < len(ms[0].defs) && m.defs[k] == ms[0].defs[k] {
			k++
		}
		for _, d := range ms[0].defs[k:] {
			lost = append(lost, d.pre)
		}
		for _, d := range m.defs[k:] {
			lost = append(lost, d.pre)
		}
	}
	keys := map[string]types.Type{}
	for _, m := range ms {
		for k, c := range m.cells {
			keys[k] = c.T
		}
	}
	vals := map[string]Val{}
	var names []string
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		t := keys[k]
		var vs []Val
		for i, m := range ms {
			if c, ok := m.cells[k]; ok {
				vs = append(vs, c.V)
			} else {
				vs = append(vs, ss[i].memLoad(m, k, t, nil))
			}
		}
		vals[k] = e.joinN(pre, ss, vs)
	}
	sort.Strings(lost)
	for i, p := range lost {
		if i == 0 || !under(p, n.defs[len(n.defs)-1].pre) {
			n.addDef(prefDef{p, defSym, e.freshName("h:join")})
		}
	}
	n.cells = map[string]cell{}
	for k, v := range vals {
		n.cells[k] = cell{v, keys[k]}
	}
	return n
}

func (e *Engine) mergeGroup(pre *State, fn *ssa.Function, alts []Alt, all bool) Alt {
	m := pre.Clone()
	e.joined, e.joinedTo = map[string]*Lin{}, nil
	defer e.joinFacts(pre, m, alts)
	var ss []*State
	var vs []Val
	for _, a := range alts {
		ss = append(ss, a.S)
		vs = append(vs, a.V)
	}
	s0 := ss[0]
	m.Pend = append([]*Pending(nil), s0.Pend...)
	m.Ghost = make(map[string]Val, len(s0.Ghost))
	for k, v := range s0.Ghost {
		m.Ghost[k] = v
	}
	ids := map[int]bool{}
	for _, s := range ss {
		for id := range s.heap {
			ids[id] = true
		}
	}
	var order []int
	for id := range ids {
		order = append(order, id)
	}
	sort.Ints(order)
	for _, id := range order {
		var os []*Obj
		var st []*State
		for _, s := range ss {
			if o, ok := s.heap[id]; ok {
				os = append(os, o)
				st = append(st, s)
			} else if o, ok := pre.heap[id]; ok {
				os = append(os, o)
				st = append(st, s)
			} else if _, ok := e.base[id]; ok {
				os = append(os, s.Obj(id))
				st = append(st, s)
			} else if _, ok := e.symObjs[id]; ok {
				os = append(os, s.Obj(id))
				st = append(st, s)
			}
		}
		o := os[0]
		same := true
		for _, p := range os[1:] {
			if p != o {
				same = false
			}
		}
		o.own = nil
		if same {
			m.heap[id] = o
			continue
		}
		n := *o
		n.own = m
		var ms []*mem
		for _, p := range os {
			ms = append(ms, &p.mem)
		}
		n.mem = e.joinMem(pre, st, ms)
		// what differs in the logs is unknown
		k := len(o.Log)
		for _, p := range os[1:] {
			i := 0
			for i < k && i < len(p.Log) && p.Log[i] == o.Log[i] {
				i++
			}
			k = i
		}
		n.Log = append([]Region(nil), o.Log[:k]...)
		lost := map[string]bool{}
		for _, p := range os {
			for _, r := range p.Log[k:] {
				if !lost[r.Path] {
					lost[r.Path] = true
					n.Log = append(n.Log, Region{Path: r.Path, Src: "opaque"})
				}
			}
		}
		m.heap[id] = &n
	}
	m.streams = map[int]*Stream{}
	for id, st := range s0.streams {
		c := *st
		m.streams[id] = &c
	}
	if all {
		for _, s := range ss {
			for id, st := range s.streams {
				c, ok := m.streams[id]
				if !ok {
					c = m.Stream(id)
				}
				if c.Epoch != st.Epoch || !c.Pos.Equal(st.Pos) {
					e.newEpoch(m, c)
				}
			}
		}
		ev := Event{Kind: "merged", Fn: fn, Pos: fn.Pos(), Prev: pre.Ev}
		if pre.Ev != nil {
			ev.N = pre.Ev.N + 1
		}
		m.Ev = &ev
	} else {
		m.Ev = pre.Ev
		for _, ev := range s0.Events(pre.Ev) {
			if ev.Kind == "store" {
				continue
			}
			c := *ev
			c.Prev = m.Ev
			if m.Ev != nil {
				c.N = m.Ev.N + 1
			}
			m.Ev = &c
		}
	}
	return Alt{S: m, V: e.joinN(pre, ss, vs)}
}

// joinFacts keeps what all alternatives know.
func (e *Engine) joinFacts(pre, m *State, alts []Alt) {
	s0 := alts[0].S
	rest := alts[1:]
	var atoms []*Atom
	for a := range s0.ab {
		if s0.ab[a] != pre.ab[a] {
			atoms = append(atoms, a)
		}
	}
	for a := range s0.subst {
		if _, ok := pre.subst[a]; !ok {
			atoms = append(atoms, a)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	for _, a := range atoms {
		l := AtomLin(a)
		if v, ok := s0.subst[a]; ok {
			c := Cmp{EQ, l.Sub(v)}
			all := true
			for _, x := range rest {
				if x.S.Decide(c) != True {
					all = false
					break
				}
			}
			if all {
				m.Assume(c)
				continue
			}
		}
		lo, hi := s0.Range(l)
		for _, x := range rest {
			a, b := x.S.Range(l)
			lo, hi = min(lo, a), max(hi, b)
		}
		if pl, ph := m.Range(l); lo > pl || hi < ph {
			m.AssumeRange(l, lo, hi)
		}
	}
	for _, k := range s0.order {
		f := s0.facts[k]
		if pre.facts[k] == f {
			continue
		}
		lo, hi := f.Lo, f.Hi
		for _, x := range rest {
			a, b := x.S.Range(f.L)
			lo, hi = min(lo, a), max(hi, b)
		}
		if pl, ph := m.Range(f.L); lo > pl || hi < ph {
			m.AssumeRange(f.L, lo, hi)
		}
		for _, v := range f.NE {
			c := Cmp{NE, f.L.AddK(-v)}
			all := true
			for _, x := range rest {
				if x.S.Decide(c) != True {
					all = false
					break
				}
			}
			if all {
				m.Assume(c)
			}
		}
	}
}
