package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// The accuracy of the inverse transform (V17), by affine arithmetic over the
// SSA form: every value is a combination of the 64 coefficients, of rounding
// errors that are each bounded, and of a constant. Loops run with constant
// counters, branches on values that are not known are followed both ways and
// joined where they meet.

const idctAmplitude = 300.0 // samples of the blocks considered, as in IEEE 1180

// idctHalf is the density of exact samples at the halves between whole numbers:
// the coefficients are rounded, so exact samples are normally distributed about
// whole numbers with a variance of 1/12.
var idctHalf = 2 * math.Sqrt(12/(2*math.Pi)) * math.Exp(-0.5*0.25*12)

// idctBasis[s] is the exact transform: what the coefficients contribute to
// sample s, and, as it is orthonormal, what sample s contributes to them.
var idctBasis = func() (r [64][]float64) {
	for i := range r {
		r[i] = idctIdeal(i&7, i>>3)
	}
	return
}()

// affForm is K plus a combination of symbols; the first 64 are coefficients.
type affForm struct {
	k float64
	t []float64
}

func affConst(k float64) *affForm { return &affForm{k: k} }

func (f *affForm) isConst() bool {
	for _, c := range f.t {
		if c != 0 {
			return false
		}
	}
	return true
}

func (f *affForm) plus(g *affForm, m float64) *affForm {
	n := max(len(f.t), len(g.t))
	r := &affForm{k: f.k + m*g.k, t: make([]float64, n)}
	copy(r.t, f.t)
	for i, c := range g.t {
		r.t[i] += m * c
		if math.Abs(r.t[i]) < 1e-13 {
			r.t[i] = 0
		}
	}
	return r
}

func (f *affForm) times(m float64) *affForm { return affConst(0).plus(f, m) }

func (f *affForm) at(i int) float64 {
	if i < len(f.t) {
		return f.t[i]
	}
	return 0
}

func (f *affForm) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%.12g", f.k)
	for i, c := range f.t {
		if c != 0 {
			fmt.Fprintf(&b, " %d:%.12g", i, c)
		}
	}
	return b.String()
}

func (f *affForm) same(g *affForm) bool {
	d := f.plus(g, -1)
	if math.Abs(d.k) > 1e-9 {
		return false
	}
	for _, c := range d.t {
		if math.Abs(c) > 1e-9 {
			return false
		}
	}
	return true
}

// affNoise is what a division drops: 0 <= e <= 1 - 1/unit of the quotient for
// shifts, and -(1-1/unit)..(1-1/unit) for divisions.
type affNoise struct {
	of     *affForm // the exact quotient
	lo, hi float64
	trunc  bool
}

type affVal any // *affForm, bool, affCond, affPtr, affSlice, *affMem (array value), []affVal (tuple), nil

type affCond struct {
	f  *affForm
	op token.Token // f op 0
	or []*affForm  // all of these, instead of f, with == and !=
}

// affOr is the bitwise or of some values, good for comparing with zero.
type affOr []*affForm

type affPtr struct {
	m   *affMem
	off int
	t   types.Type // what it points to
}

type affSlice struct {
	m        *affMem
	off, len int
	cap      int
	t        types.Type // of the elements
}

type affMem struct{ id, n int }

type affState struct {
	cells map[int][]affVal
	cons  []*affForm // forms that are 0
}

func (s *affState) clone() *affState {
	r := &affState{cells: make(map[int][]affVal, len(s.cells)), cons: append([]*affForm(nil), s.cons...)}
	for k, v := range s.cells {
		r.cells[k] = append([]affVal(nil), v...)
	}
	return r
}

// affPath is a state with the values of a frame and how it came to its block.
type affPath struct {
	s    *affState
	env  map[ssa.Value]affVal
	from *ssa.BasicBlock
	at   *ssa.BasicBlock
	ret  []affVal
	done bool
}

type affine struct {
	c      *Ctx
	e      *ai.Engine
	noises []affNoise // noises[i] is symbol 64+i
	known  map[string]int
	next   int
	steps  int
	depth  int
	lives  map[ssa.Value]map[*ssa.BasicBlock]bool
	cur    *affState
	post   map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	fns    map[*ssa.Function]bool
}

func (a *affine) fail(format string, args ...any) {
	panic(ai.Unsupported{Msg: "affine: " + fmt.Sprintf(format, args...)})
}

// bounds of a form for blocks that are rounded transforms of samples.
func (a *affine) bounds(f *affForm) (lo, hi float64) {
	lo, hi = f.k, f.k
	w, any := 0.0, false
	for i, c := range f.t {
		if c == 0 {
			continue
		}
		if i < 64 {
			w += math.Abs(c) * 0.5 // coefficients are rounded
			any = true
			continue
		}
		n := a.noises[i-64]
		x, y := c*n.lo, c*n.hi
		lo, hi = lo+math.Min(x, y), hi+math.Max(x, y)
	}
	if any {
		for s := range idctBasis {
			x := 0.0
			for i := 0; i < 64 && i < len(f.t); i++ {
				x += f.t[i] * idctBasis[s][i]
			}
			w += math.Abs(x) * idctAmplitude
		}
	}
	return lo - w, hi + w
}

func intRange(t types.Type) (lo, hi float64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	l, h := ai.TypeRange(t)
	if b.Info()&types.IsUnsigned != 0 {
		return 0, float64(h), true
	}
	return float64(l), float64(h), true
}

// fit checks that a value stays in its type.
func (a *affine) fit(f *affForm, t types.Type, in ssa.Instruction) *affForm {
	lo, hi, ok := intRange(t)
	if !ok {
		a.fail("a value of type %s", t)
	}
	a.c.Count("overflow_obligations", 1)
	x, y := a.bounds(f)
	if (x < lo || y > hi) && a.cur != nil && len(a.cur.cons) > 0 {
		x, y = a.bounds(a.under(a.cur.cons).of(f))
	}
	if x < lo || y > hi {
		a.c.Failf("overflow", a.c.P.Where(in.Pos()), "%s: a value between %.0f and %.0f does not fit %s", in.Parent(), x, y, t)
		panic(abort{})
	}
	return f
}

// noise is the symbol of what is dropped when f, times unit a whole number, is
// made whole.
func (a *affine) noise(f *affForm, unit float64, trunc bool) *affForm {
	if f.isConst() {
		v := math.Floor(f.k + 1e-12)
		if trunc {
			v = math.Trunc(f.k)
		}
		return affConst(v)
	}
	k := fmt.Sprint(trunc, " ", f.key())
	i, ok := a.known[k]
	if !ok {
		i = 64 + len(a.noises)
		n := affNoise{of: f, lo: 0, hi: 1 - 1/unit, trunc: trunc}
		if trunc {
			n.lo = -n.hi
		}
		a.noises = append(a.noises, n)
		a.known[k] = i
	} else if hi := 1 - 1/unit; a.noises[i-64].hi > hi {
		a.noises[i-64].hi = hi
		if trunc {
			a.noises[i-64].lo = -hi
		}
	}
	r := f.plus(affConst(0), 1)
	for len(r.t) <= i {
		r.t = append(r.t, 0)
	}
	r.t[i]--
	return r
}

// under evaluates forms while the constraints hold.
type affUnder struct {
	a   *affine
	sub map[int]*affForm
}

func (a *affine) under(cons []*affForm) *affUnder {
	u := &affUnder{a, map[int]*affForm{}}
	for _, f := range cons {
		f = u.of(f)
		p := -1
		for i, c := range f.t {
			if c != 0 && (p < 0 || i >= 64) {
				p = i
			}
		}
		if p < 0 {
			continue
		}
		g := f.plus(affConst(0), 1)
		m := -1 / g.t[p]
		g.t[p] = 0
		g = g.times(m)
		for i, h := range u.sub {
			if c := h.at(p); c != 0 {
				n := h.plus(affConst(0), 1)
				n.t[p] = 0
				u.sub[i] = n.plus(g, c)
			}
		}
		u.sub[p] = g
	}
	return u
}

func (u *affUnder) of(f *affForm) *affForm {
	r := affConst(f.k)
	for i, c := range f.t {
		if c == 0 {
			continue
		}
		if g, ok := u.sub[i]; ok {
			r = r.plus(g, c)
			continue
		}
		if i < 64 {
			one := affConst(0)
			one.t = make([]float64, i+1)
			one.t[i] = 1
			r = r.plus(one, c)
			continue
		}
		n := u.a.noises[i-64]
		q := u.of(n.of)
		// whole multiples of coefficients drop nothing
		frac := affConst(q.k)
		whole := true
		for j, d := range q.t {
			if d != 0 && (j >= 64 || math.Abs(d-math.Round(d)) > 1e-12) {
				whole = false
			}
		}
		if whole && !n.trunc {
			r = r.plus(affConst(frac.k-math.Floor(frac.k+1e-12)), c)
			continue
		}
		w := u.a.noise(q, 1/(1-n.hi), n.trunc)
		r = r.plus(q.plus(w, -1), c)
	}
	return r
}

func (a *affine) sizeOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return int(u.Len()) * a.sizeOf(u.Elem())
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += a.sizeOf(u.Field(i).Type())
		}
		return n
	}
	return 1
}

func affZero(t types.Type) affVal {
	b, ok := t.Underlying().(*types.Basic)
	switch {
	case ok && b.Info()&types.IsInteger != 0:
		return affConst(0)
	case ok && b.Info()&types.IsBoolean != 0:
		return false
	}
	return nil
}

func (a *affine) alloc(s *affState, t types.Type) affPtr {
	a.next++
	n := a.sizeOf(t)
	m := &affMem{a.next, n}
	cs := make([]affVal, 0, n)
	var fill func(t types.Type)
	fill = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				fill(u.Elem())
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fill(u.Field(i).Type())
			}
		default:
			cs = append(cs, affZero(t))
		}
	}
	fill(t)
	s.cells[m.id] = cs
	return affPtr{m, 0, t}
}

// affAgg is the value of an array or a struct.
type affAgg []affVal

func (a *affine) load(s *affState, p affPtr) affVal {
	switch p.t.Underlying().(type) {
	case *types.Array, *types.Struct:
		n := a.sizeOf(p.t)
		return append(affAgg(nil), s.cells[p.m.id][p.off:p.off+n]...)
	}
	return s.cells[p.m.id][p.off]
}

func (a *affine) store(s *affState, p affPtr, v affVal) {
	if g, ok := v.(affAgg); ok {
		copy(s.cells[p.m.id][p.off:], g)
		return
	}
	s.cells[p.m.id][p.off] = v
}

func (a *affine) num(v affVal, in ssa.Instruction) *affForm {
	f, ok := v.(*affForm)
	if !ok {
		a.fail("%s at %s is not a number", in, a.c.P.Where(in.Pos()))
	}
	return f
}

func (a *affine) index(v affVal, in ssa.Instruction) int {
	f := a.num(v, in)
	if !f.isConst() || f.k != math.Trunc(f.k) {
		a.fail("an index that is not known at %s", a.c.P.Where(in.Pos()))
	}
	return int(f.k)
}

func (a *affine) val(p *affPath, v ssa.Value) affVal {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return affZero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return constant.BoolVal(x.Value)
		case constant.Int:
			f, _ := constant.Float64Val(x.Value)
			return affConst(f)
		}
		return nil
	case *ssa.Global:
		// a table the initialisers made
		t := x.Type().Underlying().(*types.Pointer).Elem()
		key := "global " + x.String()
		id, ok := a.known[key]
		if !ok {
			a.next++
			id = a.next
			a.known[key] = id
		}
		if p.s.cells[id] == nil {
			as := a.e.NewState()
			var cs []affVal
			var fill func(path string, t types.Type)
			fill = func(path string, t types.Type) {
				switch u := t.Underlying().(type) {
				case *types.Array:
					for i := int64(0); i < u.Len(); i++ {
						fill(path+idx(int(i)), u.Elem())
					}
				case *types.Struct:
					for i := 0; i < u.NumFields(); i++ {
						fill(path+"."+u.Field(i).Name(), u.Field(i).Type())
					}
				default:
					l, ok := as.Load(a.e.GlobalObj(x), path, t).(*ai.Lin)
					if ok {
						l = as.Norm(l)
					}
					if !ok || !l.IsConst() {
						a.fail("package variable %s", x)
					}
					cs = append(cs, affConst(float64(l.K)))
				}
			}
			fill("", t)
			p.s.cells[id] = cs
		}
		return affPtr{&affMem{id, len(p.s.cells[id])}, 0, t}
	case *ssa.Function:
		return x
	}
	r, ok := p.env[v]
	if !ok {
		a.fail("%s has no value", v)
	}
	return r
}

func (a *affine) postdom(f *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if r, ok := a.post[f]; ok {
		return r
	}
	n := len(f.Blocks)
	sets := make([]map[int]bool, n)
	all := func() map[int]bool {
		m := map[int]bool{}
		for i := range f.Blocks {
			m[i] = true
		}
		return m
	}
	for i, b := range f.Blocks {
		if len(b.Succs) == 0 {
			sets[i] = map[int]bool{i: true}
		} else {
			sets[i] = all()
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			m := map[int]bool{}
			for x := range sets[b.Succs[0].Index] {
				m[x] = true
			}
			for _, s := range b.Succs[1:] {
				for x := range m {
					if !sets[s.Index][x] {
						delete(m, x)
					}
				}
			}
			m[i] = true
			if len(m) != len(sets[i]) {
				sets[i], ch = m, true
			}
		}
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range f.Blocks {
		// the closest one is post-dominated by all others
		for x := range sets[i] {
			if x != i && len(sets[x]) == len(sets[i])-1 {
				r[b] = f.Blocks[x]
			}
		}
	}
	a.post[f] = r
	return r
}

// enter moves a path along an edge and evaluates the phis.
func (a *affine) enter(p *affPath, to *ssa.BasicBlock) {
	from := p.at
	k := -1
	for i, q := range to.Preds {
		if q == from {
			k = i
		}
	}
	vals := map[ssa.Value]affVal{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = a.val(p, ph.Edges[k])
	}
	for v, x := range vals {
		p.env[v] = x
	}
	p.from, p.at = from, to
}

// run follows a path to the given block, or to the end of the function.
func (a *affine) run(p *affPath, stop *ssa.BasicBlock) (outs []*affPath) {
	for {
		if p.at == stop {
			return []*affPath{p}
		}
		var next *affPath
		for _, in := range p.at.Instrs {
			if a.steps++; a.steps > 4000000 {
				a.fail("too many steps")
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				a.enter(p, p.at.Succs[0])
				next = p
			case *ssa.Return:
				for _, v := range x.Results {
					p.ret = append(p.ret, a.val(p, v))
				}
				p.done = true
				return []*affPath{p}
			case *ssa.If:
				cond := a.val(p, x.Cond)
				if b, ok := cond.(bool); ok {
					k := 1
					if b {
						k = 0
					}
					a.enter(p, p.at.Succs[k])
					next = p
					break
				}
				cd, ok := cond.(affCond)
				if !ok {
					a.fail("a condition at %s", a.c.P.Where(x.Pos()))
				}
				join := a.postdom(p.at.Parent())[p.at]
				var both []*affPath
				for k := 0; k < 2; k++ {
					q := &affPath{s: p.s.clone(), env: map[ssa.Value]affVal{}, at: p.at, from: p.from}
					for v, y := range p.env {
						q.env[v] = y
					}
					if cd.op == token.EQL && k == 0 || cd.op == token.NEQ && k == 1 {
						if cd.or != nil {
							q.s.cons = append(q.s.cons, cd.or...)
						} else {
							q.s.cons = append(q.s.cons, cd.f)
						}
					}
					a.enter(q, q.at.Succs[k])
					both = append(both, a.run(q, join)...)
				}
				both = a.merge(both)
				for join != nil && join != stop && len(both) > 1 {
					// follow them to where they meet next
					to := a.postdom(join.Parent())[join]
					var next []*affPath
					for _, q := range both {
						if q.done {
							next = append(next, q)
							continue
						}
						next = append(next, a.leave(q, to)...)
					}
					both, join = a.merge(next), to
				}
				if len(both) == 1 && !both[0].done && both[0].at != stop {
					p, next = both[0], both[0]
					break
				}
				return both
			case *ssa.Panic:
				a.fail("a panic at %s", a.c.P.Where(x.Pos()))
			default:
				p = a.instr(p, in)
			}
		}
		if next == nil {
			a.fail("block %s has no end", p.at)
		}
		p = next
	}
}

// leave follows a path out of its block to the given one.
func (a *affine) leave(p *affPath, to *ssa.BasicBlock) []*affPath {
	if p.at != to {
		return a.run(p, to)
	}
	return []*affPath{p}
}

// merge joins paths that hold the same values.
func (a *affine) merge(ps []*affPath) []*affPath {
	var r []*affPath
next:
	for _, p := range ps {
		for i, q := range r {
			if p.at != q.at || p.done != q.done {
				continue
			}
			if m := a.join(q, p); m != nil {
				r[i] = m
				continue next
			}
		}
		r = append(r, p)
	}
	if len(r) > 256 {
		a.fail("too many paths")
	}
	return r
}

func (a *affine) join(p, q *affPath) *affPath {
	// values that are not defined on both sides are dead where they meet
	sub := func(x, y *affPath) bool { // x is y where the constraints of x hold
		var u *affUnder
		eq := func(v, w affVal) bool {
			f, ok1 := v.(*affForm)
			g, ok2 := w.(*affForm)
			if !ok1 || !ok2 {
				return affSame(v, w)
			}
			if f == g || f.same(g) {
				return true
			}
			if len(x.s.cons) == 0 {
				return false
			}
			if u == nil {
				u = a.under(x.s.cons)
			}
			return u.of(f).same(u.of(g))
		}
		for id, cs := range y.s.cells {
			ds, ok := x.s.cells[id]
			if !ok {
				continue
			}
			for i := range cs {
				if !eq(ds[i], cs[i]) {
					return false
				}
			}
		}
		if len(x.ret) != len(y.ret) {
			return false
		}
		for i := range x.ret {
			if !eq(x.ret[i], y.ret[i]) {
				return false
			}
		}
		if !x.done {
			for v, w := range y.env {
				if !a.live(v, x.at) {
					continue
				}
				z, ok := x.env[v]
				if !ok {
					return false
				}
				if !eq(z, w) {
					return false
				}
			}
		}
		return true
	}
	pick := func(x, y *affPath) *affPath { // y, with what both know
		var cons []*affForm
		for i := range x.s.cons {
			if i < len(y.s.cons) && x.s.cons[i] == y.s.cons[i] {
				cons = append(cons, x.s.cons[i])
			} else {
				break
			}
		}
		y.s.cons = cons
		return y
	}
	if sub(p, q) {
		return pick(p, q)
	}
	if sub(q, p) {
		return pick(q, p)
	}
	return nil
}

// live: v may be used from the start of block b on, before it is set again.
func (a *affine) live(v ssa.Value, b *ssa.BasicBlock) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	var def *ssa.BasicBlock
	if in, ok := v.(ssa.Instruction); ok {
		def = in.Block()
	}
	if def == b {
		_, phi := v.(*ssa.Phi)
		return phi // phis are set on the way into the block
	}
	in, ok := a.lives[v]
	if !ok {
		in = map[*ssa.BasicBlock]bool{}
		var up func(x *ssa.BasicBlock)
		up = func(x *ssa.BasicBlock) {
			if x == def || in[x] {
				return
			}
			in[x] = true
			for _, p := range x.Preds {
				up(p)
			}
		}
		for _, r := range *refs {
			if ph, ok := r.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					if e == v {
						up(ph.Block().Preds[i])
					}
				}
				continue
			}
			up(r.Block())
		}
		a.lives[v] = in
	}
	return in[b]
}

func affSame(v, w affVal) bool {
	switch x := v.(type) {
	case *affForm:
		y, ok := w.(*affForm)
		return ok && x.same(y)
	case affAgg:
		y, ok := w.(affAgg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !affSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case affPtr:
		y, ok := w.(affPtr)
		return ok && x.m.id == y.m.id && x.off == y.off
	case affSlice:
		y, ok := w.(affSlice)
		return ok && x.m.id == y.m.id && x.off == y.off && x.len == y.len && x.cap == y.cap
	case affCond:
		y, ok := w.(affCond)
		if !ok || x.op != y.op || (x.or == nil) != (y.or == nil) {
			return false
		}
		if x.or != nil {
			return affSame(affOr(x.or), affOr(y.or))
		}
		return x.f.same(y.f)
	case affOr:
		y, ok := w.(affOr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !x[i].same(y[i]) {
				return false
			}
		}
		return true
	case []affVal:
		return affSame(affAgg(x), affAgg(w.([]affVal)))
	case bool:
		return v == w
	case nil:
		return w == nil
	}
	return false
}

func (a *affine) instr(p *affPath, in ssa.Instruction) *affPath {
	s := p.s
	a.cur = s
	get := func(v ssa.Value) affVal { return a.val(p, v) }
	switch x := in.(type) {
	case *ssa.Alloc:
		p.env[x] = a.alloc(s, x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Store:
		q, ok := get(x.Addr).(affPtr)
		if !ok {
			a.fail("a store at %s", a.c.P.Where(x.Pos()))
		}
		a.store(s, q, get(x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			q, ok := get(x.X).(affPtr)
			if !ok {
				a.fail("a load at %s", a.c.P.Where(x.Pos()))
			}
			p.env[x] = a.load(s, q)
		case token.SUB:
			p.env[x] = a.fit(a.num(get(x.X), in).times(-1), x.Type(), in)
		case token.NOT:
			switch y := get(x.X).(type) {
			case bool:
				p.env[x] = !y
			case affCond:
				p.env[x] = affCond{or: y.or, f: y.f, op: map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.LEQ: token.GTR, token.GTR: token.LEQ}[y.op]}
			default:
				a.fail("%s", x)
			}
		case token.XOR:
			p.env[x] = a.fit(affConst(-1).plus(a.num(get(x.X), in), -1), x.Type(), in)
		default:
			a.fail("operator %s at %s", x.Op, a.c.P.Where(x.Pos()))
		}
	case *ssa.BinOp:
		p.env[x] = a.binop(x, get(x.X), get(x.Y))
	case *ssa.Convert:
		p.env[x] = a.fit(a.num(get(x.X), in), x.Type(), in)
	case *ssa.ChangeType:
		p.env[x] = get(x.X)
		if q, ok := p.env[x].(affPtr); ok {
			if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
				q.t = pt.Elem()
				p.env[x] = q
			}
		}
	case *ssa.IndexAddr:
		i := a.index(get(x.Index), in)
		switch q := get(x.X).(type) {
		case affPtr:
			at, ok := q.t.Underlying().(*types.Array)
			if !ok {
				a.fail("%s", x)
			}
			if i < 0 || int64(i) >= at.Len() {
				a.fail("index %d out of range at %s", i, a.c.P.Where(x.Pos()))
			}
			p.env[x] = affPtr{q.m, q.off + i*a.sizeOf(at.Elem()), at.Elem()}
		case affSlice:
			if i < 0 || i >= q.len {
				a.fail("index %d out of range at %s", i, a.c.P.Where(x.Pos()))
			}
			p.env[x] = affPtr{q.m, q.off + i*a.sizeOf(q.t), q.t}
		default:
			a.fail("%s", x)
		}
	case *ssa.FieldAddr:
		q, ok := get(x.X).(affPtr)
		if !ok {
			a.fail("%s", x)
		}
		st := q.t.Underlying().(*types.Struct)
		off := 0
		for i := 0; i < x.Field; i++ {
			off += a.sizeOf(st.Field(i).Type())
		}
		p.env[x] = affPtr{q.m, q.off + off, st.Field(x.Field).Type()}
	case *ssa.Index:
		g, ok := get(x.X).(affAgg)
		at, ok2 := x.X.Type().Underlying().(*types.Array)
		if !ok || !ok2 {
			a.fail("%s", x)
		}
		i, n := a.index(get(x.Index), in), a.sizeOf(at.Elem())
		if i < 0 || int64(i) >= at.Len() {
			a.fail("index %d out of range at %s", i, a.c.P.Where(x.Pos()))
		}
		p.env[x] = a.part(g, i*n, at.Elem())
	case *ssa.Field:
		g, ok := get(x.X).(affAgg)
		if !ok {
			a.fail("%s", x)
		}
		st := x.X.Type().Underlying().(*types.Struct)
		off := 0
		for i := 0; i < x.Field; i++ {
			off += a.sizeOf(st.Field(i).Type())
		}
		p.env[x] = a.part(g, off, st.Field(x.Field).Type())
	case *ssa.Slice:
		bound := func(v ssa.Value, d int) int {
			if v == nil {
				return d
			}
			return a.index(get(v), in)
		}
		switch q := get(x.X).(type) {
		case affPtr:
			at, ok := q.t.Underlying().(*types.Array)
			if !ok {
				a.fail("%s", x)
			}
			n := int(at.Len())
			lo, hi, mx := bound(x.Low, 0), bound(x.High, n), bound(x.Max, n)
			if lo < 0 || hi < lo || mx < hi || mx > n {
				a.fail("slice bounds at %s", a.c.P.Where(x.Pos()))
			}
			p.env[x] = affSlice{q.m, q.off + lo*a.sizeOf(at.Elem()), hi - lo, mx - lo, at.Elem()}
		case affSlice:
			lo, hi, mx := bound(x.Low, 0), bound(x.High, q.len), bound(x.Max, q.cap)
			if lo < 0 || hi < lo || mx < hi || mx > q.cap {
				a.fail("slice bounds at %s", a.c.P.Where(x.Pos()))
			}
			p.env[x] = affSlice{q.m, q.off + lo*a.sizeOf(q.t), hi - lo, mx - lo, q.t}
		default:
			a.fail("%s", x)
		}
	case *ssa.SliceToArrayPointer:
		q, ok := get(x.X).(affSlice)
		at := x.Type().Underlying().(*types.Pointer).Elem()
		if !ok || int64(q.len) < at.Underlying().(*types.Array).Len() {
			a.fail("%s", x)
		}
		p.env[x] = affPtr{q.m, q.off, at}
	case *ssa.Extract:
		t, ok := get(x.Tuple).([]affVal)
		if !ok {
			a.fail("%s", x)
		}
		p.env[x] = t[x.Index]
	case *ssa.Call:
		return a.call(p, x)
	default:
		a.fail("%T at %s", in, a.c.P.Where(in.Pos()))
	}
	return p
}

func (a *affine) part(g affAgg, off int, t types.Type) affVal {
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return append(affAgg(nil), g[off:off+a.sizeOf(t)]...)
	}
	return g[off]
}

func (a *affine) binop(x *ssa.BinOp, v, w affVal) affVal {
	if b, ok := v.(bool); ok {
		c, ok := w.(bool)
		if !ok {
			a.fail("%s", x)
		}
		return (b == c) == (x.Op == token.EQL)
	}
	o, isOr := v.(affOr)
	if q, ok := w.(affOr); ok && !isOr {
		o, isOr, w = q, true, v
	}
	if isOr {
		if q, ok := w.(affOr); ok && x.Op == token.OR {
			return append(append(affOr(nil), o...), q...)
		}
		g := a.num(w, x)
		switch {
		case x.Op == token.OR:
			return append(append(affOr(nil), o...), g)
		case (x.Op == token.EQL || x.Op == token.NEQ) && g.isConst() && g.k == 0:
			return affCond{or: o, op: x.Op}
		}
		a.fail("operator %s at %s", x.Op, a.c.P.Where(x.Pos()))
	}
	f, g := a.num(v, x), a.num(w, x)
	whole := func(k float64) bool { return k == math.Trunc(k) && math.Abs(k) < 1<<53 }
	switch x.Op {
	case token.ADD:
		return a.fit(f.plus(g, 1), x.Type(), x)
	case token.SUB:
		return a.fit(f.plus(g, -1), x.Type(), x)
	case token.MUL:
		if f.isConst() {
			f, g = g, f
		}
		if !g.isConst() {
			a.fail("a product of two values at %s", a.c.P.Where(x.Pos()))
		}
		return a.fit(f.times(g.k), x.Type(), x)
	case token.SHL:
		if !g.isConst() || g.k < 0 || g.k > 62 {
			a.fail("a shift at %s", a.c.P.Where(x.Pos()))
		}
		return a.fit(f.times(math.Ldexp(1, int(g.k))), x.Type(), x)
	case token.SHR:
		if !g.isConst() || g.k < 0 || g.k > 62 {
			a.fail("a shift at %s", a.c.P.Where(x.Pos()))
		}
		m := math.Ldexp(1, int(g.k))
		if m == 1 {
			return f
		}
		return a.fit(a.noise(f.times(1/m), m, false), x.Type(), x)
	case token.QUO:
		if !g.isConst() || g.k == 0 {
			a.fail("a quotient at %s", a.c.P.Where(x.Pos()))
		}
		if f.isConst() {
			return affConst(math.Trunc(f.k / g.k))
		}
		return a.fit(a.noise(f.times(1/g.k), math.Abs(g.k), true), x.Type(), x)
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		d := f.plus(g, -1)
		lo, hi := a.bounds(d)
		if d.isConst() {
			lo, hi = d.k, d.k
		}
		op := x.Op
		switch op {
		case token.EQL, token.NEQ:
			if lo > 0 || hi < 0 {
				return op == token.NEQ
			}
			if lo == 0 && hi == 0 {
				return op == token.EQL
			}
		case token.LSS, token.GEQ:
			if hi < 0 {
				return op == token.LSS
			}
			if lo >= 0 {
				return op == token.GEQ
			}
		case token.LEQ, token.GTR:
			if hi <= 0 {
				return op == token.LEQ
			}
			if lo > 0 {
				return op == token.GTR
			}
		}
		return affCond{f: d, op: op}
	case token.AND, token.OR, token.XOR, token.REM, token.AND_NOT:
		if f.isConst() && g.isConst() && whole(f.k) && whole(g.k) {
			i, j := int64(f.k), int64(g.k)
			switch x.Op {
			case token.AND:
				i &= j
			case token.OR:
				i |= j
			case token.XOR:
				i ^= j
			case token.AND_NOT:
				i &^= j
			case token.REM:
				if j == 0 {
					a.fail("a division by zero")
				}
				i %= j
			}
			return affConst(float64(i))
		}
		if x.Op == token.OR {
			return affOr{f, g}
		}
	}
	a.fail("operator %s at %s", x.Op, a.c.P.Where(x.Pos()))
	return nil
}

func (a *affine) call(p *affPath, x *ssa.Call) *affPath {
	cm := x.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			switch q := a.val(p, cm.Args[0]).(type) {
			case affSlice:
				n := q.len
				if b.Name() == "cap" {
					n = q.cap
				}
				p.env[x] = affConst(float64(n))
				return p
			case affAgg:
				p.env[x] = affConst(float64(cm.Args[0].Type().Underlying().(*types.Array).Len()))
				return p
			case affPtr:
				p.env[x] = affConst(float64(q.t.Underlying().(*types.Array).Len()))
				return p
			}
		case "copy":
			d, ok1 := a.val(p, cm.Args[0]).(affSlice)
			s, ok2 := a.val(p, cm.Args[1]).(affSlice)
			if ok1 && ok2 {
				n := min(d.len, s.len)
				w := a.sizeOf(d.t)
				tmp := append([]affVal(nil), p.s.cells[s.m.id][s.off:s.off+n*w]...)
				copy(p.s.cells[d.m.id][d.off:], tmp)
				p.env[x] = affConst(float64(n))
				return p
			}
		}
		a.fail("%s at %s", b.Name(), a.c.P.Where(x.Pos()))
	}
	f := cm.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || len(f.FreeVars) > 0 {
		a.fail("a call at %s", a.c.P.Where(x.Pos()))
	}
	var args []affVal
	for _, v := range cm.Args {
		args = append(args, a.val(p, v))
	}
	outs := a.fn(p.s, f, args)
	if len(outs) != 1 {
		a.fail("%d ways through %s", len(outs), f)
	}
	p.s = outs[0].s
	r := outs[0].ret
	switch len(r) {
	case 0:
		p.env[x] = []affVal(nil)
	case 1:
		p.env[x] = r[0]
	default:
		p.env[x] = r
	}
	return p
}

func (a *affine) fn(s *affState, f *ssa.Function, args []affVal) []*affPath {
	if a.depth++; a.depth > 20 {
		a.fail("recursion in %s", f)
	}
	defer func() { a.depth-- }()
	a.fns[f] = true
	p := &affPath{s: s, env: map[ssa.Value]affVal{}, at: f.Blocks[0]}
	for i, q := range f.Params {
		p.env[q] = args[i]
	}
	return a.run(p, nil)
}

// idctIdeal is the exact transform: what the coefficients contribute to a sample.
func idctIdeal(x, y int) []float64 {
	r := make([]float64, 64)
	cu := func(u int) float64 {
		if u == 0 {
			return math.Sqrt(0.5)
		}
		return 1
	}
	for v := 0; v < 8; v++ {
		for u := 0; u < 8; u++ {
			r[8*v+u] = 0.25 * cu(u) * cu(v) * math.Cos(float64(2*x+1)*float64(u)*math.Pi/16) * math.Cos(float64(2*y+1)*float64(v)*math.Pi/16)
		}
	}
	return r
}

func (c *Ctx) transformAccuracy() {
	a := c.videoAnchors()
	deq, _ := c.dequantiser(a)
	f := c.residualAnchor(a, deq)
	bt := -1
	for i, q := range f.Params {
		if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Array); ok && bt < 0 {
				bt = i
				continue
			}
		}
		c.Anchor("the parameters of " + f.String())
	}
	if bt < 0 {
		c.Anchor("the block of " + f.String())
	}
	an := &affine{c: c, e: a.e, known: map[string]int{}, lives: map[ssa.Value]map[*ssa.BasicBlock]bool{}, post: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, fns: map[*ssa.Function]bool{}}
	s := &affState{cells: map[int][]affVal{}}
	t := f.Params[bt].Type().Underlying().(*types.Pointer).Elem()
	p := an.alloc(s, t)
	if p.m.n != 64 {
		c.Anchor("the 64 coefficients of " + f.String())
	}
	for i := 0; i < 64; i++ {
		g := affConst(0)
		g.t = make([]float64, i+1)
		g.t[i] = 1
		s.cells[p.m.id][i] = g
	}
	outs := an.fn(s, f, []affVal{p})
	c.Count("paths", len(outs))
	c.Count("rounding_errors", len(an.noises))
	var names []string
	for g := range an.fns {
		names = append(names, g.String())
	}
	sort.Strings(names)
	c.Sample("functions: %s", strings.Join(names, ", "))
	zeros := make([]*affForm, 0, 64)
	for i := 0; i < 64; i++ {
		g := affConst(0)
		g.t = make([]float64, i+1)
		g.t[i] = 1
		zeros = append(zeros, g)
	}
	for _, o := range outs {
		z := an.under(zeros)
		var sumMean, sumSq, worst, worstMean, worstSq float64
		for y := 0; y < 8; y++ {
			for x := 0; x < 8; x++ {
				v, ok := o.s.cells[p.m.id][8*y+x].(*affForm)
				if !ok {
					c.Anchor("the samples of " + f.String())
				}
				c.Count("sample_obligations", 4)
				if w := z.of(v); !w.isConst() || math.Abs(w.k) > 1e-9 {
					c.Failf("zero", c.P.Where(f.Pos()), "%s: sample (%d,%d) of a block of zeros is %s", f, x, y, w.key())
				}
				d := v.plus(&affForm{t: idctBasis[8*y+x]}, -1)
				lo, hi := an.bounds(d)
				peak := math.Max(-lo, hi)
				worst = math.Max(worst, peak)
				if peak >= 1.5 {
					c.Failf("peak", c.P.Where(f.Pos()), "%s: sample (%d,%d) can be %.3f away from the exact transform, so more than one from its rounded value", f, x, y, peak)
				}
				// with rounding errors that are independent and uniform, and
				// coefficients of samples that are
				mean, vr, last := d.k, 0.0, 0.0
				for i, k := range d.t {
					if k == 0 {
						continue
					}
					if i < 64 {
						vr += k * k * idctAmplitude * idctAmplitude / 3
						continue
					}
					n := an.noises[i-64]
					mean += k * (n.lo + n.hi) / 2
					w := k * k * (n.hi - n.lo) * (n.hi - n.lo) / 12
					if math.Abs(k) == 1 && w > last {
						vr += last
						last = w
						continue
					}
					vr += w
				}
				// the result is one off when what is lost before the last
				// rounding carries the exact sample over a half
				sq := idctHalf*math.Sqrt(vr*2/math.Pi) + mean*mean
				if last == 0 {
					sq = vr + mean*mean
				} else {
					mean *= idctHalf
				}
				sumMean += mean
				sumSq += sq
				worstMean, worstSq = math.Max(worstMean, math.Abs(mean)), math.Max(worstSq, sq)
				if math.Abs(mean) > 0.015 {
					c.Failf("mean", c.P.Where(f.Pos()), "%s: sample (%d,%d) is off by %.4f on average, more than 0.015", f, x, y, mean)
				}
				if sq > 0.06 {
					c.Failf("square", c.P.Where(f.Pos()), "%s: the mean square error of sample (%d,%d) is %.4f, more than 0.06", f, x, y, sq)
				}
			}
		}
		c.Count("block_obligations", 2)
		if m := math.Abs(sumMean / 64); m > 0.0015 {
			c.Failf("mean", c.P.Where(f.Pos()), "%s: samples are off by %.5f on average, more than 0.0015", f, m)
		}
		if m := sumSq / 64; m > 0.02 {
			c.Failf("square", c.P.Where(f.Pos()), "%s: the mean square error of a block is %.4f, more than 0.02", f, m)
		}
		c.Sample("largest distance from the exact transform %.4f, mean error %.5f of a sample and %.6f of a block, mean square error %.4f and %.4f", worst, worstMean, sumMean/64, worstSq, sumSq/64)
	}
}

func init() {
	register("V17", "affine arithmetic over go/ssa: each sample as a combination of the coefficients and of bounded rounding errors, compared with the exact transform", "", func(c *Ctx) {
		c.Rule("for every block of coefficients that is the rounded transform of samples between -300 and 300, no intermediate value overflows, every sample is less than 1.5 from the exact transform, so at most one from its rounded value, and a block of zeros gives zeros; with rounding errors that are independent and uniform, the mean and mean square errors of each sample and of the block are within the limits of the standard")
		c.Guard("the inverse transform", c.transformAccuracy)
	})
}
