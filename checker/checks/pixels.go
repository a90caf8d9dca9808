package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// Motion compensation (ISO/IEC 13818-2 7.6): one macroblock is followed from
// its predictors to the samples it writes, and every sample is compared with
// the standard's formula over the samples of the reference pictures.

// dims is the direction and size class of a vector: 4x+r with x of one sign.
type vclass struct {
	r   [2]int64
	neg [2]bool
}

func (v vclass) String() string {
	sg := func(i int) string {
		if v.neg[i] {
			return "<0"
		}
		return ">=0"
	}
	return fmt.Sprintf("(%d mod 4, %s; %d mod 4, %s)", v.r[0], sg(0), v.r[1], sg(1))
}

func vclassOf(n int) vclass {
	n &= 63
	return vclass{[2]int64{int64(n & 3), int64(n >> 2 & 3)}, [2]bool{n>>4&1 == 1, n>>5&1 == 1}}
}

// pixCase is one kind of macroblock.
type pixCase struct {
	flags string // of the macroblock type
	dct   int64  // field DCT
	skip  int64  // macroblocks skipped before it
	vec   [2]vclass
	clip  int // the residual brings every sample above (1) or below (-1) eight bits
	prev  int // directions of the macroblock before (B pictures with skipped macroblocks): 1, 2, 3
}

func (p pixCase) String() string {
	r := fmt.Sprintf("macroblock type %s, dct_type %d, %d skipped, forward %v, backward %v", p.flags, p.dct, p.skip, p.vec[0], p.vec[1])
	if p.clip != 0 {
		r += fmt.Sprintf(", sums beyond eight bits (%+d)", p.clip)
	}
	return r
}

const pixCBP = 37 // blocks 0, 3 and 5

// residualAnchor is the inverse transform: what turns coefficients into the
// residual.
func (c *Ctx) residualAnchor(a *videoAnchors, deq *ssa.Function) *ssa.Function {
	md := a.g.mods()
	below := a.g.closure(a.mb)
	muls := func(f *ssa.Function) (n int) {
		for g := range a.g.closure(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.BinOp); ok && x.Op == token.MUL && isInt(x.Type(), 4) {
						if _, ok := x.X.(*ssa.Const); ok {
							n++
						} else if _, ok := x.Y.(*ssa.Const); ok {
							n++
						}
					}
				}
			}
		}
		return
	}
	return c.One(a.g.outermost(func(f *ssa.Function) bool {
		ms := md.sets[f]
		if !below[f] || f == a.mb || ms == nil || !ms.samplesOnly() || f.Parent() != nil || a.g.reads[f] || f.Signature.Results().Len() > 0 {
			return false
		}
		cl := a.g.closure(f)
		if cl[deq] || cl[a.blockRead] || muls(f) < 8 {
			return false
		}
		for g := range cl {
			if touchesPicture(g) {
				return false
			}
		}
		return true
	}), "the inverse transform")
}

func touchesPicture(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if isImage(t) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && isImage(pt.Elem()) {
					return true
				}
			}
		}
	}
	return false
}

// planes of a picture object in a state.
type pixPlanes struct {
	obj    [3]int // backing arrays
	lo     [3]*ai.Lin
	stride [3]*ai.Lin
}

var planeNames = []string{"Y", "Cb", "Cr"}

func (c *Ctx) planesOf(s *ai.State, p ai.Ptr, t types.Type) (r pixPlanes) {
	for i, n := range planeNames {
		path, ft := promoted(t, n)
		sp, st := promoted(t, []string{"YStride", "CStride", "CStride"}[i])
		if ft == nil || st == nil {
			c.Anchor("the planes of a picture")
		}
		x, ok := s.Load(p.Obj, p.Path+path, ft).(ai.Slice)
		l, ok2 := s.Load(p.Obj, p.Path+sp, st).(*ai.Lin)
		if !ok || !ok2 {
			c.Anchor("the planes of a picture")
		}
		r.obj[i], r.lo[i], r.stride[i] = x.Obj, s.Norm(x.Lo), s.Norm(l)
	}
	return
}

// sample is where an unknown sample was read.
type sample struct {
	obj int
	idx *ai.Lin
}

type pixRun struct {
	m       *mbLayer
	k       pixCase
	samples map[*ai.Atom]sample
	dst     pixPlanes
	ref     [2]pixPlanes
	row     *ai.Lin // added to dst.lo in lines of macroblocks; nil for a view
	x       [2][2]*ai.Lin
	prevLoc loc
	prevVal map[string]*ai.Lin
}

// vector is the vector of a direction: component t.
func (p *pixRun) vector(s, t int) *ai.Lin { return p.x[s][t].Mul(4).AddK(p.k.vec[s].r[t]) }

// run follows the macroblock decoder.
func (p *pixRun) run(cap mbCapture, idctFn *ssa.Function) (outs []mbOut) {
	m, k := p.m, p.k
	c, a, e := m.c, m.a, m.e
	p.samples = map[*ai.Atom]sample{}
	s := cap.s.Clone().Unconstrained()
	var vs ai.Ptr
	var dstP ai.Ptr
	var imgT types.Type
	for i, v := range cap.args {
		q, ok := v.(ai.Ptr)
		if !ok || q.Obj == 0 {
			continue
		}
		if c.isVS(a.mb.Params[i].Type()) {
			vs = q
		}
		if pt, ok := a.mb.Params[i].Type().Underlying().(*types.Pointer); ok && isImage(pt.Elem()) {
			dstP, imgT = q, pt.Elem()
		}
	}
	if vs.Obj == 0 || dstP.Obj == 0 {
		c.Anchor("the decoder and the picture of " + a.mb.String())
	}
	c.assumeCfg(s, vs, m.k)
	pc, pct := c.headerObj(s, vs, "PictureCodingExtension")
	c.setNum(s, pc, pct, "intra_dc_precision", m.prec)
	p.dst = c.planesOf(s, dstP, imgT)
	f := c.refStoreOf()
	for i, path := range []string{f.past, f.future} {
		q, ok := s.Load(vs.Obj, vs.Path+path, f.imgT).(ai.Ptr)
		if !ok {
			c.Anchor("the reference pictures")
		}
		q.Nil = ai.Const(0)
		s.Store(vs.Obj, vs.Path+path, f.imgT, q)
		for j, n := range []string{"YStride", "CStride"} {
			sp, st := promoted(imgT, n)
			s.Store(q.Obj, q.Path+sp, st, p.dst.stride[j])
		}
		p.ref[i] = c.planesOf(s, q, imgT)
	}
	sl := m.slice.Fn
	for i := range sl.Params {
		if q, ok := m.slice.Args[i].(ai.Ptr); ok && q.Obj == dstP.Obj && q.Path == dstP.Path {
			for _, v := range cap.args {
				if l, ok := v.(*ai.Lin); ok && !isMark(l) {
					p.row = l
				}
			}
		}
	}
	e.Forget(s, m.stream)
	// the address increment: 1, 2 or 3 (table B-1), without escapes
	code := [][2]int64{{1, 1}, {3, 3}, {2, 3}}[k.skip]
	st := s.Stream(m.stream)
	s.Assume(Eq(e.Bits(m.stream, st.Epoch, st.Pos, int(code[1])), code[0]))
	s.Emit(ai.Event{Kind: "mbstart"})
	mon := e.SymObj("pixel monitor", types.NewStruct(nil, nil))
	s.Store(mon, ".idct", tInt, ai.Const(0))
	s.Store(mon, ".other", tInt, ai.Const(0))
	// the vectors: what the predictors hold, with motion codes of 0
	pp := m.pred.at(cap.args)
	for d := 0; d < 2; d++ {
		for t := 0; t < 2; t++ {
			lo, hi := int64(0), int64(255)
			if k.vec[d].neg[t] {
				lo, hi = -256, -1
			}
			p.x[d][t] = ai.AtomLin(e.Atom(fmt.Sprintf("vector %d %d quarter %v", d, t, k.vec[d].neg[t]), lo, hi))
			s.Store(pp.Obj, pp.Path+idx(0)+idx(d)+idx(t), tInt, p.vector(d, t))
			if m.actual.ok() {
				ap := m.actual.at(cap.args)
				s.Store(ap.Obj, ap.Path+idx(0)+idx(d)+idx(t), tInt, p.vector(d, t))
			}
		}
	}
	if k.prev > 0 {
		q := p.prevLoc.at(cap.args)
		s.Store(q.Obj, q.Path, tInt, p.prevVal[dirName(k.prev)])
	}
	init := s.Clone()
	lo, hi := int64(-64), int64(63)
	intra := strings.Contains(k.flags, "i")
	switch {
	case k.clip > 0:
		lo, hi = 256, 1<<20
	case k.clip < 0 && intra:
		lo, hi = -1<<20, -1
	case k.clip < 0:
		lo, hi = -1<<20, -256
	case intra:
		lo, hi = 0, 255
	}
	coded := strings.Contains(k.flags, "p")
	isRef := map[int]bool{}
	for i := range p.ref {
		for _, o := range p.ref[i].obj {
			isRef[o] = true
		}
	}
	isDst := map[int]bool{}
	for _, o := range p.dst.obj {
		isDst[o] = true
	}
	// nothing else is decided on such a path, so that it is dropped at the end
	dead := func(s *ai.State) {
		s.Store(mon, ".other", tInt, ai.Const(1))
		s.Assume(ai.Cmp{Op: ai.EQ, L: ai.Const(1)})
	}
	e.OnLoad = func(s *ai.State, obj int, path string, t types.Type, v ai.Val, pos token.Pos, fn *ssa.Function) {
		m.old.load(s, obj, path, t, v, pos, fn)
		if !isRef[obj] {
			return
		}
		p.sampled(s, obj, path, v)
		if l, ok := v.(*ai.Lin); ok && coded {
			s.Assume(Ge(l, 64))
			s.Assume(Le(l, 191))
		}
	}
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) {
		m.old.write(s, obj, pos, fn)
		if !isDst[obj] {
			return
		}
		_, ix := e.Comps(path)
		if len(ix) != 1 || ix[0] == nil {
			panic(ai.Unsupported{Msg: "a store to " + path + " of a picture"})
		}
		s.Emit(ai.Event{Kind: "pixels", Pos: pos, Fn: fn, Obj: obj, DstLo: ix[0], Res: []ai.Val{v}})
	}
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if m.old != nil {
			m.old.event(s, ev)
		}
		switch ev.Kind {
		case "copy":
			if !isDst[ev.Obj] {
				return
			}
			n := s.Norm(ev.Count)
			if !n.IsConst() || n.K > 64 {
				panic(ai.Unsupported{Msg: fmt.Sprintf("a copy of a number of samples that is not known: %s at %s %s", n, c.P.Where(ev.Pos), ev.SrcLo)})
			}
			var vs []ai.Val
			for j := int64(0); j < n.K; j++ {
				at := s.Norm(ev.SrcLo.AddK(j))
				path := ev.SrcPath + e.IdxPath(s, at)
				v := s.Load(ev.SrcObj, path, types.Typ[types.Uint8])
				if isRef[ev.SrcObj] {
					p.sampled(s, ev.SrcObj, path, v)
				}
				vs = append(vs, v)
			}
			s.Emit(ai.Event{Kind: "pixels", Pos: ev.Pos, Fn: ev.Fn, Obj: ev.Obj, DstLo: ev.DstLo, Res: vs})
		case "vlc":
			l, num := vlcNum(ev.Val)
			switch role := a.roles[ev.Obj]; role {
			case "cbp":
				if num {
					s.Assume(Eq(l, pixCBP))
				}
			case "motion":
				if num {
					s.Assume(Eq(l, 0))
				}
			case "addrinc":
				if num {
					s.Assume(Eq(l, k.skip+1))
				}
			case "mbtypeI", "mbtypeP", "mbtypeB":
				if c.vlcValue(s, ev.Val) != k.flags {
					dead(s)
					return
				}
				at := ev.To
				ep := s.Stream(m.stream).Epoch
				if m.k.framePred == 0 {
					if strings.ContainsAny(k.flags, "fb") {
						s.Assume(Eq(e.Bits(m.stream, ep, at, 2), 2))
						at = at.AddK(2)
					}
					if strings.ContainsAny(k.flags, "pi") {
						s.Assume(Eq(e.Bits(m.stream, ep, at, 1), k.dct))
					}
				}
			}
		}
	}
	before := map[*ssa.Function]bool{a.blockRead: true, m.deq: true}
	for f := range e.FnModels {
		before[f] = true
	}
	m.stubs()
	for f := range e.FnModels {
		if !before[f] {
			delete(e.FnModels, f)
		}
	}
	bt := -1
	for i, q := range idctFn.Params {
		if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Array); ok {
				bt = i
			}
		}
	}
	if bt < 0 {
		c.Anchor("the parameters of " + idctFn.String())
	}
	e.FnModels[idctFn] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		q := args[bt].(ai.Ptr)
		n := c.mon(s, mon, ".idct").K
		s.Store(mon, ".idct", tInt, ai.Const(n+1))
		t := idctFn.Params[bt].Type().Underlying().(*types.Pointer).Elem()
		for j := 0; j < 64; j++ {
			path, et := matrixCell(t, j)
			s.Store(q.Obj, q.Path+path, et, ai.AtomLin(e.Atom(residualKey(n, j, k.clip, intra), lo, hi)))
		}
		return []ai.Alt{{S: s, V: ai.Tuple{}}}
	}
	e.Rotate, e.Peel, e.TrustBounds = true, everyLoop, true
	e.RootName = a.mb.String() + " " + m.k.String()
	e.Budget = 20000000
	for _, o := range e.Call(s, a.mb, cap.args, nil) {
		c.Count("paths", 1)
		if o.Panicked {
			c.Count("panicking_paths", 1)
			continue
		}
		if Succeeded(o, a.mb) == ai.True && c.mon(o.S, mon, ".other").K == 0 {
			outs = append(outs, mbOut{o, init, cap.args, cap.first, mon})
		}
	}
	e.OnEvent, e.OnStore, e.OnLoad = nil, nil, nil
	return
}

func (p *pixRun) sampled(s *ai.State, obj int, path string, v ai.Val) {
	l, ok := v.(*ai.Lin)
	if !ok {
		return
	}
	l = s.Norm(l)
	_, ix := p.m.e.Comps(path)
	if len(l.T) != 1 || l.T[0].C != 1 || l.K != 0 || len(ix) != 1 || ix[0] == nil {
		panic(ai.Unsupported{Msg: "a sample of a reference picture that is " + l.String()})
	}
	p.samples[l.T[0].A] = sample{obj, ix[0]}
}

func residualKey(n int64, cell, clip int, intra bool) string {
	r := fmt.Sprintf("residual %d [%d]", n, cell)
	if intra {
		r = "intra " + r
	}
	if clip != 0 {
		r += fmt.Sprintf(" beyond %+d", clip)
	}
	return r
}

func dirName(d int) string { return []string{"", "f", "b", "fb"}[d&3] }

// canon renders a sample value: sums and rounded down quotients of samples
// and residuals.
func (p *pixRun) canon(s *ai.State, ps *polys, l *ai.Lin) string {
	l = s.Norm(l)
	var ts []string
	for _, t := range l.T {
		n := p.canonAtom(s, ps, t.A)
		if t.C != 1 {
			n = fmt.Sprintf("%d·%s", t.C, n)
		}
		ts = append(ts, n)
	}
	sort.Strings(ts)
	if l.K != 0 || len(ts) == 0 {
		ts = append(ts, fmt.Sprint(l.K))
	}
	return strings.Join(ts, "+")
}

func (p *pixRun) canonAtom(s *ai.State, ps *polys, a *ai.Atom) string {
	if sm, ok := p.samples[a]; ok {
		return p.sampleName(ps, sm.obj, ps.of(sm.idx))
	}
	if len(a.Args) == 2 {
		n := s.Norm(a.Args[1])
		lo, _ := s.Range(a.Args[0])
		switch {
		case a.Fn == "/" && n.IsConst() && n.K > 0 && lo >= 0:
			return fmt.Sprintf("⌊(%s)/%d⌋", p.canon(s, ps, a.Args[0]), n.K)
		case a.Fn == ">>" && n.IsConst() && n.K >= 0 && n.K < 32:
			return fmt.Sprintf("⌊(%s)/%d⌋", p.canon(s, ps, a.Args[0]), int64(1)<<uint(n.K))
		}
	}
	return a.Key
}

func (p *pixRun) sampleName(ps *polys, obj int, at poly) string {
	for d, n := range []string{"past", "future"} {
		for i, o := range p.ref[d].obj {
			if o == obj {
				return fmt.Sprintf("%s.%s<%s>", n, planeNames[i], at.plus(ps.of(p.ref[d].lo[i]), -1).key())
			}
		}
	}
	return fmt.Sprintf("object %d<%s>", obj, at.key())
}

func sumOf(ts []string, k int64) string {
	n := map[string]int{}
	for _, t := range ts {
		n[t]++
	}
	var r []string
	for t, c := range n {
		if c > 1 {
			t = fmt.Sprintf("%d·%s", c, t)
		}
		r = append(r, t)
	}
	sort.Strings(r)
	if k != 0 {
		r = append(r, fmt.Sprint(k))
	}
	return strings.Join(r, "+")
}

// predicted is the standard's prediction of a sample of plane pl, y lines and
// x samples from the origin of the macroblock.
func (p *pixRun) predicted(s *ai.State, ps *polys, dirs int, zero bool, pl int, base poly, y, x int64) string {
	var parts []string
	for d := 0; d < 2; d++ {
		if dirs>>uint(d)&1 == 0 {
			continue
		}
		var v, half [2]*ai.Lin
		for t := 0; t < 2; t++ {
			// the vector is 4x+r
			r, q := p.k.vec[d].r[t], p.x[d][t]
			switch {
			case zero:
				v[t], half[t] = ai.Const(0), ai.Const(0)
			case pl == 0:
				v[t], half[t] = q.Mul(2).AddK(r>>1), ai.Const(r&1)
			default:
				// divided by two, towards zero
				w := r >> 1
				if p.k.vec[d].neg[t] {
					w = (r + 1) >> 1
				}
				v[t], half[t] = q.AddK(w>>1), ai.Const(w&1)
			}
		}
		at := base.plus(ps.of(v[0]), 1).plus(konst(x), 1)
		at = at.plus(ps.of(v[1]).plus(konst(y), 1).times(ps.of(p.dst.stride[pl])), 1)
		var ts []string
		for dy := int64(0); dy <= half[1].K; dy++ {
			for dx := int64(0); dx <= half[0].K; dx++ {
				q := at.plus(konst(dx), 1).plus(ps.of(p.dst.stride[pl]), dy)
				ts = append(ts, p.sampleName(ps, p.ref[d].obj[pl], q.plus(ps.of(p.ref[d].lo[pl]), 1)))
			}
		}
		switch len(ts) {
		case 1:
			parts = append(parts, ts[0])
		case 2:
			parts = append(parts, fmt.Sprintf("⌊(%s)/2⌋", sumOf(ts, 1)))
		case 4:
			parts = append(parts, fmt.Sprintf("⌊(%s)/4⌋", sumOf(ts, 2)))
		}
	}
	if len(parts) == 2 {
		return fmt.Sprintf("⌊(%s)/2⌋", sumOf(parts, 1))
	}
	return sumOf(parts, 0)
}

// blockAt is the block a sample belongs to, and its place in it.
func blockAt(pl int, y, x, dct int64) (block, cell int) {
	if pl > 0 {
		return 3 + pl, int(y*8 + x)
	}
	b, line := int64(0), y
	if dct == 1 {
		b, line = y&1*2, y>>1
	} else {
		b, line = y>>3*2, y&7
	}
	return int(b + x>>3), int(line*8 + x&7)
}

// judge compares the samples a macroblock writes with the standard's.
func (p *pixRun) judge(x mbOut) {
	m, k := p.m, p.k
	c, a := m.c, m.a
	s := x.o.S
	ps := newPolys(s)
	ra, ri := m.address(x)
	if ra == nil {
		c.Anchor("the address of a macroblock")
	}
	addr, ok := x.o.Vals[ri].(*ai.Lin)
	if !ok {
		c.Anchor("the address of a macroblock")
	}
	got := map[[3]int64]string{}
	where := map[[3]int64]*ai.Event{}
	on := false
	for _, ev := range s.Events(nil) {
		if ev.Kind == "mbstart" {
			on = true
		}
		if !on || ev.Kind != "pixels" {
			continue
		}
		pl := -1
		for i, o := range p.dst.obj {
			if o == ev.Obj {
				pl = i
			}
		}
		size := int64(16)
		if pl > 0 {
			size = 8
		}
		d := ps.of(ev.DstLo).plus(ps.of(p.dst.lo[pl]), -1).plus(ps.of(addr), -size)
		if p.row != nil {
			d = d.plus(ps.of(p.row).times(ps.of(p.dst.stride[pl])), -size)
		}
		y, x0, ok := p.position(ps, d, pl)
		if !ok {
			c.Failf("pixel/outside", c.P.Where(ev.Pos), "%s: %s, %s: samples of %s are written at %s from the macroblock", ev.Fn, m.k, k, planeNames[pl], d.key())
			return
		}
		for j, v := range ev.Res {
			l, ok := v.(*ai.Lin)
			if !ok {
				panic(ai.Unsupported{Msg: "a sample that is " + ai.ValString(v)})
			}
			at := [3]int64{int64(pl), y, x0 + int64(j)}
			got[at], where[at] = p.canon(s, ps, l), ev
		}
	}
	dirs := 0
	zero := false
	if strings.Contains(k.flags, "f") {
		dirs |= 1
	}
	if strings.Contains(k.flags, "b") {
		dirs |= 2
	}
	if dirs == 0 && m.k.coding == 2 && !strings.Contains(k.flags, "i") {
		dirs, zero = 1, true
	}
	if m.k.coding == 2 && k.skip > 0 {
		zero = true // predictors are reset by skipped macroblocks
	}
	intra, pattern := strings.Contains(k.flags, "i"), strings.Contains(k.flags, "p")
	nth := map[int]int{}
	for b := 0; b < 6; b++ {
		if intra || pattern && pixCBP>>(5-b)&1 == 1 {
			nth[b] = len(nth)
		}
	}
	var out [][3]int64
	for at := range got {
		size := int64(16)
		if at[0] > 0 {
			size = 8
		}
		if at[1] >= size || at[2] >= size || at[2] < -k.skip*size {
			out = append(out, at)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	if len(out) > 0 {
		at := out[0]
		ev := where[at]
		c.Failf("pixel/outside", c.P.Where(ev.Pos), "%s: %s, %s: %d samples outside the macroblock are written, one at (%d,%d) of plane %s", ev.Fn, m.k, k, len(out), at[2], at[1], planeNames[at[0]])
	}
	bad := 0
	for pl := 0; pl < 3; pl++ {
		size := int64(16)
		if pl > 0 {
			size = 8
		}
		base := ps.of(p.dst.lo[pl])
		if p.row != nil {
			base = base.plus(ps.of(p.row).times(ps.of(p.dst.stride[pl])), size)
		}
		base = base.plus(ps.of(addr), size)
		for y := int64(0); y < size; y++ {
			for xx := -k.skip * size; xx < size; xx++ {
				c.Count("sample_obligations", 1)
				at := [3]int64{int64(pl), y, xx}
				want := ""
				if xx < 0 {
					if m.k.coding == 2 {
						want = p.predicted(s, ps, 1, true, pl, base, y, xx)
					} else {
						want = p.predicted(s, ps, k.prev, false, pl, base, y, xx)
					}
				} else {
					var ts []string
					if dirs > 0 {
						ts = append(ts, p.predicted(s, ps, dirs, zero, pl, base, y, xx))
					}
					b, cell := blockAt(pl, y, xx, k.dct)
					if n, ok := nth[b]; ok {
						ts = append(ts, residualKey(int64(n), cell, 0, strings.Contains(k.flags, "i")))
					}
					want = sumOf(ts, 0)
					if _, ok := nth[b]; ok && k.clip != 0 {
						want = []string{"0", "", "255"}[k.clip+1]
					}
				}
				g, ok := got[at]
				if ok && g == want {
					continue
				}
				if bad++; bad > 1 {
					continue
				}
				if !ok {
					g = "not written"
				}
				at2, fn := c.P.Where(a.mb.Pos()), a.mb.String()
				if ev := where[at]; ev != nil {
					at2, fn = c.P.Where(ev.Pos), ev.Fn.String()
				}
				c.Failf("pixel", at2, "%s: %s, %s: sample (%d,%d) of plane %s is %s, want %s", fn, m.k, k, xx, y, planeNames[pl], g, want)
			}
		}
	}
}

// position splits a distance into lines and samples.
func (p *pixRun) position(ps *polys, d poly, pl int) (y, x int64, ok bool) {
	for y := int64(0); y < 16; y++ {
		r := d.plus(ps.of(p.dst.stride[pl]), -y)
		if len(r) == 0 {
			return y, 0, true
		}
		if len(r) == 1 {
			for k, v := range r {
				if k == "" && v.IsInt64() {
					return y, v.Int64(), true
				}
			}
		}
	}
	return 0, 0, false
}

// directions finds where the macroblock decoder keeps the directions of the
// last macroblock: a cell that is a different constant after each.
func (m *mbLayer) directions(cap mbCapture, idctFn *ssa.Function) (loc, map[string]*ai.Lin) {
	vals := map[loc]map[string]*ai.Lin{}
	for _, d := range []string{"f", "b", "fb"} {
		fl := "-"
		for _, x := range "fb" {
			if strings.ContainsRune(d, x) {
				fl += string(x)
			} else {
				fl += "-"
			}
		}
		p := &pixRun{m: m, k: pixCase{flags: fl + "---"}}
		for _, x := range p.run(cap, idctFn) {
			for obj := range m.shared {
				if !x.init.Existing(obj) {
					continue
				}
				scalarCells(m.objT[obj], "", func(path string, t types.Type) {
					l, ok := x.o.S.Load(obj, path, t).(*ai.Lin)
					if !ok || !x.o.S.Norm(l).IsConst() {
						return
					}
					at := locOf(x.args, obj, path)
					if vals[at] == nil {
						vals[at] = map[string]*ai.Lin{}
					}
					vals[at][d] = x.o.S.Norm(l)
				})
			}
		}
	}
	for at, v := range vals {
		if at.ok() && len(v) == 3 && v["f"].K != v["b"].K && v["f"].K != v["fb"].K && v["b"].K != v["fb"].K {
			return at, v
		}
	}
	return loc{-1, ""}, nil
}

// pixClasses are the picture classes and shares of the cases.
func pixClasses() (r []picCfg) {
	for part := 1; part <= 4; part++ {
		r = append(r, picCfg{coding: 2, structure: 3, framePred: 1, fc: 7, part: part})
	}
	for part := 1; part <= 2; part++ {
		r = append(r, picCfg{coding: 2, structure: 3, framePred: 0, fc: 7, part: part})
	}
	for part := 1; part <= 8; part++ {
		r = append(r, picCfg{coding: 3, structure: 3, framePred: 1, fc: 7, part: part})
	}
	for part := 1; part <= 2; part++ {
		r = append(r, picCfg{coding: 3, structure: 3, framePred: 0, fc: 7, part: part})
	}
	return r
}

func placeClasses() (r []picCfg) {
	for coding := int64(1); coding <= 3; coding++ {
		for fp := int64(0); fp < 2; fp++ {
			r = append(r, picCfg{coding: coding, structure: 3, framePred: fp, fcode1: true})
		}
	}
	return r
}

func (m *mbLayer) pixCases() (r []pixCase) {
	k := m.k
	if m.c.Prop == "V20" {
		r = append(r, pixCase{flags: "----i-"}, pixCase{flags: "----i-", clip: 1}, pixCase{flags: "----i-", clip: -1})
		if k.framePred == 0 {
			r = append(r, pixCase{flags: "----i-", dct: 1}, pixCase{flags: "----i-", dct: 1, clip: 1}, pixCase{flags: "----i-", dct: 1, clip: -1})
		}
		return
	}
	add := func(p pixCase) { r = append(r, p) }
	two := func(n int) [2]vclass { return [2]vclass{vclassOf(n), vclassOf(n*37 + 11)} }
	switch {
	case k.coding == 2 && k.framePred == 1:
		for n := 0; n < 64; n++ {
			add(pixCase{flags: "-f-p--", vec: two(n)})
		}
		for n := 0; n < 64; n += 7 {
			add(pixCase{flags: "-f----", vec: two(n)})
		}
		for n := 0; n < 64; n += 9 {
			add(pixCase{flags: "-f-p--", vec: two(n), clip: 1})
			add(pixCase{flags: "-f-p--", vec: two(n), clip: -1})
		}
		add(pixCase{flags: "---p--"})
		add(pixCase{flags: "---p--", skip: 2, vec: two(5)})
		add(pixCase{flags: "-f----", skip: 1, vec: two(5)})
	case k.coding == 2:
		for n := 0; n < 64; n += 3 {
			add(pixCase{flags: "-f-p--", dct: int64(n/3+1) & 1, vec: two(n)})
		}
	case k.framePred == 1:
		for n := 0; n < 64; n++ {
			add(pixCase{flags: "--bp--", vec: two(n)})
			add(pixCase{flags: "-fbp--", vec: two(n)})
		}
		for n := 0; n < 64; n += 5 {
			add(pixCase{flags: "-f-p--", vec: two(n)})
			add(pixCase{flags: "-fb---", vec: two(n)})
			add(pixCase{flags: "-fbp--", vec: two(n), clip: 1})
			add(pixCase{flags: "--bp--", vec: two(n), clip: -1})
			for d := 1; d <= 3; d++ {
				add(pixCase{flags: "-fb---", skip: 2, prev: d, vec: two(n + d)})
			}
		}
	default:
		for n := 0; n < 64; n += 6 {
			add(pixCase{flags: "-fbp--", dct: int64(n/6+1) & 1, vec: two(n)})
			add(pixCase{flags: "--bp--", dct: int64(n/6+1) & 1, vec: two(n)})
		}
	}
	return
}

func (m *mbLayer) pixels() {
	c := m.c
	idctFn := c.residualAnchor(m.a, m.deq)
	var cap *mbCapture
	for i := range m.caps {
		if !m.caps[i].first {
			cap = &m.caps[i]
			break
		}
	}
	cs := m.pixCases()
	parts := 0
	ks := pixClasses()
	for _, k := range ks {
		if k.coding == m.k.coding && k.framePred == m.k.framePred {
			parts++
		}
	}
	at, vals := loc{-1, ""}, map[string]*ai.Lin(nil)
	for i, k := range cs {
		if m.k.part > 0 && i%parts != m.k.part-1 {
			continue
		}
		p := &pixRun{m: m, k: k}
		if k.prev > 0 {
			if !at.ok() {
				if at, vals = m.directions(*cap, idctFn); !at.ok() {
					c.Anchor("the prediction directions of the last macroblock")
				}
			}
			p.prevLoc, p.prevVal = at, vals
		}
		outs := p.run(*cap, idctFn)
		if len(outs) == 0 {
			c.Failf("vacuous/pixels", c.P.Where(m.a.mb.Pos()), "no way through %s for %s, %s", m.a.mb, m.k, k)
		}
		c.Count("macroblock_kinds", 1)
		for _, x := range outs {
			p.judge(x)
		}
	}
}

func init() {
	register("V16", "abstract interpretation of one macroblock over go/ssa with symbolic vectors, addresses, strides and reference samples: every sample written is compared, as an expression, with the standard's", "", func(c *Ctx) {
		c.Rule("for frame pictures in 4:2:0 with frame prediction, every kind of predicted or skipped macroblock, and vectors of every residue modulo 4 and sign: each of the 384 samples of a macroblock is written once more than any other value to its place, as the residual of its block plus the standard's prediction: the samples its vector points to in the forward and backward reference, interpolated with rounding, averaged with rounding; chroma vectors are the luma vectors divided by two towards zero; skipped macroblocks are predicted with zero vectors in P pictures and like the macroblock before in B pictures")
		c.mbLayers(func(m *mbLayer) { m.pixels() })
	})
	register("V20", "abstract interpretation of one macroblock over go/ssa: the place and the value of every sample written, as expressions over address, stride and residual", "", func(c *Ctx) {
		c.Rule("for intra macroblocks of frame pictures in 4:2:0 in every picture type: sample (x,y) of each plane of the macroblock is the residual of the block and cell the standard puts there, for frame and for field DCT coding, limited to eight bits")
		c.mbLayers(func(m *mbLayer) { m.pixels() })
	})
}
