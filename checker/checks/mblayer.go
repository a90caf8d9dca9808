package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// The macroblock layer (ISO/IEC 13818-2 6.2.5, 7.2.1, 7.6.3): the slice
// decoder is followed with the macroblock decoder replaced by something that
// may leave anything in the state the two share, and the macroblock decoder
// is followed from the state it is called in, first and later.

// mbCapture is a call of the macroblock decoder.
type mbCapture struct {
	args  []ai.Val
	s     *ai.State
	first bool
	ev    *ai.Event
}

// loc is a memory location as seen from the macroblock decoder's parameters.
type loc struct {
	arg  int
	path string
}

func (l loc) ok() bool { return l.arg >= 0 }

// mbLayer is the analysis of one class of pictures.
type mbLayer struct {
	c      *Ctx
	a      *videoAnchors
	e      *ai.Engine
	k      picCfg
	stream int
	prec   int64
	caps   []mbCapture
	slice  *Root
	start  *ai.Lin
	// what the macroblock decoder may change
	shared map[int]bool
	objT   map[int]types.Type
	marks  map[string]bool // names of the values the stub leaves
	phase  int             // monitor object
	deq    *ssa.Function
	deqArg quantArg
	coef   coefArg

	pred   loc // motion vector predictions
	dc     loc
	qsc    loc
	actual loc             // the vectors themselves
	old    *oldSamples     // V07
	seen   map[string]bool // kinds of macroblocks decoded
}

const mbMark = "after macroblock"

// reachable lists the objects an argument gives access to, without the
// decoder itself and pictures.
func (m *mbLayer) reachable(s *ai.State, args []ai.Val) []int {
	seen := map[int]bool{}
	var r []int
	var walk func(v ai.Val, d int)
	walk = func(v ai.Val, d int) {
		obj := 0
		switch x := v.(type) {
		case ai.Ptr:
			obj = x.Obj
		case ai.Slice:
			return // sample planes
		case ai.Func:
			for i, b := range x.Bind {
				p, ok := b.(ai.Ptr)
				if ok && p.Obj != 0 && !seen[p.Obj] && x.Fn != nil && i < len(x.Fn.FreeVars) && !storesFree(x.Fn, i) {
					// a captured variable that is only read
					m.e.EachCell(s, p.Obj, func(path string, v ai.Val) { walk(v, d+1) })
					continue
				}
				walk(b, d+1)
			}
			return
		case ai.Iface:
			walk(x.V, d+1)
			return
		}
		if obj == 0 || seen[obj] || d > 4 {
			return
		}
		o := s.Obj(obj)
		if o.Name == "" || o.T == nil {
			return
		}
		if types.Identical(o.T, m.c.Named("video", "VideoSequence")) || strings.HasPrefix(o.Name, "global:") || isImage(o.T) {
			return
		}
		seen[obj] = true
		r = append(r, obj)
		m.e.EachCell(s, obj, func(path string, v ai.Val) { walk(v, d+1) })
	}
	for _, a := range args {
		walk(a, 0)
	}
	sort.Ints(r)
	return r
}

// storesFree says whether a function assigns a captured variable, or lets its
// address go.
func storesFree(f *ssa.Function, i int) bool {
	fv := f.FreeVars[i]
	for _, u := range *fv.Referrers() {
		switch x := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			return true
		default:
			_ = x
			return true
		}
	}
	return false
}

func isImage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "image"
}

// scalarCells lists the numeric cells of a type.
func scalarCells(t types.Type, path string, f func(path string, t types.Type)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			scalarCells(u.Field(i).Type(), path+"."+u.Field(i).Name(), f)
		}
	case *types.Array:
		if u.Len() > 64 {
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			scalarCells(u.Elem(), path+idx(i), f)
		}
	case *types.Basic:
		if u.Info()&types.IsNumeric != 0 {
			f(path, t)
		}
	}
}

// mark replaces the contents of the shared objects by values that depend on
// the location alone, so that a later change can be told.
func (m *mbLayer) mark(s *ai.State, objs []int) {
	for _, obj := range objs {
		t := s.Obj(obj).T
		scalarCells(t, "", func(p string, ct types.Type) {
			lo, hi := ai.TypeRange(ct)
			name := fmt.Sprintf("%s %d%s", mbMark, obj, p)
			s.Store(obj, p, ct, ai.AtomLin(m.e.Atom(name, lo, hi)))
		})
		m.shared[obj] = true
		m.objT[obj] = t
	}
}

func isMark(l *ai.Lin) bool {
	return l != nil && l.K == 0 && len(l.T) == 1 && l.T[0].C == 1 && strings.HasPrefix(l.T[0].A.Key, mbMark)
}

func isIntVal(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// runSlice follows the slice decoder.
func (m *mbLayer) runSlice() {
	c, a, e := m.c, m.a, m.e
	m.phase = e.SymObj("macroblocks seen", types.NewStruct(nil, nil))
	e.FnModels[a.mb] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		ph, _ := s.Load(m.phase, ".n", tInt).(*ai.Lin)
		first := ph != nil && s.Norm(ph).Is(0)
		ev := &ai.Event{Fn: site.Parent(), Pos: site.Pos()}
		m.caps = append(m.caps, mbCapture{append([]ai.Val(nil), args...), s.Clone(), first, ev})
		s.Store(m.phase, ".n", tInt, ai.Const(1))
		m.mark(s, m.reachable(s, args))
		e.Advance(s, m.stream, 1, 1<<30)
		e.Forget(s, m.stream)
		var rs ai.Tuple
		sig := a.mb.Signature
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			switch {
			case isError(t):
				rs = append(rs, ai.Iface{Nil: ai.Const(1)})
			case isIntVal(t):
				rs = append(rs, ai.AtomLin(e.Atom(fmt.Sprintf("%s result %d", mbMark, i), 0, 1<<20)))
			default:
				rs = append(rs, s.Sym(fmt.Sprintf("%s result %d", mbMark, i), t))
			}
		}
		var v ai.Val = rs
		if len(rs) == 1 {
			v = rs[0]
		}
		return []ai.Alt{{S: s, V: v}}
	}
	r := c.sliceRun(a, m.k)
	i := r.ArgOf(c.isVS)
	vs := r.Args[i].(ai.Ptr)
	pc, pct := c.headerObj(r.S, vs, "PictureCodingExtension")
	c.setNum(r.S, pc, pct, "intra_dc_precision", m.prec)
	r.S.Store(m.phase, ".n", tInt, ai.Const(0))
	m.stream = r.StreamOf()
	m.start = r.S.Stream(m.stream).Pos
	e.Peel = everyLoop
	e.Merge = nil
	m.slice = r
	if c.Prop == "V07" {
		m.old = newOldSamples(c, e)
		p, t := imageArg(a.slice, r.Args)
		if t == nil {
			c.Anchor("the picture given to " + a.slice.String())
		}
		m.old.decoding(r.S, p, t)
	}
	r.Run()
	e.OnLoad, e.OnStore, e.OnEvent = nil, nil, nil
	delete(e.FnModels, a.mb)
	firsts, laters := 0, 0
	for _, x := range m.caps {
		if x.first {
			firsts++
		} else {
			laters++
		}
	}
	if firsts == 0 || laters == 0 {
		c.Anchor("the loop over the macroblocks of a slice")
	}
}

// mbOut is one successful way through the macroblock decoder.
type mbOut struct {
	o     ai.Outcome
	init  *ai.State
	args  []ai.Val
	first bool
	mon   int
}

// scenario restricts what one run of the macroblock decoder sees, so that
// the cases add up instead of multiplying: either every coded block pattern,
// with small vectors, or every value of one motion vector component.
type scenario struct {
	free int // the motion code left open, or -1
	cbp  int64
}

func (m *mbLayer) scenarios() []scenario {
	var r []scenario
	switch {
	case m.c.Prop == "V03":
		return append(r, scenario{-1, 37})
	case m.k.coding == 1 || m.c.Prop != "V14":
		r = append(r, scenario{-1, 37})
	case m.k.framePred == 1 && !m.k.conceal:
		for i := int64(0); i < 64; i++ {
			r = append(r, scenario{-1, i})
		}
	default:
		for _, i := range []int64{1, 2, 4, 8, 16, 32, 37, 63} {
			r = append(r, scenario{-1, i})
		}
	}
	n := 0
	switch {
	case m.k.coding == 1 && m.k.conceal:
		n = 2
	case m.k.coding > 1 && m.k.framePred == 1:
		n = 2 * int(m.k.coding-1)
	case m.k.coding > 1:
		n = 4 * int(m.k.coding-1)
	}
	for i := 0; i < n; i++ {
		r = append(r, scenario{i, []int64{37, 26, 41, 22}[i&3]})
	}
	return r
}

// runMB follows the macroblock decoder from a call.
func (m *mbLayer) runMB(cap mbCapture, sc scenario) (outs []mbOut) {
	c, a, e := m.c, m.a, m.e
	s := cap.s.Clone()
	if !cap.first {
		s = s.Unconstrained()
	}
	for _, v := range cap.args {
		if p, ok := v.(ai.Ptr); ok && p.Obj != 0 && types.Identical(s.Obj(p.Obj).T, c.Named("video", "VideoSequence")) {
			c.assumeCfg(s, p, m.k)
			pc, pct := c.headerObj(s, p, "PictureCodingExtension")
			c.setNum(s, pc, pct, "intra_dc_precision", m.prec)
		}
	}
	e.Forget(s, m.stream)
	s.Emit(ai.Event{Kind: "mbstart"})
	mon := e.SymObj("motion monitor", types.NewStruct(nil, nil))
	s.Store(mon, ".n", tInt, ai.Const(0))
	s.Store(mon, ".vlc", tInt, ai.Const(0))
	entry := s.Stream(m.stream).Pos
	init := s.Clone()
	if m.pred.ok() && !cap.first {
		for i, l := range m.predictions(s, cap.args) {
			lo, hi := int64(-4), int64(4)
			if sc.free >= 0 && sc.free&1 == i&1 {
				f := int64(1) << (m.k.fcode(i>>1&1, i&1) - 1)
				lo, hi = -16*f, 16*f-1
			}
			s.Assume(Ge(l, lo))
			s.Assume(Le(l, hi))
		}
	}
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if ev.Kind == "loopnext" {
			// the bits skipped before the address increment
			seen, _ := s.Load(mon, ".vlc", tInt).(*ai.Lin)
			if at := s.Stream(m.stream).Pos; seen != nil && s.Norm(seen).Is(0) && s.Decide(EqL(at, entry)) == ai.False {
				e.Oblige(s, ev.Fn, ev.Pos, "mon:escape", "macroblock_escape", Eq(e.Bits(m.stream, s.Stream(m.stream).Epoch, s.Norm(at.AddK(-11)), 11), 8))
			}
			return
		}
		if ev.Kind != "vlc" {
			return
		}
		s.Store(mon, ".vlc", tInt, ai.Const(1))
		switch a.roles[ev.Obj] {
		case "cbp":
			if l, ok := vlcNum(ev.Val); ok && sc.cbp >= 0 {
				s.Assume(Eq(l, sc.cbp))
			}
			return
		case "motion":
		default:
			return
		}
		l, _ := s.Load(mon, ".n", tInt).(*ai.Lin)
		if l == nil || !s.Norm(l).IsConst() {
			return
		}
		n := s.Norm(l).K
		s.Store(mon, ".n", tInt, ai.Const(n+1))
		if l, ok := vlcNum(ev.Val); ok && int64(sc.free) != n {
			s.Assume(Eq(l, 1))
		}
		if n > 0 || !m.pred.ok() {
			return
		}
		for i, l := range m.predictions(s, cap.args) {
			s.Store(mon, fmt.Sprintf(".p%d", i), tInt, l)
		}
	}
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) {
		if init.Existing(obj) && !m.shared[obj] && obj != mon && obj != m.phase && !isMon(s.Obj(obj).Name) {
			c.Failf("macroblock/effect", c.P.Where(pos), "%s writes %s%s, which the macroblock decoder does not share with the slice decoder", fn, s.Obj(obj).Name, path)
		}
	}
	m.stubs()
	e.Rotate, e.Peel = true, everyLoop
	e.RootName = a.mb.String() + " " + m.k.String()
	e.Budget = 6000000
	for _, o := range e.Call(s, a.mb, cap.args, nil) {
		c.Count("paths", 1)
		if o.Panicked {
			c.Count("panicking_paths", 1)
			continue
		}
		if Succeeded(o, a.mb) == ai.True {
			outs = append(outs, mbOut{o, init, cap.args, cap.first, mon})
		}
	}
	e.OnEvent, e.OnStore = nil, nil
	for _, ob := range e.Obls {
		if ob.Kind == "mon:escape" && ob.Failed && c.Prop == "V14" {
			c.Failf("macroblock/macroblock_escape", c.P.Where(ob.Pos), "%s: bits are skipped before macroblock_address_increment that need not be a macroblock_escape", m.k)
		}
	}
	if len(outs) == 0 {
		c.Failf("vacuous/macroblock", c.P.Where(a.mb.Pos()), "%s has no successful path for %s", a.mb, m.k)
	}
	return
}

// vlcNum is the number a code word stands for.
func vlcNum(v ai.Val) (*ai.Lin, bool) {
	if f, ok := v.(ai.Iface); ok {
		v = f.V
	}
	return AsLin(v)
}

func triOf(b bool) ai.Tri {
	if b {
		return ai.True
	}
	return ai.False
}

func isMon(n string) bool { return strings.Contains(n, "monitor") }

// stubs replace the functions that work on samples, and the coefficient
// decoder, which V15 and V19 decide on their own.
func (m *mbLayer) stubs() {
	c, a, e := m.c, m.a, m.e
	a.stubPixels(c)
	if old := e.FnModels[m.deq]; old != nil {
		e.FnModels[m.deq] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
			s.Emit(ai.Event{Kind: "dequant", Fn: site.Parent(), Pos: site.Pos(), Args: args})
			return old(e, s, site, args)
		}
	} else {
		c.Anchor("the effects of " + m.deq.String())
	}
	q := m.coef
	e.FnModels[a.blockRead] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		bp, pp := args[q.block].(ai.Ptr), args[q.pred].(ai.Ptr)
		cc, ok1 := args[q.cc].(*ai.Lin)
		intra, ok2 := args[q.intra].(ai.Bool)
		if !ok1 || !ok2 || !s.Norm(cc).IsConst() || DecideBool(s, intra) == ai.Unknown {
			panic(ai.Unsupported{Msg: "a coded block of a component that is not known"})
		}
		isIntra := DecideBool(s, intra) == ai.True
		n := s.Norm(cc).K
		pt := types.Typ[types.Int32]
		preds := func() (r []ai.Val) {
			for i := 0; i < 3; i++ {
				r = append(r, s.Load(pp.Obj, pp.Path+idx(i), pt))
			}
			return
		}
		ev := ai.Event{Kind: "block", Fn: site.Parent(), Pos: site.Pos(), Obj: pp.Obj, Path: pp.Path, Stream: m.stream, Args: []ai.Val{ai.Const(n), ai.BoolConst(isIntra)}}
		if q.format >= 0 {
			ev.Args = append(ev.Args, args[q.format])
		} else {
			ev.Args = append(ev.Args, ai.Val(nil))
		}
		ev.Args = append(ev.Args, preds()...)
		s.HavocUnder(bp.Obj, bp.Path, "block")
		if isIntra && n >= 0 && n < 3 {
			s.Store(pp.Obj, pp.Path+idx(int(n)), pt, ai.AtomLin(e.Fresh("dc", -1<<20, 1<<20)))
		}
		ev.Res = preds()
		ev.Epoch = s.Stream(m.stream).Epoch
		ev.From, ev.To = e.Advance(s, m.stream, 2, 1<<12)
		s.Emit(ev)
		return []ai.Alt{{S: s, V: ai.Iface{Nil: ai.Const(1)}}}
	}
	if rs := a.blockRead.Signature.Results(); rs.Len() != 1 || !isError(rs.At(0).Type()) {
		c.Anchor("the results of " + a.blockRead.String())
	}
}

// at resolves a location for a call.
func (l loc) at(args []ai.Val) ai.Ptr {
	p, _ := args[l.arg].(ai.Ptr)
	p.Path += l.path
	return p
}

// predictions loads the eight motion vector predictions, [r][s][t].
func (m *mbLayer) predictions(s *ai.State, args []ai.Val) (r [8]*ai.Lin) {
	p := m.pred.at(args)
	for i := range r {
		l, ok := s.Load(p.Obj, p.Path+idx(i>>2)+idx(i>>1&1)+idx(i&1), tInt).(*ai.Lin)
		if !ok {
			m.c.Anchor("the motion vector predictions")
		}
		r[i] = s.Norm(l)
	}
	return
}

// locOf finds the parameter through which an object is reached.
func locOf(args []ai.Val, obj int, path string) loc {
	for i, a := range args {
		if p, ok := a.(ai.Ptr); ok && p.Obj == obj && strings.HasPrefix(path, p.Path) {
			return loc{i, path[len(p.Path):]}
		}
	}
	return loc{-1, ""}
}

// locate finds the predictors and the quantiser scale by what becomes of
// them.
func (m *mbLayer) locate(outs []mbOut) {
	type arr struct {
		obj  int
		path string
	}
	var arrs []arr
	for obj := range m.shared {
		var walk func(t types.Type, path string)
		walk = func(t types.Type, path string) {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					walk(u.Field(i).Type(), path+"."+u.Field(i).Name())
				}
			case *types.Array:
				d := t
				for k := 0; k < 3; k++ {
					x, ok := d.Underlying().(*types.Array)
					if !ok || x.Len() != 2 {
						return
					}
					d = x.Elem()
				}
				if isIntVal(d) {
					arrs = append(arrs, arr{obj, path})
				}
			}
		}
		walk(m.objT[obj], "")
	}
	hit, after := map[loc]bool{}, map[loc]string{}
	for _, x := range outs {
		if x.first {
			continue
		}
		moved := false
		for _, ev := range x.o.S.Events(nil) {
			switch {
			case ev.Kind == "vlc" && m.a.roles[ev.Obj] == "motion":
				moved = true
			case ev.Kind == "block" && !m.dc.ok():
				m.dc = locOf(x.args, ev.Obj, ev.Path)
			case ev.Kind == "dequant" && !m.qsc.ok():
				l, ok := ev.Args[m.deqArg.code].(*ai.Lin)
				if ok && isMark(l) {
					var obj int
					var path string
					fmt.Sscanf(strings.TrimPrefix(l.T[0].A.Key, mbMark), "%d%s", &obj, &path)
					m.qsc = locOf(x.args, obj, path)
				}
			}
		}
		if !moved {
			continue
		}
		for _, a := range arrs {
			if !x.init.Existing(a.obj) {
				continue
			}
			cell := a.path + "[0][0][0]"
			v, ok := x.o.S.Load(a.obj, cell, tInt).(*ai.Lin)
			if !ok {
				after[locOf(x.args, a.obj, a.path)] += "?|"
				continue
			}
			v = x.o.S.Norm(v)
			own := false
			deepAtoms(v, func(at *ai.Atom) {
				own = own || at.Key == fmt.Sprintf("%s %d%s", mbMark, a.obj, cell)
			})
			if own && (len(v.T) > 1 || v.K != 0) {
				hit[locOf(x.args, a.obj, a.path)] = true
			}
			after[locOf(x.args, a.obj, a.path)] += v.Key() + "|"
		}
	}
	if len(hit) != 1 {
		m.c.Anchor("the motion vector predictions")
	}
	for l := range hit {
		m.pred = l
	}
	// the vectors are what equals the new predictions
	n := 0
	for l, k := range after {
		if l != m.pred && k == after[m.pred] {
			m.actual = l
			n++
		}
	}
	if n != 1 {
		m.actual = loc{-1, ""}
	}
	switch {
	case !m.pred.ok():
		m.c.Anchor("the motion vector predictions")
	case !m.qsc.ok():
		m.c.Anchor("the quantiser scale of a slice")
	case !m.dc.ok():
		m.c.Anchor("the DC predictors")
	}
}

// deepAtoms visits the atoms of a number and of the operations it is made
// of.
func deepAtoms(l *ai.Lin, f func(a *ai.Atom)) {
	for _, t := range l.T {
		f(t.A)
		for _, x := range t.A.Args {
			deepAtoms(x, f)
		}
	}
}

// residues replaces remainders whose quotient the facts decide.
func residues(s *ai.State, l *ai.Lin) *ai.Lin {
	l = s.Norm(l)
	out := ai.Const(l.K)
	for _, t := range l.T {
		v := ai.AtomLin(t.A)
		if mod := t.A.Fn == "mod"; (mod || t.A.Fn == "%") && len(t.A.Args) == 2 {
			x, m := residues(s, t.A.Args[0]), s.Norm(t.A.Args[1])
			if m.IsConst() && m.K > 0 {
				for q := int64(-2); q <= 2; q++ {
					y := x.AddK(-q * m.K)
					lo, hi := int64(0), m.K-1
					if !mod && q <= 0 {
						lo, hi = -hi, 0
						if q == 0 {
							hi = m.K - 1
						}
					}
					if s.Decide(Ge(y, lo)) == ai.True && s.Decide(Le(y, hi)) == ai.True {
						v = y
						break
					}
				}
			}
		}
		out = out.AddMul(v, t.C)
	}
	return s.Norm(out)
}

// mbLayers analyses every class of pictures.
func (c *Ctx) mbLayers(f func(m *mbLayer)) {
	a := c.videoAnchors()
	fn, q := c.dequantiser(a)
	coef := c.coefArgs(a.blockRead)
	base := func(c *Ctx, k picCfg, prec int64) *mbLayer {
		a := c.videoAnchors()
		a.e.Endless = true
		a.e.MaxLive = 128
		return &mbLayer{c: c, a: a, e: a.e, k: k, prec: prec, shared: map[int]bool{}, objT: map[int]types.Type{}, deq: fn, deqArg: q, coef: coef, pred: loc{-1, ""}, dc: loc{-1, ""}, qsc: loc{-1, ""}, actual: loc{-1, ""}, seen: map[string]bool{}}
	}
	none := loc{-1, ""}
	pred, dc, qsc, actual := none, none, none, none
	c.Guard("the state of the macroblock layer", func() {
		m := base(c, picCfg{coding: 2, structure: 3, framePred: 1, fcode1: true}, 0)
		m.runSlice()
		var outs []mbOut
		for _, x := range m.caps {
			if !x.first {
				outs = append(outs, m.runMB(x, scenario{-1, 37})...)
				break
			}
		}
		m.locate(outs)
		pred, dc, qsc, actual = m.pred, m.dc, m.qsc, m.actual
	})
	if !pred.ok() || !dc.ok() || !qsc.ok() {
		return
	}
	ks := picClasses()
	if c.Prop == "V09" {
		ks = fcodeClasses()
	}
	if c.Prop == "V16" {
		ks = pixClasses()
	}
	if c.Prop == "V20" || c.Prop == "V07" {
		ks = placeClasses()
	}
	if c.Prop == "V07" {
		for i := range ks {
			ks[i].fcode1, ks[i].fc = false, 7
		}
	}
	if v := os.Getenv("VERIF_CLASS"); v != "" {
		n, _ := strconv.Atoi(v)
		ks = ks[n : n+1]
	}
	c.parallelN(len(ks), func(c *Ctx, i int) {
		c.Guard(ks[i].String(), func() {
			m := base(c, ks[i], int64(i)&3)
			m.pred, m.dc, m.qsc, m.actual = pred, dc, qsc, actual
			m.runSlice()
			f(m)
		})
	})
	c.Sample("%d classes of pictures (coding type x structure x frame_pred_frame_dct x concealment x f_code x intra_vlc_format x intra_dc_precision)", len(ks))
}

// fcodeClasses are the classes that differ in how vectors are formed, with
// every f_code.
func fcodeClasses() (r []picCfg) {
	for f := int64(1); f <= 9; f++ {
		r = append(r, picCfg{coding: 2, structure: 3, framePred: 0, conceal: true, fc: f}, picCfg{coding: 3, structure: 3, framePred: 1, fc: f}, picCfg{coding: 3, structure: 2, fc: f})
	}
	return append(r, picCfg{coding: 3, structure: 3, conceal: true})
}

func picClasses() (r []picCfg) {
	n := int64(0)
	for coding := int64(1); coding <= 3; coding++ {
		for _, sf := range [][2]int64{{3, 1}, {3, 0}, {1, 0}, {2, 0}} {
			for _, conceal := range []bool{false, true} {
				if sf[0] == 2 && (coding == 1 || conceal) {
					continue
				}
				n++
				r = append(r, picCfg{coding: coding, structure: sf[0], framePred: sf[1], conceal: conceal, fcode1: true, vlcFormat: n & 1})
			}
		}
	}
	for coding := int64(2); coding <= 3; coding++ {
		r = append(r, picCfg{coding: coding, structure: 3, framePred: 0, conceal: true}, picCfg{coding: coding, structure: 3, framePred: 1}, picCfg{coding: coding, structure: 3, framePred: 1, fcs: [4]int64{1, 3, 2, 1}}, picCfg{coding: coding, structure: 1, fcs: [4]int64{3, 1, 1, 2}})
	}
	return
}

// mbWalk replays the macroblock syntax over one successful way through the
// decoder. Only what belongs to the property under test is reported.
func (m *mbLayer) mbWalk(x mbOut) {
	c, a, e := m.c, m.a, m.e
	st := x.init.Stream(m.stream)
	var evs []*ai.Event
	for _, ev := range x.o.S.Events(nil) {
		switch ev.Kind {
		case "mbstart":
			evs = nil
		case "vlc", "block", "dequant":
			evs = append(evs, ev)
		}
	}
	mode := "first macroblock of a slice"
	if !x.first {
		mode = "later macroblock"
	}
	v14, v05, v09 := c.Prop == "V14", c.Prop == "V05", c.Prop == "V09"
	c.Spec(e, x.o, a.mb, m.stream, st.Epoch, st.Pos, "macroblock/", func(w *Walk) {
		i := 0
		next := func(kind string) *ai.Event {
			if i < len(evs) && evs[i].Kind == kind {
				i++
				return evs[i-1]
			}
			return nil
		}
		must := func(on bool, key string, ok bool, format string, args ...any) {
			if on {
				c.Count("syntax_obligations", 1)
			}
			if !ok {
				if on {
					w.fail(key, "%s, %s: %s", m.k, mode, fmt.Sprintf(format, args...))
				}
				panic(deadWalk{})
			}
		}
		table := func(role, what string) *ai.Event {
			ev := next("vlc")
			must(v14, what, ev != nil, "%s is not read", what)
			must(v14 || c.Prop == "V03", what, a.roles[ev.Obj] == role, "%s is decoded with the table of %q", what, a.roles[ev.Obj])
			return ev
		}
		here := func(ev *ai.Event, what string) {
			must(v14, what, w.S.Decide(EqL(ev.From, w.Pos)) == ai.True && ev.Stream == w.Stream, "%s is read at bit %v, not at %v", what, w.S.Norm(ev.From), w.S.Norm(w.Pos))
			w.Pos = ev.To
		}
		eq := func(on bool, key string, got ai.Val, want *ai.Lin, format string, args ...any) {
			if !on {
				return
			}
			c.Count("field_obligations", 1)
			l, ok := AsLin(got)
			if ok && w.S.Decide(EqL(l, want)) != ai.True {
				l = residues(w.S, l)
			}
			if !ok || w.S.Decide(EqL(l, want)) != ai.True {
				g := ai.ValString(got)
				if ok {
					g = w.S.Norm(l).String()
				}
				w.fail(key, "%s, %s: %s is %s, want %v", m.k, mode, fmt.Sprintf(format, args...), g, w.S.Norm(want))
			}
		}

		// macroblock_escape* macroblock_address_increment
		ai0 := table("addrinc", "macroblock_address_increment")
		esc := w.S.Norm(ai0.From.Sub(w.Pos))
		incr, ok := vlcNum(ai0.Val)
		must(v14, "macroblock_address_increment", ok, "macroblock_address_increment is not a number")
		whole := esc.K%11 == 0
		for _, t := range esc.T {
			whole = whole && t.C%11 == 0
		}
		must(v14, "macroblock_escape", whole, "%v bits are skipped before macroblock_address_increment", esc)
		k := &ai.Lin{}
		if whole {
			k = ai.Const(esc.K / 11)
			for _, t := range esc.T {
				k = k.Add(ai.AtomLin(t.A).Mul(t.C / 11))
			}
		}
		if w.If(Ge(k, 1)) {
			must(v14, "macroblock_escape", w.S.Decide(Eq(w.At(w.Pos, 11), 8)) == ai.True, "other bits than macroblock_escape are skipped")
		}
		if v14 {
			must(v14, "macroblock_escape", w.S.Decide(Eq(w.At(ai0.From, 11), 8)) == ai.False, "a macroblock_escape is not skipped")
		}
		incr = incr.Add(k.Mul(33))
		w.Pos = ai0.To
		if ra, ri := m.address(x); ra != nil && v14 {
			eq(v14, "address", x.o.Vals[ri], ra.Add(incr), "the macroblock address")
		}

		// macroblock_type
		ty := table([]string{"", "mbtypeI", "mbtypeP", "mbtypeB"}[m.k.coding], "macroblock_type")
		here(ty, "macroblock_type")
		flags := c.vlcValue(w.S, ty.Val)
		if len(flags) != 6 || strings.Contains(flags, "?") {
			panic(ai.Unsupported{Msg: "macroblock type " + flags})
		}
		fl := func(b string) bool { return strings.Contains(flags, b) }
		q, f, b, p, intra := fl("q"), fl("f"), fl("b"), fl("p"), fl("i")
		frame := m.k.structure == 3
		mt := int64(0)
		if f || b {
			if frame && m.k.framePred == 0 || !frame {
				l := w.U(2)
				for n := int64(0); n < 3; n++ {
					if w.If(Eq(l, n)) {
						mt = n
						break
					}
					mt = n + 1
				}
				if mt == 0 || mt == 3 {
					// reserved, or dual prime
					panic(deadWalk{})
				}
			} else {
				mt = 2
			}
		}
		m.seen[fmt.Sprintf("%d/%d/%d %s %d", m.k.coding, m.k.structure, m.k.framePred, flags, mt)] = true
		if frame && m.k.framePred == 0 && (intra || p) {
			w.U(1)
		}
		var code *ai.Lin
		if q {
			code = w.U(5)
		}

		// predictors on entry
		entry := m.predictions(x.init, x.args)
		conceal := intra && m.k.conceal
		zero := intra && !conceal || m.k.coding == 2 && !intra && !f
		if !zero && m.k.coding == 2 {
			zero = w.If(Ge(incr, 2))
		}
		why := "carried over"
		if zero {
			why = "reset"
			for i := range entry {
				entry[i] = ai.Const(0)
			}
		}
		moved := false
		vectors := func(s int) {
			count, sel, field := 1, false, false
			switch {
			case m.k.framePred == 1:
			case intra:
				sel, field = !frame, !frame
			case frame:
				field = mt == 1
				sel = field
				if field {
					count = 2
				}
			default:
				sel, field = true, true
				if mt == 2 {
					count = 2
				}
			}
			var upd, act [2][2]*ai.Lin
			for r := 0; r < count; r++ {
				if sel {
					w.U(1)
				}
				for t := 0; t < 2; t++ {
					what := []string{"motion_horizontal_code", "motion_vertical_code"}[t]
					ev := table("motion", what)
					here(ev, what)
					if !moved {
						moved = true
						for j := range entry {
							got := x.o.S.Load(x.mon, fmt.Sprintf(".p%d", j), tInt)
							eq(v05, "motion vector predictors", got, entry[j], "motion vector predictor [%d][%d][%d] (%s) before the first vector", j>>2, j>>1&1, j&1, why)
						}
					}
					val, ok := vlcNum(ev.Val)
					must(v14, what, ok, "%s is not a number", what)
					fc := m.k.fcode(s, t)
					delta := val
					if fc != 1 && w.If(ai.Cmp{Op: ai.NE, L: val}) {
						res := w.U(int(fc - 1))
						fs := int64(1) << (fc - 1)
						if w.If(Ge(val, 0)) {
							delta = val.AddK(-1).Mul(fs).Add(res).AddK(1)
						} else {
							delta = val.AddK(1).Mul(fs).Sub(res).AddK(-1)
						}
					}
					if !v05 && !v09 {
						continue
					}
					base := entry[r<<2|s<<1|t]
					half := field && frame && t == 1
					if half {
						base = e.Shr(w.S, base, 1)
					}
					lo := -int64(16) << (fc - 1)
					vec := base.Add(delta)
					if !w.If(Ge(vec, lo)) {
						vec = vec.AddK(-2 * lo)
					} else if w.If(Ge(vec, -lo)) {
						vec = vec.AddK(2 * lo)
					}
					act[r][t] = vec
					if half {
						vec = vec.Mul(2)
					}
					upd[r][t] = vec
				}
			}
			for t := 0; t < 2; t++ {
				if count == 1 {
					upd[1][t] = upd[0][t]
				}
				for r := 0; r < 2; r++ {
					entry[r<<2|s<<1|t] = upd[r][t]
				}
			}
			if v09 && m.actual.ok() {
				p := m.actual.at(x.args)
				for r := 0; r < count; r++ {
					for t := 0; t < 2; t++ {
						eq(v09, "vector", x.o.S.Load(p.Obj, p.Path+idx(r)+idx(s)+idx(t), tInt), act[r][t], "motion vector [%d][%d][%d]", r, s, t)
					}
				}
			}
		}
		if f || conceal {
			vectors(0)
		}
		if b {
			vectors(1)
		}
		if moved || !v09 {
			for j, l := range m.predictions(x.o.S, x.args) {
				if v05 || v09 {
					eq(true, "motion vector predictors", l, entry[j], "motion vector predictor [%d][%d][%d] (%s, %s) after the macroblock", j>>2, j>>1&1, j&1, flags, why)
				}
			}
		}
		if conceal {
			mk := w.U(1)
			must(v14, "marker_bit", w.S.Decide(Eq(mk, 1)) == ai.True, "a concealment macroblock is accepted without its marker bit")
		}
		pattern := int64(0)
		if p {
			ev := table("cbp", "coded_block_pattern")
			here(ev, "coded_block_pattern")
			l, ok := vlcNum(ev.Val)
			must(v14, "coded_block_pattern", ok && w.S.Norm(l).IsConst(), "coded_block_pattern is not a known number")
			pattern = w.S.Norm(l).K
		}
		if intra {
			pattern = 63
		}

		// DC predictors
		mid := ai.Const(128 << uint(m.prec))
		pd := m.dc.at(x.args)
		var dc [3]*ai.Lin
		for j := range dc {
			dc[j], _ = x.init.Load(pd.Obj, pd.Path+idx(j), types.Typ[types.Int32]).(*ai.Lin)
		}
		skipped := false
		if v05 {
			skipped = w.If(Ge(incr, 2))
		}
		if skipped || !intra {
			dc = [3]*ai.Lin{mid, mid, mid}
		}
		scale := code
		if scale == nil {
			scale, _ = m.scale(x.init, x.args)
		}
		for j := 0; j < 6; j++ {
			if pattern>>(5-j)&1 == 0 {
				continue
			}
			ev := next("block")
			must(v14, "block", ev != nil, "block %d is not decoded (macroblock type %s, pattern %06b)", j, flags, pattern)
			here(ev, fmt.Sprintf("block %d", j))
			cc := int64(0)
			if j > 3 {
				cc = int64(j) - 3
			}
			must(v14 || c.Prop == "V03", "block component", ev.Args[0].(*ai.Lin).K == cc, "block %d is decoded as component %v", j, ev.Args[0])
			must(v14 || c.Prop == "V03", "block kind", DecideBool(w.S, ev.Args[1].(ai.Bool)) == triOf(intra), "block %d of a macroblock of type %s is decoded as intra=%v", j, flags, ev.Args[1])
			if l, ok := ev.Args[2].(*ai.Lin); ok && intra {
				eq(v14 || c.Prop == "V03", "intra_vlc_format", l, ai.Const(m.k.vlcFormat), "intra_vlc_format")
			}
			for n := 0; n < 3 && intra; n++ {
				eq(v05, "DC predictors", ev.Args[3+n], dc[n], "DC predictor %d before block %d (address increment %v)", n, j, w.S.Norm(incr))
				dc[n], _ = ev.Res[n].(*ai.Lin)
			}
			dq := next("dequant")
			must(v14, "dequantisation", dq != nil, "block %d is not dequantised", j)
			eq(v14, "quantiser scale", dq.Args[m.deqArg.code], scale, "the quantiser scale code of block %d", j)
			eq(v14, "block component", dq.Args[m.deqArg.cc], ai.Const(cc), "the component block %d is dequantised for", j)
			if v, ok := dq.Args[m.deqArg.intra].(ai.Bool); ok {
				must(v14, "block kind", DecideBool(w.S, v) == triOf(intra), "block %d of a macroblock of type %s is dequantised as intra=%v", j, flags, v)
			}
		}
		for n := range dc {
			eq(v05, "DC predictors", x.o.S.Load(pd.Obj, pd.Path+idx(n), types.Typ[types.Int32]), dc[n], "DC predictor %d after a macroblock of type %s", n, flags)
		}
		extra := ""
		if i < len(evs) {
			extra = evs[i].Kind
		}
		must(v14, "end", i == len(evs), "an element too many is decoded (%s) in a macroblock of type %s, pattern %06b", extra, flags, pattern)
		if v14 {
			if l, _ := m.scale(x.o.S, x.args); l != nil {
				eq(v14, "quantiser scale", l, scale, "the quantiser scale code left to the rest of the slice")
			}
			end := x.o.S.Stream(w.Stream).Pos
			must(v14, "end", w.S.Decide(EqL(end, w.Pos)) == ai.True, "a macroblock of type %s ends at bit %v, not at %v", flags, w.S.Norm(end), w.S.Norm(w.Pos))
		}
	})
}

// sliceWalk checks what the slice decoder gives a macroblock.
func (m *mbLayer) sliceWalk(x mbCapture) {
	c, e := m.c, m.e
	r := m.slice
	st := r.S.Stream(m.stream)
	mode := "the first macroblock of a slice"
	if !x.first {
		mode = "a later macroblock of a slice"
	}
	vs := r.Args[r.ArgOf(c.isVS)].(ai.Ptr)
	o := ai.Outcome{S: x.s}
	c.Spec(e, o, m.a.slice, m.stream, st.Epoch, m.start, "slice/", func(w *Walk) {
		eq := func(on bool, key string, got *ai.Lin, want *ai.Lin, what string) {
			if !on {
				return
			}
			c.Count("field_obligations", 1)
			if w.S.Decide(EqL(got, want)) != ai.True {
				w.fail(key, "%s of %s is %v, want %v (%s)", what, mode, w.S.Norm(got), w.S.Norm(want), m.k)
			}
		}
		code := w.At(w.Pos.AddK(24), 8)
		if c.Prop == "V13" {
			c.Count("field_obligations", 1)
			if whole := w.At(w.Pos, 32); !isSlice(w.S, whole) {
				w.fail("start code", "a slice is decoded although its start code need not be 0x01 to 0xAF (%v)", w.S.Norm(whole))
			}
		}
		w.Skip(32)
		row := code.AddK(-1)
		sh, sht := c.headerObj(w.S, vs, "SequenceHeader")
		se, set := c.headerObj(w.S, vs, "SequenceExtension")
		vsv, ok1 := c.Field(w.S, sh, sht, "vertical_size_value").(*ai.Lin)
		vse, ok2 := c.Field(w.S, se, set, "vertical_size_extension").(*ai.Lin)
		if !ok1 || !ok2 {
			c.Anchor("the vertical size")
		}
		if w.If(Ge(vsv.Add(vse.Mul(4096)), 2801)) {
			row = row.Add(w.U(3).Mul(128))
		}
		want := w.U(5)
		scale, _ := m.scale(x.s, x.args)
		mid := ai.Const(128 << uint(m.prec))
		was := func(l loc, path string) *ai.Lin {
			p := l.at(x.args)
			return ai.AtomLin(e.Atom(fmt.Sprintf("%s %d%s", mbMark, p.Obj, p.Path+path), ai.NInf, ai.PInf))
		}
		if !x.first {
			want = was(m.qsc, "")
		}
		eq(c.Prop == "V14", "quantiser scale", scale, want, "the quantiser scale code")
		pd := m.dc.at(x.args)
		for j := 0; j < 3; j++ {
			l, _ := x.s.Load(pd.Obj, pd.Path+idx(j), types.Typ[types.Int32]).(*ai.Lin)
			if !x.first {
				mid = was(m.dc, idx(j))
			}
			eq(c.Prop == "V05", "DC predictors", l, mid, fmt.Sprintf("DC predictor %d", j))
		}
		for j, l := range m.predictions(x.s, x.args) {
			want := ai.Const(0)
			if !x.first {
				want = was(m.pred, idx(j>>2)+idx(j>>1&1)+idx(j&1))
			}
			eq(c.Prop == "V05", "motion vector predictors", l, want, fmt.Sprintf("motion vector predictor [%d][%d][%d]", j>>2, j>>1&1, j&1))
		}
		if c.Prop == "V13" {
			m.sliceRow(w, x, row, mode)
		}
	})
}

// sliceRow checks where in the picture a slice is decoded to.
func (m *mbLayer) sliceRow(w *Walk, x mbCapture, row *ai.Lin, mode string) {
	c := m.c
	addr := -1
	for _, y := range m.caps {
		for i, v := range y.args {
			if l, ok := v.(*ai.Lin); ok && !y.first && isMark(y.s.Norm(l)) {
				addr = i
			}
		}
	}
	var ints []*ai.Lin
	for i, v := range x.args {
		if l, ok := v.(*ai.Lin); ok && i != addr {
			ints = append(ints, l)
		}
	}
	if len(ints) == 1 {
		c.Count("field_obligations", 1)
		if w.S.Decide(EqL(ints[0], row)) != ai.True {
			w.fail("row", "the macroblock row of %s is %v, want %v", mode, w.S.Norm(ints[0]), w.S.Norm(row))
		}
	}
	frame := -1
	for i := range m.slice.Args {
		if p, ok := m.slice.Fn.Params[i].Type().Underlying().(*types.Pointer); ok && isImage(p.Elem()) {
			frame = i
		}
	}
	dst := -1
	for i := range x.args {
		if p, ok := m.a.mb.Params[i].Type().Underlying().(*types.Pointer); ok && isImage(p.Elem()) {
			dst = i
		}
	}
	if frame < 0 || dst < 0 {
		c.Anchor("the picture a slice is decoded to")
	}
	fp, dp := m.slice.Args[frame].(ai.Ptr), x.args[dst].(ai.Ptr)
	t := m.slice.Fn.Params[frame].Type().Underlying().(*types.Pointer).Elem()
	ps := newPolys(w.S)
	num := func(p ai.Ptr, f string) *ai.Lin {
		path, ft := promoted(t, f)
		l, _ := w.S.Load(p.Obj, p.Path+path, ft).(*ai.Lin)
		return l
	}
	for _, pl := range []struct {
		plane, stride string
		lines         int64
	}{{"Y", "YStride", 16}, {"Cb", "CStride", 8}, {"Cr", "CStride", 8}} {
		path, ft := promoted(t, pl.plane)
		a, ok1 := w.S.Load(fp.Obj, fp.Path+path, ft).(ai.Slice)
		b, ok2 := w.S.Load(dp.Obj, dp.Path+path, ft).(ai.Slice)
		sa, sb := num(fp, pl.stride), num(dp, pl.stride)
		if !ok1 || !ok2 || sa == nil || sb == nil {
			c.Anchor("the planes of the picture")
		}
		c.Count("field_obligations", 2)
		got := ps.of(b.Lo).plus(ps.of(a.Lo), -1)
		want := ps.of(row).times(ps.of(sa)).times(konst(pl.lines))
		if fp.Obj == dp.Obj && fp.Path == dp.Path {
			// the decoder is given the whole picture
			continue
		}
		if a.Obj != b.Obj || got.key() != want.key() {
			w.fail("row", "plane %s of %s does not start %d lines of %v samples per row below the picture, at row %v", pl.plane, mode, pl.lines, sa, w.S.Norm(row))
		}
		if w.S.Decide(EqL(sa, sb)) != ai.True {
			w.fail("row", "the stride of plane %s of %s is %v, want %v", pl.plane, mode, sb, sa)
		}
	}
}

// scale is the quantiser scale code the slice holds.
func (m *mbLayer) scale(s *ai.State, args []ai.Val) (*ai.Lin, bool) {
	p := m.qsc.at(args)
	l, ok := s.Load(p.Obj, p.Path, types.Typ[types.Uint32]).(*ai.Lin)
	if !ok {
		m.c.Anchor("the quantiser scale of a slice")
	}
	return s.Norm(l), true
}

// address finds the macroblock address: what a call returns is what the next
// is given. It yields the value given and the index of the result.
func (m *mbLayer) address(x mbOut) (*ai.Lin, int) {
	for _, y := range m.caps {
		if y.first {
			continue
		}
		for i, v := range y.args {
			l, ok := v.(*ai.Lin)
			if !ok {
				continue
			}
			l = y.s.Norm(l)
			var n int
			if len(l.T) == 1 && l.K == 0 && l.T[0].C == 1 {
				if k, _ := fmt.Sscanf(l.T[0].A.Key, mbMark+" result %d", &n); k == 1 && n < len(x.o.Vals) {
					if g, ok := x.args[i].(*ai.Lin); ok {
						return x.init.Norm(g), n
					}
				}
			}
		}
	}
	return nil, 0
}

func checkMB(c *Ctx) {
	switch c.Prop {
	case "V14":
		c.Rule("for every class of pictures and on every successful path through the macroblock decoder, each element starts at the bit where the standard's syntax has it, is present exactly when it must be, and is decoded with its table; the blocks decoded are those of the coded block pattern, with their component and kind; the quantiser scale code used is the one of the macroblock, or else the one in force, and stays in force in the slice; the macroblock address grows by the increment; every kind of macroblock of the standard can be decoded")
	case "V05":
		c.Rule("for every class of pictures and on every successful path through the macroblock decoder, first or later in its slice, the DC predictors before each block and after the macroblock, and the motion vector predictors before the first vector and after the macroblock, are the reset or the carried over (and updated) values the standard demands; the slice decoder hands each macroblock what the previous one left, and the first one reset predictors")
	case "V09":
		c.Rule("for every f_code and every way of forming vectors, on every path, each reconstructed component is the prediction plus the delta, plus or minus the range when it left the range, and the stored prediction is that vector (doubled where the standard halves field predictions)")
	}
	c.mbLayers(func(m *mbLayer) {
		c := m.c
		for _, x := range m.caps {
			m.sliceWalk(x)
		}
		if c.Prop == "V13" {
			m.sliceRefusals()
			return
		}
		for _, first := range []bool{true, false} {
			for _, x := range m.caps {
				if x.first != first {
					continue
				}
				for _, sc := range m.scenarios() {
					outs := m.runMB(x, sc)
					c.Count("ways_through_the_macroblock_decoder", len(outs))
					for _, o := range outs {
						m.mbWalk(o)
					}
				}
				break
			}
		}
		m.complete()
	})
}

// sliceRefusals: a slice start code is never taken for something else.
func (m *mbLayer) sliceRefusals() {
	c, r := m.c, m.slice
	st := r.S.Stream(m.stream)
	code := m.e.Bits(m.stream, st.Epoch, m.start, 32)
	r.Failures(func(o ai.Outcome, ev *ai.ErrVal, v ai.Iface) {
		x := o.S.Stream(m.stream)
		if len(o.S.Pend) > 0 || x.Epoch != st.Epoch || o.S.Decide(Le(x.Pos.Sub(m.start), 32)) != ai.True {
			return
		}
		c.Count("refusal_obligations", 1)
		if s := o.S.Clone(); s.Assume(Ge(code, 0x101)) && s.Assume(Le(code, 0x1AF)) {
			c.FailAt("slice/refused", o, r.Fn, "a slice with a start code from 0x01 to 0xAF may be refused with %s", ai.ValString(v))
		}
	})
}

// complete demands that every kind of macroblock can be decoded.
func (m *mbLayer) complete() {
	if m.c.Prop != "V14" {
		return
	}
	table := []string{"", stdMBTypeI, stdMBTypeP, stdMBTypeB}[m.k.coding]
	for _, row := range strings.Fields(table) {
		mts := []int{2}
		if m.k.framePred == 0 {
			mts = []int{1, 2}
		}
		_, f, _ := strings.Cut(row, "=")
		if !strings.Contains(f, "f") && !strings.Contains(f, "b") {
			mts = []int{0}
		}
		for _, mt := range mts {
			m.c.Count("kinds_of_macroblock_obligations", 1)
			k := fmt.Sprintf("%d/%d/%d %s %d", m.k.coding, m.k.structure, m.k.framePred, f, mt)
			if !m.seen[k] {
				m.c.Failf("macroblock/rejected", m.c.P.Where(m.a.mb.Pos()), "%s: no macroblock of type %s with motion type %d can be decoded", m.k, f, mt)
			}
		}
	}
}

func init() {
	const technique = "path-sensitive dataflow over go/ssa of the slice and macroblock decoders, per picture class: the events of every path replayed against the standard's syntax; loops by fixpoint"
	register("V14", technique, "", checkMB)
	register("V05", technique+"; predictor cells tracked from slice start to slice end", "", checkMB)
	register("V09", technique+"; reconstructed vectors compared with prediction plus delta modulo the range for every f_code", "", checkMB)
}
