package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// The coefficients of one block (ISO/IEC 13818-2 7.2). A monitor follows the
// decoder through its loops: it keeps the position after the last coefficient
// placed, how far the block has been filled, and the coefficient that was
// decoded but not yet stored.

type coefArg struct {
	vs, block, pred, intra, cc, format, stream int
}

func isBlockPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	ar, ok := p.Elem().Underlying().(*types.Array)
	return ok && ar.Len() == 64 && isInt(ar.Elem(), 4)
}

func isPredPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	ar, ok := p.Elem().Underlying().(*types.Array)
	return ok && ar.Len() == 3 && isInt(ar.Elem(), 4)
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// coefArgs says what the parameters of the coefficient decoder mean.
func (c *Ctx) coefArgs(fn *ssa.Function) coefArg {
	q := coefArg{-1, -1, -1, -1, -1, -1, -1}
	var ints []int
	for i, p := range fn.Params {
		switch t := p.Type(); {
		case c.isVS(t) && q.vs < 0:
			q.vs = i
		case isBlockPtr(t) && q.block < 0:
			q.block = i
		case isPredPtr(t) && q.pred < 0:
			q.pred = i
		case types.Identical(t.Underlying(), types.Typ[types.Bool]) && q.intra < 0:
			q.intra = i
		case isIntType(t):
			ints = append(ints, i)
		case isBitReader(t) && q.stream < 0:
			q.stream = i
		default:
			c.Anchor("the parameters of " + fn.String())
		}
	}
	if q.block < 0 || q.pred < 0 || q.intra < 0 || len(ints) < 1 || len(ints) > 2 || q.vs < 0 && (q.stream < 0 || len(ints) < 2) {
		c.Anchor("the parameters of " + fn.String())
	}
	if len(ints) == 1 {
		q.cc = ints[0]
		return q
	}
	// the component selects the predictor
	e := c.Engine()
	e.Endless = true
	r := c.Prepare(e, fn)
	for j := range r.Args {
		r.Args[j] = NonNil(r.Args[j])
	}
	for _, i := range ints {
		r.S.AssumeRange(r.Args[i].(*ai.Lin), 0, 1)
	}
	r.Args[q.intra] = ai.Bool{IsConst: true, V: true}
	pp := r.Args[q.pred].(ai.Ptr)
	hit := map[int]bool{}
	note := func(s *ai.State, obj int, path string) {
		if obj != pp.Obj {
			return
		}
		_, ix := e.Comps(path)
		for _, x := range ix {
			for _, i := range ints {
				if x != nil && s.Norm(x).Equal(s.Norm(r.Args[i].(*ai.Lin))) {
					hit[i] = true
				}
			}
		}
	}
	e.OnLoad = func(s *ai.State, obj int, path string, t types.Type, v ai.Val, pos token.Pos, fn *ssa.Function) {
		note(s, obj, path)
	}
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) { note(s, obj, path) }
	// only the accesses count, so that values may be forgotten where paths meet
	e.Merge = func(f *ssa.Function) ai.MergeMode { return ai.MergeAll }
	e.NoUnroll = everyLoop
	e.RootName = fn.String()
	e.Call(r.S, fn, r.Args, nil)
	if hit[ints[0]] == hit[ints[1]] {
		c.Anchor("the component parameter of " + fn.String())
	}
	q.cc, q.format = ints[0], ints[1]
	if hit[ints[1]] {
		q.cc, q.format = ints[1], ints[0]
	}
	return q
}

type coefCfg struct {
	intra  bool
	format int64
	cc     int
	size   int64 // dct_dc_size
}

func (k coefCfg) String() string {
	if k.intra {
		return fmt.Sprintf("intra block, intra_vlc_format %d, component %d, dct_dc_size %d", k.format, k.cc, k.size)
	}
	return fmt.Sprintf("non-intra block, intra_vlc_format %d, component %d", k.format, k.cc)
}

// decodedCoef is the run and level, or the end of the block, a code stands for.
func (c *Ctx) decodedCoef(a *videoAnchors, e *ai.Engine, s *ai.State, ev *ai.Event) (run, level, sign, next *ai.Lin, end, ok bool) {
	eob, esc := dctTypes(a.tables)
	f, isf := ev.Val.(ai.Iface)
	if !isf || f.Dyn == nil {
		return
	}
	p := s.Norm(ev.To)
	switch dyn := f.Dyn.String(); {
	case eob[dyn]:
		return nil, nil, nil, p, true, true
	case esc[dyn]:
		level = e.Bits(ev.Stream, ev.Epoch, p.AddK(6), 12).AddMul(ai.AtomLin(e.Bit(ev.Stream, ev.Epoch, p.AddK(6))), -4096)
		return e.Bits(ev.Stream, ev.Epoch, p, 6), level, ai.Const(0), p.AddK(18), false, true
	}
	g, isg := f.V.(*ai.Agg)
	if !isg {
		return
	}
	st, iss := g.T.Underlying().(*types.Struct)
	if !iss {
		return
	}
	var ns []*ai.Lin
	for i := 0; i < st.NumFields(); i++ {
		if l, isl := s.AggGet(g, "."+st.Field(i).Name(), st.Field(i).Type()).(*ai.Lin); isl {
			ns = append(ns, l)
		}
	}
	if len(ns) != 2 {
		return
	}
	return ns[0], ns[1], ai.AtomLin(e.Bit(ev.Stream, ev.Epoch, p)), p.AddK(1), false, true
}

// blockMon is the monitor.
type blockMon struct {
	c       *Ctx
	a       *videoAnchors
	e       *ai.Engine
	k       coefCfg
	obj     int
	bp      ai.Ptr
	dc      *ai.Lin // predictor
	checked int
}

func (m *blockMon) get(s *ai.State, n string) *ai.Lin {
	l, ok := s.Load(m.obj, "."+n, tInt).(*ai.Lin)
	if !ok {
		panic(ai.Unsupported{Msg: "monitor"})
	}
	return s.Norm(l)
}

func (m *blockMon) put(s *ai.State, n string, l *ai.Lin) { s.Store(m.obj, "."+n, tInt, s.Norm(l)) }

func (m *blockMon) pending(s *ai.State, run, level, sign, next *ai.Lin) {
	m.put(s, "pend", ai.Const(1))
	m.put(s, "run", run)
	m.put(s, "level", level)
	m.put(s, "sign", sign)
	m.put(s, "bits", next)
}

func (m *blockMon) must(s *ai.State, f *ssa.Function, pos token.Pos, what string, c ai.Cmp) {
	m.checked++
	m.e.Oblige(s, f, pos, "mon:"+what, "", c)
}

const (
	monDC = iota
	monAC
	monEnd
)

func (m *blockMon) event(s *ai.State, ev *ai.Event) {
	if ev.Kind == "clear" && ev.Obj == m.bp.Obj {
		n, w := m.get(s, "n"), m.get(s, "w")
		m.must(s, ev.Fn, ev.Pos, "a coefficient that was already placed is overwritten", ai.Cmp{Op: ai.LE, L: n.Sub(ev.DstLo)})
		end := s.Norm(ev.DstLo.Add(ev.Count))
		if s.Decide(GeL(w, ev.DstLo)) == ai.True && s.Decide(GeL(end, w)) == ai.True {
			m.put(s, "w", end)
		}
		return
	}
	if ev.Kind != "vlc" {
		return
	}
	never := ai.Cmp{Op: ai.EQ, L: ai.Const(1)}
	role := m.a.roles[ev.Obj]
	phase := m.get(s, "phase")
	m.must(s, ev.Fn, ev.Pos, "a coefficient is still to be stored when the next code is read", Eq(m.get(s, "pend"), 0))
	m.must(s, ev.Fn, ev.Pos, "a code is not read directly after the previous one", EqL(ev.From, m.get(s, "bits")))
	switch {
	case phase.Is(monDC):
		want := "dcluma"
		if m.k.cc > 0 {
			want = "dcchroma"
		}
		if role != want {
			m.must(s, ev.Fn, ev.Pos, "the DC size is not read with the table of its component", never)
			return
		}
		f, ok := ev.Val.(ai.Iface)
		size, ok2 := f.V.(*ai.Lin)
		if !ok || !ok2 {
			m.must(s, ev.Fn, ev.Pos, "the DC size is no number", never)
			return
		}
		s.AssumeRange(size, m.k.size, m.k.size)
		p := s.Norm(ev.To)
		d := ai.Const(0)
		if n := m.k.size; n > 0 {
			top := int64(1)<<uint(n) - 1
			d = m.e.Bits(ev.Stream, ev.Epoch, p, int(n)).AddK(-top).AddMul(ai.AtomLin(m.e.Bit(ev.Stream, ev.Epoch, p)), top)
		}
		m.pending(s, ai.Const(0), m.dc.Add(d), ai.Const(0), p.AddK(m.k.size))
		m.put(s, "phase", ai.Const(monAC))
	case phase.Is(monAC):
		table, pos := "0", ""
		if m.k.intra && m.k.format == 1 {
			table = "1"
		}
		switch s.Decide(Eq(m.get(s, "n"), 0)) {
		case ai.True:
			pos = "first"
		case ai.False:
			pos = "next"
		}
		if pos == "" {
			m.must(s, ev.Fn, ev.Pos, "it is not clear whether this is the first coefficient", never)
			pos = "next"
		}
		want := "dct" + table + pos
		if role != want && !(table == "1" && (role == "dct1first" || role == "dct1next")) {
			m.must(s, ev.Fn, ev.Pos, fmt.Sprintf("a coefficient is read with table %s instead of %s", role, want), never)
			return
		}
		run, level, sign, next, end, ok := m.c.decodedCoef(m.a, m.e, s, ev)
		if !ok {
			m.must(s, ev.Fn, ev.Pos, "the value of a coefficient's code is not known", never)
			return
		}
		if end {
			m.put(s, "phase", ai.Const(monEnd))
			m.put(s, "bits", next)
			return
		}
		m.pending(s, run, level, sign, next)
	default:
		m.must(s, ev.Fn, ev.Pos, "a code is read after the end of the block", never)
	}
}

func (m *blockMon) store(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, f *ssa.Function) {
	if obj != m.bp.Obj || !strings.HasPrefix(path, m.bp.Path) {
		return
	}
	rest := path[len(m.bp.Path):]
	n, w := m.get(s, "n"), m.get(s, "w")
	if rest == "" {
		g, ok := v.(*ai.Agg)
		if !ok {
			panic(ai.Unsupported{Msg: "value of a block"})
		}
		m.must(s, f, pos, "the block is cleared after coefficients were placed", Eq(n, 0))
		et := types.Typ[types.Int32]
		for i := 0; i < 64; i++ {
			l, ok := s.AggGet(g, idx(i), et).(*ai.Lin)
			if !ok {
				panic(ai.Unsupported{Msg: "value of a block"})
			}
			m.must(s, f, pos, "the block is filled with something other than zero", Eq(l, 0))
		}
		m.put(s, "w", ai.Const(64))
		return
	}
	_, ix := m.e.Comps(rest)
	l, ok := v.(*ai.Lin)
	if len(ix) != 1 || ix[0] == nil || !ok {
		panic(ai.Unsupported{Msg: "a coefficient at a position that is not known"})
	}
	i := s.Norm(ix[0])
	l = s.Norm(l)
	if s.Decide(EqL(i, w)) == ai.True {
		m.put(s, "w", i.AddK(1))
	}
	if m.get(s, "pend").Is(1) {
		at := s.Norm(n.Add(m.get(s, "run")))
		if s.Decide(EqL(i, at)) == ai.True {
			if m.isLevel(s, l, ai.EQ) {
				m.put(s, "n", i.AddK(1))
				m.put(s, "pend", ai.Const(0))
				m.put(s, "run", ai.Const(0))
				m.put(s, "level", ai.Const(0))
				m.put(s, "sign", ai.Const(0))
			}
			return
		}
	}
	m.must(s, f, pos, "a coefficient that was already placed is overwritten, or a coefficient is placed at the wrong position", ai.Cmp{Op: ai.LE, L: n.Sub(i)})
	m.must(s, f, pos, "something other than zero is stored between the coefficients, or a coefficient is placed at the wrong position", Eq(l, 0))
}

// isLevel says whether l is the value of the coefficient to be stored.
func (m *blockMon) isLevel(s *ai.State, l *ai.Lin, op ai.CmpOp) bool {
	mag, sg := m.get(s, "level"), m.get(s, "sign")
	for b := int64(0); b < 2; b++ {
		t := s.Clone()
		if t.Assume(Eq(sg, b)) && t.Decide(ai.Cmp{Op: op, L: l.Sub(mag.Mul(1 - 2*b))}) != ai.True {
			return false
		}
	}
	return true
}

func checkV15(c *Ctx) {
	c.Rule("for every kind of block, a monitor carried through the decoder's loops shows that: the DC size is read with the component's table and the first element is the component's predictor plus the sign-extended differential, which becomes the new predictor; the other codes follow each other directly, each read with the table for its position; each coefficient is stored after exactly its run, with its sign or escape level, and the elements skipped and after the last coefficient are zero; the block is complete at its end; an error is only returned, and is always returned, when a run leaves the block; no index leaves the block")
	a := c.videoAnchors()
	fn := a.blockRead
	q := c.coefArgs(fn)
	var ks []coefCfg
	for f := int64(0); f < 2; f++ {
		for cc := 0; cc < 3; cc++ {
			ks = append(ks, coefCfg{format: f, cc: cc})
			for n := int64(0); n <= 11; n++ {
				ks = append(ks, coefCfg{intra: true, format: f, cc: cc, size: n})
			}
		}
	}
	c.parallelN(len(ks), func(c *Ctx, i int) {
		c.Guard(ks[i].String(), func() { c.coefRun(fn.String(), q, ks[i]) })
	})
	c.Sample("%s: %d classes of blocks (intra x intra_vlc_format x component x dct_dc_size)", fn, len(ks))
}

func (c *Ctx) coefRun(name string, q coefArg, k coefCfg) {
	a := c.videoAnchors()
	e, fn := a.e, a.blockRead
	e.Endless = true
	where := c.P.Where(fn.Pos())
	r := c.Prepare(e, fn)
	for j := range r.Args {
		r.Args[j] = NonNil(r.Args[j])
	}
	s := r.S
	if q.vs >= 0 {
		pc, pct := c.headerObj(s, r.Args[q.vs].(ai.Ptr), "PictureCodingExtension")
		c.setNum(s, pc, pct, "intra_vlc_format", k.format)
	}
	if q.format >= 0 {
		r.Args[q.format] = ai.Const(k.format)
	}
	r.Args[q.cc] = ai.Const(int64(k.cc))
	r.Args[q.intra] = ai.Bool{IsConst: true, V: k.intra}
	stream := -1
	if q.stream >= 0 {
		stream = e.StreamOfVal(s, r.Args[q.stream])
	}
	if stream < 0 {
		stream = r.StreamOf()
	}
	bp, pp := r.Args[q.block].(ai.Ptr), r.Args[q.pred].(ai.Ptr)
	pt := bpElem(fn.Params[q.pred].Type())
	var pred [3]*ai.Lin
	for i := range pred {
		l, ok := s.Load(pp.Obj, pp.Path+idx(i), pt).(*ai.Lin)
		if !ok {
			c.Anchor("the DC predictors")
		}
		s.AssumeRange(l, -1<<20, 1<<20)
		pred[i] = s.Norm(l)
	}
	m := &blockMon{c: c, a: a, e: e, k: k, bp: bp, dc: pred[k.cc]}
	m.obj = e.SymObj("monitor of "+fn.Name(), types.NewStruct(nil, nil))
	for _, n := range []string{"n", "w", "pend", "run", "level", "sign"} {
		m.put(s, n, ai.Const(0))
	}
	start := s.Stream(stream).Pos
	m.put(s, "bits", start)
	m.put(s, "phase", ai.Const(monAC))
	if k.intra {
		m.put(s, "phase", ai.Const(monDC))
	}
	e.OnEvent = m.event
	e.OnStore = m.store
	e.Rotate, e.Peel = true, everyLoop
	e.Peel = everyLoop
	e.RootName = fn.String() + " " + k.String()
	outs := e.Call(s, fn, r.Args, nil)
	c.Count("block_classes", 1)
	c.Count("paths", len(outs))
	c.Count("monitor_obligations", m.checked)
	ok, bad := 0, 0
	for _, o := range outs {
		if o.Panicked {
			c.FailAt("panic", o, fn, "%s may panic: %s (%s)", fn.Name(), o.Why, k)
			continue
		}
		s := o.S
		if Succeeded(o, fn) == ai.False {
			bad++
			at := m.get(s, "n").Add(m.get(s, "run"))
			if m.get(s, "pend").Is(1) && (s.Decide(Ge(at, 64)) == ai.True || m.isLevel(s, ai.Const(0), ai.EQ) || m.isLevel(s, ai.Const(-2048), ai.EQ)) {
				continue
			}
			c.FailAt("error", o, fn, "%s may report an error for a block whose coefficients all fit (%s)", fn.Name(), k)
			continue
		}
		ok++
		c.Count("result_obligations", 6)
		if !m.get(s, "phase").Is(monEnd) {
			c.FailAt("end", o, fn, "%s may succeed without having read the end of the block (%s)", fn.Name(), k)
			continue
		}
		if s.Decide(Eq(m.get(s, "pend"), 0)) != ai.True {
			c.FailAt("pending", o, fn, "%s may succeed without having stored a coefficient it decoded (%s)", fn.Name(), k)
		}
		if s.Decide(EqL(s.Stream(stream).Pos, m.get(s, "bits"))) != ai.True || s.Stream(stream).Epoch != r.S.Stream(stream).Epoch {
			c.FailAt("position", o, fn, "%s does not stop directly after the end of the block (%s)", fn.Name(), k)
		}
		if s.Decide(Eq(m.get(s, "w"), 64)) != ai.True {
			c.FailAt("rest", o, fn, "the elements after the last coefficient are not all set to zero by %s (%s)", fn.Name(), k)
		}
		for i := range pred {
			l, isl := s.Load(pp.Obj, pp.Path+idx(i), pt).(*ai.Lin)
			want := pred[i]
			if k.intra && i == k.cc {
				want = m.dc.Add(c.differential(e, o, fn, k))
			}
			if !isl || s.Decide(EqL(l, want)) != ai.True {
				c.FailAt("predictor", o, fn, "%s leaves a wrong predictor for component %d (%s)", fn.Name(), i, k)
			}
		}
	}
	if ok == 0 {
		c.Failf("vacuous/success", where, "%s has no successful path (%s)", fn, k)
	}
	c.Count("success_paths", ok)
	c.Count("error_paths", bad)
	below := a.g.closure(fn)
	for key, ob := range e.Obls {
		switch {
		case strings.HasPrefix(key.Kind, "mon:"):
			if ob.Failed {
				c.Failf("monitor/"+key.Kind[4:], c.P.Where(key.Pos), "%s: %s (%s): %s", key.Fn.Name(), key.Kind[4:], k, ob.Why)
			}
		case (key.Kind == "index" || key.Kind == "slice") && below[key.Fn]:
			c.Count("index_obligations", 1)
			if ob.Failed {
				c.Failf("index", c.P.Where(key.Pos), "%s: an index may leave the block: %s (%s)", key.Fn.Name(), ob.Why, k)
			}
		}
	}
}

// differential recomputes the DC differential from the first code of a path.
func (c *Ctx) differential(e *ai.Engine, o ai.Outcome, fn *ssa.Function, k coefCfg) *ai.Lin {
	for _, ev := range o.S.Events(nil) {
		if ev.Kind != "vlc" {
			continue
		}
		p := o.S.Norm(ev.To)
		if n := k.size; n > 0 {
			top := int64(1)<<uint(n) - 1
			return e.Bits(ev.Stream, ev.Epoch, p, int(n)).AddK(-top).AddMul(ai.AtomLin(e.Bit(ev.Stream, ev.Epoch, p)), top)
		}
		break
	}
	return ai.Const(0)
}

func init() {
	register("V15", "path-sensitive abstract interpretation of the coefficient decoder with a monitor automaton carried through loop fixpoints", "", checkV15)
}
