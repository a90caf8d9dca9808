package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// Inverse scan, inverse quantisation, saturation and mismatch control
// (ISO/IEC 13818-2 7.3, 7.4) of one block, for every class of block.

// table 7-1 figure 7-2: position in the coefficient list of [v][u]
var stdScan = [2][64]int64{
	{
		0, 1, 5, 6, 14, 15, 27, 28,
		2, 4, 7, 13, 16, 26, 29, 42,
		3, 8, 12, 17, 25, 30, 41, 43,
		9, 11, 18, 24, 31, 40, 44, 53,
		10, 19, 23, 32, 39, 45, 52, 54,
		20, 22, 33, 38, 46, 51, 55, 60,
		21, 34, 37, 47, 50, 56, 59, 61,
		35, 36, 48, 49, 57, 58, 62, 63,
	},
	{
		0, 4, 6, 20, 22, 36, 38, 52,
		1, 5, 7, 21, 23, 37, 39, 53,
		2, 8, 19, 24, 34, 40, 50, 54,
		3, 9, 18, 25, 35, 41, 51, 55,
		10, 17, 26, 30, 42, 46, 56, 60,
		11, 16, 27, 31, 43, 47, 57, 61,
		12, 15, 28, 32, 44, 48, 58, 62,
		13, 14, 29, 33, 45, 49, 59, 63,
	},
}

// table 7-6
var stdScale = [2][32]int64{
	{0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62},
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20, 22, 24, 28, 32, 36, 40, 44, 48, 52, 56, 64, 72, 80, 88, 96, 104, 112},
}

// 6.3.11
var stdDefaultIntra = [64]int64{
	8, 16, 19, 22, 26, 27, 29, 34,
	16, 16, 22, 24, 27, 29, 34, 37,
	19, 22, 26, 27, 29, 34, 34, 38,
	22, 22, 26, 27, 29, 34, 37, 40,
	22, 26, 27, 29, 32, 35, 40, 48,
	26, 27, 29, 32, 35, 40, 48, 58,
	26, 27, 29, 34, 38, 46, 56, 69,
	27, 29, 35, 38, 46, 56, 69, 83,
}

// blockCfg is one class of blocks.
type blockCfg struct {
	alt, qst, code int64
	intra          bool
	signs          int // sign pattern of the coefficients
	cc, chroma     int64
	precision      int64
	mismatch       int // -1: saturation; otherwise only this coefficient may saturate
}

func (b blockCfg) String() string {
	return fmt.Sprintf("alternate_scan=%d q_scale_type=%d quantiser_scale_code=%d intra=%t component=%d chroma_format=%d intra_dc_precision=%d", b.alt, b.qst, b.code, b.intra, b.cc, b.chroma, b.precision)
}

// signOf is the sign of the n-th coefficient of the list in a pattern.
func (b blockCfg) signOf(n int) int {
	if b.intra {
		return 2 // any
	}
	switch b.signs {
	case 0:
		return 1
	case 1:
		return -1
	case 2:
		return 0
	}
	h := (uint(n)*2654435761 + uint(b.signs)*40503) >> 7
	return int(h%3) - 1
}

// quantArg says which parameters of the dequantiser mean what.
type quantArg struct {
	vs, block, intra, cc, code int
}

// dequantiser is the innermost function of the macroblock decoder that
// uses both the scan order and the quantiser scale.
func (c *Ctx) dequantiser(a *videoAnchors) (*ssa.Function, quantArg) {
	is := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		ar, ok := p.Elem().Underlying().(*types.Array)
		return ok && ar.Len() == 64 && isInt(ar.Elem(), 4)
	}
	pcx := c.fieldVar("video", "PictureCodingExtension", "alternate_scan")
	qst := c.fieldVar("video", "PictureCodingExtension", "q_scale_type")
	var uses func(f *ssa.Function, v *types.Var) bool
	uses = func(f *ssa.Function, v *types.Var) bool {
		for g := range a.g.closure(f) {
			if usesField(g, v) {
				return true
			}
		}
		return false
	}
	below := a.g.closure(a.mb)
	fn := c.One(a.g.innermost(func(f *ssa.Function) bool { return below[f] && uses(f, pcx) && uses(f, qst) }), "the inverse quantiser")
	q := quantArg{-1, -1, -1, -1, -1}
	var ints []int
	for i, p := range fn.Params {
		switch {
		case c.isVS(p.Type()):
			q.vs = i
		case is(p.Type()) && q.block < 0:
			q.block = i
		case types.Identical(p.Type().Underlying(), types.Typ[types.Bool]) && q.intra < 0:
			q.intra = i
		default:
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ints = append(ints, i)
				continue
			}
			c.Anchor("the parameters of " + fn.String())
		}
	}
	if q.vs < 0 || q.block < 0 || q.intra < 0 || len(ints) != 2 {
		c.Anchor("the parameters of " + fn.String())
	}
	// the scale code selects from a table
	e := c.Engine()
	r := c.Prepare(e, fn)
	for j := range r.Args {
		r.Args[j] = NonNil(r.Args[j])
	}
	for _, n := range []string{"SequenceExtension", "PictureCodingExtension"} {
		c.headerObj(r.S, r.Args[q.vs].(ai.Ptr), n)
	}
	for _, i := range ints {
		r.S.AssumeRange(r.Args[i].(*ai.Lin), 1, 2)
	}
	seen := map[int]bool{}
	e.OnLoad = func(s *ai.State, obj int, path string, t types.Type, v ai.Val, pos token.Pos, fn *ssa.Function) {
		if !strings.HasPrefix(s.Obj(obj).Name, "global:") {
			return
		}
		_, idx := e.Comps(path)
		for _, x := range idx {
			for _, i := range ints {
				if x != nil && s.Norm(x).Equal(s.Norm(r.Args[i].(*ai.Lin))) {
					seen[i] = true
				}
			}
		}
	}
	e.Merge = func(f *ssa.Function) ai.MergeMode { return ai.MergeAll }
	e.RootName = fn.String()
	e.Call(r.S, fn, r.Args, nil)
	if seen[ints[0]] == seen[ints[1]] {
		c.Anchor("the quantiser scale parameter of " + fn.String())
	}
	q.code, q.cc = ints[0], ints[1]
	if seen[ints[1]] {
		q.code, q.cc = ints[1], ints[0]
	}
	return fn, q
}

func isInt(t types.Type, size int64) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && types.SizesFor("gc", "amd64").Sizeof(t) == size
}

// fieldVar is a field of a structure, by name.
func (c *Ctx) fieldVar(pkg, typ, name string) *types.Var {
	st, ok := c.Named(pkg, typ).Underlying().(*types.Struct)
	if ok {
		want := fieldName(c.Named(pkg, typ), name)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == want {
				return st.Field(i)
			}
		}
	}
	c.Anchor("field " + typ + "." + name)
	return nil
}

func usesField(f *ssa.Function, v *types.Var) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && st.Field(x.Field) == v {
					return true
				}
			case *ssa.Field:
				if st, ok := x.X.Type().Underlying().(*types.Struct); ok && st.Field(x.Field) == v {
					return true
				}
			}
		}
	}
	return false
}

// matrixField is the path of the four installed matrices within the decoder.
func (c *Ctx) matrixField() (string, types.Type) {
	t := c.Named("video", "VideoSequence")
	st := t.Underlying().(*types.Struct)
	path, ft := "", types.Type(nil)
	for i := 0; i < st.NumFields(); i++ {
		ar, ok := st.Field(i).Type().Underlying().(*types.Array)
		if !ok || ar.Len() != 4 {
			continue
		}
		n := int64(1)
		var e types.Type = ar.Elem()
		for {
			x, ok := e.Underlying().(*types.Array)
			if !ok {
				break
			}
			n *= x.Len()
			e = x.Elem()
		}
		if n == 64 && isInt(e, 1) {
			path, ft = "."+st.Field(i).Name(), st.Field(i).Type()
		}
	}
	if path == "" {
		c.Anchor("the quantisation matrices of the decoder")
	}
	return path, ft
}

// matrixCell is the path of entry k (row by row) of a matrix type.
func matrixCell(t types.Type, k int) (string, types.Type) {
	ar, ok := t.Underlying().(*types.Array)
	if !ok {
		return "", t
	}
	n := 1
	e := ar.Elem()
	for {
		x, ok := e.Underlying().(*types.Array)
		if !ok {
			break
		}
		n *= int(x.Len())
		e = x.Elem()
	}
	p, et := matrixCell(ar.Elem(), k%n)
	return idx(k/n) + p, et
}

// blockRun follows the dequantiser for one class of blocks and reports the
// given kinds of rule.
func (c *Ctx) blockRun(e *ai.Engine, fn *ssa.Function, q quantArg, b blockCfg, kinds string) {
	where := c.P.Where(fn.Pos())
	r := c.Prepare(e, fn)
	for j := range r.Args {
		r.Args[j] = NonNil(r.Args[j])
	}
	s := r.S
	vs := r.Args[q.vs].(ai.Ptr)
	se, set := c.headerObj(s, vs, "SequenceExtension")
	c.setNum(s, se, set, "chroma_format", b.chroma)
	pc, pct := c.headerObj(s, vs, "PictureCodingExtension")
	c.setNum(s, pc, pct, "alternate_scan", b.alt)
	c.setNum(s, pc, pct, "q_scale_type", b.qst)
	c.setNum(s, pc, pct, "intra_dc_precision", b.precision)
	r.Args[q.cc] = ai.Const(b.cc)
	r.Args[q.code] = ai.Const(b.code)
	r.Args[q.intra] = ai.Bool{IsConst: true, V: b.intra}
	// the coefficients
	bp := r.Args[q.block].(ai.Ptr)
	et := bpElem(fn.Params[q.block].Type())
	qf := make([]*ai.Lin, 64) // in raster order
	for k := range qf {
		n := int(stdScan[b.alt][k])
		l, ok := s.Load(bp.Obj, bp.Path+idx(n), et).(*ai.Lin)
		if !ok {
			c.Anchor("the coefficients " + fn.String() + " works on")
		}
		lo, hi := int64(-2048), int64(2047)
		if b.mismatch >= 0 && b.mismatch != k {
			lo, hi = -2, 2
		}
		switch b.signOf(n) {
		case 1:
			lo = 1
		case -1:
			hi = -1
		case 0:
			lo, hi = 0, 0
		}
		s.AssumeRange(l, lo, hi)
		qf[k] = s.Norm(l)
	}
	mpath, mt := c.matrixField()
	var w [4][64]*ai.Lin
	for i := range w {
		for k := range w[i] {
			p, t := matrixCell(mt, i*64+k)
			l, ok := s.Load(vs.Obj, vs.Path+mpath+p, t).(*ai.Lin)
			if !ok {
				c.Anchor("the quantisation matrices of the decoder")
			}
			s.AssumeRange(l, 1, 255)
			w[i][k] = l
		}
	}
	ps := newPolys(s)
	scale := stdScale[b.qst][b.code]
	want := func(slot, k int) poly {
		if b.intra && k == 0 {
			return ps.of(qf[0]).times(konst(1 << uint(3-b.precision)))
		}
		p := ps.of(qf[k]).times(konst(2))
		if !b.intra {
			p = p.plus(konst(int64(b.signOf(int(stdScan[b.alt][k])))), 1)
		}
		return p.times(ps.of(w[slot][k])).times(konst(scale)).div(32, false)
	}
	// which slot: from the class
	chroma := b.cc != 0 && b.chroma != 1
	slot := 0
	if !b.intra {
		slot = 1
	}
	if chroma {
		slot += 2
	}
	wk := make([]string, 64)
	for k := range wk {
		wk[k] = want(slot, k).key()
	}
	mon := e.SymObj("blockrun", types.NewStruct(nil, nil))
	cell := func(k int) string { return ".c" + fmt.Sprint(k) }
	for k := 0; k < 64; k++ {
		s.Store(mon, cell(k), tInt, ai.Const(0))
	}
	get := func(s *ai.State, k int) *ai.Lin {
		l, _ := s.Load(mon, cell(k), tInt).(*ai.Lin)
		return s.Norm(l)
	}
	lastPos := make([]token.Pos, 64)
	lastWhy := make([]string, 64)
	find := func(s *ai.State, k int) *ai.Lin { // the code's own form of the value before saturation
		p := want(slot, k)
		if b.intra && k == 0 {
			return qf[0].Mul(1 << uint(3-b.precision))
		}
		var r *ai.Lin
		if len(p) <= 1 && p[""] != nil || len(p) == 0 {
			v := int64(0)
			if p[""] != nil {
				v = p[""].Int64()
			}
			return ai.Const(v)
		}
		e.EachAtom(func(a *ai.Atom) {
			if r == nil && len(a.Args) == 2 {
				if m := ps.atom(a).ratio(p); m != 0 {
					r = ai.AtomLin(a).Mul(m)
				}
			}
		})
		return r
	}
	xs := make([]*ai.Lin, 64)
	// sat: v is the saturated value of coefficient k
	sat := func(s *ai.State, v *ai.Lin, k int) (bool, string) {
		v = s.Norm(v)
		if v.IsConst() && (v.K == 2047 || v.K == -2048) {
			if xs[k] == nil {
				xs[k] = find(s, k)
			}
			if xs[k] != nil {
				if v.K == 2047 && s.Decide(Ge(xs[k], 2047)) == ai.True || v.K == -2048 && s.Decide(Le(xs[k], -2048)) == ai.True {
					return true, ""
				}
			}
		}
		if newPolysFor(ps, s).of(v).key() != wk[k] {
			if x := find(s, k); v.IsConst() && x != nil && !s.Norm(x).IsConst() {
				return false, fmt.Sprintf("is limited to the wrong value (%d)", v.K)
			}
			return false, fmt.Sprintf("gets a value that is not the standard's (expected %s)", describe(b, k))
		}
		if lo, hi := s.Range(v); lo < -2048 || hi > 2047 {
			return false, fmt.Sprintf("is not limited to -2048..2047 (range %d..%d)", lo, hi)
		}
		return true, ""
	}
	store := func(s *ai.State, k int, v *ai.Lin, pos token.Pos) {
		c.Count("coefficient_obligations", 1)
		v = s.Norm(v)
		put := func(n int64, why string) {
			s.Store(mon, cell(k), tInt, ai.Const(n))
			lastPos[k] = pos
			if n == 0 {
				lastWhy[k] = why
			}
		}
		ok, why := sat(s, v, k)
		if ok {
			put(1, "")
			return
		}
		if k == 63 {
			known := parities(e, s)
			cur, _ := s.Load(bp.Obj, bp.Path+idx(63), et).(*ai.Lin)
			was := func(y *ai.Lin) bool {
				if cur != nil && s.Norm(cur).Equal(s.Norm(y)) && s.Decide(Ge(get(s, 63), 1)) == ai.True {
					return true
				}
				ok, _ := sat(s, y, 63)
				return ok
			}
			for _, y := range toggledFrom(s, known, v) {
				if was(y) {
					put(1, "")
					return
				}
			}
		}
		put(0, why)
	}
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, f *ssa.Function) {
		if obj != bp.Obj || !strings.HasPrefix(path, bp.Path) {
			return
		}
		fields, ix := e.Comps(path[len(bp.Path):])
		if len(ix) != 1 || fields[0] != "" || ix[0] == nil || !s.Norm(ix[0]).IsConst() {
			panic(ai.Unsupported{Msg: "a coefficient at a position that is not known"})
		}
		l, ok := v.(*ai.Lin)
		if !ok {
			panic(ai.Unsupported{Msg: "value of a coefficient"})
		}
		store(s, int(s.Norm(ix[0]).K), l, pos)
	}
	// the sum of a block in which one coefficient saturates is followed exactly
	e.Coalesce = b.mismatch < 0
	e.RootName = fn.String() + " " + b.String()
	outs := e.Call(s, fn, r.Args, nil)
	c.Count("block_classes", 1)
	c.Count("paths", len(outs))
	if len(outs) == 0 {
		c.Failf("vacuous/blocks", where, "no path through %s", fn)
	}
	for _, o := range outs {
		if o.Panicked {
			c.FailAt("block/panic", o, fn, "%s may panic: %s", fn.Name(), o.Why)
			continue
		}
		for k := 0; k < 64; k++ {
			c.Count("coefficient_obligations", 1)
			if o.S.Decide(Eq(get(o.S, k), 1)) != ai.True {
				at := where
				if lastPos[k].IsValid() {
					at = c.P.Where(lastPos[k])
				}
				why := lastWhy[k]
				if why == "" {
					why = "is not stored on some path"
				}
				kind := "value"
				if strings.Contains(why, "limited") {
					kind = "limit"
				}
				if !strings.Contains(kinds, kind) {
					continue
				}
				c.Failf("coefficient/"+kind, at, "%s: coefficient [%d][%d] %s, for %s", fn.Name(), k/8, k%8, why, b)
				break
			}
		}
		if b.mismatch >= 0 && strings.Contains(kinds, "mismatch") {
			c.mismatch(e, o, fn, b, func(k int) *ai.Lin {
				l, _ := o.S.Load(bp.Obj, bp.Path+idx(k), et).(*ai.Lin)
				return o.S.Norm(l)
			}, func(v *ai.Lin) bool { ok, _ := sat(o.S, v, 63); return ok })
		}
	}
}

func newPolysFor(p *polys, s *ai.State) *polys {
	if p.s == s {
		return p
	}
	return newPolys(s)
}

func describe(b blockCfg, k int) string {
	if b.intra && k == 0 {
		return fmt.Sprintf("%d*QF", 1<<uint(3-b.precision))
	}
	if b.intra {
		return fmt.Sprintf("(2*QF*W*%d)/32", stdScale[b.qst][b.code])
	}
	return fmt.Sprintf("((2*QF+Sign(QF))*W*%d)/32", stdScale[b.qst][b.code])
}

// toggledFrom gives the values whose lowest bit is flipped in v.
func toggledFrom(s *ai.State, known *parityFacts, v *ai.Lin) (r []*ai.Lin) {
	v = s.Norm(v)
	for _, d := range []int64{1, -1} {
		y := v.AddK(-d)
		if odd, dec := isOdd(s, known, y); dec && odd == (d == -1) {
			r = append(r, y)
		}
	}
	for _, t := range v.T {
		as := t.A.Args
		switch {
		case t.A.Fn == "^" && t.C == 1 && len(v.T) == 1 && v.K == 0:
			for i := range as {
				if s.Norm(as[1-i]).Is(1) {
					r = append(r, s.Norm(as[i]))
				}
			}
		case (t.A.Fn == "mod" || t.A.Fn == "&") && t.C == -2:
			if y := s.Norm(v.AddMul(ai.AtomLin(t.A), 2).AddK(-1)); s.Norm(as[0]).Equal(y) {
				r = append(r, y)
			}
		}
	}
	return
}

// mismatch: the last coefficient is toggled exactly when the sum is even.
func (c *Ctx) mismatch(e *ai.Engine, o ai.Outcome, fn *ssa.Function, b blockCfg, f func(k int) *ai.Lin, sat func(v *ai.Lin) bool) {
	s := o.S
	known := parities(e, s)
	last := f(63)
	sum := ai.Const(0)
	for k := 0; k < 63; k++ {
		sum = sum.Add(f(k))
	}
	c.Count("mismatch_obligations", 1)
	where := c.P.Where(fn.Pos())
	type form struct {
		y       *ai.Lin
		toggled bool
	}
	var forms []form
	if sat(last) {
		forms = append(forms, form{last, false})
	}
	for _, y := range toggledFrom(s, known, last) {
		if sat(y) {
			forms = append(forms, form{y, true})
		}
	}
	if len(forms) == 0 {
		return // reported as a wrong value
	}
	for _, fm := range forms {
		odd, ok := isOdd(s, known, sum.Add(fm.y))
		if ok && odd == !fm.toggled {
			return
		}
	}
	c.Failf("coefficient/mismatch", where, "%s: the last coefficient is not toggled exactly when the sum of all saturated coefficients is even, for %s", fn.Name(), b)
}

func bpElem(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
}

// blockClasses cover every scan, scale and matrix selection.
func blockClasses() (r []blockCfg) {
	ccs := [][2]int64{{0, 1}, {1, 1}, {2, 1}, {0, 2}, {1, 2}, {2, 3}}
	n := 0
	for round := 0; round < 2; round++ {
		for alt := int64(0); alt < 2; alt++ {
			for sg := 0; sg < 6; sg++ {
				for _, cc := range ccs {
					n++
					r = append(r, blockCfg{alt: alt, qst: int64(n+round) & 1, code: int64(1 + (n/2)%31), intra: sg == 5, signs: sg, cc: cc[0], chroma: cc[1], precision: int64(n) & 3, mismatch: -1})
				}
			}
		}
	}
	// every scale code of both types
	for qst := int64(0); qst < 2; qst++ {
		for code := int64(1); code < 32; code++ {
			seen := false
			for _, b := range r {
				seen = seen || b.qst == qst && b.code == code
			}
			if !seen {
				r = append(r, blockCfg{qst: qst, code: code, intra: code&1 == 0, signs: int(code) % 5, chroma: 1, mismatch: -1})
			}
		}
	}
	for _, k := range []int{0, 9, 62, 63} {
		r = append(r, blockCfg{intra: true, qst: 0, code: 1, chroma: 1, precision: 2, mismatch: k})
		r = append(r, blockCfg{signs: 3, alt: 1, qst: 0, code: 1, chroma: 1, mismatch: k})
	}
	return
}

func (c *Ctx) blockRules(kinds string) {
	a := c.videoAnchors()
	fn, q := c.dequantiser(a)
	bs := blockClasses()
	c.parallelN(len(bs), func(c *Ctx, i int) {
		c.Guard(bs[i].String(), func() { c.blockRun(c.Engine(), fn, q, bs[i], kinds) })
	})
	c.Sample("%s: %d classes of blocks (scan x scale type x scale code x intra x component x chroma format x precision x sign pattern)", fn, len(bs))
}
