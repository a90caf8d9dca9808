package checks

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

const trBits = 10 // temporal references count modulo 1024

// refField is where the decoder keeps its reference pictures.
type refStore struct {
	array         string // path of the array in the decoder
	img, tr, prev string // fields of an element
	imgT, trT     types.Type
	past, future  string
	counter       string
	counterT      types.Type
}

// refStoreOf finds the reference pictures of the decoder by their types: an
// array of pairs of picture, number and flag.
func (c *Ctx) refStoreOf() *refStore {
	t := c.Named("video", "VideoSequence")
	var r *refStore
	var walk func(t types.Type, path string, depth int)
	walk = func(t types.Type, path string, depth int) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || depth > 4 {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			p := path + "." + f.Name()
			if arr, ok := f.Type().Underlying().(*types.Array); ok && arr.Len() == 2 {
				if es, ok := arr.Elem().Underlying().(*types.Struct); ok {
					x := &refStore{array: p}
					for j := 0; j < es.NumFields(); j++ {
						ef := es.Field(j)
						name := "." + ef.Name()
						switch {
						case isImagePtr(ef.Type()):
							x.img, x.imgT = name, ef.Type()
						case isIntVal(ef.Type()):
							x.tr, x.trT = name, ef.Type()
						case isBoolVal(ef.Type()):
							x.prev = name
						}
					}
					if x.img != "" && x.tr != "" && x.prev != "" {
						r = x
					}
				}
			}
			walk(f.Type(), p, depth+1)
		}
	}
	walk(t, "", 0)
	if r == nil {
		c.Anchor("the reference pictures of the decoder")
	}
	for _, x := range []struct {
		name string
		to   *string
	}{{"past", &r.past}, {"future", &r.future}, {"frameCounter", &r.counter}} {
		path, ft := promoted(t, x.name)
		if ft == nil {
			c.Anchor("VideoSequence." + x.name)
		}
		*x.to = path
		if x.name == "frameCounter" {
			r.counterT = ft
		}
	}
	return r
}

func isImagePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isImage(p.Elem())
}

func isBoolVal(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// kinds of a stored reference, as seen from the picture that is decoded next
const (
	refNone     = iota
	refPrevious // of an earlier group
	refBefore   // precedes the picture
	refBeforeW  // precedes it across the wrap of the counter
	refAfter
	refAfterW
)

var refKinds = []string{"none", "previous group", "preceding", "preceding across the wrap", "following", "following across the wrap"}

type refCase struct {
	k    [2]int
	head int // sequence headers read
}

// stepStore is the store in a run of the decoder.
type stepStore struct {
	c   *Ctx
	f   *refStore
	vs  ai.Ptr
	img [2]ai.Ptr
	tr  [2]*ai.Lin
	ctr *ai.Lin
}

func (c *Ctx) newStore(s *ai.State, vs ai.Ptr, k [2]int) *stepStore {
	f := c.refStoreOf()
	x := &stepStore{c: c, f: f, vs: vs}
	base := vs.Path + f.array
	for i := range k {
		p := s.Sym(fmt.Sprintf("reference %d", i), f.imgT).(ai.Ptr)
		p.Nil = ai.Const(0)
		if k[i] == refNone {
			p = ai.Ptr{Nil: ai.Const(1)}
		}
		x.img[i] = p
		s.Store(vs.Obj, base+idx(i)+f.img, f.imgT, p)
		x.tr[i] = x.count(s, base+idx(i)+f.tr, f.trT)
		if k[i] >= 0 {
			s.Store(vs.Obj, base+idx(i)+f.prev, tBool, ai.Bool{IsConst: true, V: k[i] == refPrevious})
		}
	}
	x.ctr = x.count(s, vs.Path+f.counter, f.counterT)
	return x
}

// count is a counter of the standard's width.
func (x *stepStore) count(s *ai.State, path string, t types.Type) *ai.Lin {
	l, ok := s.Load(x.vs.Obj, path, t).(*ai.Lin)
	if !ok || !s.Assume(Ge(l, 0)) || !s.Assume(Le(l, 1<<trBits-1)) {
		x.c.Anchor("a temporal reference")
	}
	return l
}

func samePtr(s *ai.State, v ai.Val, p ai.Ptr) bool {
	q, ok := v.(ai.Ptr)
	if !ok {
		return false
	}
	if p.Nil != nil && s.Decide(Eq(p.Nil, 1)) == ai.True {
		return q.Nil != nil && s.Decide(Eq(q.Nil, 1)) == ai.True
	}
	return q.Obj == p.Obj && q.Path == p.Path && (q.Nil == nil || s.Decide(Eq(q.Nil, 0)) == ai.True)
}

func (x *stepStore) flag(s *ai.State, i int) ai.Tri {
	b, ok := s.Load(x.vs.Obj, x.vs.Path+x.f.array+idx(i)+x.f.prev, tBool).(ai.Bool)
	if !ok {
		return ai.Unknown
	}
	return DecideBool(s, b)
}

// restrict limits a temporal reference to its relation with the reference's.
func (x *stepStore) restrict(s *ai.State, i, k int, cur *ai.Lin) bool {
	const half, full = 1 << (trBits - 1), 1 << trBits
	d := cur.Sub(x.tr[i])
	switch k {
	case refBefore:
		return s.Assume(Ge(d, 1)) && s.Assume(Le(d, half-1))
	case refBeforeW:
		return s.Assume(Le(d, -half-1))
	case refAfter:
		return s.Assume(Le(d, -1)) && s.Assume(Ge(d, -half+1))
	case refAfterW:
		return s.Assume(Ge(d, half+1))
	}
	return true
}

// storeRule runs the decoder over one picture.
func (c *Ctx) storeRule(k refCase) {
	a := c.videoAnchors()
	e := a.e
	v := c.videoElemsOf(a)
	what := fmt.Sprintf("references: %s, %s", refKinds[k.k[0]], refKinds[k.k[1]])
	mon := e.SymObj("display monitor", types.NewStruct(nil, nil))
	for _, f := range c.startCodeScans() {
		c.stubFields(a, f)
	}
	none := func(*ai.State, ssa.CallInstruction, []ai.Val) {}
	var x *stepStore
	c.element(a, v.seqhdr, "a sequence header", none)
	c.element(a, v.seqext, "a sequence extension", none)
	c.element(a, v.eaud, "extensions and user data", none)
	c.element(a, v.pce, "a picture coding extension", none)
	c.element(a, v.gop, "a group of pictures header", none)
	group := e.FnModels[v.gop]
	e.FnModels[v.gop] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		alts := group(e, s, site, args)
		alts[0].S.Store(mon, ".gop", tInt, ai.Const(1))
		return alts
	}
	c.element(a, v.pichdr, "a picture header", none)
	header := e.FnModels[v.pichdr]
	pt := c.Named("video", "PictureHeader")
	e.FnModels[v.pichdr] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		alts := header(e, s, site, args)
		var out []ai.Alt
		for _, alt := range alts {
			tup, ok := alt.V.(ai.Tuple)
			if !ok {
				panic(ai.Unsupported{Msg: "the results of " + v.pichdr.String()})
			}
			p, ok := tup[0].(ai.Ptr)
			if !ok {
				panic(ai.Unsupported{Msg: "the results of " + v.pichdr.String()})
			}
			if p.Nil != nil && alt.S.Decide(Eq(p.Nil, 1)) == ai.True || p.Obj == 0 {
				out = append(out, alt)
				continue
			}
			c.setRange(alt.S, p, pt, "temporal_reference", 0, 1<<trBits-1)
			tr := c.Field(alt.S, p, pt, "temporal_reference").(*ai.Lin)
			kind := c.Field(alt.S, p, pt, "picture_coding_type").(*ai.Lin)
			if !c.mon(alt.S, mon, ".gop").Is(1) && !(x.restrict(alt.S, 0, k.k[0], tr) && x.restrict(alt.S, 1, k.k[1], tr)) {
				continue
			}
			// one alternative for each picture type
			for t := int64(1); t <= 3; t++ {
				s2 := alt.S.Clone()
				if !s2.Assume(Eq(kind, t)) {
					continue
				}
				s2.Store(mon, ".tr", tInt, tr)
				s2.Store(mon, ".type", tInt, ai.Const(t))
				out = append(out, ai.Alt{S: s2, V: alt.V, Panicked: alt.Panicked, Why: alt.Why})
			}
		}
		return out
	}
	seen := 0
	c.element(a, v.picture, "picture data", func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
		seen++
		kind := c.mon(s, mon, ".type")
		at := c.P.Where(site.Pos())
		kinds := k.k
		if c.mon(s, mon, ".gop").Is(1) {
			for i := range kinds {
				if kinds[i] != refNone {
					kinds[i] = refPrevious
				}
			}
		}
		before := func(i int) bool { k := kinds[i]; return k == refPrevious || k == refBefore || k == refBeforeW }
		after := func(i int) bool { k := kinds[i]; return k == refAfter || k == refAfterW }
		for _, d := range []struct {
			name, path string
			ok         func(int) bool
			strict     bool
			used       bool
		}{{"forward", x.f.past, before, true, kind.K > 1}, {"backward", x.f.future, after, false, kind.K == 3}} {
			if !d.used {
				continue
			}
			c.Count("reference_obligations", 1)
			got := s.Load(x.vs.Obj, x.vs.Path+d.path, x.f.imgT)
			if samePtr(s, got, ai.Ptr{Nil: ai.Const(1)}) {
				if d.ok(0) || d.ok(1) {
					c.Failf("reference/missing", at, "%s: a picture has no %s reference (%s)", v.step, d.name, what)
				}
				continue
			}
			hit := -1
			for i := 1; i >= 0; i-- {
				if kinds[i] != refNone && samePtr(s, got, x.img[i]) {
					hit = i
				}
			}
			switch {
			case hit < 0:
				c.Failf("reference/stale", at, "%s: the %s reference of a picture is %s, none of the stored references (%s)", v.step, d.name, ai.ValString(got), what)
			case !d.ok(hit):
				c.Failf("reference/order", at, "%s: the %s reference of a picture is one that is %s (%s)", v.step, d.name, refKinds[kinds[hit]], what)
			case d.strict && hit == 0 && d.ok(1):
				c.Failf("reference/recent", at, "%s: the %s reference of a picture is not the most recent one (%s)", v.step, d.name, what)
			}
		}
	})
	r := c.Prepare(e, v.step)
	i := r.ArgOf(c.isVS)
	if i < 0 {
		c.Anchor("the decoder parameter of " + v.step.String())
	}
	r.Args[i] = NonNil(r.Args[i])
	vs := r.Args[i].(ai.Ptr)
	c.headersRead(r.S, vs, k.head)
	x = c.newStore(r.S, vs, k.k)
	for _, f := range []string{".gop", ".type"} {
		r.S.Store(mon, f, tInt, ai.Const(0))
	}
	e.Merge = nil
	e.Peel, e.Rotate = everyLoop, true
	r.Run()
	types3 := map[int64]bool{}
	for _, o := range r.Outs {
		if o.Panicked {
			c.Count("panicking_paths", 1)
			continue
		}
		s := o.S
		ok := Succeeded(o, r.Fn)
		gop := c.mon(s, mon, ".gop").Is(1)
		kind := c.mon(s, mon, ".type")
		if ok == ai.Unknown {
			c.FailAt("store/undecided", o, r.Fn, "success of the decoder is undecided")
			continue
		}
		// what the store must hold
		img, tr := x.img, x.tr
		prev := [2]int{b2i(gop || k.k[0] == refPrevious), b2i(gop || k.k[1] == refPrevious)}
		shown := k.k
		if ok == ai.True {
			types3[kind.K] = true
			ret, isPtr := o.Vals[0].(ai.Ptr)
			if !isPtr {
				panic(ai.Unsupported{Msg: "the result of " + v.step.String()})
			}
			if kind.Is(1) || kind.Is(2) {
				img = [2]ai.Ptr{img[1], ret}
				tr = [2]*ai.Lin{tr[1], s.Load(mon, ".tr", tInt).(*ai.Lin)}
				prev = [2]int{prev[1], 0}
				shown = [2]int{shown[1], -1}
			}
			c.Count("store_obligations", 1)
			if last := lastStub(s, v.picture); last != nil {
				if !samePtr(s, o.Vals[0], *last) {
					c.FailAt("store/returned", o, r.Fn, "the decoder returns %s, not the picture it decoded", ai.ValString(o.Vals[0]))
				}
			}
		}
		path := vs.Path + x.f.array
		on := fmt.Sprintf("after a picture of type %v, group header: %v (%s)", kind, gop, what)
		if ok != ai.True {
			on = "after an error: " + on
		}
		for i := range img {
			c.Count("store_obligations", 3)
			got := s.Load(vs.Obj, path+idx(i)+x.f.img, x.f.imgT)
			if !samePtr(s, got, img[i]) {
				c.FailAt("store/picture", o, r.Fn, "reference %d is %s, want %s %s", i, ai.ValString(got), ai.ValString(img[i]), on)
				continue
			}
			if shown[i] == refNone || ok != ai.True {
				continue
			}
			l, isLin := s.Load(vs.Obj, path+idx(i)+x.f.tr, x.f.trT).(*ai.Lin)
			if !isLin || s.Decide(EqL(l, tr[i])) != ai.True {
				c.FailAt("store/temporal_reference", o, r.Fn, "the temporal reference of reference %d is %s, want %v %s", i, ai.ValString(l), s.Norm(tr[i]), on)
			}
			want := ai.False
			if prev[i] == 1 {
				want = ai.True
			}
			if x.flag(s, i) != want {
				c.FailAt("store/group", o, r.Fn, "reference %d counts as of an earlier group: %v, want %v %s", i, x.flag(s, i), want == ai.True, on)
			}
		}
		if ok != ai.True {
			continue
		}
		c.Count("counter_obligations", 1)
		want := x.ctr
		if gop {
			want = ai.Const(0)
		}
		l, isLin := s.Load(vs.Obj, vs.Path+x.f.counter, x.f.counterT).(*ai.Lin)
		if !isLin || s.Decide(EqL(l, want)) != ai.True {
			c.FailAt("counter", o, r.Fn, "the frame counter is %s, want %v %s", ai.ValString(l), s.Norm(want), on)
		}
	}
	if seen == 0 || len(types3) != 3 {
		c.Failf("vacuous/pictures", c.P.Where(v.step.Pos()), "%d pictures, types %v (%s)", seen, types3, what)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// lastStub is the first result of the last call of fn on the path.
func lastStub(s *ai.State, fn *ssa.Function) *ai.Ptr {
	var p *ai.Ptr
	for _, ev := range s.Events(nil) {
		if ev.Kind == "stub" && ev.Callee == fn && len(ev.Res) > 0 {
			if q, ok := ev.Res[0].(ai.Ptr); ok {
				p = &q
			}
		}
	}
	return p
}

func (c *Ctx) mon(s *ai.State, mon int, path string) *ai.Lin {
	l, ok := s.Load(mon, path, tInt).(*ai.Lin)
	if !ok {
		return &ai.Lin{}
	}
	return s.Norm(l)
}

// headersRead leaves the decoder with the first n sequence headers read.
func (c *Ctx) headersRead(s *ai.State, vs ai.Ptr, n int) {
	for m, name := range []string{"SequenceHeader", "SequenceExtension"} {
		if m < n {
			c.headerObj(s, vs, name)
			continue
		}
		path, ft := promoted(c.Named("video", "VideoSequence"), name)
		if ft == nil {
			c.Anchor("VideoSequence." + name)
		}
		s.Store(vs.Obj, vs.Path+path, ft, ai.Ptr{Nil: ai.Const(1)})
	}
}

// nextRule runs Next from an arbitrary store.
func (c *Ctx) nextRule() {
	a := c.videoAnchors()
	e := a.e
	v := c.videoElemsOf(a)
	fn := c.Client("videoNext")
	mon := e.SymObj("display monitor", types.NewStruct(nil, nil))
	var x *stepStore
	var vs ai.Ptr
	pt := c.Named("video", "PictureHeader")
	path, ft := promoted(c.Named("video", "VideoSequence"), "PictureHeader")
	if ft == nil {
		c.Anchor("VideoSequence.PictureHeader")
	}
	// the picture decoded last is the one to show
	due := func(s *ai.State) ai.Tri {
		p, ok := s.Load(vs.Obj, vs.Path+path, ft).(ai.Ptr)
		if !ok || p.Obj == 0 {
			return ai.Unknown
		}
		tr, ok := c.Field(s, p, pt, "temporal_reference").(*ai.Lin)
		ctr, ok2 := s.Load(vs.Obj, vs.Path+x.f.counter, x.f.counterT).(*ai.Lin)
		if !ok || !ok2 {
			return ai.Unknown
		}
		return s.Decide(EqL(tr, ctr))
	}
	shown := func(s *ai.State, i int, ctr *ai.Lin) ai.Tri {
		if s.Decide(Eq(x.img[i].Nil, 1)) == ai.True || x.flag(s, i) == ai.True {
			return ai.False
		}
		t := s.Decide(EqL(x.tr[i], ctr))
		if t == ai.True && (s.Decide(Eq(x.img[i].Nil, 0)) != ai.True || x.flag(s, i) != ai.False) {
			return ai.Unknown
		}
		return t
	}
	c.element(a, v.step, "the next picture", func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
		c.Count("next_obligations", 1)
		if c.mon(s, mon, ".n").Is(0) {
			for i := range x.img {
				if shown(s, i, x.ctr) != ai.False {
					c.Failf("next/stored", c.P.Where(site.Pos()), "%s: a picture is decoded although reference %d may be the one to show", site.Parent(), i)
				}
			}
		} else if c.mon(s, mon, ".skip").Is(0) && due(s) != ai.False {
			c.Failf("next/skipped", c.P.Where(site.Pos()), "%s: a picture is decoded although the last one may be the one to show", site.Parent())
		}
	})
	inner := e.FnModels[v.step]
	e.FnModels[v.step] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		alts := inner(e, s, site, args)
		for i, alt := range alts {
			s := alt.S
			alt.S.Store(mon, ".n", tInt, ai.Const(1))
			alt.S.Store(mon, ".skip", tInt, ai.Const(0))
			if i > 0 {
				continue
			}
			// a decoded picture has a header, with counters in their range
			p, ft := c.headerObj(s, vs, "PictureHeader")
			c.setRange(s, p, ft, "temporal_reference", 0, 1<<trBits-1)
			s.Store(mon, ".ctr", tInt, x.count(s, vs.Path+x.f.counter, x.f.counterT))
			if t, ok := alt.V.(ai.Tuple); ok {
				s.Store(mon, ".img", x.f.imgT, t[0])
			}
		}
		return alts
	}
	r := c.Prepare(e, fn)
	r.Args[0] = NonNil(r.Args[0])
	vs = r.Args[0].(ai.Ptr)
	x = c.newStore(r.S, vs, [2]int{-1, -1})
	for i := range x.img {
		p := r.S.Sym(fmt.Sprintf("reference %d", i), x.f.imgT).(ai.Ptr)
		x.img[i] = p
		r.S.Store(vs.Obj, vs.Path+x.f.array+idx(i)+x.f.img, x.f.imgT, p)
	}
	r.S.Store(mon, ".n", tInt, ai.Const(0))
	r.S.Store(mon, ".skip", tInt, ai.Const(0))
	e.Merge = nil
	e.Peel, e.Rotate = everyLoop, true
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if ev.Kind == "loopback" && c.mon(s, mon, ".n").Is(1) && due(s) == ai.False {
			// a loop forgets what it tested
			s.Store(mon, ".skip", tInt, ai.Const(1))
		}
	}
	r.Run()
	kinds := map[string]int{}
	r.Successes(func(o ai.Outcome) {
		s := o.S
		c.Count("next_obligations", 2)
		ctr := x.ctr
		if c.mon(s, mon, ".n").Is(0) {
			kinds["stored"]++
			hit := false
			for i := range x.img {
				p, ok := o.Vals[0].(ai.Ptr)
				hit = hit || ok && p.Obj == x.img[i].Obj && shown(s, i, ctr) == ai.True
			}
			if !hit {
				c.FailAt("next/stored", o, fn, "Next returns %s without decoding, no reference of the current group that is due", ai.ValString(o.Vals[0]))
			}
			for _, ev := range s.Events(nil) {
				if ev.Kind == "consume" {
					c.FailAt("next/consumed", o, fn, "bits are consumed although a stored picture is returned")
				}
			}
		} else {
			kinds["decoded"]++
			ctr, _ = s.Load(mon, ".ctr", tInt).(*ai.Lin)
			p, ok := s.Load(mon, ".img", x.f.imgT).(ai.Ptr)
			if !ok || !samePtr(s, o.Vals[0], p) {
				c.FailAt("next/decoded", o, fn, "Next returns %s, not the picture that was decoded last", ai.ValString(o.Vals[0]))
			}
			hp, ok := s.Load(vs.Obj, vs.Path+path, ft).(ai.Ptr)
			tr, ok2 := c.Field(s, hp, pt, "temporal_reference").(*ai.Lin)
			if !ok || !ok2 || s.Decide(EqL(tr, ctr)) != ai.True {
				c.FailAt("next/due", o, fn, "Next returns a picture whose temporal reference need not be the frame counter")
			}
		}
		// the counter goes on by one, modulo its width
		l, ok := s.Load(vs.Obj, vs.Path+x.f.counter, x.f.counterT).(*ai.Lin)
		if !ok {
			c.FailAt("next/counter", o, fn, "the frame counter is no number")
			return
		}
		for _, wrap := range []bool{false, true} {
			s2 := s.Clone()
			want := ctr.AddK(1)
			if wrap {
				if !s2.Assume(Eq(ctr, 1<<trBits-1)) {
					continue
				}
				want = ai.Const(0)
			} else if !s2.Assume(Le(ctr, 1<<trBits-2)) {
				continue
			}
			if s2.Decide(EqL(plainRemainders(s2, l), want)) != ai.True {
				c.FailAt("next/counter", o, fn, "the frame counter becomes %v, want %v", s2.Norm(l), s2.Norm(want))
			}
		}
	})
	for _, k := range []string{"stored", "decoded"} {
		if kinds[k] == 0 {
			c.Failf("vacuous/"+k, c.P.Where(fn.Pos()), "Next never returns a picture that was %s", k)
		}
	}
}

// plainRemainders replaces remainders by their operands less the known
// multiple of the modulus.
func plainRemainders(s *ai.State, l *ai.Lin) *ai.Lin {
	l = s.Norm(l)
	out := ai.Const(l.K)
	for _, t := range l.T {
		v := ai.AtomLin(t.A)
		if a := t.A; (a.Fn == "mod" || a.Fn == "%" || a.Fn == "&") && len(a.Args) == 2 {
			x, n := plainRemainders(s, a.Args[0]), s.Norm(a.Args[1])
			m := n.K
			if a.Fn == "&" {
				m++
			}
			if lo, hi := s.Range(x); n.IsConst() && m > 0 && m&(m-1) == 0 && (a.Fn == "mod" || lo >= 0) {
				q := lo / m
				if lo < 0 {
					q = -((-lo + m - 1) / m)
				}
				if hi < (q+1)*m {
					v = x.AddK(-q * m)
				}
			}
		}
		out = out.Add(v.Mul(t.C))
	}
	return s.Norm(out)
}

func init() {
	needsHarness["V06"] = true
	register("V06", "typestate by path-sensitive dataflow over go/ssa: the reference store and the frame counter before, during and after one picture, from every state they can be in (inductive step)", "", func(c *Ctx) {
		c.Rule("from every store of at most two references, each of an earlier group or before or after the picture in display order modulo 1024: a picture is decoded with the most recent preceding reference as forward and a following one as backward reference, and none where there is none; after an I or P picture the store holds the later old reference and the picture returned, after a B picture or an error it is unchanged; a group header marks references as of an earlier group and resets the frame counter, nothing else does. Next returns a reference of the current group whose temporal reference is the counter without decoding if there is one, otherwise the first decoded picture that has it, and increments the counter modulo 1024")
		us := []unit{{"next", func(c *Ctx) { c.nextRule() }}}
		for k1 := refNone; k1 <= refAfterW; k1++ {
			for k0 := refNone; k0 <= refAfterW; k0++ {
				if k1 == refNone && k0 != refNone || k1 == refPrevious && k0 > refPrevious {
					continue // new references enter behind, group headers mark both
				}
				k := refCase{[2]int{k0, k1}, 2}
				us = append(us, unit{fmt.Sprintf("store %s, %s", refKinds[k0], refKinds[k1]), func(c *Ctx) { c.storeRule(k) }})
			}
		}
		us = append(us, unit{"fresh", func(c *Ctx) { c.storeRule(refCase{[2]int{refNone, refNone}, 0}) }})
		c.units(us)
	})
}
