package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// videoElems are the functions that read the elements of a sequence.
type videoElems struct {
	seqhdr, seqext, gop, pichdr, pce, eaud, picture, step *ssa.Function
}

func (c *Ctx) videoElemsOf(a *videoAnchors) *videoElems {
	v := &videoElems{
		seqhdr:  c.parserOf("video", "SequenceHeader"),
		seqext:  c.parserOf("video", "SequenceExtension"),
		gop:     c.parserOf("video", "GroupOfPicturesHeader"),
		pichdr:  c.parserOf("video", "PictureHeader"),
		pce:     c.parserOf("video", "PictureCodingExtension"),
		picture: a.picture,
	}
	below := func(f *ssa.Function, hs ...*ssa.Function) bool {
		cl := a.g.closure(f)
		for _, h := range hs {
			if !cl[h] {
				return false
			}
		}
		return true
	}
	none := func(f *ssa.Function, hs ...*ssa.Function) bool {
		cl := a.g.closure(f)
		for _, h := range hs {
			if cl[h] {
				return false
			}
		}
		return true
	}
	v.eaud = c.One(a.g.outermost(func(f *ssa.Function) bool {
		return below(f, c.parserOf("video", "SequenceDisplayExtension")) && none(f, a.picture, v.seqhdr, v.seqext, v.gop, v.pichdr, v.pce)
	}), "the extension and user data reader")
	v.step = c.One(a.g.innermost(func(f *ssa.Function) bool { return below(f, v.seqhdr, v.gop, a.picture) }), "the function that decodes the next picture")
	return v
}

// element stubs a function by its contract; see is told where it is called.
func (c *Ctx) element(a *videoAnchors, fn *ssa.Function, name string, see func(s *ai.State, site ssa.CallInstruction, args []ai.Val)) {
	if len(fn.Params) > 0 && c.isVS(fn.Params[0].Type()) {
		c.stubFields(a, fn)
	} else {
		c.contract(a.e, fn)
	}
	c.watch(a, fn, see)
}

// watch calls see before the model of a function.
func (c *Ctx) watch(a *videoAnchors, fn *ssa.Function, see func(s *ai.State, site ssa.CallInstruction, args []ai.Val)) {
	inner := a.e.FnModels[fn]
	a.e.FnModels[fn] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		see(s, site, args)
		return inner(e, s, site, args)
	}
}

// grammar follows the elements of a path through an automaton.
type grammar struct {
	c    *Ctx
	e    *ai.Engine
	mon  int
	strm int
	pre  string
}

func (c *Ctx) newGrammar(e *ai.Engine, pre string) *grammar {
	return &grammar{c: c, e: e, mon: e.SymObj("syntax monitor", types.NewStruct(nil, nil)), pre: pre}
}

func (g *grammar) state(s *ai.State) int64 {
	l, ok := s.Load(g.mon, ".st", tInt).(*ai.Lin)
	if !ok || !s.Norm(l).IsConst() {
		return -1
	}
	return s.Norm(l).K
}

func (g *grammar) set(s *ai.State, n int64) { s.Store(g.mon, ".st", tInt, ai.Const(n)) }

// next is the value of the next bits of the stream.
func (g *grammar) next(s *ai.State, n int) *ai.Lin {
	x := s.Stream(g.strm)
	return s.Norm(g.e.Bits(g.strm, x.Epoch, x.Pos, n))
}

func (g *grammar) fail(site ssa.Instruction, key, format string, args ...any) {
	where, fn := "-", ""
	if site != nil {
		where, fn = g.c.P.Where(site.Pos()), site.Parent().String()+": "
	}
	g.c.Failf(g.pre+key, where, "%s%s", fn, fmt.Sprintf(format, args...))
}

const (
	codePicture  = 0x100
	codeUserData = 0x1B2
	codeSeqHdr   = 0x1B3
	codeExt      = 0x1B5
	codeSeqEnd   = 0x1B7
	codeGroup    = 0x1B8
)

var (
	isCode  = func(s *ai.State, l *ai.Lin, v int64) bool { return s.Decide(Eq(l, v)) == ai.True }
	notCode = func(s *ai.State, l *ai.Lin, v int64) bool { return s.Decide(Eq(l, v)) == ai.False }
)

func notSlice(s *ai.State, l *ai.Lin) bool {
	return s.Decide(Le(l, 0x100)) == ai.True || s.Decide(Ge(l, 0x1B0)) == ai.True
}

func isSlice(s *ai.State, l *ai.Lin) bool {
	return s.Decide(Ge(l, 0x101)) == ai.True && s.Decide(Le(l, 0x1AF)) == ai.True
}

// the states of the sequence automaton
const (
	qFresh = iota
	qRefused
	qHeader   // after a sequence header
	qAfterExt // extensions and user data 0
	qPictures // a group or a picture
	qGroup    // extensions and user data 1
	qPicture  // a picture header
	qCoding   // a picture coding extension
	qPicExt   // extensions and user data 2
	qData     // picture data
	qDone
	qResumed
	qRepeated // after a repeated sequence header
	qEnd
)

var stateNames = []string{"the start of a stream", "a refused stream", "a sequence header", "a sequence extension", "the extensions and user data of a sequence", "a group of pictures header", "the user data of a group", "a picture header", "a picture coding extension", "the extensions and user data of a picture", "picture data", "a picture", "a repeated sequence header", "a sequence end code"}

func stateName(q int64) string {
	if q < 0 || int(q) >= len(stateNames) {
		return "an unknown point"
	}
	return stateNames[q]
}

func (c *Ctx) sequenceSyntax(fresh int) {
	a := c.videoAnchors()
	e := a.e
	v := c.videoElemsOf(a)
	g := c.newGrammar(e, "sequence/")
	for _, f := range c.setters(a) {
		c.stubMods(a, f)
	}
	for _, f := range c.startCodeScans() {
		c.stubFields(a, f)
	}
	elem := func(fn *ssa.Function, name string, step func(s *ai.State, q int64, next *ai.Lin, args []ai.Val) int64) {
		c.element(a, fn, name, func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
			c.Count("element_obligations", 1)
			q := g.state(s)
			to := step(s, q, g.next(s, 32), args)
			if to < 0 {
				g.fail(site, name, "%s is read after %s (next bits: %v)", name, stateName(q), g.next(s, 32))
				to = 0
			}
			g.set(s, to)
		})
	}
	at := func(q int64, to int64, qs ...int64) int64 {
		for _, x := range qs {
			if q == x {
				return to
			}
		}
		return -1
	}
	// how a decoder that has read headers goes on
	other := func(s *ai.State, l *ai.Lin) bool {
		return notCode(s, l, codePicture) && notCode(s, l, codeGroup) && notCode(s, l, codeSeqEnd)
	}
	elem(v.seqhdr, "a sequence header", func(s *ai.State, q int64, next *ai.Lin, _ []ai.Val) int64 {
		if q == qResumed {
			if !other(s, next) {
				return -1
			}
			return qRepeated
		}
		return at(q, qHeader, qFresh)
	})
	elem(v.seqext, "a sequence extension", func(s *ai.State, q int64, next *ai.Lin, _ []ai.Val) int64 {
		if q == qHeader && !isCode(s, next, codeExt) {
			g.fail(nil, "MPEG-1", "%s: a sequence extension is read where the next start code need not be one: a stream without it is not refused as unsupported", v.step)
		}
		return at(q, qAfterExt, qHeader, qRepeated)
	})
	elem(v.eaud, "extensions and user data", func(s *ai.State, q int64, next *ai.Lin, args []ai.Val) int64 {
		k := int64(-1)
		for _, x := range args {
			if l, ok := x.(*ai.Lin); ok && s.Norm(l).IsConst() {
				k = s.Norm(l).K
			}
		}
		switch k {
		case 0:
			return at(q, qPictures, qAfterExt)
		case 1:
			return at(q, qPicture, qGroup)
		case 2:
			return at(q, qData, qPicExt)
		}
		return -1
	})
	elem(v.gop, "a group of pictures header", func(s *ai.State, q int64, next *ai.Lin, _ []ai.Val) int64 {
		if !isCode(s, next, codeGroup) {
			return -1
		}
		return at(q, qGroup, qPictures, qResumed)
	})
	elem(v.pichdr, "a picture header", func(s *ai.State, q int64, next *ai.Lin, _ []ai.Val) int64 {
		switch q {
		case qPictures:
			if !notCode(s, next, codeGroup) {
				return -1
			}
		case qResumed:
			if !isCode(s, next, codePicture) {
				return -1
			}
		}
		return at(q, qCoding, qPictures, qResumed, qPicture)
	})
	elem(v.pce, "a picture coding extension", func(s *ai.State, q int64, next *ai.Lin, _ []ai.Val) int64 {
		return at(q, qPicExt, qCoding)
	})
	elem(v.picture, "picture data", func(s *ai.State, q int64, next *ai.Lin, _ []ai.Val) int64 {
		return at(q, qDone, qData)
	})
	r := c.Prepare(e, v.step)
	i := r.ArgOf(c.isVS)
	if i < 0 {
		c.Anchor("the decoder parameter of " + v.step.String())
	}
	r.Args[i] = NonNil(r.Args[i])
	vs := r.Args[i].(ai.Ptr)
	for n, name := range []string{"SequenceHeader", "SequenceExtension"} {
		path, ft := promoted(c.Named("video", "VideoSequence"), name)
		if ft == nil {
			c.Anchor("VideoSequence." + name)
		}
		if fresh > n {
			c.headerObj(r.S, vs, name)
			continue
		}
		r.S.Store(vs.Obj, vs.Path+path, ft, ai.Ptr{Nil: ai.Const(1)})
	}
	g.strm = r.StreamOf()
	start := int64(qFresh)
	if fresh == 2 {
		start = qResumed
	}
	g.set(r.S, start)
	e.Merge = nil
	e.Peel, e.Rotate = everyLoop, true
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if ev.Kind != "consume" || ev.Stream != g.strm {
			return
		}
		c.Count("element_obligations", 1)
		q := g.state(s)
		n := s.Norm(ev.To.Sub(ev.From))
		if n.Is(0) {
			return
		}
		l := e.Bits(g.strm, s.Stream(g.strm).Epoch, ev.From, 32)
		if q != qResumed || !n.Is(32) || !isCode(s, l, codeSeqEnd) {
			c.Failf(g.pre+"skipped", c.P.Where(ev.Pos), "%s: %v bits are consumed after %s that are no element of the syntax", ev.Fn, n, stateName(q))
		}
		g.set(s, qEnd)
	}
	r.Run()
	g.outcomes(r, start)
}

// outcomes judges how the paths of the sequence automaton end.
func (g *grammar) outcomes(r *Root, start int64) {
	c, e := g.c, g.e
	ends := map[int64]bool{}
	for _, o := range r.Outs {
		c.Count("path_obligations", 1)
		if o.Panicked {
			c.Count("panicking_paths", 1)
			continue
		}
		q := g.state(o.S)
		if Succeeded(o, r.Fn) == ai.True {
			ends[q] = true
			if q != qDone {
				c.FailAt(g.pre+"incomplete", o, r.Fn, "succeeds after %s", stateName(q))
			}
			continue
		}
		v, _ := o.Vals[ErrIdx(r.Fn)].(ai.Iface)
		ev, _ := v.V.(*ai.ErrVal)
		kind := func(name string) bool {
			return ev != nil && o.S.Decide(Eq(ev.Kind, e.ErrKind("video."+name))) == ai.True
		}
		if len(o.S.Pend) > 0 {
			continue
		}
		switch {
		case q == qEnd:
			ends[q] = true
			if !kind("EOS") {
				c.FailAt(g.pre+"end", o, r.Fn, "yields %s at a sequence end code, want EOS", ai.ValString(v))
			}
		case q == qHeader && notCode(o.S, g.next(o.S, 32), codeExt):
			ends[qRefused] = true
			if !kind("ErrUnsupportedVideoStream_ISO_IEC_11172_2") {
				c.FailAt(g.pre+"MPEG-1", o, r.Fn, "yields %s for a stream without sequence extension", ai.ValString(v))
			}
		default:
			c.FailAt(g.pre+"refused", o, r.Fn, "yields %s after %s although nothing failed (next bits: %v)", ai.ValString(v), stateName(q), g.next(o.S, 32))
		}
	}
	want := []int64{qDone, qRefused}
	if start == qResumed {
		want[1] = qEnd
	}
	for _, q := range want {
		c.Count("reachable_obligations", 1)
		if !ends[q] {
			c.Failf(g.pre+"unreachable", c.P.Where(r.Fn.Pos()), "%s never ends with %s", r.Fn, stateName(q))
		}
	}
}

// extensionSyntax checks the extensions and user data that follow a header of
// kind k.
func (c *Ctx) extensionSyntax(k int64) {
	a := c.videoAnchors()
	e := a.e
	v := c.videoElemsOf(a)
	g := c.newGrammar(e, "extensions/")
	ids := map[*ssa.Function]int64{
		c.parserOf("video", "SequenceDisplayExtension"):  2,
		c.parserOf("video", "SequenceScalableExtension"): 5,
	}
	for f := range a.g.closure(v.eaud) {
		if f.Signature.Results().Len() == 2 {
			if pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && strings.Contains(n.Obj().Name(), "TemporalScalable") {
					ids[f] = 10
				}
			}
		}
	}
	matrix := c.One(a.g.outermost(func(f *ssa.Function) bool {
		if !a.g.closure(v.eaud)[f] || !a.g.reads[f] {
			return false
		}
		st := storedFields(a.g.closure(f), c.Named("video", "VideoSequence"))
		for h := range ids {
			if a.g.closure(f)[h] {
				return false // one that dispatches
			}
		}
		return f != v.eaud && len(st) > 0 && !a.g.closure(f)[c.parserOf("video", "SequenceDisplayExtension")]
	}), "the quant matrix extension reader")
	ids[matrix] = 3
	user := c.One(a.g.innermost(func(f *ssa.Function) bool {
		if !a.g.closure(v.eaud)[f] || !a.g.reads[f] {
			return false
		}
		rs := f.Signature.Results()
		n, ok := types.Type(nil), false
		if rs.Len() == 2 {
			n, ok = rs.At(0).Type(), true
		}
		return ok && n.String() == c.Named("video", "UserData").String()
	}), "the user data reader")
	allowed := map[int64][]int64{0: {2, 5}, 1: nil, 2: {3, 10}}
	for f, id := range ids {
		name := fmt.Sprintf("extension %d", id)
		id := id
		c.element(a, f, name, func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
			c.Count("element_obligations", 1)
			x := s.Stream(g.strm)
			pre := e.Bits(g.strm, x.Epoch, x.Pos.AddK(-32), 32)
			if !isCode(s, pre, codeExt) {
				g.fail(site, name, "an extension is read that need not follow an extension start code")
			}
			ok := false
			for _, y := range allowed[k] {
				ok = ok || y == id
			}
			if !ok {
				g.fail(site, name, "extension %d is read in position %d", id, k)
			}
			next := g.next(s, 4)
			for _, y := range allowed[k] {
				if y != id && s.Decide(Eq(next, y)) != ai.False {
					g.fail(site, name, "extension %d is read where extension %d may follow", id, y)
				}
			}
			g.set(s, 1)
		})
	}
	c.element(a, user, "user data", func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
		c.Count("element_obligations", 1)
		if !isCode(s, g.next(s, 32), codeUserData) {
			g.fail(site, "user data", "user data is read where its start code need not follow")
		}
		g.set(s, 2)
	})
	r := c.Prepare(e, v.eaud)
	for i, p := range v.eaud.Params {
		switch {
		case isIntVal(p.Type()):
			r.Args[i] = ai.Const(k)
		case refType(p.Type()):
			r.Args[i] = NonNil(r.Args[i])
		}
	}
	g.strm = r.StreamOf()
	g.set(r.S, 0)
	e.Merge = nil
	e.Peel, e.Rotate = everyLoop, true
	kinds := map[int64]bool{}
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if ev.Kind == "stub" {
			kinds[g.state(s)] = true
		}
		if ev.Kind != "consume" || ev.Stream != g.strm {
			return
		}
		c.Count("element_obligations", 1)
		n := s.Norm(ev.To.Sub(ev.From))
		l := e.Bits(g.strm, s.Stream(g.strm).Epoch, ev.From, 32)
		if !n.Is(0) && (!n.Is(32) || !isCode(s, l, codeExt)) {
			c.Failf(g.pre+"skipped", c.P.Where(ev.Pos), "%s: %v bits are consumed that are no extension start code", ev.Fn, n)
		}
	}
	r.Run()
	r.Successes(func(o ai.Outcome) {
		c.Count("path_obligations", 1)
		l := g.next(o.S, 32)
		if !notCode(o.S, l, codeExt) || !notCode(o.S, l, codeUserData) {
			c.FailAt(g.pre+"left", o, v.eaud, "succeeds where an extension or user data may follow (next bits: %v)", l)
		}
	})
	if !kinds[2] {
		c.Failf(g.pre+"user data", c.P.Where(v.eaud.Pos()), "%s never reads user data in position %d", v.eaud, k)
	}
	if k != 1 && !kinds[1] {
		c.Failf(g.pre+"none", c.P.Where(v.eaud.Pos()), "%s never reads an extension in position %d", v.eaud, k)
	}
}

// pictureSyntax checks the loop over the slices of a picture.
func (c *Ctx) pictureSyntax() {
	a := c.videoAnchors()
	e := a.e
	g := c.newGrammar(e, "picture/")
	for _, f := range c.setters(a) {
		c.stubMods(a, f)
	}
	c.element(a, a.slice, "a slice", func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
		c.Count("element_obligations", 1)
		known, _ := s.Load(g.mon, ".known", tInt).(*ai.Lin)
		s.Store(g.mon, ".known", tInt, ai.Const(0))
		if g.state(s) != 0 && !isSlice(s, g.next(s, 32)) && (known == nil || !s.Norm(known).Is(1)) {
			g.fail(site, "slice", "a slice is read where the next start code need not be 0x01 to 0xAF (next bits: %v)", g.next(s, 32))
		}
		if q := g.state(s); q != 0 && q != 1 {
			g.fail(site, "slice", "a slice is read after the end of the picture")
		}
		g.set(s, 1)
	})
	scans := map[*ssa.Function]bool{}
	for _, f := range c.startCodeScans() {
		scans[f] = true
		c.element(a, f, "the end of the picture", func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
			c.Count("element_obligations", 1)
			if g.state(s) == 1 && notSlice(s, g.next(s, 32)) {
				g.set(s, 2)
			}
		})
	}
	r := c.Prepare(e, a.picture)
	i := r.ArgOf(c.isVS)
	if i < 0 {
		c.Anchor("the decoder parameter of " + a.picture.String())
	}
	r.Args[i] = NonNil(r.Args[i])
	vs := r.Args[i].(ai.Ptr)
	c.headerObj(r.S, vs, "SequenceHeader")
	c.headerObj(r.S, vs, "SequenceExtension")
	g.strm = r.StreamOf()
	g.set(r.S, 0)
	e.Merge = nil
	e.Peel, e.Rotate = everyLoop, true
	r.S.Store(g.mon, ".known", tInt, ai.Const(0))
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if strings.HasPrefix(ev.Kind, "loop") && isSlice(s, g.next(s, 32)) {
			// a loop forgets the bits ahead
			s.Store(g.mon, ".known", tInt, ai.Const(1))
		}
		if ev.Kind == "consume" && ev.Stream == g.strm && !s.Norm(ev.To.Sub(ev.From)).Is(0) {
			c.Failf(g.pre+"skipped", c.P.Where(ev.Pos), "%s: bits are consumed between the slices of a picture", ev.Fn)
		}
	}
	r.Run()
	r.Successes(func(o ai.Outcome) {
		c.Count("path_obligations", 1)
		q := g.state(o.S)
		if q == 1 && notSlice(o.S, g.next(o.S, 32)) {
			q = 2
		}
		if q != 2 {
			c.FailAt(g.pre+"left", o, a.picture, "the picture ends where a slice may follow")
		}
	})
	r.Failures(func(o ai.Outcome, ev *ai.ErrVal, v ai.Iface) {
		c.Count("path_obligations", 1)
		if len(o.S.Pend) == 0 {
			c.FailAt(g.pre+"refused", o, a.picture, "yields %s although nothing failed", ai.ValString(v))
		}
	})
}

func init() {
	register("V13", "path-sensitive dataflow over go/ssa: every path through the sequence, extension and picture readers is followed through an automaton of the standard's syntax, with what is known of the next start code at each step; slices are followed from their start code to the frame rows they write", "", func(c *Ctx) {
		c.Rule("on every path from a fresh or resumed decoder, the elements of a sequence are read in the order of ISO/IEC 13818-2 6.2.2, each where its start code is known to follow where the standard makes it optional; no other bits are consumed; a picture goes on exactly while a slice start code follows; slice N writes macroblock row N-1 (128 rows further per extension step in pictures of more than 2800 lines)")
		us := []unit{{"slices", func(c *Ctx) { checkMB(c) }}}
		for k := 0; k < 3; k++ {
			k := k
			us = append(us, unit{fmt.Sprintf("sequence, %d headers", k), func(c *Ctx) { c.sequenceSyntax(k) }})
			us = append(us, unit{fmt.Sprintf("extensions %d", k), func(c *Ctx) { c.extensionSyntax(int64(k)) }})
		}
		us = append(us, unit{"picture", func(c *Ctx) { c.pictureSyntax() }})
		c.units(us)
	})
}
