package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// The payload readers are analysed through client code that calls Read in a
// loop with buffers of any size. A monitor follows every byte of the current
// packet's payload into the caller's buffer or the reader's buffer.

const (
	mOut     = ".out"     // bytes stored in the caller's buffer by this call
	mLen     = ".len"     // length of the caller's buffer
	mPos     = ".pos"     // bytes of the current payload already taken
	mDone    = ".done"    // nothing more is expected of the current packet
	mPkt     = ".#obj"    // object of the current packet
	mTested  = ".tested"  // the filter was evaluated on the current packet
	mW       = ".where"   // its verdict
	mStart   = ".start"   // accepted unit start (unit reader)
	mStarted = ".started" // the range has begun
	mIn      = ".in"      // the current packet is inside of the range: 0, 1, 2 unknown
	mClosed  = ".closed"  // the range has ended
	mFailed  = ".failed"  // the source failed during this call
	mDead    = ".dead"    // the source failed
	mOpen    = ".open"    // a unit has begun and its end was not signalled
	mNew     = ".new"     // a packet was read
)

type readerMon struct {
	c     *Ctx
	e     *ai.Engine
	pkg   string // of the packets
	unit  bool
	skip  bool
	take  bool
	where bool
	m     int // the monitor's object
	buf   int // the caller's buffer
	path  map[int]string
	bufs  map[[2]string]bool
	pt    types.Type
	plFld string
	plT   types.Type
	site  ssa.CallInstruction
	eop   int64
	n     map[string]int
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

func (m *readerMon) get(s *ai.State, cell string) *ai.Lin {
	l, _ := s.Load(m.m, cell, tInt).(*ai.Lin)
	return s.Norm(l)
}

func (m *readerMon) set(s *ai.State, cell string, l *ai.Lin) { s.Store(m.m, cell, tInt, s.Norm(l)) }

func (m *readerMon) is(s *ai.State, cell string, k int64) bool {
	return s.Decide(Eq(m.get(s, cell), k)) == ai.True
}

// must is an obligation of the monitor.
func (m *readerMon) must(s *ai.State, fn *ssa.Function, pos token.Pos, rule, detail string, c ai.Cmp) {
	m.n[rule]++
	m.e.Oblige(s, fn, pos, "mon:"+rule, detail, c)
}

func never() ai.Cmp { return ai.Cmp{Op: ai.EQ, L: ai.Const(1)} }

func (m *readerMon) payload(s *ai.State) (ai.Slice, bool) {
	p := m.get(s, mPkt)
	if !p.IsConst() || p.K == 0 {
		return ai.Slice{}, false
	}
	sl, ok := s.Load(int(p.K), m.path[int(p.K)]+m.plFld, m.plT).(ai.Slice)
	if ok && s.Decide(Eq(sl.Nil, 1)) == ai.True {
		sl.Len = ai.Const(0)
	}
	return sl, ok
}

// settle: the current packet must have been dealt with.
func (m *readerMon) settle(s *ai.State, fn *ssa.Function, pos token.Pos, when string) {
	if m.is(s, mDone, 1) {
		return
	}
	pl, ok := m.payload(s)
	if !ok {
		m.must(s, fn, pos, "T10 payload", "an unfinished packet is lost before "+when, never())
		return
	}
	if s.Decide(Eq(pl.Len, 0)) == ai.True {
		return
	}
	what := fmt.Sprintf("the payload of an accepted packet is not fully delivered or kept before %s", when)
	if m.where && !m.is(s, mTested, 1) || m.is(s, mIn, 2) {
		what = fmt.Sprintf("a packet is neither tested nor delivered before %s", when)
	}
	m.must(s, fn, pos, "T10 payload", what, ai.Cmp{Op: ai.EQ, L: pl.Len.Sub(m.get(s, mPos))})
}

// took: n bytes of the current payload starting at lo were taken.
func (m *readerMon) took(s *ai.State, ev *ai.Event, pl ai.Slice) {
	n := ev.Count
	if s.Decide(Eq(n, 0)) == ai.True && !m.unit {
		m.check(s)
		return
	}
	m.must(s, ev.Fn, ev.Pos, "T10 order", "payload bytes are taken out of order, twice, or skipped", ai.Cmp{Op: ai.EQ, L: ev.SrcLo.Sub(pl.Lo).Sub(m.get(s, mPos))})
	if m.where {
		m.must(s, ev.Fn, ev.Pos, "T10 filter", "payload of a packet is taken that the filter did not accept", Eq(m.get(s, mTested), 1))
		m.must(s, ev.Fn, ev.Pos, "T10 filter", "payload of a packet is taken that the filter did not accept", Eq(m.get(s, mW), 1))
	}
	if m.skip || m.take {
		m.must(s, ev.Fn, ev.Pos, "T11 range", "payload of a packet outside of the range is taken", Eq(m.get(s, mIn), 1))
	}
	if m.unit {
		switch {
		case m.is(s, mStart, 1):
			m.must(s, ev.Fn, ev.Pos, "T12 unit start", "a unit start is added to the unit before it", Eq(m.get(s, mOpen), 0))
			m.set(s, mOpen, ai.Const(1))
			m.set(s, mStart, ai.Const(0))
		default:
			m.must(s, ev.Fn, ev.Pos, "T12 unit start", "a packet that starts no unit is taken outside of a unit", Eq(m.get(s, mOpen), 1))
		}
	}
	m.set(s, mPos, m.get(s, mPos).Add(n))
	m.check(s)
}

// check marks the packet as finished once all of its payload is taken.
func (m *readerMon) check(s *ai.State) {
	if pl, ok := m.payload(s); ok && s.Decide(ai.Cmp{Op: ai.EQ, L: pl.Len.Sub(m.get(s, mPos))}) == ai.True {
		if m.unit && m.is(s, mStart, 1) {
			return
		}
		m.set(s, mDone, ai.Const(1))
		m.set(s, mPos, ai.Const(0))
	}
}

func (m *readerMon) rejected(s *ai.State) {
	m.set(s, mDone, ai.Const(1))
}

func (m *readerMon) empty(s *ai.State, fn *ssa.Function, pos token.Pos, rule, what string) {
	for k := range m.bufs {
		var id int
		fmt.Sscan(k[0], &id)
		if !s.Existing(id) {
			continue
		}
		wr, rd := m.e.BufCounters(s, id, k[1])
		m.must(s, fn, pos, rule, what, ai.Cmp{Op: ai.EQ, L: wr.Sub(rd)})
	}
}

// bufKnown remembers the reader's own buffers.
func (m *readerMon) bufKnown(id int, path string) { m.bufs[[2]string{fmt.Sprint(id), path}] = true }

func (m *readerMon) event(s *ai.State, ev *ai.Event) {
	switch ev.Kind {
	case "bufempty":
		m.bufKnown(ev.Obj, ev.Path)
	case "bufread":
		m.bufKnown(ev.SrcObj, ev.SrcPath)
		if ev.Obj == m.buf {
			m.must(s, ev.Fn, ev.Pos, "T10 place", "bytes are stored at a wrong place of the caller's buffer", ai.Cmp{Op: ai.EQ, L: ev.DstLo.Sub(m.get(s, mOut))})
			m.set(s, mOut, m.get(s, mOut).Add(ev.Count))
		} else {
			m.must(s, ev.Fn, ev.Pos, "T10 payload", "buffered bytes are drained into other storage", never())
		}
	case "bufreset":
		m.bufKnown(ev.Obj, ev.Path)
		wr, rd := m.e.BufCounters(s, ev.Obj, ev.Path)
		m.must(s, ev.Fn, ev.Pos, "T10 payload", "buffered bytes are thrown away", ai.Cmp{Op: ai.EQ, L: wr.Sub(rd)})
	case "bufwrite":
		m.bufKnown(ev.Obj, ev.Path)
		if pl, ok := m.payload(s); ok && ev.SrcObj == pl.Obj && ev.SrcPath == pl.Path && ev.SrcObj != 0 {
			m.took(s, ev, pl)
		} else {
			m.must(s, ev.Fn, ev.Pos, "T10 payload", "bytes other than the current payload are buffered", ai.Cmp{Op: ai.EQ, L: ev.Count})
		}
	case "copy":
		if ev.Obj != m.buf || ev.Count == nil {
			return
		}
		pl, ok := m.payload(s)
		if !ok || ev.SrcObj != pl.Obj || ev.SrcPath != pl.Path || ev.SrcObj == 0 {
			m.must(s, ev.Fn, ev.Pos, "T10 payload", "bytes other than the current payload are delivered", ai.Cmp{Op: ai.EQ, L: ev.Count})
			return
		}
		if s.Decide(Eq(ev.Count, 0)) != ai.True {
			m.empty(s, ev.Fn, ev.Pos, "T10 order", "payload is delivered ahead of buffered bytes")
			m.must(s, ev.Fn, ev.Pos, "T10 place", "bytes are stored at a wrong place of the caller's buffer", ai.Cmp{Op: ai.EQ, L: ev.DstLo.Sub(m.get(s, mOut))})
		}
		m.took(s, ev, pl)
		m.set(s, mOut, m.get(s, mOut).Add(ev.Count))
	case "consume", "partial", "read":
		if ev.Obj == m.buf && m.buf != 0 {
			m.must(s, ev.Fn, ev.Pos, "T10 payload", "the source is read into the caller's buffer", never())
		}
	}
}

// install sets up the engine and the initial monitor state of a root.
func (m *readerMon) install(r, step *Root) {
	c, e := m.c, m.e
	m.m = e.SymObj("monitor", types.NewStruct(nil, nil))
	m.buf = e.SymObj("caller's buffer", types.NewArray(types.Typ[types.Uint8], 0))
	m.path = map[int]string{}
	m.bufs = map[[2]string]bool{}
	m.n = map[string]int{}
	m.pt = c.Named(m.pkg, "Packet")
	m.plFld, m.plT = promoted(m.pt, "Payload")
	if m.plT == nil {
		c.Anchor("field Packet.Payload")
	}
	zero := []string{mOut, mLen, mPos, mPkt, mTested, mW, mStart, mClosed, mFailed, mDead, mOpen, mNew}
	for _, z := range zero {
		m.set(r.S, z, ai.Const(0))
	}
	m.set(r.S, mDone, ai.Const(1))
	m.set(r.S, mIn, ai.Const(2))
	st := int64(1)
	if m.skip {
		st = 0
	}
	m.set(r.S, mStarted, ai.Const(st))

	next := c.stubPacket(e, m.pkg)
	inner := e.FnModels[next]
	e.FnModels[next] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		fn, pos := site.Parent(), site.Pos()
		m.settle(s, fn, pos, "the next packet is read")
		m.must(s, fn, pos, "T11 source error", "reading goes on after the source failed", Eq(m.get(s, mFailed), 0))
		alts := inner(e, s, site, args)
		p := args[0].(ai.Ptr)
		m.path[p.Obj] = p.Path
		for _, a := range alts {
			if a.Panicked {
				continue
			}
			m.set(a.S, mPos, ai.Const(0))
			m.set(a.S, mPkt, ai.Const(int64(p.Obj)))
			m.set(a.S, mTested, ai.Const(0))
			m.set(a.S, mStart, ai.Const(0))
			m.set(a.S, mW, ai.Const(0))
			if ai.IsOK(a.V) {
				m.set(a.S, mNew, ai.Const(1))
				m.set(a.S, mDone, ai.Const(0))
				in := int64(2)
				if !m.skip && !m.take {
					in = 1
				}
				if m.is(a.S, mStarted, 1) && !m.take {
					in = 1
				}
				m.set(a.S, mIn, ai.Const(in))
			} else {
				m.set(a.S, mDone, ai.Const(1))
				m.set(a.S, mFailed, ai.Const(1))
				m.set(a.S, mDead, ai.Const(1))
			}
		}
		return alts
	}
	e.OnEvent = m.event
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) {
		if obj == m.buf {
			m.must(s, fn, pos, "T10 payload", "the caller's buffer is written byte by byte", never())
		}
	}
	names := map[string]string{}
	for _, r := range []*Root{r, step} {
		for i, p := range r.Fn.Params {
			if f, ok := r.Args[i].(ai.Func); ok {
				f.Nil = ai.Const(0)
				r.Args[i] = f
				names[f.Key] = p.Name()
			}
		}
	}
	verdict := func(v int64) ai.Val { return ai.Bool{IsConst: true, V: v == 1} }
	e.OnUnknown = func(s *ai.State, site ssa.CallInstruction, key string, sig *types.Signature, args []ai.Val) []ai.Alt {
		switch names[key] {
		case "buf":
			n := ai.AtomLin(e.Fresh("callerlen", 0, 1<<40))
			m.set(s, mOut, ai.Const(0))
			m.set(s, mLen, n)
			m.set(s, mFailed, ai.Const(0))
			return []ai.Alt{{S: s, V: ai.Slice{Obj: m.buf, Lo: ai.Const(0), Len: n, Cap: n, Nil: ai.Const(0)}}}
		case "sink":
			m.sink(s, site, args)
			return []ai.Alt{{S: s, V: ai.Tuple{}}}
		case "where", "skipUntil", "takeWhile":
			if p, ok := args[0].(ai.Ptr); ok && m.is(s, mNew, 1) {
				if k := m.get(s, mPkt); !k.IsConst() || int(k.K) != p.Obj {
					m.must(s, site.Parent(), site.Pos(), "T10 filter", "a test is applied to another packet than the current one", never())
				}
			}
		}
		switch names[key] {
		case "where":
			return m.filter(s, verdict)
		case "skipUntil":
			f := s.Clone()
			if m.is(s, mNew, 1) && !m.is(s, mStarted, 1) {
				m.set(s, mStarted, ai.Const(1))
				m.set(s, mIn, ai.Const(1))
				m.set(f, mIn, ai.Const(0))
				m.rejected(f)
			}
			return []ai.Alt{{S: s, V: verdict(1)}, {S: f, V: verdict(0)}}
		case "takeWhile":
			f := s.Clone()
			if m.is(s, mNew, 1) && m.is(s, mStarted, 1) && !m.is(s, mIn, 1) {
				m.set(s, mIn, ai.Const(1))
				m.set(f, mIn, ai.Const(0))
				m.set(f, mClosed, ai.Const(1))
				m.rejected(f)
			}
			return []ai.Alt{{S: s, V: verdict(1)}, {S: f, V: verdict(0)}}
		}
		return nil
	}
	e.Peel = func(fn *ssa.Function, h *ssa.BasicBlock) bool { return true }
}

// filter answers the caller's packet filter: any verdict, but one per packet.
func (m *readerMon) filter(s *ai.State, verdict func(int64) ai.Val) []ai.Alt {
	if m.is(s, mTested, 1) {
		w := m.get(s, mW)
		if w.IsConst() {
			return []ai.Alt{{S: s, V: verdict(w.K)}}
		}
		f := s.Clone()
		var alts []ai.Alt
		if s.Assume(Eq(w, 1)) {
			m.set(s, mW, ai.Const(1))
			alts = append(alts, ai.Alt{S: s, V: verdict(1)})
		}
		if f.Assume(Eq(w, 0)) {
			m.set(f, mW, ai.Const(0))
			alts = append(alts, ai.Alt{S: f, V: verdict(0)})
		}
		return alts
	}
	f := s.Clone()
	m.set(f, mTested, ai.Const(1))
	m.set(f, mW, ai.Const(0))
	m.rejected(f)
	alts := []ai.Alt{{S: f, V: verdict(0)}}
	m.set(s, mTested, ai.Const(1))
	m.set(s, mW, ai.Const(1))
	if !m.unit || !m.is(s, mNew, 1) {
		return append(alts, ai.Alt{S: s, V: verdict(1)})
	}
	// the unit start indicator of an accepted packet
	pk := m.get(s, mPkt)
	b, ok := m.c.Field(s, ai.Ptr{Obj: int(pk.K), Path: m.path[int(pk.K)]}, m.pt, "PayloadUnitStartIndicator").(ai.Bool)
	if !ok {
		panic(ai.Unsupported{Msg: "PayloadUnitStartIndicator"})
	}
	add := func(s *ai.State, start int64) {
		m.set(s, mStart, ai.Const(start))
		if start == 0 && m.is(s, mOpen, 0) {
			// outside of every unit
			m.rejected(s)
		}
		alts = append(alts, ai.Alt{S: s, V: verdict(1)})
	}
	if b.IsConst {
		add(s, map[bool]int64{true: 1, false: 0}[b.V])
		return alts
	}
	g := s.Clone()
	if s.Assume(b.C) {
		add(s, 1)
	}
	if g.Assume(b.C.Not()) {
		add(g, 0)
	}
	return alts
}

// sink sees the results of a Read call.
func (m *readerMon) sink(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
	pos, fn := site.Pos(), site.Parent()
	n, _ := args[1].(*ai.Lin)
	err, _ := args[2].(ai.Iface)
	out, ln, failed := m.get(s, mOut), m.get(s, mLen), m.get(s, mFailed)
	for _, k := range []string{mOut, mLen, mFailed} {
		m.set(s, k, ai.Const(0))
	}
	if n == nil || err.Nil == nil {
		panic(ai.Unsupported{Msg: "results of Read"})
	}
	m.must(s, fn, pos, "T10 count", "Read reports another number of bytes than it stored", ai.Cmp{Op: ai.EQ, L: n.Sub(out)})
	isNil := s.Decide(Eq(err.Nil, 1))
	if isNil == ai.Unknown {
		m.must(s, fn, pos, "undecided", "whether Read fails is not decided", never())
		return
	}
	if isNil == ai.True {
		if !m.unit {
			m.must(s, fn, pos, "X01 swallowed", "Read reports success although the source failed", Eq(failed, 0))
		}
		// n == 0 implies an empty buffer
		if s.Decide(Ge(out, 1)) == ai.True || s.Decide(Eq(ln, 0)) == ai.True {
			m.must(s, fn, pos, "X03 empty read", "Read returns no bytes and no error for a non-empty buffer", Eq(ai.Const(0), 0))
		} else {
			z := s.Clone()
			if z.Assume(Eq(out, 0)) {
				m.must(z, fn, pos, "X03 empty read", "Read returns no bytes and no error for a non-empty buffer", Eq(ln, 0))
				if m.take {
					m.must(z, fn, pos, "T11 closed", "Read reports no io.EOF behind the end of the range", Eq(m.get(z, mClosed), 0))
				}
			}
		}
		return
	}
	ev, _ := err.V.(*ai.ErrVal)
	kind := func(k int64) bool { return ev != nil && ev.Kind != nil && s.Decide(Eq(ev.Kind, k)) == ai.True }
	if m.unit && kind(m.eop) {
		m.must(s, fn, pos, "T12 unit end", "the end of a unit is signalled outside of a unit", Eq(m.get(s, mOpen), 1))
		m.empty(s, fn, pos, "T12 unit end", "the end of a unit is signalled before its last byte")
		// the next packet is an accepted unit start, or the source has ended
		if !m.is(s, mDead, 1) {
			m.must(s, fn, pos, "T12 unit end", "the end of a unit is signalled although the next unit start was not seen", Eq(m.get(s, mStart), 1))
		}
		m.set(s, mOpen, ai.Const(0))
		return
	}
	m.empty(s, fn, pos, "T10 payload", "an error is returned before buffered bytes were delivered")
	m.settle(s, fn, pos, "an error is returned")
	if m.take && m.is(s, mClosed, 1) {
		m.must(s, fn, pos, "T11 closed", "Read reports no io.EOF behind the end of the range", cond(kind(ai.KindEOF)))
		return
	}
	if m.unit && m.is(s, mDead, 1) || failed.Is(1) {
		m.must(s, fn, pos, "X01 error", "Read reports another error than that of the source", cond(ev != nil && ev.Src != nil))
	}
	if m.unit {
		m.must(s, fn, pos, "T12 last unit", "an error is returned while a unit is open", Eq(m.get(s, mOpen), 0))
	}
	if m.pkg == "ts" {
		m.must(s, fn, pos, "T11 end", "Read fails although neither the source nor the range has ended", ai.Cmp{Op: ai.EQ, L: m.get(s, mDead).AddK(-1)})
	}
}

func cond(b bool) ai.Cmp {
	if b {
		return ai.Cmp{Op: ai.EQ, L: ai.Const(0)}
	}
	return never()
}

type readerRun struct {
	mon  *readerMon
	r    *Root
	name string
}

func (c *Ctx) readerRoot(name string) *readerRun {
	e := c.Engine()
	e.Rotate = true
	e.PreciseExits = true
	m := &readerMon{c: c, e: e, pkg: "pes"}
	if strings.HasPrefix(name, "ts") {
		m.pkg, m.where = "ts", true
	}
	m.unit = name == "tsUnit"
	m.skip = name == "tsPayloadSkip" || name == "tsPayloadBoth"
	m.take = name == "tsPayloadTake" || name == "tsPayloadBoth"
	if m.unit {
		v, ok := e.GlobalVal(e.NewState(), c.Pkg("ts").Var("EOP")).(ai.Iface)
		ev, _ := v.V.(*ai.ErrVal)
		if !ok || ev == nil || !ev.Kind.IsConst() {
			c.Anchor("error ts.EOP")
		}
		m.eop = ev.Kind.K
	}
	r := c.Prepare(e, c.Client(name))
	for i, a := range r.Args {
		r.Args[i] = NonNil(a)
	}
	stepFn := c.Client("readStep")
	step := c.Prepare(e, stepFn)
	m.install(r, step)
	if name == "psPayload" {
		c.stubReader(e, c.Fn("ps", "NewPackHeader"), false, nil)
	}
	e.RootName = name
	mon := ai.Ptr{Obj: m.m, Nil: ai.Const(0)}
	for _, o := range e.Call(r.S, r.Fn, r.Args, nil) {
		if o.Panicked {
			continue
		}
		rd := o.Vals[0]
		c.steps(name, []*ai.State{o.S}, []ai.Val{mon, rd}, func(s *ai.State) []ai.Outcome {
			return e.Call(s, stepFn, append([]ai.Val{rd}, step.Args[1:]...), nil)
		})
	}
	c.Count("client_roots", 1)
	c.Count("ssa_instructions_interpreted", e.Stats.Instrs)
	c.Count("loops_summarised", len(e.Loops))
	return &readerRun{mon: m, r: r, name: name}
}

// readerObls reports the monitor's obligations whose rule starts with one of
// the prefixes.
func (c *Ctx) readerObls(rr *readerRun, prefixes ...string) {
	var keys []ai.OblKey
	for k := range rr.mon.e.Obls {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	n := 0
	for _, k := range keys {
		o := rr.mon.e.Obls[k]
		if !strings.HasPrefix(o.Kind, "mon:") {
			continue
		}
		rule := o.Kind[4:]
		ok := rule == "undecided"
		for _, p := range prefixes {
			ok = ok || strings.HasPrefix(rule, p)
		}
		if !ok {
			continue
		}
		n++
		if !o.Failed {
			continue
		}
		f := c.Failf(fmt.Sprintf("%s/%s/%s: %s", rr.name, rule, o.Fn.Name(), o.Detail), c.P.Where(o.Pos), "%s: %s (client %s, %s)", o.Fn, o.Detail, rr.name, o.Why)
		_ = f
	}
	c.Count("obligations", n)
	if n == 0 {
		c.Failf("vacuous/"+rr.name, "-", "no obligation of %v arose for client %s", prefixes, rr.name)
	}
	c.Sample("client %s: %d obligations of %v at %d places", rr.name, n, prefixes, len(rr.mon.n))
}

const readerTech = "path-sensitive dataflow with loop fixpoints (abstract interpretation over go/ssa) of a most general client, with a byte-accounting monitor"

func init() {
	for _, id := range []string{"T10", "T11", "T12"} {
		needsHarness[id] = true
	}
	register("T10", readerTech, "", func(c *Ctx) {
		c.Rule("each payload byte is taken once, in order, from packets the filter accepts; bytes are stored contiguously; n equals the bytes stored; nothing is dropped before the next packet or an error")
		for _, n := range []string{"tsPayload", "tsPayloadSkip", "tsPayloadTake", "tsPayloadBoth", "tsUnit", "pesPayload", "psPayload"} {
			c.Guard(n, func() { c.readerObls(c.readerRoot(n), "T10") })
		}
	})
	register("T11", readerTech, "", func(c *Ctx) {
		c.Rule("payload is taken from packets inside of the range only; a source error ends the search; io.EOF behind the range")
		for _, n := range []string{"tsPayload", "tsPayloadSkip", "tsPayloadTake", "tsPayloadBoth"} {
			c.Guard(n, func() { c.readerObls(c.readerRoot(n), "T11", "T10 filter", "T10 payload", "X01") })
		}
	})
	register("T12", readerTech, "", func(c *Ctx) {
		c.Rule("units begin at accepted unit starts, end with EOP exactly before the next one or at the end of the source, and errors follow the last unit")
		c.Guard("tsUnit", func() { c.readerObls(c.readerRoot("tsUnit"), "T12", "T10", "X01 error") })
	})
}
