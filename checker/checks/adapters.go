package checks

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// ---- channel adapters

type adapterMon struct {
	*mon
	pkg   string
	unit  bool
	in    int
	out   int
	pt    types.Type
	plFld string
	plT   types.Type
}

func (m *adapterMon) payload(s *ai.State) (ai.Slice, bool) {
	k := m.get(s, ".#obj")
	if !k.IsConst() || k.K == 0 {
		return ai.Slice{}, false
	}
	sl, ok := s.Load(int(k.K), m.plFld, m.plT).(ai.Slice)
	if ok && s.Decide(Eq(sl.Nil, 1)) == ai.True {
		sl.Len = ai.Const(0)
	}
	return sl, ok
}

// pusi: is the current packet a unit start on this path?
func (m *adapterMon) pusi(s *ai.State) ai.Tri {
	return s.Decide(ai.Cmp{Op: ai.NE, L: m.get(s, ".start")})
}

// take notes what counts of a packet that was received.
func (m *adapterMon) take(s *ai.State, p ai.Ptr) bool {
	m.set(s, ".new", 1)
	m.set(s, ".taken", 0)
	m.set(s, ".#obj", int64(p.Obj))
	pl, ok := m.payload(s)
	if !ok {
		return false
	}
	s.Store(m.obj, ".plen", tInt, pl.Len)
	if !m.unit {
		return true
	}
	b, ok := m.c.Field(s, p, m.pt, "PayloadUnitStartIndicator").(ai.Bool)
	if !ok || b.IsConst || b.C.Op != ai.NE {
		return false
	}
	s.Store(m.obj, ".start", tInt, b.C.L)
	return true
}

// settle: the current packet was dealt with.
func (m *adapterMon) settle(s *ai.State, fn *ssa.Function, pos token.Pos) {
	if !m.is(s, ".new", 1) {
		return
	}
	m.set(s, ".new", 0)
	if !m.unit {
		m.must(s, fn, pos, "T14 forward", "a received packet's payload is not forwarded", never())
		return
	}
	plen := m.get(s, ".plen")
	start := m.pusi(s)
	if start == ai.Unknown {
		m.must(s, fn, pos, "T14 unit", "the unit start of a packet is not looked at", never())
		return
	}
	if m.is(s, ".taken", 1) {
		return
	}
	switch {
	case start == ai.True:
		m.must(s, fn, pos, "T14 unit", "the payload of a unit start is dropped", Eq(plen, 0))
		m.must(s, fn, pos, "T14 unit", "a unit is not emitted before the next one begins", Eq(m.get(s, ".open"), 0))
		m.set(s, ".open", 1)
		s.Store(m.obj, ".len", tInt, ai.Const(0))
	case !m.is(s, ".open", 0):
		m.must(s, fn, pos, "T14 unit", "payload inside of a unit is dropped", Eq(plen, 0))
	}
}

func (c *Ctx) adapterRun(name string) *mon {
	e := c.Engine()
	e.PreciseExits = false
	m := &adapterMon{mon: newMon(c, e, "monitor"), pkg: "ts", unit: name == "tsUnits"}
	if name == "pesOnly" {
		m.pkg = "pes"
	}
	m.pt = c.Named(m.pkg, "Packet")
	m.plFld, m.plT = promoted(m.pt, "Payload")
	if m.plT == nil {
		c.Anchor("field Packet.Payload")
	}
	e.Partition = everyLoop
	running := false
	r := c.Prepare(e, c.Client(name))
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if !running {
			return
		}
		m.noGo(s, ev)
		switch ev.Kind {
		case "recv":
			if ev.Obj != m.in {
				m.must(s, ev.Fn, ev.Pos, "undecided", "a value is received from an unknown channel", never())
				return
			}
			m.settle(s, ev.Fn, ev.Pos)
			m.must(s, ev.Fn, ev.Pos, "T14 end", "the input is read behind its end", Eq(m.get(s, ".ended"), 0))
			p, ok := ev.Val.(ai.Ptr)
			if !ok || p.Obj == 0 {
				m.must(s, ev.Fn, ev.Pos, "undecided", "the received packet is not known", never())
				return
			}
			s.Assume(Eq(p.Nil, 0))
			if !m.take(s, p) {
				m.must(s, ev.Fn, ev.Pos, "undecided", "the received packet is not known", never())
			}
		case "recvclosed":
			if ev.Obj == m.in {
				m.settle(s, ev.Fn, ev.Pos)
				m.set(s, ".ended", 1)
			}
		case "send":
			if ev.Obj != m.out {
				m.must(s, ev.Fn, ev.Pos, "undecided", "a value is sent on an unknown channel", never())
				return
			}
			m.must(s, ev.Fn, ev.Pos, "T14 closed", "a payload is sent on the closed output", Eq(m.get(s, ".closed"), 0))
			v, _ := ev.Val.(ai.Slice)
			if m.unit {
				m.must(s, ev.Fn, ev.Pos, "T14 unit", "a unit is emitted that was not begun", Eq(m.get(s, ".open"), 1))
				l, _ := s.Load(m.obj, ".len", tInt).(*ai.Lin)
				ln := v.Len
				if ln == nil {
					ln = ai.Const(0)
				}
				m.must(s, ev.Fn, ev.Pos, "T14 unit", "the emitted unit has another length than the payloads together", ai.Cmp{Op: ai.EQ, L: ln.Sub(l)})
				if s.Decide(Eq(l, 0)) != ai.True {
					m.must(s, ev.Fn, ev.Pos, "T14 unit", "the emitted unit is not the payloads put together", cond(v.Obj != 0 && m.get(s, ".unit.#obj").Is(int64(v.Obj)) && v.Path == ""))
					m.must(s, ev.Fn, ev.Pos, "T14 unit", "the emitted unit is not the payloads put together", Eq(v.Lo, 0))
				}
				m.set(s, ".open", 0)
				s.Store(m.obj, ".len", tInt, ai.Const(0))
				m.set(s, ".unit.#obj", 0)
				handOut(s, v)
				return
			}
			pl, ok := m.payload(s)
			m.must(s, ev.Fn, ev.Pos, "T14 forward", "a payload is forwarded twice or without a packet", Eq(m.get(s, ".new"), 1))
			same := ok && v.Obj == pl.Obj && v.Path == pl.Path
			m.must(s, ev.Fn, ev.Pos, "T14 forward", "something else than the packet's payload is forwarded", cond(same))
			if same {
				m.must(s, ev.Fn, ev.Pos, "T14 forward", "something else than the packet's payload is forwarded", ai.Cmp{Op: ai.EQ, L: v.Lo.Sub(pl.Lo)})
				m.must(s, ev.Fn, ev.Pos, "T14 forward", "something else than the packet's payload is forwarded", ai.Cmp{Op: ai.EQ, L: v.Len.Sub(pl.Len)})
			}
			m.set(s, ".new", 0)
		case "copy":
			m.written(s, ev.Obj, ev.Path, ev.Pos, ev.Fn)
			if !m.unit {
				return
			}
			// growing copies the unit so far; only new bytes count
			pl, ok := m.payload(s)
			if !ok || ev.SrcObj != pl.Obj || ev.SrcPath != pl.Path {
				m.must(s, ev.Fn, ev.Pos, "T14 unit", "bytes other than the packet's payload are added", ai.Cmp{Op: ai.EQ, L: ev.Count})
				return
			}
			l, _ := s.Load(m.obj, ".len", tInt).(*ai.Lin)
			m.must(s, ev.Fn, ev.Pos, "T14 unit", "payload is added twice", Eq(m.get(s, ".taken"), 0))
			m.must(s, ev.Fn, ev.Pos, "T14 unit", "payload is added without a packet", Eq(m.get(s, ".new"), 1))
			m.must(s, ev.Fn, ev.Pos, "T14 unit", "not all of the payload is added", ai.Cmp{Op: ai.EQ, L: ev.Count.Sub(pl.Len)})
			m.must(s, ev.Fn, ev.Pos, "T14 unit", "not all of the payload is added", ai.Cmp{Op: ai.EQ, L: ev.SrcLo.Sub(pl.Lo)})
			switch m.pusi(s) {
			case ai.True:
				m.must(s, ev.Fn, ev.Pos, "T14 unit", "a unit is not emitted before the next one begins", Eq(m.get(s, ".open"), 0))
				l = ai.Const(0)
				m.set(s, ".open", 1)
			case ai.False:
				m.must(s, ev.Fn, ev.Pos, "T14 unit", "payload in front of the first unit start is taken", Eq(m.get(s, ".open"), 1))
			default:
				m.must(s, ev.Fn, ev.Pos, "T14 unit", "the unit start of a packet is not looked at", never())
			}
			m.must(s, ev.Fn, ev.Pos, "T14 unit", "payload is not put at the end of the unit", ai.Cmp{Op: ai.EQ, L: ev.DstLo.Sub(l)})
			s.Store(m.obj, ".len", tInt, s.Norm(l.Add(ev.Count)))
			m.set(s, ".taken", 1)
			m.set(s, ".unit.#obj", int64(ev.Obj))
		case "close":
			if ev.Obj != m.out {
				m.must(s, ev.Fn, ev.Pos, "undecided", "an unknown channel is closed", never())
				return
			}
			m.must(s, ev.Fn, ev.Pos, "T14 closed", "the output is closed twice", Eq(m.get(s, ".closed"), 0))
			m.must(s, ev.Fn, ev.Pos, "T14 closed", "the output is closed before the input", Eq(m.get(s, ".ended"), 1))
			if m.unit {
				m.must(s, ev.Fn, ev.Pos, "T14 unit", "the last unit is not emitted", Eq(m.get(s, ".open"), 0))
			}
			m.set(s, ".closed", 1)
		}
	}
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) {
		if running {
			m.written(s, obj, path, pos, fn)
			if k := m.get(s, ".#obj"); k.IsConst() && k.K != 0 && int(k.K) == obj {
				m.must(s, fn, pos, "T14 forward", "a received packet is modified", never())
			}
		}
	}
	inArg := -1
	for i, p := range r.Fn.Params {
		if _, ok := p.Type().Underlying().(*types.Chan); ok {
			inArg = i
		}
	}
	if inArg < 0 {
		c.Anchor("input channel of " + name)
	}
	for _, g := range c.startedBy(r) {
		m.in, m.out = chanOf(r.Args[inArg]), chanOf(g.args[0])
		if m.in == 0 || m.out == 0 || m.in == m.out {
			c.Failf("undecided/"+name, c.P.Where(g.pos), "the channels of the adapter are not known")
			continue
		}
		s := g.s.Clone()
		for _, k := range []string{".#obj", ".unit.#obj", ".new", ".taken", ".open", ".len", ".plen", ".start", ".ended", ".closed"} {
			m.set(s, k, 0)
		}
		running = true
		outs := e.Call(s, g.fn, g.a, g.b)
		running = false
		for _, o := range outs {
			if o.Panicked {
				c.FailAt(name+"/panic", o, g.fn, "may panic: %s", o.Why)
				continue
			}
			m.must(o.S, g.fn, o.Pos, "T14 closed", "the output is not closed", Eq(m.get(o.S, ".closed"), 1))
		}
		c.Count("goroutine_paths", len(outs))
		if len(outs) == 0 {
			c.Failf("vacuous/"+name, c.P.Where(g.pos), "the goroutine never ends")
		}
	}
	return m.mon
}

// ---- program stream decoder

// packRun analyses the goroutine that delivers the packets of a pack. It
// returns the channel on which that goroutine reports its end.
func (c *Ctx) packRun(m *mon, s0 *ai.State, fn *ssa.Function, a, b []ai.Val, stream int, packets int, codes [2]int64) (sig int) {
	e := m.e
	s := s0.Clone()
	for _, k := range []string{".p.new", ".p.#obj", ".p.closed", ".p.signalled", ".p.failed", ".p.err"} {
		m.set(s, k, 0)
	}
	old, oldStore := e.OnEvent, e.OnStore
	defer func() { e.OnEvent, e.OnStore = old, oldStore }()
	quiet := func(s *ai.State, ev *ai.Event) {
		if ev.Stream == stream {
			m.must(s, ev.Fn, ev.Pos, "S02 reads", "a pack reads the source after reporting its end", Eq(m.get(s, ".p.signalled"), 0))
		}
	}
	signal := func(s *ai.State, ev *ai.Event) {
		if sig == 0 {
			sig = ev.Obj
		}
		m.must(s, ev.Fn, ev.Pos, "S02 pack end", "a pack reports its end on several channels", cond(ev.Obj == sig))
		m.must(s, ev.Fn, ev.Pos, "S02 pack end", "a pack reports its end twice", Eq(m.get(s, ".p.signalled"), 0))
		m.must(s, ev.Fn, ev.Pos, "S02 pack end", "a pack reports its end before its packet channel is closed", Eq(m.get(s, ".p.closed"), 1))
		m.set(s, ".p.signalled", 1)
		if !m.is(s, ".p.failed", 0) {
			f, ok := ev.Val.(ai.Iface)
			m.must(s, ev.Fn, ev.Pos, "S02 pack error", "a pack whose source failed does not report the error", cond(ok && ev.Kind == "send" && IsNil(s, f) == ai.False))
		} else {
			m.must(s, ev.Fn, ev.Pos, "S02 pack order", "a packet is not delivered before the pack ends", Eq(m.get(s, ".p.new"), 0))
			if f, ok := ev.Val.(ai.Iface); !ok || ev.Kind != "send" || IsNil(s, f) != ai.False {
				st := s.Stream(stream)
				word := e.Bits(stream, st.Epoch, st.Pos, 32)
				none := s.Decide(Eq(e.Bits(stream, st.Epoch, st.Pos, 24), 1)) == ai.False
				for _, k := range codes {
					none = none || s.Decide(Eq(word, k)) == ai.True
				}
				m.must(s, ev.Fn, ev.Pos, "S02 pack all", "a pack ends although another packet may follow", cond(none))
			}
		}
	}
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		m.noGo(s, ev)
		switch ev.Kind {
		case "consume", "peek", "align":
			quiet(s, ev)
		case "fail":
			quiet(s, ev)
			m.set(s, ".p.failed", 1)
		case "packet":
			quiet(s, ev)
			if ev.Err {
				m.set(s, ".p.failed", 1)
				return
			}
			m.must(s, ev.Fn, ev.Pos, "S02 pack order", "a packet is not delivered before the next one is read", Eq(m.get(s, ".p.new"), 0))
			m.set(s, ".p.new", 1)
			m.set(s, ".p.#obj", int64(ev.Obj))
		case "send":
			if ev.Obj != packets {
				signal(s, ev)
				return
			}
			p, ok := ev.Val.(ai.Ptr)
			m.must(s, ev.Fn, ev.Pos, "S02 pack order", "something else than the packet just read is delivered", cond(ok && p.Obj != 0 && p.Path == "" && m.get(s, ".p.#obj").Is(int64(p.Obj))))
			m.must(s, ev.Fn, ev.Pos, "S02 pack order", "a packet is delivered twice", Eq(m.get(s, ".p.new"), 1))
			m.must(s, ev.Fn, ev.Pos, "S02 pack closed", "a packet is sent on the closed channel", Eq(m.get(s, ".p.closed"), 0))
			m.set(s, ".p.new", 0)
			handOut(s, p)
		case "close":
			if ev.Obj == packets {
				m.must(s, ev.Fn, ev.Pos, "S02 pack closed", "the packet channel is closed twice", Eq(m.get(s, ".p.closed"), 0))
				m.set(s, ".p.closed", 1)
			} else if sig == 0 || ev.Obj != sig || m.is(s, ".p.signalled", 0) {
				signal(s, ev)
			}
		case "copy":
			m.written(s, ev.Obj, ev.Path, ev.Pos, ev.Fn)
		}
	}
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) {
		m.written(s, obj, path, pos, fn)
	}
	outs := e.Call(s, fn, a, b)
	for _, o := range outs {
		if o.Panicked {
			c.FailAt("pack/panic", o, fn, "may panic: %s", o.Why)
			continue
		}
		m.must(o.S, fn, o.Pos, "S02 pack closed", "the packet channel of a pack is not closed", Eq(m.get(o.S, ".p.closed"), 1))
		m.must(o.S, fn, o.Pos, "S02 pack end", "a pack does not report its end", Eq(m.get(o.S, ".p.signalled"), 1))
	}
	c.Count("goroutine_paths", len(outs))
	if len(outs) == 0 {
		c.Failf("vacuous/pack", c.P.Where(fn.Pos()), "the goroutine of a pack never ends")
	}
	return sig
}

func (c *Ctx) decodeRun() *mon {
	e := c.Engine()
	e.PreciseExits = false
	e.Partition = everyLoop
	m := newMon(c, e, "monitor")
	next := c.stubPacket(e, "pes")
	inner := e.FnModels[next]
	e.FnModels[next] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		m.fresh(s, site.Parent(), site.Pos(), args[0].(ai.Ptr))
		return inner(e, s, site, args)
	}
	hdr := c.Fn("ps", "NewPackHeader")
	const endCode, packCode = int64(0x1b9), int64(0x1ba)
	running := false
	packs, done, stream := 0, 0, -1
	// look notes whether something else than the end follows: the summary of
	// a loop forgets what was peeked at.
	look := func(s *ai.State) {
		st := s.Stream(stream)
		if s.Decide(Eq(e.Bits(stream, st.Epoch, st.Pos, 32), endCode)) == ai.False {
			m.set(s, ".more", 1)
		}
	}
	c.stubReader(e, hdr, false, func(s *ai.State, site ssa.CallInstruction, args []ai.Val) {
		if running {
			look(s)
			m.must(s, site.Parent(), site.Pos(), "S02 run", "another pack is read although the program may end here", Eq(m.get(s, ".more"), 1))
		}
	})
	r := c.Prepare(e, c.Client("decode"))
	errFn, pkFn := c.Client("decodeErr"), c.Client("packPackets")
	var dec ai.Val
	errT := types.Universe.Lookup("error").Type()
	call := func(s *ai.State, fn *ssa.Function, v ai.Val) []ai.Outcome {
		running = false
		defer func() { running = true }()
		return e.Call(s.Clone(), fn, []ai.Val{v}, nil)
	}
	reads := func(s *ai.State, ev *ai.Event) {
		m.must(s, ev.Fn, ev.Pos, "S02 reads", "the source is read while a pack is delivered", Eq(m.get(s, ".busy"), 0))
		m.must(s, ev.Fn, ev.Pos, "S02 reads", "the source is read after completion", Eq(m.get(s, ".signalled"), 0))
	}
	signal := func(s *ai.State, ev *ai.Event) {
		m.must(s, ev.Fn, ev.Pos, "S02 done", "completion is signalled twice", Eq(m.get(s, ".signalled"), 0))
		m.must(s, ev.Fn, ev.Pos, "S02 done", "completion is signalled before the pack channel is closed", Eq(m.get(s, ".closed"), 1))
		m.set(s, ".signalled", 1)
		v, ok := ev.Val.(ai.Bool)
		if !ok || ev.Kind != "send" {
			m.must(s, ev.Fn, ev.Pos, "S02 done", "completion is signalled without a result", never())
			return
		}
		try := func(s *ai.State, good bool) {
			end, more := ai.Unknown, ai.Unknown
			if m.is(s, ".seen", 1) {
				st := s.Stream(stream)
				word := e.Bits(stream, st.Epoch, st.Pos, 32)
				end, more = s.Decide(Eq(word, endCode)), s.Decide(Eq(word, packCode))
			}
			perr := IsNil(s, s.Load(m.obj, ".perr", errT))
			failed := !m.is(s, ".failed", 0) || perr == ai.False
			if good {
				failed = failed || perr != ai.True
				m.must(s, ev.Fn, ev.Pos, "S02 result", "success is reported although the program end code was not seen", cond(end == ai.True && !failed))
				return
			}
			m.must(s, ev.Fn, ev.Pos, "S02 result", "failure is reported although the program end code was reached", cond(failed || end == ai.False))
			m.must(s, ev.Fn, ev.Pos, "S02 run", "the run ends although another pack may follow", cond(failed || more == ai.False))
			for _, o := range call(s, errFn, dec) {
				m.must(s, ev.Fn, ev.Pos, "S02 result", "a failed run leaves no error", cond(!o.Panicked && IsNil(o.S, o.Vals[0]) == ai.False))
			}
		}
		if v.IsConst {
			try(s, v.V)
			return
		}
		f := s.Clone()
		g := s.Clone()
		if g.Assume(v.C) {
			try(g, true)
		}
		if f.Assume(v.C.Not()) {
			try(f, false)
		}
	}
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if !running {
			return
		}
		switch ev.Kind {
		case "loopback":
			look(s)
		case "consume", "align":
			reads(s, ev)
			m.set(s, ".seen", 0)
			m.set(s, ".more", 0)
		case "peek":
			reads(s, ev)
			if n := ev.To.Sub(ev.From); n.IsConst() && n.K >= 32 {
				m.set(s, ".seen", 1)
			}
		case "fail":
			reads(s, ev)
			m.set(s, ".failed", 1)
		case "stub":
			reads(s, ev)
			m.set(s, ".seen", 0)
			m.set(s, ".more", 0)
			if ev.Callee == hdr {
				m.must(s, ev.Fn, ev.Pos, "S02 order", "a pack is not handed out before the next one is read", Eq(m.get(s, ".parsed"), 0))
				m.set(s, ".parsed", 1)
				m.set(s, ".running", 0)
			}
		case "packet":
			m.must(s, ev.Fn, ev.Pos, "S02 order", "the decoder reads a packet itself", never())
		case "go":
			f, ok := ev.Val.(ai.Func)
			if !ok || f.Fn == nil {
				m.must(s, ev.Fn, ev.Pos, "undecided", "a goroutine is not followed", never())
				return
			}
			m.must(s, ev.Fn, ev.Pos, "S02 order", "packets are delivered without a pack", Eq(m.get(s, ".parsed"), 1))
			m.must(s, ev.Fn, ev.Pos, "S02 order", "two goroutines deliver the packets of a pack", Eq(m.get(s, ".running"), 0))
			m.set(s, ".running", 1)
			m.set(s, ".busy", 1)
			// the pack's packets are found when it is handed out
			s.Ghost["packgo"] = f
			s.Ghost["packargs"] = ai.Tuple(ev.Args)
		case "send":
			switch ev.Obj {
			case packs:
				m.must(s, ev.Fn, ev.Pos, "S02 order", "a pack is handed out that was not just read", Eq(m.get(s, ".parsed"), 1))
				m.must(s, ev.Fn, ev.Pos, "S02 order", "a pack is handed out whose packets are not delivered", Eq(m.get(s, ".running"), 1))
				m.must(s, ev.Fn, ev.Pos, "S02 closed", "a pack is sent on the closed channel", Eq(m.get(s, ".closed"), 0))
				m.set(s, ".parsed", 0)
				f, ok := s.Ghost["packgo"].(ai.Func)
				if !ok {
					m.must(s, ev.Fn, ev.Pos, "undecided", "the goroutine of a pack is not known", never())
					return
				}
				for _, o := range call(s, pkFn, ev.Val) {
					if o.Panicked {
						m.must(s, ev.Fn, ev.Pos, "undecided", "the packet channel of a pack is not known", never())
						continue
					}
					pc := chanOf(o.Vals[0])
					if pc == 0 {
						m.must(s, ev.Fn, ev.Pos, "undecided", "the packet channel of a pack is not known", never())
						continue
					}
					// a sent packet is delivered only if no buffer holds it
					n, known := o.S.Obj(pc).Data.(ai.ChanCap)
					m.must(s, ev.Fn, ev.Pos, "S02 delivered", "the packet channel of a pack buffers packets: a pack is done before they are delivered", cond(known && n == 0))
					running = false
					sig := c.packRun(m, s, f.Fn, s.Ghost["packargs"].(ai.Tuple), f.Bind, stream, pc, [2]int64{packCode, endCode})
					running = true
					m.set(s, ".sig.#obj", int64(sig))
				}
			case done:
				signal(s, ev)
			default:
				m.must(s, ev.Fn, ev.Pos, "undecided", "a value is sent on an unknown channel", never())
			}
		case "recv":
			// whatever the goroutine of the pack read is gone
			e.Forget(s, stream)
			m.set(s, ".seen", 0)
			m.set(s, ".more", 0)
			if m.get(s, ".sig.#obj").Is(int64(ev.Obj)) && ev.Obj != 0 {
				m.set(s, ".busy", 0)
				m.set(s, ".sig.#obj", 0)
				s.Store(m.obj, ".perr", errT, ev.Val)
			}
		case "close":
			switch ev.Obj {
			case packs:
				m.must(s, ev.Fn, ev.Pos, "S02 closed", "the pack channel is closed twice", Eq(m.get(s, ".closed"), 0))
				m.must(s, ev.Fn, ev.Pos, "S02 closed", "the pack channel is closed before the handed-out pack has ended", Eq(m.get(s, ".busy"), 0))
				m.set(s, ".closed", 1)
			case done:
				if m.is(s, ".signalled", 0) {
					signal(s, ev)
				}
			default:
				m.must(s, ev.Fn, ev.Pos, "undecided", "an unknown channel is closed", never())
			}
		}
	}
	for _, g := range c.startedBy(r) {
		if len(g.args) != 3 {
			c.Anchor("the decoder's channels")
		}
		dec, packs, done = g.args[0], chanOf(g.args[1]), chanOf(g.args[2])
		stream = r.Stream()
		if packs == 0 || done == 0 || packs == done {
			c.Failf("undecided/decode", c.P.Where(g.pos), "the channels of the decoder are not known")
			continue
		}
		s := g.s.Clone()
		for _, k := range []string{".parsed", ".running", ".busy", ".closed", ".signalled", ".failed", ".last", ".seen", ".sig.#obj"} {
			m.set(s, k, 0)
		}
		m.set(s, ".more", 1)
		s.Store(m.obj, ".perr", errT, ai.Iface{Nil: ai.Const(1)})
		running = true
		outs := e.Call(s, g.fn, g.a, g.b)
		running = false
		for _, o := range outs {
			if o.Panicked {
				c.FailAt("decode/panic", o, g.fn, "may panic: %s", o.Why)
				continue
			}
			m.must(o.S, g.fn, o.Pos, "S02 closed", "the pack channel is not closed", Eq(m.get(o.S, ".closed"), 1))
			m.must(o.S, g.fn, o.Pos, "S02 done", "completion is not signalled", Eq(m.get(o.S, ".signalled"), 1))
		}
		c.Count("goroutine_paths", len(outs))
		if len(outs) == 0 {
			c.Failf("vacuous/decode", c.P.Where(g.pos), "the goroutine never ends")
		}
	}
	return m
}

// storageRun: the payload of a parsed packet lies in storage of its own.
func (c *Ctx) storageRun(pkg string) {
	e := c.Engine()
	fn := c.Fn(pkg, "NewPacket")
	r := c.Prepare(e, fn)
	pre := r.S.Clone()
	r.Run()
	pt := c.Named(pkg, "Packet")
	n := 0
	r.Successes(func(o ai.Outcome) {
		p, ok := o.Vals[0].(ai.Ptr)
		if !ok || p.Obj == 0 {
			c.FailAt(pkg+"/packet", o, fn, "the parsed packet is not known")
			return
		}
		own := func(what string, obj int) {
			n++
			if obj == 0 || obj == p.Obj {
				return
			}
			if pre.Existing(obj) {
				c.FailAt(fmt.Sprintf("%s/storage/%s", pkg, what), o, fn, "%s of a parsed packet lies in storage that outlives the call", what)
			}
		}
		own("the packet", p.Obj)
		if pre.Existing(p.Obj) {
			c.FailAt(pkg+"/storage/packet", o, fn, "a parsed packet lies in storage that outlives the call")
		}
		st := pt.Underlying().(*types.Struct)
		var walk func(obj int, path string, st *types.Struct, depth int)
		walk = func(obj int, path string, st *types.Struct, depth int) {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				switch u := f.Type().Underlying().(type) {
				case *types.Struct:
					walk(obj, path+"."+f.Name(), u, depth)
				case *types.Slice, *types.Pointer:
					switch v := o.S.Load(obj, path+"."+f.Name(), f.Type()).(type) {
					case ai.Slice:
						own("field "+f.Name(), v.Obj)
					case ai.Ptr:
						own("field "+f.Name(), v.Obj)
						if ps, ok := u.(*types.Pointer); ok && v.Obj != 0 && depth < 3 {
							if es, ok := ps.Elem().Underlying().(*types.Struct); ok {
								walk(v.Obj, v.Path, es, depth+1)
							}
						}
					}
				}
			}
		}
		walk(p.Obj, p.Path, st, 0)
	})
	c.Count("storage_obligations", n)
}

func init() {
	tech := "path-sensitive dataflow (abstract interpretation over go/ssa) of the goroutine with a typestate monitor on packets and channels"
	register("T14", tech, "", func(c *Ctx) {
		c.Rule("between two receives the payload is sent once (payload adapter) or appended once to the open unit (unit adapter); the output is closed once, after the input")
		for _, n := range []string{"tsOnly", "pesOnly", "tsUnits"} {
			c.Guard(n, func() { c.adapterRun(n).report(n, "T14", "T09") })
		}
	})
	register("S02", tech, "", func(c *Ctx) {
		c.Rule("header, delivery of the pack and of its packets alternate; the source is not read while a pack is delivered; channels close once; the result tells whether the end code was reached")
		c.Guard("decode", func() { c.decodeRun().report("decode", "S02") })
	})
	register("T09", tech+"; escape of parsed storage", "", func(c *Ctx) {
		c.Rule("no store, and no packet read, reaches a packet that was sent before; NewPacket returns storage of its own")
		for _, n := range []string{"demux", "demuxPlain"} {
			c.Guard(n, func() { c.demuxRun(n).report(n, "T09") })
		}
		c.Guard("decode", func() { c.decodeRun().report("decode", "T09") })
		for _, p := range []string{"ts", "pes"} {
			c.Guard(p, func() { c.storageRun(p) })
		}
	})
}
