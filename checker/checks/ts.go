package checks

import (
	"go/token"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

const syncByte = 0x47

func init() {
	const tech = "path-sensitive dataflow over go/ssa: bit-provenance of every field on every success path"
	register("T01", tech, "", checkT01)
	register("T02", tech, "", checkT02)
	register("T03", "path-sensitive dataflow over go/ssa: relational stream-position accounting", "", checkT03)
	register("T04", "path-sensitive dataflow over go/ssa from an arbitrary previous packet state", "", checkT04)
	register("T05", "error-flow analysis over every failing path", "", checkT05)
	register("T06", "loop-invariant and path analysis of the resynchronisation scan", "", checkT06)
	register("T13", "path enumeration of the predicate combinators over opaque operands", "", checkT13)
}

// syncStart finds where the packet parsed on a path starts: the first
// consumed position known to hold the sync byte.
func syncStart(e *ai.Engine, s *ai.State, stream int) (*ai.Lin, int) {
	for _, ev := range s.Events(nil) {
		if ev.Kind != "consume" || ev.Stream != stream {
			continue
		}
		if s.Decide(Eq(e.Bits(stream, ev.Epoch, s.Norm(ev.From), 8), syncByte)) == ai.True {
			return s.Norm(ev.From), ev.Epoch
		}
	}
	return nil, 0
}

type tsPath struct {
	o      ai.Outcome
	pkt    ai.Ptr
	stream int
	start  *ai.Lin
	epoch  int
}

// tsSuccess visits every success path of NewPacket (fresh=true) or of
// Packet.Next on a packet with arbitrary previous content.
func tsSuccess(c *Ctx, fresh bool, pre string, f func(r *Root, p tsPath)) *Root {
	e := c.Engine()
	var fn *ssa.Function
	if fresh {
		fn = c.Fn("ts", "NewPacket")
	} else {
		fn = c.Method("ts", "Packet", "Next")
	}
	r := c.Prepare(e, fn).Run()
	stream := r.Stream()
	r.Successes(func(o ai.Outcome) {
		p := tsPath{o: o, stream: stream}
		var ok bool
		if fresh {
			p.pkt, ok = o.Vals[0].(ai.Ptr)
		} else {
			p.pkt, ok = r.Args[0].(ai.Ptr)
		}
		if !ok || IsNil(o.S, p.pkt) != ai.False {
			c.FailAt(pre+"nil-packet", o, fn, "success without a packet")
			return
		}
		p.start, p.epoch = syncStart(e, o.S, stream)
		if p.start == nil {
			c.FailAt(pre+"no-sync", o, fn, "a packet is accepted on a path that has not established a sync byte at its start")
			return
		}
		f(r, p)
	})
	return r
}

// tsHeader walks the four header bytes. check may be nil.
func tsHeader(w *Walk, get func(string) ai.Val) (afc, pusi *ai.Lin) {
	chk := func(name string, l *ai.Lin, flag bool) {
		if get == nil {
			return
		}
		if flag {
			w.Flag(name, get(name), l)
		} else {
			w.Eq(name, get(name), l)
		}
	}
	w.U(8)
	chk("TransportErrorIndicator", w.U(1), true)
	pusi = w.U(1)
	chk("PayloadUnitStartIndicator", pusi, true)
	chk("TransportPriority", w.U(1), true)
	chk("PID", w.U(13), false)
	chk("TransportScramblingControl", w.U(2), false)
	afc = w.U(2)
	chk("AdaptationFieldControl", afc, false)
	chk("ContinuityCounter", w.U(4), false)
	return
}

func (c *Ctx) getter(s *ai.State, p ai.Ptr, pkg, typ string) func(string) ai.Val {
	t := c.Named(pkg, typ)
	return func(n string) ai.Val { return c.Field(s, p, t, n) }
}

func checkT01(c *Ctx) {
	c.Rule("on every success path of ts.NewPacket each header field equals the input bits at its offset from the sync byte")
	c.Guard("ts.NewPacket", func() {
		tsSuccess(c, true, "T01/", func(r *Root, p tsPath) {
			c.Spec(r.E, p.o, r.Fn, p.stream, p.epoch, p.start, "T01/", func(w *Walk) {
				tsHeader(w, c.getter(w.S, p.pkt, "ts", "Packet"))
			})
		})
	})
}

// tsAdaptation walks the adaptation field; w stands behind the header.
// mode "fields" checks contents, "fit" checks that lengths fit.
func tsAdaptation(w *Walk, afv ai.Val, fields bool) (length *ai.Lin) {
	c := w.C
	length = w.U(8)
	start := w.Pos
	if !fields {
		w.Must("adaptation-length-fits", Le(length, 183))
	}
	var get func(string) ai.Val
	if fields {
		if !w.MustNonNil("AdaptationField", afv) {
			return
		}
		get = c.getter(w.S, afv.(ai.Ptr), "ts", "AdaptationField")
	}
	flags := []string{"DiscontinuityIndicator", "RandomAccessIndicator", "ElementaryStreamPriorityIndicator",
		"PCRFlag", "OPCRFlag", "SplicingPointFlag", "TransportPrivateDataFlag", "AdaptationFieldExtensionFlag"}
	bit := map[string]*ai.Lin{}
	rem := length
	if w.If(Ge(length, 1)) {
		for _, n := range flags {
			bit[n] = w.U(1)
		}
		rem = rem.AddK(-1)
	} else {
		for _, n := range flags {
			bit[n] = ai.Const(0)
		}
	}
	if fields {
		for _, n := range flags {
			w.Flag("AdaptationField."+n, get(n), bit[n])
		}
	}
	clock := func(flag, name string) {
		v := ai.Const(0)
		if w.IfSet(bit[flag]) && w.If(Ge(rem, 6)) {
			base := w.U(33)
			w.Skip(6)
			v = base.Mul(300).Add(w.U(9))
			rem = rem.AddK(-6)
		}
		if fields {
			w.Eq("AdaptationField."+name, get(name), v)
		}
	}
	clock("PCRFlag", "PCR")
	clock("OPCRFlag", "OPCR")
	v := ai.Const(0)
	if w.IfSet(bit["SplicingPointFlag"]) && w.If(Ge(rem, 1)) {
		v = w.U(8)
		rem = rem.AddK(-1)
	}
	if fields {
		w.Eq("AdaptationField.SpliceCountdown", get("SpliceCountdown"), v)
	}
	if w.IfSet(bit["TransportPrivateDataFlag"]) && w.If(Ge(rem, 1)) {
		n := w.U(8)
		if !fields {
			w.Must("private-data-length-fits", Le(n.Sub(rem).AddK(1), 0))
		} else {
			w.MustNonNil("AdaptationField.TransportPrivateData", get("TransportPrivateData"))
		}
		w.SkipBytes(n)
		rem = rem.Sub(n).AddK(-1)
	} else if fields {
		w.MustNil("AdaptationField.TransportPrivateData", get("TransportPrivateData"))
	}
	if w.IfSet(bit["AdaptationFieldExtensionFlag"]) && w.If(Ge(rem, 2)) {
		n := w.U(8)
		if !fields {
			w.Must("extension-length-fits", Le(n.Sub(rem).AddK(1), 0))
		}
		end := w.Pos.AddMul(n, 8)
		if fields {
			x := get("AdapatationExtension")
			if w.MustNonNil("AdaptationField.AdapatationExtension", x) {
				tsExtension(w, x.(ai.Ptr), n)
			}
		}
		w.Pos = end
		rem = rem.Sub(n).AddK(-1)
	} else if fields {
		w.MustNil("AdaptationField.AdapatationExtension", get("AdapatationExtension"))
	}
	w.Pos = start.AddMul(length, 8)
	return
}

func tsExtension(w *Walk, x ai.Ptr, n *ai.Lin) {
	get := w.C.getter(w.S, x, "ts", "AdaptationExt")
	const pre = "AdaptationExt."
	z := ai.Const(0)
	ltw, pw, ss := z, z, z
	rem := n
	if w.If(Ge(rem, 1)) {
		ltw, pw, ss = w.U(1), w.U(1), w.U(1)
		w.Skip(5)
		rem = rem.AddK(-1)
	}
	w.Flag(pre+"LegalTimeWindowFlag", get("LegalTimeWindowFlag"), ltw)
	w.Flag(pre+"PiecewiseRateFlag", get("PiecewiseRateFlag"), pw)
	w.Flag(pre+"SeamlessSpliceFlag", get("SeamlessSpliceFlag"), ss)
	valid, off := z, z
	if w.IfSet(ltw) && w.If(Ge(rem, 2)) {
		valid, off = w.U(1), w.U(15)
		rem = rem.AddK(-2)
	}
	w.Flag(pre+"LTWValidFlag", get("LTWValidFlag"), valid)
	w.Eq(pre+"LTWOffset", get("LTWOffset"), off)
	rate := z
	if w.IfSet(pw) && w.If(Ge(rem, 3)) {
		w.Skip(2)
		rate = w.U(22)
		rem = rem.AddK(-3)
	}
	w.Eq(pre+"PiecewiseRate", get("PiecewiseRate"), rate)
	typ, dts := z, z
	if w.IfSet(ss) && w.If(Ge(rem, 5)) {
		typ = w.U(4)
		dts = w.U(3).Mul(1 << 30)
		w.Skip(1)
		dts = dts.Add(w.U(15).Mul(1 << 15))
		w.Skip(1)
		dts = dts.Add(w.U(15))
		w.Skip(1)
	}
	w.Eq(pre+"SpliceType", get("SpliceType"), typ)
	w.Eq(pre+"DTSNextAU", get("DTSNextAU"), dts)
}

func hasAF(w *Walk, afc *ai.Lin) bool { return w.If(Ge(afc, 2)) }

func checkT02(c *Ctx) {
	c.Rule("on every success path of ts.NewPacket each adaptation field item equals the input bits ISO/IEC 13818-1 assigns to it, present exactly when its flag is set and it fits, zero otherwise")
	c.Guard("ts.NewPacket", func() {
		tsSuccess(c, true, "T02/", func(r *Root, p tsPath) {
			c.Spec(r.E, p.o, r.Fn, p.stream, p.epoch, p.start, "T02/", func(w *Walk) {
				afc, _ := tsHeader(w, nil)
				if hasAF(w, afc) {
					tsAdaptation(w, c.Field(w.S, p.pkt, c.Named("ts", "Packet"), "AdaptationField"), true)
				}
			})
		})
	})
}

// streamContent says where in the input the bytes of a slice come from.
func streamContent(s *ai.State, sl ai.Slice) (stream, epoch int, pos *ai.Lin, ok bool) {
	o := s.Obj(sl.Obj)
	for i := len(o.Log) - 1; i >= 0; i-- {
		g := o.Log[i]
		if g.Path != sl.Path {
			return
		}
		if g.Lo == nil || g.Src != "stream" {
			return
		}
		// region must cover the slice
		if s.Decide(GeL(sl.Lo, g.Lo)) == ai.True && s.Decide(GeL(g.Lo.Add(g.Len), sl.Lo.Add(sl.Len))) == ai.True {
			return g.Stream, g.Epoch, s.Norm(g.Pos.AddMul(sl.Lo.Sub(g.Lo), 8)), true
		}
		// disjoint?
		if s.Decide(GeL(sl.Lo, g.Lo.Add(g.Len))) == ai.True || s.Decide(GeL(g.Lo, sl.Lo.Add(sl.Len))) == ai.True {
			continue
		}
		return
	}
	return
}

// tsFraming checks span and payload.
func tsFraming(w *Walk, p tsPath) {
	c := w.C
	afc, _ := tsHeader(w, nil)
	size := ai.Const(184)
	if hasAF(w, afc) {
		l := tsAdaptation(w, nil, false)
		size = size.Sub(l).AddK(-1)
	}
	pv := c.Field(w.S, p.pkt, c.Named("ts", "Packet"), "Payload")
	sl, ok := pv.(ai.Slice)
	if !ok {
		w.fail("payload", "payload is %s", ai.ValString(pv))
		return
	}
	if w.If(Eq(afc, 1)) || w.If(Eq(afc, 3)) {
		w.Must("payload-length", EqL(sl.Len, size))
		if w.S.Decide(Eq(size, 0)) != ai.True {
			st, ep, pos, ok := streamContent(w.S, sl)
			c.Count("path_obligations", 1)
			if !ok || st != w.Stream || ep != w.Epoch || w.S.Decide(EqL(pos, w.Pos)) != ai.True {
				w.fail("payload-content", "the payload is not shown to be the input bytes behind the adaptation field (at %v)", w.S.Norm(w.Pos))
			}
		}
	} else {
		w.Must("payload-absent", Eq(sl.Len, 0))
	}
	w.SkipBytes(size)
	w.AtEnd("span")
}

func checkT03(c *Ctx) {
	c.Rule("on every success path of ts.NewPacket the input stands exactly 1504 bits behind the sync byte; the payload is the input region behind the adaptation field; every accepted inner length fits its enclosing field")
	c.Guard("ts.NewPacket", func() {
		r := tsSuccess(c, true, "T03/", func(r *Root, p tsPath) {
			c.Spec(r.E, p.o, r.Fn, p.stream, p.epoch, p.start, "T03/", func(w *Walk) {
				tsFraming(w, p)
				w.Pos = p.start.AddK(188 * 8)
				w.AtEnd("span-188")
			})
		})
		// reads of a rejected packet never go beyond the packet either
		n := 0
		r.Failures(func(o ai.Outcome, ev *ai.ErrVal, v ai.Iface) {
			start, ep := syncStart(r.E, o.S, r.Stream())
			if start == nil || len(o.S.Pend) > 0 {
				return
			}
			for _, x := range o.S.Events(nil) {
				if x.Kind == "consume" && x.Stream == r.Stream() && x.Epoch == ep && x.To != nil {
					n++
					if o.S.Decide(Le(x.To.Sub(start), 188*8)) != ai.True {
						c.FailAt("T03/overread", o, r.Fn, "the input is read beyond the end of a packet that is then rejected")
						return
					}
				}
			}
		})
		c.Count("reads_bounded", n)
	})
}

func checkT04(c *Ctx) {
	c.Rule("starting from an arbitrary packet value, every exported field after a successful Next is determined by the new input alone; absent optional parts are nil or empty")
	c.Guard("ts.Packet.Next", func() {
		tsSuccess(c, false, "T04/ts/", func(r *Root, p tsPath) {
			c.Spec(r.E, p.o, r.Fn, p.stream, p.epoch, p.start, "T04/ts/", func(w *Walk) {
				afc, _ := tsHeader(w, c.getter(w.S, p.pkt, "ts", "Packet"))
				af := c.Field(w.S, p.pkt, c.Named("ts", "Packet"), "AdaptationField")
				if hasAF(w, afc) {
					tsAdaptation(w, af, true)
				} else {
					w.MustNil("AdaptationField", af)
				}
			})
			c.Spec(r.E, p.o, r.Fn, p.stream, p.epoch, p.start, "T04/ts/", func(w *Walk) { tsFraming(w, p) })
		})
	})
	pesReuse(c)
}

func checkT05(c *Ctx) {
	c.Rule("no failing path of ts.NewPacket or pes.NewPacket may return io.EOF after a byte of the packet was consumed, and no failed read ends in success")
	c.Guard("ts.NewPacket", func() {
		e := c.Engine()
		fn := c.Fn("ts", "NewPacket")
		r := c.Prepare(e, fn).Run()
		stream := r.Stream()
		r.Failures(func(o ai.Outcome, ev *ai.ErrVal, v ai.Iface) {
			started := false
			for _, x := range o.S.Events(nil) {
				switch x.Kind {
				case "consume":
					if x.Stream == stream && (x.To == nil || o.S.Decide(Eq(e.Bits(stream, x.Epoch, o.S.Norm(x.From), 8), syncByte)) != ai.False) {
						started = true
					}
				case "partial":
					started = true
				}
			}
			c.truncation(e, o, r.Fn, ev, started, "T05/ts/")
		})
		c.noPendingSuccess(r, "T05/ts/")
	})
	pesTruncation(c)
}

func (c *Ctx) truncation(e *ai.Engine, o ai.Outcome, fn *ssa.Function, ev *ai.ErrVal, started bool, pre string) {
	c.Count("error_path_obligations", 1)
	if !started {
		return
	}
	if ev == nil {
		c.FailAt(pre+"unknown-error", o, fn, "the returned error is not understood")
		return
	}
	if o.S.Decide(Eq(ev.Kind, ai.KindEOF)) != ai.False {
		c.FailAt(pre+"eof-inside-packet", o, fn, "io.EOF may be returned after part of the packet was consumed")
	}
}

// noPendingSuccess demands that no success path contains a failed read.
func (c *Ctx) noPendingSuccess(r *Root, pre string) {
	r.Successes(func(o ai.Outcome) {
		c.Count("path_obligations", 1)
		for _, p := range o.S.Pend {
			if p.Op == "ReadAll" && p.Kind != nil && o.S.Decide(Eq(p.Kind, r.E.ErrKind("ts.EOP"))) == ai.True {
				// the reader announced its regular end
				continue
			}
			c.FailAt(pre+"swallowed/"+p.Fn.String()+"/"+p.Op, o, r.Fn, "%s at %s fails, yet success is reported", p.Op, c.P.Where(p.Pos))
		}
	})
	for _, ob := range r.E.Obls {
		if ob.Kind == "dropped-error" && ob.Failed {
			c.Failf(pre+"dropped/"+ob.Fn.String()+"/"+ob.Detail, c.P.Where(ob.Pos), "%s: %s", ob.Fn, ob.Why)
		}
	}
}

func checkT06(c *Ctx) {
	c.Rule("every byte consumed before the sync byte is byte-aligned and known not to be 0x47, the sync byte is aligned, and the no-sync error is returned exactly after 188 discarded bytes")
	c.Guard("ts.Packet.Next", func() {
		e := c.Engine()
		fn := c.Method("ts", "Packet", "Next")
		r := c.Prepare(e, fn).Run()
		stream := r.Stream()
		kind := e.ErrKind("ts.ErrNoSyncByte")
		if c.Pkg("ts").Var("ErrNoSyncByte") == nil {
			c.Anchor("ts.ErrNoSyncByte")
		}
		// discards: consumed ranges before start, per state
		discards := func(o ai.Outcome, evs []*ai.Event, start *ai.Lin, where string) {
			for _, x := range evs {
				if x.Kind != "consume" || x.Stream != stream {
					continue
				}
				from := o.S.Norm(x.From)
				if start != nil && from.Equal(start) {
					return
				}
				n := o.S.Norm(x.To.Sub(x.From))
				c.Count("discards", 1)
				if !n.IsConst() || n.K%8 != 0 || n.K > 188*8 {
					c.FailAt("T06/discard-size/"+where, o, fn, "discards %v bits while searching for the sync byte", n)
					continue
				}
				for k := int64(0); k < n.K; k += 8 {
					if o.S.Decide(Eq(e.Bits(stream, x.Epoch, from.AddK(k), 8), syncByte)) != ai.False {
						c.FailAt("T06/discard-sync/"+where, o, fn, "a byte that may be the sync byte is discarded at %s", c.P.Where(x.Pos))
					}
				}
			}
		}
		aligned := func(s *ai.State, pos *ai.Lin) bool {
			at := s.Stream(stream).AlignAt
			if at == nil {
				return false
			}
			d := s.Norm(pos.Sub(at))
			for _, t := range d.T {
				if t.C%8 != 0 {
					return false
				}
			}
			return d.K%8 == 0
		}
		// the scan starts at the entry position, or behind the alignment
		scanStart := func(s *ai.State) *ai.Lin {
			at := ai.Const(0)
			for _, x := range s.Events(nil) {
				switch {
				case x.Stream != stream:
				case x.Epoch != 0:
					return nil
				case x.Kind == "align":
					at = x.To
				case x.Kind == "consume":
					return s.Norm(at)
				}
			}
			return s.Norm(at)
		}
		n188 := 0
		for _, o := range r.Outs {
			if o.Panicked {
				c.FailAt("T06/panic", o, fn, "panics: %s", o.Why)
				continue
			}
			start, _ := syncStart(e, o.S, stream)
			discards(o, o.S.Events(nil), start, "scan")
			if Succeeded(o, fn) != ai.False {
				c.Count("path_obligations", 2)
				if start == nil {
					c.FailAt("T06/no-sync", o, fn, "a packet is accepted without an established sync byte")
					continue
				}
				if !aligned(o.S, start) {
					c.FailAt("T06/unaligned", o, fn, "a packet is parsed from a position not known to be byte aligned")
				}
			}
			if start != nil {
				if s0 := scanStart(o.S); s0 != nil && o.S.Decide(Le(start.Sub(s0), 187*8)) != ai.True {
					c.FailAt("T06/scan-too-long", o, fn, "a sync byte more than 187 bytes ahead is accepted")
				}
				continue
			}
			ev := errOf(o, fn)
			if ev != nil && ev.Kind != nil && len(o.S.Pend) == 0 {
				n188++
				if o.S.Decide(Eq(ev.Kind, kind)) != ai.True {
					c.FailAt("T06/error", o, fn, "the search fails with %s instead of the no-sync error", ev.Name)
				}
				s0 := scanStart(o.S)
				end := o.S.Stream(stream).Pos
				if s0 == nil || o.S.Decide(Eq(end.Sub(s0), 188*8)) != ai.True {
					c.FailAt("T06/count", o, fn, "the no-sync error is returned after %v bits, want exactly 1504", o.S.Norm(end.Sub(s0)))
				}
			}
		}
		if n188 == 0 {
			c.Failf("T06/no-limit", c.P.Where(fn.Pos()), "the search for a sync byte never gives up with the no-sync error")
		}
		for _, l := range e.Loops {
			for i, b := range l.Backs {
				o := ai.Outcome{S: b, Pos: l.BackPos[i]}
				discards(o, b.Events(l.HeadEv), nil, "scan")
			}
		}
		c.Count("loops", len(e.Loops))
	})
}

func errOf(o ai.Outcome, fn *ssa.Function) *ai.ErrVal {
	i := ErrIdx(fn)
	if i < 0 {
		return nil
	}
	v, _ := o.Vals[i].(ai.Iface)
	ev, _ := v.V.(*ai.ErrVal)
	return ev
}

func checkT13(c *Ctx) {
	c.Rule("every path of Not/And/Or returns the logical combination of its operands' verdicts; IsPID and IsPayloadUnitStart compare exactly one header field; no store to the packet")
	pkt := func(c *Ctx) *ssa.Function { return c.Method("ts", "Packet", "Next") }
	_ = pkt
	evalTester := func(e *ai.Engine, s *ai.State, what string, v ai.Val, check func(o ai.Outcome, p ai.Ptr, evs []*ai.Event)) {
		f, ok := v.(ai.Func)
		if !ok || f.Fn == nil {
			c.Failf("T13/"+what+"/not-a-function", "-", "%s does not yield a known predicate: %s", what, ai.ValString(v))
			return
		}
		pt := f.Fn.Params[len(f.Fn.Params)-1].Type()
		p := NonNil(s.Sym("tested packet", pt)).(ai.Ptr)
		stores := 0
		e.OnStore = func(st *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) {
			if obj == p.Obj {
				stores++
				c.Failf("T13/"+what+"/store", c.P.Where(pos), "%s modifies the tested packet (%s)", fn, path)
			}
		}
		defer func() { e.OnStore = nil }()
		// whatever was tested before, the same value with other contents or
		// another packet
		q := NonNil(s.Sym("packet tested before", pt)).(ai.Ptr)
		type start struct {
			s *ai.State
			n int // events so far
		}
		from := []start{{s: s.Clone()}}
		for _, first := range []ai.Ptr{p, q} {
			for _, o := range e.Call(s.Clone(), f.Fn, []ai.Val{first}, f.Bind) {
				if o.Panicked {
					continue
				}
				st := o.S
				st.HavocUnder(first.Obj, first.Path, "retested")
				from = append(from, start{st, len(st.Events(nil))})
			}
		}
		for _, st := range from {
			outs := e.Call(st.s, f.Fn, []ai.Val{p}, f.Bind)
			c.Count("paths", len(outs))
			if len(outs) == 0 {
				c.Failf("T13/"+what+"/vacuous", c.P.Where(f.Fn.Pos()), "no path through %s", f.Fn)
			}
			for _, o := range outs {
				if o.Panicked {
					c.FailAt("T13/"+what+"/panic", o, f.Fn, "panics: %s", o.Why)
					continue
				}
				c.Count("path_obligations", 1)
				check(o, p, o.S.Events(nil)[st.n:])
			}
		}
	}
	truth := func(o ai.Outcome, v ai.Val) ai.Tri {
		b, ok := v.(ai.Bool)
		if !ok {
			return ai.Unknown
		}
		return DecideBool(o.S, b)
	}
	comb := func(name string, n int) {
		c.Guard("ts.PacketTester."+name, func() {
			e := c.Engine()
			fn := c.Method("ts", "PacketTester", name)
			r := c.Prepare(e, fn)
			for i := range r.Args {
				r.Args[i] = NonNil(r.Args[i])
			}
			var keys []string
			for _, a := range r.Args {
				keys = append(keys, a.(ai.Func).Key)
			}
			r.Run()
			for _, o := range r.Outs {
				if o.Panicked || len(o.Vals) != 1 {
					c.FailAt("T13/"+name+"/build", o, fn, "does not yield a predicate")
					continue
				}
				evalTester(e, o.S, name, o.Vals[0], func(o ai.Outcome, p ai.Ptr, evs []*ai.Event) {
					// verdicts obtained on this path
					calls := map[string]ai.Val{}
					for _, ev := range evs {
						if ev.Kind != "call" {
							continue
						}
						a, ok := ev.Args[0].(ai.Ptr)
						if !ok || a.Obj != p.Obj || a.Path != p.Path {
							c.FailAt("T13/"+name+"/argument", o, fn, "an operand is evaluated on a different packet")
						}
						calls[ev.Name] = ev.Res[0]
					}
					// enumerate assignments compatible with the path
					for m := 0; m < 1<<n; m++ {
						s := o.S.Clone()
						feasible := true
						for i := 0; i < n; i++ {
							want := m>>i&1 == 1
							if v, ok := calls[keys[i]]; ok {
								b := v.(ai.Bool)
								if !want {
									b = b.Not()
								}
								if b.IsConst {
									feasible = feasible && b.V
								} else {
									feasible = feasible && s.Assume(b.C)
								}
							}
						}
						if !feasible {
							continue
						}
						x, y := m&1 == 1, m&2 == 2
						var want bool
						switch name {
						case "Not":
							want = !x
						case "And":
							want = x && y
						case "Or":
							want = x || y
						}
						exp := ai.False
						if want {
							exp = ai.True
						}
						o2 := o
						o2.S = s
						c.Count("truth_table_rows", 1)
						if truth(o2, o.Vals[0]) != exp {
							c.FailAt("T13/"+name+"/verdict", o2, fn, "operands %v,%v must give %v, the path yields %s", x, y, want, ai.ValString(o.Vals[0]))
						}
					}
				})
			}
		})
	}
	comb("Not", 1)
	comb("And", 2)
	comb("Or", 2)
	c.Guard("ts.IsPID", func() {
		e := c.Engine()
		fn := c.Fn("ts", "IsPID")
		r := c.Prepare(e, fn).Run()
		for _, o := range r.Outs {
			evalTester(e, o.S, "IsPID", o.Vals[0], func(o ai.Outcome, p ai.Ptr, evs []*ai.Event) {
				pid := c.Field(o.S, p, c.Named("ts", "Packet"), "PID").(*ai.Lin)
				if !boolEquiv(o.S, o.Vals[0], EqL(pid, r.Args[0].(*ai.Lin))) {
					c.FailAt("T13/IsPID/verdict", o, fn, "yields %s, want PID == pid", ai.ValString(o.Vals[0]))
				}
			})
		}
	})
	c.Guard("ts.IsPayloadUnitStart", func() {
		e := c.Engine()
		g := c.Pkg("ts").Var("IsPayloadUnitStart")
		if g == nil {
			c.Anchor("ts.IsPayloadUnitStart")
		}
		s := e.NewState()
		v := e.GlobalVal(s, g)
		evalTester(e, s, "IsPayloadUnitStart", v, func(o ai.Outcome, p ai.Ptr, evs []*ai.Event) {
			b, _ := c.Field(o.S, p, c.Named("ts", "Packet"), "PayloadUnitStartIndicator").(ai.Bool)
			if b.IsConst || !boolEquiv(o.S, o.Vals[0], b.C) {
				c.FailAt("T13/IsPayloadUnitStart/verdict", o, c.Method("ts", "Packet", "Next"), "yields %s, want the indicator", ai.ValString(o.Vals[0]))
			}
		})
	})
}
