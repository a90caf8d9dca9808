package checks

import (
	"verifchk/ai"
)

func init() {
	const tech = "path-sensitive dataflow over go/ssa: bit-provenance of every field on every success path"
	register("E01", tech, "", checkE01)
	register("E02", "path-sensitive dataflow over go/ssa: relational stream-position accounting", "", checkE02)
}

// pesRun analyses pes.NewPacket (fresh) or Packet.Next from a byte aligned
// position.
func pesRun(c *Ctx, fresh bool) (*Root, int) {
	e := c.Engine()
	var r *Root
	if fresh {
		r = c.Prepare(e, c.Fn("pes", "NewPacket"))
	} else {
		r = c.Prepare(e, c.Method("pes", "Packet", "Next"))
	}
	stream := r.Stream()
	r.S.Stream(stream).AlignAt = ai.Const(0)
	return r.Run(), stream
}

func pesPacket(r *Root, o ai.Outcome, fresh bool) (ai.Ptr, bool) {
	if fresh {
		p, ok := o.Vals[0].(ai.Ptr)
		return p, ok && IsNil(o.S, p) == ai.False
	}
	return r.Args[0].(ai.Ptr), true
}

var pesNoHeader = []int64{0xbc, 0xbe, 0xbf, 0xf0, 0xf1, 0xf2, 0xf8, 0xff}

// pesWalk walks one packet. fields: check header contents; frame: check
// framing; stale: check only that absent parts are absent.
func pesWalk(w *Walk, p ai.Ptr, fields, frame, stale bool) {
	c := w.C
	pt := c.Named("pes", "Packet")
	get := func(n string) ai.Val { return c.Field(w.S, p, pt, n) }
	code := w.U(24)
	if frame {
		w.Must("start-code-prefix", Eq(code, 1))
	}
	id := w.U(8)
	plen := w.U(16)
	if frame || stale {
		w.Eq("StreamID", get("StreamID"), id)
		w.Eq("PacketLength", get("PacketLength"), plen)
	}
	body := w.Pos
	hasHeader := true
	for _, k := range pesNoHeader {
		if w.If(Eq(id, k)) {
			hasHeader = false
			break
		}
	}
	hv := get("Header")
	if !hasHeader {
		if fields || stale || frame {
			w.MustNil("Header", hv)
		}
	} else if fields || frame || stale {
		if !w.MustNonNil("Header", hv) {
			return
		}
		pesHeader(w, hv.(ai.Ptr), fields || stale, frame, !stale)
	}
	if !frame && !stale {
		return
	}
	pv, ok := get("Payload").(ai.Slice)
	if !ok {
		w.fail("payload", "payload is %s", ai.ValString(get("Payload")))
		return
	}
	content := func(size *ai.Lin) {
		if w.S.Decide(Eq(size, 0)) == ai.True {
			return
		}
		st, ep, pos, ok := streamContent(w.S, pv)
		c.Count("path_obligations", 1)
		if !ok || st != w.Stream || ep != w.Epoch || w.S.Decide(EqL(pos, w.Pos)) != ai.True {
			w.fail("payload-content", "the payload is not shown to be the input bytes at %v", w.S.Norm(w.Pos))
		}
	}
	end := body.AddMul(plen, 8)
	switch {
	case hasHeader && w.If(Eq(plen, 0)):
		// everything up to the end of the source
		content(pv.Len)
		if frame {
			if w.S.Stream(w.Stream).Epoch == w.Epoch {
				w.Pos = w.Pos.AddMul(pv.Len, 8)
				w.AtEnd("unbounded-span")
			}
			if !w.S.Stream(w.Stream).Ended {
				w.fail("unbounded", "a packet without declared length does not extend to the end of the source")
			}
		}
		return
	case w.If(Eq(id, 0xbe)):
		if frame || stale {
			w.Must("padding-payload", Eq(pv.Len, 0))
		}
	default:
		size := end.Sub(w.Pos)
		w.Must("payload-length", EqL(pv.Len.Mul(8), size))
		content(size)
	}
	w.Pos = end
	w.AtEnd("span")
}

// pesHeader walks the optional header and leaves w at its end.
func pesHeader(w *Walk, h ai.Ptr, fields, frame, strict bool) {
	c := w.C
	get := c.getter(w.S, h, "pes", "Header")
	eq := func(n string, l *ai.Lin) {
		if fields {
			w.Eq("Header."+n, get(n), l)
		}
	}
	flag := func(n string) *ai.Lin {
		l := w.U(1)
		if fields {
			w.Flag("Header."+n, get(n), l)
		}
		return l
	}
	must := func(n string, l *ai.Lin, k int64) {
		if fields {
			w.Must(n, Eq(l, k))
		}
	}
	must("header-prefix", w.U(2), 2)
	eq("ScramblingControl", w.U(2))
	flag("Priority")
	flag("DataAlignmentIndicator")
	flag("Copyright")
	flag("OrignalOrCopy")
	pd := w.U(2)
	eq("PtsDtsFlags", pd)
	escr := flag("EscrFlag")
	esrate := flag("EsRateFlag")
	trick := flag("DsmTrickModeFlag")
	copyInfo := flag("AdditionalCopyInfoFlag")
	crc := flag("CrcFlag")
	ext := flag("ExtensionFlag")
	hdl := w.U(8)
	eq("HeaderDataLength", hdl)
	start := w.Pos
	end := start.AddMul(hdl, 8)

	stamp := func(name string, prefix int64) {
		must(name+"-prefix", w.U(4), prefix)
		hi := w.U(3)
		must(name+"-marker1", w.U(1), 1)
		mid := w.U(15)
		must(name+"-marker2", w.U(1), 1)
		lo := w.U(15)
		must(name+"-marker3", w.U(1), 1)
		if !fields {
			return
		}
		// keeping only the low 32 bits is E01's business
		full := hi.Mul(1 << 30).Add(mid.Mul(1 << 15)).Add(lo)
		got, _ := AsLin(get(name))
		top := w.At(w.Pos.AddK(-36), 1)
		low := full.AddMul(top, -(1 << 32))
		if got != nil && w.S.Decide(EqL(got, full)) != ai.True && w.S.Decide(EqL(got, low)) == ai.True {
			if !strict {
				return
			}
			w.fail(name+"-33-bit", "%s keeps only the low 32 of the 33 time stamp bits", name)
			return
		}
		w.Eq("Header."+name, got, full)
	}
	zero := func(n string) {
		if fields {
			w.Eq("Header."+n, get(n), ai.Const(0))
		}
	}
	switch {
	case w.If(Eq(pd, 2)):
		stamp("PresentationTimeStamp", 2)
		zero("DecodingTimeStamp")
	case w.If(Eq(pd, 3)):
		stamp("PresentationTimeStamp", 3)
		stamp("DecodingTimeStamp", 1)
	default:
		zero("PresentationTimeStamp")
		zero("DecodingTimeStamp")
	}
	for _, it := range []struct {
		f *ai.Lin
		n int64
	}{{escr, 6}, {esrate, 3}, {trick, 1}, {copyInfo, 1}, {crc, 2}} {
		if w.IfSet(it.f) {
			w.Skip(it.n * 8)
		}
	}
	if w.IfSet(ext) {
		var x ai.Val
		if fields {
			x = get("Extension")
			if !w.MustNonNil("Header.Extension", x) {
				return
			}
		}
		pesExtension(w, x, fields)
	} else if fields {
		w.MustNil("Header.Extension", get("Extension"))
	}
	if frame {
		w.Must("header-fits-data-length", GeL(end, w.Pos))
	}
	if fields {
		// the rest is stuffing, byte by byte
		for _, ev := range w.S.Events(nil) {
			if ev.Kind != "consume" || ev.Stream != w.Stream || ev.Epoch != w.Epoch {
				continue
			}
			from, to := w.S.Norm(ev.From), w.S.Norm(ev.To)
			if w.S.Decide(GeL(from, w.Pos)) != ai.True || w.S.Decide(GeL(from, end)) == ai.True {
				continue
			}
			n := to.Sub(from)
			if !n.IsConst() || n.K%8 != 0 || n.K > 2048 {
				w.fail("stuffing-unchecked", "stuffing bytes are skipped unseen at %s", c.P.Where(ev.Pos))
				continue
			}
			for k := int64(0); k < n.K; k += 8 {
				w.Must("stuffing-byte", Eq(w.At(from.AddK(k), 8), 255))
			}
		}
	}
	w.Pos = end
}

func pesExtension(w *Walk, xv ai.Val, fields bool) {
	c := w.C
	var get func(string) ai.Val
	if fields {
		get = c.getter(w.S, xv.(ai.Ptr), "pes", "Extension")
	}
	flag := func(n string) *ai.Lin {
		l := w.U(1)
		if fields {
			w.Flag("Extension."+n, get(n), l)
		}
		return l
	}
	priv := flag("PrivateDataFlag")
	pack := flag("PackHeaderFieldFlag")
	seq := flag("ProgramPacketSequenceCounterFlag")
	std := flag("P_STD_BufferFlag")
	w.Skip(3)
	ext2 := flag("ExtensionFlag2")
	if w.IfSet(priv) {
		if fields {
			sl, ok := get("PrivateData").(ai.Slice)
			st, ep, pos, ok2 := -1, -1, (*ai.Lin)(nil), false
			if ok {
				st, ep, pos, ok2 = streamContent(w.S, sl)
			}
			c.Count("field_obligations", 1)
			if !ok || !ok2 || st != w.Stream || ep != w.Epoch || w.S.Decide(EqL(pos, w.Pos)) != ai.True || w.S.Decide(Eq(sl.Len, 16)) != ai.True {
				w.fail("Extension.PrivateData", "PrivateData is not the 16 input bytes at %v", w.Pos)
			}
		}
		w.Skip(128)
	} else if fields {
		if sl, ok := get("PrivateData").(ai.Slice); !ok || w.S.Decide(Eq(sl.Len, 0)) != ai.True {
			w.fail("Extension.PrivateData", "PrivateData is set although its flag is not")
		}
	}
	if w.IfSet(pack) {
		n := w.U(8)
		w.SkipBytes(n)
	}
	if w.IfSet(seq) {
		w.Skip(16)
	}
	if w.IfSet(std) {
		pre := w.U(2)
		scale, size := w.U(1), w.U(13)
		if fields {
			w.Must("P_STD-prefix", Eq(pre, 1))
			b := get("P_STD_Buffer")
			if w.MustNonNil("Extension.P_STD_Buffer", b) {
				g := c.getter(w.S, b.(ai.Ptr), "pes", "P_STD_Buffer")
				w.Eq("P_STD_Buffer.Scale", g("Scale"), scale)
				w.Eq("P_STD_Buffer.Size", g("Size"), size)
			}
		}
	} else if fields {
		w.MustNil("Extension.P_STD_Buffer", get("P_STD_Buffer"))
	}
	if w.IfSet(ext2) {
		w.Skip(1)
		n := w.U(7)
		w.SkipBytes(n)
	}
}

func checkE01(c *Ctx) {
	c.Rule("on every success path of pes.NewPacket each header and extension field equals the input bits ISO/IEC 13818-1 assigns to it, present exactly when its flag is set; prefixes, markers and stuffing bytes have their fixed values")
	c.Guard("pes.NewPacket", func() {
		r, stream := pesRun(c, true)
		r.Successes(func(o ai.Outcome) {
			p, ok := pesPacket(r, o, true)
			if !ok {
				c.FailAt("E01/nil-packet", o, r.Fn, "success without a packet")
				return
			}
			c.Spec(r.E, o, r.Fn, stream, 0, ai.Const(0), "E01/", func(w *Walk) { pesWalk(w, p, true, false, false) })
		})
		// loops that read input inside the header consume stuffing only
		for _, l := range r.E.Loops {
			for i, b := range l.Backs {
				for _, x := range b.Events(l.HeadEv) {
					if x.Kind != "consume" || x.Stream != stream {
						continue
					}
					c.Count("loop_obligations", 1)
					n := b.Norm(x.To.Sub(x.From))
					if !n.IsConst() || n.K%8 != 0 || n.K > 64 {
						c.FailAt("E01/loop-read/"+l.Fn.String(), ai.Outcome{S: b, Pos: l.BackPos[i]}, r.Fn, "a loop reads %v bits of the header unchecked", n)
						continue
					}
					for k := int64(0); k < n.K; k += 8 {
						if b.Decide(Eq(r.E.Bits(stream, x.Epoch, b.Norm(x.From).AddK(k), 8), 255)) != ai.True {
							c.FailAt("E01/stuffing/"+l.Fn.String(), ai.Outcome{S: b, Pos: l.BackPos[i]}, r.Fn, "a stuffing byte other than 0xFF is accepted")
						}
					}
				}
			}
		}
	})
}

func checkE02(c *Ctx) {
	c.Rule("on every success path of pes.NewPacket the input stands exactly behind the declared length, the payload is the input region behind the header, and the declared length covers the header")
	c.Guard("pes.NewPacket", func() {
		r, stream := pesRun(c, true)
		r.Successes(func(o ai.Outcome) {
			p, ok := pesPacket(r, o, true)
			if !ok {
				c.FailAt("E02/nil-packet", o, r.Fn, "success without a packet")
				return
			}
			c.Spec(r.E, o, r.Fn, stream, 0, ai.Const(0), "E02/", func(w *Walk) { pesWalk(w, p, false, true, false) })
		})
	})
}

func pesReuse(c *Ctx) {
	c.Guard("pes.Packet.Next", func() {
		r, stream := pesRun(c, false)
		r.Successes(func(o ai.Outcome) {
			p, _ := pesPacket(r, o, false)
			c.Spec(r.E, o, r.Fn, stream, 0, ai.Const(0), "T04/pes/", func(w *Walk) { pesWalk(w, p, false, false, true) })
		})
	})
}

func pesTruncation(c *Ctx) {
	c.Guard("pes.NewPacket", func() {
		r, stream := pesRun(c, true)
		r.Failures(func(o ai.Outcome, ev *ai.ErrVal, v ai.Iface) {
			started := false
			for _, x := range o.S.Events(nil) {
				switch x.Kind {
				case "consume":
					started = started || x.Stream == stream
				case "partial":
					started = true
				}
			}
			c.truncation(r.E, o, r.Fn, ev, started, "T05/pes/")
		})
		c.noPendingSuccess(r, "T05/pes/")
	})
}
