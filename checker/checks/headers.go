package checks

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

func init() {
	const tech = "path-sensitive dataflow over go/ssa: bit-provenance of every field on every success path"
	register("S01", tech, "", checkS01)
	register("V01", tech, "", checkV01)
	register("V02", tech, "", checkV02)
	register("X05", "path enumeration of the start-code predicates over go/ssa", "", checkX05)
	register("V10", "loop-invariant and path analysis of the start-code scans", "", checkV10)
}

// headerRoot analyses a parser from a byte aligned position.
func (c *Ctx) headerRoot(fn *ssa.Function, aligned bool) (*Root, int) {
	e := c.Engine()
	r := c.Prepare(e, fn)
	st := r.StreamOf()
	if aligned {
		r.S.Stream(st).AlignAt = ai.Const(0)
	}
	return r.Run(), st
}

// header checks one parser against a syntax.
func (c *Ctx) header(pkg, typ, pre string, syntax func(w *Walk, get func(string) ai.Val)) *Root {
	return c.headerP(pkg, typ, pre, func(w *Walk, p ai.Ptr, get func(string) ai.Val) { syntax(w, get) })
}

func (c *Ctx) headerP(pkg, typ, pre string, syntax func(w *Walk, p ai.Ptr, get func(string) ai.Val)) *Root {
	var r *Root
	c.Guard(pkg+"."+typ, func() {
		fn := c.parserOf(pkg, typ)
		var st int
		r, st = c.headerRoot(fn, true)
		r.Successes(func(o ai.Outcome) {
			p, ok := o.Vals[0].(ai.Ptr)
			if !ok || IsNil(o.S, p) != ai.False {
				c.FailAt(pre+"nil", o, fn, "success without a value")
				return
			}
			c.Spec(r.E, o, fn, st, 0, ai.Const(0), pre, func(w *Walk) {
				syntax(w, p, c.getter(w.S, p, pkg, typ))
			})
		})
		c.Sample("%s is parsed by %s", pkg+"."+typ, fn)
	})
	return r
}

// item helpers bound to one struct
type fields struct {
	w   *Walk
	get func(string) ai.Val
	typ string
}

func (f fields) num(n string, bits int) *ai.Lin {
	l := f.w.U(bits)
	f.w.Eq(f.typ+"."+n, f.get(n), l)
	return l
}
func (f fields) flag(n string) *ai.Lin {
	l := f.w.U(1)
	f.w.Flag(f.typ+"."+n, f.get(n), l)
	return l
}
func (f fields) zero(n string) { f.w.Eq(f.typ+"."+n, f.get(n), ai.Const(0)) }
func (f fields) clear(n string) {
	f.w.Bool(f.typ+"."+n, f.get(n), ai.Cmp{Op: ai.NE, L: ai.Const(0)})
}
func (f fields) fixed(what string, bits int, v int64) {
	f.w.Must(what, Eq(f.w.U(bits), v))
}
func (f fields) marker(what string) { f.fixed(f.typ+"/marker/"+what, 1, 1) }

// startCode demands that the walk ended where a start code follows.
func (w *Walk) stopsAtStartCode() {
	c := w.C
	st := w.S.Stream(w.Stream)
	c.Count("path_obligations", 3)
	if st.Epoch != w.Epoch {
		w.fail("stop", "the position after the header is unknown")
		return
	}
	q := w.S.Norm(st.Pos)
	if w.S.Decide(Eq(w.E.Bits(w.Stream, w.Epoch, q, 24), 1)) != ai.True {
		w.fail("stop", "the parser stops at %v where no start code is known to follow", q)
	}
	if w.S.Decide(GeL(q, w.Pos)) != ai.True {
		w.fail("span", "the parser stops at bit %v, before the end of the header at %v", q, w.S.Norm(w.Pos))
	}
	// nothing but alignment and zero bytes is skipped
	pos := w.S.Norm(w.Pos)
	for _, ev := range w.S.Events(nil) {
		if ev.Stream != w.Stream || ev.Epoch != w.Epoch || ev.From == nil || ev.To == nil {
			continue
		}
		if ev.Kind != "consume" && ev.Kind != "align" {
			continue
		}
		from, to := w.S.Norm(ev.From), w.S.Norm(ev.To)
		if w.S.Decide(Le(to.Sub(pos), 0)) == ai.True {
			continue
		}
		if w.S.Decide(GeL(from, pos)) != ai.True {
			w.fail("span", "a read of [%v..%v) crosses the end of the header at %v", from, to, pos)
			continue
		}
		if ev.Kind == "align" {
			continue
		}
		n := to.Sub(from)
		if !n.IsConst() || n.K%8 != 0 || n.K > 64 {
			w.fail("skipped", "%v bits are skipped behind the header", n)
			continue
		}
		for k := int64(0); k < n.K; k += 8 {
			if w.S.Decide(Eq(w.At(from.AddK(k), 8), 0)) != ai.True {
				w.fail("skipped", "a byte not known to be zero is skipped behind the header")
			}
		}
	}
}

// zeroLoops demands that loops skip only zero bytes; own reports loops that
// are checked elsewhere.
func (c *Ctx) zeroLoops(r *Root, stream int, pre string, own func(l *ai.LoopInfo) bool) {
	for _, l := range r.E.Loops {
		if own != nil && own(l) {
			continue
		}
		for i, b := range l.Backs {
			c.Count("loop_obligations", 1)
			for _, x := range b.Events(l.HeadEv) {
				if x.Kind != "consume" || x.Stream != stream {
					continue
				}
				n := b.Norm(x.To.Sub(x.From))
				o := ai.Outcome{S: b, Pos: l.BackPos[i]}
				if !n.IsConst() || n.K%8 != 0 || n.K > 64 {
					c.FailAt(pre+"loop-skip/"+l.Fn.String(), o, l.Fn, "a loop skips %v bits unseen", n)
					continue
				}
				for k := int64(0); k < n.K; k += 8 {
					if b.Decide(Eq(r.E.Bits(stream, x.Epoch, b.Norm(x.From).AddK(k), 8), 0)) != ai.True {
						c.FailAt(pre+"loop-nonzero/"+l.Fn.String(), o, l.Fn, "a loop skips a byte that is not known to be zero")
					}
				}
			}
		}
	}
}

func checkV01(c *Ctx) {
	c.Rule("on every success path of the parsers of SequenceHeader, SequenceExtension and SequenceDisplayExtension each field equals the bits ISO/IEC 13818-2 6.2.2 assigns to it; start codes, extension ids and markers have their fixed values; the input then stands at a start code, only alignment and zero bytes skipped")
	matrix := func(f fields, p ai.Ptr, n string, on bool) {
		w := f.w
		t := c.Named("video", "SequenceHeader")
		path, ft := promoted(t, fieldName(t, n))
		if ft == nil {
			c.Anchor("field video.SequenceHeader." + n)
		}
		for v := 0; v < 8; v++ {
			for u := 0; u < 8; u++ {
				want := ai.Const(0)
				if on {
					want = w.U(8)
				}
				w.Eq(f.typ+"."+n, w.S.Load(p.Obj, p.Path+path+idx(v)+idx(u), elemElem(ft)), want)
			}
		}
	}
	r := c.headerP("video", "SequenceHeader", "V01/", func(w *Walk, p ai.Ptr, get func(string) ai.Val) {
		f := fields{w, get, "SequenceHeader"}
		f.fixed("SequenceHeader/start-code", 32, 0x1b3)
		f.num("horizontal_size_value", 12)
		f.num("vertical_size_value", 12)
		f.num("aspect_ratio_information", 4)
		f.num("frame_rate_code", 4)
		f.num("bit_rate_value", 18)
		f.marker("bit_rate")
		f.num("vbv_buffer_size_value", 10)
		f.flag("constrained_parameters_flag")
		matrix(f, p, "intra_quantiser_matrix", w.IfSet(f.flag("load_intra_quantiser_matrix")))
		matrix(f, p, "non_intra_quantiser_matrix", w.IfSet(f.flag("load_non_intra_quantiser_matrix")))
		w.stopsAtStartCode()
	})
	c.loopsOf(r, "V01/SequenceHeader/")
	r = c.header("video", "SequenceExtension", "V01/", func(w *Walk, get func(string) ai.Val) {
		f := fields{w, get, "SequenceExtension"}
		f.fixed("SequenceExtension/start-code", 32, 0x1b5)
		f.fixed("SequenceExtension/id", 4, 1)
		f.num("profile_and_level_indication", 8)
		f.num("progressive_sequence", 1)
		f.num("chroma_format", 2)
		f.num("horizontal_size_extension", 2)
		f.num("vertical_size_extension", 2)
		f.num("bit_rate_extension", 12)
		f.marker("bit_rate")
		f.num("vbv_buffer_size_extension", 8)
		f.num("low_delay", 1)
		f.num("frame_rate_extension_n", 2)
		f.num("frame_rate_extension_d", 5)
		w.stopsAtStartCode()
	})
	c.loopsOf(r, "V01/SequenceExtension/")
	r = c.header("video", "SequenceDisplayExtension", "V01/", func(w *Walk, get func(string) ai.Val) {
		f := fields{w, get, "SequenceDisplayExtension"}
		f.fixed("SequenceDisplayExtension/id", 4, 2)
		f.num("video_format", 3)
		if w.IfSet(f.flag("colour_description")) {
			f.num("colour_primaries", 8)
			f.num("transfer_characteristics", 8)
			f.num("matrix_coefficients", 8)
		} else {
			f.zero("colour_primaries")
			f.zero("transfer_characteristics")
			f.zero("matrix_coefficients")
		}
		f.num("display_horizontal_size", 14)
		f.marker("display_size")
		f.num("display_vertical_size", 14)
		w.stopsAtStartCode()
	})
	c.loopsOf(r, "V01/SequenceDisplayExtension/")
}

func (c *Ctx) loopsOf(r *Root, pre string) {
	if r != nil {
		c.zeroLoops(r, r.StreamOf(), pre, nil)
	}
}

func checkV02(c *Ctx) {
	c.Rule("on every success path of the parsers of GroupOfPicturesHeader, PictureHeader, PictureCodingExtension and PictureTemporalScalableExtension each field equals the bits ISO/IEC 13818-2 6.2.2.6-6.2.3.5 assigns to it, conditional parts exactly under their condition; TimeCode's fields are the sub-fields of the 25 time code bits")
	gopRoot := c.headerP("video", "GroupOfPicturesHeader", "V02/", func(w *Walk, p ai.Ptr, get func(string) ai.Val) {
		f := fields{w, get, "GroupOfPicturesHeader"}
		f.fixed("GroupOfPicturesHeader/start-code", 32, 0x1b8)
		tc := w.Pos
		w.U(25)
		f.flag("ClosedGOP")
		f.flag("BrokenLink")
		w.stopsAtStartCode()
		// the time code this header reports
		fn := c.Method("video", "GroupOfPicturesHeader", "TimeCode")
		outs := w.E.Call(w.S.Clone(), fn, []ai.Val{ai.Val(p)}, nil)
		c.Count("time_code_paths", len(outs))
		if len(outs) == 0 {
			w.fail("TimeCode/vacuous", "TimeCode has no path")
		}
		tt := c.Named("video", "TimeCode")
		for _, o := range outs {
			if o.Panicked {
				w.fail("TimeCode/panic", "TimeCode panics: %s", o.Why)
				continue
			}
			w2 := *w
			w2.S = o.S
			at := func(off, n int64) *ai.Lin { return w2.At(tc.AddK(off), int(n)) }
			fv := func(n string) ai.Val { return AggField(o.S, o.Vals[0], tt, n) }
			w2.Flag("TimeCode.DropFrame", fv("DropFrame"), at(0, 1))
			w2.Eq("TimeCode.Hours", fv("Hours"), at(1, 5))
			w2.Eq("TimeCode.Minutes", fv("Minutes"), at(6, 6))
			w2.Eq("TimeCode.Seconds", fv("Seconds"), at(13, 6))
			w2.Eq("TimeCode.Pictures", fv("Pictures"), at(19, 6))
		}
	})
	c.loopsOf(gopRoot, "V02/GroupOfPicturesHeader/")

	var extra *ai.LoopInfo
	c.Guard("video.PictureHeader", func() {
		fn := c.parserOf("video", "PictureHeader")
		r, st := c.headerRoot(fn, true)
		// the extra information loop
		own := func(l *ai.LoopInfo) bool {
			for _, b := range l.Backs {
				for _, x := range b.Events(l.HeadEv) {
					if x.Kind == "append" {
						return true
					}
				}
			}
			return false
		}
		for _, l := range r.E.Loops {
			if !own(l) {
				continue
			}
			extra = l
			c.extraInformation(r, l, st, "V02/PictureHeader/")
		}
		if extra == nil {
			c.Anchor("the extra information loop of the picture header")
		}
		c.zeroLoops(r, st, "V02/PictureHeader/", own)
		r.Successes(func(o ai.Outcome) {
			p, ok := o.Vals[0].(ai.Ptr)
			if !ok || IsNil(o.S, p) != ai.False {
				c.FailAt("V02/nil", o, fn, "success without a value")
				return
			}
			c.Spec(r.E, o, fn, st, 0, ai.Const(0), "V02/", func(w *Walk) {
				f := fields{w, c.getter(w.S, p, "video", "PictureHeader"), "PictureHeader"}
				f.fixed("PictureHeader/start-code", 32, 0x100)
				f.num("temporal_reference", 10)
				t := f.num("picture_coding_type", 3)
				f.num("vbv_delay", 16)
				b := w.If(Eq(t, 3))
				if b || w.If(Eq(t, 2)) {
					f.num("full_pel_forward_vector", 1)
					f.num("forward_f_code", 3)
				} else {
					f.zero("full_pel_forward_vector")
					f.zero("forward_f_code")
				}
				if b {
					f.num("full_pel_backward_vector", 1)
					f.num("backward_f_code", 3)
				} else {
					f.zero("full_pel_backward_vector")
					f.zero("backward_f_code")
				}
				// extra information: one entry of 9 bits each
				sl, ok := f.get("extra_information").(ai.Slice)
				if !ok {
					w.fail("PictureHeader.extra_information", "not a slice")
					return
				}
				w.Pos = w.Pos.Add(sl.Len.Mul(9))
				f.fixed("PictureHeader/extra-bit", 1, 0)
				w.stopsAtStartCode()
			})
		})
	})

	r := c.header("video", "PictureCodingExtension", "V02/", func(w *Walk, get func(string) ai.Val) {
		f := fields{w, get, "PictureCodingExtension"}
		f.fixed("PictureCodingExtension/start-code", 32, 0x1b5)
		f.fixed("PictureCodingExtension/id", 4, 8)
		fc := get("f_code")
		for s := 0; s < 2; s++ {
			for t := 0; t < 2; t++ {
				w.Eq("PictureCodingExtension.f_code", AggElem(w.S, fc, s, t), w.U(4))
			}
		}
		f.num("intra_dc_precision", 2)
		f.num("picture_structure", 2)
		f.flag("top_field_first")
		f.num("frame_pred_frame_dct", 1)
		f.flag("concealment_motion_vectors")
		f.num("q_scale_type", 1)
		f.num("intra_vlc_format", 1)
		f.num("alternate_scan", 1)
		f.flag("repeat_first_field")
		f.flag("chroma_420_type")
		f.flag("progressive_frame")
		if w.IfSet(f.flag("composite_display_flag")) {
			f.flag("v_axis")
			f.num("field_sequence", 3)
			f.flag("sub_carrier")
			f.num("burst_amplitude", 7)
			f.num("sub_carrier_phase", 8)
		} else {
			f.clear("v_axis")
			f.zero("field_sequence")
			f.clear("sub_carrier")
			f.zero("burst_amplitude")
			f.zero("sub_carrier_phase")
		}
		w.stopsAtStartCode()
	})
	c.loopsOf(r, "V02/PictureCodingExtension/")
	r = c.header("video", "PictureTemporalScalableExtension", "V02/", func(w *Walk, get func(string) ai.Val) {
		f := fields{w, get, "PictureTemporalScalableExtension"}
		f.fixed("PictureTemporalScalableExtension/id", 4, 10)
		f.num("reference_select_code", 2)
		f.num("forward_temporal_reference", 10)
		f.marker("temporal_reference")
		f.num("backward_temporal_reference", 10)
		w.stopsAtStartCode()
	})
	c.loopsOf(r, "V02/PictureTemporalScalableExtension/")
}

// extraInformation: every traversal reads a 1 bit and one byte, which is
// appended.
func (c *Ctx) extraInformation(r *Root, l *ai.LoopInfo, st int, pre string) {
	for i, b := range l.Backs {
		o := ai.Outcome{S: b, Pos: l.BackPos[i]}
		c.Count("loop_obligations", 3)
		h := b.Norm(l.Head.Stream(st).Pos)
		if b.Decide(Eq(b.Stream(st).Pos.Sub(h), 9)) != ai.True {
			c.FailAt(pre+"extra-span", o, r.Fn, "an extra information entry spans %v bits, want 9", b.Norm(b.Stream(st).Pos.Sub(h)))
			continue
		}
		if b.Decide(Eq(r.E.Bits(st, b.Stream(st).Epoch, h, 1), 1)) != ai.True {
			c.FailAt(pre+"extra-bit", o, r.Fn, "an extra information entry is read without its leading 1 bit")
		}
		n := 0
		for _, x := range b.Events(l.HeadEv) {
			if x.Kind != "append" {
				continue
			}
			n++
			el, ok := appended(b, x, 0)
			v, isNum := el.(*ai.Lin)
			if !ok || !isNum || b.Decide(EqL(v, r.E.Bits(st, b.Stream(st).Epoch, h.AddK(1), 8))) != ai.True {
				c.FailAt(pre+"extra-value", o, r.Fn, "an extra information entry holds %s, want the byte behind its leading bit", ai.ValString(el))
			}
		}
		if n != 1 {
			c.FailAt(pre+"extra-count", o, r.Fn, "an extra information entry appends %d values", n)
		}
	}
}

func checkS01(c *Ctx) {
	c.Rule("on every success path of ps.NewPackHeader each pack and system header field equals the bits ISO/IEC 13818-1 2.5.3.4 and 2.5.3.6 assign to it; start codes and markers have their fixed values; the input stands behind the stuffing or the last stream entry")
	c.Guard("ps.NewPackHeader", func() {
		fn := c.Fn("ps", "NewPackHeader")
		r, st := c.headerRoot(fn, true)
		entry := c.Named("ps", "SystemHeaderStream")
		streamsLoop := map[*ai.LoopInfo]bool{}
		for _, l := range r.E.Loops {
			for i, b := range l.Backs {
				n := 0
				h := b.Norm(l.Head.Stream(st).Pos)
				o := ai.Outcome{S: b, Pos: l.BackPos[i]}
				for _, x := range b.Events(l.HeadEv) {
					if x.Kind != "append" {
						continue
					}
					el, ok := appended(b, x, 0)
					if !ok {
						continue
					}
					var get func(string) ai.Val
					switch v := el.(type) {
					case ai.Ptr:
						get = func(n string) ai.Val { return c.Field(b, v, entry, n) }
					case *ai.Agg:
						get = func(n string) ai.Val { return AggField(b, v, entry, n) }
					default:
						continue
					}
					n++
					streamsLoop[l] = true
					w := &Walk{C: c, O: o, S: b, Fn: fn, E: r.E, Stream: st, Epoch: b.Stream(st).Epoch, Pos: h, Pre: "S01/"}
					f := fields{w, get, "SystemHeaderStream"}
					f.fixed2("SystemHeaderStream/leading-bit", h, 1, 1)
					f.num("StreamID", 8)
					f.fixed("SystemHeaderStream/marker", 2, 3)
					f.flag("P_STD_BufferBoundScale")
					f.num("P_STD_BufferSizeBound", 13)
					w.AtEnd("SystemHeaderStream/span")
				}
				if n > 1 {
					c.FailAt("S01/stream-entries", o, fn, "one traversal appends %d stream entries", n)
				}
			}
		}
		for l := range streamsLoop {
			for i, b := range l.Backs {
				appends := 0
				for _, x := range b.Events(l.HeadEv) {
					if x.Kind == "append" {
						appends++
					}
				}
				if appends != 1 {
					c.FailAt("S01/stream-entries", ai.Outcome{S: b, Pos: l.BackPos[i]}, fn, "a stream entry is read but not kept")
				}
			}
		}
		if len(streamsLoop) == 0 {
			c.Anchor("the loop over the stream entries of a system header")
		}
		with, without := 0, 0
		r.Successes(func(o ai.Outcome) {
			p, ok := o.Vals[0].(ai.Ptr)
			if !ok || IsNil(o.S, p) != ai.False {
				c.FailAt("S01/nil", o, fn, "success without a value")
				return
			}
			c.Spec(r.E, o, fn, st, 0, ai.Const(0), "S01/", func(w *Walk) {
				get := c.getter(w.S, p, "ps", "PackHeader")
				f := fields{w, get, "PackHeader"}
				f.fixed("PackHeader/start-code", 32, 0x1ba)
				f.fixed("PackHeader/prefix", 2, 1)
				hi := w.U(3)
				f.marker("1")
				mid := w.U(15)
				f.marker("2")
				lo := w.U(15)
				full := hi.Mul(1 << 30).Add(mid.Mul(1 << 15)).Add(lo)
				low := full.AddMul(w.At(ai.Const(34), 1), -(1 << 32))
				if got, ok := AsLin(get("SystemClockReferenceBase")); ok && w.S.Decide(EqL(got, full)) != ai.True && w.S.Decide(EqL(got, low)) == ai.True {
					w.fail("SystemClockReferenceBase-33-bit", "SystemClockReferenceBase keeps only the low 32 of its 33 bits")
				} else {
					w.Eq("PackHeader.SystemClockReferenceBase", get("SystemClockReferenceBase"), full)
				}
				f.marker("3")
				f.num("SystemClockReferenceExtension", 9)
				f.marker("4")
				f.num("ProgramMuxRate", 22)
				f.marker("5")
				f.marker("6")
				w.Skip(5)
				n := w.U(3)
				w.SkipBytes(n)
				sh := get("SystemHeader")
				if !w.If(Eq(w.At(w.Pos, 32), 0x1bb)) {
					without++
					w.MustNil("SystemHeader", sh)
					w.AtEnd("span")
					return
				}
				with++
				if !w.MustNonNil("SystemHeader", sh) {
					return
				}
				w.U(32)
				sget := c.getter(w.S, sh.(ai.Ptr), "ps", "SystemHeader")
				f = fields{w, sget, "SystemHeader"}
				f.num("HeaderLength", 16)
				f.marker("1")
				f.num("RateBound", 22)
				f.marker("2")
				f.num("AudioBound", 6)
				f.flag("Fixed")
				f.flag("CSPS")
				f.flag("SystemAudioLock")
				f.flag("SystemVideoLock")
				f.marker("3")
				f.num("VideoBound", 5)
				f.flag("PacketRateRestriction")
				w.Skip(7)
				sl, ok := sget("Streams").(ai.Slice)
				if !ok {
					w.fail("SystemHeader.Streams", "not a slice")
					return
				}
				w.Pos = w.Pos.Add(sl.Len.Mul(24))
				w.AtEnd("span")
				w.Must("SystemHeader/complete", Eq(w.At(w.Pos, 1), 0))
			})
		})
		c.Count("with_system_header", with)
		if with == 0 || without == 0 {
			c.Failf("S01/vacuous", c.P.Where(fn.Pos()), "pack headers with and without system header must both be accepted")
		}
		// stuffing is skipped byte-wise at most: loops other than the entries
		for _, l := range r.E.Loops {
			if streamsLoop[l] {
				continue
			}
			for i, b := range l.Backs {
				d := b.Norm(b.Stream(st).Pos.Sub(b.Norm(l.Head.Stream(st).Pos)))
				if !d.IsConst() || d.K%8 != 0 {
					c.FailAt("S01/stuffing", ai.Outcome{S: b, Pos: l.BackPos[i]}, fn, "the stuffing loop skips %v bits at a time", d)
				}
			}
		}
	})
}

func (f fields) fixed2(what string, at *ai.Lin, bits int, v int64) {
	f.w.Must(what, Eq(f.w.At(at, bits), v))
}

func checkX05(c *Ctx) {
	c.Rule("every path of Check leaves the stream where it was and yields (next bits == code); every successful path of Assert has seen the code and consumed exactly it, every failure on a healthy source is the package's error, on a mismatch, with nothing consumed")
	one := func(pkg, typ string, bits int, errName string) {
		what := pkg + "." + typ
		c.Guard(what+".Check", func() {
			fn := c.Method(pkg, typ, "Check")
			r, st := c.headerRoot(fn, false)
			code, ok := r.Args[0].(*ai.Lin)
			if !ok {
				c.Anchor("the code compared by " + fn.String())
			}
			for _, o := range r.Outs {
				c.Count("path_obligations", 2)
				if o.Panicked {
					c.FailAt("X05/"+what+"/panic", o, fn, "panics: %s", o.Why)
					continue
				}
				if x := o.S.Stream(st); x.Epoch != 0 || o.S.Decide(Eq(x.Pos, 0)) != ai.True {
					c.FailAt("X05/"+what+"/check-consumes", o, fn, "Check moves the stream to %v", o.S.Norm(x.Pos))
				}
			}
			r.Successes(func(o ai.Outcome) {
				if len(o.S.Pend) > 0 {
					c.FailAt("X05/"+what+"/check-error", o, fn, "Check reports a verdict although the bits could not be read")
				}
				if !boolEquiv(o.S, o.Vals[0], EqL(r.E.Bits(st, 0, ai.Const(0), bits), code)) {
					c.FailAt("X05/"+what+"/check-verdict", o, fn, "Check yields %s, want (next %d bits == code)", ai.ValString(o.Vals[0]), bits)
				}
			})
			r.Failures(func(o ai.Outcome, ev *ai.ErrVal, v ai.Iface) {
				if len(o.S.Pend) == 0 {
					c.FailAt("X05/"+what+"/check-fails", o, fn, "Check fails on a healthy source")
				}
			})
		})
		c.Guard(what+".Assert", func() {
			fn := c.Method(pkg, typ, "Assert")
			if c.Pkg(pkg).Var(errName) == nil {
				c.Anchor(pkg + "." + errName)
			}
			r, st := c.headerRoot(fn, false)
			code, ok := r.Args[0].(*ai.Lin)
			if !ok {
				c.Anchor("the code asserted by " + fn.String())
			}
			next := r.E.Bits(st, 0, ai.Const(0), bits)
			for _, o := range r.Outs {
				if o.Panicked {
					c.FailAt("X05/"+what+"/panic", o, fn, "panics: %s", o.Why)
				}
			}
			r.Successes(func(o ai.Outcome) {
				c.Count("path_obligations", 2)
				if len(o.S.Pend) > 0 {
					c.FailAt("X05/"+what+"/assert-error", o, fn, "Assert succeeds although a read failed")
				}
				if o.S.Decide(EqL(next, code)) != ai.True {
					c.FailAt("X05/"+what+"/assert-match", o, fn, "Assert succeeds although the code is not known to be there")
				}
				if x := o.S.Stream(st); x.Epoch != 0 || o.S.Decide(Eq(x.Pos, int64(bits))) != ai.True {
					c.FailAt("X05/"+what+"/assert-span", o, fn, "Assert consumes %v bits, want %d", o.S.Norm(x.Pos), bits)
				}
			})
			mism := 0
			r.Failures(func(o ai.Outcome, ev *ai.ErrVal, v ai.Iface) {
				if len(o.S.Pend) > 0 {
					return
				}
				mism++
				c.Count("path_obligations", 3)
				if o.S.Decide(EqL(next, code)) != ai.False {
					c.FailAt("X05/"+what+"/assert-rejects", o, fn, "Assert fails although the code may be there")
				}
				if x := o.S.Stream(st); x.Epoch != 0 || o.S.Decide(Eq(x.Pos, 0)) != ai.True {
					c.FailAt("X05/"+what+"/assert-consumes", o, fn, "a failed Assert moves the stream to %v", o.S.Norm(x.Pos))
				}
				if ev == nil || o.S.Decide(Eq(ev.Kind, r.E.ErrKind(pkg+"."+errName))) != ai.True {
					c.FailAt("X05/"+what+"/assert-kind", o, fn, "a mismatch is reported with %s, want %s", ai.ValString(v), errName)
				}
			})
			if mism == 0 {
				c.Failf("X05/"+what+"/assert-vacuous", c.P.Where(fn.Pos()), "Assert never reports a mismatch")
			}
		})
	}
	one("ps", "StartCode", 32, "ErrUnexpectedStartCode")
	one("video", "StartCode", 32, "ErrUnexpectedStartCode")
	one("video", "ExtensionID", 4, "ErrUnexpectedExtensionID")
}

func checkV10(c *Ctx) {
	c.Rule("the scans move the stream only by alignment and whole bytes from an aligned position; next_start_code skips only zero bytes not at a prefix and stops at 0x000001; AlignTo skips only bytes where the code does not start and stops at the code")
	scan := func(fn *ssa.Function, name string, bits int, code func(r *Root) *ai.Lin, zero bool) {
		r, st := c.headerRoot(fn, false)
		e := r.E
		want := code(r)
		aligned := func(s *ai.State, pos *ai.Lin) bool {
			at := s.Stream(st).AlignAt
			if at == nil {
				return false
			}
			d := s.Norm(pos.Sub(at))
			for _, t := range d.T {
				if t.C%8 != 0 {
					return false
				}
			}
			return d.K%8 == 0
		}
		steps := func(o ai.Outcome, evs []*ai.Event, ok bool) {
			for _, x := range evs {
				if x.Stream != st || x.Kind != "consume" {
					continue
				}
				from, n := o.S.Norm(x.From), o.S.Norm(x.To.Sub(x.From))
				c.Count("step_obligations", 3)
				if !n.IsConst() || n.K%8 != 0 || n.K > 64 {
					c.FailAt("V10/"+name+"/step", o, fn, "skips %v bits at once", n)
					continue
				}
				if !aligned(o.S, from) {
					c.FailAt("V10/"+name+"/unaligned", o, fn, "skips from a position not known to be byte aligned")
				}
				for k := int64(0); k < n.K; k += 8 {
					p := from.AddK(k)
					if o.S.Decide(EqL(e.Bits(st, x.Epoch, p, bits), want)) != ai.False {
						c.FailAt("V10/"+name+"/skips-code", o, fn, "skips a byte at which the start code may begin")
					}
					if zero && ok && o.S.Decide(Eq(e.Bits(st, x.Epoch, p, 8), 0)) != ai.True {
						c.FailAt("V10/"+name+"/nonzero", o, fn, "skips a byte that is not known to be zero")
					}
				}
			}
		}
		for _, o := range r.Outs {
			if o.Panicked {
				c.FailAt("V10/"+name+"/panic", o, fn, "panics: %s", o.Why)
			}
		}
		r.Successes(func(o ai.Outcome) {
			c.Count("path_obligations", 3)
			x := o.S.Stream(st)
			q := o.S.Norm(x.Pos)
			if x.Epoch != 0 {
				c.FailAt("V10/"+name+"/span", o, fn, "the final position is unknown")
				return
			}
			if o.S.Decide(EqL(e.Bits(st, 0, q, bits), want)) != ai.True {
				c.FailAt("V10/"+name+"/stop", o, fn, "stops at a position where the start code is not known to be")
			}
			if !aligned(o.S, q) {
				c.FailAt("V10/"+name+"/stop-unaligned", o, fn, "stops at a position not known to be byte aligned")
			}
			steps(o, o.S.Events(nil), true)
			if len(o.S.Pend) > 0 {
				c.FailAt("V10/"+name+"/error", o, fn, "succeeds although a read failed")
			}
		})
		bad := 0
		kind := e.ErrKind("video.ErrUnexpectedNonZeroByte")
		r.Failures(func(o ai.Outcome, ev *ai.ErrVal, v ai.Iface) {
			if len(o.S.Pend) > 0 {
				return
			}
			c.Count("path_obligations", 1)
			bad++
			if !zero {
				c.FailAt("V10/"+name+"/rejects", o, fn, "fails on a healthy source with %s", ai.ValString(v))
				return
			}
			steps(o, o.S.Events(nil), false)
			if ev == nil || o.S.Decide(Eq(ev.Kind, kind)) != ai.True {
				c.FailAt("V10/"+name+"/reject-kind", o, fn, "fails with %s, want ErrUnexpectedNonZeroByte", ai.ValString(v))
			}
			// the offending byte was seen
			var last *ai.Event
			for _, x := range o.S.Events(nil) {
				if x.Stream == st && (x.Kind == "consume" || x.Kind == "peek") {
					last = x
				}
			}
			if last == nil || o.S.Decide(Eq(e.Bits(st, last.Epoch, o.S.Norm(last.From), 8), 0)) != ai.False {
				c.FailAt("V10/"+name+"/rejects-zero", o, fn, "fails although the byte may be zero")
			}
		})
		if zero && bad == 0 {
			c.Failf("V10/"+name+"/accepts-all", c.P.Where(fn.Pos()), "%s never rejects a non-zero byte", fn)
		}
		for _, l := range e.Loops {
			for i, b := range l.Backs {
				o := ai.Outcome{S: b, Pos: l.BackPos[i]}
				steps(o, b.Events(l.HeadEv), true)
				c.Count("loop_obligations", 1)
				d := b.Norm(b.Stream(st).Pos.Sub(b.Norm(l.Head.Stream(st).Pos)))
				if !d.Is(8) {
					c.FailAt("V10/"+name+"/loop-step", o, fn, "a traversal advances by %v bits, want one byte", d)
				}
			}
		}
	}
	c.Guard("video.VideoSequence.AlignTo", func() {
		fn := c.Method("video", "VideoSequence", "AlignTo")
		scan(fn, "AlignTo", 32, func(r *Root) *ai.Lin {
			for _, a := range r.Args {
				if l, ok := a.(*ai.Lin); ok {
					return l
				}
			}
			c.Anchor("the start code parameter of AlignTo")
			return nil
		}, false)
	})
	c.Guard("video.next_start_code", func() {
		n := 0
		for _, fn := range c.startCodeScans() {
			n++
			scan(fn, "next_start_code", 24, func(r *Root) *ai.Lin { return ai.Const(1) }, true)
			c.Sample("start code scan: %s", fn)
		}
		if n == 0 {
			c.Anchor("the function advancing to the next start code")
		}
	})
}

// startCodeScans: functions from a bit reader alone to an error that can
// return video.ErrUnexpectedNonZeroByte themselves or are called
// next_start_code.
func (c *Ctx) startCodeScans() []*ssa.Function {
	g := c.Pkg("video").Var("ErrUnexpectedNonZeroByte")
	if g == nil {
		c.Anchor("video.ErrUnexpectedNonZeroByte")
	}
	var r []*ssa.Function
	for _, f := range c.funcs(c.Pkg("video")) {
		if len(f.Params) != 1 || !c.readsBits(f.Params[0].Type()) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 1 || !isError(rs.At(0).Type()) {
			continue
		}
		uses := strings.HasSuffix(f.Name(), "next_start_code")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op == ssa.Value(g) {
						uses = true
					}
				}
			}
		}
		if uses {
			r = append(r, f)
		}
	}
	return r
}
