package checks

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// stubPixels replaces the functions that only write coefficient blocks and
// sample planes by what they may write.
func (a *videoAnchors) stubPixels(c *Ctx, keep ...*ssa.Function) []string {
	md := a.g.mods()
	var r []string
	for f := range a.g.closure(a.mb) {
		ms := md.sets[f]
		if ms == nil || !ms.samplesOnly() || a.g.reads[f] || f.Signature.Results().Len() > 0 {
			continue
		}
		if f.Parent() != nil {
			continue
		}
		tag := "h:" + f.Name()
		set := ms
		a.e.FnModels[f] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
			if !set.apply(c, e, s, args, nil, tag) {
				panic(ai.Unsupported{Msg: "effects of " + tag})
			}
			return []ai.Alt{{S: s, V: ai.Tuple{}}}
		}
		r = append(r, f.String())
	}
	return r
}

// picCfg is one class of pictures: the header fields the macroblock layer
// depends on.
type picCfg struct {
	coding    int64 // 1 I, 2 P, 3 B
	structure int64 // 1 top, 2 bottom, 3 frame
	framePred int64 // frame_pred_frame_dct
	conceal   bool
	fcode1    bool // all f_codes are 1; otherwise all differ
	vlcFormat int64
	fc        int64    // all f_codes, if not 0
	fcs       [4]int64 // the f_codes, if not 0
	part      int      // share of the cases, if not 0
}

// fcode is f_code[s][t] of the class: four different ones, or all 1.
func (p picCfg) fcode(s, t int) int64 {
	if p.fcode1 {
		return 1
	}
	if p.fcs[0] > 0 {
		return p.fcs[2*s+t]
	}
	if p.fc > 0 {
		return p.fc
	}
	return int64(2 + 2*s + t)
}

func (p picCfg) String() string {
	return fmt.Sprintf("coding%d/structure%d/fpfd%d/conceal%t/f_code%d%d%d%d/vlc%d", p.coding, p.structure, p.framePred, p.conceal, p.fcode(0, 0), p.fcode(0, 1), p.fcode(1, 0), p.fcode(1, 1), p.vlcFormat)
}

// headerObj returns the header structure the decoder holds, not nil.
func (c *Ctx) headerObj(s *ai.State, vs ai.Ptr, name string) (ai.Ptr, types.Type) {
	t := c.Named("video", "VideoSequence")
	path, ft := promoted(t, name)
	if ft == nil {
		c.Anchor("VideoSequence." + name)
	}
	p, ok := s.Load(vs.Obj, vs.Path+path, ft).(ai.Ptr)
	if !ok {
		c.Anchor("VideoSequence." + name)
	}
	p.Nil = ai.Const(0)
	s.Store(vs.Obj, vs.Path+path, ft, p)
	return p, ft.Underlying().(*types.Pointer).Elem()
}

// setNum fixes a numeric header field.
func (c *Ctx) setNum(s *ai.State, p ai.Ptr, t types.Type, name string, v int64) {
	l, ok := c.Field(s, p, t, name).(*ai.Lin)
	if !ok || !s.Assume(ai.Cmp{Op: ai.EQ, L: l.AddK(-v)}) {
		c.Anchor("field " + name)
	}
}

// setRange limits a header field to what its reader can leave in it.
func (c *Ctx) setRange(s *ai.State, p ai.Ptr, t types.Type, name string, lo, hi int64) {
	l, ok := c.Field(s, p, t, name).(*ai.Lin)
	if !ok || !s.Assume(Ge(l, lo)) || !s.Assume(Le(l, hi)) {
		c.Anchor("field " + name)
	}
}

func (c *Ctx) setBool(s *ai.State, p ai.Ptr, t types.Type, name string, v bool) {
	path, ft := promoted(t, fieldName(t, name))
	if ft == nil {
		c.Anchor("field " + name)
	}
	s.Store(p.Obj, p.Path+path, ft, ai.Bool{IsConst: true, V: v})
}

// isVS says whether t is *VideoSequence.
func (c *Ctx) isVS(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), c.Named("video", "VideoSequence"))
}

// assumeCfg puts the decoder an argument refers to in the given picture class.
func (c *Ctx) assumeCfg(s *ai.State, vs ai.Ptr, k picCfg) {
	sh, sht := c.headerObj(s, vs, "SequenceHeader")
	c.setRange(s, sh, sht, "horizontal_size_value", 0, 4095)
	c.setRange(s, sh, sht, "vertical_size_value", 0, 4095)
	se, set := c.headerObj(s, vs, "SequenceExtension")
	c.setNum(s, se, set, "chroma_format", 1)
	c.setRange(s, se, set, "horizontal_size_extension", 0, 3)
	c.setRange(s, se, set, "vertical_size_extension", 0, 3)
	ph, pht := c.headerObj(s, vs, "PictureHeader")
	c.setNum(s, ph, pht, "picture_coding_type", k.coding)
	pc, pct := c.headerObj(s, vs, "PictureCodingExtension")
	c.setNum(s, pc, pct, "picture_structure", k.structure)
	c.setNum(s, pc, pct, "frame_pred_frame_dct", k.framePred)
	c.setNum(s, pc, pct, "intra_vlc_format", k.vlcFormat)
	c.setBool(s, pc, pct, "concealment_motion_vectors", k.conceal)
	path, ft := promoted(pct, fieldName(pct, "f_code"))
	if ft == nil {
		c.Anchor("field f_code")
	}
	et := elemElem(ft)
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			l, ok := s.Load(pc.Obj, pc.Path+path+idx(i)+idx(j), et).(*ai.Lin)
			if !ok {
				c.Anchor("field f_code")
			}
			if k.fcode1 {
				s.Assume(ai.Cmp{Op: ai.EQ, L: l.AddK(-1)})
			} else {
				s.Assume(ai.Cmp{Op: ai.EQ, L: l.AddK(-k.fcode(i, j))})
			}
		}
	}
}

// sliceRun analyses the slice decoder for one picture class.
func (c *Ctx) sliceRun(a *videoAnchors, k picCfg) *Root {
	r := c.Prepare(a.e, a.slice)
	i := r.ArgOf(c.isVS)
	if i < 0 {
		c.Anchor("the decoder parameter of " + a.slice.String())
	}
	r.Args[i] = NonNil(r.Args[i])
	c.assumeCfg(r.S, r.Args[i].(ai.Ptr), k)
	return r
}

// mbRun analyses the macroblock decoder alone.
func (c *Ctx) mbRun(a *videoAnchors, k picCfg) *Root {
	r := c.Prepare(a.e, a.mb)
	i := r.ArgOf(c.isVS)
	if i < 0 {
		c.Anchor("the decoder parameter of " + a.mb.String())
	}
	for j := range r.Args {
		r.Args[j] = NonNil(r.Args[j])
	}
	c.assumeCfg(r.S, r.Args[i].(ai.Ptr), k)
	return r
}
