package checks

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// baseFields lists the declared fields of the structs the rules look into, so
// that a renamed field is still found by its position.
var baseFields = map[string][]string{
	"video.SequenceHeader":                   {"horizontal_size_value", "vertical_size_value", "aspect_ratio_information", "frame_rate_code", "bit_rate_value", "vbv_buffer_size_value", "constrained_parameters_flag", "load_intra_quantiser_matrix", "load_non_intra_quantiser_matrix", "intra_quantiser_matrix", "non_intra_quantiser_matrix"},
	"video.SequenceExtension":                {"profile_and_level_indication", "progressive_sequence", "chroma_format", "horizontal_size_extension", "vertical_size_extension", "bit_rate_extension", "vbv_buffer_size_extension", "low_delay", "frame_rate_extension_n", "frame_rate_extension_d"},
	"video.SequenceDisplayExtension":         {"video_format", "colour_description", "colour_primaries", "transfer_characteristics", "matrix_coefficients", "display_horizontal_size", "display_vertical_size"},
	"video.GroupOfPicturesHeader":            {"timeCode", "ClosedGOP", "BrokenLink"},
	"video.PictureHeader":                    {"temporal_reference", "picture_coding_type", "vbv_delay", "full_pel_forward_vector", "forward_f_code", "full_pel_backward_vector", "backward_f_code", "extra_information"},
	"video.PictureCodingExtension":           {"f_code", "intra_dc_precision", "picture_structure", "top_field_first", "frame_pred_frame_dct", "concealment_motion_vectors", "q_scale_type", "intra_vlc_format", "alternate_scan", "repeat_first_field", "chroma_420_type", "progressive_frame", "composite_display_flag", "v_axis", "field_sequence", "sub_carrier", "burst_amplitude", "sub_carrier_phase"},
	"video.PictureTemporalScalableExtension": {"reference_select_code", "forward_temporal_reference", "backward_temporal_reference"},
	"video.VideoSequence":                    {"BitReader", "sequenceHeaders", "pictureHeaders", "quantisationMatricies", "frameStore", "frameCounter"},
	"video.referenceFrame":                   {"frame", "temporal_reference", "previous_gop"},
	"video.frameStore":                       {"frames", "past", "future"},
}

// fieldName maps a base field name to the name the field has now.
func fieldName(t types.Type, name string) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return name
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return name
	}
	base := baseFields[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	if base == nil || st.NumFields() != len(base) {
		return name
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return name
		}
	}
	for i, b := range base {
		if b == name {
			return st.Field(i).Name()
		}
	}
	return name
}

// parserOf finds the function that reads a T from a bit reader: the one with
// results (*T, error) that no other such function calls.
func (c *Ctx) parserOf(pkg, typ string) *ssa.Function {
	n := c.Named(pkg, typ)
	p := c.Pkg(pkg)
	fits := func(f *ssa.Function) bool {
		if f == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			return false
		}
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isError(rs.At(1).Type()) {
			return false
		}
		pt, ok := rs.At(0).Type().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), n) {
			return false
		}
		for _, q := range f.Params {
			if c.readsBits(q.Type()) {
				return true
			}
		}
		return false
	}
	var cand []*ssa.Function
	for _, f := range c.funcs(p) {
		if fits(f) {
			cand = append(cand, f)
		}
	}
	called := map[*ssa.Function]bool{}
	for _, f := range cand {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if g := cl.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	var top []*ssa.Function
	for _, f := range cand {
		if !called[f] {
			top = append(top, f)
		}
	}
	if len(top) != 1 {
		c.Anchor("the parser of " + pkg + "." + typ)
	}
	return top[0]
}

// readsBits says whether a value of type t gives access to a bit reader.
func (c *Ctx) readsBits(t types.Type) bool {
	if isBitReader(t) {
		return true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if st, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isBitReader(st.Field(i).Type()) {
					return true
				}
			}
		}
	}
	return false
}

// funcs lists the source functions and methods of a package.
func (c *Ctx) funcs(p *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Synthetic == "" && len(f.Blocks) > 0 && !seen[f] {
			seen[f] = true
			r = append(r, f)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := types.Unalias(m.Type()).(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(c.P.SSA.FuncValue(n.Method(i)))
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// StreamOf returns the bit reader an argument gives access to.
func (r *Root) StreamOf() int {
	for i, a := range r.Args {
		switch x := a.(type) {
		case ai.Iface:
			if sv, ok := x.V.(ai.StreamV); ok {
				return sv.ID
			}
		case ai.Ptr:
			st, ok := r.Fn.Params[i].Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			ss, ok := st.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for k := 0; k < ss.NumFields(); k++ {
				f := ss.Field(k)
				if isBitReader(f.Type()) {
					v, ok := r.S.Load(x.Obj, x.Path+"."+f.Name(), f.Type()).(ai.Iface)
					if ok {
						if sv, ok := v.V.(ai.StreamV); ok {
							return sv.ID
						}
					}
				}
			}
		}
	}
	r.C.Anchor("bit reader of " + r.Fn.String())
	return 0
}

func idx(i int) string { return fmt.Sprintf("[%d]", i) }

func elemElem(t types.Type) types.Type {
	return t.Underlying().(*types.Array).Elem().Underlying().(*types.Array).Elem()
}

// AggField returns a field of a struct value.
func AggField(s *ai.State, v ai.Val, t types.Type, name string) ai.Val {
	a, ok := v.(*ai.Agg)
	if !ok {
		return nil
	}
	path, ft := promoted(t, fieldName(t, name))
	if ft == nil {
		return nil
	}
	return s.AggGet(a, path, ft)
}

// AggElem returns an element of a two-dimensional array value.
func AggElem(s *ai.State, v ai.Val, i, j int) ai.Val {
	a, ok := v.(*ai.Agg)
	if !ok {
		return nil
	}
	return s.AggGet(a, idx(i)+idx(j), elemElem(a.T))
}

// appended returns the i-th element added by an append event.
func appended(s *ai.State, x *ai.Event, i int64) (ai.Val, bool) {
	sl, ok := x.Args[1].(ai.Slice)
	if !ok || sl.Obj == 0 {
		return nil, false
	}
	lo := s.Norm(sl.Lo)
	if !lo.IsConst() {
		return nil, false
	}
	st, ok := x.Args[0].(ai.Slice)
	_ = st
	if !ok || x.T == nil {
		return nil, false
	}
	return s.Load(sl.Obj, sl.Path+idx(int(lo.K+i)), x.T), true
}
