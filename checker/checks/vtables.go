package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// ---- variable length codes (V03)

type stdVLC struct {
	role, clause, text string
	mbtype             bool
}

var stdVLCs = []stdVLC{
	{"addrinc", "B-1", stdAddrInc, false},
	{"mbtypeI", "B-2", stdMBTypeI, true},
	{"mbtypeP", "B-3", stdMBTypeP, true},
	{"mbtypeB", "B-4", stdMBTypeB, true},
	{"cbp", "B-9", stdCBP, false},
	{"motion", "B-10", stdMotionCode, false},
	{"dcluma", "B-12", stdDCLuma, false},
	{"dcchroma", "B-13", stdDCChroma, false},
	{"dct0first", "B-14", stdDCT0First, false},
	{"dct0next", "B-14", stdDCT0Next, false},
	{"dct1first", "B-15", stdDCT1First, false},
	{"dct1next", "B-15", stdDCT1Next, false},
}

func parseVLC(t string) map[string]string {
	m := map[string]string{}
	for _, f := range strings.Fields(t) {
		k, v, _ := strings.Cut(f, "=")
		m[k] = v
	}
	return m
}

var mbFlags = []string{"macroblock_quant", "macroblock_motion_forward", "macroblock_motion_backward", "macroblock_pattern", "macroblock_intra", "spatial_temporal_weight_code_flag"}

// vlcValue renders a table value the way the standard tables here do.
func (c *Ctx) vlcValue(s *ai.State, v ai.Val) string {
	dyn := types.Type(nil)
	if f, ok := v.(ai.Iface); ok {
		dyn = f.Dyn
		v = f.V
	}
	get := func(t types.Type, name string) ai.Val { return nil }
	var st *types.Struct
	switch x := v.(type) {
	case *ai.Lin:
		if n := s.Norm(x); n.IsConst() {
			return fmt.Sprint(n.K)
		}
		return "?"
	case *ai.Agg:
		st, _ = x.T.Underlying().(*types.Struct)
		get = func(t types.Type, name string) ai.Val { return s.AggGet(x, "."+name, t) }
		if dyn == nil {
			dyn = x.T
		}
	case ai.Ptr:
		if dyn != nil && x.Obj != 0 {
			if pt, ok := dyn.Underlying().(*types.Pointer); ok {
				st, _ = pt.Elem().Underlying().(*types.Struct)
				get = func(t types.Type, name string) ai.Val { return s.Load(x.Obj, x.Path+"."+name, t) }
			}
		}
	}
	if st == nil {
		return fmt.Sprint("type ", dyn)
	}
	var nums []string
	flags := ""
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fv := get(f.Type(), f.Name())
		for k, b := range mbFlags {
			if f.Name() == b {
				n++
				if bv, ok := fv.(ai.Bool); ok && bv.IsConst {
					if bv.V {
						flags += "qfbpis"[k : k+1]
					} else {
						flags += "-"
					}
				} else {
					flags += "?"
				}
			}
		}
		if l, ok := fv.(*ai.Lin); ok {
			if m := s.Norm(l); m.IsConst() {
				nums = append(nums, fmt.Sprint(m.K))
			}
		}
	}
	if n == len(mbFlags) {
		return flags
	}
	if len(nums) == 2 && st.NumFields() == 2 {
		return strings.Join(nums, "/")
	}
	return "type " + dyn.String()
}

type vlcTable struct {
	ai.Decoder
	role string
	m    map[string]string
	typ  map[string]string // EOB and ESC: the Go type standing for it
}

// vlcTables assigns the decoders to the tables of the standard they are
// closest to.
func (c *Ctx) vlcTables(e *ai.Engine) []*vlcTable {
	s := e.NewState()
	var r []*vlcTable
	for _, d := range e.Decoders() {
		t := &vlcTable{Decoder: d, m: map[string]string{}, typ: map[string]string{}}
		for i, code := range d.Table.Codes {
			if _, dup := t.m[code]; dup {
				c.Failf("V03/duplicate/"+d.Name+"/"+code, d.Name, "code word %s occurs twice", code)
			}
			t.m[code] = c.vlcValue(s, d.Table.Vals[i])
		}
		best, bn := 0, ""
		for _, sv := range stdVLCs {
			sm := parseVLC(sv.text)
			// entries in common, in relation to both tables
			n := 0
			for k, v := range t.m {
				w, ok := sm[k]
				if ok && (w == v || (strings.HasPrefix(v, "type ") && (w == "EOB" || w == "ESC"))) {
					n++
				}
			}
			sc := 1000 * 2 * n / (len(sm) + len(t.m))
			if sc > best {
				best, bn = sc, sv.role
			}
		}
		t.role = bn
		// the values that are neither numbers nor run/level pairs
		if strings.HasPrefix(bn, "dct") {
			for k, v := range t.m {
				if !strings.HasPrefix(v, "type ") {
					continue
				}
				switch {
				case k == "000001":
					t.typ["ESC"] = v
				case k == "10" || k == "0110":
					t.typ["EOB"] = v
				}
			}
		}
		r = append(r, t)
	}
	return r
}

func (c *Ctx) vlcRoles(ts []*vlcTable) map[int]string {
	m := map[int]string{}
	for _, t := range ts {
		m[t.Obj] = t.role
	}
	return m
}

func (c *Ctx) checkVLCTables(e *ai.Engine, ts []*vlcTable) {
	c.Rule("every decoder made by the package initialisers is compared, code word by code word and value by value, with the table of ISO/IEC 13818-2 Annex B it stands for; each table must exist; the code words must be prefix-free")
	seen := map[string]int{}
	for _, t := range ts {
		seen[t.role]++
		var std map[string]string
		clause := ""
		for _, sv := range stdVLCs {
			if sv.role == t.role {
				std, clause = parseVLC(sv.text), sv.clause
			}
		}
		where := t.Name
		if std == nil {
			c.Failf("V03/unknown-table/"+t.Name, where, "the decoder resembles no table of the standard")
			continue
		}
		for k, v := range std {
			c.Count("vlc_rows", 1)
			got, ok := t.m[k]
			switch {
			case !ok:
				c.Failf("V03/"+t.role+"/"+k, where, "table %s: code word %s (value %s) is missing", clause, k, v)
			case v == "EOB" || v == "ESC":
				if !strings.HasPrefix(got, "type ") {
					c.Failf("V03/"+t.role+"/"+k, where, "table %s: code word %s must stand for %s, but gives %s", clause, k, v, got)
				} else if t.typ[v] != got {
					c.Failf("V03/"+t.role+"/"+k, where, "table %s: code word %s must stand for %s", clause, k, v)
				}
			case got != v:
				c.Failf("V03/"+t.role+"/"+k, where, "table %s: code word %s has value %s, the standard says %s", clause, k, got, v)
			}
		}
		if t.typ["EOB"] != "" && t.typ["EOB"] == t.typ["ESC"] {
			c.Failf("V03/"+t.role+"/eob-escape", where, "end of block and escape are the same value")
		}
		var codes []string
		for k, v := range t.m {
			codes = append(codes, k)
			if _, ok := std[k]; !ok {
				c.Failf("V03/"+t.role+"/"+k, where, "table %s: code word %s (value %s) is not in the standard's table", clause, k, v)
			}
		}
		sort.Strings(codes)
		for i := 0; i+1 < len(codes); i++ {
			if strings.HasPrefix(codes[i+1], codes[i]) {
				c.Failf("V03/"+t.role+"/prefix", where, "code word %s is a prefix of %s", codes[i], codes[i+1])
			}
		}
	}
	for _, sv := range stdVLCs {
		if seen[sv.role] == 0 && sv.role != "dct1first" {
			c.Failf("V03/missing/"+sv.role, "video", "no decoder for table %s", sv.clause)
		}
	}
}

// dctTypes tells which Go types stand for end of block and escape.
func dctTypes(ts []*vlcTable) (eob, esc map[string]bool) {
	eob, esc = map[string]bool{}, map[string]bool{}
	for _, t := range ts {
		if v := t.typ["EOB"]; v != "" {
			eob[strings.TrimPrefix(v, "type ")] = true
		}
		if v := t.typ["ESC"]; v != "" {
			esc[strings.TrimPrefix(v, "type ")] = true
		}
	}
	return
}

// videoAnchors are the functions of the slice decoder, found by what they do.
type videoAnchors struct {
	e      *ai.Engine
	g      *graph
	tables []*vlcTable
	roles  map[int]string
	// macroblock: the innermost function that reads both addresses and coefficients
	mb *ssa.Function
	// blockRead: the innermost function that reads both DC and AC coefficients
	blockRead *ssa.Function
	// slice: the outermost function that reaches mb but makes no picture
	slice *ssa.Function
	// picture: the function that makes the picture and reaches slice
	picture *ssa.Function
}

func (c *Ctx) videoAnchors() *videoAnchors { return c.videoAnchorsOf(c.Engine()) }

func (c *Ctx) videoAnchorsOf(e *ai.Engine) *videoAnchors {
	ts := c.vlcTables(e)
	a := &videoAnchors{e: e, tables: ts, roles: c.vlcRoles(ts)}
	a.g = c.Graph(e, a.roles, "video")
	has := func(f *ssa.Function, rs ...string) bool {
		for _, r := range rs {
			if !a.g.reach[f][r] {
				return false
			}
		}
		return true
	}
	a.mb = c.One(a.g.innermost(func(f *ssa.Function) bool { return has(f, "addrinc", "dct0next", "dcluma") }), "the macroblock decoder")
	a.blockRead = c.One(a.g.innermost(func(f *ssa.Function) bool { return has(f, "dcluma", "dcchroma", "dct0next", "dct1next") }), "the coefficient decoder")
	mk := func(f *ssa.Function) bool { return a.g.reaches(f, makesImage) }
	a.slice = c.One(a.g.outermost(func(f *ssa.Function) bool { return a.g.closure(f)[a.mb] && !mk(f) }), "the slice decoder")
	a.picture = c.One(a.g.innermost(func(f *ssa.Function) bool { return a.g.closure(f)[a.slice] && mk(f) }), "the picture decoder")
	return a
}

func makesImage(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if g := cl.Common().StaticCallee(); g != nil && g.String() == "image.NewYCbCr" {
					return true
				}
			}
		}
	}
	return false
}
