package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value: *Lin, Bool, Ptr, Slice, Iface, *ErrVal (inside
// Iface), Func, Chan, Map, StreamV, Str, Opaque, Tuple or *Agg.
type Val interface{}

type Bool struct {
	IsConst bool
	V       bool
	C       Cmp
}

func BoolConst(b bool) Bool { return Bool{IsConst: true, V: b} }

func (b Bool) Not() Bool {
	if b.IsConst {
		return BoolConst(!b.V)
	}
	return Bool{C: b.C.Not()}
}

// Ptr points at Path inside object Obj; Nil is a 0/1 linear form.
type Ptr struct {
	Obj  int
	Path string
	Nil  *Lin
}

type Slice struct {
	Obj          int
	Path         string
	Lo, Len, Cap *Lin
	Nil          *Lin
}

type Iface struct {
	Dyn types.Type
	V   Val
	Nil *Lin
	Key string
}

// ErrVal is a non-nil error; Kind identifies it (see Engine.ErrKind).
type ErrVal struct {
	Kind *Lin
	Src  *Pending // the failed operation it reports, if any
	Name string
}

type Func struct {
	Fn   *ssa.Function
	Bind []Val
	Key  string
	Nil  *Lin
}

type Chan struct {
	Obj int
	Nil *Lin
}

// ChanCap is the Data of a channel object whose capacity is known.
type ChanCap int64

type Map struct {
	Obj int
	Nil *Lin
}

type StreamV struct{ ID int }

type Str struct {
	Known bool
	S     string
	Key   string
}

type Opaque struct {
	T   types.Type
	Key string
}

type Tuple []Val

// Pending is one failed read of a source.
type Pending struct {
	ID     int
	Pos    token.Pos
	Fn     *ssa.Function
	Op     string
	Stream int
	Kind   *Lin
}

const (
	defZero = iota
	defSym
)

type prefDef struct {
	pre  string
	mode int
	base string
}

type cell struct {
	V Val
	T types.Type
}

// mem is a tree of scalar cells with per-region defaults (last match wins).
type mem struct {
	cells map[string]cell
	defs  []prefDef
}

func (m *mem) cloneMem() mem {
	n := mem{cells: make(map[string]cell, len(m.cells)+2), defs: append([]prefDef(nil), m.defs...)}
	for k, v := range m.cells {
		n.cells[k] = v
	}
	return n
}

// Agg is a struct or array value.
type Agg struct {
	T types.Type
	mem
}

// Obj is a heap object.
type Obj struct {
	ID   int
	T    types.Type
	Name string
	Pos  token.Pos
	Sym  bool // symbolic (existed before the root was entered)
	mem
	own   *State
	Log   []Region // byte content writes, in order
	Data  any      // kind specific
	Loops []int
}

// Region says that bytes [Lo,Lo+Len) of an object's element array were
// written from a source.
type Region struct {
	Path    string
	Lo, Len *Lin
	Src     string // "stream", "obj", "buf", "opaque"
	Stream  int
	Epoch   int
	Pos     *Lin // bit position in stream, or element offset in SrcObj
	SrcObj  int
	SrcPath string
}

func under(path, pre string) bool {
	if !strings.HasPrefix(path, pre) {
		return false
	}
	return len(path) == len(pre) || path[len(pre)] == '.' || path[len(pre)] == '['
}

func (m *mem) clearUnder(pre string) {
	for k := range m.cells {
		if under(k, pre) {
			delete(m.cells, k)
		}
	}
	var nd []prefDef
	for _, d := range m.defs {
		if pre == "" || !under(d.pre, pre) {
			if !(pre == "") {
				nd = append(nd, d)
			}
		}
	}
	m.defs = nd
}

// addDef adds a default, which supersedes the ones below it.
func (m *mem) addDef(d prefDef) {
	nd := m.defs[:0:0]
	for _, o := range m.defs {
		if !under(o.pre, d.pre) {
			nd = append(nd, o)
		}
	}
	m.defs = append(nd, d)
}

func (m *mem) def(path string) prefDef {
	for i := len(m.defs) - 1; i >= 0; i-- {
		if under(path, m.defs[i].pre) {
			return m.defs[i]
		}
	}
	return prefDef{mode: defZero}
}

// sub extracts the tree below path as a detached memory.
func (m *mem) sub(path string) mem {
	n := mem{cells: map[string]cell{}}
	for k, v := range m.cells {
		if under(k, path) {
			n.cells[k[len(path):]] = v
		}
	}
	for _, d := range m.defs {
		switch {
		case under(path, d.pre):
			nd := prefDef{pre: "", mode: d.mode}
			if d.mode == defSym {
				nd.base = d.base + path[len(d.pre):]
			}
			n.addDef(nd)
		case under(d.pre, path):
			n.addDef(prefDef{pre: d.pre[len(path):], mode: d.mode, base: d.base})
		}
	}
	return n
}

// graft replaces the tree below path by sub.
func (m *mem) graft(path string, sub *mem) {
	m.clearUnder(path)
	m.addDef(prefDef{pre: path, mode: defZero})
	for _, d := range sub.defs {
		m.addDef(prefDef{pre: path + d.pre, mode: d.mode, base: d.base})
	}
	for k, v := range sub.cells {
		m.cells[path+k] = v
	}
}

func under0(t types.Type) types.Type { return t.Underlying() }

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// ValString renders a value for diagnostics.
func ValString(v Val) string {
	switch v := v.(type) {
	case nil:
		return "?"
	case *Lin:
		return v.String()
	case Bool:
		if v.IsConst {
			return fmt.Sprint(v.V)
		}
		return "(" + v.C.String() + ")"
	case Ptr:
		return fmt.Sprintf("&obj%d%s nil=%v", v.Obj, v.Path, v.Nil)
	case Slice:
		return fmt.Sprintf("obj%d%s[%v:+%v]", v.Obj, v.Path, v.Lo, v.Len)
	case Iface:
		if v.Nil != nil && v.Nil.Is(1) {
			return "nil"
		}
		if v.Dyn != nil {
			return fmt.Sprintf("%v(%s)", v.Dyn, ValString(v.V))
		}
		if v.V != nil {
			return ValString(v.V)
		}
		return "iface:" + v.Key
	case *ErrVal:
		return fmt.Sprintf("error(%s kind=%v)", v.Name, v.Kind)
	case Func:
		if v.Fn != nil {
			return "func " + v.Fn.String()
		}
		return "func:" + v.Key
	case StreamV:
		return fmt.Sprintf("stream%d", v.ID)
	case Str:
		if v.Known {
			return fmt.Sprintf("%q", v.S)
		}
		return "str:" + v.Key
	case Opaque:
		return "opaque:" + v.Key
	case Tuple:
		var s []string
		for _, x := range v {
			s = append(s, ValString(x))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *Agg:
		return "aggregate " + v.T.String()
	}
	return fmt.Sprintf("%T", v)
}
