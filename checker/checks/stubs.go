package checks

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// stubPacket replaces the reading of a ts or pes packet by its contract: it
// consumes input and fills the packet, or fails. The contract of the body is
// the subject of T01-T06, E01 and E02.
func (c *Ctx) stubPacket(e *ai.Engine, pkg string) *ssa.Function {
	fn := c.Method(pkg, "Packet", "Next")
	pt := c.Named(pkg, "Packet")
	e.FnModels[fn] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		p, ok := args[0].(ai.Ptr)
		if !ok || p.Obj == 0 {
			panic(ai.Unsupported{Msg: "Packet.Next on an unknown packet"})
		}
		id := e.StreamOfVal(s, args[1])
		if id < 0 {
			panic(ai.Unsupported{Msg: "Packet.Next on an unknown reader"})
		}
		if !e.Oblige(s, site.Parent(), site.Pos(), "nil", "packet", ai.Cmp{Op: ai.EQ, L: p.Nil}) {
			return []ai.Alt{{S: s, Panicked: true, Why: "nil dereference"}}
		}
		f, err := e.FailOp(s, site.Parent(), site.Pos(), id, "Packet.Next")
		if o := f.Stream(id); o != nil {
			f.HavocUnder(p.Obj, p.Path, "packet")
		}
		s.HavocUnder(p.Obj, p.Path, "packet")
		e.Forget(s, id)
		fld, ft := promoted(pt, "Payload")
		if ft == nil {
			c.Anchor("field Packet.Payload")
		}
		var pl ai.Slice
		if pkg == "ts" {
			if bp, bt := promoted(pt, "payloadBuffer"); bt != nil {
				n := ai.AtomLin(e.Fresh("payload", 0, 184))
				pl = ai.Slice{Obj: p.Obj, Path: p.Path + bp, Lo: ai.Const(0), Len: n, Cap: ai.Const(184), Nil: ai.AtomLin(e.Fresh("nopayload", 0, 1))}
				// no payload: nil and empty
				s.Assume(ai.Cmp{Op: ai.LE, L: n.AddK(-184).AddMul(pl.Nil, 184)})
			}
		}
		if pl.Obj == 0 {
			v := s.Sym(fmt.Sprintf("payload~%d", e.FreshID()), ft).(ai.Slice)
			hi := int64(1 << 30)
			s.AssumeRange(v.Len, 0, hi)
			pl = v
		}
		s.Store(p.Obj, p.Path+fld, ft, pl)
		ev := ai.Event{Kind: "packet", Pos: site.Pos(), Fn: site.Parent(), Obj: p.Obj, Path: p.Path, Stream: id, From: ai.Const(0), To: ai.Const(48), Val: pl}
		s.Emit(ev)
		ev.Err = true
		ev.From, ev.To = nil, nil
		f.Emit(ev)
		return []ai.Alt{{S: s, V: ai.Iface{Nil: ai.Const(1)}}, {S: f, V: err}}
	}
	return fn
}

// stubReader replaces a function that reads the stream and returns values and
// an error by: unknown values and no error, or a failed read that is reported.
// Callees are roots of their own, so that this assumption is checked there.
func (c *Ctx) stubReader(e *ai.Engine, fn *ssa.Function, havoc bool, pre func(s *ai.State, site ssa.CallInstruction, args []ai.Val)) {
	rs := fn.Signature.Results()
	e.FnModels[fn] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		if pre != nil {
			pre(s, site, args)
		}
		id := -1
		for i, a := range args {
			if k := c.streamIn(s, a, fn.Params[i].Type()); k >= 0 {
				id = k
			}
		}
		if id < 0 {
			panic(ai.Unsupported{Msg: "no reader in the call of " + fn.String()})
		}
		if havoc {
			for i, a := range args {
				if p, ok := a.(ai.Ptr); ok && p.Obj != 0 && c.streamIn(s, a, fn.Params[i].Type()) < 0 {
					s.HavocUnder(p.Obj, p.Path, "call")
				}
			}
		}
		f, err := e.FailOp(s, site.Parent(), site.Pos(), id, fn.Name())
		e.Forget(s, id)
		vals := func(s *ai.State, err ai.Val) ai.Val {
			var t ai.Tuple
			for i := 0; i < rs.Len(); i++ {
				switch {
				case i == rs.Len()-1:
					t = append(t, err)
				default:
					v := s.Sym(fmt.Sprintf("ret:%s~%d", fn.Name(), e.FreshID()), rs.At(i).Type())
					if ai.IsOK(err) {
						if _, ok := rs.At(i).Type().Underlying().(*types.Pointer); ok {
							v = NonNil(v)
						}
					}
					t = append(t, v)
				}
			}
			if len(t) == 1 {
				return t[0]
			}
			return t
		}
		s.Emit(ai.Event{Kind: "stub", Pos: site.Pos(), Fn: site.Parent(), Name: fn.Name(), Callee: fn, Args: args, Stream: id})
		ok := ai.Iface{Nil: ai.Const(1)}
		return []ai.Alt{{S: s, V: vals(s, ok)}, {S: f, V: vals(f, err)}}
	}
}

// streamIn finds the bit reader an argument gives access to.
func (c *Ctx) streamIn(s *ai.State, a ai.Val, t types.Type) int {
	switch x := a.(type) {
	case ai.Iface:
		if sv, ok := x.V.(ai.StreamV); ok {
			return sv.ID
		}
		if p, ok := x.V.(ai.Ptr); ok && x.Dyn != nil {
			return c.streamIn(s, p, x.Dyn)
		}
	case ai.Ptr:
		st, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return -1
		}
		ss, ok := st.Elem().Underlying().(*types.Struct)
		if !ok {
			return -1
		}
		for k := 0; k < ss.NumFields(); k++ {
			f := ss.Field(k)
			if isBitReader(f.Type()) {
				if v, ok := s.Load(x.Obj, x.Path+"."+f.Name(), f.Type()).(ai.Iface); ok {
					if sv, ok := v.V.(ai.StreamV); ok {
						return sv.ID
					}
				}
			}
		}
	}
	return -1
}
