package checks

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// Walk replays the specified syntax over the input bits of one path. Where
// the path does not decide a condition, both cases are examined.
type Walk struct {
	C      *Ctx
	O      ai.Outcome
	S      *ai.State
	Fn     *ssa.Function
	E      *ai.Engine
	Stream int
	Epoch  int
	Pos    *ai.Lin
	Pre    string // key prefix

	choices []bool
	n       int
	dead    bool
}

type deadWalk struct{}

// Spec examines every case of f over state o.S.
func (c *Ctx) Spec(e *ai.Engine, o ai.Outcome, fn *ssa.Function, stream, epoch int, start *ai.Lin, pre string, f func(w *Walk)) {
	var choices []bool
	for cases := 0; ; cases++ {
		if cases > 4096 {
			panic(ai.Unsupported{Msg: "too many specification cases in " + pre})
		}
		w := &Walk{C: c, O: o, S: o.S.Clone(), Fn: fn, E: e, Stream: stream, Epoch: epoch, Pos: start, Pre: pre, choices: choices}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(deadWalk); !ok {
						panic(r)
					}
					w.dead = true
				}
			}()
			f(w)
		}()
		if !w.dead {
			c.Count("spec_cases", 1)
		}
		choices = w.choices[:w.n]
		for len(choices) > 0 && choices[len(choices)-1] {
			choices = choices[:len(choices)-1]
		}
		if len(choices) == 0 {
			return
		}
		choices = append(append([]bool(nil), choices[:len(choices)-1]...), true)
	}
}

// If decides cond, splitting the walk when the path leaves it open.
func (w *Walk) If(cond ai.Cmp) bool {
	switch w.S.Decide(cond) {
	case ai.True:
		return true
	case ai.False:
		return false
	}
	var v bool
	if w.n < len(w.choices) {
		v = w.choices[w.n]
	} else {
		w.choices = append(append([]bool(nil), w.choices...), false)
	}
	w.n++
	// false first: the recorded flag says "take the second case"
	c := cond
	if v {
		c = cond.Not()
	}
	if !w.S.Assume(c) {
		panic(deadWalk{})
	}
	return !v
}

func Eq(l *ai.Lin, k int64) ai.Cmp   { return ai.Cmp{Op: ai.EQ, L: l.AddK(-k)} }
func Ge(l *ai.Lin, k int64) ai.Cmp   { return ai.Cmp{Op: ai.LE, L: ai.Const(k).Sub(l)} }
func Le(l *ai.Lin, k int64) ai.Cmp   { return ai.Cmp{Op: ai.LE, L: l.AddK(-k)} }
func GeL(a, b *ai.Lin) ai.Cmp        { return ai.Cmp{Op: ai.LE, L: b.Sub(a)} }
func EqL(a, b *ai.Lin) ai.Cmp        { return ai.Cmp{Op: ai.EQ, L: a.Sub(b)} }
func (w *Walk) IfSet(l *ai.Lin) bool { return w.If(ai.Cmp{Op: ai.NE, L: l}) }

// At returns n bits at pos without advancing.
func (w *Walk) At(pos *ai.Lin, n int) *ai.Lin {
	return w.E.Bits(w.Stream, w.Epoch, w.S.Norm(pos), n)
}

// U reads n bits.
func (w *Walk) U(n int) *ai.Lin {
	v := w.At(w.Pos, n)
	w.Pos = w.Pos.AddK(int64(n))
	return v
}

func (w *Walk) Skip(n int64) { w.Pos = w.Pos.AddK(n) }

// SkipBytes advances by a variable number of bytes.
func (w *Walk) SkipBytes(n *ai.Lin) { w.Pos = w.Pos.Add(n.Mul(8)) }

func (w *Walk) fail(key, format string, a ...any) {
	o := w.O
	o.S = w.S
	w.C.FailAt(w.Pre+key, o, w.Fn, format, a...)
}

// Eq demands got == want.
func (w *Walk) Eq(what string, got ai.Val, want *ai.Lin) {
	w.C.Count("field_obligations", 1)
	l, ok := AsLin(got)
	if !ok {
		w.fail(what, "%s is %s, want %v", what, ai.ValString(got), w.S.Norm(want))
		return
	}
	if w.S.Decide(EqL(l, want)) != ai.True {
		w.fail(what, "%s is %v, want %v", what, w.S.Norm(l), w.S.Norm(want))
	}
}

// True demands that the boolean got equals cond.
func (w *Walk) Bool(what string, got ai.Val, want ai.Cmp) {
	w.C.Count("field_obligations", 1)
	if !boolEquiv(w.S, got, want) {
		w.fail(what, "%s is %s, want %v", what, ai.ValString(got), want)
	}
}

// Flag demands that got is the bit l.
func (w *Walk) Flag(what string, got ai.Val, l *ai.Lin) {
	w.Bool(what, got, ai.Cmp{Op: ai.NE, L: l})
}

func boolEquiv(s *ai.State, got ai.Val, want ai.Cmp) bool {
	b, ok := got.(ai.Bool)
	if !ok {
		return false
	}
	for _, c := range []ai.Cmp{want, want.Not()} {
		t := s.Clone()
		if !t.Assume(c) {
			continue
		}
		exp := ai.True
		if c.Op != want.Op || c.L != want.L {
			exp = ai.False
		}
		if DecideBool(t, b) != exp {
			return false
		}
	}
	return true
}

func DecideBool(s *ai.State, b ai.Bool) ai.Tri {
	if b.IsConst {
		if b.V {
			return ai.True
		}
		return ai.False
	}
	return s.Decide(b.C)
}

// AsLin views integers and booleans as numbers.
func AsLin(v ai.Val) (*ai.Lin, bool) {
	switch x := v.(type) {
	case *ai.Lin:
		return x, true
	}
	return nil, false
}

// Must demands a condition on the path.
func (w *Walk) Must(what string, cond ai.Cmp) {
	w.C.Count("path_obligations", 1)
	if w.S.Decide(cond) != ai.True {
		w.fail(what, "%s: cannot show %v", what, ai.Cmp{Op: cond.Op, L: w.S.Norm(cond.L)})
	}
}

// MustNil demands that a pointer, slice or interface is nil.
func (w *Walk) MustNil(what string, v ai.Val) {
	w.C.Count("path_obligations", 1)
	if IsNil(w.S, v) != ai.True {
		w.fail(what, "%s is %s, want nil", what, ai.ValString(v))
	}
}

func (w *Walk) MustNonNil(what string, v ai.Val) bool {
	w.C.Count("path_obligations", 1)
	if IsNil(w.S, v) != ai.False {
		w.fail(what, "%s is %s, want non-nil", what, ai.ValString(v))
		return false
	}
	return true
}

// AtEnd demands that the stream stands at the walk's position.
func (w *Walk) AtEnd(what string) {
	w.C.Count("path_obligations", 1)
	got := w.S.Stream(w.Stream).Pos
	if w.S.Stream(w.Stream).Epoch != w.Epoch || w.S.Decide(EqL(got, w.Pos)) != ai.True {
		w.fail(what, "%s: the input stands at bit %v, want %v", what, w.S.Norm(got), w.S.Norm(w.Pos))
	}
}

func (w *Walk) String() string { return fmt.Sprintf("walk at %v", w.Pos) }
