// Package ai is an abstract interpreter over go/ssa.
//
// Domain: every integer is a linear form over atoms; an atom is one input bit
// (identified by stream, epoch and position) or an opaque bounded quantity.
package ai

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

const (
	PInf = math.MaxInt64
	NInf = math.MinInt64
)

// Atom is an indivisible unknown.
type Atom struct {
	ID     int
	Key    string
	Lo, Hi int64
	// bit atoms
	Stream, Epoch int
	Pos           *Lin // bit position, nil if not an input bit
	Acc           bool // loop accumulator
	Loops         []int
	// opaque function application (for diagnostics)
	Fn   string
	Args []*Lin
}

func (a *Atom) IsBit() bool { return a.Lo == 0 && a.Hi == 1 }

type Term struct {
	A *Atom
	C int64
}

// Lin is an immutable linear form K + sum C*A, terms sorted by atom id.
type Lin struct {
	K int64
	T []Term
}

func Const(k int64) *Lin { return &Lin{K: k} }

func AtomLin(a *Atom) *Lin { return &Lin{T: []Term{{a, 1}}} }

func (l *Lin) IsConst() bool { return len(l.T) == 0 }

func (l *Lin) Is(k int64) bool { return len(l.T) == 0 && l.K == k }

func (l *Lin) Key() string {
	if len(l.T) == 0 {
		return strconv.FormatInt(l.K, 10)
	}
	b := make([]byte, 0, 16*len(l.T)+8)
	for _, t := range l.T {
		b = strconv.AppendInt(b, t.C, 10)
		b = append(b, '*', 'a')
		b = strconv.AppendInt(b, int64(t.A.ID), 10)
		b = append(b, '+')
	}
	return string(strconv.AppendInt(b, l.K, 10))
}

func (l *Lin) String() string {
	if l == nil {
		return "<nil>"
	}
	if len(l.T) == 0 {
		return fmt.Sprint(l.K)
	}
	var b strings.Builder
	n := 0
	// compress runs of consecutive input bits
	for i := 0; i < len(l.T); i++ {
		t := l.T[i]
		if n > 0 {
			b.WriteString(" + ")
		}
		if n++; n > 14 {
			fmt.Fprintf(&b, "...(%d terms)", len(l.T))
			break
		}
		if t.C == 1 {
			b.WriteString(t.A.Key)
		} else {
			fmt.Fprintf(&b, "%d*%s", t.C, t.A.Key)
		}
	}
	if l.K != 0 {
		fmt.Fprintf(&b, " + %d", l.K)
	}
	return b.String()
}

type overflow struct{}

func addc(a, b int64) int64 {
	c := a + b
	if (c > a) != (b > 0) && b != 0 {
		panic(overflow{})
	}
	return c
}

func mulc(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		panic(overflow{})
	}
	return c
}

func (l *Lin) Add(m *Lin) *Lin { return l.AddMul(m, 1) }
func (l *Lin) Sub(m *Lin) *Lin { return l.AddMul(m, -1) }

func (l *Lin) AddK(k int64) *Lin {
	if k == 0 {
		return l
	}
	return &Lin{K: addc(l.K, k), T: l.T}
}

// AddMul returns l + f*m.
func (l *Lin) AddMul(m *Lin, f int64) *Lin {
	if f == 0 {
		return l
	}
	r := &Lin{K: addc(l.K, mulc(m.K, f))}
	if len(m.T) == 0 {
		r.T = l.T
		return r
	}
	r.T = make([]Term, 0, len(l.T)+len(m.T))
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].A.ID < m.T[j].A.ID):
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].A.ID < l.T[i].A.ID:
			r.T = append(r.T, Term{m.T[j].A, mulc(m.T[j].C, f)})
			j++
		default:
			c := addc(l.T[i].C, mulc(m.T[j].C, f))
			if c != 0 {
				r.T = append(r.T, Term{l.T[i].A, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l *Lin) Mul(f int64) *Lin {
	if f == 1 {
		return l
	}
	if f == 0 {
		return Const(0)
	}
	r := &Lin{K: mulc(l.K, f), T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.A, mulc(t.C, f)}
	}
	return r
}

func (l *Lin) Neg() *Lin { return l.Mul(-1) }

func (l *Lin) Equal(m *Lin) bool {
	if l == m {
		return true
	}
	if l.K != m.K || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i].A != m.T[i].A || l.T[i].C != m.T[i].C {
			return false
		}
	}
	return true
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// split separates l into f*key + K with key having no constant, gcd 1 and a
// positive first coefficient.
func (l *Lin) split() (key *Lin, f int64) {
	if len(l.T) == 0 {
		return &Lin{}, 1
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.C)
	}
	if l.T[0].C < 0 {
		g = -g
	}
	key = &Lin{T: make([]Term, len(l.T))}
	for i, t := range l.T {
		key.T[i] = Term{t.A, t.C / g}
	}
	return key, g
}

func (l *Lin) coef(a *Atom) int64 {
	i := sort.Search(len(l.T), func(i int) bool { return l.T[i].A.ID >= a.ID })
	if i < len(l.T) && l.T[i].A == a {
		return l.T[i].C
	}
	return 0
}

// Coef returns the coefficient of a in l.
func (l *Lin) Coef(a *Atom) int64 { return l.coef(a) }

// Interval helpers with saturation.
func satAdd(a, b int64) int64 {
	if a == PInf || b == PInf {
		return PInf
	}
	if a == NInf || b == NInf {
		return NInf
	}
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return PInf
	}
	if a < 0 && b < 0 && c >= 0 {
		return NInf
	}
	return c
}

func satMul(a, c int64) int64 {
	if a == 0 || c == 0 {
		return 0
	}
	inf := a == PInf || a == NInf
	if !inf {
		p := a * c
		if p/c == a && !(a == -1 && c == math.MinInt64) {
			return p
		}
	}
	if (a > 0) == (c > 0) {
		return PInf
	}
	return NInf
}

func scale(lo, hi, c int64) (int64, int64) {
	if c >= 0 {
		return satMul(lo, c), satMul(hi, c)
	}
	return satMul(hi, c), satMul(lo, c)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }
