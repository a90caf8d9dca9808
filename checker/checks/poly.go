package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verifchk/ai"
)

// Canonical forms of the expressions the interpreter builds: polynomials over
// leaves, with truncating (or, of what may be negative, flooring) division by
// a constant as the only other operation.

type poly map[string]*big.Int // sorted leaves joined by '*' -> coefficient; "" is the constant

func (p poly) add(k string, c *big.Int) {
	if o := p[k]; o != nil {
		o.Add(o, c)
		if o.Sign() == 0 {
			delete(p, k)
		}
	} else if c.Sign() != 0 {
		p[k] = new(big.Int).Set(c)
	}
}

func (p poly) plus(q poly, f int64) poly {
	r := poly{}
	for k, c := range p {
		r.add(k, c)
	}
	b := big.NewInt(f)
	for k, c := range q {
		r.add(k, new(big.Int).Mul(c, b))
	}
	return r
}

func (p poly) times(q poly) poly {
	r := poly{}
	for k, c := range p {
		for l, d := range q {
			var fs []string
			if k != "" {
				fs = append(fs, strings.Split(k, "*")...)
			}
			if l != "" {
				fs = append(fs, strings.Split(l, "*")...)
			}
			sort.Strings(fs)
			r.add(strings.Join(fs, "*"), new(big.Int).Mul(c, d))
		}
	}
	return r
}

// ratio is m if q is m times p, 0 if there is none.
func (p poly) ratio(q poly) int64 {
	m := int64(0)
	if len(p) != len(q) {
		return 0
	}
	for k, c := range p {
		d := q[k]
		if d == nil {
			return 0
		}
		x, r := new(big.Int).QuoRem(d, c, new(big.Int))
		if r.Sign() != 0 || !x.IsInt64() || m != 0 && m != x.Int64() {
			return 0
		}
		m = x.Int64()
	}
	return m
}

func (p poly) key() string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s%s;", p[k], k)
	}
	return b.String()
}

func konst(k int64) poly {
	p := poly{}
	p.add("", big.NewInt(k))
	return p
}

// div is the truncating division; floor marks a flooring one.
func (p poly) div(d int64, floor bool) poly {
	if d < 0 {
		return konst(0).plus(p, -1).div(-d, floor)
	}
	if c := p[""]; len(p) == 0 || len(p) == 1 && c != nil {
		q := new(big.Int)
		if c != nil {
			if floor {
				q.Div(c, big.NewInt(d))
			} else {
				q.Quo(c, big.NewInt(d))
			}
		}
		r := poly{}
		r.add("", q)
		return r
	}
	g := big.NewInt(d)
	for _, c := range p {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	r := poly{}
	for k, c := range p {
		r[k] = new(big.Int).Quo(c, g)
	}
	d /= g.Int64()
	if d == 1 {
		return r
	}
	name := "trunc"
	if floor {
		name = "floor"
	}
	leaf := poly{}
	leaf.add(strings.ReplaceAll(fmt.Sprintf("%s{%s|%d}", name, r.key(), d), "*", "×"), big.NewInt(1))
	return leaf
}

type polys struct {
	s    *ai.State
	memo map[*ai.Atom]poly
}

func newPolys(s *ai.State) *polys { return &polys{s, map[*ai.Atom]poly{}} }

func leafName(a *ai.Atom) string { return fmt.Sprintf("a%d", a.ID) }

func (x *polys) of(l *ai.Lin) poly {
	l = x.s.Norm(l)
	r := konst(l.K)
	for _, t := range l.T {
		r = r.plus(x.atom(t.A), t.C)
	}
	return r
}

func (x *polys) atom(a *ai.Atom) poly {
	if p := x.memo[a]; p != nil {
		return p
	}
	p := poly{}
	leaf := func() { p.add(leafName(a), big.NewInt(1)) }
	k := func(i int) (int64, bool) {
		n := x.s.Norm(a.Args[i])
		return n.K, n.IsConst()
	}
	x.memo[a] = poly{leafName(a): big.NewInt(1)} // while it is being built
	switch {
	case len(a.Args) != 2:
		leaf()
	case a.Fn == "*":
		p = x.of(a.Args[0]).times(x.of(a.Args[1]))
	case a.Fn == "/":
		if d, ok := k(1); ok && d != 0 {
			p = x.of(a.Args[0]).div(d, false)
		} else {
			leaf()
		}
	case a.Fn == ">>":
		if d, ok := k(1); ok && d >= 0 && d < 62 {
			lo, _ := x.s.Range(a.Args[0])
			p = x.of(a.Args[0]).div(1<<uint(d), lo < 0)
		} else {
			leaf()
		}
	case a.Fn == "<<":
		if d, ok := k(1); ok && d >= 0 && d < 62 {
			p = x.of(a.Args[0]).times(konst(1 << uint(d)))
		} else {
			leaf()
		}
	default:
		leaf()
	}
	x.memo[a] = p
	return p
}

// parity is the value modulo 2 as the leaves whose parities add up to it.
type parity map[string]bool

func (p parity) flip(k string) {
	if p[k] {
		delete(p, k)
	} else {
		p[k] = true
	}
}

func (p parity) key() string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func parityOf(s *ai.State, l *ai.Lin) parity {
	r := parity{}
	l = s.Norm(l)
	if l.K&1 != 0 {
		r.flip("1")
	}
	for _, t := range l.T {
		if t.C&1 == 0 {
			continue
		}
		a := t.A
		var sub parity
		switch {
		case a.Fn == "^" && len(a.Args) == 2:
			sub = parityOf(s, a.Args[0])
			for k := range parityOf(s, a.Args[1]) {
				sub.flip(k)
			}
		case (a.Fn == "mod" || a.Fn == "&" || a.Fn == "%") && len(a.Args) == 2 && s.Norm(a.Args[1]).IsConst():
			m := s.Norm(a.Args[1]).K
			if a.Fn == "&" && m&1 == 1 || a.Fn != "&" && m&1 == 0 {
				sub = parityOf(s, a.Args[0])
			}
		}
		if sub == nil {
			sub = parity{leafName(a): true}
		}
		for k := range sub {
			r.flip(k)
		}
	}
	return r
}

// parityFacts are the parities a state has decided, as independent equations
// modulo 2, each with a leaf no other one has.
type parityFacts struct {
	eqs  []parity // each including "1" if odd
	lead []string
}

func (f *parityFacts) reduce(p parity) parity {
	r := parity{}
	for k := range p {
		r.flip(k)
	}
	for i, q := range f.eqs {
		if r[f.lead[i]] {
			for k := range q {
				r.flip(k)
			}
		}
	}
	return r
}

func (f *parityFacts) add(p parity) {
	p = f.reduce(p)
	lead := ""
	for k := range p {
		if k != "1" && (lead == "" || k < lead) {
			lead = k
		}
	}
	if lead == "" {
		return
	}
	for _, q := range f.eqs {
		if q[lead] {
			for k := range p {
				q.flip(k)
			}
		}
	}
	f.eqs = append(f.eqs, p)
	f.lead = append(f.lead, lead)
}

func parities(e *ai.Engine, s *ai.State) *parityFacts {
	r := &parityFacts{}
	e.EachAtom(func(a *ai.Atom) {
		if len(a.Args) != 2 || a.Fn != "mod" && a.Fn != "&" && a.Fn != "%" {
			return
		}
		m := s.Norm(a.Args[1])
		if !m.IsConst() || a.Fn == "&" && m.K != 1 || a.Fn != "&" && m.K != 2 {
			return
		}
		switch s.Decide(Eq(ai.AtomLin(a), 0)) {
		case ai.True:
			r.add(parityOf(s, a.Args[0]))
		case ai.False:
			p := parityOf(s, a.Args[0])
			p.flip("1")
			r.add(p)
		}
	})
	return r
}

// isOdd decides the parity of l, if the state does.
func isOdd(s *ai.State, known *parityFacts, l *ai.Lin) (odd, ok bool) {
	p := known.reduce(parityOf(s, l))
	switch {
	case len(p) == 0:
		return false, true
	case len(p) == 1 && p["1"]:
		return true, true
	}
	return false, false
}
