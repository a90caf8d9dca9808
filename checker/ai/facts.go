package ai

import "fmt"

type CmpOp int

const (
	EQ CmpOp = iota // L == 0
	NE              // L != 0
	LE              // L <= 0
)

type Cmp struct {
	Op CmpOp
	L  *Lin
}

func (c Cmp) Not() Cmp {
	switch c.Op {
	case EQ:
		return Cmp{NE, c.L}
	case NE:
		return Cmp{EQ, c.L}
	}
	return Cmp{LE, c.L.Neg().AddK(1)}
}

func (c Cmp) String() string {
	return fmt.Sprintf("%v %s 0", c.L, [...]string{"==", "!=", "<="}[c.Op])
}

type Tri int

const (
	Unknown Tri = iota
	True
	False
)

func (t Tri) Not() Tri {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

type bnd struct{ lo, hi int64 }

// Fact is an immutable range/disequality fact about a linear key.
type Fact struct {
	L      *Lin
	Lo, Hi int64
	NE     []int64
}

func (f *Fact) String() string {
	s := fmt.Sprintf("%v in [%d,%d]", f.L, f.Lo, f.Hi)
	if len(f.NE) > 0 {
		s += fmt.Sprintf(" not in %v", f.NE)
	}
	return s
}

// Facts is the numeric part of an abstract state.
type Facts struct {
	subst map[*Atom]*Lin
	ab    map[*Atom]bnd
	facts map[string]*Fact
	order []string // keys of facts in insertion order
	bad   bool
	depth int
}

func newFacts() *Facts {
	return &Facts{subst: map[*Atom]*Lin{}, ab: map[*Atom]bnd{}, facts: map[string]*Fact{}}
}

func (s *Facts) clone() *Facts {
	n := &Facts{bad: s.bad, subst: make(map[*Atom]*Lin, len(s.subst)+4), ab: make(map[*Atom]bnd, len(s.ab)+2), facts: make(map[string]*Fact, len(s.facts)+2)}
	for k, v := range s.subst {
		n.subst[k] = v
	}
	for k, v := range s.ab {
		n.ab[k] = v
	}
	n.order = append(make([]string, 0, len(s.order)+4), s.order...)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

func (s *Facts) put(k string, f *Fact) {
	if _, ok := s.facts[k]; !ok {
		s.order = append(s.order, k)
	}
	s.facts[k] = f
}

func (s *Facts) del(k string) {
	delete(s.facts, k)
	for i, o := range s.order {
		if o == k {
			s.order = append(s.order[:i:i], s.order[i+1:]...)
			return
		}
	}
}

// Norm rewrites l using the known equalities.
func (s *Facts) Norm(l *Lin) *Lin {
	hit := false
	for _, t := range l.T {
		if _, ok := s.subst[t.A]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	r := &Lin{K: l.K}
	var rest []Term
	for _, t := range l.T {
		if _, ok := s.subst[t.A]; !ok {
			rest = append(rest, t)
		}
	}
	r.T = rest
	for _, t := range l.T {
		if v, ok := s.subst[t.A]; ok {
			if len(v.T) == 0 {
				r = &Lin{K: addc(r.K, mulc(v.K, t.C)), T: r.T}
			} else {
				r = r.AddMul(v, t.C)
			}
		}
	}
	return r
}

func (s *Facts) atomBounds(a *Atom) (int64, int64) {
	if b, ok := s.ab[a]; ok {
		return b.lo, b.hi
	}
	return a.Lo, a.Hi
}

func (s *Facts) interval(l *Lin) (int64, int64) {
	lo, hi := l.K, l.K
	for _, t := range l.T {
		alo, ahi := s.atomBounds(t.A)
		tl, th := scale(alo, ahi, t.C)
		lo, hi = satAdd(lo, tl), satAdd(hi, th)
	}
	return lo, hi
}

// Range returns the best known bounds of l.
func (s *Facts) Range(l *Lin) (int64, int64) { return s.rng(s.Norm(l), 2) }

func (s *Facts) rng(l *Lin, depth int) (lo, hi int64) {
	lo, hi = s.interval(l)
	if len(l.T) <= 1 || len(s.facts) == 0 {
		if len(l.T) == 0 {
			return
		}
	}
	key, f := l.split()
	if ft, ok := s.facts[key.Key()]; ok {
		a, b := scale(ft.Lo, ft.Hi, f)
		lo, hi = max(lo, satAdd(a, l.K)), min(hi, satAdd(b, l.K))
	}
	if depth == 0 || (lo == hi) {
		return
	}
	inl := make(map[*Atom]int64, len(l.T))
	for _, t := range l.T {
		inl[t.A] = t.C
	}
	for _, fk := range s.order {
		ft := s.facts[fk]
		var done []int64
		for _, t := range ft.L.T {
			c, ok := inl[t.A]
			if !ok || c%t.C != 0 {
				continue
			}
			lam := c / t.C
			dup := false
			for _, d := range done {
				if d == lam {
					dup = true
				}
			}
			if dup {
				continue
			}
			done = append(done, lam)
			r, ok := tryAddMul(l, ft.L, -lam)
			if !ok || len(r.T) > len(l.T)+2 && len(r.T) > 8 {
				continue
			}
			var rl, rh int64
			if depth > 1 {
				rl, rh = s.rng(r, depth-1)
			} else {
				rl, rh = s.interval(r)
				k2, f2 := r.split()
				if g, ok := s.facts[k2.Key()]; ok && len(r.T) > 0 {
					a, b := scale(g.Lo, g.Hi, f2)
					rl, rh = max(rl, satAdd(a, r.K)), min(rh, satAdd(b, r.K))
				}
			}
			a, b := scale(ft.Lo, ft.Hi, lam)
			lo, hi = max(lo, satAdd(rl, a)), min(hi, satAdd(rh, b))
			if len(done) >= 3 {
				break
			}
		}
	}
	return
}

func tryAddMul(l, m *Lin, f int64) (r *Lin, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(overflow); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return l.AddMul(m, f), true
}

// Decide evaluates c under the facts.
func (s *Facts) Decide(c Cmp) Tri {
	l := s.Norm(c.L)
	if len(l.T) == 0 {
		var b bool
		switch c.Op {
		case EQ:
			b = l.K == 0
		case NE:
			b = l.K != 0
		case LE:
			b = l.K <= 0
		}
		if b {
			return True
		}
		return False
	}
	if c.Op == NE {
		return s.Decide(Cmp{EQ, l}).Not()
	}
	lo, hi := s.interval(l)
	if t := dec(c.Op, lo, hi); t != Unknown {
		return t
	}
	key, f := l.split()
	if c.Op == EQ {
		if l.K%f != 0 {
			return False
		}
		if ft, ok := s.facts[key.Key()]; ok {
			for _, v := range ft.NE {
				if v == -l.K/f {
					return False
				}
			}
		}
		if s.bitsImpossible(key, -l.K/f) {
			return False
		}
	}
	lo, hi = s.rng(l, 2)
	return dec(c.Op, lo, hi)
}

func dec(op CmpOp, lo, hi int64) Tri {
	switch op {
	case EQ:
		if lo > 0 || hi < 0 {
			return False
		}
		if lo == 0 && hi == 0 {
			return True
		}
	case LE:
		if hi <= 0 {
			return True
		}
		if lo > 0 {
			return False
		}
	}
	return Unknown
}

// superinc returns terms sorted by coefficient when key is a non-overlapping
// positive combination of bits (each coefficient exceeds the sum of the
// smaller ones).
func (s *Facts) superinc(key *Lin) []Term {
	for _, t := range key.T {
		if !t.A.IsBit() || t.C <= 0 {
			return nil
		}
	}
	ts := append([]Term(nil), key.T...)
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].C < ts[j-1].C; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
	var sum int64
	for _, t := range ts {
		if t.C <= sum {
			return nil
		}
		sum = satAdd(sum, t.C)
	}
	return ts
}

func (s *Facts) bitsImpossible(key *Lin, v int64) bool {
	ts := s.superinc(key)
	if ts == nil {
		return false
	}
	for i := len(ts) - 1; i >= 0; i-- {
		if v >= ts[i].C {
			v -= ts[i].C
		}
	}
	return v != 0
}

// Assume adds c; false means infeasible.
func (s *Facts) Assume(c Cmp) bool {
	if s.bad {
		return false
	}
	l := s.Norm(c.L)
	switch c.Op {
	case EQ:
		s.addRange(l, 0, 0)
	case LE:
		s.addRange(l, NInf, 0)
	case NE:
		s.addNE(l)
	}
	return !s.bad
}

// AssumeRange adds lo <= l <= hi.
func (s *Facts) AssumeRange(l *Lin, lo, hi int64) bool {
	if !s.bad {
		s.addRange(s.Norm(l), lo, hi)
	}
	return !s.bad
}

func (s *Facts) addNE(l *Lin) {
	if s.bad {
		return
	}
	if len(l.T) == 0 {
		if l.K == 0 {
			s.bad = true
		}
		return
	}
	key, f := l.split()
	if l.K%f != 0 {
		return
	}
	v := -l.K / f
	lo, hi := s.rng(key, 1)
	if v < lo || v > hi {
		return
	}
	if v == lo {
		s.addRange(key, lo+1, hi)
		return
	}
	if v == hi {
		s.addRange(key, lo, hi-1)
		return
	}
	k := key.Key()
	n := &Fact{L: key, Lo: lo, Hi: hi}
	if ft, ok := s.facts[k]; ok {
		n.Lo, n.Hi = ft.Lo, ft.Hi
		n.NE = append(append([]int64(nil), ft.NE...), v)
	} else {
		n.NE = []int64{v}
	}
	s.put(k, n)
	s.forceBits(n)
}

func (s *Facts) addRange(l *Lin, lo, hi int64) {
	if s.bad {
		return
	}
	s.depth++
	defer func() { s.depth-- }()
	if len(l.T) == 0 {
		if l.K < lo || l.K > hi {
			s.bad = true
		}
		return
	}
	key, f := l.split()
	// lo <= f*key + K <= hi
	nlo, nhi := int64(NInf), int64(PInf)
	sub := func(x, k int64) int64 {
		if x == NInf || x == PInf {
			return x
		}
		return satAdd(x, -k)
	}
	a, b := sub(lo, l.K), sub(hi, l.K)
	if f > 0 {
		if a != NInf {
			nlo = ceilDiv(a, f)
		}
		if b != PInf {
			nhi = floorDiv(b, f)
		}
	} else {
		if b != PInf {
			nlo = ceilDiv(-b, -f)
		}
		if a != NInf {
			nhi = floorDiv(-a, -f)
		}
	}
	ks := ""
	var ne []int64
	oldlo, oldhi := s.interval(key)
	had := false
	if len(key.T) > 1 {
		ks = key.Key()
		if ft, ok := s.facts[ks]; ok {
			oldlo, oldhi = max(oldlo, ft.Lo), min(oldhi, ft.Hi)
			ne = ft.NE
			had = true
		}
	} else {
		ks = key.Key()
		if ft, ok := s.facts[ks]; ok {
			ne = ft.NE
		}
	}
	nlo, nhi = max(nlo, oldlo), min(nhi, oldhi)
	for again := true; again; {
		again = false
		for _, v := range ne {
			if v == nlo && nlo <= nhi {
				nlo++
				again = true
			}
			if v == nhi && nlo <= nhi {
				nhi--
				again = true
			}
		}
	}
	if nlo > nhi {
		s.bad = true
		return
	}
	if nlo == oldlo && nhi == oldhi && nlo != nhi {
		if had || (nlo == NInf && nhi == PInf) || len(key.T) == 1 {
			return
		}
		if il, ih := s.interval(key); il == nlo && ih == nhi {
			return
		}
	}
	if len(key.T) == 1 {
		at := key.T[0].A
		if nlo == nhi {
			s.setEq(at, Const(nlo))
			return
		}
		s.ab[at] = bnd{nlo, nhi}
		return
	}
	if nlo == nhi {
		s.solve(key, nlo)
		return
	}
	n := &Fact{L: key, Lo: nlo, Hi: nhi, NE: ne}
	s.put(ks, n)
	if s.depth < 6 {
		s.propagate(n)
		if ft, ok := s.facts[ks]; ok && !s.bad && ft == n {
			s.forceBits(n)
		}
	}
}

// propagate tightens atoms from a fact.
func (s *Facts) propagate(ft *Fact) {
	lo, hi := s.interval(ft.L)
	for _, t := range ft.L.T {
		if s.bad {
			return
		}
		if _, gone := s.subst[t.A]; gone {
			return
		}
		alo, ahi := s.atomBounds(t.A)
		tl, th := scale(alo, ahi, t.C)
		// rest interval
		var rlo, rhi int64 = NInf, PInf
		if lo != NInf && tl != NInf {
			rlo = lo - tl
		}
		if hi != PInf && th != PInf {
			rhi = hi - th
		}
		var nl, nh int64 = NInf, PInf
		// t.C*a in [Lo - rhi, Hi - rlo]
		if ft.Lo != NInf && rhi != PInf {
			v := satAdd(ft.Lo, -rhi)
			if t.C > 0 {
				nl = ceilDiv(v, t.C)
			} else {
				nh = floorDiv(-v, -t.C)
			}
		}
		if ft.Hi != PInf && rlo != NInf {
			v := satAdd(ft.Hi, -rlo)
			if t.C > 0 {
				nh = min(nh, floorDiv(v, t.C))
			} else {
				nl = max(nl, ceilDiv(-v, -t.C))
			}
		}
		if nl > alo || nh < ahi {
			s.addRange(AtomLin(t.A), max(nl, alo), min(nh, ahi))
			lo, hi = s.interval(ft.L)
		}
	}
}

// forceBits enumerates small bit combinations and fixes the common bits.
func (s *Facts) forceBits(ft *Fact) {
	n := len(ft.L.T)
	if n > 6 || len(ft.NE) == 0 && n > 4 {
		return
	}
	for _, t := range ft.L.T {
		if !t.A.IsBit() {
			return
		}
		if _, gone := s.subst[t.A]; gone {
			return
		}
	}
	and, or := (1<<n)-1, 0
	any := false
outer:
	for m := 0; m < 1<<n; m++ {
		v := int64(0)
		for i, t := range ft.L.T {
			if m>>i&1 == 1 {
				v += t.C
			}
		}
		if v < ft.Lo || v > ft.Hi {
			continue
		}
		for _, x := range ft.NE {
			if x == v {
				continue outer
			}
		}
		any = true
		and &= m
		or |= m
	}
	if !any {
		s.bad = true
		return
	}
	terms := ft.L.T
	for i, t := range terms {
		if and>>i&1 == 1 {
			s.setEq(t.A, Const(1))
		} else if or>>i&1 == 0 {
			s.setEq(t.A, Const(0))
		}
	}
}

// solve records key == v.
func (s *Facts) solve(key *Lin, v int64) {
	if ts := s.superinc(key); ts != nil {
		for i := len(ts) - 1; i >= 0; i-- {
			if v >= ts[i].C {
				v -= ts[i].C
				s.setEq(ts[i].A, Const(1))
			} else {
				s.setEq(ts[i].A, Const(0))
			}
		}
		if v != 0 {
			s.bad = true
		}
		return
	}
	// eliminate an atom with unit coefficient
	var best *Term
	score := func(t *Term) int {
		sc := 0
		if t.A.Acc {
			sc += 1000000000
		}
		if !t.A.IsBit() {
			sc += 500000000
		}
		return sc + t.A.ID
	}
	for i := range key.T {
		t := &key.T[i]
		if t.C != 1 && t.C != -1 {
			continue
		}
		if t.A.IsBit() && len(key.T) > 2 {
			continue
		}
		if best == nil || score(t) > score(best) {
			best = t
		}
	}
	if best != nil {
		// c*a + rest == v  =>  a == (v-rest)/c
		rest := key.AddMul(AtomLin(best.A), -best.C)
		s.setEq(best.A, Const(v).Sub(rest).Mul(best.C))
		return
	}
	k := key.Key()
	n := &Fact{L: key, Lo: v, Hi: v}
	if old, ok := s.facts[k]; ok {
		for _, x := range old.NE {
			if x == v {
				s.bad = true
				return
			}
		}
	}
	s.put(k, n)
	if s.depth < 6 {
		s.propagate(n)
	}
}

// setEq substitutes a := v (v normalised, not containing a).
func (s *Facts) setEq(a *Atom, v *Lin) {
	if s.bad {
		return
	}
	if old, ok := s.subst[a]; ok {
		s.addRange(s.Norm(old.Sub(v)), 0, 0)
		return
	}
	v = s.Norm(v)
	if v.coef(a) != 0 {
		return
	}
	lo, hi := s.atomBounds(a)
	delete(s.ab, a)
	s.subst[a] = v
	for k, w := range s.subst {
		if k != a && w.coef(a) != 0 {
			s.subst[k] = s.Norm(w)
		}
	}
	if lo != NInf || hi != PInf {
		s.addRange(v, lo, hi)
	}
	var redo []*Fact
	for _, k := range append([]string(nil), s.order...) {
		if f := s.facts[k]; f.L.coef(a) != 0 {
			redo = append(redo, f)
			s.del(k)
		}
	}
	for _, f := range redo {
		l := s.Norm(f.L)
		s.addRange(l, f.Lo, f.Hi)
		for _, x := range f.NE {
			if s.bad {
				return
			}
			s.addNE(s.Norm(f.L).AddK(-x))
		}
		if s.bad {
			return
		}
	}
}
