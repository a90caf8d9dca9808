package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Unsupported aborts the analysis of a root: the verdict is "undecided".
type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return "unsupported: " + u.Msg }

// Program is the loaded code base.
type Program struct {
	Dir   string
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package // import path suffix ("ts", "pes", ...) -> package
	Roots []*packages.Package
	Mod   string
	fset  *token.FileSet
	fnum  map[*ssa.Function]*fnInfo
	fmu   sync.RWMutex
}

func Load(dir string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, SSA: prog, Roots: pkgs, Pkgs: map[string]*ssa.Package{}, fset: prog.Fset, fnum: map[*ssa.Function]*fnInfo{}}
	for i, sp := range ps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		if pkgs[i].Module != nil {
			p.Mod = pkgs[i].Module.Path
		}
	}
	for i, sp := range ps {
		p.Pkgs[strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, p.Mod), "/")] = sp
	}
	return p, nil
}

// InRepo says whether fn belongs to the analysed module.
func (p *Program) InRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.inMod(f.Pkg.Pkg)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return p.inMod(f.Object().Pkg())
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return p.inMod(o.Pkg.Pkg)
		}
	}
	return false
}

func (p *Program) inMod(pk *types.Package) bool {
	return pk.Path() == p.Mod || strings.HasPrefix(pk.Path(), p.Mod+"/")
}

// Where renders a position relative to the repository.
func (p *Program) Where(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	f := strings.TrimPrefix(ps.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

type fnInfo struct {
	num   map[ssa.Value]int
	loops map[*ssa.BasicBlock]*natLoop
	// every block -> innermost-to-outermost loops containing it
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.fmu.RLock()
	fi0, ok := p.fnum[fn]
	p.fmu.RUnlock()
	if fi := fi0; ok {
		return fi
	}
	fi := &fnInfo{num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*natLoop{}}
	add := func(v ssa.Value) { fi.num[v] = len(fi.num) }
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	p.fmu.Lock()
	p.fnum[fn] = fi
	p.fmu.Unlock()
	return fi
}

// Model replaces the interpretation of a call.
type Model func(e *Engine, s *State, site ssa.CallInstruction, args []Val) []Alt

// Alt is one possible result of an operation.
type Alt struct {
	S *State
	V Val
	// Panicked: the path ends here
	Panicked bool
	Why      string
}

// Obligation is a safety condition at one construct.
type Obligation struct {
	Fn     *ssa.Function
	Pos    token.Pos
	Kind   string
	Detail string
	Checks int
	Failed bool
	Why    string
	In     string // root
}

type LoopInfo struct {
	ID       int
	Fn       *ssa.Function
	Header   *ssa.BasicBlock
	Pos      token.Pos
	Trip     int // constant trip count, or -1
	Entry    *State
	Head     *State
	HeadEv   *Event
	Backs    []*State
	Invs     []*Lin
	Accs     []*Atom
	DeltaOf  []map[*Atom]*Lin // per back edge: change of each accumulator
	Progress []string         // per back edge: why it makes progress ("" = none found)
	BackPos  []token.Pos
	frame    *frame
	backFr   []*frame
}

type Engine struct {
	P        *Program
	Models   map[string]Model        // by function full name
	FnModels map[*ssa.Function]Model // root specific
	Unroll   int
	// OnUnknown may replace the model of a call of caller-supplied code.
	OnUnknown func(s *State, site ssa.CallInstruction, key string, sig *types.Signature, args []Val) []Alt
	// Peel says whether the first iteration of a loop is followed on its own.
	Peel func(fn *ssa.Function, header *ssa.BasicBlock) bool
	// Keep are objects whose discrete contents always distinguish states.
	Keep []int
	// Partition says whether a loop is followed by partitions of its states.
	Partition func(fn *ssa.Function, header *ssa.BasicBlock) bool
	// Rotate: a traversal that ends at the loop's test leaves the loop there.
	Rotate bool
	// MaxLive bounds the paths followed at once while a loop is unrolled.
	MaxLive int
	// Endless takes reads, peeks and code words as successful: for rules about
	// what happens when nothing fails.
	Endless bool
	// Coalesce merges the paths of a loop that is unrolled after every turn.
	Coalesce bool
	joined   map[string]*Lin
	joinedTo []joinedVal
	lives    map[*fnInfo]map[*ssa.BasicBlock][]bool
	// OnReturn sees the outcomes of a repository function before they are merged.
	OnReturn func(fn *ssa.Function, pre *State, args []Val, alts []Alt)
	// Merge says whether the outcomes of a call are joined.
	Merge func(fn *ssa.Function) MergeMode
	// OnLoad observes every load of the code under analysis.
	OnLoad func(s *State, obj int, path string, t types.Type, v Val, pos token.Pos, fn *ssa.Function)
	// OnEvent observes every event (a monitor); it may change s.
	OnEvent  func(s *State, ev *Event)
	MaxState int
	// results
	Obls              map[OblKey]*Obligation
	oblLog            []oblUndo
	journal           int // checkpoints in use
	Loops             []*LoopInfo
	Havocs            map[string]int // unmodelled external calls
	RootName          string
	Visited           map[*ssa.Function]bool   // functions interpreted
	LoopsSeen         map[*ssa.BasicBlock]bool // heads of loops interpreted
	Stats             struct{ Paths, Instrs, Calls, Forks int }
	NoUnroll          func(fn *ssa.Function, h *ssa.BasicBlock) bool
	ArrayIndexSplit   int
	SplitReads        int // partition reads of a variable width with at most this many widths
	SplitUnsignedWrap bool
	OnStore           func(s *State, obj int, path string, v Val, pos token.Pos, fn *ssa.Function)
	KeepStores        bool
	PruneDropped      bool // do not follow failures whose error is discarded on the spot
	PreciseExits      bool
	TrustBounds       bool // bounds that are not constant are not examined: what panics is left to other checks
	Loose             bool // merging may forget which error is reported and which object a pointer refers to
	preciseDepth      int
	// MaxAlloc is the largest allocation (bytes) a data-dependent size may ask for.
	MaxAlloc int64

	atoms       map[string]*Atom
	nextAtom    int
	nextObj     int
	nextFresh   int
	nextPend    int
	nextLoop    int
	base        map[int]*Obj
	symNames    map[string]int
	symObjs     map[int]*Obj
	streamIDs   map[string]int
	streamNames map[int]string
	globals     map[*ssa.Global]int
	errKinds    map[string]int64
	errNames    map[int64]string
	symIdx      map[int]*Lin
	symIdxKey   map[string]int
	activeLoops []int
	condSinks   []*[]Cmp
	callStack   []*ssa.Function
	curSite     ssa.CallInstruction
	initDone    bool
	inInit      bool
	Budget      int // instructions left to execute
}

func NewEngine(p *Program) *Engine {
	e := &Engine{P: p, Models: map[string]Model{}, FnModels: map[*ssa.Function]Model{}, Unroll: 80, MaxLive: 16, MaxState: 4000,
		Obls: map[OblKey]*Obligation{}, Havocs: map[string]int{},
		atoms: map[string]*Atom{}, base: map[int]*Obj{}, symNames: map[string]int{}, symObjs: map[int]*Obj{},
		streamIDs: map[string]int{}, streamNames: map[int]string{}, globals: map[*ssa.Global]int{},
		errKinds: map[string]int64{}, errNames: map[int64]string{}, symIdx: map[int]*Lin{}, symIdxKey: map[string]int{},
		Visited: map[*ssa.Function]bool{}, LoopsSeen: map[*ssa.BasicBlock]bool{}, SplitUnsignedWrap: true, PruneDropped: true, MaxAlloc: 1 << 16, Budget: 40000000,
	}
	e.ErrKind("io.EOF")
	e.ErrKind("io.ErrUnexpectedEOF")
	installModels(e)
	return e
}

const (
	KindEOF  = 0
	KindUEOF = 1
)

// ErrKind returns the number identifying a named error value.
func (e *Engine) ErrKind(name string) int64 {
	if k, ok := e.errKinds[name]; ok {
		return k
	}
	k := int64(len(e.errKinds))
	e.errKinds[name] = k
	e.errNames[k] = name
	return k
}

// ErrKindName is the inverse of ErrKind.
func (e *Engine) ErrKindName(k int64) string { return e.errNames[k] }

func (e *Engine) Atom(key string, lo, hi int64) *Atom {
	if a, ok := e.atoms[key]; ok {
		return a
	}
	e.nextAtom++
	a := &Atom{ID: e.nextAtom, Key: key, Lo: lo, Hi: hi}
	a.Loops = append([]int(nil), e.activeLoops...)
	e.atoms[key] = a
	return a
}

func (e *Engine) freshName(tag string) string {
	e.nextFresh++
	return fmt.Sprintf("%s~%d", tag, e.nextFresh)
}

func (e *Engine) Fresh(tag string, lo, hi int64) *Atom {
	return e.Atom(e.freshName(tag), lo, hi)
}

// Bit returns the atom of one input bit.
func (e *Engine) Bit(stream, epoch int, pos *Lin) *Atom {
	key := fmt.Sprintf("s%d.%d[%s]", stream, epoch, pos.Key())
	if a, ok := e.atoms[key]; ok {
		return a
	}
	a := e.Atom(key, 0, 1)
	a.Stream, a.Epoch, a.Pos = stream, epoch, pos
	return a
}

// Bits returns the n-bit unsigned big-endian value at pos.
func (e *Engine) Bits(stream, epoch int, pos *Lin, n int) *Lin {
	r := Const(0)
	for i := 0; i < n; i++ {
		a := e.Bit(stream, epoch, pos.AddK(int64(i)))
		r = r.AddMul(AtomLin(a), int64(1)<<uint(n-1-i))
	}
	return r
}

func (e *Engine) StreamID(name string) int {
	if id, ok := e.streamIDs[name]; ok {
		return id
	}
	id := len(e.streamIDs) + 1
	e.streamIDs[name] = id
	e.streamNames[id] = name
	return id
}

func (e *Engine) isBitReader(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/32bitkid/bitreader" && types.IsInterface(t)
}

// ---- symbolic indices

func (e *Engine) idxPath(s *State, idx *Lin) string {
	l := s.Norm(idx)
	if l.IsConst() {
		return fmt.Sprintf("[%d]", l.K)
	}
	k := l.Key()
	id, ok := e.symIdxKey[k]
	if !ok {
		id = len(e.symIdx) + 1
		e.symIdxKey[k] = id
		e.symIdx[id] = l
	}
	return fmt.Sprintf("[#%d]", id)
}

// SymIndex resolves a path component "[#n]".
func (e *Engine) SymIndex(id int) *Lin { return e.symIdx[id] }

type comp struct {
	field string
	idx   *Lin
}

func (e *Engine) splitPath(path string) []comp {
	var r []comp
	i := 0
	for i < len(path) {
		if path[i] == '.' {
			j := i + 1
			for j < len(path) && path[j] != '.' && path[j] != '[' {
				j++
			}
			r = append(r, comp{field: path[i:j]})
			i = j
			continue
		}
		j := strings.IndexByte(path[i:], ']') + i
		body := path[i+1 : j]
		if body[0] == '#' {
			n, _ := strconv.Atoi(body[1:])
			r = append(r, comp{idx: e.symIdx[n]})
		} else {
			n, _ := strconv.ParseInt(body, 10, 64)
			r = append(r, comp{idx: Const(n)})
		}
		i = j + 1
	}
	return r
}

// mayAlias compares two paths; sharing a common shape up to the shorter one.
func (s *State) mayAlias(a, b string) Tri {
	if a == b || under(a, b) || under(b, a) {
		return True
	}
	ca, cb := s.E.splitPath(a), s.E.splitPath(b)
	n := min(len(ca), len(cb))
	res := True
	for i := 0; i < n; i++ {
		if ca[i].idx == nil || cb[i].idx == nil {
			if ca[i].field != cb[i].field {
				return False
			}
			continue
		}
		switch s.Decide(Cmp{EQ, ca[i].idx.Sub(cb[i].idx)}) {
		case False:
			return False
		case Unknown:
			res = Unknown
		}
	}
	return res
}

func hasSym(path string) bool { return strings.Contains(path, "[#") }

// normPath rewrites symbolic indices that became constant.
func (s *State) normPath(path string) string {
	if !hasSym(path) {
		return path
	}
	var b strings.Builder
	for _, c := range s.E.splitPath(path) {
		if c.idx == nil {
			b.WriteString(c.field)
		} else {
			b.WriteString(s.E.idxPath(s, c.idx))
		}
	}
	return b.String()
}

func sortedKeys(m map[string]cell) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// killAliases drops what a store to path may overwrite under another name.
func (s *State) killAliases(o *Obj, path string) {
	sym := hasSym(path)
	for _, k := range sortedKeys(o.cells) {
		if k == path || under(k, path) || (!sym && !hasSym(k)) {
			continue
		}
		if s.mayAlias(k, path) != False {
			c := o.cells[k]
			delete(o.cells, k)
			_ = c
			o.addDef(prefDef{k, defSym, s.E.freshName("h:alias")})
		}
	}
	if sym {
		pre := path[:strings.Index(path, "[#")]
		o.addDef(prefDef{pre, defSym, s.E.freshName("h:idx")})
		if len(o.Log) > 0 {
			o.Log = append(o.Log, Region{Path: pre})
		}
	}
}

// symIndexLoad handles loads whose path, or whose object's cells, use
// symbolic indices. ok=false: use the plain rule.
func (s *State) symIndexLoad(o *Obj, path string, t types.Type) (Val, bool) {
	if c, ok := o.cells[path]; ok {
		return c.V, true
	}
	if isAggregate(t) {
		if !hasSym(path) {
			return nil, false
		}
		// aggregate at unknown index
		for k := range o.cells {
			if s.mayAlias(k, path) != False {
				a := &Agg{T: t}
				a.cells = map[string]cell{}
				a.defs = []prefDef{{"", defSym, s.E.freshName("h:agg")}}
				return a, true
			}
		}
		return nil, false
	}
	sym := hasSym(path)
	if !sym {
		any := false
		for k := range o.cells {
			if hasSym(k) {
				any = true
				break
			}
		}
		if !any {
			return nil, false
		}
	}
	if sym {
		if np := s.normPath(path); np != path {
			return s.Load(o.ID, np, t), true
		}
	}
	var cands []string
	exact := ""
	for _, k := range sortedKeys(o.cells) {
		if len(k) == 0 {
			continue
		}
		switch s.mayAlias(k, path) {
		case True:
			exact = k
		case Unknown:
			cands = append(cands, k)
		}
	}
	if exact != "" && len(cands) == 0 {
		return o.cells[exact].V, true
	}
	d := o.def(path)
	if len(cands) == 0 && exact == "" {
		if d.mode == defSym {
			return nil, false
		}
		// zero default everywhere
		return ZeroVal(t), true
	}
	// join of candidates
	if lo, hi := TypeRange(t); true {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			jl, jh := int64(PInf), int64(NInf)
			for _, k := range cands {
				l, ok := o.cells[k].V.(*Lin)
				if !ok {
					jl, jh = lo, hi
					break
				}
				a, b := s.Range(l)
				jl, jh = min(jl, a), max(jh, b)
			}
			if d.mode == defZero {
				jl, jh = min(jl, 0), max(jh, 0)
			} else {
				jl, jh = lo, hi
			}
			if _, isBase := s.E.base[o.ID]; isBase && s.heap[o.ID] == nil {
				np := ""
				for _, c := range s.E.splitPath(path) {
					if c.idx != nil {
						np += "[" + s.Norm(c.idx).Key() + "]"
					} else {
						np += c.field
					}
				}
				a := s.E.Atom(fmt.Sprintf("tbl:%s%s", o.Name, np), jl, jh)
				a.Fn = "table:" + o.Name
				return AtomLin(a), true
			}
			return AtomLin(s.E.Fresh("ld:"+o.Name, jl, jh)), true
		}
	}
	return s.Sym(s.E.freshName("ld:"+o.Name), t), true
}

func (e *Engine) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	e.nextObj++
	id := e.nextObj
	e.globals[g] = id
	et := g.Type().(*types.Pointer).Elem()
	name := "global:" + g.Pkg.Pkg.Path() + "." + g.Name()
	o := &Obj{ID: id, T: et, Name: name, Pos: g.Pos()}
	o.cells = map[string]cell{}
	if !e.P.inMod(g.Pkg.Pkg) {
		if isErrorType(et) {
			n := g.Pkg.Pkg.Name() + "." + g.Name()
			o.cells[""] = cell{Iface{V: &ErrVal{Kind: Const(e.ErrKind(n)), Name: n}, Nil: Const(0)}, et}
		} else {
			o.defs = []prefDef{{"", defSym, name}}
		}
	}
	e.base[id] = o
	return id
}

// GlobalName finds the global with object id.
func (e *Engine) GlobalOf(id int) *ssa.Global {
	for g, i := range e.globals {
		if i == id {
			return g
		}
	}
	return nil
}

func (e *Engine) NewState() *State {
	return &State{E: e, Facts: newFacts(), heap: map[int]*Obj{}, streams: map[int]*Stream{}, Ghost: map[string]Val{}}
}

// Init interprets the package initialisers once.
func (e *Engine) Init() error {
	if e.initDone {
		return nil
	}
	e.initDone = true
	e.inInit = true
	defer func() { e.inInit = false }()
	s := e.NewState()
	var order []string
	for n := range e.P.Pkgs {
		order = append(order, n)
	}
	// dependency order: imports first
	sort.Strings(order)
	done := map[string]bool{}
	var visit func(n string) error
	visit = func(n string) error {
		if done[n] {
			return nil
		}
		done[n] = true
		for _, imp := range e.P.Pkgs[n].Pkg.Imports() {
			k := strings.TrimPrefix(strings.TrimPrefix(imp.Path(), e.P.Mod), "/")
			if _, ok := e.P.Pkgs[k]; ok && e.P.inMod(imp) {
				if err := visit(k); err != nil {
					return err
				}
			}
		}
		fn := e.P.Pkgs[n].Func("init")
		if fn == nil {
			return nil
		}
		save := e.Unroll
		e.Unroll = 100000
		outs := e.Call(s, fn, nil, nil)
		e.Unroll = save
		if len(outs) != 1 || outs[0].Panicked {
			return fmt.Errorf("initialiser of %s has %d outcomes", n, len(outs))
		}
		s = outs[0].S
		return nil
	}
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					err = u
					return
				}
				panic(r)
			}
		}()
		for _, n := range order {
			if err = visit(n); err != nil {
				return
			}
		}
	}()
	if err != nil {
		return err
	}
	for id, o := range s.heap {
		o.own = nil
		e.base[id] = o
	}
	// name package-level errors after their variable
	for g, id := range e.globals {
		o := e.base[id]
		if c, ok := o.cells[""]; ok && e.P.inMod(g.Pkg.Pkg) {
			if f, ok := c.V.(Iface); ok {
				if ev, ok := f.V.(*ErrVal); ok && ev.Kind.IsConst() {
					n := g.Pkg.Pkg.Name() + "." + g.Name()
					old := e.errNames[ev.Kind.K]
					if strings.HasPrefix(old, "errors.New") {
						e.errNames[ev.Kind.K] = n
						e.errKinds[n] = ev.Kind.K
						ev.Name = n
					}
				}
			}
		}
	}
	e.Obls = map[OblKey]*Obligation{}
	e.oblLog, e.journal = nil, 0
	e.Loops = nil
	e.Havocs = map[string]int{}
	return nil
}

// Oblige checks that c holds at pos. It returns false when it can never hold.
func (e *Engine) Oblige(s *State, fn *ssa.Function, pos token.Pos, kind, detail string, c Cmp) bool {
	if e.TrustBounds && (kind == "index" || kind == "slice") {
		if l := s.Norm(c.L); !l.IsConst() {
			return true
		}
	}
	t := s.Decide(c)
	e.noteObl(fn, pos, kind, detail, t == True, func() string { return fmt.Sprintf("cannot show %s", Cmp{c.Op, s.Norm(c.L)}) })
	if t == True {
		return true
	}
	return s.Assume(c)
}

// OblKey identifies an obligation.
type OblKey struct {
	Fn           *ssa.Function
	Pos          token.Pos
	Kind, Detail string
}

func (k OblKey) String() string { return fmt.Sprintf("%v|%s|%v|%s", k.Fn, k.Kind, k.Pos, k.Detail) }

type oblUndo struct {
	key OblKey
	old Obligation
	had bool
}

func (e *Engine) noteObl(fn *ssa.Function, pos token.Pos, kind, detail string, ok bool, why func() string) {
	if e.inInit {
		return
	}
	k := OblKey{fn, pos, kind, detail}
	o := e.Obls[k]
	if e.journal > 0 {
		u := oblUndo{key: k}
		if o != nil {
			u.old, u.had = *o, true
		}
		e.oblLog = append(e.oblLog, u)
	}
	if o == nil {
		o = &Obligation{Fn: fn, Pos: pos, Kind: kind, Detail: detail, In: e.RootName}
		e.Obls[k] = o
	}
	o.Checks++
	if !ok && !o.Failed {
		o.Failed = true
		o.Why = why()
	}
}

func (s *State) String() string {
	var b strings.Builder
	for _, k := range s.order {
		fmt.Fprintf(&b, "  %v\n", s.facts[k])
	}
	for a, v := range s.subst {
		fmt.Fprintf(&b, "  %s = %v\n", a.Key, v)
	}
	return b.String()
}

// GlobalVal loads a package variable as the initialisers left it.
func (e *Engine) GlobalVal(s *State, g *ssa.Global) Val {
	return s.Load(e.globalObj(g), "", g.Type().(*types.Pointer).Elem())
}

// GlobalObj is the object id of a package variable.
func (e *Engine) GlobalObj(g *ssa.Global) int { return e.globalObj(g) }
