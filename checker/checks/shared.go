package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// X04. Which values may point into memory reachable from package variables,
// and what is written through them once the packages are initialised. The
// analysis is flow insensitive and follows every function of the module and
// of the modules it uses; memory is told apart by field and element type.

type sharing struct {
	c        *Ctx
	e        *ai.Engine
	fns      []*ssa.Function
	runtime  map[*ssa.Function]bool
	vals     map[ssa.Value]string // value -> why it may point to shared memory
	cells    map[string]string    // field or element -> why what it holds may
	rets     map[*ssa.Function]map[int]string
	inits    map[*ssa.Function]bool // closures held by package variables
	taken    []*ssa.Function
	private  map[*ssa.Alloc]bool
	changed  bool
	known    func(p *types.Package) bool
	writes   map[string]sharedWrite
	analysed int
}

type sharedWrite struct {
	fn  *ssa.Function
	pos token.Pos
	why string
	of  string // the package variable
}

// holdsRefs says whether a value of the type can lead to other memory.
func holdsRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return holdsRefs(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsRefs(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (h *sharing) mark(v ssa.Value, why string) {
	if why == "" || !holdsRefs(v.Type()) {
		return
	}
	if _, ok := h.vals[v]; !ok {
		h.vals[v] = why
		h.changed = true
	}
}

// of is why v may point to shared memory, or "".
func (h *sharing) of(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		if h.known(g.Pkg.Pkg) {
			return g.Name()
		}
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return h.vals[v]
}

// where names the cell an address stands for.
func (h *sharing) where(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if a, ok := x.X.(*ssa.Alloc); ok && h.private[a] {
			return fmt.Sprintf("alloc %p.%d", a, x.Field)
		}
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return fmt.Sprintf("%s.%d", types.TypeString(t, nil), x.Field)
	case *ssa.Alloc:
		if h.private[x] {
			return fmt.Sprintf("alloc %p", x)
		}
	}
	t := addr.Type().Underlying().(*types.Pointer).Elem()
	return "cell " + types.TypeString(t, nil)
}

func (h *sharing) put(key, why string) {
	if _, ok := h.cells[key]; !ok && why != "" {
		h.cells[key] = why
		h.changed = true
	}
}

// hold records that the cell at addr, of type t, may hold shared references.
func (h *sharing) hold(addr ssa.Value, why string) {
	t := addr.Type().Underlying().(*types.Pointer).Elem()
	if !holdsRefs(t) {
		return
	}
	if a, ok := addr.(*ssa.Alloc); ok && h.private[a] {
		h.put(h.where(a), why)
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				h.put(fmt.Sprintf("alloc %p.%d", a, i), why)
			}
		}
		return
	}
	h.put(h.where(addr), why)
	h.holdType(t, why)
}

func (h *sharing) holdType(t types.Type, why string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ft := u.Field(i).Type(); holdsRefs(ft) {
				h.put(fmt.Sprintf("%s.%d", types.TypeString(t, nil), i), why)
				h.holdType(ft, why)
			}
		}
	case *types.Array:
		h.put("cell "+types.TypeString(u.Elem(), nil), why)
		h.holdType(u.Elem(), why)
	}
}

func (h *sharing) held(addr ssa.Value) string {
	if w := h.of(addr); w != "" {
		return w
	}
	if w := h.cells[h.where(addr)]; w != "" {
		return w
	}
	t := addr.Type().Underlying().(*types.Pointer).Elem()
	var in func(t types.Type) string
	in = func(t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if w := h.cells[fmt.Sprintf("%s.%d", types.TypeString(t, nil), i)]; w != "" {
					return w
				}
				if w := in(u.Field(i).Type()); w != "" {
					return w
				}
			}
		case *types.Array:
			if w := h.cells["cell "+types.TypeString(u.Elem(), nil)]; w != "" {
				return w
			}
			return in(u.Elem())
		}
		return ""
	}
	if a, ok := addr.(*ssa.Alloc); ok && h.private[a] {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if w := h.cells[fmt.Sprintf("alloc %p.%d", a, i)]; w != "" {
					return w
				}
			}
		}
		return ""
	}
	return in(t)
}

// isPrivate: the address of the variable is only used to load and store.
func isPrivate(a *ssa.Alloc) bool {
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if v != ssa.Value(a) || !ok(x) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(a)
}

func (c *Ctx) sharing(e *ai.Engine) *sharing {
	h := &sharing{c: c, e: e, runtime: map[*ssa.Function]bool{}, vals: map[ssa.Value]string{}, cells: map[string]string{}, rets: map[*ssa.Function]map[int]string{}, inits: map[*ssa.Function]bool{}, private: map[*ssa.Alloc]bool{}, writes: map[string]sharedWrite{}}
	std := map[string]bool{}
	for _, p := range c.P.SSA.AllPackages() {
		std[p.Pkg.Path()] = !strings.Contains(strings.SplitN(p.Pkg.Path(), "/", 2)[0], ".")
	}
	h.known = func(p *types.Package) bool { return p != nil && !std[p.Path()] }
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !h.known(pkgOf(f)) {
			return
		}
		seen[f] = true
		h.fns = append(h.fns, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						add(g)
					}
				}
				switch x := in.(type) {
				case *ssa.Alloc:
					h.private[x] = isPrivate(x)
				case *ssa.MakeInterface:
					ms := c.P.SSA.MethodSets.MethodSet(x.X.Type())
					for i := 0; i < ms.Len(); i++ {
						add(c.P.SSA.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	for _, p := range c.P.SSA.AllPackages() {
		if !h.known(p.Pkg) {
			continue
		}
		names := make([]string, 0, len(p.Members))
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if types.IsInterface(t) {
						continue
					}
					if nt, ok := m.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
						continue
					}
					ms := c.P.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						add(c.P.SSA.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	// functions that only run while the packages are initialised
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, f := range h.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, _ := in.(ssa.CallInstruction)
				for _, o := range in.Operands(nil) {
					if o == nil {
						continue
					}
					g, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if cl != nil && cl.Common().Value == *o {
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
					} else {
						taken[g] = true
					}
				}
			}
		}
	}
	for _, f := range h.fns {
		if taken[f] {
			h.taken = append(h.taken, f)
		}
	}
	isInit := func(f *ssa.Function) bool {
		return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) && f.Signature.Recv() == nil
	}
	only := map[*ssa.Function]bool{} // only while initialising
	for _, f := range h.fns {
		exported := f.Object() != nil && f.Object().Exported()
		only[f] = isInit(f) || !taken[f] && !exported && f.Signature.Recv() == nil && len(callers[f]) > 0
	}
	for ch := true; ch; {
		ch = false
		for _, f := range h.fns {
			if !only[f] || isInit(f) {
				continue
			}
			for g := range callers[f] {
				if !only[g] {
					only[f], ch = false, true
				}
			}
		}
	}
	for _, f := range h.fns {
		h.runtime[f] = !only[f]
	}
	// closures package variables hold: what they captured is shared
	s := e.NewState()
	objs := map[int]bool{}
	var walk func(v ai.Val)
	visit := func(id int) {
		if id == 0 || objs[id] {
			return
		}
		objs[id] = true
		e.EachCell(s, id, func(_ string, v ai.Val) { walk(v) })
	}
	walk = func(v ai.Val) {
		switch x := v.(type) {
		case ai.Func:
			if x.Fn != nil && len(x.Bind) > 0 {
				h.inits[x.Fn] = true
				for _, b := range x.Bind {
					walk(b)
				}
			}
		case ai.Ptr:
			visit(x.Obj)
		case ai.Slice:
			visit(x.Obj)
		case ai.Iface:
			if x.V != nil {
				walk(x.V)
			}
		}
	}
	for _, p := range c.P.SSA.AllPackages() {
		if !c.P.InRepo(p.Func("init")) {
			continue
		}
		for _, m := range p.Members {
			if gl, ok := m.(*ssa.Global); ok {
				c.Count("package_variables", 1)
				visit(e.GlobalObj(gl))
			}
		}
	}
	for f := range h.inits {
		for _, fv := range f.FreeVars {
			h.mark(fv, "what "+f.Name()+" captured during initialisation")
		}
	}
	for h.changed = true; h.changed; {
		h.changed = false
		for _, f := range h.fns {
			if h.runtime[f] {
				h.pass(f, false)
			}
		}
	}
	for _, f := range h.fns {
		if h.runtime[f] {
			h.pass(f, true)
		}
	}
	return h
}

func pkgOf(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
	}
	return nil
}

func (h *sharing) write(f *ssa.Function, pos token.Pos, what, why string) {
	if why == "" {
		return
	}
	k := f.String() + "/" + why
	if _, ok := h.writes[k]; !ok {
		h.writes[k] = sharedWrite{f, pos, fmt.Sprintf("%s memory shared through %s", what, why), why}
	}
}

// pass derives values from values; with report it also looks at the writes.
func (h *sharing) pass(f *ssa.Function, report bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				h.mark(x, h.of(x.X))
			case *ssa.IndexAddr:
				h.mark(x, h.of(x.X))
			case *ssa.Field:
				h.mark(x, h.of(x.X))
			case *ssa.Index:
				h.mark(x, h.of(x.X))
			case *ssa.Lookup:
				h.mark(x, h.of(x.X))
				if m, ok := x.X.Type().Underlying().(*types.Map); ok {
					h.mark(x, h.cells["cell "+types.TypeString(m.Elem(), nil)])
				}
			case *ssa.Slice:
				h.mark(x, h.of(x.X))
			case *ssa.ChangeType:
				h.mark(x, h.of(x.X))
			case *ssa.Convert:
				h.mark(x, h.of(x.X))
			case *ssa.MultiConvert:
				h.mark(x, h.of(x.X))
			case *ssa.ChangeInterface:
				h.mark(x, h.of(x.X))
			case *ssa.MakeInterface:
				h.mark(x, h.of(x.X))
			case *ssa.SliceToArrayPointer:
				h.mark(x, h.of(x.X))
			case *ssa.TypeAssert:
				h.mark(x, h.of(x.X))
			case *ssa.Extract:
				if cl, ok := x.Tuple.(*ssa.Call); ok {
					for _, g := range h.callees(cl) {
						h.mark(x, h.rets[g][x.Index])
					}
					if h.external(cl) {
						h.mark(x, h.of(cl))
					}
				} else {
					h.mark(x, h.of(x.Tuple))
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					h.mark(x, h.of(e))
				}
			case *ssa.Range:
				h.mark(x, h.of(x.X))
			case *ssa.Next:
				h.mark(x, h.of(x.Iter))
			case *ssa.Select:
				for _, st := range x.States {
					if report {
						h.write(f, st.Pos, "uses a channel in", h.of(st.Chan))
					}
					h.mark(x, h.of(st.Chan))
					if ch, ok := st.Chan.Type().Underlying().(*types.Chan); ok {
						h.mark(x, h.cells["cell "+types.TypeString(ch.Elem(), nil)])
						if st.Send != nil {
							if w := h.of(st.Send); w != "" {
								h.put("cell "+types.TypeString(ch.Elem(), nil), w)
							}
						}
					}
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					if holdsRefs(x.Type()) {
						h.mark(x, h.held(x.X))
					}
				case token.ARROW:
					if report {
						h.write(f, x.Pos(), "receives from", h.of(x.X))
					}
					if ch, ok := x.X.Type().Underlying().(*types.Chan); ok {
						h.mark(x, h.cells["cell "+types.TypeString(ch.Elem(), nil)])
					}
				}
			case *ssa.Store:
				if report {
					h.count("stores")
					h.write(f, x.Pos(), "writes", h.of(x.Addr))
				}
				if w := h.of(x.Val); w != "" {
					h.hold(x.Addr, w)
				}
			case *ssa.MapUpdate:
				if report {
					h.count("stores")
					h.write(f, x.Pos(), "updates a map in", h.of(x.Map))
				}
				for _, v := range []ssa.Value{x.Key, x.Value} {
					if w := h.of(v); w != "" {
						h.put("cell "+types.TypeString(v.Type(), nil), w)
						h.holdType(v.Type(), w)
					}
				}
			case *ssa.Send:
				if report {
					h.write(f, x.Pos(), "sends on a channel in", h.of(x.Chan))
				}
				if w := h.of(x.X); w != "" {
					h.put("cell "+types.TypeString(x.X.Type(), nil), w)
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					h.mark(g.FreeVars[i], h.of(b))
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if w := h.of(v); w != "" {
						if h.rets[f] == nil {
							h.rets[f] = map[int]string{}
						}
						if h.rets[f][i] == "" {
							h.rets[f][i] = w
							h.changed = true
						}
					}
				}
			case ssa.CallInstruction:
				h.call(f, x, report)
			}
		}
	}
}

func (h *sharing) count(k string) { h.c.Count(k, 1) }

// callees are the functions of the modules a call may reach.
func (h *sharing) callees(x ssa.CallInstruction) (r []*ssa.Function) {
	cm := x.Common()
	if cm.IsInvoke() {
		it, _ := cm.Value.Type().Underlying().(*types.Interface)
		for _, f := range h.fns {
			if f.Name() == cm.Method.Name() && f.Signature.Recv() != nil && f.Synthetic == "" && it != nil {
				t := f.Signature.Recv().Type()
				if types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
					r = append(r, f)
				}
			}
		}
		return
	}
	if g := cm.StaticCallee(); g != nil {
		if h.known(pkgOf(g)) && len(g.Blocks) > 0 {
			return []*ssa.Function{g}
		}
		return nil
	}
	if _, ok := cm.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, f := range h.taken {
		if types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), cm.Value.Type().Underlying()) {
			r = append(r, f)
		}
	}
	return
}

// external says whether a call may leave the modules.
func (h *sharing) external(x ssa.CallInstruction) bool {
	cm := x.Common()
	if cm.IsInvoke() {
		return true
	}
	if g := cm.StaticCallee(); g != nil {
		return !(h.known(pkgOf(g)) && len(g.Blocks) > 0)
	}
	return false
}

// packages whose functions only read what they are given
var readers = map[string]bool{
	"errors": true, "fmt": true, "strings": true, "math": true, "math/bits": true, "image": true, "image/color": true,
	"regexp": true, "unicode": true, "unicode/utf8": true, "log": true, "strconv": true, "os": true, "bytes": true, "cmp": true,
}

// methods that only read their receiver and arguments, by contract
var readerMethods = map[string]bool{
	"Error": true, "String": true, "Is": true, "As": true, "Unwrap": true, "Bounds": true, "ColorModel": true, "At": true, "Len": true, "GoString": true,
}

func (h *sharing) call(f *ssa.Function, x ssa.CallInstruction, report bool) {
	cm := x.Common()
	res, _ := x.(*ssa.Call)
	if report {
		h.count("calls")
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if report && !h.full(cm.Args[0]) {
				h.write(f, x.Pos(), "appends in place to", h.of(cm.Args[0]))
			}
			h.mark(res, h.of(cm.Args[0]))
			if len(cm.Args) > 1 {
				if sl, ok := cm.Args[1].Type().Underlying().(*types.Slice); ok && holdsRefs(sl.Elem()) {
					if w := h.of(cm.Args[1]); w != "" {
						h.put("cell "+types.TypeString(sl.Elem(), nil), w)
						h.holdType(sl.Elem(), w)
					}
				}
			}
		case "copy":
			if report {
				h.write(f, x.Pos(), "copies over", h.of(cm.Args[0]))
			}
			if sl, ok := cm.Args[1].Type().Underlying().(*types.Slice); ok && holdsRefs(sl.Elem()) {
				if w := h.of(cm.Args[1]); w != "" {
					h.put("cell "+types.TypeString(sl.Elem(), nil), w)
					h.holdType(sl.Elem(), w)
				}
			}
		case "delete", "clear", "close":
			if report {
				h.write(f, x.Pos(), b.Name()+"s", h.of(cm.Args[0]))
			}
		default:
			if res != nil {
				for _, a := range cm.Args {
					h.mark(res, h.of(a))
				}
			}
		}
		return
	}
	for _, g := range h.callees(x) {
		ps := g.Params
		if cm.IsInvoke() {
			if len(ps) > 0 {
				h.mark(ps[0], h.of(cm.Value))
				ps = ps[1:]
			}
		}
		for i, a := range cm.Args {
			if i < len(ps) {
				h.mark(ps[i], h.of(a))
			}
		}
		if res != nil {
			for i := 0; i < g.Signature.Results().Len(); i++ {
				if g.Signature.Results().Len() == 1 {
					h.mark(res, h.rets[g][i])
				}
			}
		}
	}
	if !h.external(x) {
		return
	}
	args := cm.Args
	name, pkg := "", ""
	if cm.IsInvoke() {
		name = cm.Method.Name()
		args = append([]ssa.Value{cm.Value}, args...)
	} else {
		g := cm.StaticCallee()
		name = g.Name()
		if p := pkgOf(g); p != nil {
			pkg = p.Path()
		}
		if g.Signature.Recv() != nil && pkg == "bytes" {
			pkg = ""
		}
		if strings.HasPrefix(name, "Fprint") || name == "As" {
			pkg = ""
		}
	}
	safe := readers[pkg] || readerMethods[name] || name == "Decode" && len(h.callees(x)) > 0
	for i, a := range args {
		w := h.of(a)
		if w == "" {
			continue
		}
		if name == "Write" && i > 0 || strings.HasPrefix(name, "Fprint") && i > 0 {
			continue
		}
		if report && !safe {
			if _, ok := a.Type().Underlying().(*types.Signature); ok {
				continue
			}
			h.write(f, x.Pos(), "hands to "+name+" (which may change it)", w)
		}
		if res != nil {
			h.mark(res, w)
		}
	}
}

// full: a package variable's slice without room to append in place.
func (h *sharing) full(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	s := h.e.NewState()
	sl, ok := h.e.GlobalVal(s, g).(ai.Slice)
	return ok && sl.Cap != nil && sl.Len != nil && sl.Cap.Equal(sl.Len)
}

var (
	mutableMu    sync.Mutex
	mutableCache = map[*ai.Program][]*ssa.Global{}
)

// mutableGlobals are the package variables that change once the packages are
// initialised, or that lead to memory that does. X04 finds none; the other
// checks must not rely on what the initialisers left in them.
func (c *Ctx) mutableGlobals(e *ai.Engine) []*ssa.Global {
	mutableMu.Lock()
	defer mutableMu.Unlock()
	if r, ok := mutableCache[c.P]; ok {
		return r
	}
	names := map[string]bool{}
	for _, w := range New(c.P, "X04", c.Tier).sharing(e).writes {
		names[w.of] = true
	}
	r := []*ssa.Global{}
	for _, p := range c.P.Pkgs {
		for n, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && names[n] {
				r = append(r, g)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	mutableCache[c.P] = r
	return r
}

func init() {
	register("X04", "interprocedural, flow-insensitive, field-based points-to analysis over go/ssa (which values may lead into memory of package variables) with a write check on every store, append, copy, map update, channel operation and external call", "", func(c *Ctx) {
		c.Rule("after package initialisation no store, append, copy, map update or channel operation, and no call that may write its operand, reaches memory that a package variable leads to")
		e := c.Engine()
		h := c.sharing(e)
		n := 0
		for _, f := range h.fns {
			if h.runtime[f] {
				n++
				if c.P.InRepo(f) {
					c.Sample("%s", f)
				}
			}
		}
		c.Count("functions", n)
		c.Count("write_obligations", c.Cov["stores"]+c.Cov["calls"])
		if len(h.vals) == 0 {
			c.Anchor("values that lead to package variables")
		}
		c.Count("values_shared", len(h.vals))
		for _, k := range sortedW(h.writes) {
			w := h.writes[k]
			c.Failf("write/"+w.fn.String(), c.P.Where(w.pos), "%s %s", w.fn, w.why)
		}
	})
}

func sortedW(m map[string]sharedWrite) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}
