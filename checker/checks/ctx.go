// Package checks holds the rules that decide the properties.
package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// Fail is one violated or undecided rule instance.
type Fail struct {
	Key   string // stable: rule and construct, no line numbers
	Where string // file:line
	Msg   string
	Trace []string
	N     int
}

// Ctx collects the verdict of one property.
type Ctx struct {
	P       *ai.Program
	Prop    string
	Tier    string
	Fails   map[string]*Fail
	Cov     map[string]int
	Rules   []string
	Samples []string
	Debug   bool
	sampled map[string]bool
	engines []*ai.Engine
}

func New(p *ai.Program, prop, tier string) *Ctx {
	return &Ctx{P: p, Prop: prop, Tier: tier, Fails: map[string]*Fail{}, Cov: map[string]int{}, sampled: map[string]bool{}, Debug: os.Getenv("VERIF_DEBUG") != ""}
}

// Check is a registered property check.
type Check struct {
	ID        string
	Run       func(c *Ctx)
	Technique string
	Note      string
}

var Registry = map[string]*Check{}

func register(id, technique, note string, run func(c *Ctx)) {
	Registry[id] = &Check{ID: id, Run: run, Technique: technique, Note: note}
}

func (c *Ctx) Failf(key, where, format string, a ...any) *Fail {
	f := c.Fails[key]
	if f == nil {
		f = &Fail{Key: key, Where: where, Msg: fmt.Sprintf(format, a...)}
		c.Fails[key] = f
	}
	f.N++
	return f
}

func (c *Ctx) Count(name string, n int) { c.Cov[name] += n }

func (c *Ctx) Rule(s string) {
	for _, r := range c.Rules {
		if r == s {
			return
		}
	}
	c.Rules = append(c.Rules, s)
}

func (c *Ctx) Sample(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if c.sampled[s] || len(c.Samples) >= 60 {
		return
	}
	c.sampled[s] = true
	c.Samples = append(c.Samples, s)
}

func (c *Ctx) SortedFails() []*Fail {
	var r []*Fail
	for _, f := range c.Fails {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Key < r[j].Key })
	return r
}

// abort ends the check of one unit; the undecided unit is reported.
type abort struct{}

// child is a context for a part that runs in parallel.
func (c *Ctx) child() *Ctx {
	n := New(c.P, c.Prop, c.Tier)
	return n
}

// adopt adds the verdict of a child.
func (c *Ctx) adopt(s *Ctx) {
	for k, f := range s.Fails {
		if o := c.Fails[k]; o != nil {
			o.N += f.N
		} else {
			c.Fails[k] = f
		}
	}
	c.engines = append(c.engines, s.engines...)
	for k, n := range s.Cov {
		c.Cov[k] += n
	}
	for _, r := range s.Rules {
		c.Rule(r)
	}
	for _, x := range s.Samples {
		c.Sample("%s", x)
	}
}

// Guard runs f and turns engine give-ups into "undecided" failures.
func (c *Ctx) Guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abort:
			case ai.Unsupported:
				c.Failf("undecided/"+what, "-", "%s could not be analysed: %s", what, r.Msg)
			default:
				if c.Debug {
					panic(r)
				}
				c.Failf("undecided/"+what, "-", "%s could not be analysed: internal error %v", what, r)
			}
		}
	}()
	f()
}

// Anchor reports a missing anchor and aborts the unit.
func (c *Ctx) Anchor(what string) {
	c.Failf("anchor/"+what, "-", "cannot find %s in the source: the rule has nothing to check", what)
	panic(abort{})
}

// ---- anchors

func (c *Ctx) Pkg(name string) *ssa.Package {
	p := c.P.Pkgs[name]
	if p == nil {
		c.Anchor("package " + name)
	}
	return p
}

// Fn is a package-level function.
func (c *Ctx) Fn(pkg, name string) *ssa.Function {
	f := c.Pkg(pkg).Func(name)
	if f == nil || len(f.Blocks) == 0 {
		c.Anchor(pkg + "." + name)
	}
	return f
}

// Named is a package-level type.
func (c *Ctx) Named(pkg, name string) *types.Named {
	o := c.Pkg(pkg).Pkg.Scope().Lookup(name)
	if o != nil {
		if n, ok := types.Unalias(o.Type()).(*types.Named); ok {
			if _, is := o.(*types.TypeName); is {
				return n
			}
		}
	}
	c.Anchor("type " + pkg + "." + name)
	return nil
}

// Method finds a method of T or *T.
func (c *Ctx) Method(pkg, typ, name string) *ssa.Function {
	n := c.Named(pkg, typ)
	for _, t := range []types.Type{types.NewPointer(n), n} {
		ms := c.P.SSA.MethodSets.MethodSet(t)
		if sel := ms.Lookup(c.Pkg(pkg).Pkg, name); sel != nil {
			if f := c.P.SSA.MethodValue(sel); f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	c.Anchor("method " + pkg + "." + typ + "." + name)
	return nil
}

func (c *Ctx) HasMethod(pkg, typ, name string) (f *ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); !ok {
				panic(r)
			}
			delete(c.Fails, "anchor/method "+pkg+"."+typ+"."+name)
			f = nil
		}
	}()
	return c.Method(pkg, typ, name)
}

// ---- running

// Engine makes a fresh engine with interpreted initialisers.
func (c *Ctx) Engine() *ai.Engine {
	e := ai.NewEngine(c.P)
	if err := e.Init(); err != nil {
		panic(ai.Unsupported{Msg: "package initialisers: " + err.Error()})
	}
	for _, g := range c.mutableGlobals(e) {
		e.HavocGlobal(g)
	}
	c.engines = append(c.engines, e)
	// the parsers of containers are judged by what a whole traversal leaves
	e.Rotate = c.Prop[0] == 'X' || c.Prop[0] == 'V'
	return e
}

// visited says whether some run interpreted fn.
func (c *Ctx) visited(fn *ssa.Function) bool {
	for _, e := range c.engines {
		if e.Visited[fn] {
			return true
		}
	}
	return false
}

// Root is one analysed entry point.
type Root struct {
	C    *Ctx
	E    *ai.Engine
	Fn   *ssa.Function
	S    *ai.State
	Args []ai.Val
	Bind []ai.Val
	Outs []ai.Outcome
}

// Prepare builds symbolic arguments; receivers are non-nil.
func (c *Ctx) Prepare(e *ai.Engine, fn *ssa.Function) *Root {
	r := &Root{C: c, E: e, Fn: fn, S: e.NewState()}
	for i, p := range fn.Params {
		v := r.S.Sym(p.Name(), p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			v = NonNil(v)
		}
		r.Args = append(r.Args, v)
	}
	return r
}

// NonNil strips the nil possibility of a value.
func NonNil(v ai.Val) ai.Val {
	z := ai.Const(0)
	switch x := v.(type) {
	case ai.Ptr:
		x.Nil = z
		return x
	case ai.Slice:
		x.Nil = z
		return x
	case ai.Iface:
		x.Nil = z
		return x
	case ai.Func:
		x.Nil = z
		return x
	case ai.Chan:
		x.Nil = z
		return x
	case ai.Map:
		x.Nil = z
		return x
	}
	return v
}

// ArgOf returns the index of the first parameter whose type satisfies f.
func (r *Root) ArgOf(f func(t types.Type) bool) int {
	for i, p := range r.Fn.Params {
		if f(p.Type()) {
			return i
		}
	}
	return -1
}

func (r *Root) Run() *Root {
	r.E.RootName = r.Fn.String()
	r.Outs = r.E.Call(r.S, r.Fn, r.Args, r.Bind)
	r.C.Count("roots", 1)
	r.C.Count("paths", len(r.Outs))
	r.C.Count("ssa_instructions_interpreted", r.E.Stats.Instrs)
	r.C.Count("loops_summarised", len(r.E.Loops))
	if len(r.Outs) == 0 {
		r.C.Failf("vacuous/"+r.Fn.String(), r.C.P.Where(r.Fn.Pos()), "no path through %s", r.Fn)
	}
	r.C.Sample("root %s: %d paths, %d loops", r.Fn, len(r.Outs), len(r.E.Loops))
	return r
}

// Stream returns the id of the bit reader passed as an argument.
func (r *Root) Stream() int {
	for _, a := range r.Args {
		if f, ok := a.(ai.Iface); ok {
			if sv, ok := f.V.(ai.StreamV); ok {
				return sv.ID
			}
		}
	}
	r.C.Anchor("bit reader parameter of " + r.Fn.String())
	return 0
}

func isBitReader(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/32bitkid/bitreader"
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// ErrIdx is the index of the error result, or -1.
func ErrIdx(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isError(rs.At(i).Type()) {
			return i
		}
	}
	return -1
}

// Succeeded decides whether an outcome reports success.
func Succeeded(o ai.Outcome, fn *ssa.Function) ai.Tri {
	i := ErrIdx(fn)
	if i < 0 {
		return ai.True
	}
	return IsNil(o.S, o.Vals[i])
}

// IsNil decides whether v is nil.
func IsNil(s *ai.State, v ai.Val) ai.Tri {
	n := NilOf(v)
	if n == nil {
		return ai.Unknown
	}
	return s.Decide(ai.Cmp{Op: ai.NE, L: n})
}

func NilOf(v ai.Val) *ai.Lin {
	switch x := v.(type) {
	case ai.Ptr:
		return x.Nil
	case ai.Slice:
		return x.Nil
	case ai.Iface:
		return x.Nil
	case ai.Func:
		return x.Nil
	case ai.Chan:
		return x.Nil
	case ai.Map:
		return x.Nil
	}
	return nil
}

// Successes iterates over the (possibly split) success outcomes.
func (r *Root) Successes(f func(o ai.Outcome)) int {
	n := 0
	for _, o := range r.Outs {
		if o.Panicked {
			continue
		}
		switch Succeeded(o, r.Fn) {
		case ai.True:
			n++
			f(o)
		case ai.Unknown:
			i := ErrIdx(r.Fn)
			o2 := o
			o2.S = o.S.Clone()
			if o2.S.Assume(ai.Cmp{Op: ai.NE, L: NilOf(o.Vals[i])}) {
				n++
				f(o2)
			}
		}
	}
	r.C.Count("success_paths", n)
	if n == 0 {
		r.C.Failf("vacuous-success/"+r.Fn.String(), r.C.P.Where(r.Fn.Pos()), "%s has no successful path", r.Fn)
	}
	return n
}

// Failures iterates over outcomes that may report an error.
func (r *Root) Failures(f func(o ai.Outcome, err *ai.ErrVal, v ai.Iface)) int {
	n := 0
	i := ErrIdx(r.Fn)
	for _, o := range r.Outs {
		if o.Panicked || Succeeded(o, r.Fn) == ai.True {
			continue
		}
		n++
		v, _ := o.Vals[i].(ai.Iface)
		ev, _ := v.V.(*ai.ErrVal)
		f(o, ev, v)
	}
	r.C.Count("error_paths", n)
	return n
}

// ---- fields

// FieldType finds a (possibly nested, dot separated) field of a struct type.
func FieldType(t types.Type, path string) types.Type {
	for _, name := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var ft types.Type
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				ft = st.Field(i).Type()
			}
		}
		// promoted through embedding
		if ft == nil {
			return nil
		}
		t = ft
	}
	return t
}

// promoted resolves a field name to its path through embedded structs.
func promoted(t types.Type, name string) (path string, ft types.Type) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		// unexported: need a package
		if n, ok := types.Unalias(t).(*types.Named); ok {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	v, ok := obj.(*types.Var)
	if !ok || v == nil {
		return "", nil
	}
	for _, i := range idx {
		st := t.Underlying().(*types.Struct)
		path += "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	return path, t
}

// Field loads a field of the struct p points to; missing fields abort.
func (c *Ctx) Field(s *ai.State, p ai.Ptr, t types.Type, name string) ai.Val {
	name = fieldName(t, name)
	path, ft := promoted(t, name)
	if ft == nil {
		c.Anchor("field " + t.String() + "." + name)
	}
	return s.Load(p.Obj, p.Path+path, ft)
}

// AsPtr asserts that v is a pointer.
func AsPtr(v ai.Val) (ai.Ptr, bool) {
	p, ok := v.(ai.Ptr)
	return p, ok
}

// TraceOf renders the path of an outcome for reports.
func (c *Ctx) TraceOf(s *ai.State) []string {
	var r []string
	for _, ev := range s.Events(nil) {
		switch ev.Kind {
		case "loophead", "loopnext":
			continue
		}
		l := fmt.Sprintf("%s %s", c.P.Where(ev.Pos), ev.Kind)
		if ev.Fn != nil {
			l += " in " + ev.Fn.Name()
		}
		if ev.Name != "" {
			l += " " + ev.Name
		}
		if ev.From != nil && ev.To != nil {
			l += fmt.Sprintf(" [%v..%v)", ev.From, ev.To)
		}
		r = append(r, l)
	}
	if len(r) > 120 {
		r = append(append(r[:60:60], "..."), r[len(r)-59:]...)
	}
	return r
}

// FailAt reports a violation found on a path.
func (c *Ctx) FailAt(key string, o ai.Outcome, fn *ssa.Function, format string, a ...any) {
	known := c.Fails[key] != nil
	f := c.Failf(key, c.P.Where(o.Pos), "%s", fn.String()+": "+fmt.Sprintf(format, a...))
	if !known {
		f.Trace = c.TraceOf(o.S)
	}
}
