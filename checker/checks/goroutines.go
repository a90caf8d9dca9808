package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifchk/ai"
)

// Goroutines are analysed as roots of their own, from the state at the go
// statement. A monitor object follows what they read, send and close.

const sentMark = ".#sent"

// mon is a monitor object with integer cells.
type mon struct {
	c   *Ctx
	e   *ai.Engine
	obj int
}

func newMon(c *Ctx, e *ai.Engine, name string) *mon {
	m := &mon{c: c, e: e, obj: e.SymObj(name, types.NewStruct(nil, nil))}
	e.Keep = append(e.Keep, m.obj)
	return m
}

func (m *mon) get(s *ai.State, cell string) *ai.Lin {
	l, _ := s.Load(m.obj, cell, tInt).(*ai.Lin)
	return s.Norm(l)
}

func (m *mon) set(s *ai.State, cell string, k int64) { s.Store(m.obj, cell, tInt, ai.Const(k)) }

func (m *mon) is(s *ai.State, cell string, k int64) bool {
	return s.Decide(Eq(m.get(s, cell), k)) == ai.True
}

func (m *mon) must(s *ai.State, fn *ssa.Function, pos token.Pos, rule, detail string, c ai.Cmp) {
	m.e.Oblige(s, fn, pos, "mon:"+rule, detail, c)
}

// report turns the monitor's obligations into failures.
func (m *mon) report(what string, prefixes ...string) {
	c := m.c
	var keys []ai.OblKey
	for k := range m.e.Obls {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	n := 0
	for _, k := range keys {
		o := m.e.Obls[k]
		if !strings.HasPrefix(o.Kind, "mon:") {
			continue
		}
		rule := o.Kind[4:]
		ok := rule == "undecided"
		for _, p := range prefixes {
			ok = ok || strings.HasPrefix(rule, p)
		}
		if !ok {
			continue
		}
		n++
		if o.Failed {
			c.Failf(fmt.Sprintf("%s/%s/%s: %s", what, rule, o.Fn.Name(), o.Detail), c.P.Where(o.Pos), "%s: %s (%s, %s)", o.Fn, o.Detail, what, o.Why)
		}
	}
	c.Count("obligations", n)
	if n == 0 {
		c.Failf("vacuous/"+what, "-", "no obligation of %v arose for %s", prefixes, what)
	}
	c.Sample("%s: %d obligations of %v", what, n, prefixes)
}

// started is one way client code starts a goroutine of the library.
type started struct {
	s    *ai.State // at the go statement
	args []ai.Val  // of the client's continuation
	fn   *ssa.Function
	a, b []ai.Val
	pos  token.Pos
}

// startedBy runs a client function and finds the goroutine it starts.
func (c *Ctx) startedBy(r *Root) []started {
	var res []started
	for i, a := range r.Args {
		r.Args[i] = NonNil(a)
	}
	r.E.RootName = r.Fn.String()
	for _, o := range r.E.Call(r.S, r.Fn, r.Args, nil) {
		if o.Panicked {
			c.FailAt(r.Fn.Name()+"/panic", o, r.Fn, "may panic: %s", o.Why)
			continue
		}
		var gos []*ai.Event
		var args []ai.Val
		for _, ev := range o.S.Events(nil) {
			switch {
			case ev.Kind == "go":
				gos = append(gos, ev)
			case ev.Kind == "call" && isClient(ev.Fn):
				args = ev.Args
			}
		}
		if len(gos) != 1 || args == nil {
			c.FailAt("undecided/"+r.Fn.Name(), o, r.Fn, "starts %d goroutines instead of one: not followed", len(gos))
			continue
		}
		f, ok := gos[0].Val.(ai.Func)
		if !ok || f.Fn == nil {
			c.FailAt("undecided/"+r.Fn.Name(), o, r.Fn, "the goroutine is not followed")
			continue
		}
		res = append(res, started{s: gos[0].Snap, args: args, fn: f.Fn, a: gos[0].Args, b: f.Bind, pos: gos[0].Pos})
	}
	if len(res) == 0 {
		c.Failf("vacuous/"+r.Fn.Name(), "-", "%s starts no goroutine", r.Fn)
	}
	c.Count("goroutines", len(res))
	return res
}

func chanOf(v ai.Val) int {
	if c, ok := v.(ai.Chan); ok {
		return c.Obj
	}
	return 0
}

func everyLoop(fn *ssa.Function, h *ssa.BasicBlock) bool { return true }

// noGo: goroutines that start goroutines are not followed.
func (m *mon) noGo(s *ai.State, ev *ai.Event) {
	if ev.Kind == "go" {
		m.must(s, ev.Fn, ev.Pos, "undecided", "a goroutine starts another one, which is not followed", never())
	}
}

// fresh: the packet to be read into was not handed out before.
func (m *mon) fresh(s *ai.State, fn *ssa.Function, pos token.Pos, p ai.Ptr) {
	l, _ := s.Load(p.Obj, p.Path+sentMark, tInt).(*ai.Lin)
	m.must(s, fn, pos, "T09 reuse", "a packet is read into storage that was handed out before", Eq(l, 0))
}

// written: storage that was handed out is not written.
func (m *mon) written(s *ai.State, obj int, path string, pos token.Pos, fn *ssa.Function) {
	if obj == 0 || obj == m.obj || strings.HasSuffix(path, sentMark) {
		return
	}
	l, ok := s.Load(obj, sentMark, tInt).(*ai.Lin)
	if !ok {
		return
	}
	if s.Decide(Eq(l, 0)) != ai.True {
		m.must(s, fn, pos, "T09 store", "storage that was handed out is written", Eq(l, 0))
	}
}

// handOut marks a value that leaves the goroutine.
func handOut(s *ai.State, v ai.Val) {
	switch x := v.(type) {
	case ai.Ptr:
		if x.Obj != 0 {
			s.Store(x.Obj, x.Path+sentMark, tInt, ai.Const(1))
		}
	case ai.Slice:
		if x.Obj != 0 {
			s.Store(x.Obj, x.Path+sentMark, tInt, ai.Const(1))
		}
	}
}

// ---- demultiplexer

func (c *Ctx) demuxRun(name string) *mon {
	e := c.Engine()
	e.PreciseExits = false
	e.Partition = everyLoop
	m := newMon(c, e, "monitor")
	next := c.stubPacket(e, "ts")
	r := c.Prepare(e, c.Client(name))
	skip, take := false, false
	tests := map[string]string{}
	for i, p := range r.Fn.Params {
		if f, ok := r.Args[i].(ai.Func); ok {
			tests[f.Key] = p.Name()
			skip = skip || p.Name() == "skipUntil"
			take = take || p.Name() == "takeWhile"
		}
	}
	errFn := c.Client("demuxErr")
	chans := map[int]int{} // channel object -> subscriber
	nsub, done := 0, 0
	var dmx ai.Val
	running := false
	tested := func(i int) string { return fmt.Sprintf(".tested%d", i) }
	sent := func(i int) string { return fmt.Sprintf(".sent%d", i) }
	closed := func(i int) string { return fmt.Sprintf(".closed%d", i) }

	settle := func(s *ai.State, fn *ssa.Function, pos token.Pos, when string) {
		if m.is(s, ".new", 0) {
			return
		}
		if m.is(s, ".in", 0) {
			return // sends are refused already
		}
		if !m.is(s, ".in", 1) {
			m.must(s, fn, pos, "T07 range", "a packet is dropped without a test of the range before "+when, never())
			return
		}
		for i := 1; i <= nsub; i++ {
			t := m.get(s, tested(i))
			if s.Decide(Eq(t, 2)) == ai.True {
				m.must(s, fn, pos, "T07 delivery", fmt.Sprintf("subscriber %d is not asked about a packet before %s", i, when), never())
				continue
			}
			m.must(s, fn, pos, "T07 delivery", fmt.Sprintf("a packet is not sent once to every subscriber that accepts it before %s (subscriber %d)", when, i), ai.Cmp{Op: ai.EQ, L: t.Sub(m.get(s, sent(i)))})
		}
	}
	inner := e.FnModels[next]
	e.FnModels[next] = func(e *ai.Engine, s *ai.State, site ssa.CallInstruction, args []ai.Val) []ai.Alt {
		fn, pos := site.Parent(), site.Pos()
		p := args[0].(ai.Ptr)
		m.fresh(s, fn, pos, p)
		settle(s, fn, pos, "the next packet is read")
		m.must(s, fn, pos, "T08 end", "reading goes on after the source failed", Eq(m.get(s, ".failed"), 0))
		m.must(s, fn, pos, "T07 range", "reading goes on behind the end of the range", Eq(m.get(s, ".closed"), 0))
		alts := inner(e, s, site, args)
		for _, a := range alts {
			if a.Panicked {
				continue
			}
			for i := 1; i <= nsub; i++ {
				m.set(a.S, tested(i), 2)
				m.set(a.S, sent(i), 0)
			}
			m.set(a.S, ".#obj", int64(p.Obj))
			if !ai.IsOK(a.V) {
				m.set(a.S, ".failed", 1)
				m.set(a.S, ".new", 0)
				continue
			}
			m.set(a.S, ".new", 1)
			in := int64(2)
			if !take && m.is(a.S, ".started", 1) {
				in = 1
			}
			m.set(a.S, ".in", in)
		}
		return alts
	}
	current := func(s *ai.State, v ai.Val) ai.Cmp {
		p, ok := v.(ai.Ptr)
		k := m.get(s, ".#obj")
		if !ok || !k.IsConst() || int(k.K) != p.Obj || p.Obj == 0 {
			return never()
		}
		return cond(true)
	}
	e.OnUnknown = func(s *ai.State, site ssa.CallInstruction, key string, sig *types.Signature, args []ai.Val) []ai.Alt {
		name := tests[key]
		if !running || name == "" || name == "started" {
			return nil
		}
		pos, fn := site.Pos(), site.Parent()
		m.must(s, fn, pos, "T07 test", "a test is applied to another packet than the current one", current(s, args[0]))
		f := s.Clone()
		alts := []ai.Alt{{S: s, V: ai.Bool{IsConst: true, V: true}}, {S: f, V: ai.Bool{IsConst: true}}}
		switch name {
		case "skipUntil":
			if m.is(s, ".started", 0) {
				m.set(s, ".started", 1)
				m.set(s, ".in", 1)
				m.set(f, ".in", 0)
			}
		case "takeWhile":
			if m.is(s, ".started", 1) && m.is(s, ".in", 2) {
				m.set(s, ".in", 1)
				m.set(f, ".in", 0)
				m.set(f, ".closed", 1)
			}
		default:
			i := int(name[1] - '0')
			old := m.get(s, tested(i))
			switch {
			case old.Is(0):
				return alts[1:]
			case old.Is(1):
				return alts[:1]
			}
			m.set(s, tested(i), 1)
			m.set(f, tested(i), 0)
		}
		return alts
	}
	e.OnEvent = func(s *ai.State, ev *ai.Event) {
		if !running {
			return
		}
		m.noGo(s, ev)
		switch ev.Kind {
		case "send":
			if ev.Obj == done && done != 0 {
				m.signal(s, ev)
				m.demuxDone(s, ev, nsub, closed, func(s *ai.State) []ai.Outcome {
					running = false
					defer func() { running = true }()
					return e.Call(s, errFn, []ai.Val{dmx}, nil)
				})
				return
			}
			i, ok := chans[ev.Obj]
			if !ok {
				m.must(s, ev.Fn, ev.Pos, "undecided", "a value is sent on an unknown channel", never())
				return
			}
			m.must(s, ev.Fn, ev.Pos, "T08 closed", "a packet is sent on a closed channel", Eq(m.get(s, closed(i)), 0))
			m.must(s, ev.Fn, ev.Pos, "T07 packet", "something else than the current packet is sent", current(s, ev.Val))
			m.must(s, ev.Fn, ev.Pos, "T07 range", "a packet outside of the range is sent", Eq(m.get(s, ".in"), 1))
			m.must(s, ev.Fn, ev.Pos, "T07 delivery", fmt.Sprintf("a packet is sent to a subscriber that did not accept it (subscriber %d)", i), Eq(m.get(s, tested(i)), 1))
			m.must(s, ev.Fn, ev.Pos, "T07 delivery", fmt.Sprintf("a packet is sent twice to a subscriber (subscriber %d)", i), Eq(m.get(s, sent(i)), 0))
			m.set(s, sent(i), 1)
			handOut(s, ev.Val)
		case "close":
			if ev.Obj == done && done != 0 {
				if m.is(s, ".signalled", 0) {
					m.signal(s, ev)
				}
				return
			}
			i, ok := chans[ev.Obj]
			if !ok {
				m.must(s, ev.Fn, ev.Pos, "undecided", "an unknown channel is closed", never())
				return
			}
			m.must(s, ev.Fn, ev.Pos, "T08 closed", "a subscriber channel is closed twice", Eq(m.get(s, closed(i)), 0))
			m.set(s, closed(i), 1)
		case "copy":
			m.written(s, ev.Obj, ev.Path, ev.Pos, ev.Fn)
		}
	}
	e.OnStore = func(s *ai.State, obj int, path string, v ai.Val, pos token.Pos, fn *ssa.Function) {
		if running {
			m.written(s, obj, path, pos, fn)
		}
	}
	for _, g := range c.startedBy(r) {
		chans = map[int]int{}
		nsub = len(g.args) - 2
		dmx = g.args[0]
		for i := 1; i <= nsub; i++ {
			chans[chanOf(g.args[i])] = i
		}
		done = chanOf(g.args[len(g.args)-1])
		if done == 0 || chans[0] != 0 || len(chans) != nsub {
			c.Failf("undecided/"+name, c.P.Where(g.pos), "the channels of the demultiplexer are not known")
			continue
		}
		s := g.s.Clone()
		for i := 1; i <= nsub; i++ {
			m.set(s, tested(i), 2)
			m.set(s, sent(i), 0)
			m.set(s, closed(i), 0)
		}
		for _, k := range []string{".#obj", ".new", ".failed", ".closed", ".signalled"} {
			m.set(s, k, 0)
		}
		m.set(s, ".in", 2)
		st := int64(1)
		if skip {
			st = 0
		}
		m.set(s, ".started", st)
		running = true
		outs := e.Call(s, g.fn, g.a, g.b)
		for _, o := range outs {
			if o.Panicked {
				c.FailAt(name+"/panic", o, g.fn, "may panic: %s", o.Why)
				continue
			}
			settle(o.S, g.fn, o.Pos, "the end of the run")
			m.must(o.S, g.fn, o.Pos, "T08 done", "completion is not signalled", Eq(m.get(o.S, ".signalled"), 1))
			// a run ends for a reason
			if !m.is(o.S, ".failed", 1) {
				m.must(o.S, g.fn, o.Pos, "T07 range", "the run ends although neither the source nor the range has", Eq(m.get(o.S, ".closed"), 1))
			}
		}
		running = false
		c.Count("goroutine_paths", len(outs))
		if len(outs) == 0 {
			c.Failf("vacuous/"+name, c.P.Where(g.pos), "the goroutine never ends")
		}
	}
	return m
}

// signal: completion is signalled once.
func (m *mon) signal(s *ai.State, ev *ai.Event) {
	m.must(s, ev.Fn, ev.Pos, "T08 done", "completion is signalled twice", Eq(m.get(s, ".signalled"), 0))
	m.set(s, ".signalled", 1)
}

func (m *mon) demuxDone(s *ai.State, ev *ai.Event, nsub int, closed func(int) string, err func(s *ai.State) []ai.Outcome) {
	for i := 1; i <= nsub; i++ {
		m.must(s, ev.Fn, ev.Pos, "T08 done", fmt.Sprintf("completion is signalled before a subscriber channel is closed (subscriber %d)", i), Eq(m.get(s, closed(i)), 1))
	}
	if nsub == 0 {
		m.must(s, ev.Fn, ev.Pos, "T08 done", "completion", cond(true))
	}
	if m.is(s, ".failed", 1) {
		for _, o := range err(s.Clone()) {
			ok := false
			if !o.Panicked {
				f, _ := o.Vals[0].(ai.Iface)
				x, _ := f.V.(*ai.ErrVal)
				ok = IsNil(o.S, o.Vals[0]) == ai.False && x != nil && x.Src != nil
			}
			m.must(s, ev.Fn, ev.Pos, "T08 error", "the read error is not available when completion is signalled", cond(ok))
		}
	}
}

func init() {
	tech := "path-sensitive dataflow (abstract interpretation over go/ssa) of the goroutine with a typestate monitor on packets and channels"
	for _, id := range []string{"T07", "T08", "T09", "T14", "S02"} {
		needsHarness[id] = true
	}
	register("T07", tech, "", func(c *Ctx) {
		c.Rule("between two packet reads each subscriber is asked once and sent the packet exactly if it accepts; range tests decide what is delivered")
		for _, n := range []string{"demux", "demuxPlain"} {
			c.Guard(n, func() { c.demuxRun(n).report(n, "T07") })
		}
	})
	register("T08", tech, "", func(c *Ctx) {
		c.Rule("every ending closes every subscriber channel once, then signals completion once with the read error in place")
		for _, n := range []string{"demux", "demuxPlain", "demux0"} {
			c.Guard(n, func() { c.demuxRun(n).report(n, "T08") })
		}
	})
}
