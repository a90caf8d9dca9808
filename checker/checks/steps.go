package checks

import (
	"fmt"

	"verifchk/ai"
)

// steps follows a client call by call until no new partition appears.
func (c *Ctx) steps(what string, init []*ai.State, roots []ai.Val, step func(s *ai.State) []ai.Outcome) {
	seen := map[string]bool{}
	var work []*ai.State
	add := func(s *ai.State) {
		key, n, _ := s.Canonical(roots...)
		if !seen[key] {
			seen[key] = true
			if c.Debug && len(seen) > 60 {
				fmt.Println(key)
			}
			if len(seen) > 80 {
				panic(ai.Unsupported{Msg: what + ": too many states between calls"})
			}
			work = append(work, n)
		}
	}
	for _, s := range init {
		add(s)
	}
	calls := 0
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, o := range step(s.Clone()) {
			calls++
			if !o.Panicked {
				add(o.S)
			}
		}
	}
	c.Count("client_states", len(seen))
	c.Count("client_paths", calls)
	c.Sample("client %s: %d states between calls, %d paths", what, len(seen), calls)
	if calls == 0 {
		c.Failf("vacuous/"+what, "-", "no path through client %s", what)
	}
}
