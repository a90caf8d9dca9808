// verifchk decides the properties of /verif/properties.jsonl by static
// analysis of the Go sources in the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifchk/ai"
	"verifchk/checks"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifchk check ID | list | root FN")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
		}
	}
	switch os.Args[1] {
	case "check":
		rc := check(os.Args[2:])
		pprof.StopCPUProfile()
		os.Exit(rc)
	case "list":
		var ids []string
		for id := range checks.Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\n", id, checks.Registry[id].Technique)
		}
	case "root":
		root(os.Args[2:])
	}
}

type known struct {
	key, text string
}

// knownFindings reads "finding: property=ID key=KEY text" lines.
func knownFindings(dir, id string) map[string]known {
	r := map[string]known{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "finding: property="+id+" key=")
		if !ok {
			continue
		}
		k, text, _ := strings.Cut(rest, " ")
		r[k] = known{k, text}
	}
	return r
}

func check(args []string) (code int) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	dir := fs.String("dir", "/repo", "repository")
	out := fs.String("out", "/verif", "where evidence and reports go")
	verbose := fs.Bool("v", false, "print traces")
	fs.Parse(args)
	id := fs.Arg(0)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	ck := checks.Registry[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	p, err := ai.Load(*dir, checks.Overlay(*dir, id))
	var c *checks.Ctx
	if err != nil {
		c = checks.New(nil, id, tier)
		c.Failf("load", "-", "the repository does not type-check: %v", err)
	} else {
		c = checks.New(p, id, tier)
		c.Guard(id, func() { ck.Run(c) })
		for n, pk := range p.Pkgs {
			_ = pk
			c.Sample("package analysed: %s", n)
		}
	}
	kn := knownFindings(*out, id)
	var viol []*checks.Fail
	nk := 0
	for _, f := range c.SortedFails() {
		if k, ok := kn[f.Key]; ok {
			nk++
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", id, f.Key, k.text, f.Where)
			continue
		}
		viol = append(viol, f)
	}
	obl, paths := 0, 0
	for k, v := range c.Cov {
		if strings.Contains(k, "obligations") || strings.HasSuffix(k, "_rows") {
			obl += v
		}
		_ = paths
		_ = k
	}
	cov := map[string]any{}
	for k, v := range c.Cov {
		cov[k] = v
	}
	cov["explanation"] = "Static analysis of the current source: " + ck.Technique + ". Counts are of roots, paths and rule instances examined in this run."
	cov["rule"] = strings.Join(c.Rules, "; ")
	sort.Strings(c.Samples)
	cov["samples"] = c.Samples
	cov["obligations"] = obl
	cov["discharged"] = obl - len(viol) - nk
	if obl == 0 && len(viol) == 0 {
		f := c.Failf("vacuous", "-", "the rule matched no construct at all")
		viol = append(viol, f)
	}
	os.MkdirAll(filepath.Join(*out, "evidence"), 0o755)
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": []string{"models of github.com/32bitkid/bitreader, github.com/32bitkid/huffman and the used standard library functions (DESIGN.md)", "go/packages, go/types and go/ssa represent the source faithfully"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*out, "evidence", id+".json"), append(b, '\n'), 0o644)
	if len(viol) == 0 {
		fmt.Printf("%s: held on %d obligations (%.1fs)\n", id, obl, time.Since(t0).Seconds())
		return 0
	}
	rep := filepath.Join(*out, "evidence", id+".violation.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "rule instance %s\n  at %s\n  %s\n  (%d paths)\n", f.Key, f.Where, f.Msg, f.N)
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	for i, f := range viol {
		if i < 12 || *verbose {
			fmt.Printf("  %s: %s [%s] %s\n", id, f.Where, f.Key, f.Msg)
		}
		if *verbose {
			for _, t := range f.Trace {
				fmt.Println("      ", t)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}

func root(args []string) {
	fs := flag.NewFlagSet("root", flag.ExitOnError)
	dir := fs.String("dir", "/repo", "")
	evs := fs.Bool("ev", false, "")
	max := fs.Int("n", 40, "")
	fs.Parse(args)
	p, err := ai.Load(*dir, checks.Overlay(*dir, "*"))
	if err != nil {
		panic(err)
	}
	e := ai.NewEngine(p)
	if err := e.Init(); err != nil {
		fmt.Println("init:", err)
	}
	fn := ai.FindFn(p, fs.Arg(0))
	if fn == nil {
		fmt.Println("no fn")
		os.Exit(2)
	}
	t := time.Now()
	c := checks.New(p, "debug", "quick")
	r := c.Prepare(e, fn)
	r.Run()
	fmt.Println(len(r.Outs), "outcomes", time.Since(t), e.Stats)
	for i, o := range r.Outs {
		if i >= *max {
			break
		}
		var rs []string
		for _, v := range o.Vals {
			rs = append(rs, ai.ValString(v))
		}
		fmt.Printf("#%d %v panicked=%v %s  -> %.300s\n", i, p.Where(o.Pos), o.Panicked, o.Why, strings.Join(rs, ", "))
		for _, pd := range o.S.Pend {
			fmt.Printf("     pend %v %v\n", pd.Op, p.Where(pd.Pos))
		}
		if *evs {
			fmt.Println(o.S)
			for _, t := range c.TraceOf(o.S) {
				fmt.Println("    ", t)
			}
		}
	}
	for k, o := range e.Obls {
		if o.Failed {
			fmt.Println("OBL", k, o.Why)
		}
	}
	for _, l := range e.Loops {
		fmt.Println("LOOP", l.Fn, p.Where(l.Pos), "trip", l.Trip, "backs", len(l.Backs), l.Progress)
	}
	fmt.Println("havocs", e.Havocs)
}
