package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type propCheck struct {
	run  func(*Check)
	rule string // what is decided, for the evidence
}

var registry = map[string]propCheck{}

func register(id, rule string, f func(*Check)) { registry[id] = propCheck{f, rule} }

func main() {
	prop := flag.String("prop", "", "property to decide")
	root := flag.String("root", "/repo", "tree to analyse")
	out := flag.String("out", "/verif/evidence", "directory for evidence")
	tier := flag.String("tier", "quick", "quick or thorough")
	fnName := flag.String("fn", "", "print the outcomes of a function")
	opq := flag.String("opaque", "", "functions not to look into")
	repoM := flag.String("repo", "", "print the outcomes of a repository method")
	flag.BoolVar(&dumpPeel, "peel", false, "tell no iteration from some in inner loops (with -fn)")
	flag.StringVar(&knownFile, "known", knownFile, "file of known findings")
	flag.Parse()
	debug.SetGCPercent(200)
	start := time.Now()
	if *fnName != "" {
		dump(*root, *fnName, *opq)
		return
	}
	if *repoM != "" {
		p, err := Load(*root)
		if err != nil {
			panic(err)
		}
		c := newCheck(p, "X", *tier)
		_, _, outs := c.repoRun(*repoM, Config{})
		fmt.Println(len(outs), c.viol)
		for _, o := range outs {
			printOutcome(p, o)
		}
		return
	}
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	p, err := Load(*root)
	for _, id := range ids {
		pc, ok := registry[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		c := newCheck(p, id, *tier)
		if err != nil {
			c.viol = append(c.viol, Violation{"load", *root, "-", err.Error()})
		} else {
			c.guard(pc.run)
		}
		if c.report(*out, pc.rule, time.Since(t0)) {
			code = 1
		}
	}
	os.Exit(code)
}

func (c *Check) guard(f func(*Check)) {
	defer func() {
		if r := recover(); r != nil {
			c.viol = append(c.viol, Violation{"decidable", "analysis", "-", fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack())})
		}
	}()
	f(c)
	if c.obl == 0 {
		c.viol = append(c.viol, Violation{"instances", "all", "-", "no obligation was generated"})
	}
}

var knownFile = "/verif/KNOWN_FINDINGS.txt"

// setAside takes the recorded findings of this property out of the violations:
// those whose construct is named in the file, and nothing else.
func (c *Check) setAside() {
	b, err := os.ReadFile(knownFile)
	if err != nil {
		return
	}
	sites := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 2 && f[0] == "finding:" && f[1] == "property="+c.Prop && strings.HasPrefix(f[2], "site=") {
			sites[f[2][5:]] = true
		}
	}
	var rest []Violation
	for _, v := range c.viol {
		if v.Rule == findingRule && sites[v.Construct] {
			c.known = append(c.known, v)
		} else {
			rest = append(rest, v)
		}
	}
	c.viol = rest
}

func (c *Check) report(out, rule string, d time.Duration) bool {
	os.MkdirAll(out, 0o755)
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	c.setAside()
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": seed, "level": "other", "wall_s": d.Seconds(), "violations": len(c.viol),
		"coverage": map[string]any{
			"explanation":          rule,
			"obligations":          c.obl,
			"discharged":           c.ok,
			"obligations_by_rule":  c.rules,
			"functions_analysed":   len(fns),
			"functions":            fns,
			"abstract_outcomes":    c.outcomes,
			"instructions_visited": c.sites,
			"loop_summaries":       c.loops,
			"samples":              c.samples,
			"known_findings":       c.known,
		},
		"assumptions": append([]string{
			"the library calls that are not looked into (raccoondb, protobuf, grpc, yaml, standard library) behave as documented",
			"messages that arrive over the API have no nil elements in repeated fields and no nil message inside a set oneof",
		}, c.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, c.Prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	for _, k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", c.Prop, k.Construct, k.Pos, k.Detail)
	}
	if len(c.viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d outcomes=%d\n", c.Prop, c.obl, len(fns), c.outcomes)
		return false
	}
	rep := filepath.Join(out, c.Prop+".violation.txt")
	var w strings.Builder
	for _, v := range c.viol {
		fmt.Fprintf(&w, "%s: rule %q broken by %s\n    %s\n", v.Pos, v.Rule, v.Construct, v.Detail)
	}
	os.WriteFile(rep, []byte(w.String()), 0o644)
	s := w.String()
	if len(s) > 6000 {
		s = s[:6000] + "…\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, rep)
	return true
}

var dumpPeel bool

func dump(root, name, opq string) {
	p, err := Load(root)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fn := p.Fn(name)
	cfg := Config{Opaque: map[string]Opaque{}, Peel: dumpPeel}
	for k, v := range stdOpaque {
		cfg.Opaque[k] = v
	}
	for _, n := range strings.Split(opq, ",") {
		if strings.HasPrefix(n, "-") {
			delete(cfg.Opaque, n[1:])
		} else {
			cfg.Opaque[n] = Opaque{Pure: true}
		}
	}
	delete(cfg.Opaque, name)
	e := NewEng(p, cfg)
	outs, err := e.Run(fn, symArgs(fn), nil)
	fmt.Println(len(outs), err, e.sites)
	for _, o := range outs {
		printOutcome(p, o)
	}
}

func printOutcome(p *Program, o *Outcome) {
	fmt.Println("==", o.Kind, o.Rets)
	for _, f := range sortedFacts(o.St.facts) {
		fmt.Println("   ", f)
	}
	printEvs(p, o.Evs, "    * ")
}

func printEvs(p *Program, evs []*Event, ind string) {
	for _, ev := range evs {
		if ev.Kind == "loop" {
			fmt.Println(ind+"loop over", ev.Loop.Domain, "exhausted", ev.Loop.Exhausted, "state", ev.Loop.State, "all", len(ev.Loop.All), "must", len(ev.Loop.Must))
			for _, c := range ev.Loop.All {
				fmt.Println(ind+"  case", c.From, c.To, sortedFacts(c.Facts), "items", c.Items, c.Keys, "next", c.Next)
				printEvs(p, c.Evs, ind+"    ")
			}
			continue
		}
		fmt.Println(ind, ev.Kind, ev.Name, ev.Args, p.Pos(ev.Pos))
	}
}
