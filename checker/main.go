// Command checker decides the properties of /verif/properties.jsonl for chainguard-dev/go-apk
// by static analysis of its current source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects the obligations of one property.
type Ctx struct {
	P     *Prog
	ID    string
	Tier  string
	obs   map[string]*Obl
	Funcs map[*ssa.Function]bool
	Notes []string
	Stats map[string]int
	rules []string
}

// Obl is one proof obligation: a rule applied to a construct of the source.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Status    string `json:"status"` // ok, violated, undecided
	Detail    string `json:"detail,omitempty"`
}

func (c *Ctx) key(rule, construct string) string { return rule + "|" + construct }

// OK records a discharged obligation (a violation of the same obligation wins).
func (c *Ctx) OK(rule, construct, pos, detail string) {
	k := c.key(rule, construct)
	if _, ok := c.obs[k]; !ok {
		c.obs[k] = &Obl{rule, construct, pos, "ok", detail}
	}
}
func (c *Ctx) Bad(rule, construct, pos, detail string) {
	k := c.key(rule, construct)
	if o, ok := c.obs[k]; ok && o.Status != "ok" {
		return
	}
	c.obs[k] = &Obl{rule, construct, pos, "violated", detail}
}

// Undecided: the analysis could not decide; reported as a violation (never as success).
func (c *Ctx) Undecided(rule, construct, pos, detail string) {
	k := c.key(rule, construct)
	if o, ok := c.obs[k]; ok && o.Status != "ok" {
		return
	}
	c.obs[k] = &Obl{rule, construct, pos, "undecided", detail}
}

func (c *Ctx) Check(ok bool, rule, construct, pos, detail string) {
	if ok {
		c.OK(rule, construct, pos, "")
	} else {
		c.Bad(rule, construct, pos, detail)
	}
}

// AtLeast requires a minimum number of instances of a rule.
func (c *Ctx) AtLeast(rule string, n int, what string) {
	k := 0
	for _, o := range c.obs {
		if o.Rule == rule {
			k++
		}
	}
	if k < n {
		c.Undecided("anchor", rule, "?", fmt.Sprintf("expected at least %d %s, found %d: the code this rule is about cannot be located", n, what, k))
	}
}

func (c *Ctx) Rule(text string) { c.rules = append(c.rules, text) }

// Fn resolves a function or records a missing anchor.
func (c *Ctx) Fn(name string) *ssa.Function {
	f := c.P.rel(name)
	if f == nil || len(f.Blocks) == 0 {
		c.Undecided("anchor", name, "?", "function not found in the current source")
		return nil
	}
	c.Funcs[f] = true
	return f
}

func (c *Ctx) Engine(label string, e *Engine) {
	for f := range e.Funcs {
		c.Funcs[f] = true
	}
	c.Stats["states"] += e.States
	c.Stats["merged"] += e.Merged
	c.Stats["steps"] += e.Steps
	c.Stats["widened"] += e.Widened
	for _, u := range e.Undecided {
		c.Undecided("analysis-limit", label, "?", u)
	}
}

type Check struct {
	ID     string
	Run    func(c *Ctx)
	Level  string
	Assume []string
}

var registry = map[string]*Check{}

func register(id string, run func(c *Ctx), assume ...string) {
	registry[id] = &Check{ID: id, Run: run, Assume: assume}
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verification directory")
	verbose := flag.Bool("v", false, "print all obligations")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	dumpSSA := flag.String("dumpssa", "", "print the SSA of a function")
	flag.Parse()
	if *prop == "ALL" {
		p, err := loadProg(*repo)
		if err != nil {
			fmt.Println("cannot load:", err)
			os.Exit(1)
		}
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		code := 0
		for _, id := range ids {
			if runOne(p, nil, id, *tier, *verif, *verbose, *noev, time.Now()) != 0 {
				code = 1
			}
		}
		os.Exit(code)
	}
	start := time.Now()
	if pf := os.Getenv("CHK_PROF"); pf != "" {
		if f, err := os.Create(pf); err == nil {
			if pprof.StartCPUProfile(f) == nil {
				time.AfterFunc(15*time.Second, pprof.StopCPUProfile)
			}
		}
	}
	if registry[*prop] == nil {
		fmt.Printf("unknown property %q\n", *prop)
		os.Exit(2)
	}
	p, err := loadProg(*repo)
	if *dumpSSA != "" && err == nil {
		if f := p.rel(*dumpSSA); f != nil {
			_, _ = f.WriteTo(os.Stdout)
		}
		return
	}
	os.Exit(runOne(p, err, *prop, *tier, *verif, *verbose, *noev, start))
}

func runOne(p *Prog, lerr error, id, tier, verif string, verbose, noev bool, start time.Time) int {
	ck := registry[id]
	c := &Ctx{P: p, ID: id, Tier: tier, obs: map[string]*Obl{}, Funcs: map[*ssa.Function]bool{}, Stats: map[string]int{}}
	if lerr != nil {
		c.Undecided("load", "source", "?", lerr.Error())
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Undecided("checker-panic", id, "?", fmt.Sprintf("%v\n%s", r, debug.Stack()))
				}
			}()
			ck.Run(c)
		}()
	}
	known := readKnown(filepath.Join(verif, "known_findings.txt"), id)
	var keys []string
	for k := range c.obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad, find []*Obl
	okN := 0
	for _, k := range keys {
		o := c.obs[k]
		if o.Status == "ok" {
			okN++
			continue
		}
		if t, ok := known[k]; ok && o.Status == "violated" {
			find = append(find, o)
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", id, t, k, o.Pos)
			continue
		}
		bad = append(bad, o)
	}
	if len(c.obs) == 0 {
		bad = append(bad, &Obl{"anchor", "none", "?", "undecided", "no obligation was generated"})
	}
	if verbose {
		for _, k := range keys {
			o := c.obs[k]
			fmt.Printf("  [%s] %s @ %s %s\n", o.Status, k, o.Pos, o.Detail)
		}
	}
	replay := filepath.Join("evidence", "replay-"+id+".txt")
	if !noev {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		writeEvidence(c, ck, filepath.Join(verif, "evidence", id+".json"), tier, okN, bad, find, time.Since(start))
	}
	if len(bad) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d violated or undecided obligations\n", id, len(bad))
		for _, o := range bad {
			fmt.Fprintf(&sb, "\n[%s] rule %s\n  construct: %s\n  at: %s\n  %s\n", o.Status, o.Rule, o.Construct, o.Pos, o.Detail)
		}
		if !noev {
			os.WriteFile(filepath.Join(verif, replay), []byte(sb.String()), 0o644)
		}
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(verif, replay))
		return 1
	}
	fmt.Printf("property %s: %d obligations discharged, %d known findings, %d functions analysed\n", id, okN, len(find), len(c.Funcs))
	return 0
}

// readKnown reads lines "KNOWN-FINDING: property=<id> key=<rule|construct> :: text".
func readKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "KNOWN-FINDING: property="+id+" key=")
		if !ok {
			continue
		}
		k, t, _ := strings.Cut(rest, " :: ")
		out[k] = t
	}
	return out
}

func writeEvidence(c *Ctx, ck *Check, path, tier string, okN int, bad, find []*Obl, d time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	byRule := map[string]int{}
	var samples []*Obl
	var keys []string
	for k := range c.obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		o := c.obs[k]
		byRule[o.Rule]++
		if byRule[o.Rule] <= 6 {
			samples = append(samples, o)
		}
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, strings.ReplaceAll(f.String(), modPath+"/", ""))
	}
	sort.Strings(fns)
	nf := len(fns)
	if len(fns) > 120 {
		fns = fns[:120]
	}
	cov := map[string]any{
		"explanation":         "static analysis of the type-checked SSA/AST of /repo's current tree; every obligation is a rule applied to a source construct",
		"rules":               c.rules,
		"obligations":         len(c.obs),
		"discharged":          okN,
		"obligations_by_rule": byRule,
		"functions_analysed":  nf,
		"functions":           fns,
		"samples":             samples,
		"known_findings":      find,
	}
	for k, v := range c.Stats {
		cov["dataflow_"+k] = v
	}
	var viol []string
	for _, o := range bad {
		viol = append(viol, fmt.Sprintf("%s %s at %s: %s", o.Rule, o.Construct, o.Pos, firstLine(o.Detail)))
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": ck.Assume, "wall_s": d.Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
