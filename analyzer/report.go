package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one thing a check has to establish.
type Obligation struct {
	Rule   string `json:"rule"`
	Site   string `json:"site,omitempty"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

// Ctx collects what a check did.
type Ctx struct {
	P      *Program
	ID     string
	Tier   string
	Obs    []Obligation
	Fns    map[*ssa.Function]bool
	States int
	Steps  int
	Extra  map[string]any
	Rules  []string // the rules applied, in words
	Assume []string
	Deep   bool
	tasks  []func() func()
}

func (x *Ctx) ob(rule, site string, ok bool, detail string) {
	if ok {
		detail = ""
	}
	x.Obs = append(x.Obs, Obligation{rule, site, ok, detail})
}

func (x *Ctx) rule(s string) { x.Rules = append(x.Rules, s) }
func (x *Ctx) assume(s string) {
	for _, a := range x.Assume {
		if a == s {
			return
		}
	}
	x.Assume = append(x.Assume, s)
}

// absorb takes over the bookkeeping of an engine. Constructs the interpreter
// could not decide are obligations that are not met.
func (x *Ctx) absorb(name string, e *Engine) {
	for f := range e.FnSeen {
		x.Fns[f] = true
	}
	x.States += e.States
	x.Steps += e.Steps
	for _, m := range sortedKeys(e.Problems) {
		x.ob("undecided construct", name, false, m+tr(e.Problems[m]))
	}
}

func tr(s string) string {
	if s == "" {
		return ""
	}
	return " [path: " + s + "]"
}

type knownFinding struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

// finish writes the evidence, prints the verdict and gives the exit status.
func (x *Ctx) finish(start time.Time, verif string, seed int) int {
	var bad []Obligation
	byRule := map[string][2]int{}
	for _, o := range x.Obs {
		n := byRule[o.Rule]
		n[0]++
		if o.OK {
			n[1]++
		} else {
			bad = append(bad, o)
		}
		byRule[o.Rule] = n
	}
	if len(x.Obs) == 0 {
		bad = append(bad, Obligation{Rule: "nothing analysed", Detail: "the check found nothing to analyse"})
	}
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	var open []Obligation
	var found []string
	for _, o := range bad {
		k := false
		for _, f := range known {
			if f.Property == x.ID && f.Match != "" && strings.Contains(o.Rule+" "+o.Site+" "+o.Detail, f.Match) {
				k = true
				found = append(found, f.What)
			}
		}
		if !k {
			open = append(open, o)
		}
	}
	fns := make([]string, 0, len(x.Fns))
	for f := range x.Fns {
		if x.P != nil && x.P.inModule(f) {
			fns = append(fns, strings.ReplaceAll(f.String(), modPath, "merge")+" ("+x.P.pos(f.Pos())+")")
		}
	}
	sort.Strings(fns)
	rules := map[string]any{}
	for r, n := range byRule {
		rules[r] = map[string]int{"obligations": n[0], "met": n[1]}
	}
	var samples []Obligation
	seenRule := map[string]int{}
	for _, o := range x.Obs {
		if seenRule[o.Rule] < 3 {
			seenRule[o.Rule]++
			samples = append(samples, o)
		}
	}
	cov := map[string]any{
		"explanation":        strings.Join(x.Rules, " "),
		"obligations":        len(x.Obs),
		"discharged":         len(x.Obs) - len(bad),
		"functions_analysed": fns,
		"rules":              rules,
		"samples":            samples,
	}
	if x.States > 0 {
		cov["abstract_states"] = x.States
		cov["abstract_steps"] = x.Steps
	}
	for k, v := range x.Extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": x.ID, "tier": x.Tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": x.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(open),
	}
	if x.Assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, x.ID+".json"), append(b, '\n'), 0o644)
	sort.Strings(found)
	for i, f := range found {
		if i == 0 || found[i-1] != f {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", x.ID, f)
		}
	}
	if len(open) == 0 {
		fmt.Printf("%s: held; %d obligations in %d functions, %d abstract states\n", x.ID, len(x.Obs), len(fns), x.States)
		return 0
	}
	rp := filepath.Join(dir, x.ID+".violation.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nreplay: cd %s && ./run.sh %s %s\n", x.ID, verif, x.ID, x.Tier)
	for _, o := range open {
		fmt.Fprintf(&sb, "\nrule: %s\nsite: %s\n%s\n", o.Rule, o.Site, o.Detail)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, o := range open {
		if i == 8 {
			fmt.Printf("  ... and %d more\n", len(open)-8)
			break
		}
		fmt.Printf("  %s: %s: %s\n", o.Site, o.Rule, o.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, rp)
	return 1
}

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Known []knownFinding `json:"known"`
	}
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	return f.Known
}
