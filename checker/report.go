package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obligation is one instance of a rule that was decided.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Detail    string `json:"detail,omitempty"`
}

type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"msg"`
	Trace     []string `json:"trace,omitempty"`
}

func (f Finding) ID() string { return f.Rule + " @ " + f.Construct }

type Report struct {
	Prop     string
	Start    time.Time
	Obls     []Obligation
	Finds    []Finding
	Facts    map[string]interface{} // extra evidence
	Notes    []string
	Funcs    map[string]bool // functions analysed
	Paths    int             // abstract exits judged
	Steps    int             // abstract instructions interpreted
	Assume   []string
	oblKeys  map[string]bool
	findKeys map[string]bool
}

func NewReport(prop string) *Report {
	return &Report{Prop: prop, Start: time.Now(), Facts: map[string]interface{}{}, Funcs: map[string]bool{},
		oblKeys: map[string]bool{}, findKeys: map[string]bool{}}
}

// Ok records a decided instance of a rule.
func (r *Report) Ok(rule, construct, pos, detail string) {
	k := rule + "|" + construct + "|" + pos
	if r.oblKeys[k] {
		return
	}
	r.oblKeys[k] = true
	r.Obls = append(r.Obls, Obligation{rule, construct, pos, detail})
}

func (r *Report) Violation(rule, construct, pos, msg string, tr []string) {
	k := rule + "|" + construct
	if r.findKeys[k] {
		return
	}
	r.findKeys[k] = true
	r.Finds = append(r.Finds, Finding{rule, construct, pos, msg, tr})
}

func (r *Report) CountRule(rule string) int {
	n := 0
	for _, o := range r.Obls {
		if o.Rule == rule {
			n++
		}
	}
	return n
}

// Floor fails the check when a rule matched fewer instances than expected:
// a rule matching nothing would pass vacuously.
func (r *Report) Floor(rule string, min int) {
	if n := r.CountRule(rule); n < min {
		r.Violation(rule, "instance-count", "-", fmt.Sprintf("rule matched %d instance(s), at least %d expected: the construct it judges is gone or is no longer recognised", n, min), nil)
	}
}

func (r *Report) Engine(e *Engine) {
	r.Steps += e.Steps
	if debugProf {
		e.printProf()
		fmt.Println("ENGINE", e.Rule, "steps", e.Steps, "visited", e.visited, "merged", e.Merged, "exits", e.Exits)
	}
	r.Paths += e.Exits
	for f := range e.Inlined {
		r.Funcs[e.W.FuncKey(f)] = true
	}
}

type knownFinding struct{ prop, id, what string }

// known findings file: lines
//
//	known: property=<id> key=<rule @ construct> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		i := strings.Index(l, "property=")
		j := strings.Index(l, " key=")
		k := strings.Index(l, " :: ")
		if i != 0 || j < 0 || k < 0 {
			continue
		}
		out = append(out, knownFinding{strings.TrimSpace(l[9:j]), strings.TrimSpace(l[j+5 : k]), strings.TrimSpace(l[k+4:])})
	}
	return out
}

func (r *Report) Finish(verif string, p *Prop, w *World) int {
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var bad []Finding
	usedKnown := 0
	for _, f := range r.Finds {
		matched := false
		for _, k := range known {
			if k.prop == r.Prop && k.id == f.ID() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.what)
				matched = true
				usedKnown++
				break
			}
		}
		if !matched {
			bad = append(bad, f)
		}
	}
	byRule := map[string]int{}
	for _, o := range r.Obls {
		byRule[o.Rule]++
	}
	samples := []Obligation{}
	perRule := map[string]int{}
	for _, o := range r.Obls {
		if perRule[o.Rule] < 12 {
			perRule[o.Rule]++
			samples = append(samples, o)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	cov := map[string]interface{}{
		"explanation":         p.Explain,
		"rule_instances":      byRule,
		"instances_total":     len(r.Obls),
		"functions_in_module": 0,
		"functions_followed":  len(r.Funcs),
		"abstract_exits":      r.Paths,
		"abstract_steps":      r.Steps,
		"samples":             samples,
		"known_findings":      usedKnown,
	}
	if w != nil {
		cov["functions_in_module"] = len(w.Funcs)
		cov["packages"] = len(w.Pkgs)
	}
	for k, v := range r.Facts {
		cov[k] = v
	}
	fs := []string{}
	for f := range r.Funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	if len(fs) > 60 {
		fs = append(fs[:60], fmt.Sprintf("... and %d more", len(fs)-60))
	}
	cov["functions"] = fs
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": append(append([]string{}, p.Assume...), r.Assume...),
		"wall_s": time.Since(r.Start).Seconds(), "violations": len(bad),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), b, 0644)

	fmt.Printf("%s: %s\n", r.Prop, p.Title)
	rules := sortedKeys(byRule)
	for _, k := range rules {
		fmt.Printf("  rule %-44s %4d instance(s)\n", k, byRule[k])
	}
	fmt.Printf("  functions followed %d, abstract exits %d, abstract steps %d, %.1fs\n", len(r.Funcs), r.Paths, r.Steps, time.Since(r.Start).Seconds())
	if len(bad) == 0 {
		fmt.Printf("PASS property=%s\n", r.Prop)
		return 0
	}
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	rp := filepath.Join(rdir, r.Prop+".txt")
	shown := bad
	if len(shown) > 12 {
		shown = shown[:12]
		fmt.Printf("(%d more findings not printed)\n", len(bad)-12)
	}
	var sb strings.Builder
	for _, f := range shown {
		fmt.Fprintf(&sb, "%s: %s\n  rule: %s\n  construct: %s\n", f.Pos, f.Msg, f.Rule, f.Construct)
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "    via %s\n", t)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
