package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Obl is one obligation: a rule applied to one construct of the source.
type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos,omitempty"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

// Key identifies an obligation independently of line numbers.
func (o Obl) Key() string { return o.Rule + "|" + o.Construct }

type Report struct {
	ID       string
	Obls     []Obl
	seen     map[string]bool
	Analysed map[string]int
	Assume   []string
	Explain  string
	min      map[string]int
	Proof    bool
	undec    []string
}

// Undecided records a part of the analysis that could not be completed: it
// establishes nothing, and is no violation either.
func (r *Report) Undecided(what, why string) {
	r.undec = append(r.undec, what+": "+why)
}

// Try runs a part of the analysis; what it cannot interpret is recorded.
func (r *Report) Try(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("VFA_STACK") != "" {
				debug.PrintStack()
			}
			r.Undecided(what, fmt.Sprint(e))
			ok = false
		}
	}()
	f()
	return true
}

func newReport(id string) *Report {
	return &Report{ID: id, seen: map[string]bool{}, Analysed: map[string]int{}, min: map[string]int{}}
}

func (r *Report) add(o Obl) {
	k := o.Key() + "|" + fmt.Sprint(o.OK)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Obls = append(r.Obls, o)
}
func (r *Report) OK(rule, construct, pos, detail string) {
	r.add(Obl{rule, construct, pos, true, detail})
}
func (r *Report) Fail(rule, construct, pos, detail string) {
	r.add(Obl{rule, construct, pos, false, detail})
}
func (r *Report) Check(ok bool, rule, construct, pos, detail string) bool {
	r.add(Obl{rule, construct, pos, ok, detail})
	return ok
}

// Min demands at least n discharged or failed instances of a rule: a rule
// that matches nothing must not pass vacuously.
func (r *Report) Min(rule string, n int) { r.min[rule] = n }

func (r *Report) finish() {
	cnt := map[string]int{}
	for _, o := range r.Obls {
		cnt[o.Rule]++
	}
	var rules []string
	for k := range r.min {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		if len(r.undec) > 0 {
			break
		}
		if cnt[k] < r.min[k] {
			r.Fail("instances", k, "", fmt.Sprintf("rule %s matched %d constructs, at least %d confirmed on the reference tree", k, cnt[k], r.min[k]))
		}
	}
}

type Finding struct {
	Property  string `json:"property"`
	Status    string `json:"status"` // known | fixed
	Rule      string `json:"rule,omitempty"`
	Construct string `json:"construct,omitempty"`
	Commit    string `json:"commit,omitempty"`
	What      string `json:"what"`
}

func loadFindings(path string) ([]Finding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &out); err != nil {
		return nil, err
	}
	return out.Findings, nil
}

// emit prints the verdict, writes the evidence and returns the exit code.
func (r *Report) emit(verif, tier string, start time.Time, verbose bool) int {
	findings, ferr := loadFindings(filepath.Join(verif, "known_findings.json"))
	if ferr != nil {
		r.Fail("known-findings", "known_findings.json", "", ferr.Error())
	}
	r.finish()
	known := map[string]Finding{}
	for _, f := range findings {
		if f.Property == r.ID && f.Status == "known" {
			known[f.Rule+"|"+f.Construct] = f
		}
	}
	byRule := map[string][2]int{}
	var viols, knowns []Obl
	for _, o := range r.Obls {
		c := byRule[o.Rule]
		c[0]++
		if o.OK {
			c[1]++
		} else if f, ok := known[o.Key()]; ok {
			knowns = append(knowns, o)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, f.What)
		} else {
			viols = append(viols, o)
		}
		byRule[o.Rule] = c
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, r.ID+".violations.txt")
	os.Remove(replay)
	if len(viols) > 0 {
		var b strings.Builder
		for _, v := range viols {
			fmt.Fprintf(&b, "%s: rule %s: %s: %s\n", v.Pos, v.Rule, v.Construct, v.Detail)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	}
	rules := map[string]interface{}{}
	discharged := 0
	for k, c := range byRule {
		rules[k] = map[string]int{"obligations": c[0], "discharged": c[1]}
		discharged += c[1]
	}
	samples := []Obl{}
	perRule := map[string]int{}
	for _, o := range r.Obls {
		if perRule[o.Rule] < 4 {
			perRule[o.Rule]++
			samples = append(samples, o)
		}
	}
	cov := map[string]interface{}{
		"explanation": r.Explain,
		"obligations": len(r.Obls),
		"discharged":  discharged,
		"known":       len(knowns),
		"analysed":    r.Analysed,
		"rules":       rules,
		"samples":     samples,
		"undecided":   append([]string{}, r.undec...),
	}
	seed := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]interface{}{
		"property":    r.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": r.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viols),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if verbose {
		for _, o := range r.Obls {
			fmt.Printf("%v %s %s %s: %s\n", o.OK, o.Pos, o.Rule, o.Construct, o.Detail)
		}
	}
	for _, u := range r.undec {
		fmt.Printf("UNDECIDED property=%s %s\n", r.ID, u)
	}
	fmt.Printf("property=%s obligations=%d discharged=%d known=%d violations=%d\n", r.ID, len(r.Obls), discharged, len(knowns), len(viols))
	if len(viols) > 0 {
		return 1
	}
	return 0
}
