package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Ob is one obligation: rule applied to one construct.
type Ob struct {
	Rule   string `json:"rule"`
	Item   string `json:"item"`
	Status string `json:"status"` // ok, violation, undecided
	Msg    string `json:"msg,omitempty"`
	Pos    string `json:"pos,omitempty"`
}

type Report struct {
	prop  string
	tier  string
	obs   []*Ob
	index map[string]*Ob
	notes []string
	nums  map[string]int
	start time.Time
}

func newReport(prop, tier string) *Report {
	return &Report{prop: prop, tier: tier, index: map[string]*Ob{}, nums: map[string]int{}, start: time.Now()}
}

var rank = map[string]int{"ok": 0, "undecided": 1, "violation": 2}

// add records one obligation; several results for the same construct keep the worst.
func (r *Report) add(rule, item, status, msg, pos string) {
	k := rule + "|" + item
	if o, ok := r.index[k]; ok {
		if rank[status] > rank[o.Status] {
			o.Status, o.Msg, o.Pos = status, msg, pos
		}
		return
	}
	o := &Ob{rule, item, status, msg, pos}
	r.index[k] = o
	r.obs = append(r.obs, o)
}

// merge adds what another report holds.
func (r *Report) merge(s *Report) {
	for _, o := range s.obs {
		r.add(o.Rule, o.Item, o.Status, o.Msg, o.Pos)
	}
	for n, k := range s.nums {
		r.count(n, k)
	}
	r.notes = append(r.notes, s.notes...)
}
func (r *Report) ok(rule, item string)     { r.add(rule, item, "ok", "", "") }
func (r *Report) count(name string, n int) { r.nums[name] += n }

type known struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Item     string `json:"item"`
	What     string `json:"what"`
}

// loadKnown reads the known findings: lines "finding: {json}" (fixed: lines suppress nothing).
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(strings.TrimPrefix(l, "finding: ")), &k) == nil {
			r = append(r, k)
		}
	}
	return r
}

// finish prints the outcome, writes the evidence, and returns the exit status.
func (r *Report) finish(verif string, d propDef, extra map[string]interface{}) int {
	if x, ok := explanations[r.prop]; ok {
		d.explain, d.assumptions = x.what, x.assumes
	}
	ks := loadKnown(filepath.Join(verif, "known-findings.txt"))
	match := func(o *Ob) *known {
		for i := range ks {
			k := &ks[i]
			if k.Property != r.prop || k.Rule != o.Rule {
				continue
			}
			if k.Item == o.Item {
				return k
			}
		}
		return nil
	}
	rules := map[string]map[string]int{}
	var viols []map[string]string
	printed := map[string]bool{}
	nfind := 0
	for _, o := range r.obs {
		if rules[o.Rule] == nil {
			rules[o.Rule] = map[string]int{}
		}
		st := o.Status
		if o.Status == "violation" {
			if k := match(o); k != nil {
				st = "known finding"
				nfind++
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.prop, k.What)
				if !printed[line] {
					printed[line] = true
					fmt.Println(line)
				}
			} else {
				viols = append(viols, map[string]string{"rule": o.Rule, "construct": o.Item, "what": o.Msg, "where": o.Pos})
			}
		}
		rules[o.Rule][st]++
	}
	var und []string
	for _, o := range r.obs {
		if o.Status == "undecided" {
			und = append(und, o.Rule+": "+o.Item+": "+o.Msg)
		}
	}
	sort.Strings(und)
	nund := len(und)
	if len(und) > 60 {
		und = und[:60]
	}
	total, okn := len(r.obs), 0
	for _, o := range r.obs {
		if o.Status == "ok" {
			okn++
		}
	}
	rulesText := []string{}
	for k, v := range rules {
		rulesText = append(rulesText, fmt.Sprintf("%s: %v", k, v))
	}
	sort.Strings(rulesText)
	cov := map[string]interface{}{
		"explanation": d.explain,
		"obligations": total,
		"discharged":  okn,
		"known":       nfind,
		"undecided":   nund,
		"rules":       rules,
		"analysed":    r.nums,
	}
	if nund > 0 {
		cov["undecided_items"] = und
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	// samples of what was examined
	var sample []string
	for i, o := range r.obs {
		if i%(1+len(r.obs)/25) == 0 {
			sample = append(sample, o.Rule+" @ "+o.Item+": "+o.Status)
		}
	}
	cov["sample"] = sample
	for k, v := range extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": seedOf(), "level": d.level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(),
	}
	if len(d.assumptions) > 0 {
		ev["assumptions"] = d.assumptions
	}
	ev["violations"] = len(viols)
	if len(viols) > 0 {
		cov["violation_list"] = viols
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, r.prop+".json")
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations (%.1fs)\n", r.prop, total, okn, nund, nfind, len(viols), time.Since(r.start).Seconds())
	for _, l := range rulesText {
		fmt.Println("  rule", l)
	}
	if os.Getenv("SHOWUND") != "" {
		for _, u := range und {
			fmt.Println("  undecided", u)
		}
	}
	if len(viols) == 0 {
		return 0
	}
	for i, v := range viols {
		if i < 40 {
			fmt.Printf("  %s\n    rule: %s\n    construct: %s\n    at: %s\n", v["what"], v["rule"], v["construct"], v["where"])
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
	return 1
}

func seedOf() int {
	n := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}
