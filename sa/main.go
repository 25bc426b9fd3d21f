package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// An Obligation is one decided instance of a rule.
type Obligation struct {
	Rule string `json:"rule"`
	Key  string `json:"construct"`
	Pos  string `json:"pos,omitempty"`
	OK   bool   `json:"ok"`
	Why  string `json:"why"`
	Path string `json:"path,omitempty"`
}

type Result struct {
	Prop        string
	Obs         []Obligation
	Analysed    map[string]int
	Floors      map[string]int // rule -> minimum number of instances confirmed by hand
	Assumptions []string
	Explanation string
	Rule        string
}

func newResult(prop string) *Result {
	return &Result{Prop: prop, Analysed: map[string]int{}, Floors: map[string]int{}}
}

func (r *Result) ok(rule, key, pos, why string) {
	r.Obs = append(r.Obs, Obligation{rule, key, pos, true, why, ""})
}
func (r *Result) bad(rule, key, pos, why string) {
	r.Obs = append(r.Obs, Obligation{rule, key, pos, false, why, ""})
}
func (r *Result) badPath(rule, key, pos, why, path string) {
	r.Obs = append(r.Obs, Obligation{rule, key, pos, false, why, path})
}
func (r *Result) add(ok bool, rule, key, pos, why string) {
	r.Obs = append(r.Obs, Obligation{rule, key, pos, ok, why, ""})
}
func (r *Result) floor(rule string, n int) { r.Floors[rule] = n }

type fatalError string

func fatal(format string, a ...any) { panic(fatalError(fmt.Sprintf(format, a...))) }

type checkFn func(p *Prog, r *Result)

type checkDef struct {
	id  string
	run checkFn
}

var checks = map[string]checkFn{}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	debug.SetGCPercent(400)
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: sa <property>...|all")
		os.Exit(1)
	}
	ids := args
	if args[0] == "dump" {
		dumpMain(args[1:])
		return
	}
	if args[0] == "list" {
		var l []string
		for id := range checks {
			l = append(l, id)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	if args[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		if c := runOne(id); c != 0 {
			code = c
		}
	}
	cleanup()
	os.Exit(code)
}

func cleanup() {
	if tmpDir != "" && strings.Contains(tmpDir, "verif-sa-") {
		os.RemoveAll(tmpDir)
	}
}

func runOne(id string) int {
	start := time.Now()
	r := newResult(id)
	var failure string
	func() {
		defer func() {
			if e := recover(); e != nil {
				if f, ok := e.(fatalError); ok {
					failure = string(f)
				} else {
					failure = fmt.Sprintf("internal error: %v\n%s", e, debug.Stack())
				}
			}
		}()
		fn := checks[id]
		if fn == nil {
			fatal("no check for property %s", id)
		}
		p := loadProg("")
		fn(p, r)
	}()
	if failure != "" {
		r.bad("analysis-complete", "analyzer", "-", failure)
	}
	return report(r, time.Since(start))
}

type known struct {
	prop, rule, key, text string
}

func loadKnown() []known {
	var out []known
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var e struct{ Status, Property, Rule, Construct, What string }
		if json.Unmarshal([]byte(l), &e) != nil || e.Status != "known" {
			continue
		}
		out = append(out, known{e.Property, e.Rule, e.Construct, e.What})
	}
	return out
}

func report(r *Result, wall time.Duration) int {
	counts := map[string]int{}
	okc := map[string]int{}
	for _, o := range r.Obs {
		counts[o.Rule]++
		if o.OK {
			okc[o.Rule]++
		}
	}
	rules := make([]string, 0, len(r.Floors))
	for k := range r.Floors {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		if counts[k] < r.Floors[k] {
			r.bad("instance-floor", k, "-", fmt.Sprintf("rule %s matched %d constructs, fewer than the %d confirmed by hand: the rule lost its anchor", k, counts[k], r.Floors[k]))
		}
	}
	var viol, kn []Obligation
	knownList := loadKnown()
	used := map[int]bool{}
	discharged := 0
	for _, o := range r.Obs {
		if o.OK {
			discharged++
			continue
		}
		matched := -1
		for i, k := range knownList {
			if k.prop == r.Prop && k.rule == o.Rule && k.key == o.Key {
				matched = i
			}
		}
		if matched >= 0 {
			if !used[matched] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, knownList[matched].text)
			}
			used[matched] = true
			kn = append(kn, o)
		} else {
			viol = append(viol, o)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := []Obligation{}
	seenRule := map[string]int{}
	for _, o := range r.Obs {
		if seenRule[o.Rule] < 4 {
			seenRule[o.Rule]++
			samples = append(samples, o)
		}
	}
	cov := map[string]any{
		"explanation":         r.Explanation,
		"obligations":         len(r.Obs),
		"discharged":          discharged,
		"obligations_by_rule": counts,
		"discharged_by_rule":  okc,
		"analysed":            r.Analysed,
		"rule":                r.Rule,
		"samples":             samples,
		"known_findings":      kn,
		"violations_reported": viol,
		"instance_floors":     r.Floors,
		"exhaustive":          true,
		"checker_cmd":         "/verif/bin/sa " + r.Prop,
		"trusted_base":        []string{"go/types and go/ssa of golang.org/x/tools v0.52.0", "the rule implementation in /verif/sa"},
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assumptions, "wall_s": wall.Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	os.WriteFile(filepath.Join(evDir, r.Prop+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)\n", r.Prop, len(r.Obs), discharged, len(kn), len(viol), wall.Seconds())
	if len(viol) == 0 {
		return 0
	}
	rep := filepath.Join(evDir, "replay-"+r.Prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d violated obligations\nreproduce: /verif/bin/sa %s\n\n", r.Prop, len(viol), r.Prop)
	for i, o := range viol {
		line := fmt.Sprintf("%s: [%s] %s: %s", o.Pos, o.Rule, o.Key, o.Why)
		if o.Path != "" {
			line += "\n    path: " + o.Path
		}
		fmt.Fprintln(&sb, line)
		if i < 40 {
			fmt.Println("  " + line)
		}
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rep)
	return 1
}
