package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// A Check decides one property.
type Check struct {
	ID    string
	Level string
	Rule  string // what is decided, in one paragraph (goes to the evidence)
	Floor int    // least number of obligation instances confirmed by hand
	Run   func(*Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) {
	if checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	if c.Level == "" {
		c.Level = "proof"
	}
	checks[c.ID] = c
}

type obRec struct {
	rule, construct string
	n               int // instances (paths) examined
	bad             bool
	detail          string
}

// Ctx collects the obligations of one run.
type Ctx struct {
	Check *Check
	Repo  string
	Tier  string
	Seed  int
	obs   map[string]*obRec
	order []string
	insts int
	stats map[string]int
	funcs map[string]bool
	notes []string
	progs map[string]*Program
	inits map[string]*Machine
}

// Ob records one instance of an obligation: rule applied to construct.
func (c *Ctx) Ob(rule, construct string, ok bool, detail func() string) {
	k := rule + "|" + construct
	o := c.obs[k]
	if o == nil {
		o = &obRec{rule: rule, construct: construct}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	o.n++
	c.insts++
	if !ok && !o.bad {
		o.bad = true
		if firstBad.IsZero() {
			firstBad = time.Now()
		}
		if detail != nil {
			o.detail = detail()
		}
	}
}

// An analysis that does not come to an end is given up, soon after something
// was found and otherwise before the time allowed for a check is over.
var (
	procStart  = time.Now()
	firstBad   time.Time
	timeTick   int
	timeIsOver bool
)

func outOfTime() bool {
	if timeIsOver {
		return true
	}
	if timeTick++; timeTick&255 != 0 {
		return false
	}
	if time.Since(procStart) > 700*time.Second || !firstBad.IsZero() && time.Since(firstBad) > 120*time.Second {
		timeIsOver = true
	}
	return timeIsOver
}

func (c *Ctx) Count(k string, n int) { c.stats[k] += n }
func (c *Ctx) Note(f string, a ...any) {
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
}

// Program loads (once) the repository under the given build tags.
func (c *Ctx) Program(tags string, cgo bool) *Program {
	k := fmt.Sprint(tags, cgo)
	if p := c.progs[k]; p != nil {
		return p
	}
	p, err := Load(c.Repo, tags, cgo)
	if err != nil {
		panic(Anchor("loading " + c.Repo + ": " + err.Error()))
	}
	c.progs[k] = p
	c.stats["packages"] = len(p.SSA)
	c.stats["functions_in_repository"] = len(p.all)
	return p
}

// Init interprets the package initialisers.
func (c *Ctx) Init(p *Program) *Machine {
	k := p.Tags
	if m := c.inits[k]; m != nil {
		return m
	}
	m := NewMachine(p)
	m.RunInits()
	for _, x := range m.Incompl {
		c.Ob("analysis-complete", "package initialisers", false, func() string { return x })
	}
	c.inits[k] = m
	return m
}

// Machine statistics and completeness after a harness ran.
func (c *Ctx) Done(m *Machine, construct string) {
	ok := len(m.Incompl) == 0
	if m.Steps > c.stats["max_steps"] {
		c.stats["max_steps"] = m.Steps
	}
	c.Ob("analysis-complete", construct, ok, func() string { return "undecided: " + strings.Join(m.Incompl, "; ") })
	for f := range m.Funcs {
		c.funcs[short(f.String())] = true
	}
}

type knownFinding struct{ prop, key, desc string }

func readKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []knownFinding
	for i, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		if !strings.HasPrefix(l, "known: property=") {
			return nil, fmt.Errorf("%s:%d: unrecognised line", path, i+1)
		}
		l = strings.TrimPrefix(l, "known: property=")
		p, rest, ok := strings.Cut(l, " key=[")
		k, d, ok2 := strings.Cut(rest, "] ")
		if !ok || !ok2 {
			return nil, fmt.Errorf("%s:%d: want key=[rule|construct] description", path, i+1)
		}
		out = append(out, knownFinding{p, k, d})
	}
	return out, nil
}

// runCheck executes a check and writes its evidence; the result is the exit code.
func runCheck(id, repo, verif, tier string, seed int) int {
	start := time.Now()
	ck := checks[id]
	replay := filepath.Join("evidence", id+".replay.txt")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if ck == nil {
		fmt.Printf("no check for property %s\nVIOLATION property=%s replay=%s\n", id, id, replay)
		return 1
	}
	c := &Ctx{Check: ck, Repo: repo, Tier: tier, Seed: seed, obs: map[string]*obRec{}, stats: map[string]int{}, funcs: map[string]bool{},
		progs: map[string]*Program{}, inits: map[string]*Machine{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case Anchor:
					c.Ob("anchor", string(x), false, func() string { return "a program element the rule needs was not found: " + string(x) })
				default:
					st := string(debug.Stack())
					c.Ob("analysis-complete", "checker", false, func() string { return fmt.Sprintf("checker failed: %v\n%s", r, st) })
				}
			}
		}()
		ck.Run(c)
	}()
	known, kerr := readKnown(filepath.Join(verif, "known-findings.txt"))
	if kerr != nil {
		c.Ob("known-findings", "file", false, func() string { return kerr.Error() })
	}
	if ck.Floor > 0 {
		c.Ob("floor", "instances", c.insts >= ck.Floor, func() string {
			return fmt.Sprintf("only %d obligation instances were found, %d were confirmed by hand", c.insts, ck.Floor)
		})
	}
	var bad, knownHit []*obRec
	discharged := 0
	isKnown := map[string]string{}
	for _, k := range known {
		if k.prop == id {
			isKnown[k.key] = k.desc
		}
	}
	for _, k := range c.order {
		o := c.obs[k]
		switch {
		case !o.bad:
			discharged++
		case isKnown[k] != "":
			knownHit = append(knownHit, o)
		default:
			bad = append(bad, o)
		}
	}
	var rep strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&rep, "rule=%s construct=%s\n  %s\n", o.rule, o.construct, strings.ReplaceAll(o.detail, "\n", "\n  "))
	}
	fns := make([]string, 0, len(c.funcs))
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	samples := []any{}
	step := len(c.order)/12 + 1
	for i := 0; i < len(c.order); i += step {
		o := c.obs[c.order[i]]
		samples = append(samples, map[string]any{"rule": o.rule, "construct": o.construct, "paths": o.n, "holds": !o.bad})
	}
	rules := map[string]int{}
	for _, k := range c.order {
		rules[c.obs[k].rule]++
	}
	cov := map[string]any{
		"obligations":         len(c.order),
		"discharged":          discharged,
		"path_instances":      c.insts,
		"obligations_by_rule": rules,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"rule":                ck.Rule,
		"explanation":         ck.Rule,
		"samples":             samples,
		"checker_cmd":         fmt.Sprintf("bash run.sh %s %s", id, tier),
		"trusted_base": []string{"go/types and golang.org/x/tools/go/ssa (SSA construction)", "the abstract interpreter and linear-arithmetic entailment in /verif/checker",
			"the models of standard-library calls in /verif/checker/models.go", "the statement of the rule in the check's source"},
	}
	for k, v := range c.stats {
		cov[k] = v
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(bad), "known_findings": len(knownHit),
	}
	if len(knownHit) == 0 {
		delete(ev, "known_findings")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	for _, o := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s|%s: %s\n", id, o.rule, o.construct, isKnown[o.rule+"|"+o.construct])
	}
	fmt.Printf("%s: %d obligations (%d path instances), %d discharged, %d functions analysed, %.1fs\n", id, len(c.order), c.insts, discharged, len(fns), time.Since(start).Seconds())
	if len(bad) > 0 {
		os.WriteFile(filepath.Join(verif, replay), []byte(rep.String()), 0o644)
		n := 0
		for _, o := range bad {
			if n++; n > 8 {
				fmt.Printf("... %d more\n", len(bad)-8)
				break
			}
			d := o.detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("violated: %s: %s\n  %s\n", o.rule, o.construct, strings.ReplaceAll(d, "\n", "\n  "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	os.Remove(filepath.Join(verif, replay))
	return 0
}
