package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// Violation is a construct that breaks a rule.
type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"` // function, call site, path; no line numbers
	Pos       string `json:"pos"`
	Msg       string `json:"msg"`
}

// C is the context of a check.
type C struct {
	ID         string
	P          *engine.Program
	S          *engine.Session
	Violations []Violation
	Counts     map[string]int
	Samples    []string
	Functions  map[string]bool
	runs       map[string]*Run
	seen       map[string]bool
	inlined    map[*ssa.Function]bool
}

// Check decides a property.
type Check struct {
	Rule string // the rule applied
	Run  func(c *C)
}

// Run is the analysis of an entry.
type Run struct {
	Fn   *ssa.Function
	X    *engine.Engine
	Base *engine.State
	Args []*engine.Term
	Outs []*engine.Outcome
}

// Fail reports a violation.
func (c *C) Fail(rule, construct, pos, format string, args ...any) {
	k := rule + "|" + construct + "|" + pos
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Violations = append(c.Violations, Violation{rule, construct, pos, fmt.Sprintf(format, args...)})
}

// Count counts instances.
func (c *C) Count(what string, n int) { c.Counts[what] += n }

// Sample keeps a few examples for the evidence.
func (c *C) Sample(format string, args ...any) {
	if len(c.Samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = strings.ToValidUTF8(s[:400], "") + "…"
		}
		c.Samples = append(c.Samples, s)
	}
}

// Need fails if less instances than confirmed by hand were found.
func (c *C) Need(what string, n int) {
	if c.Counts[what] < n {
		c.Fail("instances", what, "", "only %d instances of %q were found, at least %d are expected: the rule lost its anchor", c.Counts[what], what, n)
	}
}

// name of a function for reports.
func (c *C) name(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(nil), c.P.Root.Pkg.Path(), "sqlf")
}

// Analyse runs the engine on an entry with the default policy.
func (c *C) Analyse(fn *ssa.Function) *Run { return c.AnalyseWith(fn, "", nil, nil) }

// AnalyseWith runs the engine with a policy and a start state of its own.
func (c *C) AnalyseWith(fn *ssa.Function, key string, cut func(def engine.CutFunc) engine.CutFunc, start func(r *Run, st *engine.State)) *Run {
	k := fn.String() + "|" + key
	if r, ok := c.runs[k]; ok {
		return r
	}
	x, base := c.S.NewEngine()
	if cut != nil {
		x.Cut = cut(x.Cut)
	}
	st, args := x.Start(base, fn)
	r := &Run{Fn: fn, X: x, Base: st, Args: args}
	if start != nil {
		start(r, st)
	}
	r.Base = st.Clone()
	c.runs[k] = r
	var bind []*engine.Term
	if len(fn.FreeVars) > 0 {
		bind = x.BindsOf(fn)
	}
	outs, err := x.RunBound(fn, st, r.Args, bind)
	r.Outs = outs
	if err != nil {
		c.Fail("analysis", c.name(fn), c.P.Pos(fn.Pos()), "can't be analysed: %v", err)
	}
	for _, p := range engine.SortedKeys(x.Problems) {
		c.Fail("analysis", c.name(fn), c.P.Pos(fn.Pos()), "analysis problem: %s", p)
	}
	c.Functions[c.name(fn)] = true
	for f := range x.Inlined {
		c.inlined[f] = true
		c.Functions[c.name(f)] = true
	}
	c.Count("path partitions", len(outs))
	c.Count("abstract steps", x.Steps)
	return r
}

type knownFinding struct {
	Property, Rule, Construct, What string
}

// known reads the known findings: lines "finding: property=<id> rule=<rule> construct=<construct> :: what".
func known(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "finding: ")
		if !ok {
			continue
		}
		head, what, _ := strings.Cut(rest, " :: ")
		k := knownFinding{What: what}
		if i := strings.Index(head, " construct="); i >= 0 {
			k.Construct = head[i+len(" construct="):]
			head = head[:i]
		}
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.Property = v
			}
			if v, ok := strings.CutPrefix(f, "rule="); ok {
				k.Rule = v
			}
		}
		out = append(out, k)
	}
	return out
}

func main() {
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("CHECK_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("CHECK_VERIF"); v != "" {
		verif = v
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dump(repo, os.Args[2:])
		return
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property>...|dump <function>")
		os.Exit(1)
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	exit := 0
	var p *engine.Program
	var s *engine.Session
	for _, id := range ids {
		t := time.Now()
		c := &C{ID: id, Counts: map[string]int{}, Functions: map[string]bool{}, runs: map[string]*Run{}, seen: map[string]bool{}, inlined: map[*ssa.Function]bool{}}
		chk := checks[id]
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Fail("analysis", "panic of the checker", "", "%v\n%s", r, debug.Stack())
				}
			}()
			if chk == nil {
				c.Fail("analysis", "no check for "+id, "", "unknown property")
				return
			}
			if p == nil {
				var err error
				p, err = engine.Load(repo)
				if err != nil {
					p = nil
					c.Fail("analysis", "loading", "", "%v", err)
					return
				}
				s = engine.NewSession(p)
			}
			c.P, c.S = p, s
			chk.Run(c)
		}()
		if !c.finish(verif, chk, time.Since(t).Seconds()) {
			exit = 1
		}
	}
	os.Exit(exit)
}

func (c *C) finish(verif string, chk *Check, wall float64) bool {
	sort.Slice(c.Violations, func(i, j int) bool {
		a, b := c.Violations[i], c.Violations[j]
		if a.Pos != b.Pos {
			return a.Pos < b.Pos
		}
		return a.Rule+a.Construct < b.Rule+b.Construct
	})
	var open []Violation
	kf := known(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	for _, v := range c.Violations {
		suppressed := false
		for _, k := range kf {
			if k.Property == c.ID && k.Rule == v.Rule && k.Construct == v.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
				suppressed = true
				break
			}
		}
		if !suppressed {
			open = append(open, v)
		}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	var fns []string
	for f := range c.Functions {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	rule := ""
	if chk != nil {
		rule = chk.Rule
	}
	cov := map[string]any{
		"explanation":        "Static analysis of the current source of /repo; nothing is executed. Rule: " + rule,
		"functions_analysed": len(fns),
		"functions":          fns,
		"samples":            c.Samples,
		"exhaustive":         false,
	}
	for k, v := range c.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(open),
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
	replay := filepath.Join(dir, c.ID+".violations.txt")
	os.Remove(replay)
	if len(open) == 0 {
		fmt.Printf("OK property=%s functions=%d %s (%.1fs)\n", c.ID, len(fns), countsLine(c.Counts), wall)
		return true
	}
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s: rule %q, %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return false
}

func countsLine(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ss []string
	for _, k := range ks {
		ss = append(ss, fmt.Sprintf("%s=%d", strings.ReplaceAll(k, " ", "_"), m[k]))
	}
	return strings.Join(ss, " ")
}

var assumptions = []string{
	"The Go compiler, the standard library and go/ssa behave as documented; standard library functions are modelled by contracts (strings, strconv, fmt, errors, reflect, bytes, time, unicode).",
	"Custom functions and foreign builders keep the documented contract: they commit their args through the context, in the order of their placeholders, and do not touch unexported state by reflection or unsafe.",
	"A context, a builder and what it holds are used by one goroutine at a time while they are changed.",
}
