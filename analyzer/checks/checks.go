// Package checks decides the properties of /verif/properties.jsonl from the
// source of the repository.
package checks

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/repo"
)

// Violation is one construct that breaks a property.
type Violation struct {
	Rule, Construct, Pos, Msg string
	Trace                     []string
}

// Ctx is one run of one check.
type Ctx struct {
	only         map[string]bool // rules that are reported, if set
	onlyFiltered bool            // follow only runs with a property filter
	notFiltered  string          // a value that should have come from the filter
	reached      map[ssa.Instruction]bool
	ID           string
	R            *repo.Repo
	E            *ai.Eng
	Debug        bool

	Viol        []Violation
	vkeys       map[string]bool
	Obligations map[string]bool // rule + construct
	Analysed    map[string]bool // functions
	Sites       int
	Paths       int
	Joins       int
	Steps       int
	Rules       []string
	Assume      []string
	Samples     []string
	Bounded     []string // explorations cut short
}

type Check struct {
	ID  string
	Run func(c *Ctx)
}

var registry = map[string]func(c *Ctx){}

func register(id string, f func(c *Ctx)) { registry[id] = f }

// IDs lists the implemented checks.
func IDs() []string {
	var r []string
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Obl records an obligation; repeated ones count once.
func (c *Ctx) Obl(rule, construct string) {
	k := rule + ": " + construct
	if !c.Obligations[k] {
		c.Obligations[k] = true
		if len(c.Samples) < 12 {
			c.Samples = append(c.Samples, k)
		}
	}
}

// Rule records a rule applied by this check.
func (c *Ctx) Rule(format string, args ...any) {
	c.Rules = append(c.Rules, fmt.Sprintf(format, args...))
}

func (c *Ctx) Assumption(s string) {
	for _, a := range c.Assume {
		if a == s {
			return
		}
	}
	c.Assume = append(c.Assume, s)
}

// Pos renders a position relative to the repository.
func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.R.Pkg.Fset.Position(p)
	return fmt.Sprintf("%s:%d", c.R.Rel(q.Filename), q.Line)
}

// Violate reports a violation once per rule, construct and message.
func (c *Ctx) Violate(rule, construct string, pos token.Pos, format string, args ...any) {
	c.violate(Violation{Rule: rule, Construct: construct, Pos: c.Pos(pos), Msg: fmt.Sprintf(format, args...)})
}

func (c *Ctx) violate(v Violation) {
	k := v.Rule + "|" + v.Construct + "|" + v.Msg
	if c.vkeys[k] {
		return
	}
	c.vkeys[k] = true
	c.Viol = append(c.Viol, v)
}

// Undecided: the analysis could not decide an obligation, which fails the check.
func (c *Ctx) Undecided(construct string, pos token.Pos, format string, args ...any) {
	c.Violate("undecided", construct, pos, format, args...)
}

// short drops the package path of a function name.
func short(fn string) string { return strings.ReplaceAll(fn, repo.Path+".", "") }

func fnName(f *ssa.Function) string { return short(f.String()) }

// Func, Method and Type resolve anchors; an unresolved one fails the check.
func (c *Ctx) Func(name string) *ssa.Function {
	f := c.R.Func(name)
	if f == nil {
		c.Undecided(name, token.NoPos, "function %s not found", name)
	}
	return f
}

func (c *Ctx) Method(typ, name string) *ssa.Function {
	f := c.R.Method(typ, name)
	if f == nil {
		c.Undecided(typ+"."+name, token.NoPos, "method %s.%s not found", typ, name)
	}
	return f
}

func (c *Ctx) Type(name string) *types.Named {
	t := c.R.Type(name)
	if t == nil {
		c.Undecided(name, token.NoPos, "type %s not found", name)
	}
	return t
}

// Collect takes over the results of an abstract execution.
func (c *Ctx) Collect(x *ai.Exec, what string) {
	for f := range x.Funcs {
		c.Analysed[short(f)] = true
	}
	c.Paths += x.Returns
	c.Joins += x.Joins
	c.Steps += x.Steps
	c.Sites += len(x.Calls)
	for _, f := range x.Findings {
		if c.only != nil && !c.only[f.Rule] {
			continue
		}
		c.violate(Violation{Rule: f.Rule, Construct: short(f.Fn), Pos: c.Pos(f.Pos), Msg: what + ": " + short(f.Msg), Trace: f.Trace})
	}
	if x.Bounded != "" {
		c.Bounded = append(c.Bounded, what+": "+x.Bounded)
	}
	if x.Undecided != "" {
		c.Undecided(what, x.Entry.Pos(), "%s", x.Undecided)
	}
	if len(c.vkeys) > 200 {
		ai.Until = time.Now() // that is enough
	}
	if x.Returns+x.Panics == 0 && x.Undecided == "" && x.Bounded == "" {
		c.Undecided(what, x.Entry.Pos(), "no outcome was reached")
	}
}

// --- known findings ------------------------------------------------------------------------

type Known struct{ Property, Rule, Construct, What string }

// LoadKnown reads the committed known-findings file: tab-free lines
//
//	known: property=<id> rule=<rule> construct=<construct> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only the former match, and only their exact rule and construct.
func LoadKnown(file string) ([]Known, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, what, ok := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		if !ok {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		k := Known{What: what}
		for _, kv := range strings.Fields(head) {
			n, v, _ := strings.Cut(kv, "=")
			switch n {
			case "property":
				k.Property = v
			case "rule":
				k.Rule = v
			case "construct":
				k.Construct = v
			}
		}
		if k.Property == "" || k.Rule == "" || k.Construct == "" {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		out = append(out, k)
	}
	return out, nil
}

// --- running ----------------------------------------------------------------------------------

// Main runs one check and returns the exit status.
func Main(id, dir, verif string, debug bool) (code int) {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ai.Until = start.Add(10 * time.Minute)
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, id+".violations.txt")
	os.Remove(replay)
	c := &Ctx{ID: id, Debug: debug, vkeys: map[string]bool{}, Obligations: map[string]bool{}, Analysed: map[string]bool{}}
	c.Assumption("the Go type checker and the SSA construction of golang.org/x/tools are correct")
	func() {
		if !debug {
			defer func() {
				if r := recover(); r != nil {
					c.violate(Violation{Rule: "undecided", Construct: "analysis", Pos: "?", Msg: fmt.Sprintf("the analysis failed: %v", r)})
				}
			}()
		}
		r, err := repo.Load(dir)
		if err != nil {
			c.violate(Violation{Rule: "undecided", Construct: "load", Pos: "?", Msg: err.Error()})
			return
		}
		c.R = r
		c.E = ai.NewEng(r.Prog, r.SSA)
		g, err := os.ReadFile(filepath.Join(dir, "Cypher.g4"))
		if err != nil {
			c.violate(Violation{Rule: "undecided", Construct: "Cypher.g4", Pos: "?", Msg: err.Error()})
			return
		}
		c.E.Gram = ai.ParseGrammar(string(g))
		run := registry[id]
		if run == nil {
			c.violate(Violation{Rule: "undecided", Construct: id, Pos: "?", Msg: "no such check"})
			return
		}
		run(c)
		if len(c.Obligations) == 0 {
			c.violate(Violation{Rule: "undecided", Construct: id, Pos: "?", Msg: "the check found nothing to decide"})
		}
	}()
	known, err := LoadKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		c.violate(Violation{Rule: "undecided", Construct: "known-findings.txt", Pos: "?", Msg: err.Error()})
	}
	var fresh []Violation
	printed := map[string]bool{}
	for _, v := range c.Viol {
		hit := false
		for _, k := range known {
			if k.Property == id && k.Rule == v.Rule && k.Construct == v.Construct {
				hit = true
				if !printed[k.What] {
					printed[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Rule != "undecided" && fresh[j].Rule == "undecided" })
	var b strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&b, "rule %s: %s (%s): %s\n", v.Rule, v.Construct, v.Pos, v.Msg)
		for _, t := range v.Trace {
			fmt.Fprintf(&b, "    %s\n", t)
		}
	}
	fns := make([]string, 0, len(c.Analysed))
	for f := range c.Analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	failed := map[string]bool{}
	for _, v := range fresh {
		failed[v.Rule+v.Construct] = true
	}
	cov := map[string]any{
		"explanation":          "static analysis of the source: " + strings.Join(c.Rules, "; "),
		"obligations":          len(c.Obligations),
		"obligation_samples":   c.Samples,
		"functions_analysed":   len(fns),
		"functions":            fns,
		"abstract_paths_ended": c.Paths,
		"abstract_steps":       c.Steps,
		"joins":                c.Joins,
		"call_sites_visited":   c.Sites,
		"known_findings":       len(printed),
		"explored_up_to_bound": c.Bounded,
	}
	e := map[string]any{"property": id, "tier": tier, "seed": 1, "level": "other", "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(fresh)}
	js, _ := json.MarshalIndent(e, "", " ")
	if err := os.WriteFile(filepath.Join(ev, id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if len(fresh) > 0 {
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	for _, b := range c.Bounded {
		fmt.Printf("note: explored up to a bound: %s\n", b)
	}
	fmt.Printf("ok %s: %d obligations, %d functions, %d abstract paths, %.1fs\n", id, len(c.Obligations), len(fns), c.Paths, time.Since(start).Seconds())
	return 0
}
