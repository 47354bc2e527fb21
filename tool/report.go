package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A Viol is one construct of the source that breaks a rule, or that the
// analysis could not show to keep it.
type Viol struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Func  string `json:"func"`
	What  string `json:"what"`
	Cfg   string `json:"config"`
}

func (v Viol) String() string {
	return fmt.Sprintf("[%s] %s (%s, %s): %s", v.Rule, v.Where, v.Func, v.Cfg, v.What)
}

// key identifies a violation across runs: no line numbers.
func (v Viol) key() string { return v.Rule + "|" + v.Func + "|" + v.What }

// Check is the machinery for one property.
type Check struct {
	id    string
	title string
	rules string // the rules applied, for the evidence
	not   []string
	run   func(c *Ctx)
	// configurations beyond the first matter for this property
	allCfg bool
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

// Ctx is one run of one check in one configuration.
type Ctx struct {
	id      string
	pr      *Program
	cfg     Config
	viols   []Viol
	seen    map[string]bool
	inst    map[string]int
	funcs   map[string]bool
	paths   int
	steps   int
	obls    int
	anchors []string
	onces   map[string]*Term
}

func newCtx(id string, pr *Program) *Ctx {
	return &Ctx{id: id, pr: pr, cfg: pr.Cfg, seen: map[string]bool{}, inst: map[string]int{}, funcs: map[string]bool{}}
}

func (c *Ctx) fail(rule string, pos token.Pos, fn *ssa.Function, f string, args ...any) {
	name := ""
	if fn != nil {
		name = strings.ReplaceAll(fn.String(), modPath+"/", "")
	}
	v := Viol{Rule: rule, Where: c.pr.Where(pos), Func: name, What: fmt.Sprintf(f, args...), Cfg: c.cfg.String()}
	if len(v.What) > 700 {
		v.What = strings.ToValidUTF8(v.What[:700], "") + "..."
	}
	k := v.String()
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viols = append(c.viols, v)
}

// ok counts an instance of a rule that was looked at.
func (c *Ctx) ok(rule string) { c.inst[rule]++ }

// want checks one instance of a rule.
func (c *Ctx) want(cond bool, rule string, pos token.Pos, fn *ssa.Function, f string, args ...any) bool {
	c.inst[rule]++
	if !cond {
		c.fail(rule, pos, fn, f, args...)
	}
	return cond
}

// need fails when a rule has met fewer instances than there have to be: a
// check that looks at nothing says nothing.
func (c *Ctx) need(rule string, min int) {
	if c.inst[rule] < min {
		c.fail(rule, token.NoPos, nil, "the rule met %d instances, fewer than the %d there must be: the code it is about is gone or not recognised", c.inst[rule], min)
	}
}

func (c *Ctx) fn(pkg, name string) *ssa.Function {
	f := c.pr.Func(pkg, name)
	if f == nil {
		c.fail("anchor", token.NoPos, nil, "function %s.%s is not there", pkg, name)
		return nil
	}
	c.anchors = append(c.anchors, f.String())
	return f
}

func (c *Ctx) method(pkg, typ, name string) *ssa.Function {
	f := c.pr.Method(pkg, typ, name)
	if f == nil {
		c.fail("anchor", token.NoPos, nil, "method %s.%s.%s is not there", pkg, typ, name)
		return nil
	}
	c.anchors = append(c.anchors, f.String())
	return f
}

// params makes the symbolic arguments of fn.
func params(fn *ssa.Function) []*Term {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, expand(mkSym(p.Name(), p.Type()), p.Type()))
	}
	return args
}

// runFn analyses fn; what the analysis does not understand is a violation.
func (c *Ctx) runFn(x *Exec, fn *ssa.Function, st *State, args, free []*Term) []Outcome {
	outs, err := x.Run(fn, st, args, free)
	if err != nil {
		c.fail("undecided", fn.Pos(), fn, "%v", err)
	}
	for _, u := range x.undec {
		c.fail("undecided", fn.Pos(), fn, "%s", u)
	}
	c.note(x, fn, outs)
	return outs
}

func (c *Ctx) note(x *Exec, fn *ssa.Function, outs []Outcome) {
	c.funcs[fn.String()] = true
	for f := range x.visited {
		c.funcs[f.String()] = true
	}
	c.paths += len(outs)
	c.steps += x.steps
	c.obls += len(x.obl)
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func runCheck(ch *Check, repo, tier, outDir, known string, seed int) int {
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "ninepcheck")
	if err != nil {
		fmt.Println(err)
		return violate(ch, outDir, []Viol{{Rule: "setup", What: err.Error()}}, known)
	}
	defer os.RemoveAll(scratch)
	cfgs := []Config{{GOOS: "linux"}}
	if tier == "thorough" {
		cfgs = append(cfgs, Config{GOOS: "linux", Tags: "pprof"}, Config{GOOS: "darwin"}, Config{GOOS: "freebsd"}, Config{GOOS: "windows"})
	}
	var viols []Viol
	inst := map[string]int{}
	funcs := map[string]bool{}
	anchors := map[string]bool{}
	paths, steps, obls := 0, 0, 0
	var cfgNames []string
	files := 0
	for _, cfg := range cfgs {
		resetTerms()
		pr, err := load(repo, cfg, scratch)
		if err != nil {
			viols = append(viols, Viol{Rule: "load", What: err.Error(), Cfg: cfg.String()})
			continue
		}
		c := newCtx(ch.id, pr)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("NPC_DEBUG") != "" {
						panic(r)
					}
					c.fail("undecided", token.NoPos, nil, "the analysis failed: %v %s", r, firstFrames())
				}
			}()
			ch.run(c)
		}()
		viols = append(viols, c.viols...)
		for k, n := range c.inst {
			inst[k] += n
		}
		for k := range c.funcs {
			funcs[strings.ReplaceAll(k, modPath+"/", "")] = true
		}
		for _, a := range c.anchors {
			anchors[strings.ReplaceAll(a, modPath+"/", "")] = true
		}
		paths += c.paths
		steps += c.steps
		obls += c.obls
		files += pr.Files
		cfgNames = append(cfgNames, cfg.String())
	}
	ev := evidence{Property: ch.id, Tier: tier, Seed: seed, Level: "other", WallS: time.Since(t0).Seconds(), Violations: len(viols)}
	sum := 0
	for _, n := range inst {
		sum += n
	}
	ev.Coverage = map[string]any{
		"explanation": fmt.Sprintf("Abstract interpretation of the SSA form of the current source, from its entry points to all paths through every function of the repository they reach (loops by fixpoint). Rules: %s", ch.rules),
		"configs":     cfgNames, "source_files": files, "functions_analysed": len(funcs), "functions": sortedKeys(funcs),
		"entry_points": sortedKeys(anchors), "abstract_paths": paths, "ssa_steps": steps, "safety_obligations_met": obls,
		"rule_instances": inst, "rule_instances_total": sum, "not_covered": ch.not,
	}
	ev.Assumptions = commonAssumptions
	data, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(outDir, 0o777)
	if err := os.WriteFile(filepath.Join(outDir, ch.id+".json"), append(data, '\n'), 0o666); err != nil {
		viols = append(viols, Viol{Rule: "setup", What: err.Error()})
	}
	fmt.Printf("%s %s: %d functions, %d abstract paths, %d rule instances, %d safety obligations, %.1fs\n", ch.id, ch.title, len(funcs), paths, sum, obls, time.Since(t0).Seconds())
	var rs []string
	for k := range inst {
		rs = append(rs, k)
	}
	sort.Strings(rs)
	for _, k := range rs {
		fmt.Printf("  rule %-28s %d\n", k, inst[k])
	}
	return violate(ch, outDir, viols, known)
}

func firstFrames() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/tool/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

var commonAssumptions = []string{
	"Packages outside the repository (os, net, io, bytes, fmt, path, sync, time) behave as documented; their models are in /verif/tool/models.go.",
	"Callers use the packages through their exported API; no unsafe or reflective access to their state.",
	"int is 64 bits wide and no slice or string is longer than 2^62 bytes.",
	"A goroutine is analysed against any interleaving of others only at locks, channels and atomics; data races are what C23 is about.",
}

// violate prints the outcome; findings listed as known are not violations.
func violate(ch *Check, outDir string, viols []Viol, known string) int {
	list := readKnown(known, ch.id)
	var left []Viol
	for _, v := range viols {
		hit := false
		for _, k := range list {
			if strings.HasPrefix(v.key(), k) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.id, v)
				hit = true
				break
			}
		}
		if !hit {
			left = append(left, v)
		}
	}
	if len(left) == 0 {
		os.Remove(filepath.Join(outDir, ch.id+".violations.txt"))
		return 0
	}
	p := filepath.Join(outDir, ch.id+".violations.txt")
	var b strings.Builder
	for _, v := range left {
		fmt.Fprintln(&b, v)
	}
	os.MkdirAll(outDir, 0o777)
	os.WriteFile(p, []byte(b.String()), 0o666)
	for i, v := range left {
		if i == 12 {
			fmt.Printf("  ... %d more\n", len(left)-i)
			break
		}
		fmt.Println("  " + v.String())
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", ch.id, p)
	return 1
}

// readKnown reads the lines "known: property=<id> key=<rule|func|what prefix>".
func readKnown(path, id string) []string {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		r = append(r, strings.TrimPrefix(l, "known: property="+id+" key="))
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
