// Command sa decides the properties of /verif/properties.jsonl by static
// analysis of the source of bbb-webrtc-recorder.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Ctx is what one check works with.
type Ctx struct {
	p       *Prog
	id      string
	tier    string
	viol    []*Violation
	vseen   map[string]bool
	cov     map[string]any
	explain string
	engines []*Engine
	count   map[string]int
	samples []string
	assume  []string
	initH   map[*Term]*Term
}

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

func (c *Ctx) engine(h *Hooks) *Engine {
	e := NewEngine(c.p, h)
	if c.initH == nil {
		c.initH = buildInitHeap(c.p)
	}
	e.initHeap = c.initH
	c.engines = append(c.engines, e)
	return e
}

// explore runs an engine and takes over what it found.
func (c *Ctx) explore(e *Engine, roots ...*Root) {
	e.Explore(roots)
	for _, v := range e.viol {
		c.add(v)
	}
	if e.truncated {
		c.fail("bound", "analysis", "the analysis did not reach a fixpoint within its bounds (%d steps): nothing can be concluded", e.steps)
	}
}

func (c *Ctx) add(v *Violation) {
	k := v.rule + "|" + v.key
	if c.vseen[k] {
		return
	}
	c.vseen[k] = true
	c.viol = append(c.viol, v)
}

func (c *Ctx) fail(rule, key, format string, a ...any) {
	c.add(&Violation{rule: rule, key: key, msg: fmt.Sprintf(format, a...)})
}

// need is an obligation about the instances a rule applies to.
func (c *Ctx) need(ok bool, what string, format string, a ...any) bool {
	if !ok {
		c.fail("anchor", what, format, a...)
	}
	return ok
}

func (c *Ctx) inc(k string) { c.count[k]++ }

func (c *Ctx) sample(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, x := range c.samples {
		if x == s {
			return
		}
	}
	if len(c.samples) < 40 {
		c.samples = append(c.samples, s)
	}
}

// known findings: "<property> <rule>|<key>" lines
func loadKnown(dir string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " :: ", 3)
		if len(f) == 3 {
			id := strings.TrimPrefix(f[0], "property=")
			out[id+" "+f[1]] = f[2]
		}
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("SA_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sa <property>...")
		os.Exit(2)
	}
	start := time.Now()
	if f := os.Getenv("SA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			d, _ := time.ParseDuration(envOr("SA_PROFT", "40s"))
			time.Sleep(d)
			pprof.StopCPUProfile()
			w.Close()
			if dumpEngine != nil {
				dumpEngine.topLocs()
			}
			printDumps()
			os.Exit(3)
		}()
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	p, err := Load()
	rc := 0
	for _, id := range ids {
		t := time.Now()
		if len(ids) == 1 {
			t = start
		}
		if r := runCheck(p, err, id, t); r != 0 {
			rc = r
		}
	}
	os.Exit(rc)
}

func runCheck(p *Prog, loadErr error, id string, start time.Time) int {
	fn := checks[id]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	c := &Ctx{p: p, id: id, tier: os.Getenv("VERIF_TIER"), vseen: map[string]bool{}, cov: map[string]any{}, count: map[string]int{}}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	if loadErr != nil {
		c.fail("load", "load", "%v", loadErr)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.fail("internal", "panic", "the analyzer failed: %v\n%s", r, debug.Stack())
				}
			}()
			fn(c)
		}()
	}
	known := loadKnown(verifDir())
	var bad []*Violation
	used := map[string]bool{}
	for _, v := range c.viol {
		k := id + " " + v.rule + "|" + v.key
		if d, ok := known[k]; ok {
			if !used[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, d)
			}
			used[k] = true
			continue
		}
		bad = append(bad, v)
	}
	c.writeEvidence(start, len(bad), len(c.viol)-len(bad))
	dir := filepath.Join(verifDir(), "evidence")
	vf := filepath.Join(dir, id+".violation.txt")
	os.Remove(vf)
	if len(bad) > 0 {
		var b strings.Builder
		for _, v := range bad {
			fmt.Fprintf(&b, "property %s, rule %s\n  key: %s|%s\n  %s\n", id, v.rule, v.rule, v.key, v.msg)
			if v.where != "" {
				fmt.Fprintf(&b, "  at %s\n", v.where)
			}
			if len(v.trace) > 0 {
				fmt.Fprintf(&b, "  path:\n")
				for _, t := range v.trace {
					if len(t) > 300 {
						t = t[:300] + "..."
					}
					fmt.Fprintf(&b, "    %s\n", t)
				}
			}
			b.WriteString("\n")
		}
		os.WriteFile(vf, []byte(b.String()), 0o644)
		for _, v := range bad {
			fmt.Printf("%s: %s: %s [%s|%s]\n", v.where, v.rule, v.msg, v.rule, v.key)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, vf)
		return 1
	}
	fmt.Printf("%s: holds on everything analysed (%.1f s)\n", id, time.Since(start).Seconds())
	return 0
}

func (c *Ctx) writeEvidence(start time.Time, nviol, nknown int) {
	cov := c.cov
	fns, sites := map[string]bool{}, 0
	steps, states, merged, roots := 0, 0, 0, 0
	var rootNames []string
	for _, e := range c.engines {
		for f := range e.fns {
			fns[shortName(f.String())] = true
		}
		sites += len(e.callSites)
		steps += e.steps
		states += e.states
		merged += e.merged
		roots += len(e.roots)
		for _, r := range e.roots {
			rootNames = append(rootNames, r.name)
		}
	}
	if len(c.engines) > 0 {
		cov["functions_analysed"] = len(fns)
		cov["call_sites_analysed"] = sites
		cov["abstract_states"] = states
		cov["merged_states"] = merged
		cov["transfer_steps"] = steps
		cov["activities"] = roots
		if len(rootNames) > 60 {
			rootNames = rootNames[:60]
		}
		cov["activity_names"] = rootNames
		var fl []string
		for f := range fns {
			fl = append(fl, f)
		}
		sort.Strings(fl)
		cov["functions"] = fl
	}
	if c.p != nil {
		cov["packages_loaded"] = len(c.p.Pkgs)
		cov["repository_functions"] = len(c.p.Funcs)
	}
	cov["instances"] = c.count
	cov["samples"] = c.samples
	cov["known_findings"] = nknown
	if c.explain == "" {
		c.explain = "static analysis"
	}
	cov["explanation"] = c.explain
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": c.id, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": nviol,
		"assumptions": append([]string{"the Go type checker and SSA construction (golang.org/x/tools) represent the program faithfully",
			"library calls outside of the repository behave as modelled in sa/models.go and call.go"}, c.assume...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
