package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Obligation is one instance of a rule decided on the current source.
type Obligation struct {
	Key    string `json:"key"` // rule + construct, never a line number
	OK     bool   `json:"ok"`
	Where  string `json:"where,omitempty"`
	Detail string `json:"detail,omitempty"`
}

type Report struct {
	known    map[string]finding
	check    check
	failed   int
	P        *Program
	ID       string
	Tier     string
	mu       sync.Mutex
	obs      map[string]*Obligation
	rules    map[string]string
	analysed map[string]int // function -> number of abstract evaluations
	steps    int
	runs     int
	assume   []string
	minObs   int
	extra    map[string]any
}

func (R *Report) thorough() bool { return R.Tier == "thorough" }

func (R *Report) rule(name, text string) {
	R.mu.Lock()
	R.rules[name] = text
	R.mu.Unlock()
}

func (R *Report) assumption(s string) {
	R.mu.Lock()
	defer R.mu.Unlock()
	for _, a := range R.assume {
		if a == s {
			return
		}
	}
	R.assume = append(R.assume, s)
}

// ob records an obligation. A key recorded twice fails if any instance fails.
func (R *Report) ob(key string, ok bool, where, detail string) bool {
	if _, known := R.known[key]; !known {
		key += currentJob().suffix()
	}
	if j := currentJob(); !ok && j != nil && j.longer > 0 && j.sat.Load() {
		return true // too long a list to follow: nothing is said
	}
	R.mu.Lock()
	defer R.mu.Unlock()
	o := R.obs[key]
	if !ok {
		if _, known := R.known[key]; !known {
			R.failed++
		}
	}
	if o == nil {
		R.obs[key] = &Obligation{Key: key, OK: ok, Where: where, Detail: detail}
		return ok
	}
	if o.OK && !ok {
		o.OK, o.Where, o.Detail = false, where, detail
	}
	return ok
}

// stopJobs makes par skip the jobs that have not begun.
var stopJobs atomic.Bool

// watch ends an analysis that takes too long: no new jobs are begun when
// enough is known to be wrong or most of the time is over; when even the
// running ones do not end, what is known is reported.
func (R *Report) watch(start time.Time, done chan bool) {
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}
		el := time.Since(start)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		R.mu.Lock()
		n := R.failed
		R.mu.Unlock()
		if n > 0 && (el > 120*time.Second || n > 100 && el > 30*time.Second) || el > 600*time.Second || m.HeapAlloc > 16<<30 {
			stopJobs.Store(true)
		}
		if n > 0 && el > 240*time.Second || el > 720*time.Second || m.HeapAlloc > 22<<30 {
			R.mu.Lock() // kept: nothing more is recorded
			if n == 0 {
				R.obs["unfinished"] = &Obligation{Key: "unfinished", Where: "-", Detail: "the analysis did not come to an end: the code has more states than it can follow"}
			}
			os.Exit(R.finish(start))
		}
	}
}

func (R *Report) fail(key, where, detail string) { R.ob(key, false, where, detail) }

// absorb accounts for the functions an interpreter run visited.
func (R *Report) absorb(in *Interp) {
	R.mu.Lock()
	defer R.mu.Unlock()
	R.runs++
	R.steps += in.steps
	for f, n := range in.visited {
		if pk := fnPkg(f); pk != nil && R.P.inRepo(pk) {
			R.analysed[f.String()] += n
		}
	}
}

// par runs jobs on all cores.
func par(jobs []func()) {
	n := 8
	ch := make(chan func())
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var perr any
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				func() {
					defer func() {
						if e := recover(); e != nil {
							pmu.Lock()
							if perr == nil {
								perr = fmt.Sprintf("%v\n%s", e, debug.Stack())
							}
							pmu.Unlock()
						}
					}()
					runCase(f)
				}()
			}
		}()
	}
	for _, f := range jobs {
		if stopJobs.Load() {
			break
		}
		ch <- f
	}
	close(ch)
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
}

type finding struct {
	prop, key, text string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe)) // /verif/bin/checker
		if _, err := os.Stat(filepath.Join(d, "MANIFEST.json")); err == nil {
			return d
		}
	}
	return "/verif"
}

// known-findings.txt:
//
//	finding: property=<id> key=<obligation key, %20 for blanks> | <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding:"), "|")
		f := finding{text: strings.TrimSpace(text)}
		for _, w := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				f.prop = v
			}
			if v, ok := strings.CutPrefix(w, "key="); ok {
				f.key = strings.ReplaceAll(v, "%20", " ")
			}
		}
		fs = append(fs, f)
	}
	return fs
}

type check struct {
	id    string
	title string
	level string
	run   func(R *Report)
}

var checks []check

func register(id, title string, run func(R *Report)) {
	checks = append(checks, check{id, title, "other", run})
}

func runCheck(P *Program, loadErr error, c check, tier string) int {
	start := time.Now()
	R := &Report{P: P, ID: c.id, Tier: tier, obs: map[string]*Obligation{}, rules: map[string]string{}, analysed: map[string]int{}, extra: map[string]any{}, known: map[string]finding{}, check: c}
	for _, f := range loadFindings() {
		if f.prop == c.id {
			R.known[f.key] = f
		}
	}
	if loadErr != nil {
		R.fail("load", "-", "the tree does not load or type-check: "+loadErr.Error())
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					R.fail("internal", "-", fmt.Sprintf("the analysis stopped: %v\n%s", e, debug.Stack()))
				}
			}()
			done := make(chan bool)
			stopJobs.Store(false)
			R.startSpecial()
			go R.watch(start, done)
			limitCap = maxLimit
			c.run(R)
			close(done)
			if stopJobs.Load() {
				R.mu.Lock()
				n := R.failed
				R.mu.Unlock()
				if n == 0 {
					R.fail("unfinished", "-", "the analysis did not come to an end in its time: the code has more states than it can follow")
				}
			}
		}()
		if len(R.obs) == 0 {
			R.fail("no-instances", "-", "the rule matched nothing")
		}
		if len(R.obs) < R.minObs && !stopJobs.Load() {
			R.fail("few-instances", "-", fmt.Sprintf("only %d obligations were found, at least %d expected", len(R.obs), R.minObs))
		}
	}
	return R.finish(start)
}

// finish writes the evidence and reports.
func (R *Report) finish(start time.Time) int {
	known, c, tier, P := R.known, R.check, R.Tier, R.P
	var keys []string
	for k := range R.obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad, knownBad []*Obligation
	discharged := 0
	for _, k := range keys {
		o := R.obs[k]
		if o.OK {
			discharged++
			continue
		}
		if _, ok := known[k]; ok {
			knownBad = append(knownBad, o)
			continue
		}
		bad = append(bad, o)
	}
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range R.analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []any
	step := max(1, len(keys)/12)
	for i := 0; i < len(keys) && len(samples) < 14; i += step {
		samples = append(samples, R.obs[keys[i]])
	}
	cov := map[string]any{
		"explanation":        "Static decision from the type-checked SSA form of the current /repo tree; see rules. Each obligation is one rule instance keyed by rule and construct.",
		"obligations":        len(keys),
		"discharged":         discharged,
		"known_findings":     len(knownBad),
		"rules":              R.rules,
		"abstract_runs":      R.runs,
		"abstract_steps":     R.steps,
		"functions_analysed": len(fns),
		"functions":          fns,
		"samples":            samples,
		"checker_cmd":        "bin/checker -prop " + c.id + " -tier " + tier,
		"trusted_base":       []string{"go/types and golang.org/x/tools/go/ssa v0.52.0 (front end)", "the abstract interpreter and its library models in /verif/checker", "the rule tables in /verif/checker"},
	}
	if P != nil {
		cov["packages_loaded"] = len(P.Pkgs)
		cov["repo_functions"] = len(P.Funcs)
	}
	for k, v := range R.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": c.level,
		"coverage": cov, "assumptions": R.assume, "wall_s": time.Since(start).Seconds() + loadTime.Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, c.id+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	for _, o := range knownBad {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s] %s\n", c.id, known[o.Key].text, o.Key, o.Where)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations; %d functions in %d abstract runs, %.1fs\n", c.id, len(keys), discharged, len(knownBad), len(bad), len(fns), R.runs, time.Since(start).Seconds())
	if len(bad) == 0 {
		os.Remove(filepath.Join(evDir, c.id+".replay.txt"))
		return 0
	}
	rp := filepath.Join(evDir, c.id+".replay.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\nrerun: %s\n\n", c.id, c.title, cov["checker_cmd"])
	for i, o := range bad {
		fmt.Fprintf(&sb, "VIOLATED %s\n  at %s\n  %s\n", o.Key, o.Where, o.Detail)
		if i < 12 {
			d := o.Detail
			if len(d) > 600 {
				d = d[:600] + "…"
			}
			fmt.Printf("  violated: %s\n    at %s\n    %s\n", o.Key, o.Where, d)
		}
	}
	if len(bad) > 12 {
		fmt.Printf("  … and %d more\n", len(bad)-12)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}

var loadTime time.Duration
