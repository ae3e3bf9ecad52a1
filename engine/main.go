package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type module struct {
	name string // harness directory
	dir  string // below the repository
	path string
}

var modules = []module{
	{"v2", "v2", "github.com/webability-go/xcore/v2"},
	{"v1", "", "github.com/webability-go/xcore"},
}

type finding struct{ prop, match, text string }

func readFindings(f string) []finding {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		// open: property=<id> match="<text>" <what fails>
		if !strings.HasPrefix(l, "open: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "open: property=")
		i := strings.IndexByte(l, ' ')
		j := strings.Index(l, `match="`)
		if i < 0 || j < 0 {
			continue
		}
		k := strings.Index(l[j+7:], `"`)
		r = append(r, finding{l[:i], l[j+7 : j+7+k], strings.TrimSpace(l[j+7+k+1:])})
	}
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework")
	budgetS := flag.Int("budget", 0, "seconds for the exploration")
	only := flag.String("only", "", "only this harness")
	dbg := flag.Bool("debug", false, "debug output")
	workers := flag.Int("workers", 8, "parallel workers")
	replay := flag.String("replay", "", "replay a trace file natively")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &check{prop: *prop, tier: *tier, repo: *repo, verif: *verif, seed: seed, budget: *budgetS, only: *only, debug: *dbg, workers: *workers}
	if c.budget == 0 {
		c.budget = 150
		if *tier == "thorough" {
			c.budget = 3000
		}
	}
	scratch, err := os.MkdirTemp("", "xsym-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c.scratch = scratch
	code := 2
	func() {
		defer os.RemoveAll(scratch)
		defer func() {
			if r := recover(); r != nil && !c.debug {
				fmt.Fprintln(os.Stderr, "check failed:", r)
				code = 2
			} else if r != nil {
				panic(r)
			}
		}()
		if *replay != "" {
			code = c.replayFile(*replay)
		} else {
			code = c.main()
		}
	}()
	os.Exit(code)
}

type check struct {
	prop, tier, repo, verif, scratch, only string
	seed                                   int64
	budget                                 int
	debug                                  bool
	workers                                int
	env                                    []string
}

func (c *check) setup(md module) (modDir, modfile, hdir string, err error) {
	modDir = filepath.Join(c.repo, md.dir)
	hdir = filepath.Join(c.verif, "harness", md.name)
	d := filepath.Join(c.scratch, "mod-"+md.name)
	if err = os.MkdirAll(d, 0755); err != nil {
		return
	}
	gm, err := os.ReadFile(filepath.Join(modDir, "go.mod"))
	if err != nil {
		return
	}
	gs, _ := os.ReadFile(filepath.Join(modDir, "go.sum"))
	extra, _ := os.ReadFile(filepath.Join(c.verif, "harness", md.name, "extra.sum"))
	if len(gs) > 0 && gs[len(gs)-1] != '\n' {
		gs = append(gs, '\n')
	}
	lines := strings.Split(string(gs)+string(extra), "\n")
	sort.Strings(lines)
	var u []string
	for i, l := range lines {
		if l != "" && (i == 0 || lines[i-1] != l) {
			u = append(u, l)
		}
	}
	modfile = filepath.Join(d, "go.mod")
	if err = os.WriteFile(modfile, gm, 0644); err != nil {
		return
	}
	err = os.WriteFile(filepath.Join(d, "go.sum"), []byte(strings.Join(u, "\n")+"\n"), 0644)
	c.env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
	return
}

func (c *check) solver() []string {
	if s := os.Getenv("XSYM_SOLVER"); s != "" {
		return strings.Fields(s)
	}
	for _, s := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(s); err == nil {
			return []string{p, "-in", "-smt2"}
		}
	}
	panic("no SMT solver found")
}

// names of the harness functions, from the source text
func harnessNames(hdir, prefix string) []string {
	fs, _ := filepath.Glob(filepath.Join(hdir, "*.go"))
	var r []string
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func "+prefix) {
				n := strings.TrimPrefix(l, "func ")
				if i := strings.Index(n, "() {"); i > 0 {
					r = append(r, n[:i])
				}
			}
		}
	}
	sort.Strings(r)
	return r
}

func (c *check) replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf struct {
		Module string `json:"module"`
		Trace  *Trace `json:"trace"`
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, md := range modules {
		if md.name != rf.Module {
			continue
		}
		modDir, modfile, hdir, err := c.setup(md)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		nb := &NativeBuild{scratch: c.scratch, modDir: modDir, modPath: md.path, verif: c.verif, hdir: hdir, env: c.env, modfile: modfile, names: []string{rf.Trace.Harness}, bins: map[bool]string{}}
		ok, res, err := c.reproduce(nb, rf.Trace)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: %s\n", res.Status, res.Msg)
		if ok {
			return 1
		}
		return 0
	}
	return 2
}

func failing(s string) bool {
	return s == "fail" || s == "panic" || s == "crash" || s == "race" || s == "deadlock" || s == "hang"
}

// reproduce runs a counterexample on the real code.
func (c *check) reproduce(nb *NativeBuild, t *Trace) (bool, NResult, error) {
	race := strings.HasPrefix(t.Msg, "data race")
	tries := 1
	if t.MapDep {
		tries = 60
	}
	var ts []*Trace
	for i := 0; i < tries; i++ {
		ts = append(ts, t)
	}
	if race && tries > 5 {
		ts = ts[:5]
	}
	rs, err := nb.run(ts, race, 30*time.Second)
	if err != nil {
		return false, NResult{}, err
	}
	for _, r := range rs {
		if failing(r.Status) {
			return true, r, nil
		}
	}
	return false, rs[0], nil
}

func (c *check) main() int {
	t0 := time.Now()
	evf := filepath.Join(c.verif, "evidence", c.prop+".json")
	os.MkdirAll(filepath.Dir(evf), 0755)
	outDir := filepath.Join(c.verif, "out", c.prop)
	os.RemoveAll(outDir)
	type hres struct {
		md module
		hr *HarnessRun
	}
	var all []hres
	samples := []any{}
	assumptions := map[string]bool{}
	var problems []string
	validated, mismatches, probesRun := 0, 0, 0
	type viol struct {
		md  module
		t   *Trace
		res NResult
	}
	var viols []viol
	unrepro := 0
	found := false
	deadline := t0.Add(time.Duration(c.budget) * time.Second)
	solverCmd := c.solver()
	for _, md := range modules {
		names := harnessNames(filepath.Join(c.verif, "harness", md.name), c.prop+"_")
		if c.only != "" {
			var k []string
			for _, n := range names {
				if n == c.only {
					k = append(k, n)
				}
			}
			names = k
		}
		if len(names) == 0 {
			continue
		}
		found = true
		modDir, modfile, hdir, err := c.setup(md)
		if err != nil {
			panic(err)
		}
		nb := &NativeBuild{scratch: filepath.Join(c.scratch, "nat-"+md.name), modDir: modDir, modPath: md.path, verif: c.verif, hdir: hdir, env: c.env, modfile: modfile, names: names, bins: map[bool]string{}}
		os.MkdirAll(nb.scratch, 0755)
		built := make(chan error, 1)
		go func() { _, e := nb.build(false); built <- e }()
		eng := &Engine{solverCmd: solverCmd, solverTimeout: 4000, scratch: c.scratch, maxDecisions: 4000, maxSteps: 8000000, debug: c.debug, thorough: c.tier == "thorough", workers: c.workers, seed: c.seed, modPath: md.path}
		ov, err := overlayFor(modDir, c.verif, hdir)
		if err != nil {
			panic(err)
		}
		if err := eng.load(modDir, c.env, []string{"-modfile=" + modfile, "-mod=mod"}, ov); err != nil {
			fmt.Fprintln(os.Stderr, err)
			<-built
			return 2
		}
		var ms []*Machine
		for i := 0; i < c.workers; i++ {
			ms = append(ms, newMachine(eng))
		}
		fns := eng.harnesses(c.prop + "_")
		var hrs []*HarnessRun
		k := 0
		for _, fn := range fns {
			use := false
			for _, n := range names {
				use = use || n == fn.Name()
			}
			if !use {
				continue
			}
			k++
			left := time.Until(deadline)
			share := left / time.Duration(len(names)-k+1) * 3
			if share > left {
				share = left
			}
			if share < 5*time.Second {
				share = 5 * time.Second
			}
			hr := eng.explore(ms, fn, share)
			hrs = append(hrs, hr)
			all = append(all, hres{md, hr})
			fmt.Printf("%s: paths=%d infeasible=%d violations=%d unsupported=%d bound=%d solverfail=%d left=%d asserts=%d queries=%d unsat=%d solver=%.1fs wall=%.1fs maxsteps=%d depth=%d\n",
				hr.Name, hr.Completed, hr.Infeasible, len(hr.Violations), total(hr.Unsupported), total(hr.Bounded), total(hr.SolverFail), hr.Left, hr.Asserts, hr.Queries, hr.NUnsat, hr.SolverTime.Seconds(), hr.Wall.Seconds(), hr.MaxSteps, hr.MaxTrail)
			for _, mm := range []map[string]int{hr.Unsupported, hr.Bounded, hr.SolverFail, hr.UnkAssert} {
				for i, m := range sortedKeys(mm) {
					if i == 6 {
						fmt.Printf("  reduced bound: ... %d more\n", len(mm)-i)
						break
					}
					fmt.Printf("  reduced bound: %d x %s\n", mm[m], m)
				}
			}
		}
		for _, m := range ms {
			m.sol.Close()
		}
		if err := <-built; err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		// replay of counterexamples
		for _, hr := range hrs {
			for a := range hr.Assumptions {
				assumptions[a] = true
			}
			seen := map[string]bool{}
			for _, t := range hr.Violations {
				if seen[t.Msg] {
					continue
				}
				ok, res, err := c.reproduce(nb, t)
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					return 2
				}
				if ok {
					seen[t.Msg] = true
					viols = append(viols, viol{md, t, res})
				} else {
					unrepro++
					fmt.Printf("  not reproduced natively: %s: %q (native: %s %s)\n", hr.Name, t.Msg, res.Status, res.Msg)
					problems = append(problems, fmt.Sprintf("%s: counterexample %q of the encoding did not reproduce on the real code (%s %s)", hr.Name, t.Msg, res.Status, res.Msg))
					if c.debug {
						j, _ := json.Marshal(t)
						fmt.Printf("  trace %s\n", j)
					}
				}
			}
			// validation of the translation on completed paths, and unfinished paths
			ts := append(append([]*Trace{}, hr.Samples...), hr.Probes...)
			if len(ts) == 0 {
				continue
			}
			rs, err := nb.run(ts, false, 60*time.Second)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			shown := 0
			for i, r := range rs {
				t := ts[i]
				probe := i >= len(hr.Samples)
				switch {
				case failing(r.Status):
					t.Msg = r.Msg
					if !seen[t.Msg] && len(seen) < 5 {
						seen[t.Msg] = true
						viols = append(viols, viol{md, t, r})
					}
					if !probe {
						mismatches++
					}
				case r.Status == "skipped":
				case probe:
					probesRun++
				case t.MapDep && r.Status == "mismatch":
					// the schedule depends on the iteration order of a map,
					// which cannot be replayed
				case r.Status != "ok" || !t.MapDep && strings.Join(r.Obs, "\n") != strings.Join(t.Obs, "\n"):
					mismatches++
					if shown < 3 {
						shown++
						fmt.Printf("  translation mismatch in %s: native %s %s\n   symbolic %v\n   native   %v\n", hr.Name, r.Status, r.Msg, t.Obs, r.Obs)
						if c.debug {
							j, _ := json.Marshal(t)
							fmt.Printf("  trace %s\n", j)
						}
					}
				default:
					validated++
				}
			}
			if len(hr.Samples) > 0 {
				s := hr.Samples[len(hr.Samples)/2]
				samples = append(samples, map[string]any{"harness": s.Harness, "inputs": readable(s), "schedule": s.Sched, "observed": s.Obs})
			}
		}
	}
	if !found {
		fmt.Fprintln(os.Stderr, "no harness for", c.prop)
		return 2
	}
	// summary
	var states, edges, asserts, trivial int64
	var q, ns, nu, nk, completed, infeasible, left int
	var st time.Duration
	funcs := map[string]bool{}
	bounds := map[string]int{}
	hlist := []any{}
	for _, h := range all {
		hr := h.hr
		states += hr.States
		edges += hr.Edges
		asserts += hr.Asserts
		trivial += hr.Trivial
		q += hr.Queries
		ns += hr.NSat
		nu += hr.NUnsat
		nk += hr.NUnk
		st += hr.SolverTime
		completed += hr.Completed
		infeasible += hr.Infeasible
		left += hr.Left
		for f := range hr.Funcs {
			funcs[f] = true
		}
		for k, v := range hr.Bounds {
			bounds[hr.Name+"."+k] = v
		}
		for m, n := range hr.Unsupported {
			problems = append(problems, fmt.Sprintf("%s: %d paths left the supported subset: %s", hr.Name, n, m))
		}
		for m, n := range hr.Bounded {
			problems = append(problems, fmt.Sprintf("%s: %d paths cut by the %s", hr.Name, n, m))
		}
		for m, n := range hr.SolverFail {
			problems = append(problems, fmt.Sprintf("%s: %d paths: solver: %s", hr.Name, n, m))
		}
		for m, n := range hr.UnkAssert {
			problems = append(problems, fmt.Sprintf("%s: %d assertions undecided: %s", hr.Name, n, m))
		}
		if hr.Left > 0 && len(hr.Violations) == 0 {
			problems = append(problems, fmt.Sprintf("%s: %d branches unexplored when the time budget ended", hr.Name, hr.Left))
		}
		if hr.Completed == 0 && len(hr.Violations) == 0 {
			problems = append(problems, hr.Name+": no path completed (vacuous)")
		}
		hlist = append(hlist, map[string]any{"name": hr.Name, "module": h.md.name, "paths": hr.Completed, "infeasible": hr.Infeasible, "assertions_checked": hr.Asserts,
			"reached": hr.Covers, "queries": hr.Queries, "solver_s": round3(hr.SolverTime.Seconds()), "wall_s": round3(hr.Wall.Seconds()), "longest_path_instructions": hr.MaxSteps, "deepest_decision": hr.MaxTrail, "unexplored": hr.Left})
	}
	sort.Strings(problems)
	// verdict
	code := 0
	known := readFindings(filepath.Join(c.verif, "known-findings.txt"))
	nviol := 0
	for i, v := range viols {
		if k := matchFinding(known, c.prop, v.t); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.text)
			continue
		}
		nviol++
		code = 1
		os.MkdirAll(outDir, 0755)
		f := filepath.Join(outDir, fmt.Sprintf("violation-%d.json", i))
		j, _ := json.MarshalIndent(map[string]any{"property": c.prop, "module": v.md.name, "message": v.t.Msg, "native": v.res, "inputs": readable(v.t), "trace": v.t,
			"replay_with": "bash /verif/run.sh --replay " + f}, "", " ")
		os.WriteFile(f, j, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f)
		fmt.Printf("  %s: %s\n  native: %s %s\n  inputs: %v schedule: %v\n", v.t.Harness, v.t.Msg, v.res.Status, firstLines(v.res.Msg, 12), readable(v.t), v.t.Sched)
	}
	cov := map[string]any{
		"states": states, "transitions": edges, "traces_validated_against_impl": validated, "samples": samples,
		"states_meaning":                  "nodes of the symbolic execution trees (each stands for all inputs satisfying its path condition)",
		"functions_encoded":               keys(funcs),
		"bounds":                          bounds,
		"queries":                         q,
		"queries_sat":                     ns,
		"queries_unsat":                   nu,
		"queries_unknown":                 nk,
		"solver":                          strings.Join(solverCmd, " "),
		"solver_time_s":                   round3(st.Seconds()),
		"symbolic_paths_completed":        completed,
		"paths_infeasible":                infeasible,
		"assertions_checked":              asserts,
		"assertions_decided_by_rewriting": trivial,
		"translation_mismatches":          mismatches,
		"unfinished_paths_run_natively":   probesRun,
		"counterexamples_not_reproduced":  unrepro,
		"harnesses":                       hlist,
		"reduced_bounds":                  nz(problems),
		"exhaustive":                      len(problems) == 0,
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"assumptions": keys(assumptions), "wall_s": round3(time.Since(t0).Seconds()), "violations": nviol}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evf, append(j, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, p := range problems {
		fmt.Println("  note:", p)
	}
	fmt.Printf("%s %s: states=%d transitions=%d paths=%d asserts=%d queries=%d (unsat %d) solver=%.1fs validated=%d mismatches=%d wall=%.1fs\n",
		c.prop, c.tier, states, edges, completed, asserts, q, nu, st.Seconds(), validated, mismatches, time.Since(t0).Seconds())
	if code == 0 && completed == 0 && probesRun == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	return code
}

func matchFinding(fs []finding, prop string, t *Trace) *finding {
	for i := range fs {
		if fs[i].prop == prop && strings.Contains(t.Harness+": "+t.Msg, fs[i].match) {
			return &fs[i]
		}
	}
	return nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n    ")
}

func nz(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func total(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

// readable inputs of a trace
func readable(t *Trace) []string {
	var r []string
	for _, n := range t.Order {
		v := t.Tape[n]
		if t.Kinds[n] == "str" {
			b := make([]byte, len(v)/2)
			for i := range b {
				x, _ := strconv.ParseUint(v[2*i:2*i+2], 16, 8)
				b[i] = byte(x)
			}
			v = strconv.Quote(string(b))
		}
		r = append(r, n+"="+v)
	}
	return r
}

var _ = bytes.NewReader
