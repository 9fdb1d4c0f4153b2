package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "code under test")
	root := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", "", "quick or thorough")
	filter := flag.String("job", "", "only jobs whose name matches this expression")
	par := flag.Int("p", runtime.NumCPU(), "parallel jobs")
	verbose := flag.Bool("v", false, "print every job")
	noNative := flag.Bool("nonative", false, "skip native runs")
	flag.Parse()
	if flag.NArg() < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym [flags] check PROPERTY... | replay FILE")
		os.Exit(2)
	}
	t := *tier
	if t == "" {
		t = os.Getenv("VERIF_TIER")
	}
	if t != "thorough" {
		t = "quick"
	}
	switch flag.Arg(0) {
	case "check":
		rc := 0
		for _, p := range flag.Args()[1:] {
			c := &Check{repo: *repo, root: *root, tier: t, prop: p, filter: *filter, par: *par, verbose: *verbose, noNative: *noNative}
			if r := c.run(); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	case "replay":
		os.Exit(replay(*repo, *root, flag.Arg(1)))
	}
	os.Exit(2)
}

type Check struct {
	repo, root, tier, prop, filter string
	par                            int
	verbose, noNative              bool
}

func replay(repo, root, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Println(err)
		return 2
	}
	_, funcs, err := loadJobs(filepath.Join(root, "harness"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	env, err := newEnv(repo, filepath.Join(root, "harness"), funcs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer env.close()
	if err := env.runNative(c.Pkg, []*Case{&c}); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %s %s\n", c.Harness, c.Status, c.Got)
	if c.reproduced() {
		return 1
	}
	return 0
}

// directives collects the lines "//gosym:<kind> <prop> text" of the harness.
func directives(root, kind, prop string) []string {
	var res []string
	files, _ := filepath.Glob(filepath.Join(root, "harness", "*", "*.go"))
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			pre := "//gosym:" + kind + " " + prop + " "
			if strings.HasPrefix(l, pre) {
				res = append(res, strings.TrimSpace(l[len(pre):]))
			}
		}
	}
	return res
}

type knownFinding struct {
	prop string
	re   *regexp.Regexp
	text string
}

// known findings: "known: property=<id> match=<regexp over harness: message> what fails"
func loadKnown(root string) []knownFinding {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var res []knownFinding
	sc := bufio.NewScanner(f)
	re := regexp.MustCompile(`^known: property=(\S+) match=(\S+) (.*)$`)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			if r, err := regexp.Compile(m[2]); err == nil {
				res = append(res, knownFinding{m[1], r, m[3]})
			}
		}
	}
	return res
}

func (c *Check) run() int {
	t0 := time.Now()
	stats = SolverStats{}
	jobs, funcs, err := loadJobs(filepath.Join(c.root, "harness"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	var sel []*Job
	var flt *regexp.Regexp
	if c.filter != "" {
		flt = regexp.MustCompile(c.filter)
	}
	for _, j := range jobs {
		if j.Prop != c.prop || j.Thorough && c.tier != "thorough" {
			continue
		}
		if flt != nil && !flt.MatchString(j.name()) {
			continue
		}
		if c.tier == "thorough" {
			j.TimeS *= 4
			j.Samples *= 2
		}
		sel = append(sel, j)
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "gosym: no jobs for", c.prop)
		return 2
	}
	env, err := newEnv(c.repo, filepath.Join(c.root, "harness"), funcs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	defer env.close()
	ov, err := env.overlay(false)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	// native harnesses build while the symbolic side loads
	var bw sync.WaitGroup
	if !c.noNative {
		pk := map[string]bool{}
		for _, j := range sel {
			pk[j.Pkg] = true
		}
		for n := range pk {
			bw.Add(1)
			go func(n string) { defer bw.Done(); env.testBin(n) }(n)
		}
	}
	prog, err := loadProgram(env.src(), env.withPWD(env.src()), ov, ".", "./radolan2png", "./radolan2png/vis")
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym: load:", err)
		return 2
	}
	loadMs := time.Since(t0).Milliseconds()
	budget = time.Time{}
	env.until = t0.Add(24 * time.Hour)
	if c.tier != "thorough" {
		budget = t0.Add(420 * time.Second)
		env.until = t0.Add(720 * time.Second)
	}
	go watchdog()

	ch := make(chan *Job)
	var wg sync.WaitGroup
	var pm sync.Mutex
	enough.Store(false)
	for i := 0; i < c.par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				j.run(prog, pkgPathOf(j.Pkg))
				if c.verbose {
					pm.Lock()
					fmt.Fprintf(os.Stderr, "%-60s paths=%d asserts=%d ok=%d unk=%d cand=%d cuts=%v steps=%d forks=%d merges=%d %dms\n", j.name(), j.Paths, j.Asserts, j.Discharged, len(j.Unknown), len(j.cands), j.Cuts, j.Steps, j.Forks, j.Merges, j.WallMs)
					pm.Unlock()
				}
			}
		}()
	}
	go func() {
		for _, j := range sel {
			ch <- j
		}
		close(ch)
	}()
	done := make(chan bool)
	go func() {
		wg.Wait()
		close(done)
	}()
	c.early(sel, env, done)
	bw.Wait()

	// native runs: candidates, then samples
	var nativeErr string
	var all []*Case
	byPkg := map[string][]*Case{}
	for _, j := range sel {
		all = append(all, j.cands...)
	}
	for _, j := range sel {
		all = append(all, j.probes...)
	}
	for _, j := range sel {
		all = append(all, j.samples...)
	}
	for _, cs := range all {
		byPkg[cs.Pkg] = append(byPkg[cs.Pkg], cs)
	}
	if !c.noNative {
		for _, n := range sortedKeys(byPkg) {
			if err := env.runNative(n, byPkg[n]); err != nil {
				nativeErr = err.Error()
				fmt.Fprintln(os.Stderr, "gosym:", err)
			}
		}
	}
	known := loadKnown(c.root)
	validated, mismatch, unrepro, probes := 0, 0, 0, 0
	var viol []*Case
	knownHit := map[string]bool{}
	var mism []string
	for _, cs := range all {
		if cs.Status == "" {
			continue
		}
		switch {
		case cs.kind == "sample" && cs.Status == "hang": // judged by the symbolic side
		case cs.kind == "probe" && cs.Status != "fail" && cs.Status != "panic":
			probes++
		case cs.kind == "violation" && !cs.reproduced():
			unrepro++
			fmt.Fprintf(os.Stderr, "gosym: not reproduced natively (%s): %s %v: %s %v\n", cs.Status, cs.Harness, cs.Params, cs.Msg, cs.Inputs)
		case cs.reproduced() && !(cs.kind == "sample" && cs.Real):
			isKnown := false
			for _, k := range known {
				if k.prop == c.prop && k.re.MatchString(cs.Harness+": "+cs.Got) {
					knownHit[k.text] = true
					isKnown = true
				}
			}
			if !isKnown {
				viol = append(viol, cs)
			}
		case cs.kind == "sample":
			ok := cs.Status == "ok" && obsEqual(cs)
			if ok {
				validated++
			} else {
				mismatch++
				m := fmt.Sprintf("%s %v inputs %s: engine %v native %s %s %v", cs.Harness, cs.Params, brief(cs.Inputs), cs.Obs, cs.Status, cs.Got, cs.GotObs)
				mism = append(mism, tail(m, 800))
				fmt.Fprintln(os.Stderr, "gosym: trace differs:", tail(m, 1500))
			}
		}
	}
	replays := filepath.Join(c.root, "evidence", "replays")
	os.MkdirAll(replays, 0o755)
	old, _ := filepath.Glob(filepath.Join(replays, c.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	first := ""
	for i, v := range viol {
		if i >= 20 {
			break
		}
		b, _ := json.MarshalIndent(v, "", " ")
		f := filepath.Join(replays, fmt.Sprintf("%s-%d.json", c.prop, i))
		os.WriteFile(f, b, 0o644)
		if first == "" {
			first = f
		}
		fmt.Fprintf(os.Stderr, "violation: %s %v: %s (native: %s %s)\n", v.Harness, v.Params, v.Msg, v.Status, tail(v.Got, 300))
	}
	c.evidence(sel, t0, loadMs, validated, mismatch, unrepro, probes, len(viol), mism, nativeErr, prog)
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
	}
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, first)
		return 1
	}
	if nativeErr != "" {
		return 2
	}
	return 0
}

// early runs candidates natively while the symbolic side is at work, and stops
// it when enough are reproduced.
func (c *Check) early(sel []*Job, env *Env, done chan bool) {
	if c.noNative {
		<-done
		return
	}
	known := loadKnown(c.root)
	tried := map[*Job]bool{}
	good := 0
	for {
		select {
		case <-done:
			return
		case <-time.After(3 * time.Second):
		}
		byPkg := map[string][]*Case{}
		n := 0
		for _, j := range sel {
			if tried[j] || n >= 6 {
				continue
			}
			j.mu.Lock()
			for _, cs := range append(append([]*Case(nil), j.cands...), j.probes...) {
				cp := *cs
				byPkg[cs.Pkg] = append(byPkg[cs.Pkg], &cp)
				tried[j] = true
				n++
				break
			}
			j.mu.Unlock()
		}
		for _, p := range sortedKeys(byPkg) {
			if err := env.runNative(p, byPkg[p]); err != nil {
				continue
			}
		next:
			for _, cs := range byPkg[p] {
				if cs.Status != "fail" && cs.Status != "panic" {
					continue
				}
				for _, k := range known {
					if k.prop == c.prop && k.re.MatchString(cs.Harness+": "+cs.Got) {
						continue next
					}
				}
				good++
			}
		}
		if good >= 3 {
			enough.Store(true)
			<-done
			return
		}
	}
}

func brief(m map[string]uint64) string {
	var ss []string
	for _, k := range sortedKeys(m) {
		ss = append(ss, fmt.Sprintf("%s:%d", k, m[k]))
		if len(ss) > 40 {
			ss = append(ss, "...")
			break
		}
	}
	return strings.Join(ss, " ")
}

func obsEqual(c *Case) bool {
	if len(c.Obs) != len(c.GotObs) {
		return false
	}
	for i := range c.Obs {
		if c.Obs[i] == c.GotObs[i] || strings.Contains(c.Obs[i], "?") {
			continue
		}
		if c.Real {
			a, b := c.Obs[i], c.GotObs[i]
			ia, ib := strings.IndexByte(a, '='), strings.IndexByte(b, '=')
			fa, e1 := strconv.ParseFloat(a[ia+1:], 64)
			fb, e2 := strconv.ParseFloat(b[ib+1:], 64)
			if e1 == nil && e2 == nil && a[:ia] == b[:ib] && (abs(fa-fb) <= 1e-4*max(1, abs(fa))) {
				continue
			}
		}
		return false
	}
	return true
}

func abs(f float64) float64 {
	if f < 0 {
		return -f
	}
	return f
}

func (c *Check) evidence(sel []*Job, t0 time.Time, loadMs int64, validated, mismatch, unrepro, probes, nviol int, mism []string, nativeErr string, prog *Program) {
	var paths, panics, steps, forks, merges, asserts, disch, unk int64
	cuts := map[string]int{}
	cov := map[string]bool{}
	reach := map[string]bool{}
	msgs := map[string]int{}
	var samples []any
	var per []any
	vac := []string{}
	for _, j := range sel {
		paths += j.Paths
		panics += j.Panics
		steps += j.Steps
		forks += j.Forks
		merges += j.Merges
		asserts += j.Asserts
		disch += j.Discharged
		unk += int64(len(j.Unknown))
		for k, v := range j.Cuts {
			cuts[k] += v
		}
		for k := range j.Covered {
			if strings.Contains(k, modPath) && !strings.Contains(k, ".zzv") {
				cov[strings.ReplaceAll(k, modPath, "radolan")] = true
			}
		}
		for k := range j.reached {
			reach[k] = true
		}
		for k, v := range j.assertMsgs {
			msgs[k] += v
		}
		if j.Asserts == 0 || j.Paths == 0 {
			vac = append(vac, j.name())
		}
		for _, s := range j.samples {
			if len(samples) < 6 {
				samples = append(samples, map[string]any{"harness": s.Harness, "params": s.Params, "inputs": brief(s.Inputs), "observed": clip(s.GotObs), "native": s.Status})
			}
		}
		per = append(per, map[string]any{"job": j.name(), "paths": j.Paths, "assertions": j.Asserts, "discharged": j.Discharged, "undecided": len(j.Unknown), "cuts": j.Cuts, "steps": j.Steps, "wall_ms": j.WallMs, "mode": map[bool]string{true: "real arithmetic", false: "bit-precise"}[j.Real]})
	}
	if len(vac) > 0 {
		fmt.Fprintln(os.Stderr, "gosym: WARNING vacuous:", strings.Join(vac, " "))
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "model_checking", "wall_s": float64(time.Since(t0).Milliseconds()) / 1000, "violations": nviol,
		"assumptions": append(directives(c.root, "assume", c.prop), "A panic, a failed assertion or a differing result counts as a violation only after it was reproduced by the compiled code."),
		"coverage": map[string]any{
			"states": paths + panics + forks, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
			"paths": paths, "merges": merges, "assertions_evaluated": asserts, "assertions_discharged": disch, "assertions_undecided": unk, "assertion_kinds": msgs,
			"functions_encoded": sortedKeys(cov), "reached": sortedKeys(reach), "vacuous_jobs": vac,
			"bounds":           directives(c.root, "bound", c.prop),
			"cuts":             cuts,
			"queries":          map[string]any{"solver": stats.Queries, "sat": stats.SatN, "unsat": stats.UnsatN, "unknown": stats.UnknownN, "answered_by_cache": stats.CacheHits, "answered_up_to_renaming": stats.ShapeHits, "answered_by_model": stats.ModelHits, "answered_by_value_table": stats.TableHits + stats.Small, "portfolio": stats.Portfolio, "solver_seconds": float64(stats.Nanos) / 1e9},
			"trace_mismatches": mismatch, "mismatch_detail": mism, "unreproduced_counterexamples": unrepro, "unfinished_paths_run_natively": probes, "native_error": nativeErr,
			"jobs": per, "load_ms": loadMs,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.root, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
}

func clip(ss []string) []string {
	var r []string
	for _, s := range ss {
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		r = append(r, s)
	}
	return r
}
