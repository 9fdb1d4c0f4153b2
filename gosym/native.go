package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const modPath = "gitlab.cs.fau.de/since/radolan"

// Env is the build environment: a private GOPATH that links to the code under
// test, and a private build cache.
type Env struct {
	dir     string // scratch directory
	repo    string
	harness string
	env     []string
	once    map[string]*sync.Once
	bins    map[string]string
	errs    map[string]error
	funcs   map[string][]string
	mu      sync.Mutex
	n       int
	until   time.Time // end of native runs
}

func pkgRel(name string) string {
	switch name {
	case "radolan":
		return ""
	case "vis":
		return "radolan2png/vis"
	}
	return name
}

func pkgPathOf(name string) string {
	if r := pkgRel(name); r != "" {
		return modPath + "/" + r
	}
	return modPath
}

func pkgIdent(name string) string {
	if name == "radolan2png" {
		return "main"
	}
	return name
}

func newEnv(repo, harness string, funcs map[string][]string) (*Env, error) {
	d, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		return nil, err
	}
	e := &Env{dir: d, repo: repo, harness: harness, funcs: funcs, once: map[string]*sync.Once{}, bins: map[string]string{}, errs: map[string]error{}}
	link := e.src()
	if err := os.MkdirAll(filepath.Dir(link), 0o755); err != nil {
		return nil, err
	}
	if err := os.Symlink(repo, link); err != nil {
		return nil, err
	}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GO111MODULE", "GOPATH", "GOCACHE", "GOENV", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "CGO_ENABLED", "PWD", "GOTMPDIR", "GODEBUG", "GOEXPERIMENT", "TZ":
			continue
		}
		e.env = append(e.env, kv)
	}
	e.env = append(e.env, "GO111MODULE=off", "GOPATH="+filepath.Join(d, "gopath"), "GOCACHE="+filepath.Join(d, "gocache"), "GOENV=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-buildvcs=false", "GOWORK=off", "CGO_ENABLED=0", "TZ=Europe/Berlin", "GOTMPDIR="+d)
	if c := os.Getenv("GOSYM_GOCACHE"); c != "" {
		e.env = append(e.env, "GOCACHE="+c)
	} else if _, err := os.Stat("/opt/vp/gocache"); err == nil {
		// start from a private copy of the build cache: the original is not written
		exec.Command("cp", "-a", "/opt/vp/gocache", filepath.Join(d, "gocache")).Run()
	}
	return e, nil
}

func (e *Env) close() { os.RemoveAll(e.dir) }

func (e *Env) src() string { return filepath.Join(e.dir, "gopath/src", modPath) }

func (e *Env) pkgDir(name string) string { return filepath.Join(e.src(), pkgRel(name)) }

// overlay returns the harness sources by their pretended path.
func (e *Env) overlay(tests bool) (map[string][]byte, error) {
	ov := map[string][]byte{}
	rt, err := os.ReadFile(filepath.Join(e.harness, "rt", "zzv_rt.go.txt"))
	if err != nil {
		return nil, err
	}
	tt, err := os.ReadFile(filepath.Join(e.harness, "rt", "zzv_test.go.txt"))
	if err != nil {
		return nil, err
	}
	for _, name := range []string{"radolan", "radolan2png", "vis"} {
		dir := e.pkgDir(name)
		id := pkgIdent(name)
		ov[filepath.Join(dir, "zzv_rt.go")] = bytes.Replace(rt, []byte("package PKG"), []byte("package "+id), 1)
		files, _ := filepath.Glob(filepath.Join(e.harness, name, "*.go"))
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			if strings.HasSuffix(f, "_test.go") && !tests {
				continue
			}
			ov[filepath.Join(dir, filepath.Base(f))] = b
		}
		if tests {
			var b bytes.Buffer
			b.Write(bytes.Replace(tt, []byte("package PKG"), []byte("package "+id), 1))
			b.WriteString("\nvar zzvFuncs = map[string]func(){\n")
			for _, fn := range e.funcs[name] {
				fmt.Fprintf(&b, "\t%q: %s,\n", fn, fn)
			}
			b.WriteString("}\n")
			ov[filepath.Join(dir, "zzv_verif_test.go")] = b.Bytes()
		}
	}
	return ov, nil
}

func (e *Env) withPWD(dir string) []string {
	return append(append([]string(nil), e.env...), "PWD="+dir)
}

// testBin builds the native harness of a package.
func (e *Env) testBin(name string) (string, error) {
	name, race := strings.CutSuffix(name, raceSuffix)
	key := name
	if race {
		key += raceSuffix
	}
	e.mu.Lock()
	o := e.once[key]
	if o == nil {
		o = &sync.Once{}
		e.once[key] = o
	}
	e.mu.Unlock()
	o.Do(func() {
		bin, err := e.buildTest(name, race)
		e.mu.Lock()
		e.bins[key], e.errs[key] = bin, err
		e.mu.Unlock()
	})
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.bins[key], e.errs[key]
}

const raceSuffix = " race"

func (e *Env) buildTest(name string, race bool) (string, error) {
	ov, err := e.overlay(true)
	if err != nil {
		return "", err
	}
	rep := map[string]string{}
	i := 0
	bd := filepath.Join(e.dir, "ov-"+name)
	if race {
		bd += "-race"
	}
	os.MkdirAll(bd, 0o755)
	for p, b := range ov {
		f := filepath.Join(bd, fmt.Sprintf("%d.go", i))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return "", err
		}
		rep[p] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(bd, "overlay.json")
	os.WriteFile(ovf, js, 0o644)
	bin := filepath.Join(e.dir, name+".test")
	args := []string{"test", "-vet=off", "-c", "-overlay", ovf, "-o", bin, "."}
	if race {
		bin = filepath.Join(e.dir, name+".race.test")
		args = []string{"test", "-race", "-vet=off", "-c", "-overlay", ovf, "-o", bin, "."}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = e.pkgDir(name)
	cmd.Env = e.withPWD(cmd.Dir)
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native harness of %s: %v\n%s", name, err, out)
	}
	return bin, nil
}

// runNative executes the cases (of one package) natively and fills in their outcome.
func (e *Env) runNative(name string, cases []*Case) error {
	var plain, race, again []*Case
	for _, c := range cases {
		if c.Race {
			race = append(race, c)
		} else {
			plain = append(plain, c)
		}
	}
	if err := e.runBatch(name, plain, false, 0); err != nil {
		return err
	}
	for _, c := range plain {
		if c.Status == "crash" || c.Status == "hang" {
			again = append(again, c)
		}
	}
	// a case that did not end is believed only if it does not end on its own either
	for i, c := range again {
		if i >= 3 {
			c.Status = ""
			continue
		}
		c.Status = ""
		if err := e.runBatch(name, []*Case{c}, false, 90*time.Second); err != nil {
			return err
		}
	}
	if len(race) == 0 {
		return nil
	}
	if _, err := e.testBin(name + raceSuffix); err != nil {
		fmt.Fprintln(os.Stderr, "gosym: WARNING no race detector:", tail(err.Error(), 600))
		return nil
	}
	seen := map[string]int{}
	for _, c := range race {
		k := c.Harness + c.Msg
		if seen[k]++; seen[k] > 3 {
			continue
		}
		if err := e.runBatch(name+raceSuffix, []*Case{c}, true, 60*time.Second); err != nil {
			fmt.Fprintln(os.Stderr, "gosym: WARNING race replay:", tail(err.Error(), 600))
			c.Status = ""
		}
	}
	return nil
}

func (e *Env) runBatch(name string, cases []*Case, race bool, limit time.Duration) error {
	if len(cases) == 0 {
		return nil
	}
	bin, err := e.testBin(name)
	if err != nil {
		return err
	}
	e.mu.Lock()
	e.n++
	wd := filepath.Join(e.dir, fmt.Sprintf("run-%d", e.n))
	e.mu.Unlock()
	os.MkdirAll(wd, 0o755)
	cf := filepath.Join(wd, "cases.json")
	js, err := json.Marshal(cases)
	if err != nil {
		return err
	}
	os.WriteFile(cf, js, 0o644)
	start := 0
	for start < len(cases) {
		left := 30*time.Second + time.Duration(len(cases))*200*time.Millisecond
		for _, c := range cases[start:] {
			if c.Sched {
				left += 5 * time.Second
			}
		}
		if limit > 0 {
			left = limit
		}
		if !e.until.IsZero() && time.Until(e.until) < left {
			if left = time.Until(e.until); left < 2*time.Second {
				fmt.Fprintf(os.Stderr, "gosym: WARNING time for native runs used up after %d of %d cases\n", start, len(cases))
				return nil
			}
		}
		of := filepath.Join(wd, fmt.Sprintf("out-%d", start))
		ctx, cancel := context.WithTimeout(context.Background(), left)
		cmd := exec.CommandContext(ctx, bin, "-test.run=^TestZZV$", "-test.count=1", "-test.timeout=0")
		cmd.Dir = wd
		cmd.Env = append(append([]string(nil), e.env...), "ZZV_CASES="+cf, "ZZV_OUT="+of, "ZZV_START="+strconv.Itoa(start), "ZZV_DIR="+wd, "PWD="+wd, "GOMEMLIMIT=4GiB")
		if race {
			cmd.Env = append(cmd.Env, "ZZV_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
		}
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		cmd.WaitDelay = time.Second
		cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		begun := -1
		b, _ := os.ReadFile(of)
		sc := bufio.NewScanner(bytes.NewReader(b))
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		done := start
		for sc.Scan() {
			var r struct {
				B, E int
				S, M string
				O    []string
			}
			r.B, r.E = -1, -1
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				continue
			}
			if r.B >= 0 {
				begun = r.B
			}
			if r.E >= 0 && r.E < len(cases) {
				c := cases[r.E]
				c.Status, c.Got, c.GotObs = r.S, r.M, r.O
				done = r.E + 1
				begun = -1
			}
		}
		if begun >= 0 && begun < len(cases) {
			c := cases[begun]
			c.Status = "crash"
			if timedOut {
				c.Status = "hang"
			}
			s := buf.String()
			if len(s) > 600 {
				s = s[:600]
			}
			c.Got = s
			done = begun + 1
		}
		if done == start {
			return fmt.Errorf("native run made no progress: %s", tail(buf.String(), 2000))
		}
		start = done
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// reproduced reports whether a violation candidate failed natively.
func (c *Case) reproduced() bool {
	switch c.Status {
	case "fail", "panic", "crash", "hang":
		return true
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
