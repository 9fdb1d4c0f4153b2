package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one symbolic execution of one harness function with concrete
// parameters.
type Job struct {
	Prop      string
	Harness   string
	Pkg       string // harness directory name
	Params    map[string]int
	Real      bool
	Race      bool // data races
	NoMerge   bool
	Thorough  bool
	MakeBound int
	TimeS     int
	Samples   int
	Solve     int // per-query limit in ms

	mu         sync.Mutex
	Asserts    int64
	Discharged int64
	assertMsgs map[string]int
	reached    map[string]bool
	Unknown    []string
	Paths      int64
	Panics     int64
	Cuts       map[string]int
	Steps      int64
	Forks      int64
	Merges     int64
	WallMs     int64
	Covered    map[string]bool
	probes     []*Case
	cands      []*Case
	candPer    map[string]int
	samples    []*Case
	x          *Exec
}

// Case is one concrete execution of a harness, to be run natively.
type Case struct {
	Prop    string            `json:"property"`
	Pkg     string            `json:"package"`
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Real    bool              `json:"real"`
	Inputs  map[string]uint64 `json:"inputs"`
	Msg     string            `json:"message,omitempty"`
	Obs     []string          `json:"observations,omitempty"`
	Race    bool              `json:"race,omitempty"`      // replayed under the race detector
	Sched   bool              `json:"scheduled,omitempty"` // goroutines ran: repeated
	kind    string
	// native outcome
	Status string   `json:"native_status,omitempty"`
	Got    string   `json:"native_message,omitempty"`
	GotObs []string `json:"native_observations,omitempty"`
}

func (j *Job) name() string {
	var ks []string
	for k, v := range j.Params {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	s := j.Harness
	if len(ks) > 0 {
		s += "(" + strings.Join(ks, ",") + ")"
	}
	return s
}

func (j *Job) addDischarged(n int64) {
	j.mu.Lock()
	j.Discharged += n
	j.mu.Unlock()
}

// enough is set when a violation has been reproduced natively; what is left
// to explore would not change the verdict.
var enough atomic.Bool

// budget is when symbolic execution ends.
var budget time.Time

// The watchdog stops the job with the most terms while memory is low.
var watched = struct {
	sync.Mutex
	m map[*Exec]bool
}{m: map[*Exec]bool{}}

func watch(x *Exec) {
	watched.Lock()
	watched.m[x] = true
	watched.Unlock()
}

func unwatch(x *Exec) {
	watched.Lock()
	delete(watched.m, x)
	watched.Unlock()
}

const maxRSS = 12 << 30

func watchdog() {
	debug.SetMemoryLimit(maxRSS * 3 / 4)
	for {
		time.Sleep(300 * time.Millisecond)
		b, err := os.ReadFile("/proc/self/statm")
		f := strings.Fields(string(b))
		if err != nil || len(f) < 2 {
			return
		}
		n, _ := strconv.Atoi(f[1])
		if n*os.Getpagesize() < maxRSS {
			continue
		}
		var big *Exec
		watched.Lock()
		for x := range watched.m {
			if !x.kill.Load() && (big == nil || x.memUse.Load() > big.memUse.Load()) {
				big = x
			}
		}
		watched.Unlock()
		if big != nil {
			big.kill.Store(true)
		}
		time.Sleep(time.Second)
		debug.FreeOSMemory()
	}
}

func (x *Exec) mkCase(st *State, m *Model) *Case {
	j := x.job
	c := &Case{Prop: j.Prop, Pkg: j.Pkg, Harness: j.Harness, Params: j.Params, Real: j.Real, Inputs: map[string]uint64{}}
	for _, r := range st.inputs {
		v := r.v
		if r.t != nil {
			v, _ = m.Eval(r.t)
			if r.tag == TI64 && r.t.sort.W < 64 {
				v &= mask(r.t.sort.W)
			}
		}
		c.Inputs[r.name] = v
	}
	return c
}

func (x *Exec) violation(st *State, m *Model, msg string, uncertain bool) {
	j := x.job
	j.mu.Lock()
	defer j.mu.Unlock()
	if j.candPer == nil {
		j.candPer = map[string]int{}
	}
	j.candPer[msg]++
	if j.candPer[msg] > 4 || len(j.cands) > 40 {
		return
	}
	c := x.mkCase(st, m)
	c.Msg = msg
	c.kind = "violation"
	c.Race = j.Race
	c.Sched = st.went || st.maps != "" || len(st.pending) > 0
	j.cands = append(j.cands, c)
	if debugEngine {
		b, _ := json.Marshal(c)
		fmt.Fprintln(os.Stderr, "CANDIDATE", string(b))
	}
}

// obsString formats a scalar observation exactly like the native runtime.
func obsScalar(x *Exec, m *Model, v Value, real bool) string {
	n := v.N
	switch v.K {
	case KScalar:
	case KTerm:
		t := v.term()
		if t.sort.K == SReal {
			f, ok := m.Real(t)
			if !ok {
				return "?"
			}
			return fmtFloat(f, real)
		}
		u, ok := m.Eval(t)
		if !ok {
			return "?"
		}
		n = u
		if v.T.isInt() && v.T.signed() {
			n = uint64(sx(u, t.sort.W))
		}
	case KStr:
		s := strBytes(v)
		b := make([]byte, 0, len(s))
		for _, e := range s {
			u := e.N
			if e.K == KTerm {
				var ok bool
				if u, ok = m.Eval(e.term()); !ok {
					return "?"
				}
			}
			b = append(b, byte(u))
		}
		return strconv.Quote(string(b))
	case KAgg:
		var ss []string
		for _, e := range v.agg() {
			ss = append(ss, obsScalar(x, m, e, real))
		}
		return "[" + strings.Join(ss, " ") + "]"
	default:
		return "?"
	}
	switch {
	case v.T == TBool:
		return strconv.FormatBool(n != 0)
	case v.T == TF32:
		return fmtFloat(float64(math.Float32frombits(uint32(n))), real)
	case v.T == TF64:
		return fmtFloat(math.Float64frombits(n), real)
	case v.T.signed():
		return strconv.FormatInt(int64(n), 10)
	}
	return strconv.FormatUint(n, 10)
}

func fmtFloat(f float64, real bool) string {
	if f != f {
		return "NaN"
	}
	if real {
		return fmt.Sprintf("%.6g", f+0)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func (x *Exec) observations(st *State, m *Model) []string {
	var r []string
	for _, o := range st.obs {
		s := "?"
		func() {
			defer func() { recover() }()
			s = obsScalar(x, m, o.v, x.realMode)
		}()
		r = append(r, o.name+"="+s)
	}
	return r
}

// run executes the job symbolically.
func (j *Job) run(p *Program, pkgPath string) {
	t0 := time.Now()
	j.assertMsgs, j.reached, j.Cuts, j.Covered = map[string]int{}, map[string]bool{}, map[string]int{}, map[string]bool{}
	x := newExec(p, j.name())
	x.job = j
	x.realMode = j.Real
	x.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	x.nextObj = p.nobj
	if j.Solve > 0 {
		x.hardMs = j.Solve
	}
	x.deadline = t0.Add(time.Duration(j.TimeS) * time.Second)
	if enough.Load() {
		j.Cuts["stopped after a reproduced violation"]++
		return
	}
	if !budget.IsZero() && x.deadline.After(budget) {
		x.deadline = budget
		if m := t0.Add(time.Second); m.After(budget) {
			x.deadline = m
		}
	}
	watch(x)
	defer unwatch(x)
	j.x = x
	defer x.sol.close()
	sp := p.pkgs[pkgPath]
	fn := sp.Func(j.Harness)
	if fn == nil {
		j.Cuts["no harness "+j.Harness]++
		return
	}
	x.loadStubs(sp)
	st := &State{heap: *p.base, model: newModel()}
	st.heap.own = newStamp()
	var outs []Out
	func() {
		defer func() {
			if r := recover(); r != nil {
				if debugEngine {
					panic(r)
				}
				x.cut(fmt.Sprint("engine: ", r))
			}
		}()
		outs = x.callFn(st, fn, nil, nil, 0)
	}()
	for i, o := range outs {
		if o.pan != nil {
			j.Panics++
			if x.isExitPanic(o.pan) {
				continue
			}
			x.violation(o.st, o.st.model, "uncaught panic: "+o.pan.msg, false)
			continue
		}
		j.Paths++
		if len(j.samples) < j.Samples {
			// spread the samples over the paths
			if i%(1+len(outs)/max(1, j.Samples)) != 0 {
				continue
			}
			if o.st.approx || o.st.maps != "" {
				continue
			}
			m := x.vary(o.st, uint64(i)+1)
			c := x.mkCase(o.st, m)
			c.Obs = x.observations(o.st, m)
			c.kind = "sample"
			j.samples = append(j.samples, c)
		}
	}
	for k, v := range x.cuts {
		j.Cuts[k] += v
	}
	j.Steps, j.Forks, j.Merges = x.steps, x.forks, x.merges
	for k := range x.covered {
		j.Covered[k] = true
	}
	j.WallMs = time.Since(t0).Milliseconds()
	x.ctx, x.sol, x.fns = nil, nil, nil
	j.x = nil
}

// probe keeps an input of a path that could not be followed to its end.  It is
// run natively; a failure there is a counterexample like any other.
func (x *Exec) probe(st *State) {
	j := x.job
	if j == nil || j.Real || st == nil || st.approx || st.model == nil || len(st.inputs) == 0 || enough.Load() {
		return
	}
	x.nprobe++
	// the first ones, and some of the later ones
	if x.nprobe > 4 && x.nprobe&(x.nprobe-1) != 0 || x.nprobe > 1<<9 {
		return
	}
	m := st.model
	func() {
		defer func() { recover() }()
		m = x.vary(st, uint64(x.nprobe))
	}()
	c := x.mkCase(st, m)
	c.kind = "probe"
	j.mu.Lock()
	j.probes = append(j.probes, c)
	j.mu.Unlock()
}

// vary looks for another model of the path condition, so that the natively
// executed samples are not all the solver's favourite values.
func (x *Exec) vary(st *State, seed uint64) *Model {
	seed = seed*0x9e3779b97f4a7c15 + uint64(x.seed) + 1
	rnd := func() uint64 {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		return seed
	}
	best := st.model
	for try := 0; try < 12; try++ {
		over := map[int32]uint64{}
		for _, r := range st.inputs {
			if r.t == nil || try > 0 && rnd()%3 != 0 {
				continue
			}
			if len(r.t.vars) == 1 && r.t.op != OVar {
				r.t = x.ctx.terms[r.t.vars[0]]
			}
			if r.t.op != OVar {
				continue
			}
			switch {
			case r.t.sort.K == SReal:
				b := x.ctx.ival(r.t)
				if finite(b.lo) && finite(b.hi) {
					over[r.t.id] = math.Float64bits(b.lo + float64(rnd()>>11)/(1<<53)*(b.hi-b.lo))
				}
			case r.t.sort.K == SBV:
				v := rnd() >> 5 & mask(r.t.sort.W)
				if try > 6 && rnd()%2 == 0 {
					v &= 15
				}
				if r.t.val != 0 && v > r.t.val {
					v %= r.t.val + 1
				}
				over[r.t.id] = v
			case r.t.sort.K == SBool:
				over[r.t.id] = rnd() >> 7 & 1
			}
		}
		m := best.extend(over)
		ok := true
		for _, t := range st.pc {
			if v, k := m.Eval(t); !k || v == 0 {
				ok = false
				break
			}
		}
		if ok {
			best = m
		}
	}
	return best
}

func (x *Exec) isExitPanic(p *Panic) bool { return false }

// loadStubs finds the functions that the harness puts in place of library
// functions: zzvstub_PATH__Func or zzvstub_PATH__Type__Method, with _ for / in
// PATH.
func (x *Exec) loadStubs(sp *ssa.Package) {
	for n, m := range sp.Members {
		stub, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "zzvstub_") {
			continue
		}
		ps := strings.Split(n[len("zzvstub_"):], "__")
		name := strings.ReplaceAll(ps[0], "_", "/")
		switch len(ps) {
		case 2:
			name += "." + ps[1]
		case 3:
			name = "(*" + name + "." + ps[1] + ")." + ps[2]
		default:
			continue
		}
		if x.stubs == nil {
			x.stubs = map[string]*intrinsic{}
		}
		x.stubs[name] = &intrinsic{func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
			return x.callFn(st, stub, args, nil, 0)
		}}
	}
}

// ---- job lists, from comments of the form
//
//	//gosym:job C07 [thorough] [real] [nomerge] [make=N] [t=S] [samples=N] p=1..3 q=1,5
//
// in the doc comment of a harness function.

func loadJobs(root string) (jobs []*Job, funcs map[string][]string, err error) {
	funcs = map[string][]string{}
	dirs, err := os.ReadDir(root)
	if err != nil {
		return nil, nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "rt" {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(root, d.Name(), "*.go"))
		sort.Strings(files)
		for _, f := range files {
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, nil, parser.ParseComments)
			if err != nil {
				return nil, nil, err
			}
			for _, dc := range af.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				is := false
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//gosym:job ") {
						continue
					}
					is = true
					js, err := parseJob(strings.Fields(c.Text[len("//gosym:job "):]), d.Name(), fd.Name.Name)
					if err != nil {
						return nil, nil, fmt.Errorf("%s: %v", fs.Position(c.Pos()), err)
					}
					jobs = append(jobs, js...)
				}
				if is {
					funcs[d.Name()] = append(funcs[d.Name()], fd.Name.Name)
				}
			}
		}
	}
	return jobs, funcs, nil
}

func parseJob(f []string, pkg, fn string) ([]*Job, error) {
	base := Job{Prop: f[0], Harness: fn, Pkg: pkg, TimeS: 60, Samples: 3, MakeBound: 1 << 16}
	type dim struct {
		k  string
		vs []int
	}
	var dims []dim
	for _, w := range f[1:] {
		switch w {
		case "thorough":
			base.Thorough = true
			continue
		case "real":
			base.Real = true
			continue
		case "race":
			base.Race = true
			continue
		case "nomerge":
			base.NoMerge = true
			continue
		}
		k, v, ok := strings.Cut(w, "=")
		if !ok {
			return nil, fmt.Errorf("bad job word %q", w)
		}
		var vs []int
		for _, e := range strings.Split(v, ",") {
			lo, hi, isR := strings.Cut(e, "..")
			a, err := strconv.Atoi(lo)
			if err != nil {
				return nil, err
			}
			b := a
			if isR {
				if b, err = strconv.Atoi(hi); err != nil {
					return nil, err
				}
			}
			for ; a <= b; a++ {
				vs = append(vs, a)
			}
		}
		switch k {
		case "make":
			base.MakeBound = vs[0]
		case "t":
			base.TimeS = vs[0]
		case "samples":
			base.Samples = vs[0]
		case "solve":
			base.Solve = vs[0]
		default:
			dims = append(dims, dim{k, vs})
		}
	}
	combos := []map[string]int{{}}
	for _, d := range dims {
		var nc []map[string]int
		for _, c := range combos {
			for _, v := range d.vs {
				m := map[string]int{d.k: v}
				for a, b := range c {
					m[a] = b
				}
				nc = append(nc, m)
			}
		}
		combos = nc
	}
	var res []*Job
	for _, c := range combos {
		res = append(res, &Job{Prop: base.Prop, Harness: base.Harness, Pkg: base.Pkg, Params: c, Real: base.Real, Race: base.Race, NoMerge: base.NoMerge, Thorough: base.Thorough, MakeBound: base.MakeBound, TimeS: base.TimeS, Samples: base.Samples, Solve: base.Solve})
	}
	return res, nil
}
