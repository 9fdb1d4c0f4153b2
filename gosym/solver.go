package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

func (r SatResult) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// SolverStats counts solver work (shared by all jobs of a run).
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, ModelHits, TableHits, Portfolio, Small, ShapeHits int64
	Nanos                                                                                         int64
}

var stats SolverStats

// Solver drives one incremental z3 process.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	timeout int // ms
	nq      int
	cache   map[string]cacheEnt
	shapes  map[string]shapeEnt
	axioms  map[int32]bool
	dead    bool
	hard    int // portfolio timeout ms
}

type cacheEnt struct {
	r SatResult
	m map[int32]uint64
}

func newSolver(c *Ctx) *Solver {
	return &Solver{ctx: c, timeout: 1500, hard: 60000, cache: map[string]cacheEnt{}, shapes: map[string]shapeEnt{}}
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3path, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	s.nq = 0
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

var z3path = "z3-new"

func sortSMT(s Sort) string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SFP32:
		return "(_ FloatingPoint 8 24)"
	case SFP64:
		return "(_ FloatingPoint 11 53)"
	}
	return "Real"
}

func ratSMT(r *big.Rat) string {
	n := new(big.Int).Set(r.Num())
	neg := n.Sign() < 0
	n.Abs(n)
	var s string
	if r.IsInt() {
		s = n.String() + ".0"
	} else {
		s = "(/ " + n.String() + ".0 " + r.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func constSMT(t *Term) string {
	switch t.sort.K {
	case SBool:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case SBV:
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
	case SFP32:
		f := math.Float32frombits(uint32(t.val))
		if f != f {
			return "(_ NaN 8 24)"
		}
		return fmt.Sprintf("(fp #b%b #b%08b #b%023b)", t.val>>31&1, t.val>>23&0xff, t.val&(1<<23-1))
	case SFP64:
		f := math.Float64frombits(t.val)
		if f != f {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", t.val>>63, t.val>>52&0x7ff, t.val&(1<<52-1))
	}
	return ratSMT(t.rat)
}

func ref(t *Term) string {
	if t.op == OConst {
		return constSMT(t)
	}
	return fmt.Sprintf("t%d", t.id)
}

func fpDim(s Sort) string {
	if s.K == SFP32 {
		return "8 24"
	}
	return "11 53"
}

func bodySMT(t *Term) string {
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-a.sort.W, ref(a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-a.sort.W, ref(a))
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.sort.W)-1, t.val, ref(a))
	case OFAdd:
		return fmt.Sprintf("(fp.add RNE %s %s)", ref(a), ref(b))
	case OFSub:
		return fmt.Sprintf("(fp.sub RNE %s %s)", ref(a), ref(b))
	case OFMul:
		return fmt.Sprintf("(fp.mul RNE %s %s)", ref(a), ref(b))
	case OFDiv:
		return fmt.Sprintf("(fp.div RNE %s %s)", ref(a), ref(b))
	case OFSqrt:
		return fmt.Sprintf("(fp.sqrt RNE %s)", ref(a))
	case OFRti:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", [...]string{"RTZ", "RTN", "RTP"}[t.val], ref(a))
	case OFFromS:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpDim(t.sort), ref(a))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpDim(t.sort), ref(a))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort.W, ref(a))
	case OFCvt:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpDim(t.sort), ref(a))
	case OFOfBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpDim(t.sort), ref(a))
	case ORFromU:
		return fmt.Sprintf("(to_real (bv2nat %s))", ref(a))
	case ORFromS:
		w := a.sort.W
		return fmt.Sprintf("(to_real (ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s)))", ref(a), w, ref(a), new(big.Int).Lsh(big.NewInt(1), uint(w)).String(), ref(a))
	case ORFloor:
		return fmt.Sprintf("(to_real (to_int %s))", ref(a))
	case ORTrunc:
		return fmt.Sprintf("(to_real (ite (>= %s 0.0) (to_int %s) (- (to_int (- %s)))))", ref(a), ref(a), ref(a))
	case ORToBV:
		return fmt.Sprintf("((_ int2bv %d) (to_int %s))", t.sort.W, ref(a))
	}
	n, ok := opNames[t.op]
	if !ok {
		panic(fmt.Sprintf("no SMT for op %d", t.op))
	}
	s := "(" + n
	for _, x := range t.a {
		if x != nil {
			s += " " + ref(x)
		}
	}
	return s + ")"
}

// nonlin: a product or quotient that linear arithmetic cannot express.
func nonlin(t *Term) bool {
	return t.op == ORMul && t.a[0].op != OConst && t.a[1].op != OConst || t.op == ORDiv && t.a[1].op != OConst
}

func (c *Ctx) abstract(w io.Writer, x *Term) {
	fmt.Fprintf(w, "(declare-const t%d Real)\n", x.id)
	b := c.ival(x)
	if finite(b.lo) {
		fmt.Fprintf(w, "(assert (>= t%d %s))\n", x.id, ratSMT(new(big.Rat).SetFloat64(b.lo)))
	}
	if finite(b.hi) {
		fmt.Fprintf(w, "(assert (<= t%d %s))\n", x.id, ratSMT(new(big.Rat).SetFloat64(b.hi)))
	}
}

// emit writes the definitions t needs. With abs, nonlinear products become
// bounded unknowns.
func emit(w io.Writer, defined map[int32]bool, t *Term, abs *Ctx) {
	if t.op == OConst || defined[t.id] {
		return
	}
	// iterative DFS (terms can be deep)
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if defined[x.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		if x.op != OVar && x.op != OUF && !(abs != nil && nonlin(x)) {
			for _, y := range x.a {
				if y != nil && y.op != OConst && !defined[y.id] {
					stack = append(stack, y)
					ready = false
				}
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		defined[x.id] = true
		if abs != nil && nonlin(x) {
			abs.abstract(w, x)
			continue
		}
		if x.op == OVar || x.op == OUF {
			fmt.Fprintf(w, "(declare-const t%d %s)\n", x.id, sortSMT(x.sort))
			if x.op == OVar && x.sort.K == SBV && x.val != 0 {
				fmt.Fprintf(w, "(assert (bvule t%d (_ bv%d %d)))\n", x.id, x.val, x.sort.W)
			}
		} else {
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.id, sortSMT(x.sort), bodySMT(x))
		}
	}
}

func varUnion(ts []*Term) []int32 {
	var r []int32
	for _, t := range ts {
		r = mergeVars(r, t.vars)
	}
	return r
}

// Check decides the conjunction of ts. With Sat it returns values for the
// variables occurring in ts (and the axioms).
func (s *Solver) Check(ts []*Term, deadline int) (SatResult, map[int32]uint64) {
	// trivial cases and normal form
	var live []*Term
	seen := map[int32]bool{}
	for _, t := range ts {
		if t.op == OConst {
			if t.val == 0 {
				return Unsat, nil
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			live = append(live, t)
		}
	}
	if len(live) == 0 {
		return Sat, map[int32]uint64{}
	}
	key := idKey(live)
	if e, ok := s.cache[key]; ok {
		atomic.AddInt64(&stats.CacheHits, 1)
		return e.r, e.m
	}
	t0 := time.Now()
	live = append(live, s.ctx.axiomsFor(live)...)
	nl := false
	for _, t := range live {
		nl = nl || t.hasReal
	}
	skey, svars, suf := "", []*Term(nil), false
	if !nl {
		if skey, svars, suf = shapeKey(live); skey != "" {
			if e, ok := s.shapes[skey]; ok {
				atomic.AddInt64(&stats.ShapeHits, 1)
				var m map[int32]uint64
				if e.r == Sat {
					m = map[int32]uint64{}
					for i, v := range svars {
						m[v.id] = e.m[i]
					}
				}
				s.cache[key] = cacheEnt{e.r, m}
				return e.r, m
			}
		}
	}
	var r SatResult
	var m map[int32]uint64
	if nl {
		r, m = s.realQuery(live, deadline)
		deadline = 0
	} else if r, m = s.smallCheck(live); r == Unknown {
		r, m = s.query(live)
	} else {
		atomic.AddInt64(&stats.Small, 1)
	}
	atomic.AddInt64(&stats.Queries, 1)
	if r == Unknown && deadline > 0 {
		atomic.AddInt64(&stats.Portfolio, 1)
		r, m = s.portfolio(live, deadline)
	}
	atomic.AddInt64(&stats.Nanos, int64(time.Since(t0)))
	if slowMs > 0 && time.Since(t0) > time.Duration(slowMs)*time.Millisecond {
		dumpScript(fmt.Sprintf("; %v %v\n", time.Since(t0), r) + s.script(live, nil))
	}
	switch r {
	case Sat:
		atomic.AddInt64(&stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&stats.UnsatN, 1)
	default:
		atomic.AddInt64(&stats.UnknownN, 1)
	}
	if r != Unknown {
		s.cache[key] = cacheEnt{r, m}
		if skey != "" && r == Unsat {
			s.shapes[skey] = shapeEnt{r: r}
		} else if skey != "" && !suf {
			e := shapeEnt{r: r, m: make([]uint64, len(svars))}
			for i, v := range svars {
				e.m[i] = m[v.id]
			}
			s.shapes[skey] = e
		}
	}
	return r, m
}

func idKey(ts []*Term) string {
	ids := make([]int32, len(ts))
	for i, t := range ts {
		ids[i] = t.id
	}
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
	b := make([]byte, 0, len(ids)*4)
	for _, x := range ids {
		b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	return string(b)
}

func (s *Solver) query(ts []*Term) (SatResult, map[int32]uint64) {
	if s.cmd == nil || s.nq > 4000 {
		s.close()
		s.start()
	}
	s.nq++
	for _, t := range ts {
		emit(s.in, s.defined, t, nil)
	}
	io.WriteString(s.in, "(push 1)\n")
	for _, t := range ts {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(t))
	}
	io.WriteString(s.in, "(check-sat)\n")
	s.in.Flush()
	wd := time.AfterFunc(time.Duration(s.timeout*4+2000)*time.Millisecond, func() {
		s.cmd.Process.Kill()
	})
	line, err := s.readLine()
	wd.Stop()
	if err != nil || strings.HasPrefix(line, "(error") {
		if debugSolver {
			fmt.Println("SOLVER ERR", err, line)
		}
		s.close()
		return Unknown, nil
	}
	switch line {
	case "unsat":
		io.WriteString(s.in, "(pop 1)\n")
		return Unsat, nil
	case "sat":
		vars := varUnion(ts)
		m := map[int32]uint64{}
		if len(vars) > 0 {
			io.WriteString(s.in, "(get-value (")
			for _, v := range vars {
				fmt.Fprintf(s.in, "t%d ", v)
			}
			io.WriteString(s.in, "))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || !parseModel(s.ctx, txt, m) {
				if debugSolver {
					fmt.Println("MODEL ERR", err, txt)
				}
				s.close()
				return Unknown, nil
			}
		}
		io.WriteString(s.in, "(pop 1)\n")
		return Sat, m
	}
	io.WriteString(s.in, "(pop 1)\n")
	return Unknown, nil
}

var debugSolver = os.Getenv("GOSYM_DEBUG") != ""

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth, started := 0, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if !started && (c == ' ' || c == '\n') {
			continue
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return b.String(), nil
		}
		if !started {
			return b.String(), fmt.Errorf("unexpected %q", c)
		}
	}
}

// ---- model parsing

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	pos := 0
	var rec func() *sexp
	rec = func() *sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			e := &sexp{list: []*sexp{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
					pos++
				}
				if pos >= len(s) {
					return nil
				}
				if s[pos] == ')' {
					pos++
					return e
				}
				x := rec()
				if x == nil {
					return nil
				}
				e.list = append(e.list, x)
			}
		}
		st := pos
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	return rec()
}

func parseBits(a string) (*big.Int, bool) {
	r := new(big.Int)
	switch {
	case strings.HasPrefix(a, "#x"):
		_, ok := r.SetString(a[2:], 16)
		return r, ok
	case strings.HasPrefix(a, "#b"):
		_, ok := r.SetString(a[2:], 2)
		return r, ok
	}
	return nil, false
}

func realVal(e *sexp) (*big.Rat, bool) {
	if e.list == nil {
		a := strings.TrimSuffix(e.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		return r, ok
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		r, ok := realVal(e.list[1])
		if !ok {
			return nil, false
		}
		return r.Neg(r), true
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		p, ok1 := realVal(e.list[1])
		q, ok2 := realVal(e.list[2])
		if !ok1 || !ok2 || q.Sign() == 0 {
			return nil, false
		}
		return p.Quo(p, q), true
	}
	return nil, false
}

func parseModel(c *Ctx, txt string, m map[int32]uint64) bool {
	e := parseSexp(txt)
	if e == nil {
		return false
	}
	for _, p := range e.list {
		if len(p.list) != 2 {
			return false
		}
		var id int32
		if _, err := fmt.Sscanf(p.list[0].atom, "t%d", &id); err != nil {
			return false
		}
		t := c.terms[id]
		v := p.list[1]
		switch t.sort.K {
		case SBool:
			m[id] = b2u(v.atom == "true")
		case SBV:
			if b, ok := parseBits(v.atom); ok {
				m[id] = b.Uint64()
			} else if len(v.list) == 3 && strings.HasPrefix(v.list[1].atom, "bv") {
				b, ok := new(big.Int).SetString(v.list[1].atom[2:], 10)
				if !ok {
					return false
				}
				m[id] = b.Uint64()
			} else {
				return false
			}
		case SFP32, SFP64:
			eb, sb := uint(8), uint(23)
			if t.sort.K == SFP64 {
				eb, sb = 11, 52
			}
			if len(v.list) == 4 && v.list[0].atom == "fp" {
				x, ok1 := parseBits(v.list[1].atom)
				y, ok2 := parseBits(v.list[2].atom)
				z, ok3 := parseBits(v.list[3].atom)
				if !ok1 || !ok2 || !ok3 {
					return false
				}
				m[id] = x.Uint64()<<(eb+sb) | y.Uint64()<<sb | z.Uint64()
			} else if len(v.list) == 4 {
				exp := uint64(1)<<eb - 1
				switch v.list[1].atom {
				case "NaN":
					m[id] = exp<<sb | 1<<(sb-1)
				case "+oo":
					m[id] = exp << sb
				case "-oo":
					m[id] = exp<<sb | 1<<(eb+sb)
				case "+zero":
					m[id] = 0
				case "-zero":
					m[id] = 1 << (eb + sb)
				default:
					return false
				}
			} else {
				return false
			}
		case SReal:
			r, ok := realVal(v)
			if !ok {
				// algebraic number: no usable value
				m[id] = 0
				continue
			}
			f, _ := r.Float64()
			m[id] = math.Float64bits(f)
		}
	}
	return true
}

// ---- one-shot portfolio

type engine struct {
	name string
	args []string
}

var engines = []engine{
	{"cvc5", []string{"--lang", "smt2", "--produce-models", "-"}},
	{"z3", []string{"-in", "-smt2"}},
	{"z3-new", []string{"-in", "-smt2"}},
}

var portfolioSem = make(chan struct{}, 3)

func (s *Solver) script(ts []*Term, abs *Ctx) string {
	var b bytes.Buffer
	real, other := false, false
	for _, t := range ts {
		real = real || t.hasReal
		other = other || t.hasFP
	}
	if real {
		b.WriteString("(set-logic ALL)\n")
	} else {
		b.WriteString("(set-logic QF_BVFP)\n")
	}
	_ = other
	def := map[int32]bool{}
	for _, t := range ts {
		emit(&b, def, t, abs)
	}
	for _, t := range ts {
		fmt.Fprintf(&b, "(assert %s)\n", ref(t))
	}
	b.WriteString("(check-sat)\n")
	if vars := varUnion(ts); len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&b, "t%d ", v)
		}
		b.WriteString("))\n")
	}
	return b.String()
}

func (s *Solver) portfolio(ts []*Term, ms int) (SatResult, map[int32]uint64) {
	txt := s.script(ts, nil)
	portfolioSem <- struct{}{}
	defer func() { <-portfolioSem }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
	defer cancel()
	type res struct {
		r SatResult
		m map[int32]uint64
	}
	ch := make(chan res, len(engines))
	var wg sync.WaitGroup
	for _, e := range engines {
		wg.Add(1)
		go func(e engine) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, e.name, e.args...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := string(out)
			if strings.HasPrefix(o, "unsat") {
				ch <- res{Unsat, nil}
				return
			}
			if strings.HasPrefix(o, "sat") {
				m := map[int32]uint64{}
				rest := strings.TrimSpace(o[3:])
				if rest == "" || parseModel(s.ctx, rest, m) {
					ch <- res{Sat, m}
					return
				}
			}
			ch <- res{Unknown, nil}
		}(e)
	}
	var r res
	for range engines {
		x := <-ch
		if x.r != Unknown {
			r = x
			break
		}
	}
	cancel()
	wg.Wait()
	if r.r == Unknown && dumpHard != "" {
		dumpScript(txt)
	}
	return r.r, r.m
}

// realQuery decides a query over the reals: first with products abstracted to
// bounded unknowns (linear), then exactly.
func (s *Solver) realQuery(ts []*Term, ms int) (SatResult, map[int32]uint64) {
	if s.oneShot(s.script(ts, s.ctx), 5000) == Unsat {
		return Unsat, nil
	}
	if ms <= 0 || ms > 6000 {
		ms = 6000
	}
	return s.portfolio(ts, ms)
}

func (s *Solver) oneShot(txt string, ms int) SatResult {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, z3path, "-in", "-smt2")
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.Output()
	if strings.HasPrefix(string(out), "unsat") {
		return Unsat
	}
	if strings.HasPrefix(string(out), "sat") {
		return Sat
	}
	return Unknown
}

var dumpHard = os.Getenv("GOSYM_DUMP")
var slowMs, _ = strconv.Atoi(os.Getenv("GOSYM_SLOW"))
var dumpN int32

func dumpScript(txt string) {
	os.WriteFile(fmt.Sprintf("%s.%d.smt2", dumpHard, atomic.AddInt32(&dumpN, 1)), []byte(txt), 0o644)
}
