package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newStamp() uint64 { return atomic.AddUint64(&stampCtr, 1) }

type inputRec struct {
	name string // name#k
	tag  ST
	t    *Term // nil when concrete
	v    uint64
}

type obsRec struct {
	name string
	v    Value
}

type recEnt struct {
	pan       *Panic
	recovered bool
}

type Panic struct {
	exit bool // end of the program, not a panic: nothing is deferred or recovered
	code Value
	v    Value // interface value
	msg  string
}

// State is everything a path carries except the call stack, which lives in
// the recursion of the interpreter.
type State struct {
	heap    Heap
	pc      []*Term
	model   *Model
	known   *Known
	inputs  []inputRec
	obs     []obsRec
	rec     []recEnt
	reach   []string
	pending []*goRec // goroutines that have not run yet
	order   int8     // 1: first started first, 2: last started first
	went    bool     // goroutines have run
	maps    string   // orders chosen for iterations over maps (f: as inserted, r: reversed)
	approx  bool     // some value is over-approximated: no sample is taken from the path
}

func (st *State) fork() *State {
	n := *st
	st.heap.own = newStamp()
	n.heap.own = newStamp()
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	n.pending = st.pending[:len(st.pending):len(st.pending)]
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	n.rec = st.rec[:len(st.rec):len(st.rec)]
	n.reach = st.reach[:len(st.reach):len(st.reach)]
	st.pc, st.inputs, st.obs, st.rec, st.reach = n.pc, n.inputs, n.obs, n.rec, n.reach
	return &n
}

type deferRec struct {
	cl   *callInfo
	fn   Value
	args []Value
}

type Frame struct {
	fi     *FuncInfo
	regs   []Value
	block  int
	pc     int
	defers []deferRec
	recIdx int // >0: this frame was called by a defer while panicking; index+1 into st.rec
	caller *Frame
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

type Out struct {
	st  *State
	v   Value
	pan *Panic
}

type fkind uint8

const (
	fStop fkind = iota
	fRet
	fPanic
)

type flow struct {
	kind fkind
	fr   *Frame
	st   *State
	v    Value
	pan  *Panic
}

type Exec struct {
	goNoted   bool
	parallel  int         // nesting of zzv_Parallel
	kill      atomic.Bool // set to stop for lack of memory
	nprobe    int
	memUse    atomic.Int64          // a measure of the memory used
	stubs     map[string]*intrinsic // functions replaced by the harness package
	nfresh    int
	p         *Program
	name      string
	ctx       *Ctx
	sol       *Solver
	lay       *Layouts
	fns       map[*ssa.Function]*FuncInfo
	nextObj   uint32
	steps     int64
	maxSteps  int64
	forks     int64
	merges    int64
	cuts      map[string]int
	covered   map[string]bool
	tolerant  bool
	initMode  bool
	realMode  bool
	stopped   bool
	deadline  time.Time
	hardMs    int
	depth     int
	job       *Job
	addrTaken map[uint32]bool
	qcount    int64
	seed      int
	ufNames   map[string]bool
	errCache  map[string]Value
}

func newExec(p *Program, name string) *Exec {
	c := newCtx()
	return &Exec{p: p, name: name, ctx: c, sol: newSolver(c), lay: &Layouts{m: map[types.Type]*layout{}}, fns: map[*ssa.Function]*FuncInfo{}, cuts: map[string]int{}, covered: map[string]bool{}, maxSteps: 1 << 40, hardMs: 20000, nextObj: p.nobj, errCache: map[string]Value{}}
}

func (x *Exec) newObj(st *State, o *Obj) uint32 {
	id := x.nextObj
	x.nextObj++
	if id >= 1<<25 {
		panic(unsupported("too many objects"))
	}
	st.heap.put(id, o)
	return id
}

func (x *Exec) cut(why string) { x.cuts[why]++ }

func one(st *State, v Value) []Out { return []Out{{st: st, v: v}} }

// ---- path conditions

func (x *Exec) simp(st *State, t *Term) *Term {
	if t.op == OConst || st.known == nil || !st.known.hits(t) {
		return t
	}
	return x.ctx.Subst(t, st.known)
}

// slice selects the path condition relevant to cond.
func (x *Exec) slicePC(st *State, cond *Term) []*Term {
	if cond.hasUF || cond.hasReal {
		return append(append([]*Term(nil), st.pc...), cond)
	}
	vars := cond.vars
	used := make([]bool, len(st.pc))
	res := []*Term{cond}
	for ch := true; ch; {
		ch = false
		for i := len(st.pc) - 1; i >= 0; i-- {
			if used[i] {
				continue
			}
			p := st.pc[i]
			if intersects(p.vars, vars) {
				used[i] = true
				ch = true
				res = append(res, p)
				vars = mergeVars(vars, p.vars)
				if p.hasUF || p.hasReal {
					return append(append([]*Term(nil), st.pc...), cond)
				}
			}
		}
	}
	return res
}

func intersects(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			return true
		}
		if a[i] < b[j] {
			i++
		} else {
			j++
		}
	}
	return false
}

// feasible decides pc && cond.
func (x *Exec) feasible(st *State, cond *Term) (SatResult, *Model) {
	if cond.op == OConst {
		if cond.val == 0 {
			return Unsat, nil
		}
		return Sat, st.model
	}
	if v, ok := st.model.Eval(cond); ok && v != 0 {
		atomic.AddInt64(&stats.ModelHits, 1)
		return Sat, st.model
	}
	if r, m := x.unaryFeasible(st, cond); r != Unknown {
		atomic.AddInt64(&stats.TableHits, 1)
		return r, m
	}
	q := x.slicePC(st, cond)
	uf := false
	for _, t := range q {
		uf = uf || t.hasUF || t.hasReal
	}
	if uf {
		if m := x.numericModel(st, q, nil); m != nil {
			atomic.AddInt64(&stats.ModelHits, 1)
			return Sat, m
		}
	}
	for round := 0; ; round++ {
		qq := q
		if uf {
			qq = append(append([]*Term(nil), q...), x.ctx.lemmasFor(q)...)
		}
		r, m := x.sol.Check(qq, x.hardLimit())
		x.qcount++
		if r != Sat {
			return r, nil
		}
		n := st.model.extend(m)
		if uf {
			// function applications are abstracted: the model counts only
			// if it also holds with the real functions
			for _, t := range q {
				if v, ok := n.Eval(t); !ok || v == 0 {
					if k := x.numericModel(st, q, n); k != nil {
						return Sat, k
					}
					if round < 12 && x.ctx.refine(q, n, m) {
						n = nil
						break
					}
					if round < 12 {
						// the functions agree with the model, only
						// rounding separates the numbers from a tie
						return Sat, n
					}
					return Unknown, nil
				}
			}
			if n == nil {
				continue
			}
		}
		return Sat, n
	}
}

// numericModel looks for values of the real-valued inputs that satisfy q with
// the actual elementary functions.
func (x *Exec) numericModel(st *State, q []*Term, near *Model) *Model {
	var vars []*Term
	for _, id := range varUnion(q) {
		t := x.ctx.terms[id]
		if t.op == OVar && t.sort.K == SReal && t.name[0] != '$' {
			vars = append(vars, t)
		}
	}
	if len(vars) == 0 {
		return nil
	}
	try := func(over map[int32]uint64) *Model {
		m := st.model.extend(over)
		for _, t := range q {
			if v, ok := m.Eval(t); !ok || v == 0 {
				return nil
			}
		}
		return m
	}
	seed := uint64(0x9e3779b97f4a7c15)
	rnd := func() float64 {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		return float64(seed>>11) / (1 << 53)
	}
	for i := 0; i < 300; i++ {
		over := map[int32]uint64{}
		for j, t := range vars {
			b := x.ctx.ival(t)
			if !finite(b.lo) || !finite(b.hi) {
				continue
			}
			u := rnd()
			switch {
			case i < 1<<len(vars) && i < 64: // corners
				u = float64(i >> j & 1)
			case i%3 == 1 && rnd() < 0.4: // keep some
				continue
			case i%7 == 2: // near the edges
				u = u * 1e-3
				if rnd() < 0.5 {
					u = 1 - u
				}
			}
			v := b.lo + u*(b.hi-b.lo)
			if b.lo > 0 && b.hi > 100*b.lo && i%2 == 1 { // spread over the magnitudes
				v = math.Max(b.lo, math.Min(b.hi, b.lo*math.Pow(b.hi/b.lo, u)))
			}
			if near != nil {
				if p, ok := near.Real(t); ok {
					d := math.Pow(2, -4*float64(i%12)) * (2*u - 1)
					v = math.Max(b.lo, math.Min(b.hi, p+d*math.Max(math.Abs(p)*0.1, (b.hi-b.lo)*1e-6)))
				}
			}
			over[t.id] = math.Float64bits(v)
		}
		if m := try(over); m != nil {
			return m
		}
	}
	return nil
}

func (x *Exec) hardLimit() int {
	rem := int(time.Until(x.deadline) / time.Millisecond)
	if x.deadline.IsZero() || rem > x.hardMs {
		return x.hardMs
	}
	if rem < 100 {
		return 100
	}
	return rem
}

func (x *Exec) addPC(st *State, c *Term) {
	if c.op == OConst {
		return
	}
	if c.op == OAnd {
		x.addPC(st, c.a[0])
		x.addPC(st, c.a[1])
		return
	}
	for i := len(st.pc) - 1; i >= 0 && i > len(st.pc)-16; i-- {
		if st.pc[i] == c {
			return
		}
	}
	st.pc = append(st.pc, c)
	x.learn(st, c)
}

// learn records what a new path condition fixes.
func (x *Exec) learn(st *State, c *Term) {
	if c.hasReal || c.size > 512 {
		return
	}
	if c.op == OEq && c.a[1].op == OConst && c.a[0].sort.K == SBV {
		t, k := c.a[0], c.a[1]
		for t.op == OZext && t.a[0].sort.K == SBV {
			k = x.ctx.BV(k.val, int(t.a[0].sort.W))
			t = t.a[0]
		}
		st.known = st.known.with(c, x.ctx.tTrue, t, k)
		return
	}
	if c.op == ONot {
		c = c.a[0]
		if c.op == OEq && c.a[1].op == OConst && c.a[0].sort.K == SBV && c.a[0].sort.W == 1 {
			st.known = st.known.with(c, x.ctx.tFalse, c.a[0], x.ctx.BV(c.a[1].val^1, 1))
			return
		}
		st.known = st.known.with(c, x.ctx.tFalse)
		return
	}
	st.known = st.known.with(c, x.ctx.tTrue)
}

// assume adds a condition known to be feasible with model m.
func (x *Exec) assume(st *State, c *Term, m *Model) {
	x.addPC(st, c)
	if m != nil {
		st.model = m
	}
}

// branch splits st on cond. Either result may be nil.
func (x *Exec) branch(st *State, cond *Term) (t, f *State) {
	cond = x.simp(st, cond)
	if cond.op == OConst {
		if cond.val != 0 {
			return st, nil
		}
		return nil, st
	}
	nc := x.ctx.Not(cond)
	rt, mt := x.feasible(st, cond)
	var rf SatResult
	var mf *Model
	if rt == Unsat {
		rf, mf = Sat, st.model
		return nil, st
	}
	rf, mf = x.feasible(st, nc)
	if rf == Unsat {
		if rt == Unknown {
			return st, nil
		}
		if mt != st.model {
			st.model = mt
		}
		return st, nil
	}
	if rt == Unknown {
		if debugSolver {
			fmt.Println("UNKNOWN", rt, rf, cond.id)
			dumpScript(x.sol.script(x.slicePC(st, cond), nil))
			dumpScript(x.sol.script(x.slicePC(st, nc), nil))
		}
		x.cut("solver gave no answer on a branch condition")
	}
	if rf == Unknown {
		if debugSolver {
			fmt.Println("UNKNOWN", rt, rf, cond.id)
			dumpScript(x.sol.script(x.slicePC(st, cond), nil))
			dumpScript(x.sol.script(x.slicePC(st, nc), nil))
		}
		x.cut("solver gave no answer on a branch condition")
	}
	if rt == Sat && rf == Sat {
		x.forks++
		f = st.fork()
		x.assume(st, cond, mt)
		x.assume(f, nc, mf)
		return st, f
	}
	if rt == Sat {
		x.assume(st, cond, mt)
		return st, nil
	}
	if rf == Sat {
		x.assume(st, nc, mf)
		return nil, st
	}
	return nil, nil
}

// concretize enumerates the values of t (at most limit) in st.
func (x *Exec) concretize(st *State, t *Term, limit int) []struct {
	st *State
	v  uint64
} {
	type sv = struct {
		st *State
		v  uint64
	}
	t = x.simp(st, t)
	if t.op == OConst {
		return []sv{{st, t.val}}
	}
	var res []sv
	cur := st
	for len(res) < limit {
		v, ok := cur.model.Eval(t)
		if !ok {
			panic(unsupported("value of " + t.String() + " not determined by the model"))
		}
		eq := x.ctx.Eq(t, x.ctx.BV(v, int(t.sort.W)))
		ne := x.ctx.Not(eq)
		r, m := x.feasible(cur, ne)
		if r != Sat {
			if r == Unknown {
				x.cut("solver gave no answer while enumerating a length or index")
			}
			x.assume(cur, eq, nil)
			res = append(res, sv{cur, v})
			return res
		}
		nx := cur.fork()
		x.forks++
		x.assume(cur, eq, nil)
		res = append(res, sv{cur, v})
		x.assume(nx, ne, m)
		cur = nx
	}
	x.cut(fmt.Sprintf("more than %d values of a length or index", limit))
	return res
}

// ---- calls

func (x *Exec) callValue(st *State, fv Value, args []Value, caller *Frame) []Out {
	cl := fv.closure()
	if cl == nil {
		if fv.K == KBad {
			panic(unsupported(fmt.Sprint("call of unavailable function ", fv.P)))
		}
		return []Out{{st: st, pan: x.rtPanic(st, "invalid memory address or nil pointer dereference")}}
	}
	if cl.native != nil {
		return one(st, cl.native(x, st, args))
	}
	if cl.bound != "" {
		return x.builtin(st, cl.bound, args, nil, caller)
	}
	if in := x.lookupIntrinsic(cl.fn); in != nil {
		return in.f(x, st, args, cl.fn)
	}
	return x.callFn(st, cl.fn, args, cl.bind, 0)
}

func (x *Exec) call(st *State, fn *ssa.Function, args, bind []Value) []Out {
	if in := x.lookupIntrinsic(fn); in != nil {
		return in.f(x, st, args, fn)
	}
	return x.callFn(st, fn, args, bind, 0)
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, bind []Value, recIdx int) []Out {
	if fn.Blocks == nil {
		panic(unsupported("external function " + fn.String()))
	}
	x.depth++
	if x.depth > 2000 {
		x.depth--
		panic(unsupported("call depth"))
	}
	defer func() { x.depth-- }()
	fi := x.compile(fn)
	fr := &Frame{fi: fi, regs: make([]Value, fi.nreg), recIdx: recIdx}
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.free {
		fr.regs[r] = bind[i]
	}
	if x.job != nil {
		x.covered[fi.name] = true
	}
	flows := x.run(fr, st, -1)
	if len(flows) == 1 {
		f := flows[0]
		return []Out{{f.st, f.v, f.pan}}
	}
	outs := make([]Out, 0, len(flows))
	for _, f := range flows {
		outs = append(outs, Out{f.st, f.v, f.pan})
	}
	return x.mergeOuts(outs)
}

func (x *Exec) rtPanic(st *State, msg string) *Panic {
	msg = "runtime error: " + msg
	v := Value{K: KIface}
	if x.p.errT != nil {
		id := x.newObj(st, &Obj{cells: []Value{vStr(msg)}, what: "panic"})
		v.P = &Iface{t: x.p.errT, v: vPtr(id, 0)}
	} else {
		v.P = &Iface{t: types.Typ[types.String], v: vStr(msg)}
	}
	return &Panic{v: v, msg: msg}
}

// unwind runs the deferred calls of a panicking frame.
func (x *Exec) unwind(fr *Frame, st *State, pan *Panic) []flow {
	var res []flow
	for _, o := range x.runDefers(fr, st, pan) {
		if o.pan != nil {
			res = append(res, flow{kind: fPanic, st: o.st, pan: o.pan})
			continue
		}
		// recovered
		if fr.fi.rec < 0 {
			sig := fr.fi.fn.Signature.Results()
			var v Value
			switch sig.Len() {
			case 0:
			case 1:
				v = x.lay.zero(sig.At(0).Type())
			default:
				v = x.lay.zero(sig)
			}
			res = append(res, flow{kind: fRet, st: o.st, v: v})
			continue
		}
		f := fr.clone()
		f.defers = nil
		f.block, f.pc = fr.fi.rec, 0
		res = append(res, x.run(f, o.st, -1)...)
	}
	return res
}

// runDefers runs all deferred calls; pan is the panic in flight, if any.
// In the results pan is nil when execution continues normally.
func (x *Exec) runDefers(fr *Frame, st *State, pan *Panic) []Out {
	ds := fr.defers
	cur := []Out{{st: st, pan: pan}}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []Out
		for _, c := range cur {
			if c.pan != nil && c.pan.exit {
				next = append(next, c)
				continue
			}
			c.st.rec = append(c.st.rec[:len(c.st.rec):len(c.st.rec)], recEnt{pan: c.pan})
			k := len(c.st.rec)
			var outs []Out
			switch {
			case d.cl.invoke:
				outs = x.invoke(c.st, d.fn, d.cl.method, d.args, fr)
			case d.cl.biname != "":
				outs = x.builtin(c.st, d.cl.biname, d.args, nil, fr)
			default:
				cl := d.fn.closure()
				if cl == nil {
					panic(unsupported("defer of nil func"))
				}
				if in := x.lookupIntrinsic(cl.fn); in != nil {
					outs = in.f(x, c.st, d.args, cl.fn)
				} else {
					outs = x.callFn(c.st, cl.fn, d.args, cl.bind, k)
				}
			}
			for _, o := range outs {
				e := o.st.rec[k-1]
				o.st.rec = o.st.rec[: k-1 : k-1]
				if o.pan == nil && !e.recovered {
					o.pan = c.pan
				}
				o.v = Value{}
				next = append(next, o)
			}
		}
		cur = next
	}
	return cur
}

// ---- the interpreter loop

var debugEngine = os.Getenv("GOSYM_DEBUG") != ""

func (x *Exec) run(fr *Frame, st *State, stop int) (acc []flow) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				if debugEngine {
					fmt.Fprintf(os.Stderr, "ENGINE %v in %s\n%s\n", r, fr.fi.name, debug.Stack())
				}
				u = unsup{fmt.Sprintf("engine: %v", r)}
			}
			if x.initMode {
				panic(u)
			}
			if debugEngine {
				pos := ""
				if fr.pc < len(fr.fi.blocks[fr.block].ins) {
					pos = x.p.prog.Fset.Position(fr.fi.blocks[fr.block].ins[fr.pc].i.Pos()).String()
				}
				fmt.Fprintf(os.Stderr, "CUT %s in %s %s\n", u.msg, fr.fi.name, pos)
			}
			x.cut(u.msg + " (in " + fr.fi.name + ")")
			x.probe(st)
		}
	}()
	tolInit := x.initMode && fr.fi.fn.Synthetic == "package initializer"
	for {
		blk := fr.fi.blocks[fr.block]
	instrs:
		for fr.pc < len(blk.ins) {
			I := &blk.ins[fr.pc]
			x.steps++
			if x.steps&4095 == 0 && !x.initMode {
				if x.steps > x.maxSteps {
					panic(unsupported("step limit"))
				}
				x.memUse.Store(int64(len(x.ctx.terms)) + x.steps/16)
				if x.kill.Load() {
					x.stopped = true
					x.cut("memory limit")
				}
				if enough.Load() {
					x.stopped = true
					x.cut("stopped after a reproduced violation")
				}
				if !x.deadline.IsZero() && time.Now().After(x.deadline) {
					x.stopped = true
				}
			}
			if x.stopped {
				panic(unsupported("time limit"))
			}
			switch in := I.i.(type) {
			case *ssa.Jump:
				x.jump(fr, fr.fi.fn.Blocks[fr.block].Succs[0].Index)
				if fr.block == stop {
					return append(acc, flow{kind: fStop, fr: fr, st: st})
				}
				break instrs
			case *ssa.If:
				c := x.get(fr, st, I.a[0])
				succ := fr.fi.fn.Blocks[fr.block].Succs
				if c.K == KScalar {
					if c.N != 0 {
						x.jump(fr, succ[0].Index)
					} else {
						x.jump(fr, succ[1].Index)
					}
					if fr.block == stop {
						return append(acc, flow{kind: fStop, fr: fr, st: st})
					}
					break instrs
				}
				if c.K != KTerm {
					panic(unsupported(fmt.Sprint("branch on unavailable value ", c.P)))
				}
				t, f := x.branch(st, c.term())
				if t == nil && f == nil {
					return acc
				}
				if t == nil || f == nil {
					k := 0
					if t == nil {
						k = 1
						st = f
					} else {
						st = t
					}
					x.jump(fr, succ[k].Index)
					if fr.block == stop {
						return append(acc, flow{kind: fStop, fr: fr, st: st})
					}
					break instrs
				}
				from := fr.block
				f2 := fr.clone()
				x.jump(fr, succ[0].Index)
				x.jump(f2, succ[1].Index)
				nf := x.join([]flow{{fr: fr, st: t}, {fr: f2, st: f}}, from, stop, true, &acc)
				if nf == nil {
					return acc
				}
				fr, st = nf.fr, nf.st
				break instrs
			case *ssa.Return:
				var v Value
				switch len(I.a) {
				case 0:
				case 1:
					v = x.get(fr, st, I.a[0])
				default:
					vs := make([]Value, len(I.a))
					for i := range vs {
						vs[i] = x.get(fr, st, I.a[i])
					}
					v = vTuple(vs...)
				}
				return append(acc, flow{kind: fRet, st: st, v: v})
			case *ssa.Panic:
				v := x.get(fr, st, I.a[0])
				return append(acc, x.unwind(fr, st, &Panic{v: v, msg: x.panicMsg(st, v)})...)
			case *ssa.RunDefers:
				if len(fr.defers) == 0 {
					fr.pc++
					continue
				}
				outs := x.runDefers(fr, st, nil)
				fr.defers = nil
				nf := x.spread(fr, outs, -1, stop, &acc)
				if nf == nil {
					return acc
				}
				moved := nf.fr.block != fr.block || nf.fr != fr
				fr, st = nf.fr, nf.st
				if moved {
					break instrs
				}
				continue
			case *ssa.Go:
				vals := x.callOperands(fr, st, I)
				d := deferRec{cl: I.cl, fn: vals[0], args: vals[1:]}
				if I.cl.static != nil {
					d.fn = Value{K: KFunc, P: &Closure{fn: I.cl.static}}
				}
				x.startGo(st, d)
				fr.pc++
				continue
			case *ssa.Defer:
				d := deferRec{cl: I.cl}
				vals := x.callOperands(fr, st, I)
				d.fn = vals[0]
				if I.cl.static != nil {
					d.fn = Value{K: KFunc, P: &Closure{fn: I.cl.static}}
				}
				d.args = vals[1 : 1+len(in.Call.Args)]
				fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
				fr.pc++
				continue
			}
			var v Value
			var outs []Out
			if tolInit {
				v, outs = x.execTolerant(fr, st, I)
			} else {
				v, outs = x.exec(fr, st, I)
			}
			if outs == nil {
				if I.dst >= 0 {
					fr.regs[I.dst] = v
				}
				fr.pc++
				continue
			}
			if len(outs) == 1 && outs[0].pan == nil {
				st = outs[0].st
				if I.dst >= 0 {
					fr.regs[I.dst] = outs[0].v
				}
				fr.pc++
				continue
			}
			nf := x.spread(fr, outs, I.dst, stop, &acc)
			if nf == nil {
				return acc
			}
			fr, st = nf.fr, nf.st
			if fr.fi.blocks[fr.block] != blk {
				break instrs
			}
		}
	}
}

func (x *Exec) execTolerant(fr *Frame, st *State, I *Ins) (v Value, outs []Out) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				u = unsup{fmt.Sprint("engine: ", r)}
			}
			x.cut("init: " + u.msg)
			v, outs = Value{K: KBad, P: u.msg}, nil
			if debugEngine {
				fmt.Fprintln(os.Stderr, "INIT", fr.fi.name, u.msg, I.i)
			}
		}
	}()
	v, outs = x.exec(fr, st, I)
	if len(outs) == 1 && outs[0].pan != nil {
		x.cut("init panic: " + outs[0].pan.msg)
		return Value{K: KBad, P: outs[0].pan.msg}, nil
	}
	return v, outs
}

// spread continues after an instruction with several outcomes: panics unwind
// into acc, normal outcomes continue and are joined. It returns the single
// flow to continue with, or nil.
func (x *Exec) spread(fr *Frame, outs []Out, dst int32, stop int, acc *[]flow) *flow {
	var starts []flow
	nn := 0
	for _, o := range outs {
		if o.pan == nil {
			nn++
		}
	}
	for _, o := range outs {
		if o.pan != nil {
			*acc = append(*acc, x.unwind(fr.clone(), o.st, o.pan)...)
			continue
		}
		f := fr
		if nn > 1 {
			f = fr.clone()
		}
		if dst >= 0 {
			f.regs[dst] = o.v
		}
		f.pc++
		starts = append(starts, flow{fr: f, st: o.st})
	}
	if len(starts) == 0 {
		return nil
	}
	if len(starts) == 1 {
		return &starts[0]
	}
	return x.join(starts, fr.block, stop, false, acc)
}

// join runs flows that start in (or just left) block from until they meet
// again, merging states where possible. Flows that finish otherwise go to acc.
// The returned flow, if any, is the one to continue with.
func (x *Exec) join(starts []flow, from, stop int, jumped bool, acc *[]flow) *flow {
	cur := starts
	j := starts[0].fr.fi.ipdom[from]
	for {
		var at []flow
		for i, s := range cur {
			if jumped && j >= 0 && s.fr.block == j && i >= 0 && s.fr.pc == 0 {
				at = append(at, flow{kind: fStop, fr: s.fr, st: s.st})
				continue
			}
			for _, f := range x.run(s.fr, s.st, j) {
				if f.kind == fStop {
					at = append(at, f)
				} else {
					*acc = append(*acc, f)
				}
			}
		}
		at = x.mergeFlows(at)
		if j == stop {
			*acc = append(*acc, at...)
			return nil
		}
		if len(at) == 0 {
			return nil
		}
		if len(at) == 1 {
			return &at[0]
		}
		cur = at
		jumped = false
		j = cur[0].fr.fi.ipdom[j]
	}
}

// jump moves the frame to block b, evaluating its phis.
func (x *Exec) jump(fr *Frame, b int) {
	blk := fr.fi.blocks[b]
	if len(blk.phis) > 0 {
		k := blk.pred[fr.block]
		if len(blk.phis) == 1 {
			p := &blk.phis[0]
			fr.regs[p.dst] = x.getRaw(fr, p.ops[k])
		} else {
			var tmp [16]Value
			vs := tmp[:0]
			for i := range blk.phis {
				vs = append(vs, x.getRaw(fr, blk.phis[i].ops[k]))
			}
			for i := range blk.phis {
				fr.regs[blk.phis[i].dst] = vs[i]
			}
		}
	}
	fr.block = b
	fr.pc = 0
}

func (x *Exec) getRaw(fr *Frame, o opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

func (x *Exec) get(fr *Frame, st *State, o opnd) Value {
	if o.reg < 0 {
		return o.c
	}
	v := fr.regs[o.reg]
	if v.K == KTerm && st.known != nil {
		t := v.P.(*Term)
		if len(t.vars) <= 8 && t.size < 4096 {
			if s := x.simp(st, t); s != t {
				return x.fromTerm(s, v.T)
			}
		}
	}
	return v
}

func (x *Exec) fromTerm(t *Term, tag ST) Value {
	if t.op == OConst {
		if t.sort.K == SReal {
			f, exact := t.rat.Float64()
			if exact {
				if tag == TF32 {
					return vF32(float32(f))
				}
				return vF64(f)
			}
			return Value{K: KTerm, T: tag, P: t}
		}
		v := t.val
		if tag.isInt() && tag.signed() {
			v = uint64(sx(v, t.sort.W))
		}
		return scalar(tag, v)
	}
	return Value{K: KTerm, T: tag, P: t}
}

func (x *Exec) panicMsg(st *State, v Value) string {
	i := v.iface()
	if i == nil {
		return "panic(nil)"
	}
	if i.v.K == KStr {
		return "panic: " + i.v.String()
	}
	return "panic: " + i.t.String()
}

// callOperands returns [fn-or-receiver, args...].
func (x *Exec) callOperands(fr *Frame, st *State, I *Ins) []Value {
	vs := make([]Value, len(I.a))
	for i := range vs {
		vs[i] = x.get(fr, st, I.a[i])
	}
	return vs
}

func (x *Exec) invoke(st *State, recv Value, m *types.Func, args []Value, fr *Frame) []Out {
	if recv.K == KBad {
		panic(unsupported(fmt.Sprint("method call on unavailable value ", recv.P)))
	}
	i := recv.iface()
	if i == nil {
		return []Out{{st: st, pan: x.rtPanic(st, "invalid memory address or nil pointer dereference")}}
	}
	fn := x.p.prog.LookupMethod(i.t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("no method " + m.Name() + " on " + i.t.String()))
	}
	all := append([]Value{i.v}, args...)
	if in := x.lookupIntrinsic(fn); in != nil {
		return in.f(x, st, all, fn)
	}
	return x.callFn(st, fn, all, nil, 0)
}

func (x *Exec) doCall(fr *Frame, st *State, I *Ins) []Out {
	vs := x.callOperands(fr, st, I)
	ci := I.cl
	switch {
	case ci.invoke:
		return x.invoke(st, vs[0], ci.method, vs[1:], fr)
	case ci.biname != "":
		return x.builtin(st, ci.biname, vs[1:], I, fr)
	case ci.static != nil:
		if ci.intr != nil {
			return ci.intr.f(x, st, vs[1:], ci.static)
		}
		return x.callFn(st, ci.static, vs[1:], nil, 0)
	}
	return x.callValue(st, vs[0], vs[1:], fr)
}

var _ = token.ADD
