package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the code under test with the harness overlaid.
type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by path
	base *Heap
	nobj uint32
	glob map[*ssa.Global]uint32
	errT types.Type // *errors.errorString
	// statistics of package initialisation
	initSteps int64
	initCut   []string
}

func loadProgram(dir string, env []string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Overlay: overlay}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, glob: map[*ssa.Global]uint32{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	if ep := p.pkgs["errors"]; ep != nil {
		p.errT = types.NewPointer(ep.Type("errorString").Type())
	}
	p.initGlobals(ps)
	return p, nil
}

// packages whose initialisers are not run (runtime services; what they
// initialise is unavailable and reading it cuts the path)
func skipInit(path string) bool {
	for _, pre := range []string{"runtime", "syscall", "os", "internal/", "reflect", "testing", "log", "sync", "flag", "crypto", "compress/", "image/png", "vendor/", "bytes/x", "runtime/", "net", "unique", "weak", "iter", "path/filepath", "io/fs", "archive/tar", "os/user"} {
		if path == pre || strings.HasPrefix(path, pre) && (strings.HasSuffix(pre, "/") || strings.HasPrefix(path, pre+"/")) {
			switch path {
			case "internal/oserror", "archive/tar", "image/color", "internal/bisect", "internal/strconv", "internal/saferio", "internal/byteorder", "encoding/binary", "encoding/hex", "iter", "internal/cpu", "internal/itoa", "internal/stringslite", "internal/bytealg", "internal/fmtsort", "internal/race":
				return false
			case "io/fs", "path/filepath":
				return false
			}
			return true
		}
	}
	return false
}

func (p *Program) initGlobals(ps []*packages.Package) {
	x := newExec(p, "init")
	h := &Heap{own: newStamp()}
	p.base = h
	all := p.prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	p.nobj = 1
	for _, sp := range all {
		names := make([]string, 0, len(sp.Members))
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		skip := skipInit(sp.Pkg.Path())
		for _, n := range names {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			id := p.nobj
			p.nobj++
			p.glob[g] = id
			et := g.Type().(*types.Pointer).Elem()
			var cells []Value
			func() {
				defer func() {
					if r := recover(); r != nil {
						cells = nil
					}
				}()
				l := x.lay.of(et)
				cells = append([]Value(nil), l.zero...)
			}()
			if skip && n != "init$guard" {
				for i := range cells {
					cells[i] = Value{K: KBad, P: "uninitialised " + sp.Pkg.Path() + "." + n}
				}
			}
			if skip && n == "init$guard" {
				cells[0] = vBool(true)
			}
			h.put(id, &Obj{cells: cells, what: sp.Pkg.Path() + "." + n, typ: et, glob: true})
		}
	}
	x.nextObj = p.nobj
	st := &State{heap: *h, model: newModel()}
	for _, lp := range ps {
		sp := p.pkgs[lp.PkgPath]
		if sp == nil {
			continue
		}
		x.tolerant = true
		x.initMode = true
		outs := x.call(st, sp.Func("init"), nil, nil)
		if len(outs) != 1 {
			fmt.Fprintln(os.Stderr, "init: outcomes", len(outs), x.cuts)
		}
		for _, o := range outs {
			if o.pan != nil {
				fmt.Fprintln(os.Stderr, "init panic:", lp.PkgPath, o.pan.msg)
			}
			st = o.st
		}
	}
	p.initSteps = x.steps
	for k := range x.cuts {
		p.initCut = append(p.initCut, k)
	}
	st.heap.own = 0
	p.base = &st.heap
	p.nobj = x.nextObj
}

// ---- compiled functions

type opnd struct {
	reg int32
	c   Value
}

type Ins struct {
	i   ssa.Instruction
	a   []opnd
	dst int32
	t   types.Type // result type where useful
	tag ST
	cl  *callInfo
}

type phiIns struct {
	dst int32
	ops []opnd
}

type BlockInfo struct {
	phis []phiIns
	ins  []Ins
	live []int32 // registers live after the phis
	pred map[int]int
}

type callInfo struct {
	static *ssa.Function
	intr   *intrinsic
	invoke bool
	recvT  types.Type
	method *types.Func
	biname string
	sig    *types.Signature
}

type FuncInfo struct {
	fn     *ssa.Function
	name   string
	nreg   int
	blocks []*BlockInfo
	ipdom  []int // -1: function exit
	params []int32
	free   []int32
	rec    int
}

func constVal(x *Exec, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.lay.zero(t)
	}
	if tag := scalarTag(t); tag != TNone {
		switch {
		case tag == TBool:
			return vBool(constant.BoolVal(c.Value))
		case tag == TF32:
			f, _ := constant.Float32Val(c.Value)
			return vF32(f)
		case tag == TF64:
			f, _ := constant.Float64Val(c.Value)
			return vF64(f)
		default:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return scalar(tag, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return scalar(tag, u)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return vStr(constant.StringVal(c.Value))
	}
	return Value{K: KBad, P: "constant " + c.String()}
}

func (x *Exec) compile(fn *ssa.Function) *FuncInfo {
	if fi, ok := x.fns[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, name: fn.String(), rec: -1}
	regs := map[ssa.Value]int32{}
	alloc := func(v ssa.Value) int32 {
		r := int32(fi.nreg)
		regs[v] = r
		fi.nreg++
		return r
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{reg: -2}
		case *ssa.Const:
			return opnd{reg: -1, c: constVal(x, v)}
		case *ssa.Global:
			id, ok := x.p.glob[v]
			if !ok {
				return opnd{reg: -1, c: Value{K: KBad, P: "global " + v.String()}}
			}
			return opnd{reg: -1, c: vPtr(id, 0)}
		case *ssa.Function:
			return opnd{reg: -1, c: Value{K: KFunc, P: &Closure{fn: v}}}
		case *ssa.Builtin:
			return opnd{reg: -1, c: Value{K: KFunc, P: &Closure{bound: v.Name()}}}
		}
		r, ok := regs[v]
		if !ok {
			panic("no register for " + v.String())
		}
		return opnd{reg: r}
	}
	uses := make([]map[int32]bool, len(fn.Blocks)) // upward exposed
	defs := make([]map[int32]bool, len(fn.Blocks))
	phiUse := make([]map[int]map[int32]bool, len(fn.Blocks)) // block -> pred -> regs
	for bi, b := range fn.Blocks {
		blk := &BlockInfo{pred: map[int]int{}}
		for i, p := range b.Preds {
			blk.pred[p.Index] = i
		}
		uses[bi], defs[bi] = map[int32]bool{}, map[int32]bool{}
		phiUse[bi] = map[int]map[int32]bool{}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				pi := phiIns{dst: regs[ph]}
				for k, e := range ph.Edges {
					o := op(e)
					pi.ops = append(pi.ops, o)
					pr := b.Preds[k].Index
					if phiUse[bi][pr] == nil {
						phiUse[bi][pr] = map[int32]bool{}
					}
					if o.reg >= 0 {
						phiUse[bi][pr][o.reg] = true
					}
				}
				blk.phis = append(blk.phis, pi)
				defs[bi][pi.dst] = true
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			I := Ins{i: in, dst: -1}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				if *r == nil {
					I.a = append(I.a, opnd{reg: -2})
					continue
				}
				o := op(*r)
				I.a = append(I.a, o)
				if o.reg >= 0 && !defs[bi][o.reg] {
					uses[bi][o.reg] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				I.dst = regs[v]
				I.t = v.Type()
				if _, isT := I.t.(*types.Tuple); !isT {
					I.tag = scalarTag(I.t)
				}
				defs[bi][I.dst] = true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				I.cl = x.callInfo(ci.Common())
			}
			blk.ins = append(blk.ins, I)
		}
		fi.blocks = append(fi.blocks, blk)
	}
	if fn.Recover != nil {
		fi.rec = fn.Recover.Index
	}
	// liveness
	n := len(fn.Blocks)
	liveIn := make([]map[int32]bool, n) // live at entry, before phis (phi operands count at the edge)
	for i := range liveIn {
		liveIn[i] = map[int32]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			add := func(r int32) {
				if !liveIn[i][r] {
					liveIn[i][r] = true
					ch = true
				}
			}
			for r := range uses[i] {
				add(r)
			}
			for _, s := range fn.Blocks[i].Succs {
				for r := range liveIn[s.Index] {
					if !defs[i][r] {
						add(r)
					}
				}
				for r := range phiUse[s.Index][i] {
					if !defs[i][r] {
						add(r)
					}
				}
			}
			if fi.rec >= 0 {
				// the recover block may run after a panic anywhere
				for r := range liveIn[fi.rec] {
					add(r)
				}
			}
		}
	}
	for i := range fi.blocks {
		l := map[int32]bool{}
		for r := range liveIn[i] {
			l[r] = true
		}
		// phi results used in or after the block
		for _, ph := range fi.blocks[i].phis {
			l[ph.dst] = true
		}
		fi.blocks[i].live = sortedIDs(l)
	}
	fi.ipdom = postDoms(fn)
	x.fns[fn] = fi
	return fi
}

// postDoms computes immediate post-dominators, ignoring blocks that end in a panic.
func postDoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	exit := n
	preds := make([][]int, n+1) // reverse graph successors = preds
	succs := make([][]int, n+1)
	dead := make([]bool, n)
	// blocks from which only panics are reachable
	for ch := true; ch; {
		ch = false
		for i, b := range fn.Blocks {
			if dead[i] {
				continue
			}
			d := false
			if len(b.Succs) == 0 {
				_, d = b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			} else {
				d = true
				for _, s := range b.Succs {
					if !dead[s.Index] {
						d = false
					}
				}
			}
			if d {
				dead[i] = true
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		if dead[i] {
			continue
		}
		if len(b.Succs) == 0 {
			succs[i] = append(succs[i], exit)
		}
		for _, s := range b.Succs {
			if !dead[s.Index] {
				succs[i] = append(succs[i], s.Index)
			}
		}
	}
	for i := range succs {
		for _, s := range succs[i] {
			preds[s] = append(preds[s], i)
		}
	}
	// bitset dataflow (functions are small)
	words := (n + 64) / 64
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = make([]uint64, words)
		if i != exit {
			for w := range pd[i] {
				pd[i][w] = ^uint64(0)
			}
		}
	}
	set := func(b []uint64, i int) { b[i/64] |= 1 << (i % 64) }
	has := func(b []uint64, i int) bool { return b[i/64]>>(i%64)&1 != 0 }
	set(pd[exit], exit)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if dead[i] || len(succs[i]) == 0 {
				continue
			}
			nw := make([]uint64, words)
			for w := range nw {
				nw[w] = ^uint64(0)
			}
			for _, s := range succs[i] {
				for w := range nw {
					nw[w] &= pd[s][w]
				}
			}
			set(nw, i)
			for w := range nw {
				if nw[w] != pd[i][w] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	r := make([]int, n)
	for i := range r {
		r[i] = -1
		if dead[i] {
			continue
		}
		// the strict post-dominator that all others post-dominate: the one with the largest set
		best, cnt := -1, -1
		for j := 0; j < n; j++ {
			if j == i || dead[j] || !has(pd[i], j) {
				continue
			}
			k := 0
			for q := 0; q <= n; q++ {
				if has(pd[j], q) {
					k++
				}
			}
			if k > cnt {
				best, cnt = j, k
			}
		}
		// infinite loops have "everything" as post-dominators
		if best >= 0 && !has(pd[i], exit) {
			best = -1
		}
		r[i] = best
	}
	return r
}

func (x *Exec) callInfo(c *ssa.CallCommon) *callInfo {
	ci := &callInfo{sig: c.Signature()}
	if c.IsInvoke() {
		ci.invoke = true
		ci.method = c.Method
		return ci
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		ci.biname = v.Name()
		if ci.biname == "" {
			ci.biname = "?"
		}
	case *ssa.Function:
		ci.static = v
		ci.intr = x.lookupIntrinsic(v)
	}
	return ci
}

var _ = math.NaN
