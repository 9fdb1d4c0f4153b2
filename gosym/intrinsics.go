package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic struct {
	f func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out
}

var intrinsics map[string]*intrinsic

// stubList documents which library functions are modelled rather than executed.
func stubNames() []string {
	var r []string
	for k := range intrinsics {
		if !strings.HasPrefix(k, "zzv_") {
			r = append(r, k)
		}
	}
	return r
}

func (x *Exec) lookupIntrinsic(fn *ssa.Function) *intrinsic {
	if fn == nil {
		return nil
	}
	if x.stubs != nil {
		if in, ok := x.stubs[fn.String()]; ok {
			return in
		}
	}
	n := fn.Name()
	if strings.HasPrefix(n, "zzv_") {
		if in, ok := intrinsics[n]; ok {
			return in
		}
		return nil
	}
	if fn.Pkg == nil && fn.Object() == nil && fn.Synthetic == "" {
		return nil
	}
	if o := fn.Origin(); o != nil && o != fn {
		if in, ok := intrinsics[o.String()]; ok {
			return in
		}
	}
	if in, ok := intrinsics[fn.String()]; ok {
		return in
	}
	return nil
}

func reg(f func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out, names ...string) {
	for _, n := range names {
		intrinsics[n] = &intrinsic{f}
	}
}

// regv registers a single-outcome intrinsic.
func regv(f func(x *Exec, st *State, args []Value) Value, names ...string) {
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		return one(st, f(x, st, args))
	}, names...)
}

func init() {
	intrinsics = map[string]*intrinsic{}
	regFmt()
	nop := func(x *Exec, st *State, args []Value) Value { return Value{} }
	regv(nop, "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release")
	// A pool of the code under test hands out the last object put in (as it
	// does on one processor); those of the standard library a new one.
	poolCell := func(x *Exec, st *State, p Value, fn *ssa.Function) int {
		if p.N == 0 || !ownGlobal(st.heap.get(uint32(p.N>>32))) {
			return -1
		}
		pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		l, str := x.lay.of(pt), pt.Underlying().(*types.Struct)
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Name() == "local" {
				return int(uint32(p.N)) + l.fields[i]
			}
		}
		return -1
	}
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		if i := poolCell(x, st, args[0], fn); i >= 0 && args[1].iface() != nil {
			st.heap.mut(uint32(args[0].N >> 32)).cells[i] = args[1]
			x.release(st, args[1], true, 0)
		}
		return one(st, Value{})
	}, "(*sync.Pool).Put")
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		p := args[0]
		l := x.lay.of(fn.Signature.Recv().Type().(*types.Pointer).Elem())
		o := st.heap.get(uint32(p.N >> 32))
		if i := poolCell(x, st, p, fn); i >= 0 && o.cells[i].K == KIface && o.cells[i].iface() != nil {
			v := o.cells[i]
			st.heap.mut(uint32(p.N >> 32)).cells[i] = Value{K: KPtr}
			x.release(st, v, false, 0)
			return one(st, v)
		}
		str := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Name() == "New" {
				nv := o.cells[int(uint32(p.N))+l.fields[i]]
				if nv.P == nil {
					return one(st, Value{K: KIface})
				}
				return x.callValue(st, nv, nil, nil)
			}
		}
		return one(st, Value{K: KIface})
	}, "(*sync.Pool).Get")
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		p := args[0]
		o := st.heap.mut(uint32(p.N >> 32))
		// first cell that is an unsigned integer serves as the done flag
		l := x.lay.of(fn.Signature.Recv().Type().(*types.Pointer).Elem())
		for i := 0; i < l.n; i++ {
			c := &o.cells[int(uint32(p.N))+i]
			if c.K == KScalar && c.T.isInt() {
				if c.N != 0 {
					return one(st, Value{})
				}
				c.N = 1
				return x.callValue(st, args[1], nil, nil)
			}
		}
		panic(unsupported("sync.Once layout"))
	}, "(*sync.Once).Do")
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		regAtomic(t)
	}
	regv(func(x *Exec, st *State, args []Value) Value { return args[0] }, "strings.noescape", "internal/abi.NoEscape", "bytes.noescape", "internal/abi.Escape")

	// math
	for _, n := range []string{"Sin", "Cos", "Tan", "Log", "Log10", "Exp", "Log2", "Log1p", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Tanh", "Exp2", "Expm1", "Cbrt"} {
		n := n
		regv(func(x *Exec, st *State, args []Value) Value { return x.math1(st, n, args[0]) }, "math."+n)
	}
	regv(func(x *Exec, st *State, args []Value) Value {
		a := args[0]
		bad(a, "Abs")
		if a.K == KScalar {
			return vF64(math.Abs(a.f64()))
		}
		t := a.term()
		if t.sort.K == SReal {
			return x.fromTerm(x.ctx.Ite(x.ctx.RCmp(ORLt, t, x.ctx.RealF(0)), x.ctx.RNeg(t), t), TF64)
		}
		return x.fromTerm(x.ctx.FAbs(t), TF64)
	}, "math.Abs")
	for m, n := range []string{"Trunc", "Floor", "Ceil"} {
		m, n := m, n
		regv(func(x *Exec, st *State, args []Value) Value {
			a := args[0]
			bad(a, n)
			if a.K == KScalar {
				return vF64([]func(float64) float64{math.Trunc, math.Floor, math.Ceil}[m](a.f64()))
			}
			t := a.term()
			if t.sort.K == SReal {
				switch m {
				case 0:
					return x.fromTerm(x.ctx.mk(ORTrunc, realSort, 0, "", nil, t), TF64)
				case 1:
					return x.fromTerm(x.ctx.mk(ORFloor, realSort, 0, "", nil, t), TF64)
				}
				return x.fromTerm(x.ctx.RNeg(x.ctx.mk(ORFloor, realSort, 0, "", nil, x.ctx.RNeg(t))), TF64)
			}
			return x.fromTerm(x.ctx.FRti(t, uint64(m)), TF64)
		}, "math."+n)
	}
	regv(func(x *Exec, st *State, args []Value) Value {
		a := args[0]
		bad(a, "Sqrt")
		if a.K == KScalar {
			return vF64(math.Sqrt(a.f64()))
		}
		if t := a.term(); t.sort.K == SReal {
			return x.fromTerm(x.ctx.UF("sqrt", realSort, t), TF64)
		}
		return x.fromTerm(x.ctx.FSqrt(a.term()), TF64)
	}, "math.Sqrt", "math.sqrt")
	regv(func(x *Exec, st *State, args []Value) Value {
		a := args[0]
		bad(a, "IsNaN")
		if a.K == KScalar {
			return vBool(math.IsNaN(a.f64()))
		}
		if a.term().sort.K == SReal {
			return vBool(false)
		}
		return x.fromTerm(x.ctx.FIsNaN(a.term()), TBool)
	}, "math.IsNaN")
	regv(func(x *Exec, st *State, args []Value) Value {
		a := args[0]
		bad(a, "IsInf")
		sg := args[1]
		if sg.K != KScalar {
			panic(unsupported("IsInf sign"))
		}
		if a.K == KScalar {
			return vBool(math.IsInf(a.f64(), sg.int()))
		}
		if a.term().sort.K == SReal {
			return vBool(false)
		}
		c := x.ctx
		r := c.tFalse
		if sg.int() >= 0 {
			r = c.Or(r, c.FCmp(OFEq, a.term(), c.F64(math.Inf(1))))
		}
		if sg.int() <= 0 {
			r = c.Or(r, c.FCmp(OFEq, a.term(), c.F64(math.Inf(-1))))
		}
		return x.fromTerm(r, TBool)
	}, "math.IsInf")
	regv(func(x *Exec, st *State, args []Value) Value { return x.mathPow(st, args[0], args[1]) }, "math.Pow")
	reg(mathMod, "math.Mod")
	regv(func(x *Exec, st *State, args []Value) Value { return x.mathMinMax(args[0], args[1], false) }, "math.Min")
	regv(func(x *Exec, st *State, args []Value) Value { return x.mathMinMax(args[0], args[1], true) }, "math.Max")
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		a := args[0]
		bad(a, "Pow10")
		if a.K == KScalar {
			return one(st, vF64(math.Pow10(a.int())))
		}
		var outs []Out
		for _, c := range x.concretize(st, x.idx64(a), 260) {
			outs = append(outs, Out{st: c.st, v: vF64(math.Pow10(int(int64(c.v))))})
		}
		return outsOrEmpty(outs)
	}, "math.Pow10")
	for _, n := range []string{"Hypot", "Atan2", "Copysign", "Remainder", "Dim"} {
		n := n
		reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
			return x.math2(st, n, args[0], args[1])
		}, "math."+n)
	}
	regv(func(x *Exec, st *State, args []Value) Value {
		bad(args[0], "Signbit")
		if args[0].K == KScalar {
			return vBool(math.Signbit(args[0].f64()))
		}
		return x.fromTerm(x.signbit(args[0].term()), TBool)
	}, "math.Signbit")
	regv(func(x *Exec, st *State, args []Value) Value {
		return vTuple(x.math1(st, "Sin", args[0]), x.math1(st, "Cos", args[0]))
	}, "math.Sincos")
	regv(func(x *Exec, st *State, args []Value) Value {
		a := args[0]
		bad(a, "Modf")
		if a.K == KScalar {
			i, f := math.Modf(a.f64())
			return vTuple(vF64(i), vF64(f))
		}
		c, t := x.ctx, a.term()
		if t.sort.K == SReal {
			i := c.mk(ORTrunc, realSort, 0, "", nil, t)
			return vTuple(x.fromTerm(i, TF64), x.fromTerm(c.RBin(ORSub, t, i), TF64))
		}
		i := c.FRti(t, 0)
		fr := c.FBin(OFSub, t, i)
		inf := c.FCmp(OFEq, c.FAbs(t), c.F64(math.Inf(1)))
		return vTuple(x.fromTerm(i, TF64), x.fromTerm(c.Ite(inf, c.F64(math.NaN()), fr), TF64))
	}, "math.Modf")
	regv(func(x *Exec, st *State, args []Value) Value {
		a, b, d := args[0], args[1], args[2]
		if a.K == KScalar && b.K == KScalar && d.K == KScalar {
			return vF64(math.FMA(a.f64(), b.f64(), d.f64()))
		}
		if !isReal(a) && !isReal(b) && !isReal(d) {
			panic(unsupported("symbolic math.FMA"))
		}
		c := x.ctx
		return x.fromTerm(c.RBin(ORAdd, c.RBin(ORMul, x.toTerm(a, true), x.toTerm(b, true)), x.toTerm(d, true)), TF64)
	}, "math.FMA")
	regv(func(x *Exec, st *State, args []Value) Value {
		a := args[0]
		bad(a, "Round")
		if a.K == KScalar {
			return vF64(math.Round(a.f64()))
		}
		t := a.term()
		c := x.ctx
		if t.sort.K == SReal {
			neg := c.RCmp(ORLt, t, c.RealF(0))
			fl := c.mk(ORFloor, realSort, 0, "", nil, c.RBin(ORAdd, c.Ite(neg, c.RNeg(t), t), c.RealF(0.5)))
			return x.fromTerm(c.Ite(neg, c.RNeg(fl), fl), TF64)
		}
		// half away from zero: trunc(x) + (|x-trunc(x)| >= 0.5 ? sign : 0)
		tr := c.FRti(t, 0)
		d := c.FAbs(c.FBin(OFSub, t, tr))
		up := c.FCmp(OFLe, c.F64(0.5), d)
		pos := c.FCmp(OFLe, c.F64(0), t)
		return x.fromTerm(c.Ite(up, c.Ite(pos, c.FBin(OFAdd, tr, c.F64(1)), c.FBin(OFSub, tr, c.F64(1))), tr), TF64)
	}, "math.Round")
	regv(func(x *Exec, st *State, args []Value) Value {
		if args[0].K == KScalar {
			return scalar(TU64, args[0].N)
		}
		return x.floatBits(args[0], 64)
	}, "math.Float64bits")
	regv(func(x *Exec, st *State, args []Value) Value {
		if args[0].K == KScalar {
			return scalar(TU32, args[0].N)
		}
		return x.floatBits(args[0], 32)
	}, "math.Float32bits")
	regv(func(x *Exec, st *State, args []Value) Value {
		bad(args[0], "frombits")
		if args[0].K == KScalar {
			return scalar(TF64, args[0].N)
		}
		return x.fromTerm(x.ctx.FOfBits(args[0].term()), TF64)
	}, "math.Float64frombits")
	regv(func(x *Exec, st *State, args []Value) Value {
		bad(args[0], "frombits")
		if args[0].K == KScalar {
			return scalar(TF32, args[0].N)
		}
		return x.fromTerm(x.ctx.FOfBits(args[0].term()), TF32)
	}, "math.Float32frombits")

	// byte searching (assembly)
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		return x.indexByte(st, x.sliceCells(st, args[0]), args[1])
	}, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		if s, ok := args[0].P.(string); ok && args[1].K == KScalar {
			return one(st, vInt(strings.IndexByte(s, byte(args[1].N))))
		}
		return x.indexByte(st, strBytes(args[0]), args[1])
	}, "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	regv(func(x *Exec, st *State, args []Value) Value {
		return x.fromTerm(x.eqBytes(x.sliceCells(st, args[0]), x.sliceCells(st, args[1])), TBool)
	}, "bytes.Equal", "internal/bytealg.Equal")
	regv(func(x *Exec, st *State, args []Value) Value {
		n := 0
		for _, b := range x.sliceCells(st, args[0]) {
			if b.K != KScalar || args[1].K != KScalar {
				panic(unsupported("symbolic byte count"))
			}
			if b.N == args[1].N {
				n++
			}
		}
		return vInt(n)
	}, "internal/bytealg.Count")
	regv(func(x *Exec, st *State, args []Value) Value {
		n := 0
		for _, b := range strBytes(args[0]) {
			if b.K != KScalar || args[1].K != KScalar {
				panic(unsupported("symbolic byte count"))
			}
			if b.N == args[1].N {
				n++
			}
		}
		return vInt(n)
	}, "internal/bytealg.CountString")
	regv(func(x *Exec, st *State, args []Value) Value {
		a, ok := args[0].P.(string)
		b, ok2 := args[1].P.(string)
		if !ok || !ok2 {
			panic(unsupported("symbolic substring search"))
		}
		return vInt(strings.Index(a, b))
	}, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	regv(func(x *Exec, st *State, args []Value) Value {
		a, ok := args[0].P.(string)
		b, ok2 := args[1].P.(string)
		if !ok || !ok2 {
			panic(unsupported("symbolic string compare"))
		}
		return vInt(strings.Compare(a, b))
	}, "internal/bytealg.CompareString", "strings.Compare")
	regv(func(x *Exec, st *State, args []Value) Value {
		// MakeNoZero
		n := args[0].int()
		cells := make([]Value, n)
		for i := range cells {
			cells[i] = scalar(TU8, 0)
		}
		return x.newSlice(st, cells, 1, "MakeNoZero")
	}, "internal/bytealg.MakeNoZero")

	// program end
	exit := func(st *State, code Value) []Out {
		return []Out{{st: st, pan: &Panic{exit: true, code: code, msg: "program exits", v: Value{K: KIface}}}}
	}
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out { return exit(st, args[0]) }, "os.Exit", "syscall.Exit")
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out { return exit(st, vInt(1)) },
		"log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln")
	regv(nop, "log.Print", "log.Printf", "log.Println", "log.SetFlags", "log.SetPrefix", "log.SetOutput",
		"(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).SetFlags", "(*log.Logger).SetPrefix", "(*log.Logger).SetOutput")
	// zzv_Fresh runs a function on the package variables as they are at program
	// start, and puts them back afterwards.
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		var ids []uint32
		var old []*Obj
		for id := uint32(1); id < x.p.nobj; id++ {
			o := st.heap.get(id)
			ids, old = append(ids, id), append(old, o)
			if b := x.p.base.get(id); b != o && b != nil {
				st.heap.path(id).obj[id&(fan-1)] = b
			}
		}
		outs := x.callValue(st, args[0], nil, nil)
		for _, o := range outs {
			for i, id := range ids {
				if o.st.heap.get(id) == old[i] || old[i] == nil {
					continue
				}
				c := *old[i]
				c.cells = append([]Value(nil), c.cells...)
				c.m = append([]mapEnt(nil), c.m...)
				o.st.heap.put(id, &c)
			}
		}
		return outs
	}, "zzv_Fresh")
	// zzv_Parallel runs a function that other goroutines may be running too: it
	// must not write to memory that exists already.
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		st.heap.own = newStamp()
		before := st.heap.root
		limit := x.nextObj
		var res []Out
		x.parallel++
		outs := x.callValue(st, args[0], nil, nil)
		x.parallel--
		for _, o := range outs {
			if o.pan != nil {
				continue // judged elsewhere
			}
			var shared []string
			diffHeaps(before, o.st.heap.root, levels-1, 0, func(id uint32, a, b *Obj) {
				if id < limit && a != nil && b != nil && !synchronised(a) {
					shared = append(shared, a.what)
				}
			})
			if len(shared) == 0 {
				res = append(res, x.assertV2Counted(o.st, true, "writes no memory shared with other calls")...)
				continue
			}
			sort.Strings(shared)
			if debugEngine {
				fmt.Fprintln(os.Stderr, "SHARED", shared)
			}
			x.assertV2Counted(o.st, false, "data race: writes memory that other calls use ("+shared[0]+")")
			res = append(res, Out{st: o.st}) // the memory may be locked: go on
		}
		return outsOrEmpty(res)
	}, "zzv_Parallel")
	// zzv_Catch runs a function and returns the exit code, -1 if it returns.
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		outs := x.callValue(st, args[0], nil, nil)
		for i := range outs {
			switch o := &outs[i]; {
			case o.pan == nil:
				o.v = vInt(-1)
			case o.pan.exit:
				o.v, o.pan = o.pan.code, nil
			}
		}
		return outs
	}, "zzv_Catch")

	// the clock stands still at the time of the check
	started := time.Now()
	regv(func(x *Exec, st *State, args []Value) Value {
		return vTuple(vInt(int(started.Unix())), scalar(TI32, uint64(started.Nanosecond())), vInt(0))
	}, "time.runtimeNow", "time.now")
	regv(func(x *Exec, st *State, args []Value) Value { return vInt(int(started.UnixNano())) }, "time.runtimeNano")

	// no GODEBUG setting is changed
	regv(func(x *Exec, st *State, args []Value) Value { return vStr("") }, "(*internal/godebug.Setting).Value")
	regv(func(x *Exec, st *State, args []Value) Value { return Value{} }, "(*internal/godebug.Setting).IncNonDefault")

	// formatting
	reg(fmtErrorf, "fmt.Errorf")
	regv(func(x *Exec, st *State, args []Value) Value {
		// fmt.indexRune(s string, r rune) int
		s, r := args[0], args[1]
		if r.K == KScalar {
			if cs, ok := s.P.(string); ok {
				return vInt(strings.IndexRune(cs, rune(int32(r.N))))
			}
		}
		cs, ok := s.P.(string)
		if !ok {
			return x.runeIndexSym(st, s, r)
		}
		res := scalar(TI64, ^uint64(0))
		idx := len(cs)
		_ = idx
		type pr struct {
			i int
			r rune
		}
		var ps []pr
		for i, q := range cs {
			ps = append(ps, pr{i, q})
		}
		t := x.toTerm(r, false)
		for k := len(ps) - 1; k >= 0; k-- {
			res, _ = x.ite(x.ctx.Eq(t, x.ctx.BV(uint64(uint32(ps[k].r)), 32)), vInt(ps[k].i), res, true)
		}
		return res
	}, "fmt.indexRune")
	reg(parseFloat, "strconv.ParseFloat")
	reg(mathLdexp, "math.Ldexp", "math.ldexp")
	reg(sortSlice, "sort.Slice", "sort.SliceStable")
	reg(errorsIs, "errors.Is")
	regv(func(x *Exec, st *State, args []Value) Value { return opaqueStr("time.quote") }, "time.quote", "strconv.Quote", "time.stringsClone", "strings.Clone_")
	regv(func(x *Exec, st *State, args []Value) Value {
		if args[0].K == KScalar && args[1].K == KScalar && args[2].K == KScalar {
			return Value{}
		}
		return Value{}
	}, "time.dummy")
	regv(func(x *Exec, st *State, args []Value) Value { return args[0] }, "strings.Clone", "internal/stringslite.Clone")
	regv(func(x *Exec, st *State, args []Value) Value {
		return x.fromTermOrConst(st, args)
	}, "zzv_dummy")
	// compress/bzip2 is the identity: archives are given to the code under
	// test uncompressed in the model and compressed in the replay
	regv(func(x *Exec, st *State, args []Value) Value { return args[0] }, "compress/bzip2.NewReader")
	regHarness()
}

func (x *Exec) fromTermOrConst(st *State, args []Value) Value { return Value{} }

func regAtomic(t string) {
	loc := func(st *State, p Value) (*Obj, int) {
		if p.N == 0 {
			panic(unsupported("atomic on nil"))
		}
		return st.heap.get(uint32(p.N >> 32)), int(uint32(p.N))
	}
	regv(func(x *Exec, st *State, a []Value) Value {
		o, i := loc(st, a[0])
		return o.cells[i]
	}, "sync/atomic.Load"+t)
	regv(func(x *Exec, st *State, a []Value) Value {
		o := st.heap.mut(uint32(a[0].N >> 32))
		o.cells[uint32(a[0].N)] = a[1]
		return Value{}
	}, "sync/atomic.Store"+t)
	regv(func(x *Exec, st *State, a []Value) Value {
		o := st.heap.mut(uint32(a[0].N >> 32))
		old := o.cells[uint32(a[0].N)]
		o.cells[uint32(a[0].N)] = a[1]
		return old
	}, "sync/atomic.Swap"+t)
	regv(func(x *Exec, st *State, a []Value) Value {
		o := st.heap.mut(uint32(a[0].N >> 32))
		c := x.eqTerm(o.cells[uint32(a[0].N)], a[1])
		if c.op != OConst {
			panic(unsupported("symbolic CAS"))
		}
		if c.val != 0 {
			o.cells[uint32(a[0].N)] = a[2]
		}
		return vBool(c.val != 0)
	}, "sync/atomic.CompareAndSwap"+t)
	regv(func(x *Exec, st *State, a []Value) Value {
		o := st.heap.mut(uint32(a[0].N >> 32))
		v := o.cells[uint32(a[0].N)]
		v.N += a[1].N
		v.N = norm(v.T, v.N)
		o.cells[uint32(a[0].N)] = v
		return v
	}, "sync/atomic.Add"+t)
}

func (x *Exec) eqBytes(a, b []Value) *Term {
	if len(a) != len(b) {
		return x.ctx.tFalse
	}
	r := x.ctx.tTrue
	for i := range a {
		r = x.ctx.And(r, x.ctx.Eq(x.toTerm(a[i], false), x.toTerm(b[i], false)))
	}
	return r
}

func (x *Exec) indexByte(st *State, b []Value, c Value) []Out {
	cur := st
	outs := []Out{}
	for i, v := range b {
		if v.K == KScalar && c.K == KScalar {
			if v.N == c.N {
				outs = append(outs, Out{st: cur, v: vInt(i)})
				return outs
			}
			continue
		}
		bad(v, "byte search")
		t, f := x.branch(cur, x.ctx.Eq(x.toTerm(v, false), x.toTerm(c, false)))
		if t != nil {
			outs = append(outs, Out{st: t, v: vInt(i)})
		}
		cur = f
		if cur == nil {
			return outs
		}
	}
	return append(outs, Out{st: cur, v: scalar(TI64, ^uint64(0))})
}

func (x *Exec) runeIndexSym(st *State, s, r Value) Value {
	// only ASCII strings
	res := scalar(TI64, ^uint64(0))
	bs := strBytes(s)
	for k := len(bs) - 1; k >= 0; k-- {
		b := bs[k]
		if b.K == KTerm {
			if b.term().hi >= 0x80 {
				if rr, _ := x.feasible(st, x.ctx.Not(x.ctx.Ult(b.term(), x.ctx.BV(0x80, 8)))); rr != Unsat {
					panic(unsupported("rune search in symbolic non-ASCII string"))
				}
			}
		} else if b.N >= 0x80 {
			panic(unsupported("rune search in non-ASCII string"))
		}
		t := x.ctx.Zext(x.toTerm(b, false), 32)
		res, _ = x.ite(x.ctx.Eq(t, x.toTerm(r, false)), vInt(k), res, true)
	}
	return res
}

// ---- formatting

func (x *Exec) format(st *State, f, argv Value) Value {
	fs, ok := f.P.(string)
	if !ok {
		return opaqueStr("format")
	}
	var as []any
	for _, a := range x.sliceCells(st, argv) {
		i := a.iface()
		if i == nil {
			return opaqueStr("format arg")
		}
		if _, named := i.t.(*types.Named); named {
			return opaqueStr("format arg")
		}
		switch i.v.K {
		case KStr:
			s, ok := i.v.P.(string)
			if !ok {
				return opaqueStr("format arg")
			}
			as = append(as, s)
		case KScalar:
			switch i.v.T {
			case TBool:
				as = append(as, i.v.N != 0)
			case TF32:
				as = append(as, i.v.f32())
			case TF64:
				as = append(as, i.v.f64())
			case TU8:
				as = append(as, byte(i.v.N))
			case TI32:
				as = append(as, rune(int32(i.v.N)))
			default:
				if i.v.T.signed() {
					as = append(as, int64(i.v.N))
				} else {
					as = append(as, i.v.N)
				}
			}
		default:
			return opaqueStr("format arg")
		}
	}
	return vStr(fmt.Sprintf(fs, as...))
}

func fmtErrorf(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
	msg := x.format(st, args[0], args[1])
	if fs, ok := args[0].P.(string); ok && strings.Contains(fs, "%w") {
		msg = opaqueStr("Errorf")
		// the operands of %w
		var wrapped []Value
		arg := 0
		all := x.sliceCells(st, args[1])
		for k := 0; k < len(fs); k++ {
			if fs[k] != '%' {
				continue
			}
			for k++; k < len(fs) && strings.IndexByte("+-# 0123456789.", fs[k]) >= 0; k++ {
			}
			if k >= len(fs) || fs[k] == '%' {
				continue
			}
			if fs[k] == '*' || fs[k] == '[' {
				panic(unsupported("format of fmt.Errorf"))
			}
			if fs[k] == 'w' && arg < len(all) {
				if i := all[arg].iface(); i != nil && types.Implements(i.t, x.errIface()) {
					wrapped = append(wrapped, all[arg])
				}
			}
			arg++
		}
		switch len(wrapped) {
		case 0:
		case 1:
			wt := x.p.pkgs["fmt"].Type("wrapError").Type()
			id := x.newObj(st, &Obj{cells: []Value{msg, wrapped[0]}, what: "wrapError"})
			return one(st, Value{K: KIface, P: &Iface{t: types.NewPointer(wt), v: vPtr(id, 0)}})
		default:
			wt := x.p.pkgs["fmt"].Type("wrapErrors").Type()
			id := x.newObj(st, &Obj{cells: []Value{msg, x.newSlice(st, wrapped, 1, "wrapErrors")}, what: "wrapErrors"})
			return one(st, Value{K: KIface, P: &Iface{t: types.NewPointer(wt), v: vPtr(id, 0)}})
		}
	}
	id := x.newObj(st, &Obj{cells: []Value{msg}, what: "error"})
	return one(st, Value{K: KIface, P: &Iface{t: x.p.errT, v: vPtr(id, 0)}})
}

func (x *Exec) errIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

// errTree visits err and what it wraps until visit finds what it looks for.
func (x *Exec) errTree(st *State, err Value, depth int, visit func(st *State, err Value) (*State, bool)) []Out {
	bad(err, "error")
	if err.iface() == nil {
		return one(st, vBool(false))
	}
	if depth > 20 {
		panic(unsupported("depth of errors"))
	}
	st, ok := visit(st, err)
	if ok {
		return one(st, vBool(true))
	}
	un := x.method(err.iface().t, "Unwrap")
	if un == nil {
		return one(st, vBool(false))
	}
	_, many := un.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	var outs []Out
	for _, o := range x.call(st, un, []Value{err.iface().v}, nil) {
		if o.pan != nil {
			outs = append(outs, o)
			continue
		}
		if !many {
			outs = append(outs, x.errTree(o.st, o.v, depth+1, visit)...)
			continue
		}
		todo := one(o.st, vBool(false))
		for _, e := range x.sliceCells(o.st, o.v) {
			var next []Out
			for _, p := range todo {
				if p.pan != nil || p.v.N != 0 {
					next = append(next, p)
				} else {
					next = append(next, x.errTree(p.st, e, depth+1, visit)...)
				}
			}
			todo = next
		}
		outs = append(outs, todo...)
	}
	return outsOrEmpty(outs)
}

func errorsIs(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
	target := args[1]
	if args[0].iface() == nil || target.iface() == nil {
		return one(st, vBool(args[0].iface() == nil && target.iface() == nil))
	}
	return x.errTree(st, args[0], 0, func(st *State, e Value) (*State, bool) {
		if types.Identical(e.iface().t, target.iface().t) {
			c := x.eqTerm(e, target)
			if c.op != OConst {
				panic(unsupported("symbolic errors.Is"))
			}
			if c.val != 0 {
				return st, true
			}
		}
		if is := x.method(e.iface().t, "Is"); is != nil {
			outs := x.call(st, is, []Value{e.iface().v, target}, nil)
			if len(outs) != 1 || outs[0].pan != nil || outs[0].v.K != KScalar {
				panic(unsupported("errors.Is with a symbolic Is method"))
			}
			return outs[0].st, outs[0].v.N != 0
		}
		return st, false
	})
}

// errorsAs looks for an error assignable to what the target points to.
func errorsAs(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
	t := args[1].iface()
	if t == nil {
		panic(unsupported("errors.As without target"))
	}
	pt, ok := t.t.Underlying().(*types.Pointer)
	if !ok || t.v.N == 0 {
		panic(unsupported("errors.As without target"))
	}
	want := pt.Elem()
	it, isI := want.Underlying().(*types.Interface)
	return x.errTree(st, args[0], 0, func(st *State, e Value) (*State, bool) {
		i := e.iface()
		switch {
		case isI && types.Implements(i.t, it):
			return st, x.store(st, t.v, e)
		case !isI && types.Identical(i.t, want):
			return st, x.store(st, t.v, i.v)
		case x.method(i.t, "As") != nil:
			panic(unsupported("errors.As with a method As"))
		}
		return st, false
	})
}

func (x *Exec) method(t types.Type, name string) *ssa.Function {
	ms := x.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return x.p.prog.MethodValue(s)
		}
	}
	return nil
}

// ---- strconv.ParseFloat on symbolic text

func parseFloat(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
	bits := args[1].int()
	mk := func(f float64, err error) Value {
		e := Value{K: KIface}
		if err != nil {
			id := x.newObj(st, &Obj{cells: []Value{vStr(err.Error())}, what: "error"})
			e = Value{K: KIface, P: &Iface{t: x.p.errT, v: vPtr(id, 0)}}
		}
		return vTuple(vF64(f), e)
	}
	if s, ok := args[0].P.(string); ok {
		f, err := strconv.ParseFloat(s, bits)
		return one(st, mk(f, err))
	}
	bs := strBytes(args[0])
	c := x.ctx
	type part struct {
		st         *State
		neg        bool
		dot        int
		digits     int
		nd         int
		m          *Term
		signed     bool
		bad, other bool
	}
	ps := []part{{st: st, dot: -1, m: c.BV(0, 64)}}
	for i, b := range bs {
		var nx []part
		for _, p := range ps {
			if p.bad || p.other {
				nx = append(nx, p)
				continue
			}
			t := x.toTerm(b, false)
			isd := c.And(c.Not(c.Ult(t, c.BV('0', 8))), c.Ult(t, c.BV('9'+1, 8)))
			d, nd := x.branch(p.st, isd)
			if d != nil {
				q := p
				q.st = d
				q.digits++
				q.m = c.Bin(OAdd, c.Bin(OMul, p.m, c.BV(10, 64)), c.Zext(c.Bin(OSub, t, c.BV('0', 8)), 64))
				nx = append(nx, q)
			}
			if nd == nil {
				continue
			}
			// sign, dot or something else
			try := func(ch byte, f func(q *part)) {
				if nd == nil {
					return
				}
				y, n := x.branch(nd, c.Eq(t, c.BV(uint64(ch), 8)))
				if y != nil {
					q := p
					q.st = y
					f(&q)
					nx = append(nx, q)
				}
				nd = n
			}
			try('.', func(q *part) {
				if q.dot >= 0 {
					q.bad = true
				}
				q.dot = q.digits
			})
			try('-', func(q *part) {
				if i != 0 {
					q.bad = true
				}
				q.neg = true
			})
			try('+', func(q *part) {
				if i != 0 {
					q.bad = true
				}
			})
			if nd != nil && p.digits == 0 {
				// only inf and nan start with something else
				var w *Term = c.tFalse
				for _, ch := range "iInN" {
					w = c.Or(w, c.Eq(t, c.BV(uint64(ch), 8)))
				}
				y, n := x.branch(nd, w)
				if n != nil {
					q := p
					q.st = n
					q.bad = true
					nx = append(nx, q)
				}
				nd = y
			}
			if nd != nil {
				q := p
				q.st = nd
				q.other = true
				nx = append(nx, q)
			}
		}
		ps = nx
	}
	outs := []Out{}
	for _, p := range ps {
		st = p.st
		switch {
		case p.other:
			// over-approximated: an error or any number
			p.st.approx = true
			x.nfresh++
			e, g := x.branch(p.st, c.Var(fmt.Sprintf("$any%d", x.nfresh), boolSort))
			if e != nil {
				outs = append(outs, Out{st: e, v: mk(0, strconv.ErrSyntax)})
			}
			if g != nil {
				outs = append(outs, Out{st: g, v: vTuple(x.anyF64(), Value{K: KIface})})
			}
			continue
		case p.bad || p.digits == 0:
			outs = append(outs, Out{st: p.st, v: mk(0, strconv.ErrSyntax)})
			continue
		}
		k := 0
		if p.dot >= 0 {
			k = p.digits - p.dot
		}
		if p.digits > 7 || k > 10 {
			panic(unsupported("ParseFloat of long symbolic text"))
		}
		s := fp64Sort
		if bits == 32 {
			s = fp32Sort
		}
		var f *Term
		if x.realMode {
			f = c.RBin(ORDiv, c.mk(ORFromU, realSort, 0, "", nil, p.m), c.RealF(math.Pow10(k)))
			if p.neg {
				f = c.RNeg(f)
			}
		} else {
			m := c.Bin(OBand, p.m, c.BV(1<<24-1, 64))
			f = c.FBin(OFDiv, c.FFromInt(m, false, s), c.fconst(s, math.Pow10(k)))
			if p.neg {
				f = c.FNeg(f)
			}
			if bits == 32 {
				f = c.FCvt(f, fp64Sort)
			}
		}
		outs = append(outs, Out{st: p.st, v: vTuple(x.fromTerm(f, TF64), Value{K: KIface})})
	}
	return outs
}

// anyF64 is an unconstrained number, used where a result is over-approximated.
func (x *Exec) anyF64() Value {
	x.nfresh++
	s := fp64Sort
	if x.realMode {
		s = realSort
	}
	return x.fromTerm(x.ctx.Var(fmt.Sprintf("$any%d", x.nfresh), s), TF64)
}

func mathLdexp(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
	if a[0].K == KScalar && a[1].K == KScalar {
		return one(st, vF64(math.Ldexp(a[0].f64(), a[1].int())))
	}
	st.approx = true
	return one(st, x.anyF64())
}

// ---- sort.Slice

func sortSlice(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
	i := args[0].iface()
	s := i.v.slice()
	if s == nil || s.n < 2 {
		return one(st, Value{})
	}
	swap := Value{K: KFunc, P: &Closure{native: func(x *Exec, st *State, a []Value) Value {
		if a[0].K != KScalar || a[1].K != KScalar {
			panic(unsupported("symbolic swap"))
		}
		o := st.heap.mut(s.obj)
		p, q := s.off+a[0].int()*s.strd, s.off+a[1].int()*s.strd
		for k := 0; k < s.strd; k++ {
			o.cells[p+k], o.cells[q+k] = o.cells[q+k], o.cells[p+k]
		}
		return Value{}
	}}}
	ls := Value{K: KAgg, P: []Value{args[1], swap}}
	sp := x.p.pkgs["sort"]
	if fn.Name() == "SliceStable" {
		return x.callFn(st, sp.Func("stable_func"), []Value{ls, vInt(s.n)}, nil, 0)
	}
	limit := 0
	for k := s.n; k > 0; k >>= 1 {
		limit++
	}
	return x.callFn(st, sp.Func("pdqsort_func"), []Value{ls, vInt(0), vInt(s.n), vInt(limit)}, nil, 0)
}
