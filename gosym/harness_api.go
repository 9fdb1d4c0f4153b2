package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) inputName(st *State, name Value) string {
	n, ok := name.P.(string)
	if !ok {
		panic(unsupported("symbolic input name"))
	}
	k := 0
	for _, r := range st.inputs {
		if len(r.name) > len(n) && r.name[:len(n)] == n && r.name[len(n)] == '#' {
			k++
		}
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func (x *Exec) input(st *State, name Value, tag ST, sort Sort) *Term {
	full := x.inputName(st, name)
	t := x.ctx.Var(full+":"+sortSMT(sort), sort)
	st.inputs = append(st.inputs, inputRec{name: full, tag: tag, t: t})
	return t
}

func regHarness() {
	c := func(x *Exec) *Ctx { return x.ctx }
	regv(func(x *Exec, st *State, a []Value) Value {
		return x.fromTerm(x.input(st, a[0], TU8, bv(8)), TU8)
	}, "zzv_Byte")
	regv(func(x *Exec, st *State, a []Value) Value {
		return x.fromTerm(x.input(st, a[0], TBool, boolSort), TBool)
	}, "zzv_Bool")
	reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		lo, hi := a[1].int(), a[2].int()
		if lo == hi {
			st.inputs = append(st.inputs, inputRec{name: x.inputName(st, a[0]), tag: TI64, v: uint64(lo)})
			return one(st, vInt(lo))
		}
		if lo >= 0 {
			w := 1
			for w < 63 && 1<<w <= hi-lo {
				w++
			}
			n := x.inputName(st, a[0])
			v := c(x).Bin(OAdd, c(x).Zext(c(x).VarMax(n+":"+strconv.Itoa(w)+":"+strconv.Itoa(hi-lo), w, uint64(hi-lo)), 64), c(x).BV(uint64(lo), 64))
			st.inputs = append(st.inputs, inputRec{name: n, tag: TI64, t: v})
			return one(st, x.fromTerm(v, TI64))
		}
		t := x.input(st, a[0], TI64, bv(64))
		cond := c(x).And(c(x).Sle(c(x).BV(uint64(lo), 64), t), c(x).Sle(t, c(x).BV(uint64(hi), 64)))
		if lo == math.MinInt64 && hi == math.MaxInt64 {
			cond = c(x).tTrue
		}
		x.addInputBound(st, cond, t, uint64(lo))
		return one(st, x.fromTerm(t, TI64))
	}, "zzv_Int")
	reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		n := a[1].int()
		if n == 1 {
			st.inputs = append(st.inputs, inputRec{name: x.inputName(st, a[0]), tag: TI64})
			return one(st, vInt(0))
		}
		w := 1
		for 1<<w < n {
			w++
		}
		nm := x.inputName(st, a[0])
		t := c(x).VarMax(nm+":"+strconv.Itoa(w)+":"+strconv.Itoa(n-1), w, uint64(n-1))
		st.inputs = append(st.inputs, inputRec{name: nm, tag: TI64, t: c(x).Zext(t, 64)})
		var outs []Out
		for _, s := range x.concretize(st, t, n+1) {
			outs = append(outs, Out{st: s.st, v: vInt(int(s.v))})
		}
		return outsOrEmpty(outs)
	}, "zzv_Choose")
	reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		if a[0].K == KScalar {
			return one(st, a[0])
		}
		var outs []Out
		for _, s := range x.concretize(st, x.idx64(a[0]), 4096) {
			outs = append(outs, Out{st: s.st, v: scalar(TI64, s.v)})
		}
		return outsOrEmpty(outs)
	}, "zzv_Concretize")
	regv(func(x *Exec, st *State, a []Value) Value {
		lo, hi := a[1].f64(), a[2].f64()
		if x.realMode {
			t := x.input(st, a[0], TF64, realSort)
			if b, ok := x.ctx.rb[t.id]; ok && b != (ival{lo, hi}) {
				panic(unsupported("real input with two ranges"))
			}
			x.ctx.rb[t.id] = ival{lo, hi}
			st.model = st.model.extend(map[int32]uint64{t.id: math.Float64bits(lo)})
			return x.fromTerm(t, TF64)
		}
		t := x.input(st, a[0], TF64, fp64Sort)
		x.addPC(st, x.ctx.FCmp(OFLe, x.ctx.F64(lo), t))
		x.addPC(st, x.ctx.FCmp(OFLe, t, x.ctx.F64(hi)))
		st.model = st.model.extend(map[int32]uint64{t.id: math.Float64bits(lo)})
		return x.fromTerm(t, TF64)
	}, "zzv_F64")
	regv(func(x *Exec, st *State, a []Value) Value {
		// any float32, including NaN and infinities
		if x.realMode {
			panic(unsupported("float32 input in real mode"))
		}
		t := x.input(st, a[0], TF32, fp32Sort)
		return x.fromTerm(t, TF32)
	}, "zzv_AnyF32")
	regv(func(x *Exec, st *State, a []Value) Value {
		if x.realMode {
			panic(unsupported("any float64 input in real mode"))
		}
		t := x.input(st, a[0], TF64, fp64Sort)
		return x.fromTerm(t, TF64)
	}, "zzv_AnyF64")
	regv(func(x *Exec, st *State, a []Value) Value {
		n := a[0].P.(string)
		v, ok := x.job.Params[n]
		if !ok {
			panic(unsupported("missing parameter " + n))
		}
		return vInt(v)
	}, "zzv_Param")
	regv(func(x *Exec, st *State, a []Value) Value { return vBool(true) }, "zzv_Symbolic")
	regv(func(x *Exec, st *State, a []Value) Value {
		if a[0].K == KScalar && a[1].K == KScalar {
			return vBool(a[0].N == a[1].N)
		}
		if a[0].K == KScalar || a[1].K == KScalar {
			return vBool(false)
		}
		return vBool(a[0].term() == a[1].term())
	}, "zzv_Identical")
	reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		v := a[0]
		bad(v, "assume")
		if v.K == KScalar {
			if v.N == 0 {
				return []Out{}
			}
			return one(st, Value{})
		}
		t, _ := x.assumeTerm(st, v.term())
		if t == nil {
			return []Out{}
		}
		return one(t, Value{})
	}, "zzv_Assume")
	reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return x.assertV(st, a[0], a[1])
	}, "zzv_Assert")
	regv(func(x *Exec, st *State, a []Value) Value {
		l := a[0].P.(string)
		for _, r := range st.reach {
			if r == l {
				return Value{}
			}
		}
		st.reach = append(st.reach, l)
		x.job.reached[l] = true
		return Value{}
	}, "zzv_Reach")
	regv(func(x *Exec, st *State, a []Value) Value {
		n := a[0].P.(string)
		v := a[1]
		if i := v.iface(); i != nil {
			v = i.v
			if _, ok := i.t.Underlying().(*types.Slice); ok {
				v = Value{K: KAgg, P: append([]Value(nil), x.sliceCells(st, v)...)}
			}
		}
		st.obs = append(st.obs, obsRec{n, v})
		return Value{}
	}, "zzv_Observe")
}

// addInputBound adds a domain constraint; val satisfies it.
func (x *Exec) addInputBound(st *State, cond, t *Term, val uint64) {
	st.model = st.model.extend(map[int32]uint64{t.id: val})
	x.addPC(st, cond)
}

func (x *Exec) assumeTerm(st *State, c *Term) (*State, bool) {
	c = x.simp(st, c)
	if c.op == OConst {
		if c.val == 0 {
			return nil, true
		}
		return st, true
	}
	r, m := x.feasible(st, c)
	if r == Sat {
		x.assume(st, c, m)
		return st, true
	}
	if r == Unknown {
		x.cut("solver gave no answer on an assumption")
	}
	return nil, r == Unsat
}

func (x *Exec) assertV(st *State, v, msg Value) []Out {
	bad(v, "assert")
	m, _ := msg.P.(string)
	j := x.job
	j.mu.Lock()
	j.Asserts++
	j.assertMsgs[m]++
	j.mu.Unlock()
	if v.K == KScalar {
		if v.N == 0 {
			x.violation(st, st.model, m, false)
			return []Out{}
		}
		j.addDischarged(1)
		return one(st, Value{})
	}
	c := x.simp(st, v.term())
	if c.op == OConst {
		return x.assertV2(st, c.val != 0, m)
	}
	nc := x.ctx.Not(c)
	r, mod := x.feasible(st, nc)
	switch r {
	case Sat:
		x.violation(st, mod, m, nc.hasUF)
	case Unsat:
		j.addDischarged(1)
		if !c.hasReal { // proven facts only burden real arithmetic
			x.addPCraw(st, c)
		}
		return one(st, Value{})
	default:
		j.mu.Lock()
		j.Unknown = append(j.Unknown, m)
		j.mu.Unlock()
	}
	t, _ := x.assumeTerm(st, c)
	if t == nil {
		return []Out{}
	}
	return one(t, Value{})
}

func (x *Exec) assertV2Counted(st *State, ok bool, m string) []Out {
	x.job.mu.Lock()
	x.job.Asserts++
	x.job.assertMsgs[m]++
	x.job.mu.Unlock()
	return x.assertV2(st, ok, m)
}

// synchronised tells whether an object belongs to the standard library, which
// synchronises its own state.
func synchronised(o *Obj) bool {
	if o.what == "sync.Map" {
		return true
	}
	if o.typ != nil {
		if n, ok := o.typ.(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync", "sync/atomic", "internal/sync":
				return true
			}
		}
	}
	return o.glob && !ownGlobal(o)
}

// ownGlobal tells whether an object is a package variable of the code under test.
func ownGlobal(o *Obj) bool {
	return o != nil && (strings.HasPrefix(o.what, modPath) || !o.glob)
}

func (x *Exec) assertV2(st *State, ok bool, m string) []Out {
	if !ok {
		x.violation(st, st.model, m, false)
		return []Out{}
	}
	x.job.addDischarged(1)
	return one(st, Value{})
}
