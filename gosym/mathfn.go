package main

import (
	"math"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

var goMath = map[string]func(float64) float64{"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Log": math.Log, "Log10": math.Log10, "Exp": math.Exp, "Log2": math.Log2, "Log1p": math.Log1p, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh, "Exp2": math.Exp2, "Expm1": math.Expm1, "Cbrt": math.Cbrt, "sqrt": math.Sqrt}

var goMath2 = map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Hypot": math.Hypot, "Atan2": math.Atan2, "Copysign": math.Copysign, "Remainder": math.Remainder, "Dim": math.Dim}

// signbit is whether t is negative (the sign of NaN is taken as positive).
func (x *Exec) signbit(t *Term) *Term {
	c := x.ctx
	if t.sort.K == SReal {
		return c.RCmp(ORLt, t, c.RealF(0))
	}
	zero := c.F64(0)
	return c.Or(c.FCmp(OFLt, t, zero), c.FCmp(OFLt, c.FBin(OFDiv, c.F64(1), t), zero))
}

func (x *Exec) floatBits(v Value, w int) Value {
	bad(v, "bits")
	t := v.term()
	if t.sort.K == SReal {
		panic(unsupported("bits of a real"))
	}
	ty := TU64
	if w == 32 {
		ty = TU32
	}
	if t.op == OFOfBits {
		return x.fromTerm(t.a[0], ty)
	}
	if len(t.base) != 1 {
		panic(unsupported("bits of a symbolic float"))
	}
	return x.fromTerm(x.ctx.UF("fp.bits"+strconv.Itoa(w), bv(w), t), ty)
}

// math2 is a function of two arguments.
func (x *Exec) math2(st *State, name string, a, b Value) []Out {
	bad(a, name)
	bad(b, name)
	if a.K == KScalar && b.K == KScalar {
		return one(st, vF64(goMath2[name](a.f64(), b.f64())))
	}
	c := x.ctx
	wrap := func(t *Term) []Out { return one(st, x.fromTerm(t, TF64)) }
	if !isReal(a) && !isReal(b) {
		p, q := x.toTerm(a, false), x.toTerm(b, false)
		switch name {
		case "Copysign":
			return wrap(c.Ite(x.signbit(q), c.FNeg(c.FAbs(p)), c.FAbs(p)))
		}
		return wrap(c.UF("fp."+name, fp64Sort, p, q))
	}
	p, q := x.toTerm(a, true), x.toTerm(b, true)
	zero := c.RealF(0)
	abs := func(t *Term) *Term { return c.Ite(c.RCmp(ORLt, t, zero), c.RNeg(t), t) }
	switch name {
	case "Copysign":
		return wrap(c.Ite(c.RCmp(ORLt, q, zero), c.RNeg(abs(p)), abs(p)))
	case "Dim":
		return wrap(c.Ite(c.RCmp(ORLt, q, p), c.RBin(ORSub, p, q), zero))
	case "Hypot":
		return wrap(c.RUF("sqrt", c.RBin(ORAdd, c.RBin(ORMul, p, p), c.RBin(ORMul, q, q))))
	case "Remainder":
		if b.K == KScalar && b.f64() > 0 {
			y := b.f64()
			fl := c.mk(ORFloor, realSort, 0, "", nil, c.RBin(ORAdd, c.RBin(ORDiv, p, c.RealF(y)), c.RealF(0.5)))
			return wrap(c.RBin(ORSub, p, c.RBin(ORMul, fl, c.RealF(y))))
		}
	case "Atan2":
		var outs []Out
		pos, rest := x.branch(st, c.RCmp(ORLt, zero, q))
		at := func(k float64) *Term {
			return c.RBin(ORAdd, c.RUF("atan", c.RBin(ORDiv, p, q)), c.RealF(k))
		}
		if pos != nil {
			outs = append(outs, Out{st: pos, v: x.fromTerm(at(0), TF64)})
		}
		if rest != nil {
			neg, null := x.branch(rest, c.RCmp(ORLt, q, zero))
			if neg != nil {
				up, down := x.branch(neg, c.RCmp(ORLe, zero, p))
				if up != nil {
					outs = append(outs, Out{st: up, v: x.fromTerm(at(math.Pi), TF64)})
				}
				if down != nil {
					outs = append(outs, Out{st: down, v: x.fromTerm(at(-math.Pi), TF64)})
				}
			}
			if null != nil {
				h := c.RealF(math.Pi / 2)
				r := c.Ite(c.RCmp(ORLt, zero, p), h, c.Ite(c.RCmp(ORLt, p, zero), c.RNeg(h), zero))
				outs = append(outs, Out{st: null, v: x.fromTerm(r, TF64)})
			}
		}
		return outsOrEmpty(outs)
	}
	panic(unsupported("symbolic math." + name + " on reals"))
}

func (x *Exec) math1(st *State, name string, v Value) Value {
	bad(v, name)
	if v.K == KScalar {
		return vF64(goMath[name](v.f64()))
	}
	t := v.term()
	c := x.ctx
	if t.sort.K == SReal {
		wrap := func(t *Term) Value { return x.fromTerm(t, TF64) }
		switch name {
		case "Sin":
			return wrap(c.RUF("sin", t))
		case "Cos":
			return wrap(c.RUF("cos", t))
		case "Tan":
			x.needRange(st, t, -1.5707, 1.5707, "tan")
			return wrap(c.RUF("tan", t))
		case "Atan":
			return wrap(c.RUF("atan", t))
		case "Exp":
			return wrap(c.RUF("exp", t))
		case "Exp2":
			return wrap(c.RUF("exp", c.RBin(ORMul, t, c.RealF(math.Ln2))))
		case "Log", "Log10", "Log2":
			x.needPositive(st, t, "log")
			l := c.RUF("ln", t)
			switch name {
			case "Log10":
				l = c.RBin(ORDiv, l, c.RealF(math.Ln10))
			case "Log2":
				l = c.RBin(ORDiv, l, c.RealF(math.Ln2))
			}
			return wrap(l)
		}
		exp := func(t *Term) *Term { return c.RUF("exp", t) }
		one, two := c.RealF(1), c.RealF(2)
		switch name {
		case "Asin", "Acos":
			x.needRange(st, t, -1, 1, "asin")
			as := c.RUF("atan", c.RBin(ORDiv, t, c.RUF("sqrt", c.RBin(ORSub, one, c.RBin(ORMul, t, t)))))
			if name == "Acos" {
				as = c.RBin(ORSub, c.RealF(math.Pi/2), as)
			}
			return wrap(as)
		case "Sinh":
			return wrap(c.RBin(ORDiv, c.RBin(ORSub, exp(t), exp(c.RNeg(t))), two))
		case "Cosh":
			return wrap(c.RBin(ORDiv, c.RBin(ORAdd, exp(t), exp(c.RNeg(t))), two))
		case "Tanh":
			e := exp(c.RBin(ORMul, two, t))
			return wrap(c.RBin(ORSub, one, c.RBin(ORDiv, two, c.RBin(ORAdd, e, one))))
		case "Expm1":
			return wrap(c.RBin(ORSub, exp(t), one))
		case "Log1p":
			u := c.RBin(ORAdd, t, one)
			x.needPositive(st, u, "log")
			return wrap(c.RUF("ln", u))
		case "Cbrt":
			x.needPositive(st, t, "cube root")
			return wrap(exp(c.RBin(ORDiv, c.RUF("ln", t), c.RealF(3))))
		}
		panic(unsupported("symbolic math." + name + " on reals"))
	}
	switch name {
	case "sqrt":
	default:
		return x.fromTerm(c.UF("fp."+name, fp64Sort, t), TF64)
	}
	panic(unsupported("symbolic math." + name))
}

// needPositive makes sure the path implies t > 0; the other part is cut.
func (x *Exec) needPositive(st *State, t *Term, what string) {
	if x.ctx.ival(t).lo > 0 {
		return
	}
	cond := x.ctx.RCmp(ORLt, x.ctx.RealF(0), t)
	x.need(st, cond, what+" of a value not known to be positive (real arithmetic)")
}

func (x *Exec) needRange(st *State, t *Term, lo, hi float64, what string) {
	iv := x.ctx.ival(t)
	if iv.lo >= lo && iv.hi <= hi {
		return
	}
	c := x.ctx
	x.need(st, c.And(c.RCmp(ORLt, c.RealF(lo), t), c.RCmp(ORLt, t, c.RealF(hi))), what+" outside its principal range (real arithmetic)")
}

// need assumes cond; if it can fail, that part of the input space is cut.
func (x *Exec) need(st *State, cond *Term, why string) {
	cond = x.simp(st, cond)
	if cond.op == OConst && cond.val != 0 {
		return
	}
	r, _ := x.feasible(st, x.ctx.Not(cond))
	if r == Unsat {
		return
	}
	rt, m := x.feasible(st, cond)
	if rt != Sat {
		panic(unsupported(why))
	}
	x.cut(why)
	x.assume(st, cond, m)
}

func (x *Exec) mathPow(st *State, a, b Value) Value {
	bad(a, "Pow")
	bad(b, "Pow")
	if a.K == KScalar && b.K == KScalar {
		return vF64(math.Pow(a.f64(), b.f64()))
	}
	c := x.ctx
	if isReal(a) || isReal(b) {
		at, bt := x.toTerm(a, true), x.toTerm(b, true)
		if k, ok := c.poly(bt).isConst(); ok && k.IsInt() && k.Num().IsInt64() {
			if n := k.Num().Int64(); n >= -4 && n <= 4 {
				r := c.RealF(1)
				for i := int64(0); i < n || i < -n; i++ {
					r = c.RBin(ORMul, r, at)
				}
				if n < 0 {
					r = c.RBin(ORDiv, c.RealF(1), r)
				}
				return x.fromTerm(r, TF64)
			}
		}
		x.needPositive(st, at, "power")
		l := c.RUF("ln", at)
		return x.fromTerm(c.RUF("exp", c.RBin(ORMul, bt, l)), TF64)
	}
	return x.fromTerm(c.UF("fp.Pow", fp64Sort, x.toTerm(a, false), x.toTerm(b, false)), TF64)
}

func mathMod(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
	a, b := args[0], args[1]
	bad(a, "Mod")
	bad(b, "Mod")
	if a.K == KScalar && b.K == KScalar {
		return one(st, vF64(math.Mod(a.f64(), b.f64())))
	}
	c := x.ctx
	if !isReal(a) && !isReal(b) {
		return one(st, x.fromTerm(c.UF("fp.Mod", fp64Sort, x.toTerm(a, false), x.toTerm(b, false)), TF64))
	}
	if b.K != KScalar || b.f64() <= 0 {
		panic(unsupported("math.Mod by a symbolic or negative divisor"))
	}
	// enumerate the integer quotients the path allows
	t := x.toTerm(a, true)
	y := new(big.Rat).SetFloat64(b.f64())
	var outs []Out
	cur := st
	iv := c.ival(t)
	q0, q1 := math.Trunc(iv.lo/b.f64()), math.Trunc(iv.hi/b.f64())
	if !(q1-q0 < 64) {
		panic(unsupported("math.Mod with more than 64 quotients"))
	}
	for q := q0; q <= q1; q++ {
		qr := new(big.Rat).SetFloat64(q)
		hi := new(big.Rat).Mul(new(big.Rat).Add(qr, big.NewRat(1, 1)), y)
		in := c.RCmp(ORLt, t, c.Rat(hi))
		if q < 0 {
			in = c.RCmp(ORLe, t, c.Rat(new(big.Rat).Mul(qr, y)))
		}
		yes := cur
		if q < q1 { // the smaller quotients have been excluded
			yes, cur = x.branch(cur, in)
		}
		if yes != nil {
			r := c.RBin(ORSub, t, c.Rat(new(big.Rat).Mul(qr, y)))
			outs = append(outs, Out{st: yes, v: x.fromTerm(c.canonR(r), TF64)})
		}
		if cur == nil {
			break
		}
	}
	return outsOrEmpty(outs)
}

func (x *Exec) mathMinMax(a, b Value, isMax bool) Value {
	bad(a, "Min/Max")
	bad(b, "Min/Max")
	if a.K == KScalar && b.K == KScalar {
		if isMax {
			return vF64(math.Max(a.f64(), b.f64()))
		}
		return vF64(math.Min(a.f64(), b.f64()))
	}
	c := x.ctx
	if isReal(a) || isReal(b) {
		p, q := x.toTerm(a, true), x.toTerm(b, true)
		k := c.RCmp(ORLt, p, q)
		if isMax {
			p, q = q, p
		}
		return x.fromTerm(c.Ite(k, p, q), TF64)
	}
	p, q := x.toTerm(a, false), x.toTerm(b, false)
	nan := c.F64(math.NaN())
	r := c.Ite(c.FCmp(OFLt, p, q), p, q)
	if isMax {
		r = c.Ite(c.FCmp(OFLt, p, q), q, p)
	}
	// an infinity wins over NaN
	inf := c.F64(math.Inf(-1))
	if isMax {
		inf = c.F64(math.Inf(1))
	}
	r = c.Ite(c.Or(c.FIsNaN(p), c.FIsNaN(q)), nan, r)
	r = c.Ite(c.Or(c.FCmp(OFEq, p, inf), c.FCmp(OFEq, q, inf)), inf, r)
	return x.fromTerm(r, TF64)
}

// fpAxioms states what is assumed about elementary functions on floats.
func (c *Ctx) fpAxioms(t *Term) []*Term {
	if t.op != OUF || t.sort.K != SFP64 {
		return nil
	}
	a := t.a[0]
	nan := c.FIsNaN(t)
	imp := func(p, q *Term) *Term { return c.Not(c.And(p, c.Not(q))) }
	rng := func(lo, hi float64) *Term {
		return c.And(c.FCmp(OFLe, c.F64(lo), t), c.FCmp(OFLe, t, c.F64(hi)))
	}
	zero, inf := c.F64(0), c.F64(math.Inf(1))
	switch t.name {
	case "fp.Log", "fp.Log10":
		neg := c.FCmp(OFLt, a, zero)
		r := []*Term{c.Eq(nan, c.Or(c.FIsNaN(a), neg)),
			imp(c.FCmp(OFEq, a, zero), c.FCmp(OFEq, t, c.F64(math.Inf(-1)))),
			imp(c.FCmp(OFEq, a, inf), c.FCmp(OFEq, t, inf)),
			imp(c.And(c.FCmp(OFLt, zero, a), c.FCmp(OFLt, a, inf)), rng(-746, 710)),
			imp(c.FCmp(OFLe, c.F64(1), a), c.FCmp(OFLe, zero, t)),
			imp(c.And(c.FCmp(OFLe, zero, a), c.FCmp(OFLe, a, c.F64(1))), c.FCmp(OFLe, t, zero))}
		return r
	case "fp.Sin", "fp.Cos":
		bad := c.Or(c.FIsNaN(a), c.FCmp(OFEq, c.FAbs(a), inf))
		return []*Term{c.Eq(nan, bad), imp(c.Not(bad), rng(-1, 1))}
	case "fp.Exp":
		return []*Term{c.Eq(nan, c.FIsNaN(a)), imp(c.Not(nan), c.FCmp(OFLe, zero, t))}
	case "fp.Pow":
		// positive finite bases only: NaN exactly when the exponent is NaN
		b := t.a[1]
		pos := c.And(c.FCmp(OFLt, zero, a), c.FCmp(OFLt, a, inf))
		return []*Term{imp(pos, c.Eq(nan, c.And(c.FIsNaN(b), c.Not(c.FCmp(OFEq, a, c.F64(1)))))), imp(c.And(pos, c.Not(nan)), c.FCmp(OFLe, zero, t))}
	case "fp.Mod":
		b := t.a[1]
		bad := c.Or(c.Or(c.FIsNaN(a), c.FIsNaN(b)), c.Or(c.FCmp(OFEq, c.FAbs(a), inf), c.FCmp(OFEq, b, zero)))
		return []*Term{c.Eq(nan, bad), imp(c.Not(bad), c.And(c.FCmp(OFLt, c.FAbs(t), c.FAbs(b)), c.FCmp(OFLe, c.FAbs(t), c.FAbs(a)))),
			imp(c.And(c.Not(bad), c.FCmp(OFLe, zero, a)), c.FCmp(OFLe, zero, t))}
	}
	return nil
}
