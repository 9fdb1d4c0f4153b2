package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// toTerm gives a scalar value as a term; real selects the Real sort for floats.
func (x *Exec) toTerm(v Value, real bool) *Term {
	switch v.K {
	case KTerm:
		return v.P.(*Term)
	case KScalar:
		switch v.T {
		case TBool:
			return x.ctx.Bool(v.N != 0)
		case TF32, TF64:
			if real {
				f := v.float()
				if math.IsNaN(f) || math.IsInf(f, 0) {
					panic(unsupported("NaN or Inf in real arithmetic"))
				}
				return x.ctx.RealF(f)
			}
			return x.ctx.FBits(v.T.sort(), v.N)
		}
		return x.ctx.BV(v.N, v.T.width())
	}
	bad(v, "term")
	panic(unsupported("term of " + v.String()))
}

func isReal(v Value) bool { return v.K == KTerm && v.P.(*Term).sort.K == SReal }

func (x *Exec) neg(a Value) Value {
	bad(a, "-")
	if a.K == KScalar {
		switch a.T {
		case TF32:
			return vF32(-a.f32())
		case TF64:
			return vF64(-a.f64())
		}
		return scalar(a.T, -a.N)
	}
	t := a.term()
	if a.T.isFloat() {
		if t.sort.K == SReal {
			return x.fromTerm(x.ctx.RNeg(t), a.T)
		}
		return x.fromTerm(x.ctx.FNeg(t), a.T)
	}
	return x.fromTerm(x.ctx.Neg(t), a.T)
}

func (x *Exec) execBin(st *State, in *ssa.BinOp, a, b Value) (Value, []Out) {
	op := in.Op
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return x.compare(op, a, b), nil
	}
	bad(a, op.String())
	bad(b, op.String())
	if a.K == KStr {
		if op != token.ADD {
			panic(unsupported("string op"))
		}
		if isOpaque(a) || isOpaque(b) {
			return opaqueStr("concatenation"), nil
		}
		if sa, ok := a.P.(string); ok {
			if sb, ok := b.P.(string); ok {
				return vStr(sa + sb), nil
			}
		}
		return mkStr(append(append([]Value(nil), strBytes(a)...), strBytes(b)...)), nil
	}
	if (op == token.QUO || op == token.REM) && a.T.isInt() {
		if b.K == KScalar {
			if b.N == 0 {
				return Value{}, []Out{{st: st, pan: x.rtPanic(st, "integer divide by zero")}}
			}
		} else {
			t := b.term()
			nz, z := x.branch(st, x.ctx.Not(x.ctx.Eq(t, x.ctx.BV(0, int(t.sort.W)))))
			outs := []Out{}
			if z != nil {
				outs = append(outs, Out{st: z, pan: x.rtPanic(z, "integer divide by zero")})
			}
			if nz != nil {
				outs = append(outs, Out{st: nz, v: x.arith(op, a, b)})
			}
			return Value{}, outs
		}
	}
	if op == token.SHL || op == token.SHR {
		if b.T.signed() {
			if b.K == KScalar {
				if int64(b.N) < 0 {
					return Value{}, []Out{{st: st, pan: x.rtPanic(st, "negative shift amount")}}
				}
			} else {
				t := b.term()
				ok, neg := x.branch(st, x.ctx.Sle(x.ctx.BV(0, int(t.sort.W)), t))
				outs := []Out{}
				if neg != nil {
					outs = append(outs, Out{st: neg, pan: x.rtPanic(neg, "negative shift amount")})
				}
				if ok != nil {
					outs = append(outs, Out{st: ok, v: x.shift(op, a, b)})
				}
				return Value{}, outs
			}
		}
		return x.shift(op, a, b), nil
	}
	return x.arith(op, a, b), nil
}

func (x *Exec) shift(op token.Token, a, b Value) Value {
	w := a.T.width()
	if a.K == KScalar && b.K == KScalar {
		k := b.N
		if op == token.SHL {
			if k >= 64 {
				return scalar(a.T, 0)
			}
			return scalar(a.T, a.N<<k)
		}
		if a.T.signed() {
			if k > 63 {
				k = 63
			}
			return scalar(a.T, uint64(int64(a.N)>>k))
		}
		if k >= 64 {
			return scalar(a.T, 0)
		}
		return scalar(a.T, a.N>>k)
	}
	t := x.toTerm(a, false)
	c := x.ctx
	o := OShl
	if op == token.SHR {
		o = OLshr
		if a.T.signed() {
			o = OAshr
		}
	}
	if b.K == KScalar {
		k := b.N
		if k >= uint64(w) {
			if o == OAshr {
				return x.fromTerm(c.Bin(OAshr, t, c.BV(uint64(w-1), w)), a.T)
			}
			return scalar(a.T, 0)
		}
		return x.fromTerm(c.Bin(o, t, c.BV(k, w)), a.T)
	}
	bt := b.term()
	bw := int(bt.sort.W)
	big := c.Not(c.Ult(bt, c.BV(uint64(w), bw)))
	if bw < 8 && w > 1<<bw-1 {
		big = c.tFalse
	}
	var k *Term
	if bw < w {
		k = c.Zext(bt, w)
	} else {
		k = c.Extract(bt, 0, w)
	}
	over := c.BV(0, w)
	if o == OAshr {
		over = c.Bin(OAshr, t, c.BV(uint64(w-1), w))
	}
	return x.fromTerm(c.Ite(big, over, c.Bin(o, t, k)), a.T)
}

func (x *Exec) arith(op token.Token, a, b Value) Value {
	if a.K == KScalar && b.K == KScalar {
		switch a.T {
		case TF32:
			p, q := a.f32(), b.f32()
			switch op {
			case token.ADD:
				return vF32(p + q)
			case token.SUB:
				return vF32(p - q)
			case token.MUL:
				return vF32(p * q)
			case token.QUO:
				return vF32(p / q)
			}
		case TF64:
			p, q := a.f64(), b.f64()
			switch op {
			case token.ADD:
				return vF64(p + q)
			case token.SUB:
				return vF64(p - q)
			case token.MUL:
				return vF64(p * q)
			case token.QUO:
				return vF64(p / q)
			}
		}
		p, q := a.N, b.N
		switch op {
		case token.ADD:
			return scalar(a.T, p+q)
		case token.SUB:
			return scalar(a.T, p-q)
		case token.MUL:
			return scalar(a.T, p*q)
		case token.QUO:
			if a.T.signed() {
				if int64(q) == -1 {
					return scalar(a.T, -p)
				}
				return scalar(a.T, uint64(int64(p)/int64(q)))
			}
			return scalar(a.T, p/q)
		case token.REM:
			if a.T.signed() {
				if int64(q) == -1 {
					return scalar(a.T, 0)
				}
				return scalar(a.T, uint64(int64(p)%int64(q)))
			}
			return scalar(a.T, p%q)
		case token.AND:
			return scalar(a.T, p&q)
		case token.OR:
			return scalar(a.T, p|q)
		case token.XOR:
			return scalar(a.T, p^q)
		case token.AND_NOT:
			return scalar(a.T, p&^q)
		}
		panic(unsupported("op " + op.String()))
	}
	c := x.ctx
	if a.T.isFloat() {
		if isReal(a) || isReal(b) {
			p, q := x.toTerm(a, true), x.toTerm(b, true)
			var o Op
			switch op {
			case token.ADD:
				o = ORAdd
			case token.SUB:
				o = ORSub
			case token.MUL:
				o = ORMul
			case token.QUO:
				o = ORDiv
			}
			return x.fromTerm(c.RBin(o, p, q), a.T)
		}
		p, q := x.toTerm(a, false), x.toTerm(b, false)
		o := map[token.Token]Op{token.ADD: OFAdd, token.SUB: OFSub, token.MUL: OFMul, token.QUO: OFDiv}[op]
		return x.fromTerm(c.FBin(o, p, q), a.T)
	}
	p, q := x.toTerm(a, false), x.toTerm(b, false)
	var r *Term
	s := a.T.signed()
	switch op {
	case token.ADD:
		r = c.Bin(OAdd, p, q)
	case token.SUB:
		r = c.Bin(OSub, p, q)
	case token.MUL:
		r = c.Bin(OMul, p, q)
	case token.QUO:
		if s {
			r = c.Bin(OSdiv, p, q)
		} else {
			r = c.Bin(OUdiv, p, q)
		}
	case token.REM:
		if s {
			r = c.Bin(OSrem, p, q)
		} else {
			r = c.Bin(OUrem, p, q)
		}
	case token.AND:
		if a.T == TBool {
			r = c.And(p, q)
		} else {
			r = c.Bin(OBand, p, q)
		}
	case token.OR:
		if a.T == TBool {
			r = c.Or(p, q)
		} else {
			r = c.Bin(OBor, p, q)
		}
	case token.XOR:
		r = c.Bin(OBxor, p, q)
	case token.AND_NOT:
		r = c.Bin(OBand, p, c.Bnot(q))
	default:
		panic(unsupported("op " + op.String()))
	}
	return x.fromTerm(r, a.T)
}

func (x *Exec) compare(op token.Token, a, b Value) Value {
	bad(a, "comparison")
	bad(b, "comparison")
	switch op {
	case token.EQL:
		return x.fromTerm(x.eqTerm(a, b), TBool)
	case token.NEQ:
		return x.fromTerm(x.ctx.Not(x.eqTerm(a, b)), TBool)
	}
	if op == token.GTR {
		return x.compare(token.LSS, b, a)
	}
	if op == token.GEQ {
		return x.compare(token.LEQ, b, a)
	}
	if a.K == KStr {
		lt := x.strLess(a, b)
		if op == token.LEQ {
			lt = x.ctx.Not(x.strLess(b, a))
		}
		return x.fromTerm(lt, TBool)
	}
	if a.K == KScalar && b.K == KScalar {
		switch {
		case a.T.isFloat():
			if op == token.LSS {
				return vBool(a.float() < b.float())
			}
			return vBool(a.float() <= b.float())
		case a.T.signed():
			if op == token.LSS {
				return vBool(int64(a.N) < int64(b.N))
			}
			return vBool(int64(a.N) <= int64(b.N))
		}
		if op == token.LSS {
			return vBool(a.N < b.N)
		}
		return vBool(a.N <= b.N)
	}
	c := x.ctx
	if a.T.isFloat() {
		if isReal(a) || isReal(b) {
			// comparisons with NaN or infinity are decided
			for k, v := range []Value{a, b} {
				if v.K == KScalar {
					f := v.float()
					if f != f {
						return vBool(false)
					}
					if math.IsInf(f, 0) {
						return vBool((k == 0) == (f < 0))
					}
				}
			}
			o := ORLt
			if op == token.LEQ {
				o = ORLe
			}
			return x.fromTerm(c.RCmp(o, x.toTerm(a, true), x.toTerm(b, true)), TBool)
		}
		o := OFLt
		if op == token.LEQ {
			o = OFLe
		}
		return x.fromTerm(c.FCmp(o, x.toTerm(a, false), x.toTerm(b, false)), TBool)
	}
	p, q := x.toTerm(a, false), x.toTerm(b, false)
	var t *Term
	switch {
	case a.T.signed() && op == token.LSS:
		t = c.Slt(p, q)
	case a.T.signed():
		t = c.Sle(p, q)
	case op == token.LSS:
		t = c.Ult(p, q)
	default:
		t = c.Ule(p, q)
	}
	return x.fromTerm(t, TBool)
}

func (x *Exec) strLess(a, b Value) *Term {
	if sa, ok := a.P.(string); ok {
		if sb, ok := b.P.(string); ok {
			return x.ctx.Bool(sa < sb)
		}
	}
	p, q := strBytes(a), strBytes(b)
	n := min(len(p), len(q))
	r := x.ctx.Bool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		u, v := x.toTerm(p[i], false), x.toTerm(q[i], false)
		r = x.ctx.Ite(x.ctx.Eq(u, v), r, x.ctx.Ult(u, v))
	}
	return r
}

// eqTerm is Go's == as a boolean term.
func (x *Exec) eqTerm(a, b Value) *Term {
	c := x.ctx
	bad(a, "==")
	bad(b, "==")
	switch a.K {
	case KScalar, KTerm:
		if a.K == KScalar && b.K == KScalar {
			if a.T.isFloat() {
				return c.Bool(a.float() == b.float())
			}
			return c.Bool(a.N == b.N)
		}
		if a.T.isFloat() {
			if isReal(a) || isReal(b) {
				for _, v := range []Value{a, b} {
					if v.K == KScalar && (math.IsNaN(v.float()) || math.IsInf(v.float(), 0)) {
						return c.tFalse
					}
				}
				return c.Eq(x.toTerm(a, true), x.toTerm(b, true))
			}
			return c.FCmp(OFEq, x.toTerm(a, false), x.toTerm(b, false))
		}
		return c.Eq(x.toTerm(a, false), x.toTerm(b, false))
	case KStr:
		if isOpaque(a) || isOpaque(b) {
			if a.P == b.P {
				return c.tTrue
			}
			panic(unsupported("comparison of an opaque string"))
		}
		if sa, ok := a.P.(string); ok {
			if sb, ok := b.P.(string); ok {
				return c.Bool(sa == sb)
			}
		}
		if strLen(a) != strLen(b) {
			return c.tFalse
		}
		r := c.tTrue
		p, q := strBytes(a), strBytes(b)
		for i := range p {
			r = c.And(r, c.Eq(x.toTerm(p[i], false), x.toTerm(q[i], false)))
		}
		return r
	case KPtr:
		if b.K == KPtr && (a.P != nil || b.P != nil) {
			if a.N == 0 || b.N == 0 {
				return c.tFalse
			}
			panic(unsupported("comparison of symbolic pointers"))
		}
		return c.Bool(a.N == b.N)
	case KIface:
		i, j := a.iface(), b.iface()
		if i == nil || j == nil {
			return c.Bool(i == j)
		}
		if i == j {
			if i.v.K == KPtr {
				return c.tTrue
			}
		}
		if !types.Identical(i.t, j.t) {
			return c.tFalse
		}
		return x.eqTerm(i.v, j.v)
	case KSlice, KFunc:
		return c.Bool(a.P == nil && b.P == nil)
	case KMap:
		return c.Bool(a.N == b.N)
	case KAgg:
		p, q := a.agg(), b.agg()
		r := c.tTrue
		for i := range p {
			r = c.And(r, x.eqTerm(p[i], q[i]))
		}
		return r
	}
	panic(unsupported(fmt.Sprint("== on ", a.String())))
}

// ---- conversions

func (x *Exec) convert(st *State, v Value, from, to types.Type) (Value, []Out) {
	bad(v, "conversion")
	ft, tt := scalarTag(from), scalarTag(to)
	if tt != TNone && ft != TNone {
		if ft.isFloat() && tt.isInt() && isReal(v) {
			return x.realToInt(st, v.term(), tt), nil
		}
		return x.convScalar(v, tt), nil
	}
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch fu := fu.(type) {
		case *types.Slice:
			if scalarTag(fu.Elem()) == TU8 {
				return mkStr(append([]Value(nil), x.sliceCells(st, v)...)), nil
			}
			// runes
			return x.runesToStr(st, append([]Value(nil), x.sliceCells(st, v)...))
		case *types.Basic:
			if fu.Info()&types.IsString != 0 {
				return v, nil
			}
			if v.K != KScalar {
				t := v.term()
				if ft != TI32 { // out of range: U+FFFD, as for -1
					w := int(t.sort.W)
					if w > 32 {
						t = x.ctx.Ite(x.ctx.Ult(t, x.ctx.BV(utf8.MaxRune+1, w)), x.ctx.Extract(t, 0, 32), x.ctx.BV(0xffffffff, 32))
					} else if ft.signed() {
						t = x.ctx.Sext(t, 32)
					} else {
						t = x.ctx.Zext(t, 32)
					}
				}
				return x.runesToStr(st, []Value{x.fromTerm(t, TI32)})
			}
			r := int64(v.N)
			if r < 0 || r > utf8.MaxRune {
				r = utf8.RuneError
			}
			return vStr(string(rune(r))), nil
		}
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
		if ts, ok := tu.(*types.Slice); ok {
			if scalarTag(ts.Elem()) == TU8 {
				return x.newSlice(st, append([]Value(nil), strBytes(v)...), 1, "[]byte(string)"), nil
			}
			s, ok := v.P.(string)
			if !ok {
				return x.strToRunes(st, v)
			}
			var cells []Value
			for _, r := range s {
				cells = append(cells, scalar(TI32, uint64(int64(r))))
			}
			return x.newSlice(st, cells, 1, "[]rune(string)"), nil
		}
	}
	switch v.K {
	case KPtr, KSlice, KMap, KFunc, KIface:
		if tt == TU64 {
			if v.K == KPtr && v.N == 0 {
				return scalar(TU64, 0), nil
			}
			return Value{K: KBad, P: "pointer as integer"}, nil
		}
		return v, nil
	}
	if tt == TNone && ft == TU64 {
		return Value{K: KBad, P: "integer as pointer"}, nil
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
}

func (x *Exec) convScalar(v Value, tt ST) Value {
	ft := v.T
	c := x.ctx
	if v.K == KScalar {
		switch {
		case ft.isInt() && tt.isInt():
			return scalar(tt, v.N)
		case ft.isInt() && tt == TF64:
			if ft.signed() {
				return vF64(float64(int64(v.N)))
			}
			return vF64(float64(v.N))
		case ft.isInt() && tt == TF32:
			if ft.signed() {
				return vF32(float32(int64(v.N)))
			}
			return vF32(float32(v.N))
		case ft.isFloat() && tt == TF64:
			return vF64(v.float())
		case ft.isFloat() && tt == TF32:
			return vF32(float32(v.float()))
		case ft.isFloat() && tt.isInt():
			return scalar(tt, f2iConst(v.float(), tt))
		case ft == TBool && tt == TBool:
			return v
		}
		panic(unsupported("scalar conversion"))
	}
	t := v.term()
	switch {
	case ft == TBool:
		return v
	case ft.isInt() && tt.isInt():
		fw, tw := ft.width(), tt.width()
		if tw < fw {
			return x.fromTerm(c.Extract(t, 0, tw), tt)
		}
		if tw > fw {
			if ft.signed() {
				return x.fromTerm(c.Sext(t, tw), tt)
			}
			return x.fromTerm(c.Zext(t, tw), tt)
		}
		return x.fromTerm(t, tt)
	case ft.isInt() && tt.isFloat():
		if x.realMode {
			if t.op == ORToBV && (t.val == 1) == ft.signed() {
				return x.fromTerm(t.a[0], tt)
			}
			if ft.signed() && t.hi >= 1<<(t.sort.W-1) {
				return x.fromTerm(c.mk(ORFromS, realSort, 0, "", nil, t), tt)
			}
			return x.fromTerm(c.mk(ORFromU, realSort, 0, "", nil, t), tt)
		}
		return x.fromTerm(c.FFromInt(t, ft.signed(), tt.sort()), tt)
	case ft.isFloat() && tt.isFloat():
		if t.sort.K == SReal {
			return x.fromTerm(x.roundReal(t, tt), tt)
		}
		return x.fromTerm(c.FCvt(t, tt.sort()), tt)
	case ft.isFloat() && tt.isInt():
		return x.f2i(t, tt)
	}
	panic(unsupported("scalar conversion"))
}

// roundReal: in real arithmetic conversions between float types are exact
// (stated as an assumption of real mode).
func (x *Exec) roundReal(t *Term, tt ST) *Term { return t }

// f2iConst follows the amd64 code generated by gc.
func f2iConst(f float64, tt ST) uint64 {
	switch tt {
	case TI8:
		return uint64(int64(int8(f)))
	case TI16:
		return uint64(int64(int16(f)))
	case TI32:
		return uint64(int64(int32(f)))
	case TI64:
		return uint64(int64(f))
	case TU8:
		return uint64(uint8(f))
	case TU16:
		return uint64(uint16(f))
	case TU32:
		return uint64(uint32(f))
	}
	return uint64(f)
}

// realToInt converts a real to an integer; values outside the integer type's
// range are cut.
func (x *Exec) realToInt(st *State, t *Term, tt ST) Value {
	c := x.ctx
	w := tt.width()
	lo, hi := -1.0, math.Ldexp(1, w)
	sg := uint64(0)
	if tt.signed() {
		lo, hi = -math.Ldexp(1, w-1)-1, math.Ldexp(1, w-1)
		sg = 1
		if w == 64 {
			lo = -math.Ldexp(1, 63)
		}
	}
	iv := c.ival(t)
	in := iv.lo > lo && iv.hi < hi
	if !in && w < 32 {
		r, _ := x.feasible(st, c.Not(c.And(c.RCmp(ORLt, c.RealF(lo), t), c.RCmp(ORLt, t, c.RealF(hi)))))
		in = r == Unsat
	}
	if !in && w < 32 {
		// amd64 code converts to 32 bits and truncates
		v := x.realToInt(st, t, TI32)
		return x.convScalar(v, tt)
	}
	if !in {
		x.need(st, c.And(c.RCmp(ORLt, c.RealF(lo), t), c.RCmp(ORLt, t, c.RealF(hi))), "float to integer conversion out of range (real arithmetic)")
	}
	if k, ok := c.poly(t).isConst(); ok {
		f, _ := k.Float64()
		return scalar(tt, f2iConst(f, tt))
	}
	return x.fromTerm(c.mk(ORToBV, bv(w), sg, "", nil, c.mk(ORTrunc, realSort, 0, "", nil, c.canonR(t))), tt)
}

func (x *Exec) f2i(t *Term, tt ST) Value {
	c := x.ctx
	w := tt.width()
	if t.sort.K == SReal {
		panic(unsupported("real to integer"))
	}
	iw := 32
	if tt == TI64 || tt == TU32 || tt == TU64 {
		iw = 64
	}
	lim := math.Ldexp(1, iw-1)
	k := func(f float64) *Term { return c.fconst(t.sort, f) }
	// bounds exactly representable in both formats for 64 bit; for 32-bit
	// conversions from float32 -2^31-1 is not representable, use trunc logic
	inr := c.And(c.FCmp(OFLt, t, k(lim)), c.FCmp(OFLe, k(-lim), t))
	if iw == 32 && t.sort.K == SFP64 {
		inr = c.And(c.FCmp(OFLt, t, k(lim)), c.FCmp(OFLt, k(-lim-1), t))
	}
	min := c.BV(1<<(iw-1), iw)
	r := c.Ite(inr, c.FToS(t, iw), min)
	if inr.op != OConst || inr.val == 0 {
		if tt == TU64 {
			panic(unsupported("float to uint64 conversion out of int64 range"))
		}
	}
	if iw > w {
		r = c.Extract(r, 0, w)
	}
	return x.fromTerm(r, tt)
}

// ---- ite and merging of values

// ite combines two values. conc allows two different concrete machine
// integers to be combined (they are kept apart otherwise, so that lengths
// and positions stay concrete).
func (x *Exec) ite(k *Term, a, b Value, conc bool) (Value, bool) {
	if k.op == OConst {
		if k.val != 0 {
			return a, true
		}
		return b, true
	}
	if a.K != b.K && !(a.K == KScalar && b.K == KTerm || a.K == KTerm && b.K == KScalar) {
		return a, false
	}
	switch a.K {
	case KScalar, KTerm:
		if a.K == KScalar && b.K == KScalar && a.N == b.N {
			return a, true
		}
		if a.T != b.T {
			return a, false
		}
		real := isReal(a) || isReal(b)
		if real && (a.K == KScalar && !finite(a.float()) || b.K == KScalar && !finite(b.float())) {
			return a, false
		}
		if x.realMode && a.T.isFloat() && !real && finite(a.float()) && finite(b.float()) {
			real = true
		}
		return x.fromTerm(x.ctx.Ite(k, x.toTerm(a, real), x.toTerm(b, real)), a.T), true
	case KBad:
		return a, true
	case KPtr:
		return a, a.N == b.N && a.P == b.P
	case KMap:
		return a, a.N == b.N
	case KStr:
		if a.P == b.P {
			return a, true
		}
		if isOpaque(a) && isOpaque(b) {
			return a, true
		}
		if isOpaque(a) || isOpaque(b) || strLen(a) != strLen(b) {
			return a, false
		}
		p, q := strBytes(a), strBytes(b)
		r := make([]Value, len(p))
		for i := range p {
			v, ok := x.ite(k, p[i], q[i], true)
			if !ok {
				return a, false
			}
			r[i] = v
		}
		return mkStr(r), true
	case KSlice:
		s, t := a.slice(), b.slice()
		if s == t {
			return a, true
		}
		return a, s != nil && t != nil && *s == *t
	case KIface:
		i, j := a.iface(), b.iface()
		if i == j {
			return a, true
		}
		if i == nil || j == nil || !types.Identical(i.t, j.t) {
			return a, false
		}
		v, ok := x.ite(k, i.v, j.v, conc)
		if !ok {
			return a, false
		}
		return Value{K: KIface, P: &Iface{t: i.t, v: v}}, true
	case KFunc:
		f, g := a.closure(), b.closure()
		if f == g {
			return a, true
		}
		return a, f != nil && g != nil && f.fn == g.fn && f.fn != nil && len(f.bind) == 0 && len(g.bind) == 0
	case KIter:
		return a, a.P == b.P && a.N == b.N
	case KAgg, KTuple:
		p, q := a.agg(), b.agg()
		if len(p) != len(q) {
			return a, false
		}
		var r []Value
		for i := range p {
			if same(p[i], q[i]) {
				continue
			}
			if !conc && distinctInts(p[i], q[i]) {
				return a, false
			}
			v, ok := x.ite(k, p[i], q[i], conc)
			if !ok {
				return a, false
			}
			if r == nil {
				r = append([]Value(nil), p...)
			}
			r[i] = v
		}
		if r == nil {
			return a, true
		}
		return Value{K: a.K, T: a.T, P: r}, true
	}
	return a, false
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// same is cheap identity.
func same(a, b Value) bool {
	if a.K != b.K || a.N != b.N || a.T != b.T {
		return false
	}
	switch a.K {
	case KAgg, KTuple:
		p, q := a.agg(), b.agg()
		return len(p) == len(q) && (len(p) == 0 || &p[0] == &q[0])
	case KStr:
		s, ok := a.P.(string)
		t, ok2 := b.P.(string)
		if ok != ok2 {
			return false
		}
		if ok {
			return s == t
		}
		return a.P == b.P
	}
	return a.P == b.P
}

// distinctInts: two different concrete machine-word integers.
func distinctInts(a, b Value) bool {
	return a.K == KScalar && b.K == KScalar && a.N != b.N && (a.T == TI64 || a.T == TU64)
}

var _ = big.NewInt

// runesToStr encodes runes as utf8 does.
func (x *Exec) runesToStr(st *State, rs []Value) (Value, []Out) {
	type part struct {
		st *State
		b  []Value
	}
	parts := []part{{st, nil}}
	forked := false
	for _, r := range rs {
		var next []part
		for _, p := range parts {
			if r.K == KTerm {
				r = x.fromTerm(x.simp(p.st, r.term()), TI32)
			}
			if r.K == KScalar {
				for _, b := range utf8.AppendRune(nil, rune(int32(r.N))) {
					p.b = append(p.b, scalar(TU8, uint64(b)))
				}
				next = append(next, p)
				continue
			}
			t := r.term()
			lo, hi := x.branch(p.st, x.ctx.Ult(t, x.ctx.BV(0x80, 32)))
			if lo != nil {
				next = append(next, part{lo, append(p.b[:len(p.b):len(p.b)], x.fromTerm(x.ctx.Extract(t, 0, 8), TU8))})
			}
			if hi == nil {
				continue
			}
			forked = true
			empty := x.newSlice(hi, nil, 1, "rune")
			for _, o := range x.callFn(hi, x.p.pkgs["unicode/utf8"].Func("AppendRune"), []Value{empty, r}, nil, 0) {
				if o.pan != nil {
					panic(unsupported("rune to string"))
				}
				next = append(next, part{o.st, append(p.b[:len(p.b):len(p.b)], x.sliceCells(o.st, o.v)...)})
			}
		}
		parts = next
	}
	if !forked && len(parts) == 1 && parts[0].st == st {
		return mkStr(parts[0].b), nil
	}
	outs := []Out{}
	for _, p := range parts {
		outs = append(outs, Out{st: p.st, v: mkStr(p.b)})
	}
	return Value{}, outs
}

// strToRunes decodes a string with symbolic bytes.
func (x *Exec) strToRunes(st *State, s Value) (Value, []Out) {
	type part struct {
		st  *State
		rs  []Value
		pos int
	}
	outs := []Out{}
	todo := []part{{st, nil, 0}}
	n := strLen(s)
	for len(todo) > 0 {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if p.pos >= n {
			outs = append(outs, Out{st: p.st, v: x.newSlice(p.st, p.rs, 1, "[]rune(string)")})
			continue
		}
		for _, o := range x.decodeRune(p.st, s, p.pos) {
			r := o.v.agg()
			todo = append(todo, part{o.st, append(p.rs[:len(p.rs):len(p.rs)], r[0]), p.pos + r[1].int()})
		}
	}
	return Value{}, outs
}
