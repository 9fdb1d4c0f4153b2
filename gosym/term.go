package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Sorts of SMT terms.
type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SFP32
	SFP64
	SReal
)

type Sort struct {
	K SortKind
	W uint8 // BV width
}

var (
	boolSort = Sort{SBool, 0}
	fp32Sort = Sort{SFP32, 32}
	fp64Sort = Sort{SFP64, 64}
	realSort = Sort{SReal, 0}
)

func bv(w int) Sort { return Sort{SBV, uint8(w)} }

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF // uninterpreted application (args), treated as an Ackermannised variable
	ONot
	OAnd
	OEq // bool/bv/real equality; for FP: structural identity ("=")
	OIte
	// bit-vectors
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = lo ; width from sort
	OConcat
	OUlt
	OUle
	OSlt
	OSle
	// floating point
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFRti // round to integral; val = mode (0 RTZ,1 RTN,2 RTP)
	OFLt
	OFLe
	OFEq
	OFNaN
	OFFromS // signed bv -> fp
	OFFromU
	OFToS // fp -> signed bv of sort width, RTZ, only meaningful in range
	OFCvt // fp -> fp
	OFOfBits
	// reals
	ORAdd
	ORSub
	ORMul
	ORDiv
	ORNeg
	ORLt
	ORLe
	ORFromS // signed bv -> real
	ORFromU
	ORTrunc // real -> real, rounded toward zero
	ORFloor
	ORToBV // real (integral) -> bv of width (mod 2^w)
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OFNeg: "fp.neg", OFAbs: "fp.abs", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFNaN: "fp.isNaN", ORAdd: "+", ORSub: "-", ORMul: "*", ORDiv: "/", ORNeg: "-", ORLt: "<", ORLe: "<="}

type Term struct {
	id   int32
	op   Op
	sort Sort
	a    [3]*Term
	val  uint64
	name string
	rat  *big.Rat
	// unsigned range of a bit-vector term
	lo, hi uint64
	// interval of a floating point term; fin: never NaN/Inf and within [flo,fhi]
	fin      bool
	flo, fhi float64
	nan      bool    // may be NaN (meaningful when !fin)
	vars     []int32 // sorted ids of variables/UF applications below
	hasReal  bool
	hasFP    bool
	base     []int32 // like vars, without applications of known functions
	hasUF    bool
	size     int32 // saturating DAG-as-tree size
	ut       *utab // value table, for terms over one small variable
}

type tkey struct {
	op      Op
	sort    Sort
	a, b, c int32
	val     uint64
	name    string
}

type Ctx struct {
	tab    map[tkey]*Term
	terms  []*Term
	vars   []*Term // OVar and OUF terms
	tTrue  *Term
	tFalse *Term
	nvars  int
	ufs    map[string][]*Term
	polys  map[int32]*poly
	rb     map[int32]ival
	invs   []*Term
	lins   map[int32]*lin
	lems   map[int32][]*Term

	ucanon  map[ucKey]*Term
	inCanon bool
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, ufs: map[string][]*Term{}, polys: map[int32]*poly{}, rb: map[int32]ival{}, lins: map[int32]*lin{}, lems: map[int32][]*Term{}, ucanon: map[ucKey]*Term{}}
	c.tFalse = c.mk(OConst, boolSort, 0, "", nil)
	c.tTrue = c.mk(OConst, boolSort, 1, "", nil)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset tests
	i, j := 0, 0
	aSub, bSub := true, true
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			aSub = false
			i++
		} else {
			bSub = false
			j++
		}
	}
	if i < len(a) {
		aSub = false
	}
	if j < len(b) {
		bSub = false
	}
	if bSub {
		return a
	}
	if aSub {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			r = append(r, a[i])
			i++
			j++
		} else if a[i] < b[j] {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func (c *Ctx) mk(op Op, s Sort, val uint64, name string, rat *big.Rat, args ...*Term) *Term {
	k := tkey{op: op, sort: s, val: val, name: name, a: -1, b: -1, c: -1}
	if rat != nil {
		k.name = rat.RatString()
	}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: int32(len(c.terms)), op: op, sort: s, val: val, name: name, rat: rat}
	copy(t.a[:], args)
	sz := int64(1)
	for _, x := range args {
		t.vars = mergeVars(t.vars, x.vars)
		t.base = mergeVars(t.base, x.base)
		t.hasReal = t.hasReal || x.hasReal
		t.hasFP = t.hasFP || x.hasFP
		t.hasUF = t.hasUF || x.hasUF
		sz += int64(x.size)
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	t.size = int32(sz)
	if s.K == SReal {
		t.hasReal = true
	}
	if s.K == SFP32 || s.K == SFP64 {
		t.hasFP = true
	}
	if op == OVar || op == OUF {
		if op == OUF {
			t.hasUF = true
		}
		t.vars = mergeVars(t.vars, []int32{t.id})
		if op == OVar || !strings.HasPrefix(name, "fp.") {
			t.base = mergeVars(t.base, []int32{t.id})
		}
		c.vars = append(c.vars, t)
	}
	c.ranges(t)
	c.terms = append(c.terms, t)
	c.tab[k] = t
	if r := c.canon(t); r != t {
		c.tab[k] = r
		return r
	}
	return t
}

// ranges computes conservative value ranges.
func (c *Ctx) ranges(t *Term) {
	switch t.sort.K {
	case SBV:
		c.bvRange(t)
	case SFP32, SFP64:
		c.fpRange(t)
	}
}

func (c *Ctx) bvRange(t *Term) {
	m := mask(t.sort.W)
	t.lo, t.hi = 0, m
	x, y := t.a[0], t.a[1]
	switch t.op {
	case OVar:
		if t.val != 0 { // declared maximum
			t.hi = t.val
		}
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OAdd:
		s, cy := bits.Add64(x.hi, y.hi, 0)
		if cy == 0 && s <= m {
			t.lo, t.hi = x.lo+y.lo, s
		} else if y.op == OConst { // x - k where x >= k
			k := (-y.val) & m
			if x.lo >= k {
				t.lo, t.hi = x.lo-k, x.hi-k
			}
		}
	case ORToBV:
		if iv := c.ival(x); t.val == 0 && iv.lo >= 0 && iv.hi < 1e15 {
			if h := uint64(iv.hi); h <= m {
				t.lo, t.hi = uint64(iv.lo), h
			}
		}
	case OSub:
		if x.lo >= y.hi {
			t.lo, t.hi = x.lo-y.hi, x.hi-y.lo
		}
	case OMul:
		h, l := bits.Mul64(x.hi, y.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = x.lo*y.lo, l
		}
	case OUdiv:
		if y.lo > 0 {
			t.lo, t.hi = x.lo/y.hi, x.hi/y.lo
		}
	case OUrem:
		if y.lo > 0 {
			t.hi = y.hi - 1
			if x.hi < t.hi {
				t.hi = x.hi
			}
		}
	case OSdiv:
		h := uint64(1) << (t.sort.W - 1)
		if x.hi < h && y.hi < h && y.lo > 0 {
			t.lo, t.hi = x.lo/y.hi, x.hi/y.lo
		}
	case OSrem:
		h := uint64(1) << (t.sort.W - 1)
		if x.hi < h && y.hi < h && y.lo > 0 {
			t.hi = y.hi - 1
			if x.hi < t.hi {
				t.hi = x.hi
			}
		}
	case OBand:
		t.hi = min(x.hi, y.hi)
	case OBor, OBxor:
		n := bits.Len64(x.hi | y.hi)
		t.hi = mask(uint8(n))
		if n == 0 {
			t.hi = 0
		}
		if t.op == OBor {
			t.lo = max(x.lo, y.lo)
		}
	case OLshr:
		if y.op == OConst && y.val < 64 {
			t.lo, t.hi = x.lo>>y.val, x.hi>>y.val
		} else {
			t.hi = x.hi
		}
	case OShl:
		if y.op == OConst && y.val < 64 && x.hi <= m>>y.val {
			t.lo, t.hi = x.lo<<y.val, x.hi<<y.val
		}
	case OAshr:
		h := uint64(1) << (t.sort.W - 1)
		if x.hi < h {
			if y.op == OConst && y.val < 64 {
				t.lo, t.hi = x.lo>>y.val, x.hi>>y.val
			} else {
				t.hi = x.hi
			}
		}
	case OZext:
		t.lo, t.hi = x.lo, x.hi
	case OSext:
		h := uint64(1) << (x.sort.W - 1)
		if x.hi < h {
			t.lo, t.hi = x.lo, x.hi
		}
	case OExtract:
		if t.val == 0 && x.hi <= m {
			t.lo, t.hi = x.lo, x.hi
		}
	case OIte:
		t.lo, t.hi = min(y.lo, t.a[2].lo), max(y.hi, t.a[2].hi)
	}
}

func isFP(s Sort) bool { return s.K == SFP32 || s.K == SFP64 }

// rnd rounds a float64 computed exactly enough to the sort's precision.
func rndTo(s Sort, f float64) float64 {
	if s.K == SFP32 {
		return float64(float32(f))
	}
	return f
}

func (c *Ctx) fpRange(t *Term) {
	t.fin, t.nan = false, true
	x, y := t.a[0], t.a[1]
	set := func(lo, hi float64) {
		if math.IsNaN(lo) || math.IsNaN(hi) || math.IsInf(lo, 0) || math.IsInf(hi, 0) {
			return
		}
		t.fin, t.nan, t.flo, t.fhi = true, false, lo, hi
	}
	op2 := func(a, b float64, op Op) float64 {
		if t.sort.K == SFP32 {
			p, q := float32(a), float32(b)
			switch op {
			case OFAdd:
				return float64(p + q)
			case OFSub:
				return float64(p - q)
			case OFMul:
				return float64(p * q)
			case OFDiv:
				return float64(p / q)
			}
		}
		switch op {
		case OFAdd:
			return a + b
		case OFSub:
			return a - b
		case OFMul:
			return a * b
		}
		return a / b
	}
	switch t.op {
	case OConst:
		f := t.fval()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			t.nan = math.IsNaN(f)
			return
		}
		set(f, f)
	case OFFromS:
		w := x.sort.W
		var lo, hi int64
		h := uint64(1) << (w - 1)
		if x.hi < h {
			lo, hi = int64(x.lo), int64(x.hi)
		} else if x.lo >= h {
			lo, hi = sx(x.lo, w), sx(x.hi, w)
		} else {
			lo, hi = sx(h, w), int64(h-1)
			// a negated small value: look through ite/neg
			if l, u, ok := c.srange(x); ok {
				lo, hi = l, u
			}
		}
		if t.sort.K == SFP32 {
			set(float64(float32(lo)), float64(float32(hi)))
		} else {
			set(float64(lo), float64(hi))
		}
	case OFFromU:
		if t.sort.K == SFP32 {
			set(float64(float32(x.lo)), float64(float32(x.hi)))
		} else {
			set(float64(x.lo), float64(x.hi))
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		if x.fin && y.fin {
			if t.op == OFDiv && y.flo <= 0 && y.fhi >= 0 {
				return
			}
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, a := range []float64{x.flo, x.fhi} {
				for _, b := range []float64{y.flo, y.fhi} {
					v := op2(a, b, t.op)
					if math.IsNaN(v) {
						return
					}
					lo, hi = math.Min(lo, v), math.Max(hi, v)
				}
			}
			set(lo, hi)
		}
	case OFNeg:
		t.nan = x.nan
		if x.fin {
			set(-x.fhi, -x.flo)
		}
	case OFAbs:
		t.nan = x.nan
		if x.fin {
			if x.flo >= 0 {
				set(x.flo, x.fhi)
			} else if x.fhi <= 0 {
				set(-x.fhi, -x.flo)
			} else {
				set(0, math.Max(-x.flo, x.fhi))
			}
		}
	case OFCvt:
		t.nan = x.nan
		if x.fin {
			set(rndTo(t.sort, x.flo), rndTo(t.sort, x.fhi))
		}
	case OFRti:
		t.nan = x.nan
		if x.fin {
			switch t.val {
			case 0:
				set(math.Trunc(x.flo), math.Trunc(x.fhi))
			case 1:
				set(math.Floor(x.flo), math.Floor(x.fhi))
			case 2:
				set(math.Ceil(x.flo), math.Ceil(x.fhi))
			}
		}
	case OIte:
		z := t.a[2]
		if y.fin && z.fin {
			set(math.Min(y.flo, z.flo), math.Max(y.fhi, z.fhi))
		}
		t.nan = (!y.fin && y.nan) || (!z.fin && z.nan)
	}
}

// srange computes a signed range for small structures (ite/neg/mul by const).
func (c *Ctx) srange(x *Term) (lo, hi int64, ok bool) {
	w := x.sort.W
	h := uint64(1) << (w - 1)
	if x.hi < h {
		return int64(x.lo), int64(x.hi), true
	}
	if x.lo >= h {
		return sx(x.lo, w), sx(x.hi, w), true
	}
	switch x.op {
	case OIte:
		l1, h1, ok1 := c.srange(x.a[1])
		l2, h2, ok2 := c.srange(x.a[2])
		if ok1 && ok2 {
			return min(l1, l2), max(h1, h2), true
		}
	case ONeg:
		l, u, ok := c.srange(x.a[0])
		if ok && l > -(1<<31) && u < 1<<31 && w > 32 || ok && l > -int64(h) {
			return -u, -l, true
		}
	case OMul:
		if x.a[1].op == OConst {
			l, u, ok := c.srange(x.a[0])
			k := sx(x.a[1].val, w)
			const b = 1 << 30
			if ok && l > -b && u < b && k > -b && k < b {
				p, q := l*k, u*k
				if p > q {
					p, q = q, p
				}
				if p >= -int64(h) && q < int64(h) {
					return p, q, true
				}
			}
		}
	case OAdd, OSub:
		l1, u1, ok1 := c.srange(x.a[0])
		l2, u2, ok2 := c.srange(x.a[1])
		if x.op == OSub {
			l2, u2 = -u2, -l2
		}
		const b = 1 << 60
		if ok1 && ok2 && l1 > -b && u1 < b && l2 > -b && u2 < b {
			l, u := l1+l2, u1+u2
			if l >= -int64(h) && u <= int64(h-1) {
				return l, u, true
			}
		}
	case OSext:
		return c.srange(x.a[0])
	}
	return sx(h, w), int64(h - 1), true
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) fval() float64 {
	if t.sort.K == SFP32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

// ---- constructors

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (c *Ctx) BV(v uint64, w int) *Term {
	return c.mk(OConst, bv(w), v&mask(uint8(w)), "", nil)
}
func (c *Ctx) F64(f float64) *Term { return c.FBits(fp64Sort, math.Float64bits(f)) }
func (c *Ctx) FBits(s Sort, b uint64) *Term {
	// canonical NaN
	if s.K == SFP32 {
		if f := math.Float32frombits(uint32(b)); f != f {
			b = 0x7fc00000
		}
	} else if f := math.Float64frombits(b); f != f {
		b = 0x7ff8000000000000
	}
	return c.mk(OConst, s, b, "", nil)
}
func (c *Ctx) fconst(s Sort, f float64) *Term {
	if s.K == SFP32 {
		return c.FBits(s, uint64(math.Float32bits(float32(f))))
	}
	return c.FBits(s, math.Float64bits(f))
}
func (c *Ctx) Rat(r *big.Rat) *Term { return c.mk(OConst, realSort, 0, "", r) }
func (c *Ctx) RealF(f float64) *Term {
	return c.Rat(new(big.Rat).SetFloat64(f))
}

func (c *Ctx) Var(name string, s Sort) *Term {
	return c.mk(OVar, s, 0, name, nil)
}

// VarMax is a bit-vector variable in 0..hi. The solver gets the bound with the
// declaration, the simplifier through the term's range.
func (c *Ctx) VarMax(name string, w int, hi uint64) *Term {
	if hi >= mask(uint8(w)) {
		hi = 0
	}
	return c.mk(OVar, bv(w), hi, name, nil)
}

// UF returns the application of an uninterpreted function.
func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	n := len(c.terms)
	t := c.mk(OUF, s, 0, name, nil, args...)
	if len(c.terms) > n {
		c.ufs[name] = append(c.ufs[name], t)
	}
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.a[0]
	}
	return c.mk(ONot, boolSort, 0, "", nil, a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return c.tFalse
	}
	// absorption: a & (a & x), a & !(a & x) = a & !x, a & !(!a & x) = a
	for k := 0; k < 2; k++ {
		if b.op == OAnd {
			if b.a[0] == a || b.a[1] == a {
				return b
			}
			na := c.Not(a)
			if b.a[0] == na || b.a[1] == na {
				return c.tFalse
			}
		}
		if b.op == ONot && b.a[0].op == OAnd {
			p, q := b.a[0].a[0], b.a[0].a[1]
			if p == a {
				return c.And(a, c.Not(q))
			}
			if q == a {
				return c.And(a, c.Not(p))
			}
			na := c.Not(a)
			if p == na || q == na {
				return a
			}
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, boolSort, 0, "", nil, a, b)
}

func (c *Ctx) Or(a, b *Term) *Term { return c.Not(c.And(c.Not(a), c.Not(b))) }

func (c *Ctx) AndN(ts []*Term) *Term {
	r := c.tTrue
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.op == OConst {
		if k.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if k.op == ONot {
		k, a, b = k.a[0], b, a
	}
	if a.sort.K == SBool {
		// k?a:b
		if a.op == OConst {
			if a.val != 0 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.op == OConst {
			if b.val != 0 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	if a.op == OIte && a.a[0] == k {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == k {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	// ite(k, x, ite(j, x, y)) = ite(k|j, x, y)
	if b.op == OIte && b.a[1] == a {
		return c.Ite(c.Or(k, b.a[0]), a, b.a[2])
	}
	if b.op == OIte && b.a[2] == a {
		return c.Ite(c.And(c.Not(k), b.a[0]), b.a[1], a)
	}
	return c.mk(OIte, a.sort, 0, "", nil, k, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.op == OConst && b.op == OConst {
		if a.sort.K == SReal {
			return c.Bool(a.rat.Cmp(b.rat) == 0)
		}
		return c.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.sort.K == SReal {
		if a.op == ORTrunc && b.op == OConst {
			if !b.rat.IsInt() {
				return c.tFalse
			}
			one := c.Rat(big.NewRat(1, 1))
			up, dn := c.RBin(ORAdd, b, one), c.RBin(ORSub, b, one)
			switch b.rat.Sign() {
			case 1:
				return c.And(c.RCmp(ORLe, b, a.a[0]), c.RCmp(ORLt, a.a[0], up))
			case -1:
				return c.And(c.RCmp(ORLt, dn, a.a[0]), c.RCmp(ORLe, a.a[0], b))
			}
			return c.And(c.RCmp(ORLt, dn, a.a[0]), c.RCmp(ORLt, a.a[0], up))
		}
		p := polyAdd(c.poly(a), c.poly(b), -1)
		if k, ok := p.isConst(); ok {
			return c.Bool(k.Sign() == 0)
		}
		if iv := c.ivalPoly(p); iv.lo > 0 || iv.hi < 0 {
			return c.tFalse
		}
		return c.mk(OEq, boolSort, 0, "", nil, c.polyTerm(p), c.Rat(new(big.Rat)))
	}
	if a.op == ORToBV && (b.op == OConst || b.op == ORToBV && b.val == a.val) {
		return c.Eq(c.bvReal(a), c.bvRealAs(b, a.val))
	}
	if a.sort.K == SBool {
		if b.op == OConst {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.tFalse
		}
	}
	if a.sort.K == SBV {
		if a.hi < b.lo || b.hi < a.lo {
			return c.tFalse
		}
		if b.op == OConst {
			if a.sort.W == 1 && b.val == 1 {
				return c.Not(c.Eq(a, c.BV(0, 1)))
			}
			switch a.op {
			case OZext:
				return c.Eq(a.a[0], c.BV(b.val, int(a.a[0].sort.W)))
			case OSext:
				w := a.a[0].sort.W
				if uint64(sx(b.val&mask(w), w))&mask(a.sort.W) != b.val {
					return c.tFalse
				}
				return c.Eq(a.a[0], c.BV(b.val, int(w)))
			case OAdd:
				if a.a[1].op == OConst {
					return c.Eq(a.a[0], c.BV(b.val-a.a[1].val, int(a.sort.W)))
				}
			case OBxor:
				if a.a[1].op == OConst {
					return c.Eq(a.a[0], c.BV(b.val^a.a[1].val, int(a.sort.W)))
				}
			case OBand:
				if k := a.a[1]; k.op == OConst && k.val != 0 && k.val&(k.val-1) == 0 {
					z := c.Eq(c.Extract(a.a[0], bits.TrailingZeros64(k.val), 1), c.BV(0, 1))
					switch b.val {
					case 0:
						return z
					case k.val:
						return c.Not(z)
					}
					return c.tFalse
				}
			case ONeg:
				return c.Eq(a.a[0], c.BV(-b.val, int(a.sort.W)))
			case OBnot:
				return c.Eq(a.a[0], c.BV(^b.val, int(a.sort.W)))
			case OIte:
				if a.a[1].op == OConst || a.a[2].op == OConst {
					return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
				}
			}
		} else if a.op == OZext && b.op == OZext && a.a[0].sort == b.a[0].sort || a.op == OSext && b.op == OSext && a.a[0].sort == b.a[0].sort {
			return c.Eq(a.a[0], b.a[0])
		}
	}
	if isFP(a.sort) && b.op == OConst && a.op == OIte && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
	}
	if a.sort.K == SBV && a.sort.W > 1 {
		if r := c.linEq(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OEq, boolSort, 0, "", nil, a, b)
}

func (c *Ctx) foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv, OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if op == OSrem {
				return x, true
			}
			if a < 0 {
				return 1, true
			}
			return m, true
		}
		if b == -1 {
			if op == OSrem {
				return 0, true
			}
			return uint64(-a) & m, true
		}
		if op == OSdiv {
			return uint64(a/b) & m, true
		}
		return uint64(a%b) & m, true
	case OBand:
		return x & y, true
	case OBor:
		return x | y, true
	case OBxor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	}
	return 0, false
}

// Bin builds a bit-vector binary operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.sort.W
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin sort mismatch op %d: %v %v", op, a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		v, _ := c.foldBin(op, w, a.val, b.val)
		return c.BV(v, int(w))
	}
	m := mask(w)
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if a.op == OConst {
			a, b = b, a
		}
	}
	k := b.op == OConst
	if w > 1 && (op == OAdd || op == OSub || op == OMul && k) {
		la, lb := c.linOf(a), c.linOf(b)
		switch {
		case len(la.at)+len(lb.at) > linMax:
		case op == OMul:
			return c.linTerm(linAdd(&lin{w: w}, la, b.val))
		case op == OSub:
			return c.linTerm(linAdd(la, lb, m))
		case k && a.op == OZext:
			// leave zext(x+k1)+k2 to the rule below
		default:
			return c.linTerm(linAdd(la, lb, 1))
		}
	}
	if k && w > 1 {
		switch op {
		case OUdiv:
			if q, _, ok := c.linDivMod(a, b.val, false); ok {
				return q
			}
		case OUrem:
			if _, r, ok := c.linDivMod(a, b.val, false); ok {
				return r
			}
		case OSdiv:
			if q, _, ok := c.linDivMod(a, b.val, true); ok {
				return q
			}
		case OSrem:
			if _, r, ok := c.linDivMod(a, b.val, true); ok {
				return r
			}
		}
	}
	switch op {
	case OAdd:
		if k {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].op == OConst {
				return c.Bin(OAdd, a.a[0], c.BV(a.a[1].val+b.val, int(w)))
			}
			// zext(x + k1) + k2 where inner add did not wrap
			if a.op == OZext && a.a[0].op == OAdd && a.a[0].a[1].op == OConst {
				in := a.a[0]
				if s, cy := bits.Add64(in.a[0].hi, in.a[1].val, 0); cy == 0 && s <= mask(in.sort.W) {
					return c.Bin(OAdd, c.Zext(in.a[0], int(w)), c.BV(in.a[1].val+b.val, int(w)))
				}
			}
		}
	case OSub:
		if k {
			return c.Bin(OAdd, a, c.BV(-b.val, int(w)))
		}
		if a == b {
			return c.BV(0, int(w))
		}
		if a.op == OConst && a.val == 0 {
			return c.Neg(b)
		}
	case OMul:
		if k {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if b.val == m {
				return c.Neg(a)
			}
		}
	case OUdiv:
		if k && b.val == 1 {
			return a
		}
		if k && b.val > a.hi {
			return c.BV(0, int(w))
		}
		if k && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OLshr, a, c.BV(uint64(bits.TrailingZeros64(b.val)), int(w)))
		}
	case OUrem:
		if k && b.val > a.hi {
			return a
		}
		if k && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OBand, a, c.BV(b.val-1, int(w)))
		}
	case OSdiv:
		h := uint64(1) << (w - 1)
		if a.hi < h && b.hi < h {
			return c.Bin(OUdiv, a, b)
		}
	case OSrem:
		h := uint64(1) << (w - 1)
		if a.hi < h && b.hi < h && b.lo > 0 {
			return c.Bin(OUrem, a, b)
		}
	case OBand:
		if a == b {
			return a
		}
		if k {
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
			if a.op == OBand && a.a[1].op == OConst {
				return c.Bin(OBand, a.a[0], c.BV(a.a[1].val&b.val, int(w)))
			}
			if a.op == OZext {
				return c.Zext(c.Bin(OBand, a.a[0], c.BV(b.val, int(a.a[0].sort.W))), int(w))
			}
		}
	case OBor, OBxor:
		if k && b.val == 0 {
			return a
		}
		if a == b {
			if op == OBor {
				return a
			}
			return c.BV(0, int(w))
		}
		if k && op == OBor && b.val == m {
			return b
		}
		if k && op == OBxor && b.val == m {
			return c.Bnot(a)
		}
		// disjoint or -> add (canonical form)
		if disjoint(a, b) {
			return c.Bin(OAdd, a, b)
		}
	case OShl, OLshr, OAshr:
		if k {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OAshr {
				return c.BV(0, int(w))
			}
			if op == OAshr && a.hi < uint64(1)<<(w-1) {
				return c.Bin(OLshr, a, b)
			}
			if op == OLshr && b.val < 64 && a.hi>>b.val == 0 {
				return c.BV(0, int(w))
			}
			if op == OLshr && a.op == OZext {
				iw := a.a[0].sort.W
				if b.val >= uint64(iw) {
					return c.BV(0, int(w))
				}
				return c.Zext(c.Bin(OLshr, a.a[0], c.BV(b.val, int(iw))), int(w))
			}
		}
		if a.op == OConst && a.val == 0 {
			return a
		}
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if !k && a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, a.sort, 0, "", nil, a, b)
}

// possibly-set bits of a term
func maybeBits(t *Term) uint64 {
	n := bits.Len64(t.hi)
	m := mask(uint8(n))
	if n == 0 {
		return 0
	}
	switch t.op {
	case OConst:
		return t.val
	case OShl:
		if t.a[1].op == OConst && t.a[1].val < 64 {
			return m & (maybeBits(t.a[0]) << t.a[1].val)
		}
	case OBand:
		if t.a[1].op == OConst {
			return m & t.a[1].val
		}
	case OZext:
		return m & maybeBits(t.a[0])
	case OAdd, OBor, OBxor:
		if x, y := maybeBits(t.a[0]), maybeBits(t.a[1]); t.op != OAdd || x&y == 0 {
			return m & (x | y)
		}
	case OIte:
		return m & (maybeBits(t.a[1]) | maybeBits(t.a[2]))
	case OMul:
		if t.a[1].op == OConst && t.a[1].val != 0 {
			return m &^ (1<<bits.TrailingZeros64(t.a[1].val) - 1)
		}
	}
	return m
}

func disjoint(a, b *Term) bool { return maybeBits(a)&maybeBits(b) == 0 }

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.BV(-a.val, int(a.sort.W))
	}
	if a.op == ONeg {
		return a.a[0]
	}
	if a.sort.W > 1 {
		return c.linTerm(linAdd(&lin{w: a.sort.W}, c.linOf(a), mask(a.sort.W)))
	}
	return c.mk(ONeg, a.sort, 0, "", nil, a)
}
func (c *Ctx) Bnot(a *Term) *Term {
	if a.op == OConst {
		return c.BV(^a.val, int(a.sort.W))
	}
	if a.op == OBnot {
		return a.a[0]
	}
	return c.mk(OBnot, a.sort, 0, "", nil, a)
}
func (c *Ctx) Zext(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if a.op == OConst {
		return c.BV(a.val, w)
	}
	if a.op == OZext {
		return c.Zext(a.a[0], w)
	}
	if a.op == ORToBV && a.val == 0 {
		return c.mk(ORToBV, bv(w), 0, "", nil, a.a[0])
	}
	if r := c.linExt(a, w, false); r != nil {
		return r
	}
	if a.op == OIte && (a.a[1].op == OConst && a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.Zext(a.a[1], w), c.Zext(a.a[2], w))
	}
	return c.mk(OZext, bv(w), 0, "", nil, a)
}
func (c *Ctx) Sext(a *Term, w int) *Term {
	if int(a.sort.W) == w {
		return a
	}
	if a.op == OConst {
		return c.BV(uint64(sx(a.val, a.sort.W)), w)
	}
	if a.op == ORToBV && a.val == 1 {
		return c.mk(ORToBV, bv(w), 1, "", nil, a.a[0])
	}
	if r := c.linExt(a, w, true); r != nil {
		return r
	}
	if a.hi < uint64(1)<<(a.sort.W-1) {
		return c.Zext(a, w)
	}
	if a.op == OIte && (a.a[1].op == OConst && a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.Sext(a.a[1], w), c.Sext(a.a[2], w))
	}
	return c.mk(OSext, bv(w), 0, "", nil, a)
}
func (c *Ctx) Extract(a *Term, lo, w int) *Term {
	if lo == 0 && int(a.sort.W) == w {
		return a
	}
	if a.op == OConst {
		return c.BV(a.val>>uint(lo), w)
	}
	switch a.op {
	case OZext:
		iw := int(a.a[0].sort.W)
		if lo >= iw {
			return c.BV(0, w)
		}
		if lo+w <= iw {
			return c.Extract(a.a[0], lo, w)
		}
		return c.Zext(c.Extract(a.a[0], lo, iw-lo), w)
	case OSext:
		if iw := int(a.a[0].sort.W); lo+w <= iw {
			return c.Extract(a.a[0], lo, w)
		}
	case OExtract:
		return c.Extract(a.a[0], lo+int(a.val), w)
	case OIte:
		if a.a[1].op == OConst || a.a[2].op == OConst {
			return c.Ite(a.a[0], c.Extract(a.a[1], lo, w), c.Extract(a.a[2], lo, w))
		}
	case OAdd, OSub, OMul, OBand, OBor, OBxor:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a[0], 0, w), c.Extract(a.a[1], 0, w))
		}
		if a.op == OBand || a.op == OBor || a.op == OBxor || a.op == OAdd && disjoint(a.a[0], a.a[1]) {
			return c.Bin(a.op, c.Extract(a.a[0], lo, w), c.Extract(a.a[1], lo, w))
		}
		if k := a.a[1]; a.op == OMul && k.op == OConst && k.val&(k.val-1) == 0 && k.val != 0 {
			if sh := bits.TrailingZeros64(k.val); lo >= sh {
				return c.Extract(a.a[0], lo-sh, w)
			}
		}
	case ONeg:
		if lo == 0 {
			return c.Neg(c.Extract(a.a[0], 0, w))
		}
	case OBnot:
		return c.Bnot(c.Extract(a.a[0], lo, w))
	case OLshr:
		if a.a[1].op == OConst && int(a.a[1].val)+lo+w <= int(a.sort.W) {
			return c.Extract(a.a[0], int(a.a[1].val)+lo, w)
		}
	case OShl:
		if a.a[1].op == OConst {
			sh := int(a.a[1].val)
			if lo >= sh {
				return c.Extract(a.a[0], lo-sh, w)
			}
			if lo+w <= sh {
				return c.BV(0, w)
			}
		}
	}
	return c.mk(OExtract, bv(w), uint64(lo), "", nil, a)
}

// bvReal is the real value of a bit-vector made from a real.
func (c *Ctx) bvReal(a *Term) *Term { return a.a[0] }
func (c *Ctx) bvRealAs(b *Term, signed uint64) *Term {
	if b.op == ORToBV {
		return b.a[0]
	}
	if signed != 0 {
		return c.Rat(new(big.Rat).SetInt64(sx(b.val, b.sort.W)))
	}
	return c.Rat(new(big.Rat).SetUint64(b.val))
}

// cmpToBV compares bit-vectors made from reals; ok is false if not applicable.
func (c *Ctx) cmpToBV(a, b *Term, signed uint64) (*Term, bool) {
	fit := func(t *Term) bool { return t.op == OConst || t.op == ORToBV && t.val == signed }
	if fit(a) && fit(b) && (a.op == ORToBV || b.op == ORToBV) {
		return c.RCmp(ORLt, c.bvRealAs(a, signed), c.bvRealAs(b, signed)), true
	}
	return nil, false
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if r, ok := c.cmpToBV(a, b, 0); ok {
		return r
	}
	if a.hi < b.lo {
		return c.tTrue
	}
	if a.lo >= b.hi {
		return c.tFalse
	}
	if a.op == OZext && b.op == OZext && a.a[0].sort == b.a[0].sort {
		return c.Ult(a.a[0], b.a[0])
	}
	if a.op == OZext && b.op == OConst {
		return c.Ult(a.a[0], c.BV(b.val, int(a.a[0].sort.W)))
	}
	if b.op == OZext && a.op == OConst {
		return c.Ult(c.BV(a.val, int(b.a[0].sort.W)), b.a[0])
	}
	if a.op == OAdd && b.op == OConst && a.a[1].op == OConst {
		// x + k < c with no wrap
		x, k := a.a[0], a.a[1].val
		if s, cy := bits.Add64(x.hi, k, 0); cy == 0 && s <= mask(a.sort.W) && b.val >= k {
			return c.Ult(x, c.BV(b.val-k, int(a.sort.W)))
		}
	}
	if b.op == OAdd && a.op == OConst && b.a[1].op == OConst {
		x, k := b.a[0], b.a[1].val
		if s, cy := bits.Add64(x.hi, k, 0); cy == 0 && s <= mask(a.sort.W) && a.val >= k {
			return c.Ult(c.BV(a.val-k, int(a.sort.W)), x)
		}
	}
	if a.op == OIte && b.op == OConst && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.Ult(a.a[1], b), c.Ult(a.a[2], b))
	}
	if b.op == OIte && a.op == OConst && (b.a[1].op == OConst || b.a[2].op == OConst) {
		return c.Ite(b.a[0], c.Ult(a, b.a[1]), c.Ult(a, b.a[2]))
	}
	if b.op == OConst && b.val == 1 {
		return c.Eq(a, c.BV(0, int(a.sort.W)))
	}
	if a.op == OConst && a.val == 0 {
		return c.Not(c.Eq(b, a))
	}
	return c.mk(OUlt, boolSort, 0, "", nil, a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if r, ok := c.cmpToBV(a, b, 1); ok {
		return r
	}
	w := a.sort.W
	h := uint64(1) << (w - 1)
	if a.hi < h && b.hi < h {
		return c.Ult(a, b)
	}
	if a.lo >= h && b.lo >= h {
		return c.Ult(a, b)
	}
	if a.lo >= h && b.hi < h {
		return c.tTrue
	}
	if a.hi < h && b.lo >= h {
		return c.tFalse
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sx(a.val, w) < sx(b.val, w))
	}
	al, ah, _ := c.srange(a)
	bl, bh, _ := c.srange(b)
	if ah < bl {
		return c.tTrue
	}
	if al >= bh {
		return c.tFalse
	}
	if a.op == OIte && b.op == OConst && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.Slt(a.a[1], b), c.Slt(a.a[2], b))
	}
	if b.op == OIte && a.op == OConst && (b.a[1].op == OConst || b.a[2].op == OConst) {
		return c.Ite(b.a[0], c.Slt(a, b.a[1]), c.Slt(a, b.a[2]))
	}
	if a.op == OAdd && b.op == OConst && a.a[1].op == OConst {
		// x + k < c, signed, without overflow
		xl, xh, _ := c.srange(a.a[0])
		k := sx(a.a[1].val, w)
		lim := int64(h - 1)
		d := sx(b.val, w) - k
		if noOvf(xl, k, w) && noOvf(xh, k, w) && d >= -lim-1 && d <= lim && ((k >= 0) == (d <= sx(b.val, w))) {
			return c.Slt(a.a[0], c.BV(uint64(d), int(w)))
		}
	}
	if b.op == OAdd && a.op == OConst && b.a[1].op == OConst {
		xl, xh, _ := c.srange(b.a[0])
		k := sx(b.a[1].val, w)
		lim := int64(h - 1)
		d := sx(a.val, w) - k
		if noOvf(xl, k, w) && noOvf(xh, k, w) && d >= -lim-1 && d <= lim && ((k >= 0) == (d <= sx(a.val, w))) {
			return c.Slt(c.BV(uint64(d), int(w)), b.a[0])
		}
	}
	return c.mk(OSlt, boolSort, 0, "", nil, a, b)
}

func noOvf(x, k int64, w uint8) bool {
	s := x + k
	if (k > 0) != (s > x) && k != 0 {
		return false
	}
	lim := int64(mask(w) >> 1)
	return s >= -lim-1 && s <= lim
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- floating point

func f32op(op Op, a, b float32) float32 {
	switch op {
	case OFAdd:
		return a + b
	case OFSub:
		return a - b
	case OFMul:
		return a * b
	}
	return a / b
}
func f64op(op Op, a, b float64) float64 {
	switch op {
	case OFAdd:
		return a + b
	case OFSub:
		return a - b
	case OFMul:
		return a * b
	}
	return a / b
}

func foldFBin(op Op, s Sort, x, y uint64) uint64 {
	if s.K == SFP32 {
		return uint64(math.Float32bits(f32op(op, math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y)))))
	}
	return math.Float64bits(f64op(op, math.Float64frombits(x), math.Float64frombits(y)))
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.FBits(a.sort, foldFBin(op, a.sort, a.val, b.val))
	}
	if a.op == OConst && a.nan && !a.fin {
		return a
	}
	if b.op == OConst && b.nan && !b.fin {
		return b
	}
	// push through ite with a NaN/constant arm
	if a.op == OIte && b.op == OConst && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.FBin(op, a.a[1], b), c.FBin(op, a.a[2], b))
	}
	if b.op == OIte && a.op == OConst && (b.a[1].op == OConst || b.a[2].op == OConst) {
		return c.Ite(b.a[0], c.FBin(op, a, b.a[1]), c.FBin(op, a, b.a[2]))
	}
	if b.op == OConst {
		f := b.fval()
		if f == 1 && (op == OFMul || op == OFDiv) {
			return a
		}
		if op == OFSub && f == 0 && !math.Signbit(f) {
			return a
		}
		// division by a power of two is an exact multiplication
		if op == OFDiv {
			if fr, ex := math.Frexp(f); (fr == 0.5 || fr == -0.5) && ex > -100 && ex < 100 {
				return c.FBin(OFMul, a, c.fconst(a.sort, 1/f))
			}
		}
		if op == OFSub {
			return c.FBin(OFAdd, a, c.fconst(a.sort, -f))
		}
	}
	if op == OFMul && a.op == OConst && a.fval() == 1 {
		return b
	}
	if (op == OFAdd || op == OFMul) && a.op != OConst && b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	if (op == OFAdd || op == OFMul) && a.op == OConst {
		a, b = b, a
	}
	return c.mk(op, a.sort, 0, "", nil, a, b)
}

func (c *Ctx) FNeg(a *Term) *Term {
	if a.op == OConst {
		return c.fconst(a.sort, -a.fval())
	}
	if a.op == OFNeg {
		return a.a[0]
	}
	return c.mk(OFNeg, a.sort, 0, "", nil, a)
}
func (c *Ctx) FAbs(a *Term) *Term {
	if a.op == OConst {
		return c.fconst(a.sort, math.Abs(a.fval()))
	}
	if a.op == OFAbs {
		return a
	}
	if a.op == OFNeg {
		return c.FAbs(a.a[0])
	}
	if a.op == OIte && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.FAbs(a.a[1]), c.FAbs(a.a[2]))
	}
	return c.mk(OFAbs, a.sort, 0, "", nil, a)
}
func (c *Ctx) FSqrt(a *Term) *Term {
	if a.op == OConst {
		if a.sort.K == SFP32 {
			return c.fconst(a.sort, float64(float32(math.Sqrt(a.fval()))))
		}
		return c.fconst(a.sort, math.Sqrt(a.fval()))
	}
	return c.mk(OFSqrt, a.sort, 0, "", nil, a)
}
func (c *Ctx) FRti(a *Term, mode uint64) *Term {
	if a.op == OConst {
		f := a.fval()
		switch mode {
		case 0:
			f = math.Trunc(f)
		case 1:
			f = math.Floor(f)
		case 2:
			f = math.Ceil(f)
		}
		return c.fconst(a.sort, f)
	}
	return c.mk(OFRti, a.sort, mode, "", nil, a)
}

func (c *Ctx) FIsNaN(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(math.IsNaN(a.fval()))
	}
	if a.fin || !a.nan {
		return c.tFalse
	}
	switch a.op {
	case OIte:
		return c.Ite(a.a[0], c.FIsNaN(a.a[1]), c.FIsNaN(a.a[2]))
	case OFNeg, OFAbs, OFCvt, OFRti:
		return c.FIsNaN(a.a[0])
	case OFAdd, OFSub:
		// x op finite constant
		if a.a[1].fin || a.a[0].fin {
			x := a.a[0]
			if a.a[0].fin {
				x = a.a[1]
			}
			return c.FIsNaN(x)
		}
	case OFMul:
		if a.a[1].op == OConst && a.a[1].fin && a.a[1].fval() != 0 {
			return c.FIsNaN(a.a[0])
		}
	case OFDiv:
		if a.a[1].op == OConst && a.a[1].fin && a.a[1].fval() != 0 {
			return c.FIsNaN(a.a[0])
		}
	}
	return c.mk(OFNaN, boolSort, 0, "", nil, a)
}

// FCmp builds OFLt, OFLe or OFEq.
func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		x, y := a.fval(), b.fval()
		switch op {
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		}
		return c.Bool(x == y)
	}
	if a.op == OConst && !a.fin && a.nan || b.op == OConst && !b.fin && b.nan {
		return c.tFalse
	}
	if a == b {
		if op == OFLt {
			return c.tFalse
		}
		return c.Not(c.FIsNaN(a))
	}
	if a.fin && b.fin {
		switch op {
		case OFLt:
			if a.fhi < b.flo {
				return c.tTrue
			}
			if a.flo >= b.fhi {
				return c.tFalse
			}
		case OFLe:
			if a.fhi <= b.flo {
				return c.tTrue
			}
			if a.flo > b.fhi {
				return c.tFalse
			}
		case OFEq:
			if a.fhi < b.flo || b.fhi < a.flo {
				return c.tFalse
			}
		}
	}
	if a.op == OIte && (a.a[1].op == OConst || a.a[2].op == OConst) && (b.op == OConst || b.op != OIte) {
		return c.Ite(a.a[0], c.FCmp(op, a.a[1], b), c.FCmp(op, a.a[2], b))
	}
	if b.op == OIte && (b.a[1].op == OConst || b.a[2].op == OConst) && (a.op == OConst || a.op != OIte) {
		return c.Ite(b.a[0], c.FCmp(op, a, b.a[1]), c.FCmp(op, a, b.a[2]))
	}
	if a.op == OIte && b.op == OIte && a.a[0] == b.a[0] {
		return c.Ite(a.a[0], c.FCmp(op, a.a[1], b.a[1]), c.FCmp(op, a.a[2], b.a[2]))
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, boolSort, 0, "", nil, a, b)
}

func (c *Ctx) FFromInt(a *Term, signed bool, s Sort) *Term {
	if a.op == OConst {
		if s.K == SFP32 {
			if signed {
				return c.FBits(s, uint64(math.Float32bits(float32(sx(a.val, a.sort.W)))))
			}
			return c.FBits(s, uint64(math.Float32bits(float32(a.val))))
		}
		if signed {
			return c.F64(float64(sx(a.val, a.sort.W)))
		}
		return c.F64(float64(a.val))
	}
	// narrow: conversions from zext/sext see the small operand (value preserving)
	if a.op == OZext {
		return c.FFromInt(a.a[0], false, s)
	}
	if a.op == OSext && signed {
		return c.FFromInt(a.a[0], true, s)
	}
	if signed && a.hi < uint64(1)<<(a.sort.W-1) {
		signed = false
	}
	if !signed {
		// shrink to the bits needed
		n := bits.Len64(a.hi)
		if n == 0 {
			n = 1
		}
		if n < int(a.sort.W) {
			a = c.Extract(a, 0, n)
			return c.mkFromU(a, s)
		}
		return c.mkFromU(a, s)
	}
	if l, h, ok := c.srange(a); ok {
		n := 1
		for n < int(a.sort.W) && (l < -(1<<(n-1)) || h > 1<<(n-1)-1) {
			n++
		}
		if n < int(a.sort.W) {
			a = c.Extract(a, 0, n)
		}
	}
	return c.mk(OFFromS, s, 0, "", nil, a)
}
func (c *Ctx) mkFromU(a *Term, s Sort) *Term {
	if a.op == OConst {
		return c.FFromInt(a, false, s)
	}
	return c.mk(OFFromU, s, 0, "", nil, a)
}

func (c *Ctx) FCvt(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.op == OConst {
		return c.fconst(s, a.fval())
	}
	if a.op == OIte && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.FCvt(a.a[1], s), c.FCvt(a.a[2], s))
	}
	// exact small integers convert directly
	if a.op == OFFromU && a.a[0].sort.W <= 24 || a.op == OFFromS && a.a[0].sort.W <= 24 {
		return c.mk(a.op, s, 0, "", nil, a.a[0])
	}
	if a.op == OFCvt && a.sort.K == SFP64 && s.K == SFP32 && a.a[0].sort.K == SFP32 {
		return a.a[0]
	}
	return c.mk(OFCvt, s, 0, "", nil, a)
}

func (c *Ctx) FToS(a *Term, w int) *Term {
	if a.op == OConst {
		return c.BV(uint64(int64(a.fval())), w)
	}
	if a.op == OIte && (a.a[1].op == OConst && a.a[1].fin || a.a[2].op == OConst && a.a[2].fin) {
		return c.Ite(a.a[0], c.FToS(a.a[1], w), c.FToS(a.a[2], w))
	}
	// exact round trips
	x := a
	for x.op == OFCvt && x.sort.K == SFP64 {
		x = x.a[0]
	}
	lim := uint8(24)
	if x.sort.K == SFP64 {
		lim = 53
	}
	if x.op == OFFromU && x.a[0].sort.W <= lim && int(x.a[0].sort.W) < w {
		return c.Zext(x.a[0], w)
	}
	if x.op == OFFromS && x.a[0].sort.W <= lim && int(x.a[0].sort.W) <= w {
		return c.Sext(x.a[0], w)
	}
	return c.mk(OFToS, bv(w), 0, "", nil, a)
}

func (c *Ctx) FOfBits(a *Term) *Term {
	s := fp64Sort
	if a.sort.W == 32 {
		s = fp32Sort
	}
	if a.op == OConst {
		return c.FBits(s, a.val)
	}
	return c.mk(OFOfBits, s, 0, "", nil, a)
}

// ---- reals

func (c *Ctx) RBin(op Op, a, b *Term) *Term {
	ka, kb := a.op == OConst, b.op == OConst
	if ka && kb {
		r := new(big.Rat)
		switch op {
		case ORAdd:
			return c.Rat(r.Add(a.rat, b.rat))
		case ORSub:
			return c.Rat(r.Sub(a.rat, b.rat))
		case ORMul:
			return c.Rat(r.Mul(a.rat, b.rat))
		case ORDiv:
			if b.rat.Sign() != 0 {
				return c.Rat(r.Quo(a.rat, b.rat))
			}
		}
	}
	one := big.NewRat(1, 1)
	switch op {
	case ORAdd:
		if ka {
			a, b, ka, kb = b, a, kb, ka
		}
		if kb && b.rat.Sign() == 0 {
			return a
		}
		if kb && a.op == ORAdd && a.a[1].op == OConst {
			return c.RBin(ORAdd, a.a[0], c.RBin(ORAdd, a.a[1], b))
		}
	case ORSub:
		if a == b {
			return c.Rat(new(big.Rat))
		}
		if kb {
			return c.RBin(ORAdd, a, c.Rat(new(big.Rat).Neg(b.rat)))
		}
	case ORMul:
		if ka {
			a, b, ka, kb = b, a, kb, ka
		}
		if kb {
			if b.rat.Sign() == 0 {
				return b
			}
			if b.rat.Cmp(one) == 0 {
				return a
			}
			if a.op == ORMul && a.a[1].op == OConst {
				return c.RBin(ORMul, a.a[0], c.RBin(ORMul, a.a[1], b))
			}
		}
	case ORDiv:
		if kb && b.rat.Sign() != 0 {
			return c.RBin(ORMul, a, c.Rat(new(big.Rat).Inv(b.rat)))
		}
	}
	if (op == ORAdd || op == ORMul) && !kb && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, realSort, 0, "", nil, a, b)
}
func (c *Ctx) RNeg(a *Term) *Term {
	return c.RBin(ORMul, a, c.Rat(big.NewRat(-1, 1)))
}
func (c *Ctx) RCmp(op Op, a, b *Term) *Term {
	if op == OEq || op == OFEq {
		return c.Eq(a, b)
	}
	if a == b {
		return c.Bool(op == ORLe)
	}
	if a.op == OConst && b.op == OConst {
		k := a.rat.Cmp(b.rat)
		return c.Bool(k < 0 || k == 0 && op == ORLe)
	}
	if op == ORLe {
		return c.Not(c.RCmp(ORLt, b, a))
	}
	// canonical: p < 0 with p a polynomial whose first coefficient is +-1
	p := polyAdd(c.poly(a), c.poly(b), -1)
	if k, ok := p.isConst(); ok {
		return c.Bool(k.Sign() < 0)
	}
	if iv := c.ivalPoly(p); iv.hi < 0 {
		return c.tTrue
	} else if iv.lo > 0 {
		return c.tFalse
	}
	k := new(big.Rat).Abs(p.ts[0].k)
	if len(p.ts) == 2 && len(p.ts[0].m) == 0 {
		k = new(big.Rat).Abs(p.ts[1].k)
	}
	p = polyScale(p, k.Inv(k))
	return c.mk(ORLt, boolSort, 0, "", nil, c.polyTerm(p), c.Rat(new(big.Rat)))
}

// ---- helpers

func (t *Term) String() string { return termString(t, 6) }

func termString(t *Term, depth int) string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case SBool:
			return fmt.Sprint(t.val != 0)
		case SBV:
			return fmt.Sprintf("#%d", sx(t.val, t.sort.W))
		case SReal:
			f, _ := t.rat.Float64()
			return fmt.Sprint(f)
		}
		return fmt.Sprint(t.fval())
	case OVar:
		return t.name
	}
	if depth == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	if t.op == OUF {
		n = t.name
	}
	s := "(" + n
	for _, x := range t.a {
		if x != nil {
			s += " " + termString(x, depth-1)
		}
	}
	return s + ")"
}

func sortedIDs(m map[int32]bool) []int32 {
	r := make([]int32, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
