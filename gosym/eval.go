package main

import (
	"math"
	"strings"
)

// Model assigns values to variables and uninterpreted applications (bits).
// Variables without an entry are 0; UF applications without an entry are unknown.
type Model struct {
	vals  map[int32]uint64
	cache map[int32]uint64
	bad   map[int32]bool
}

func newModel() *Model {
	return &Model{vals: map[int32]uint64{}, cache: map[int32]uint64{}, bad: map[int32]bool{}}
}

func (m *Model) extend(over map[int32]uint64) *Model {
	n := newModel()
	for k, v := range m.vals {
		n.vals[k] = v
	}
	for k, v := range over {
		n.vals[k] = v
	}
	return n
}

// Eval evaluates t under m. ok is false when the value depends on something
// the model does not determine (reals, unassigned UF applications).
func (m *Model) Eval(t *Term) (uint64, bool) {
	if t.sort.K == SReal {
		f, ok := m.Real(t)
		return math.Float64bits(f), ok
	}
	switch t.op {
	case OConst:
		return t.val, true
	case OVar:
		return m.vals[t.id], true
	}
	if v, ok := m.cache[t.id]; ok {
		return v, true
	}
	if m.bad[t.id] {
		return 0, false
	}
	v, ok := m.eval1(t)
	if ok {
		m.cache[t.id] = v
	} else {
		m.bad[t.id] = true
	}
	return v, ok
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Real evaluates a real-sorted term numerically (approximately).
func (m *Model) Real(t *Term) (float64, bool) {
	switch t.op {
	case OConst:
		f, _ := t.rat.Float64()
		return f, true
	case OVar:
		return math.Float64frombits(m.vals[t.id]), true
	}
	if v, ok := m.cache[t.id]; ok {
		return math.Float64frombits(v), true
	}
	f, ok := m.real1(t)
	if ok && !finite(f) {
		ok = false
	}
	if ok {
		m.cache[t.id] = math.Float64bits(f)
	}
	return f, ok
}

func (m *Model) real1(t *Term) (float64, bool) {
	if t.op == OIte {
		k, ok := m.Eval(t.a[0])
		if !ok {
			return 0, false
		}
		if k != 0 {
			return m.Real(t.a[1])
		}
		return m.Real(t.a[2])
	}
	if t.op == ORFromU || t.op == ORFromS {
		v, ok := m.Eval(t.a[0])
		if t.op == ORFromS {
			return float64(sx(v, t.a[0].sort.W)), ok
		}
		return float64(v), ok
	}
	var v [3]float64
	for i, x := range t.a {
		if x == nil {
			break
		}
		f, ok := m.Real(x)
		if !ok {
			return 0, false
		}
		v[i] = f
	}
	switch t.op {
	case ORAdd:
		return v[0] + v[1], true
	case ORSub:
		return v[0] - v[1], true
	case ORMul:
		return v[0] * v[1], true
	case ORDiv:
		return v[0] / v[1], true
	case ORNeg:
		return -v[0], true
	case ORTrunc:
		return math.Trunc(v[0]), true
	case ORFloor:
		return math.Floor(v[0]), true
	case OUF:
		if f := realFns[t.name]; f != nil {
			return f(v[0]), true
		}
	}
	return 0, false
}

func (m *Model) eval1(t *Term) (uint64, bool) {
	if t.op == OIte {
		k, ok := m.Eval(t.a[0])
		if !ok {
			return 0, false
		}
		if k != 0 {
			return m.Eval(t.a[1])
		}
		return m.Eval(t.a[2])
	}
	if t.op == OAnd {
		x, ok1 := m.Eval(t.a[0])
		if ok1 && x == 0 {
			return 0, true
		}
		y, ok2 := m.Eval(t.a[1])
		if ok2 && y == 0 {
			return 0, true
		}
		return 1, ok1 && ok2
	}
	if t.op == ORLt || t.op == OEq && t.a[0].sort.K == SReal {
		p, ok1 := m.Real(t.a[0])
		q, ok2 := m.Real(t.a[1])
		if t.op == OEq {
			return b2u(p == q), ok1 && ok2
		}
		return b2u(p < q), ok1 && ok2
	}
	if t.op == ORToBV {
		f, ok := m.Real(t.a[0])
		return uint64(int64(f)) & mask(t.sort.W), ok
	}
	var v [3]uint64
	n := 0
	for _, x := range t.a {
		if x == nil {
			break
		}
		y, ok := m.Eval(x)
		if !ok {
			return 0, false
		}
		v[n] = y
		n++
	}
	if t.op == OUF && !strings.HasPrefix(t.name, "fp.") {
		r, ok := m.vals[t.id]
		return r, ok
	}
	return evalOp(t, v)
}

// evalOp applies the operation of t to argument values.
func evalOp(t *Term, v [3]uint64) (uint64, bool) {
	a := t.a[0]
	w := t.sort.W
	fv := func(i int) float64 {
		if t.a[i].sort.K == SFP32 {
			return float64(math.Float32frombits(uint32(v[i])))
		}
		return math.Float64frombits(v[i])
	}
	fb := func(f float64) uint64 {
		if f != f {
			if t.sort.K == SFP32 {
				return 0x7fc00000
			}
			return 0x7ff8000000000000
		}
		if t.sort.K == SFP32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	switch t.op {
	case OUF:
		switch t.name {
		case "fp.bits64", "fp.bits32":
			return v[0], fv(0) == fv(0)
		}
		n := strings.TrimPrefix(t.name, "fp.")
		if g := goMath[n]; g != nil && t.a[1] == nil {
			return fb(g(fv(0))), true
		}
		if g := goMath2[n]; g != nil && t.a[1] != nil && t.a[2] == nil {
			return fb(g(fv(0), fv(1))), true
		}
		return 0, false
	case ONot:
		return 1 - v[0], true
	case OEq:
		if isFP(a.sort) {
			x, y := fv(0), fv(1)
			if x != x && y != y {
				return 1, true
			}
		}
		return b2u(v[0] == v[1]), true
	case OAdd, OSub, OMul, OUdiv, OUrem, OSdiv, OSrem, OBand, OBor, OBxor, OShl, OLshr, OAshr:
		return (*Ctx)(nil).foldBin(t.op, w, v[0], v[1])
	case OBnot:
		return ^v[0] & mask(w), true
	case ONeg:
		return -v[0] & mask(w), true
	case OZext:
		return v[0], true
	case OSext:
		return uint64(sx(v[0], a.sort.W)) & mask(w), true
	case OExtract:
		return (v[0] >> t.val) & mask(w), true
	case OConcat:
		return v[0]<<t.a[1].sort.W | v[1], true
	case OUlt:
		return b2u(v[0] < v[1]), true
	case OUle:
		return b2u(v[0] <= v[1]), true
	case OSlt:
		return b2u(sx(v[0], a.sort.W) < sx(v[1], a.sort.W)), true
	case OSle:
		return b2u(sx(v[0], a.sort.W) <= sx(v[1], a.sort.W)), true
	case OFAdd, OFSub, OFMul, OFDiv:
		r := foldFBin(t.op, t.sort, v[0], v[1])
		if t.sort.K == SFP32 {
			return fb(float64(math.Float32frombits(uint32(r)))), true
		}
		return fb(math.Float64frombits(r)), true
	case OFNeg:
		return fb(-fv(0)), true
	case OFAbs:
		return fb(math.Abs(fv(0))), true
	case OFSqrt:
		return fb(math.Sqrt(fv(0))), true
	case OFRti:
		switch t.val {
		case 0:
			return fb(math.Trunc(fv(0))), true
		case 1:
			return fb(math.Floor(fv(0))), true
		}
		return fb(math.Ceil(fv(0))), true
	case OFLt:
		return b2u(fv(0) < fv(1)), true
	case OFLe:
		return b2u(fv(0) <= fv(1)), true
	case OFEq:
		return b2u(fv(0) == fv(1)), true
	case OFNaN:
		x := fv(0)
		return b2u(x != x), true
	case OFFromS:
		i := sx(v[0], a.sort.W)
		if t.sort.K == SFP32 {
			return uint64(math.Float32bits(float32(i))), true
		}
		return math.Float64bits(float64(i)), true
	case OFFromU:
		if t.sort.K == SFP32 {
			return uint64(math.Float32bits(float32(v[0]))), true
		}
		return math.Float64bits(float64(v[0])), true
	case OFToS:
		x := fv(0)
		if x != x || x >= 1<<63 || x < -(1<<63) {
			return 0, false
		}
		return uint64(int64(x)) & mask(w), true
	case OFCvt:
		return fb(fv(0)), true
	case OFOfBits:
		if t.sort.K == SFP32 {
			return fb(float64(math.Float32frombits(uint32(v[0])))), true
		}
		return fb(math.Float64frombits(v[0])), true
	}
	return 0, false
}
