package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KBad    Kind = iota // uninitialised / poison
	KScalar             // concrete scalar, bits in N
	KTerm               // symbolic scalar, P = *Term
	KPtr                // N = obj<<32 | off ; 0 = nil ; P = *SymPtr for symbolic offsets
	KSlice              // P = *Slice or nil
	KStr                // P = string or *SymStr
	KIface              // P = *Iface or nil
	KMap                // N = object id, 0 = nil
	KFunc               // P = *Closure or nil
	KAgg                // P = []Value (flattened struct or array)
	KTuple              // P = []Value
	KIter               // P = *Iter
)

// scalar type tags
type ST uint8

const (
	TNone ST = iota
	TBool
	TI8
	TI16
	TI32
	TI64
	TU8
	TU16
	TU32
	TU64
	TF32
	TF64
)

func (t ST) width() int {
	switch t {
	case TI8, TU8:
		return 8
	case TI16, TU16:
		return 16
	case TI32, TU32, TF32:
		return 32
	}
	return 64
}
func (t ST) signed() bool { return t >= TI8 && t <= TI64 }
func (t ST) isInt() bool  { return t >= TI8 && t <= TU64 }
func (t ST) isFloat() bool {
	return t == TF32 || t == TF64
}
func (t ST) sort() Sort {
	switch t {
	case TBool:
		return boolSort
	case TF32:
		return fp32Sort
	case TF64:
		return fp64Sort
	}
	return bv(t.width())
}

type Value struct {
	K Kind
	T ST
	N uint64
	P any
}

type SymPtr struct {
	obj    uint32
	base   int   // cell offset of index 0
	idx    *Term // 64-bit index, within [0,count)
	stride int
	count  int
	add    int // extra offset within the element
}

type Slice struct {
	obj  uint32
	off  int // cell offset of element 0
	n    int
	c    int
	strd int // cells per element
}

type SymStr struct {
	b      []Value // u8 scalars
	opaque bool
	why    string
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	bind   []Value
	native func(x *Exec, st *State, args []Value) Value
	bound  string // builtin name
}

type Iter struct {
	str  *Value // string iteration
	pos  int
	m    []mapEnt // snapshot
	kind uint8
}

func norm(t ST, v uint64) uint64 {
	switch t {
	case TBool:
		return v & 1
	case TI8:
		return uint64(int64(int8(v)))
	case TI16:
		return uint64(int64(int16(v)))
	case TI32:
		return uint64(int64(int32(v)))
	case TU8:
		return v & 0xff
	case TU16:
		return v & 0xffff
	case TU32, TF32:
		return v & 0xffffffff
	}
	return v
}

func scalar(t ST, v uint64) Value { return Value{K: KScalar, T: t, N: norm(t, v)} }
func vInt(i int) Value            { return Value{K: KScalar, T: TI64, N: uint64(int64(i))} }
func vBool(b bool) Value          { return Value{K: KScalar, T: TBool, N: b2u(b)} }
func vF64(f float64) Value        { return Value{K: KScalar, T: TF64, N: math.Float64bits(f)} }
func vF32(f float32) Value {
	return Value{K: KScalar, T: TF32, N: uint64(math.Float32bits(f))}
}
func vStr(s string) Value { return Value{K: KStr, P: s} }
func vPtr(obj uint32, off int) Value {
	return Value{K: KPtr, N: uint64(obj)<<32 | uint64(uint32(off))}
}
func vTuple(vs ...Value) Value { return Value{K: KTuple, P: vs} }

func (v Value) concrete() bool { return v.K == KScalar }
func (v Value) int() int       { return int(int64(v.N)) }
func (v Value) f64() float64   { return math.Float64frombits(v.N) }
func (v Value) f32() float32   { return math.Float32frombits(uint32(v.N)) }
func (v Value) float() float64 {
	if v.T == TF32 {
		return float64(v.f32())
	}
	return v.f64()
}
func (v Value) term() *Term { return v.P.(*Term) }
func (v Value) agg() []Value {
	if v.P == nil {
		return nil
	}
	return v.P.([]Value)
}
func (v Value) slice() *Slice {
	if v.P == nil {
		return nil
	}
	return v.P.(*Slice)
}
func (v Value) closure() *Closure {
	if v.P == nil {
		return nil
	}
	return v.P.(*Closure)
}
func (v Value) iface() *Iface {
	if v.P == nil {
		return nil
	}
	return v.P.(*Iface)
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case string:
		return len(s)
	case *SymStr:
		if s.opaque {
			panic(unsupported("length of opaque string: " + s.why))
		}
		return len(s.b)
	case nil:
		return 0
	}
	panic("strLen")
}

func isOpaque(v Value) bool {
	s, ok := v.P.(*SymStr)
	return ok && s.opaque
}

func strAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{K: KScalar, T: TU8, N: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSub(v Value, i, j int) Value {
	switch s := v.P.(type) {
	case string:
		return vStr(s[i:j])
	case *SymStr:
		return mkStr(s.b[i:j:j])
	case nil:
		return v
	}
	panic("strSub")
}

// mkStr builds a string value, concrete when all bytes are.
func mkStr(b []Value) Value {
	for _, x := range b {
		if x.K != KScalar {
			return Value{K: KStr, P: &SymStr{b: b}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.N)
	}
	return vStr(string(bs))
}

func opaqueStr(why string) Value { return Value{K: KStr, P: &SymStr{opaque: true, why: why}} }

func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i] = Value{K: KScalar, T: TU8, N: uint64(s[i])}
		}
		return r
	case *SymStr:
		if s.opaque {
			panic(unsupported("bytes of opaque string: " + s.why))
		}
		return s.b
	}
	return nil
}

type unsup struct{ msg string }

func unsupported(m string) unsup { return unsup{m} }

// ---- layout

type layout struct {
	n      int   // cells
	fields []int // struct field offsets
	elem   int   // array element cells
	agg    bool
	zero   []Value
}

type Layouts struct {
	m map[types.Type]*layout
}

func scalarTag(t types.Type) ST {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return TBool
		case types.Int8:
			return TI8
		case types.Int16:
			return TI16
		case types.Int32, types.UntypedRune:
			return TI32
		case types.Int, types.Int64, types.UntypedInt:
			return TI64
		case types.Uint8:
			return TU8
		case types.Uint16:
			return TU16
		case types.Uint32:
			return TU32
		case types.Uint, types.Uint64, types.Uintptr:
			return TU64
		case types.Float32:
			return TF32
		case types.Float64, types.UntypedFloat:
			return TF64
		}
	}
	return TNone
}

func (ls *Layouts) of(t types.Type) *layout {
	if l, ok := ls.m[t]; ok {
		return l
	}
	l := ls.compute(t)
	ls.m[t] = l
	return l
}

func (ls *Layouts) compute(t types.Type) *layout {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l := &layout{agg: true}
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, l.n)
			f := ls.of(u.Field(i).Type())
			l.n += f.n
			l.zero = append(l.zero, f.zero...)
		}
		return l
	case *types.Array:
		e := ls.of(u.Elem())
		l := &layout{agg: true, elem: e.n, n: e.n * int(u.Len())}
		if l.n > 1<<24 {
			panic(unsupported("huge array type"))
		}
		l.zero = make([]Value, 0, l.n)
		for i := int64(0); i < u.Len(); i++ {
			l.zero = append(l.zero, e.zero...)
		}
		return l
	}
	return &layout{n: 1, zero: []Value{zeroCell(t)}}
}

func zeroCell(t types.Type) Value {
	if s := scalarTag(t); s != TNone {
		return Value{K: KScalar, T: s}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return vStr("")
		case types.UnsafePointer, types.UntypedNil:
			return Value{K: KPtr}
		}
		return Value{K: KBad}
	case *types.Pointer:
		return Value{K: KPtr}
	case *types.Slice:
		return Value{K: KSlice}
	case *types.Map:
		return Value{K: KMap}
	case *types.Signature:
		return Value{K: KFunc}
	case *types.Interface:
		return Value{K: KIface}
	case *types.Chan:
		return Value{K: KPtr}
	case *types.Tuple:
		return Value{K: KTuple}
	}
	return Value{K: KBad}
}

func (ls *Layouts) zero(t types.Type) Value {
	if tu, ok := t.(*types.Tuple); ok {
		vs := make([]Value, tu.Len())
		for i := range vs {
			vs[i] = ls.zero(tu.At(i).Type())
		}
		return vTuple(vs...)
	}
	l := ls.of(t)
	if l.agg {
		return Value{K: KAgg, P: append([]Value(nil), l.zero...)}
	}
	return l.zero[0]
}

// ---- heap

type mapEnt struct {
	k, v Value
}

type Obj struct {
	cells []Value
	m     []mapEnt
	isMap bool
	own   uint64 // owner stamp
	what  string // global name or allocation site
	typ   types.Type
	glob  bool
	rel   bool // back in a sync.Pool
}

const (
	fanBits = 5
	fan     = 1 << fanBits
	levels  = 5 // 2^25 objects
)

type hnode struct {
	own uint64
	sub [fan]*hnode
	obj [fan]*Obj
}

type Heap struct {
	root *hnode
	own  uint64
}

var stampCtr uint64

func (h *Heap) get(id uint32) *Obj {
	n := h.root
	for l := levels - 1; l > 0; l-- {
		if n == nil {
			return nil
		}
		n = n.sub[id>>(uint(l)*fanBits)&(fan-1)]
	}
	if n == nil {
		return nil
	}
	return n.obj[id&(fan-1)]
}

func (h *Heap) path(id uint32) *hnode {
	cp := func(n *hnode) *hnode {
		if n == nil {
			return &hnode{own: h.own}
		}
		if n.own == h.own {
			return n
		}
		c := *n
		c.own = h.own
		return &c
	}
	h.root = cp(h.root)
	n := h.root
	for l := levels - 1; l > 0; l-- {
		i := id >> (uint(l) * fanBits) & (fan - 1)
		n.sub[i] = cp(n.sub[i])
		n = n.sub[i]
	}
	return n
}

func (h *Heap) put(id uint32, o *Obj) {
	o.own = h.own
	h.path(id).obj[id&(fan-1)] = o
}

// mut returns an object that may be modified in place.
func (h *Heap) mut(id uint32) *Obj {
	o := h.get(id)
	if o == nil {
		panic(fmt.Sprintf("mut: no object %d", id))
	}
	if o.own == h.own {
		return o
	}
	c := *o
	c.cells = append([]Value(nil), o.cells...)
	c.m = append([]mapEnt(nil), o.m...)
	h.put(id, &c)
	return &c
}

// diff calls f for every id whose object differs between a and b.
func diffHeaps(a, b *hnode, level int, base uint32, f func(id uint32, x, y *Obj)) {
	if a == b {
		return
	}
	for i := 0; i < fan; i++ {
		id := base | uint32(i)<<(uint(level)*fanBits)
		if level == 0 {
			var x, y *Obj
			if a != nil {
				x = a.obj[i]
			}
			if b != nil {
				y = b.obj[i]
			}
			if x != y {
				f(id, x, y)
			}
			continue
		}
		var x, y *hnode
		if a != nil {
			x = a.sub[i]
		}
		if b != nil {
			y = b.sub[i]
		}
		diffHeaps(x, y, level-1, id, f)
	}
}

func (v Value) String() string {
	switch v.K {
	case KScalar:
		if v.T.isFloat() {
			return fmt.Sprint(v.float())
		}
		return fmt.Sprint(int64(v.N))
	case KTerm:
		return v.term().String()
	case KPtr:
		return fmt.Sprintf("ptr(%d+%d)", v.N>>32, uint32(v.N))
	case KStr:
		if s, ok := v.P.(string); ok {
			return fmt.Sprintf("%q", s)
		}
		if isOpaque(v) {
			return "<opaque>"
		}
		var b strings.Builder
		for _, x := range v.P.(*SymStr).b {
			if x.K == KScalar {
				b.WriteByte(byte(x.N))
			} else {
				b.WriteByte('?')
			}
		}
		return fmt.Sprintf("sym%q", b.String())
	case KSlice:
		if s := v.slice(); s != nil {
			return fmt.Sprintf("slice(obj%d off%d len%d cap%d)", s.obj, s.off, s.n, s.c)
		}
		return "nil-slice"
	case KIface:
		if i := v.iface(); i != nil {
			return fmt.Sprintf("iface(%s)", i.t)
		}
		return "nil-iface"
	case KAgg, KTuple:
		return fmt.Sprint(v.P)
	}
	return fmt.Sprintf("kind%d", v.K)
}
