package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symIdxMax = 2048

func bad(v Value, what string) {
	if v.K == KBad {
		panic(unsupported(fmt.Sprint(what, " of unavailable value ", v.P)))
	}
}

func (x *Exec) nilPanic(st *State) []Out {
	return []Out{{st: st, pan: x.rtPanic(st, "invalid memory address or nil pointer dereference")}}
}

// exec runs one non-control instruction. outs is nil for the simple case.
func (x *Exec) exec(fr *Frame, st *State, I *Ins) (Value, []Out) {
	switch in := I.i.(type) {
	case *ssa.BinOp:
		a, b := x.get(fr, st, I.a[0]), x.get(fr, st, I.a[1])
		return x.execBin(st, in, a, b)
	case *ssa.UnOp:
		a := x.get(fr, st, I.a[0])
		switch in.Op {
		case token.MUL:
			return x.load(st, a, I.t)
		case token.ARROW:
			return Value{}, x.recv(st, a, in.X.Type().Underlying().(*types.Chan).Elem(), in.CommaOk)
		case token.NOT:
			if a.K == KScalar {
				return vBool(a.N == 0), nil
			}
			bad(a, "!")
			return x.fromTerm(x.ctx.Not(a.term()), TBool), nil
		case token.SUB:
			return x.neg(a), nil
		case token.XOR:
			bad(a, "^")
			if a.K == KScalar {
				return scalar(a.T, ^a.N), nil
			}
			return x.fromTerm(x.ctx.Bnot(a.term()), a.T), nil
		}
		panic(unsupported("unary " + in.Op.String()))
	case *ssa.Store:
		p, v := x.get(fr, st, I.a[0]), x.get(fr, st, I.a[1])
		if !x.store(st, p, v) {
			return Value{}, x.nilPanic(st)
		}
		return Value{}, nil
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		l := x.lay.of(et)
		id := x.newObj(st, &Obj{cells: append([]Value(nil), l.zero...), what: "alloc", typ: et})
		return vPtr(id, 0), nil
	case *ssa.Call:
		return Value{}, x.doCall(fr, st, I)
	case *ssa.FieldAddr:
		p := x.get(fr, st, I.a[0])
		bad(p, "field address")
		if p.K != KPtr {
			panic(unsupported("field address of " + p.String()))
		}
		l := x.lay.of(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := l.fields[in.Field]
		if sp, ok := p.P.(*SymPtr); ok {
			q := *sp
			q.add += off
			return Value{K: KPtr, N: p.N, P: &q}, nil
		}
		if p.N == 0 {
			return Value{}, x.nilPanic(st)
		}
		return Value{K: KPtr, N: p.N + uint64(off)}, nil
	case *ssa.Field:
		a := x.get(fr, st, I.a[0])
		bad(a, "field")
		l := x.lay.of(in.X.Type())
		fl := x.lay.of(I.t)
		cells := a.agg()
		if !fl.agg {
			return cells[l.fields[in.Field]], nil
		}
		return Value{K: KAgg, P: cells[l.fields[in.Field] : l.fields[in.Field]+fl.n]}, nil
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, I, in)
	case *ssa.Index:
		return x.index(fr, st, I, in)
	case *ssa.Lookup:
		return x.lookup(fr, st, I, in)
	case *ssa.Convert:
		return x.convert(st, x.get(fr, st, I.a[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return x.convert(st, x.get(fr, st, I.a[0]), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		return x.get(fr, st, I.a[0]), nil
	case *ssa.ChangeInterface:
		return x.get(fr, st, I.a[0]), nil
	case *ssa.MakeInterface:
		v := x.get(fr, st, I.a[0])
		return Value{K: KIface, P: &Iface{t: in.X.Type(), v: v}}, nil
	case *ssa.TypeAssert:
		return x.typeAssert(st, x.get(fr, st, I.a[0]), in)
	case *ssa.Extract:
		t := x.get(fr, st, I.a[0])
		if t.K == KBad {
			return t, nil
		}
		return t.agg()[in.Index], nil
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, o := range I.a[1:] {
			c.bind = append(c.bind, x.get(fr, st, o))
		}
		return Value{K: KFunc, P: c}, nil
	case *ssa.MakeSlice:
		return x.makeSlice(fr, st, I, in)
	case *ssa.MakeMap:
		id := x.newObj(st, &Obj{isMap: true, what: "map", typ: in.Type()})
		return Value{K: KMap, N: uint64(id)}, nil
	case *ssa.MapUpdate:
		m, k, v := x.get(fr, st, I.a[0]), x.get(fr, st, I.a[1]), x.get(fr, st, I.a[2])
		return Value{}, x.mapUpdate(st, m, k, v)
	case *ssa.Slice:
		return x.sliceOp(fr, st, I, in)
	case *ssa.Range:
		v := x.get(fr, st, I.a[0])
		bad(v, "range")
		id := x.newObj(st, &Obj{cells: []Value{vInt(0)}, what: "iter"})
		it := &Iter{str: &v}
		if v.K == KMap {
			it.kind = 1
			if v.N != 0 {
				it.m = st.heap.get(uint32(v.N)).m
			}
			if len(it.m) > 1 && len(st.maps) < 3 && !x.initMode && ordersMatter(fr.fi.fn) {
				// the order is unspecified: as inserted, and reversed
				f := st.fork()
				st.maps += "f"
				f.maps += "r"
				rev := *it
				rev.m = nil
				for i := len(it.m) - 1; i >= 0; i-- {
					rev.m = append(rev.m, it.m[i])
				}
				return Value{}, []Out{{st: st, v: Value{K: KIter, N: uint64(id), P: it}}, {st: f, v: Value{K: KIter, N: uint64(id), P: &rev}}}
			}
		}
		return Value{K: KIter, N: uint64(id), P: it}, nil
	case *ssa.MakeChan:
		return x.makeChan(st, x.get(fr, st, I.a[0]), in.Type()), nil
	case *ssa.Send:
		return Value{}, x.send(st, x.get(fr, st, I.a[0]), x.get(fr, st, I.a[1]))
	case *ssa.Select:
		vs := make([]Value, len(I.a))
		for i, a := range I.a {
			if a.reg != -2 {
				vs[i] = x.get(fr, st, a)
			}
		}
		return Value{}, x.selectStmt(st, in, vs)
	case *ssa.Next:
		return x.next(st, x.get(fr, st, I.a[0]), in)
	case *ssa.SliceToArrayPointer:
		v := x.get(fr, st, I.a[0])
		n := int(in.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		s := v.slice()
		if s == nil {
			if n == 0 {
				return Value{K: KPtr}, nil
			}
			return Value{}, []Out{{st: st, pan: x.rtPanic(st, "cannot convert slice to array pointer")}}
		}
		if s.n < n {
			return Value{}, []Out{{st: st, pan: x.rtPanic(st, "cannot convert slice to array pointer")}}
		}
		return vPtr(s.obj, s.off), nil
	}
	panic(unsupported(fmt.Sprintf("instruction %T", I.i)))
}

// ---- memory

func (x *Exec) load(st *State, p Value, t types.Type) (Value, []Out) {
	bad(p, "load")
	if p.K != KPtr {
		panic(unsupported("load through " + p.String()))
	}
	l := x.lay.of(t)
	if sp, ok := p.P.(*SymPtr); ok {
		return x.loadSym(st, sp, l, t)
	}
	if p.N == 0 {
		return Value{}, x.nilPanic(st)
	}
	o := st.heap.get(uint32(p.N >> 32))
	if o.rel {
		x.released(st, o)
	}
	off := int(uint32(p.N))
	if !l.agg {
		if off >= len(o.cells) {
			panic(unsupported("load outside object " + o.what))
		}
		return o.cells[off], nil
	}
	if off+l.n > len(o.cells) {
		panic(unsupported("load outside object " + o.what))
	}
	return Value{K: KAgg, P: append([]Value(nil), o.cells[off:off+l.n]...)}, nil
}

func (x *Exec) loadSym(st *State, sp *SymPtr, l *layout, t types.Type) (Value, []Out) {
	o := st.heap.get(sp.obj)
	if o.rel {
		x.released(st, o)
	}
	get := func(k int) Value {
		off := sp.base + k*sp.stride + sp.add
		if !l.agg {
			return o.cells[off]
		}
		return Value{K: KAgg, P: append([]Value(nil), o.cells[off:off+l.n]...)}
	}
	r := get(sp.count - 1)
	for k := sp.count - 2; k >= 0; k-- {
		v, ok := x.ite(x.ctx.Eq(sp.idx, x.ctx.BV(uint64(k), 64)), get(k), r, false)
		if !ok { // not a value the solver can select: one path per index
			outs := []Out{}
			for _, s := range x.concretize(st, sp.idx, 4096) {
				outs = append(outs, Out{st: s.st, v: get(int(s.v))})
			}
			return Value{}, outs
		}
		r = v
	}
	return r, nil
}

// store writes v; false on nil pointers.
func (x *Exec) store(st *State, p, v Value) bool {
	bad(p, "store")
	if sp, ok := p.P.(*SymPtr); ok {
		o := st.heap.mut(sp.obj)
		if o.rel {
			x.released(st, o)
		}
		for k := 0; k < sp.count; k++ {
			off := sp.base + k*sp.stride + sp.add
			eq := x.ctx.Eq(sp.idx, x.ctx.BV(uint64(k), 64))
			nv := []Value{v}
			if v.K == KAgg {
				nv = v.agg()
			}
			for i, c := range nv {
				m, ok := x.ite(eq, c, o.cells[off+i], false)
				if !ok {
					panic(unsupported("symbolic index store into " + o.what))
				}
				o.cells[off+i] = m
			}
		}
		return true
	}
	if p.N == 0 {
		return false
	}
	o := st.heap.mut(uint32(p.N >> 32))
	if o.rel {
		x.released(st, o)
	}
	off := int(uint32(p.N))
	if v.K == KAgg {
		copy(o.cells[off:off+len(v.agg())], v.agg())
		return true
	}
	if off >= len(o.cells) {
		if len(o.cells) == 0 && v.K == KBad {
			return true
		}
		panic(unsupported("store outside object " + o.what))
	}
	o.cells[off] = v
	return true
}

// idx64 returns the index as a 64-bit term.
func (x *Exec) idx64(v Value) *Term {
	t := v.term()
	if t.sort.W < 64 {
		if v.T.signed() {
			return x.ctx.Sext(t, 64)
		}
		return x.ctx.Zext(t, 64)
	}
	return t
}

// boundsCheck splits st on 0 <= i < n; it returns the surviving state (or nil) and panic outcomes.
func (x *Exec) boundsCheck(st *State, i *Term, n int) (*State, []Out) {
	ok, fail := x.branch(st, x.ctx.Ult(i, x.ctx.BV(uint64(n), 64)))
	var outs []Out
	if fail != nil {
		outs = append(outs, Out{st: fail, pan: x.rtPanic(fail, "index out of range")})
	}
	return ok, outs
}

func (x *Exec) indexAddr(fr *Frame, st *State, I *Ins, in *ssa.IndexAddr) (Value, []Out) {
	b, iv := x.get(fr, st, I.a[0]), x.get(fr, st, I.a[1])
	bad(b, "index")
	bad(iv, "index")
	var obj uint32
	var off, n, strd int
	switch b.K {
	case KSlice:
		s := b.slice()
		if s != nil {
			obj, off, n, strd = s.obj, s.off, s.n, s.strd
		}
	case KPtr:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if sp, ok := b.P.(*SymPtr); ok {
			if iv.K != KScalar || iv.int() < 0 || iv.int() >= int(at.Len()) {
				panic(unsupported("nested symbolic index"))
			}
			q := *sp
			q.add += iv.int() * x.lay.of(at.Elem()).n
			return Value{K: KPtr, N: b.N, P: &q}, nil
		}
		if b.N == 0 {
			return Value{}, x.nilPanic(st)
		}
		obj, off, n = uint32(b.N>>32), int(uint32(b.N)), int(at.Len())
		strd = x.lay.of(at.Elem()).n
	default:
		panic(unsupported("index of " + b.String()))
	}
	if iv.K == KScalar {
		i := int64(iv.N)
		if !iv.T.signed() && iv.N > 1<<62 {
			i = -1
		}
		if i < 0 || i >= int64(n) {
			return Value{}, []Out{{st: st, pan: x.rtPanic(st, fmt.Sprintf("index out of range [%d] with length %d", i, n))}}
		}
		return vPtr(obj, off+int(i)*strd), nil
	}
	t := x.idx64(iv)
	st2, outs := x.boundsCheck(st, t, n)
	if st2 == nil {
		return Value{}, outsOrEmpty(outs)
	}
	t = x.simp(st2, t)
	var v Value
	if t.op == OConst {
		v = vPtr(obj, off+int(t.val)*strd)
	} else {
		if n > symIdxMax {
			r := outs
			for _, c := range x.concretize(st2, t, 64) {
				r = append(r, Out{st: c.st, v: vPtr(obj, off+int(c.v)*strd)})
			}
			return Value{}, r
		}
		v = Value{K: KPtr, N: uint64(obj) << 32, P: &SymPtr{obj: obj, base: off, idx: t, stride: strd, count: n}}
	}
	return Value{}, append(outs, Out{st: st2, v: v})
}

func outsOrEmpty(o []Out) []Out {
	if o == nil {
		return []Out{}
	}
	return o
}

func (x *Exec) index(fr *Frame, st *State, I *Ins, in *ssa.Index) (Value, []Out) {
	b, iv := x.get(fr, st, I.a[0]), x.get(fr, st, I.a[1])
	bad(b, "index")
	bad(iv, "index")
	if b.K == KStr {
		return x.strIndex(st, b, iv)
	}
	cells := b.agg()
	n := int(in.X.Type().Underlying().(*types.Array).Len())
	l := x.lay.of(I.t)
	get := func(k int) Value {
		if l.agg {
			return Value{K: KAgg, P: cells[k*l.n : (k+1)*l.n]}
		}
		return cells[k]
	}
	if iv.K == KScalar {
		i := iv.int()
		if i < 0 || i >= n {
			return Value{}, []Out{{st: st, pan: x.rtPanic(st, "index out of range")}}
		}
		return get(i), nil
	}
	t := x.idx64(iv)
	st2, outs := x.boundsCheck(st, t, n)
	if st2 == nil {
		return Value{}, outsOrEmpty(outs)
	}
	r := get(n - 1)
	for k := n - 2; k >= 0; k-- {
		v, ok := x.ite(x.ctx.Eq(t, x.ctx.BV(uint64(k), 64)), get(k), r, false)
		if !ok {
			panic(unsupported("symbolic array index"))
		}
		r = v
	}
	return Value{}, append(outs, Out{st: st2, v: r})
}

func (x *Exec) strIndex(st *State, b, iv Value) (Value, []Out) {
	n := strLen(b)
	if iv.K == KScalar {
		i := iv.int()
		if i < 0 || i >= n {
			return Value{}, []Out{{st: st, pan: x.rtPanic(st, "index out of range")}}
		}
		return strAt(b, i), nil
	}
	t := x.idx64(iv)
	st2, outs := x.boundsCheck(st, t, n)
	if st2 == nil {
		return Value{}, outsOrEmpty(outs)
	}
	r := strAt(b, n-1)
	for k := n - 2; k >= 0; k-- {
		r, _ = x.ite(x.ctx.Eq(t, x.ctx.BV(uint64(k), 64)), strAt(b, k), r, false)
	}
	return Value{}, append(outs, Out{st: st2, v: r})
}

// ---- maps

func (x *Exec) lookup(fr *Frame, st *State, I *Ins, in *ssa.Lookup) (Value, []Out) {
	m, k := x.get(fr, st, I.a[0]), x.get(fr, st, I.a[1])
	bad(m, "lookup")
	bad(k, "lookup key")
	if m.K == KStr {
		return x.strIndex(st, m, k)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	zero := x.lay.zero(mt.Elem())
	ret := func(v Value, ok Value) Value {
		if in.CommaOk {
			return vTuple(v, ok)
		}
		return v
	}
	if m.N == 0 {
		return ret(zero, vBool(false)), nil
	}
	ents := st.heap.get(uint32(m.N)).m
	// conditions
	type cand struct {
		c *Term
		v Value
	}
	var cs []cand
	none := x.ctx.tTrue
	mergeable := true
	for _, e := range ents {
		c := x.simp(st, x.eqTerm(e.k, k))
		if c.op == OConst && c.val == 0 {
			continue
		}
		if c.op == OConst {
			return ret(e.v, vBool(true)), nil
		}
		cs = append(cs, cand{c, e.v})
		none = x.ctx.And(none, x.ctx.Not(c))
	}
	if len(cs) == 0 {
		return ret(zero, vBool(false)), nil
	}
	r := zero
	for i := len(cs) - 1; i >= 0 && mergeable; i-- {
		v, ok := x.ite(cs[i].c, cs[i].v, r, true)
		if !ok {
			mergeable = false
		}
		r = v
	}
	if mergeable {
		return ret(r, x.fromTerm(x.ctx.Not(none), TBool)), nil
	}
	var outs []Out
	cur := st
	for _, c := range cs {
		t, f := x.branch(cur, c.c)
		if t != nil {
			outs = append(outs, Out{st: t, v: ret(c.v, vBool(true))})
		}
		cur = f
		if cur == nil {
			break
		}
	}
	if cur != nil {
		outs = append(outs, Out{st: cur, v: ret(zero, vBool(false))})
	}
	return Value{}, outsOrEmpty(outs)
}

func (x *Exec) mapUpdate(st *State, m, k, v Value) []Out {
	bad(m, "map update")
	bad(k, "map key")
	if m.N == 0 {
		return []Out{{st: st, pan: &Panic{v: x.rtPanic(st, "").v, msg: "assignment to entry in nil map"}}}
	}
	id := uint32(m.N)
	ents := st.heap.get(id).m
	cur := st
	var outs []Out
	for i, e := range ents {
		c := x.eqTerm(e.k, k)
		t, f := x.branch(cur, c)
		if t != nil {
			t.heap.mut(id).m[i].v = v
			outs = append(outs, Out{st: t})
		}
		cur = f
		if cur == nil {
			break
		}
	}
	if cur != nil {
		o := cur.heap.mut(id)
		o.m = append(o.m, mapEnt{k, v})
		if outs == nil && cur == st {
			return nil
		}
		outs = append(outs, Out{st: cur})
	}
	return outsOrEmpty(outs)
}

// ordersMatter tells whether fn belongs to the code under test (or iterates on
// its behalf), so that its iterations over maps are followed in two orders.
func ordersMatter(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	return strings.HasPrefix(p, modPath) && !strings.HasPrefix(fn.Name(), "zzv") || p == "maps"
}

func (x *Exec) next(st *State, itv Value, in *ssa.Next) (Value, []Out) {
	it := itv.P.(*Iter)
	id := uint32(itv.N)
	pos := st.heap.get(id).cells[0].int()
	if it.kind == 1 {
		tup := in.Type().(*types.Tuple)
		zk, zv := Value{K: KBad}, Value{K: KBad}
		if pos >= len(it.m) {
			_ = tup
			return vTuple(vBool(false), zk, zv), nil
		}
		st.heap.mut(id).cells[0] = vInt(pos + 1)
		e, there := it.m[pos], false
		// current value (it may have been updated)
		mo := st.heap.get(uint32(it.str.N))
		for _, q := range mo.m {
			if c := x.eqTerm(q.k, e.k); c == x.ctx.tTrue {
				e, there = q, true
			}
		}
		if !there { // deleted meanwhile
			return x.next(st, itv, in)
		}
		return vTuple(vBool(true), e.k, e.v), nil
	}
	s := *it.str
	n := strLen(s)
	if pos >= n {
		return vTuple(vBool(false), vInt(0), scalar(TI32, 0)), nil
	}
	outs := x.decodeRune(st, s, pos)
	var res []Out
	for _, o := range outs {
		r := o.v.agg()
		o.st.heap.mut(id).cells[0] = vInt(pos + r[1].int())
		res = append(res, Out{st: o.st, v: vTuple(vBool(true), vInt(pos), r[0])})
	}
	if len(res) == 1 && res[0].st == st {
		return res[0].v, nil
	}
	return Value{}, res
}

// decodeRune returns (rune, size) outcomes for the rune at pos.
func (x *Exec) decodeRune(st *State, s Value, pos int) []Out {
	b := strAt(s, pos)
	if b.K == KTerm {
		t := x.simp(st, b.term())
		b = x.fromTerm(t, TU8)
	}
	if b.K == KScalar && b.N < 0x80 {
		return one(st, vTuple(scalar(TI32, b.N), vInt(1)))
	}
	if b.K == KTerm {
		c := x.ctx
		t := b.term()
		a, hi := x.branch(st, c.Ult(t, c.BV(0x80, 8)))
		var outs []Out
		if a != nil {
			outs = append(outs, Out{st: a, v: vTuple(x.fromTerm(c.Zext(t, 32), TI32), vInt(1))})
		}
		if hi != nil {
			outs = append(outs, x.callDecode(hi, s, pos)...)
		}
		return outs
	}
	return x.callDecode(st, s, pos)
}

func (x *Exec) callDecode(st *State, s Value, pos int) []Out {
	up := x.p.pkgs["unicode/utf8"]
	return x.callFn(st, up.Func("DecodeRuneInString"), []Value{strSub(s, pos, strLen(s))}, nil, 0)
}

// ---- slices

func (x *Exec) asInts(st *State, vs []Value, limit int, f func(st *State, is []int64) Out) []Out {
	type part struct {
		st *State
		is []int64
	}
	ps := []part{{st, nil}}
	for _, v := range vs {
		var nx []part
		for _, p := range ps {
			bad(v, "length")
			if v.K == KScalar {
				nx = append(nx, part{p.st, append(p.is[:len(p.is):len(p.is)], int64(v.N))})
				continue
			}
			for _, c := range x.concretize(p.st, x.idx64(v), limit) {
				nx = append(nx, part{c.st, append(p.is[:len(p.is):len(p.is)], int64(c.v))})
			}
		}
		ps = nx
	}
	outs := []Out{}
	for _, p := range ps {
		outs = append(outs, f(p.st, p.is))
	}
	return outs
}

var maxCells = 9 << 20

func (x *Exec) makeSlice(fr *Frame, st *State, I *Ins, in *ssa.MakeSlice) (Value, []Out) {
	ln, cp := x.get(fr, st, I.a[0]), x.get(fr, st, I.a[1])
	et := in.Type().Underlying().(*types.Slice).Elem()
	l := x.lay.of(et)
	size := x.sizeof(et)
	mk := func(st *State, n, c int64) Out {
		if n < 0 || size > 0 && n > (1<<47)/size {
			return Out{st: st, pan: x.rtPanic(st, "makeslice: len out of range")}
		}
		if c < n || size > 0 && c > (1<<47)/size {
			return Out{st: st, pan: x.rtPanic(st, "makeslice: cap out of range")}
		}
		if c*int64(max(l.n, 1)) > int64(maxCells) {
			panic(unsupported("allocation beyond the model's size bound"))
		}
		cells := make([]Value, int(c)*l.n)
		if l.n == 1 {
			z := l.zero[0]
			for i := range cells {
				cells[i] = z
			}
		} else {
			for i := 0; i < int(c); i++ {
				copy(cells[i*l.n:], l.zero)
			}
		}
		id := x.newObj(st, &Obj{cells: cells, what: "make", typ: et})
		return Out{st: st, v: Value{K: KSlice, P: &Slice{obj: id, off: 0, n: int(n), c: int(c), strd: l.n}}}
	}
	if ln.K == KScalar && cp.K == KScalar {
		o := mk(st, int64(ln.N), int64(cp.N))
		if o.pan == nil {
			return o.v, nil
		}
		return Value{}, []Out{o}
	}
	// symbolic: split off the failing lengths first
	c := x.ctx
	bad(ln, "make")
	var outs []Out
	if ln.K == KTerm {
		t := x.idx64(ln)
		lim := uint64(1<<47) / uint64(max(size, 1))
		ok, fail := x.branch(st, c.Ule(t, c.BV(lim, 64)))
		if fail != nil {
			outs = append(outs, Out{st: fail, pan: x.rtPanic(fail, "makeslice: len out of range")})
		}
		if ok == nil {
			return Value{}, outsOrEmpty(outs)
		}
		small, big := x.branch(ok, c.Ule(t, c.BV(uint64(x.makeBound()), 64)))
		if big != nil {
			x.cut("lengths above the model's allocation bound")
		}
		if small == nil {
			return Value{}, outsOrEmpty(outs)
		}
		st = small
	}
	vs := []Value{ln, cp}
	same := I.a[0].reg == I.a[1].reg && I.a[0].reg >= 0
	if same {
		vs = vs[:1]
	}
	outs = append(outs, x.asInts(st, vs, 64, func(st *State, is []int64) Out {
		if same {
			return mk(st, is[0], is[0])
		}
		return mk(st, is[0], is[1])
	})...)
	return Value{}, outs
}

func (x *Exec) makeBound() int {
	if x.job != nil && x.job.MakeBound > 0 {
		return x.job.MakeBound
	}
	return 64
}

var sizes = types.SizesFor("gc", "amd64")

func (x *Exec) sizeof(t types.Type) int64 { return sizes.Sizeof(t) }

func (x *Exec) sliceOp(fr *Frame, st *State, I *Ins, in *ssa.Slice) (Value, []Out) {
	b := x.get(fr, st, I.a[0])
	bad(b, "slice")
	var obj uint32
	var off, n, c, strd int
	isStr := false
	switch b.K {
	case KStr:
		isStr = true
		n = strLen(b)
		c = n
	case KSlice:
		if s := b.slice(); s != nil {
			obj, off, n, c, strd = s.obj, s.off, s.n, s.c, s.strd
		}
	case KPtr:
		if b.N == 0 {
			return Value{}, x.nilPanic(st)
		}
		if b.P != nil {
			panic(unsupported("slice of symbolic pointer"))
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		obj, off, n = uint32(b.N>>32), int(uint32(b.N)), int(at.Len())
		c = n
		strd = x.lay.of(at.Elem()).n
	default:
		panic(unsupported("slice of " + b.String()))
	}
	var vs []Value
	for _, o := range I.a[1:] {
		if o.reg != -2 {
			vs = append(vs, x.get(fr, st, o))
		}
	}
	do := func(st *State, is []int64) Out {
		lo, hi, mx := int64(0), int64(n), int64(c)
		k := 0
		if in.Low != nil {
			lo = is[k]
			k++
		}
		if in.High != nil {
			hi = is[k]
			k++
		}
		if in.Max != nil {
			mx = is[k]
		}
		if isStr {
			if lo < 0 || hi < lo || hi > int64(n) {
				return Out{st: st, pan: x.rtPanic(st, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))}
			}
			return Out{st: st, v: strSub(b, int(lo), int(hi))}
		}
		if lo < 0 || hi < lo || mx < hi || mx > int64(c) {
			return Out{st: st, pan: x.rtPanic(st, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))}
		}
		if b.K == KSlice && b.P == nil {
			return Out{st: st, v: b}
		}
		return Out{st: st, v: Value{K: KSlice, P: &Slice{obj: obj, off: off + int(lo)*strd, n: int(hi - lo), c: int(mx - lo), strd: strd}}}
	}
	conc := true
	is := make([]int64, 0, 3)
	for _, v := range vs {
		if v.K != KScalar {
			conc = false
			break
		}
		is = append(is, int64(v.N))
	}
	if conc {
		o := do(st, is)
		if o.pan == nil {
			return o.v, nil
		}
		return Value{}, []Out{o}
	}
	// symbolic bounds: out-of-range values are split off first so that the
	// enumeration only covers values inside
	for i, v := range vs {
		if v.K == KTerm {
			t := x.idx64(v)
			ok, fail := x.branch(st, x.ctx.Ule(t, x.ctx.BV(uint64(c), 64)))
			_ = i
			var outs []Out
			if fail != nil {
				outs = append(outs, Out{st: fail, pan: x.rtPanic(fail, "slice bounds out of range")})
				if ok == nil {
					return Value{}, outs
				}
				outs = append(outs, x.asInts(ok, vs, 128, do)...)
				return Value{}, outs
			}
			if ok == nil {
				return Value{}, []Out{}
			}
			st = ok
		}
	}
	return Value{}, x.asInts(st, vs, 128, do)
}

// sliceCells returns the element cells of a slice value (read only).
func (x *Exec) sliceCells(st *State, v Value) []Value {
	s := v.slice()
	if s == nil {
		return nil
	}
	o := st.heap.get(s.obj)
	if o.rel && s.n > 0 {
		x.released(st, o)
	}
	return o.cells[s.off : s.off+s.n*s.strd]
}

// released notes the use of memory that is back in a sync.Pool.
func (x *Exec) released(st *State, o *Obj) {
	if x.parallel > 0 {
		x.violation(st, st.model, "data race: memory used after it was put back into a pool ("+o.what+")", false)
	}
}

// release marks the memory behind a value given to, or taken from, a pool.
func (x *Exec) release(st *State, v Value, rel bool, depth int) {
	if i, ok := v.P.(*Iface); ok && v.K == KIface {
		x.release(st, i.v, rel, depth)
		return
	}
	var id uint32
	switch {
	case v.K == KPtr && v.N != 0 && depth == 0:
		id = uint32(v.N >> 32)
	case v.K == KSlice && v.P != nil:
		s, ok := v.P.(*Slice)
		if !ok {
			return
		}
		id = s.obj
	default:
		return
	}
	o := st.heap.get(id)
	if o == nil || o.isMap || o.glob {
		return
	}
	if o.rel != rel {
		st.heap.mut(id).rel = rel
	}
	if depth < 3 {
		for _, c := range o.cells {
			if c.K == KSlice {
				x.release(st, c, rel, depth+1)
			}
		}
	}
}

func (x *Exec) newSlice(st *State, cells []Value, strd int, what string) Value {
	id := x.newObj(st, &Obj{cells: cells, what: what})
	n := len(cells)
	if strd > 0 {
		n /= strd
	}
	return Value{K: KSlice, P: &Slice{obj: id, n: n, c: n, strd: strd}}
}

// ---- type assertions

func (x *Exec) typeAssert(st *State, v Value, in *ssa.TypeAssert) (Value, []Out) {
	bad(v, "type assertion")
	i := v.iface()
	ok := false
	var r Value
	if i != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(i.t, it)
			r = v
		} else {
			ok = types.Identical(i.t, in.AssertedType)
			r = i.v
		}
	}
	if in.CommaOk {
		if !ok {
			r = x.lay.zero(in.AssertedType)
		}
		return vTuple(r, vBool(ok)), nil
	}
	if !ok {
		return Value{}, []Out{{st: st, pan: x.rtPanic(st, "interface conversion")}}
	}
	return r, nil
}

// ---- builtins

func (x *Exec) builtin(st *State, name string, args []Value, I *Ins, fr *Frame) []Out {
	for _, a := range args {
		if name != "append" && name != "copy" {
			bad(a, name)
		}
	}
	switch name {
	case "len":
		switch a := args[0]; a.K {
		case KStr:
			return one(st, vInt(strLen(a)))
		case KSlice:
			if s := a.slice(); s != nil {
				return one(st, vInt(s.n))
			}
			return one(st, vInt(0))
		case KMap:
			if a.N == 0 {
				return one(st, vInt(0))
			}
			return one(st, vInt(len(st.heap.get(uint32(a.N)).m)))
		case KPtr: // channel
			if a.N == 0 {
				return one(st, vInt(0))
			}
			return one(st, vInt(len(st.heap.get(uint32(a.N>>32)).cells)-chanHead))
		}
	case "cap":
		if a := args[0]; a.K == KPtr && a.N != 0 {
			return one(st, st.heap.get(uint32(a.N >> 32)).cells[chanCap])
		}
		if a := args[0]; a.K == KSlice {
			if s := a.slice(); s != nil {
				return one(st, vInt(s.c))
			}
			return one(st, vInt(0))
		}
	case "append":
		return x.appendB(st, args, I)
	case "copy":
		return x.copyB(st, args)
	case "delete":
		m, k := args[0], args[1]
		if m.N == 0 {
			return one(st, Value{})
		}
		var outs []Out
		for _, f := range x.mapFind(st, uint32(m.N), k) {
			if f.i >= 0 {
				o := f.st.heap.mut(uint32(m.N))
				o.m = append(append([]mapEnt(nil), o.m[:f.i]...), o.m[f.i+1:]...)
			}
			outs = append(outs, Out{st: f.st})
		}
		return outsOrEmpty(outs)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := x.compare(token.LSS, a, r)
			if name == "max" {
				lt = x.compare(token.LSS, r, a)
			}
			if r.T.isFloat() && (r.K != KScalar || a.K != KScalar) {
				panic(unsupported("min/max on symbolic floats"))
			}
			if lt.K == KScalar {
				if lt.N != 0 {
					r = a
				}
			} else {
				r, _ = x.ite(lt.term(), a, r, false)
			}
		}
		return one(st, r)
	case "recover":
		if fr != nil && fr.recIdx > 0 && fr.recIdx <= len(st.rec) {
			e := st.rec[fr.recIdx-1]
			if e.pan != nil && !e.recovered {
				rec := append([]recEnt(nil), st.rec...)
				rec[fr.recIdx-1].recovered = true
				st.rec = rec
				return one(st, e.pan.v)
			}
		}
		return one(st, Value{K: KIface})
	case "print", "println":
		return one(st, Value{})
	case "clear":
		if args[0].K == KSlice {
			if s := args[0].slice(); s != nil {
				o := st.heap.mut(s.obj)
				z := x.lay.of(I.cl.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()).zero
				for i := 0; i < s.n; i++ {
					copy(o.cells[s.off+i*s.strd:], z)
				}
			}
			return one(st, Value{})
		}
		if args[0].K == KMap {
			if args[0].N != 0 {
				st.heap.mut(uint32(args[0].N)).m = nil
			}
			return one(st, Value{})
		}
	case "ssa:wrapnilchk":
		if args[0].K == KPtr && args[0].N == 0 {
			return x.nilPanic(st)
		}
		return one(st, args[0])
	case "String": // unsafe.String(ptr, len)
		n := args[1]
		if n.K == KScalar {
			if n.N == 0 {
				return one(st, vStr(""))
			}
			p := args[0]
			o := st.heap.get(uint32(p.N >> 32))
			off := int(uint32(p.N))
			return one(st, mkStr(append([]Value(nil), o.cells[off:off+n.int()]...)))
		}
	case "StringData":
		if strLen(args[0]) == 0 {
			return one(st, Value{K: KPtr})
		}
		s := x.newSlice(st, append([]Value(nil), strBytes(args[0])...), 1, "string data")
		return one(st, vPtr(s.slice().obj, 0))
	case "SliceData":
		s := args[0].slice()
		if s == nil {
			return one(st, Value{K: KPtr})
		}
		return one(st, vPtr(s.obj, s.off))
	case "Slice": // unsafe.Slice
		if args[1].K == KScalar {
			if args[0].N == 0 {
				return one(st, Value{K: KSlice})
			}
			et := I.cl.sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
			return one(st, Value{K: KSlice, P: &Slice{obj: uint32(args[0].N >> 32), off: int(uint32(args[0].N)), n: args[1].int(), c: args[1].int(), strd: x.lay.of(et).n}})
		}
	case "close":
		return x.closeChan(st, args[0])
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) appendB(st *State, args []Value, I *Ins) []Out {
	a, b := args[0], args[1]
	bad(a, "append")
	bad(b, "append")
	var src []Value
	strd := 1
	if b.K == KStr {
		src = strBytes(b)
	} else {
		src = x.sliceCells(st, b)
		if s := b.slice(); s != nil {
			strd = s.strd
		}
	}
	s := a.slice()
	if s == nil && len(src) == 0 {
		return one(st, a)
	}
	if s == nil {
		if I != nil && I.t != nil {
			strd = x.lay.of(I.t.Underlying().(*types.Slice).Elem()).n
		}
		s = &Slice{strd: strd}
	} else {
		strd = s.strd
	}
	k := len(src)
	if strd > 0 {
		k /= strd
	}
	if s.n+k <= s.c {
		if k > 0 {
			cp := append([]Value(nil), src...)
			o := st.heap.mut(s.obj)
			copy(o.cells[s.off+s.n*strd:], cp)
		}
		return one(st, Value{K: KSlice, P: &Slice{obj: s.obj, off: s.off, n: s.n + k, c: s.c, strd: strd}})
	}
	nc := s.n + k
	if nc < 2*s.c {
		if s.c < 256 {
			nc = 2 * s.c
		} else {
			nc = max(nc, s.c+(s.c+3*256)/4)
		}
	}
	if nc < 4 {
		nc = 4
	}
	cells := make([]Value, nc*strd)
	if s.n > 0 {
		copy(cells, st.heap.get(s.obj).cells[s.off:s.off+s.n*strd])
	}
	copy(cells[s.n*strd:], src)
	// zero the rest
	if I != nil && I.t != nil {
		z := x.lay.of(I.t.Underlying().(*types.Slice).Elem()).zero
		for i := s.n + k; i < nc; i++ {
			copy(cells[i*strd:], z)
		}
	}
	id := x.newObj(st, &Obj{cells: cells, what: "append"})
	return one(st, Value{K: KSlice, P: &Slice{obj: id, n: s.n + k, c: nc, strd: strd}})
}

func (x *Exec) copyB(st *State, args []Value) []Out {
	a, b := args[0], args[1]
	bad(a, "copy")
	bad(b, "copy")
	d := a.slice()
	var src []Value
	n := 0
	if b.K == KStr {
		src = strBytes(b)
		n = len(src)
	} else if s := b.slice(); s != nil {
		src = x.sliceCells(st, b)
		n = s.n
	}
	if d == nil || n == 0 {
		return one(st, vInt(0))
	}
	if d.n < n {
		n = d.n
	}
	if n > 0 {
		cp := append([]Value(nil), src[:n*d.strd]...)
		o := st.heap.mut(d.obj)
		copy(o.cells[d.off:], cp)
	}
	return one(st, vInt(n))
}
