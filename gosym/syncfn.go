package main

import (
	"golang.org/x/tools/go/ssa"
)

// sync.Map and sync/atomic.Value. The contents of a sync.Map are kept in a map
// object of their own, referred to by the first cell of the struct.

// found is one outcome of a search for a key; i is -1 if it is missing.
type found struct {
	st *State
	i  int
}

// mapFind searches a map object for a key.
func (x *Exec) mapFind(st *State, id uint32, k Value) (outs []found) {
	cur := st
	if id == 0 {
		return []found{{st, -1}}
	}
	for i, e := range st.heap.get(id).m {
		c := x.simp(cur, x.eqTerm(e.k, k))
		if c.op == OConst {
			if c.val == 0 {
				continue
			}
			return append(outs, found{cur, i})
		}
		t, f := x.branch(cur, c)
		if t != nil {
			outs = append(outs, found{t, i})
		}
		if cur = f; cur == nil {
			return outs
		}
	}
	return append(outs, found{cur, -1})
}

func init() {
	syncMap := func(st *State, p Value) uint32 {
		if c := st.heap.get(uint32(p.N >> 32)).cells[uint32(p.N)]; c.K == KMap {
			return uint32(c.N)
		}
		return 0
	}
	grow := func(x *Exec, st *State, p, k, v Value) {
		id := syncMap(st, p)
		if id == 0 {
			id = x.newObj(st, &Obj{isMap: true, what: "sync.Map"})
			st.heap.mut(uint32(p.N >> 32)).cells[uint32(p.N)] = Value{K: KMap, N: uint64(id)}
		}
		o := st.heap.mut(id)
		o.m = append(o.m[:len(o.m):len(o.m)], mapEnt{k, v})
	}
	set := func(st *State, p Value, i int, v Value) {
		o := st.heap.mut(syncMap(st, p))
		o.m = append([]mapEnt(nil), o.m...)
		o.m[i].v = v
	}
	drop := func(st *State, p Value, i int) {
		o := st.heap.mut(syncMap(st, p))
		o.m = append(append([]mapEnt(nil), o.m[:i]...), o.m[i+1:]...)
	}
	none := Value{K: KIface}
	method := func(name string, f func(x *Exec, st *State, a []Value, i int, old Value) Value) {
		reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			if a[0].N == 0 {
				return []Out{{st: st, pan: x.rtPanic(st, "invalid memory address or nil pointer dereference")}}
			}
			bad(a[1], "key of a sync.Map")
			outs := []Out{}
			for _, p := range x.mapFind(st, syncMap(st, a[0]), a[1]) {
				old := none
				if p.i >= 0 {
					old = p.st.heap.get(syncMap(p.st, a[0])).m[p.i].v
				}
				outs = append(outs, Out{st: p.st, v: f(x, p.st, a, p.i, old)})
			}
			return outs
		}, "(*sync.Map)."+name)
	}
	method("Load", func(x *Exec, st *State, a []Value, i int, old Value) Value {
		return vTuple(old, vBool(i >= 0))
	})
	put := func(x *Exec, st *State, a []Value, i int) {
		if i >= 0 {
			set(st, a[0], i, a[2])
		} else {
			grow(x, st, a[0], a[1], a[2])
		}
	}
	method("Store", func(x *Exec, st *State, a []Value, i int, old Value) Value {
		put(x, st, a, i)
		return Value{}
	})
	method("Swap", func(x *Exec, st *State, a []Value, i int, old Value) Value {
		put(x, st, a, i)
		return vTuple(old, vBool(i >= 0))
	})
	method("LoadOrStore", func(x *Exec, st *State, a []Value, i int, old Value) Value {
		if i >= 0 {
			return vTuple(old, vBool(true))
		}
		grow(x, st, a[0], a[1], a[2])
		return vTuple(a[2], vBool(false))
	})
	method("LoadAndDelete", func(x *Exec, st *State, a []Value, i int, old Value) Value {
		if i >= 0 {
			drop(st, a[0], i)
		}
		return vTuple(old, vBool(i >= 0))
	})
	method("Delete", func(x *Exec, st *State, a []Value, i int, old Value) Value {
		if i >= 0 {
			drop(st, a[0], i)
		}
		return Value{}
	})
	same := func(x *Exec, a, b Value) bool {
		c := x.eqTerm(a, b)
		if c.op != OConst {
			panic(unsupported("symbolic comparison in a sync.Map"))
		}
		return c.val != 0
	}
	method("CompareAndSwap", func(x *Exec, st *State, a []Value, i int, old Value) Value {
		if i < 0 || !same(x, old, a[2]) {
			return vBool(false)
		}
		set(st, a[0], i, a[3])
		return vBool(true)
	})
	method("CompareAndDelete", func(x *Exec, st *State, a []Value, i int, old Value) Value {
		if i < 0 || !same(x, old, a[2]) {
			return vBool(false)
		}
		drop(st, a[0], i)
		return vBool(true)
	})
	reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		if id := syncMap(st, a[0]); id != 0 {
			st.heap.mut(id).m = nil
		}
		return one(st, Value{})
	}, "(*sync.Map).Clear")
	reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		id := syncMap(st, a[0])
		if id == 0 {
			return one(st, Value{})
		}
		ents := st.heap.get(id).m
		outs := []Out{}
		var walk func(st *State, i int)
		walk = func(st *State, i int) {
			if i == len(ents) {
				outs = append(outs, Out{st: st, v: Value{}})
				return
			}
			for _, o := range x.callValue(st, a[1], []Value{ents[i].k, ents[i].v}, nil) {
				if o.pan != nil {
					outs = append(outs, o)
					continue
				}
				t, f := x.branch(o.st, x.toTerm(o.v, false))
				if t != nil {
					walk(t, i+1)
				}
				if f != nil {
					outs = append(outs, Out{st: f, v: Value{}})
				}
			}
		}
		walk(st, 0)
		return outs
	}, "(*sync.Map).Range")

	// the interface in a Value is its only cell
	cell := func(st *State, p Value) *Value {
		return &st.heap.mut(uint32(p.N >> 32)).cells[uint32(p.N)]
	}
	value := func(name string, put int, f func(x *Exec, c *Value, a []Value) Value) {
		reg(func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			if a[0].N == 0 {
				return []Out{{st: st, pan: x.rtPanic(st, "invalid memory address or nil pointer dereference")}}
			}
			if put == 0 { // reads only
				c := st.heap.get(uint32(a[0].N >> 32)).cells[uint32(a[0].N)]
				return one(st, f(x, &c, a))
			}
			if a[put].iface() == nil {
				return []Out{{st: st, pan: &Panic{v: x.rtPanic(st, "").v, msg: "sync/atomic: store of nil value into Value"}}}
			}
			return one(st, f(x, cell(st, a[0]), a))
		}, "(*sync/atomic.Value)."+name)
	}
	value("Load", 0, func(x *Exec, c *Value, a []Value) Value { return *c })
	value("Store", 1, func(x *Exec, c *Value, a []Value) Value { *c = a[1]; return Value{} })
	value("Swap", 1, func(x *Exec, c *Value, a []Value) Value { old := *c; *c = a[1]; return old })
	value("CompareAndSwap", 2, func(x *Exec, c *Value, a []Value) Value {
		if !same(x, *c, a[1]) {
			return vBool(false)
		}
		*c = a[2]
		return vBool(true)
	})
	reg(errorsAs, "errors.As")
	regv(func(x *Exec, st *State, a []Value) Value { return vBool(true) },
		"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock")
}
