package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the code under test run one after another, each to its end,
// when the goroutine that started them has to wait: in the order they were
// started in, and on a second path in reverse order. Channels have room for
// everything that is sent. Schedules in between are not explored; races between
// goroutines are left to the race detector (zzv_Parallel).

type goRec struct {
	d deferRec
}

const (
	chanClosed = iota // flag
	chanCap
	chanHead // elements from here on
)

func (x *Exec) startGo(st *State, d deferRec) {
	st.pending = append(st.pending[:len(st.pending):len(st.pending)], &goRec{d})
	if x.parallel > 0 && !x.goNoted {
		x.goNoted = true
		x.violation(st, st.model, "data race: goroutines are started", false)
	}
}

func (x *Exec) runGo(st *State, d deferRec) []Out {
	saved := st.rec
	st.rec = nil
	var outs []Out
	switch {
	case d.cl.invoke:
		outs = x.invoke(st, d.fn, d.cl.method, d.args, nil)
	case d.cl.biname != "":
		outs = x.builtin(st, d.cl.biname, d.args, nil, nil)
	default:
		outs = x.callValue(st, d.fn, d.args, nil)
	}
	for _, o := range outs {
		o.st.rec = saved
	}
	return outs
}

// drain runs the goroutines that wait for their turn. A panic of one of them
// ends the program.
func (x *Exec) drain(st *State) (done []*State, ends []Out) {
	todo := []*State{st}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if len(s.pending) == 0 {
			done = append(done, s)
			continue
		}
		if len(s.pending) > 1 && s.order == 0 {
			f := s.fork()
			s.order, f.order = 1, 2
			todo = append(todo, f)
		}
		k := 0
		if s.order == 2 {
			k = len(s.pending) - 1
		}
		g := s.pending[k]
		rest := make([]*goRec, 0, len(s.pending)-1)
		rest = append(rest, s.pending[:k]...)
		s.pending = append(rest, s.pending[k+1:]...)
		s.went = true
		for _, o := range x.runGo(s, g.d) {
			if o.pan != nil {
				ends = append(ends, o)
				continue
			}
			todo = append(todo, o.st)
		}
	}
	return done, ends
}

// blocked runs the other goroutines and tries again.
func (x *Exec) blocked(st *State, again func(st *State) []Out) []Out {
	if len(st.pending) == 0 {
		x.cut("all goroutines wait")
		return []Out{}
	}
	done, outs := x.drain(st)
	for _, s := range done {
		outs = append(outs, again(s)...)
	}
	return outsOrEmpty(outs)
}

func (x *Exec) makeChan(st *State, n Value, typ types.Type) Value {
	if n.K != KScalar {
		panic(unsupported("channel of symbolic size"))
	}
	id := x.newObj(st, &Obj{cells: []Value{vInt(0), vInt(n.int())}, what: "chan", typ: typ})
	return vPtr(id, 0)
}

func (x *Exec) chanOf(v Value) uint32 {
	if v.K != KPtr {
		panic(unsupported("channel " + v.String()))
	}
	return uint32(v.N >> 32)
}

func (x *Exec) send(st *State, ch, v Value) []Out {
	id := x.chanOf(ch)
	if id == 0 {
		x.cut("all goroutines wait")
		return []Out{}
	}
	o := st.heap.mut(id)
	if o.cells[chanClosed].N != 0 {
		return []Out{{st: st, pan: x.rtPanic(st, "send on closed channel")}}
	}
	o.cells = append(o.cells[:len(o.cells):len(o.cells)], v)
	return one(st, Value{})
}

// tryRecv takes an element; ok is false if the receiver has to wait.
func (x *Exec) tryRecv(st *State, id uint32, zero Value) (v Value, open, ok bool) {
	if id == 0 {
		return zero, false, false
	}
	o := st.heap.get(id)
	if len(o.cells) > chanHead {
		v = o.cells[chanHead]
		m := st.heap.mut(id)
		m.cells = append(append([]Value(nil), m.cells[:chanHead]...), m.cells[chanHead+1:]...)
		return v, true, true
	}
	return zero, false, o.cells[chanClosed].N != 0
}

func (x *Exec) recv(st *State, ch Value, elem types.Type, commaOk bool) []Out {
	v, open, ok := x.tryRecv(st, x.chanOf(ch), x.lay.zero(elem))
	if !ok {
		return x.blocked(st, func(st *State) []Out { return x.recv(st, ch, elem, commaOk) })
	}
	if commaOk {
		v = vTuple(v, vBool(open))
	}
	return one(st, v)
}

func (x *Exec) closeChan(st *State, ch Value) []Out {
	id := x.chanOf(ch)
	if id == 0 {
		return []Out{{st: st, pan: x.rtPanic(st, "close of nil channel")}}
	}
	o := st.heap.mut(id)
	if o.cells[chanClosed].N != 0 {
		return []Out{{st: st, pan: x.rtPanic(st, "close of closed channel")}}
	}
	o.cells[chanClosed] = vInt(1)
	return one(st, Value{})
}

// selectStmt takes the first case that is ready.
func (x *Exec) selectStmt(st *State, in *ssa.Select, args []Value) []Out {
	res := []Value{vInt(-1), vBool(false)}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			res = append(res, x.lay.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	k := 2
	for i, s := range in.States {
		id := x.chanOf(args[2*i])
		if s.Dir == types.SendOnly {
			if id == 0 {
				continue
			}
			outs := x.send(st, args[2*i], args[2*i+1])
			res[0] = vInt(i)
			for j := range outs {
				outs[j].v = vTuple(res...)
			}
			return outs
		}
		if v, open, ok := x.tryRecv(st, id, res[k]); ok {
			res[0], res[1], res[k] = vInt(i), vBool(open), v
			return one(st, vTuple(res...))
		}
		k++
	}
	if !in.Blocking {
		return one(st, vTuple(res...))
	}
	return x.blocked(st, func(st *State) []Out { return x.selectStmt(st, in, args) })
}

func init() {
	// the counter of a WaitGroup is kept in its first integer cell
	counter := func(x *Exec, st *State, p Value, fn *ssa.Function) *Value {
		o := st.heap.mut(uint32(p.N >> 32))
		l := x.lay.of(fn.Signature.Recv().Type().(*types.Pointer).Elem())
		for i := 0; i < l.n; i++ {
			if c := &o.cells[int(uint32(p.N))+i]; c.K == KScalar && c.T.isInt() {
				return c
			}
		}
		panic(unsupported("sync.WaitGroup layout"))
	}
	add := func(x *Exec, st *State, p Value, n int, fn *ssa.Function) []Out {
		c := counter(x, st, p, fn)
		v := int(int64(c.N)) + n
		if c.T != TU64 && c.T != TI64 {
			v = int(int32(c.N)) + n
		}
		if v < 0 {
			return []Out{{st: st, pan: x.rtPanic(st, "negative WaitGroup counter")}}
		}
		*c = scalar(c.T, uint64(v))
		return one(st, Value{})
	}
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		if args[1].K != KScalar {
			panic(unsupported("WaitGroup.Add of a symbolic number"))
		}
		return add(x, st, args[0], args[1].int(), fn)
	}, "(*sync.WaitGroup).Add")
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		return add(x, st, args[0], -1, fn)
	}, "(*sync.WaitGroup).Done")
	var wait func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out
	wait = func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		if counter(x, st, args[0], fn).N == 0 {
			return one(st, Value{})
		}
		return x.blocked(st, func(st *State) []Out { return wait(x, st, args, fn) })
	}
	reg(wait, "(*sync.WaitGroup).Wait")
	reg(func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out {
		if len(st.pending) == 0 {
			return one(st, Value{})
		}
		done, outs := x.drain(st)
		for _, s := range done {
			outs = append(outs, Out{st: s})
		}
		return outsOrEmpty(outs)
	}, "runtime.Gosched")
	regv(func(x *Exec, st *State, args []Value) Value { return vInt(8) }, "runtime.NumCPU", "runtime.GOMAXPROCS")
}
