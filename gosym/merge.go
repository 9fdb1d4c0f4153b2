package main

// Known holds facts of a path: variables with a fixed value and conditions
// with a fixed truth value. It is immutable apart from its cache.
type Known struct {
	m     map[int32]*Term
	vars  map[int32]bool // variables the keys depend on
	cache map[int32]*Term
}

func (k *Known) hits(t *Term) bool {
	for _, v := range t.vars {
		if k.vars[v] {
			return true
		}
	}
	return false
}

func (k *Known) with(kv ...*Term) *Known {
	n := &Known{m: map[int32]*Term{}, vars: map[int32]bool{}, cache: map[int32]*Term{}}
	if k != nil {
		for a, b := range k.m {
			n.m[a] = b
		}
		for a := range k.vars {
			n.vars[a] = true
		}
	}
	for i := 0; i < len(kv); i += 2 {
		n.m[kv[i].id] = kv[i+1]
		for _, v := range kv[i].vars {
			n.vars[v] = true
		}
	}
	return n
}

// Subst replaces known terms and re-simplifies.
func (c *Ctx) Subst(t *Term, k *Known) *Term {
	if t.op == OConst {
		return t
	}
	if r, ok := k.cache[t.id]; ok {
		return r
	}
	if r, ok := k.m[t.id]; ok {
		return r
	}
	if !k.hits(t) {
		return t
	}
	var r *Term
	switch t.op {
	case OVar:
		r = t
	case OUF:
		var args []*Term
		for _, a := range t.a {
			if a != nil {
				args = append(args, c.Subst(a, k))
			}
		}
		r = c.UF(t.name, t.sort, args...)
	default:
		var a [3]*Term
		same := true
		for i, y := range t.a {
			if y != nil {
				a[i] = c.Subst(y, k)
				same = same && a[i] == y
			}
		}
		r = t
		if !same {
			r = c.rebuild(t, a)
			if q, ok := k.m[r.id]; ok {
				r = q
			}
		}
	}
	k.cache[t.id] = r
	return r
}

func (c *Ctx) rebuild(t *Term, a [3]*Term) *Term {
	w := int(t.sort.W)
	switch t.op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a[0], a[1])
	case OEq:
		return c.Eq(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OAdd, OSub, OMul, OUdiv, OUrem, OSdiv, OSrem, OBand, OBor, OBxor, OShl, OLshr, OAshr:
		return c.Bin(t.op, a[0], a[1])
	case OBnot:
		return c.Bnot(a[0])
	case ONeg:
		return c.Neg(a[0])
	case OZext:
		return c.Zext(a[0], w)
	case OSext:
		return c.Sext(a[0], w)
	case OExtract:
		return c.Extract(a[0], int(t.val), w)
	case OUlt:
		return c.Ult(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OFAdd, OFSub, OFMul, OFDiv:
		return c.FBin(t.op, a[0], a[1])
	case OFNeg:
		return c.FNeg(a[0])
	case OFAbs:
		return c.FAbs(a[0])
	case OFSqrt:
		return c.FSqrt(a[0])
	case OFRti:
		return c.FRti(a[0], t.val)
	case OFNaN:
		return c.FIsNaN(a[0])
	case OFLt, OFLe, OFEq:
		return c.FCmp(t.op, a[0], a[1])
	case OFFromS:
		return c.FFromInt(a[0], true, t.sort)
	case OFFromU:
		return c.FFromInt(a[0], false, t.sort)
	case OFCvt:
		return c.FCvt(a[0], t.sort)
	case OFToS:
		return c.FToS(a[0], w)
	case OFOfBits:
		return c.FOfBits(a[0])
	case ORAdd, ORSub, ORMul, ORDiv:
		return c.RBin(t.op, a[0], a[1])
	case ORLt, ORLe:
		return c.RCmp(t.op, a[0], a[1])
	}
	var args []*Term
	for _, y := range a {
		if y != nil {
			args = append(args, y)
		}
	}
	return c.mk(t.op, t.sort, t.val, t.name, t.rat, args...)
}

// ---- state merging

func commonPrefix(a, b []*Term) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func sameInputs(a, b []inputRec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] != b[i] {
			return false
		}
		if &a[i] == &b[i] {
			break
		}
	}
	return true
}

func sameObs(a, b []obsRec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := len(a) - 1; i >= 0; i-- {
		if &a[i] == &b[i] {
			break
		}
		if a[i].name != b[i].name || !same(a[i].v, b[i].v) {
			return false
		}
	}
	return true
}

func sameRec(a, b []recEnt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mergeStates merges b into a new state; k is the selector for a.
func (x *Exec) mergeStates(a, b *State) (*State, *Term) {
	if !sameInputs(a.inputs, b.inputs) || !sameObs(a.obs, b.obs) || !sameRec(a.rec, b.rec) || len(a.reach) != len(b.reach) || a.order != b.order || a.maps != b.maps || !samePending(a.pending, b.pending) {
		return nil, nil
	}
	n := commonPrefix(a.pc, b.pc)
	k := x.ctx.AndN(a.pc[n:])
	kb := x.ctx.AndN(b.pc[n:])
	if k.size > 1<<16 || kb.size > 1<<16 {
		return nil, nil
	}
	type upd struct {
		id    uint32
		cells []Value
		obj   *Obj
	}
	var ups []upd
	ok := true
	budget := 0
	diffHeaps(a.heap.root, b.heap.root, levels-1, 0, func(id uint32, p, q *Obj) {
		if !ok {
			return
		}
		if p == nil {
			ups = append(ups, upd{id: id, obj: q})
			return
		}
		if q == nil {
			return
		}
		if p.isMap {
			if len(p.m) != len(q.m) {
				ok = false
				return
			}
			for i := range p.m {
				if !same(p.m[i].k, q.m[i].k) || !same(p.m[i].v, q.m[i].v) {
					ok = false
					return
				}
			}
			return
		}
		if len(p.cells) != len(q.cells) {
			ok = false
			return
		}
		var nc []Value
		for i := range p.cells {
			u, v := &p.cells[i], &q.cells[i]
			if u.K == v.K && u.N == v.N && (u.K == KScalar || u.P == nil && v.P == nil) {
				continue
			}
			if same(*u, *v) {
				continue
			}
			if distinctInts(*u, *v) {
				ok = false
				return
			}
			m, good := x.ite(k, *u, *v, false)
			if !good {
				ok = false
				return
			}
			budget++
			if nc == nil {
				nc = append([]Value(nil), p.cells...)
			}
			nc[i] = m
		}
		if nc != nil {
			ups = append(ups, upd{id: id, cells: nc})
		}
	})
	if !ok {
		return nil, nil
	}
	st := a.fork()
	st.pc = append([]*Term(nil), a.pc[:n]...)
	x.addPCraw(st, x.ctx.Or(k, kb))
	for _, u := range ups {
		if u.obj != nil {
			c := *u.obj
			c.cells = append([]Value(nil), c.cells...)
			c.m = append([]mapEnt(nil), c.m...)
			st.heap.put(u.id, &c)
			continue
		}
		o := *st.heap.get(u.id)
		o.cells = u.cells
		o.m = append([]mapEnt(nil), o.m...)
		st.heap.put(u.id, &o)
	}
	st.approx = a.approx || b.approx
	if a.known != b.known {
		st.known = nil
		if a.known != nil && b.known != nil {
			kn := (*Known)(nil).with()
			for i, t := range a.known.m {
				if b.known.m[i] == t {
					kn.m[i] = t
					for _, v := range x.ctx.terms[i].vars {
						kn.vars[v] = true
					}
				}
			}
			if len(kn.m) > 0 {
				st.known = kn
			}
		}
	}
	x.merges++
	return st, k
}

func (x *Exec) addPCraw(st *State, c *Term) {
	if c.op == OConst {
		return
	}
	if c.op == OAnd {
		x.addPCraw(st, c.a[0])
		x.addPCraw(st, c.a[1])
		return
	}
	st.pc = append(st.pc, c)
}

// mergeFlows merges flows that stopped at the same block.
func (x *Exec) mergeFlows(fs []flow) []flow {
	if len(fs) < 2 || x.job != nil && x.job.NoMerge {
		return fs
	}
	res := fs[:1:1]
	for _, f := range fs[1:] {
		done := false
		for i := len(res) - 1; i >= 0 && i > len(res)-24; i-- {
			if m, ok := x.mergeFlow(res[i], f); ok {
				res[i] = m
				done = true
				break
			}
		}
		if !done {
			res = append(res, f)
		}
	}
	return res
}

func sameDefers(a, b []deferRec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].cl != b[i].cl || a[i].fn.P != b[i].fn.P || len(a[i].args) != len(b[i].args) {
			return false
		}
		for j := range a[i].args {
			if !same(a[i].args[j], b[i].args[j]) {
				return false
			}
		}
	}
	return true
}

func (x *Exec) mergeFlow(a, b flow) (flow, bool) {
	if a.fr.block != b.fr.block || a.fr.pc != 0 || b.fr.pc != 0 || !sameDefers(a.fr.defers, b.fr.defers) {
		return a, false
	}
	live := a.fr.fi.blocks[a.fr.block].live
	for _, r := range live {
		u, v := a.fr.regs[r], b.fr.regs[r]
		if same(u, v) {
			continue
		}
		if distinctInts(u, v) {
			return a, false
		}
		if !x.mayMerge(u, v) {
			return a, false
		}
	}
	st, k := x.mergeStates(a.st, b.st)
	if st == nil {
		return a, false
	}
	fr := a.fr.clone()
	for _, r := range live {
		u, v := a.fr.regs[r], b.fr.regs[r]
		if same(u, v) {
			continue
		}
		m, ok := x.ite(k, u, v, false)
		if !ok {
			return a, false
		}
		fr.regs[r] = m
	}
	return flow{kind: fStop, fr: fr, st: st}, true
}

// mayMerge is a cheap pre-check of ite.
func (x *Exec) mayMerge(u, v Value) bool {
	if u.K == KBad || v.K == KBad {
		return true
	}
	_, ok := x.ite(x.dummySel(), u, v, false)
	return ok
}

func (x *Exec) dummySel() *Term { return x.ctx.Var("$sel", boolSort) }

// mergeOuts merges function results.
func (x *Exec) mergeOuts(os []Out) []Out {
	if len(os) < 2 || x.job != nil && x.job.NoMerge {
		return os
	}
	var res []Out
	for _, o := range os {
		done := false
		if o.pan == nil {
			for i := len(res) - 1; i >= 0 && i > len(res)-24; i-- {
				p := res[i]
				if p.pan != nil {
					continue
				}
				if !same(p.v, o.v) && (distinctInts(p.v, o.v) || !x.mayMerge(p.v, o.v)) {
					continue
				}
				st, k := x.mergeStates(p.st, o.st)
				if st == nil {
					continue
				}
				v := p.v
				if !same(p.v, o.v) {
					m, ok := x.ite(k, p.v, o.v, false)
					if !ok {
						continue
					}
					v = m
				}
				res[i] = Out{st: st, v: v}
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

func samePending(a, b []*goRec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
