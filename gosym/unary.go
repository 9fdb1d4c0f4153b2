package main

import (
	"math/bits"
	"strconv"
)

// Terms over a single small bit-vector variable are normalised through their
// value tables: conditions become interval tests on the variable, and ranges
// are exact. Feasibility of such conditions is decided on the tables.

type utab struct {
	b [4]uint64 // truth values
	v []uint64  // values of a bit-vector term
}

func (u *utab) get(i int) bool { return u.b[i>>6]>>(i&63)&1 == 1 }
func (u *utab) set(i int)      { u.b[i>>6] |= 1 << (i & 63) }

// unaryVar is the variable of a term over one variable of at most 8 bits.
func (c *Ctx) unaryVar(t *Term) *Term {
	if len(t.base) != 1 || t.hasReal {
		return nil
	}
	v := c.terms[t.base[0]]
	if v.op != OVar || v.sort.K != SBV || v.sort.W > 8 {
		return nil
	}
	return v
}

func domSize(v *Term) int {
	if v.val != 0 {
		return int(v.val) + 1
	}
	return 1 << v.sort.W
}

// tabulate fills t.ut from the tables of the operands; false if impossible.
func (c *Ctx) tabulate(t, v *Term) bool {
	n := domSize(v)
	u := &utab{}
	if t == v {
		u.v = make([]uint64, n)
		for i := range u.v {
			u.v[i] = uint64(i)
		}
		t.ut = u
		return true
	}
	var arg [3]func(i int) uint64
	na := 0
	for k, x := range t.a {
		if x == nil {
			break
		}
		na++
		x := x
		switch {
		case x.op == OConst && x.sort.K != SReal:
			arg[k] = func(int) uint64 { return x.val }
		case x.ut == nil:
			return false
		case x.sort.K == SBool:
			arg[k] = func(i int) uint64 { return x.ut.b[i>>6] >> (i & 63) & 1 }
		default:
			arg[k] = func(i int) uint64 { return x.ut.v[i] }
		}
	}
	if na == 0 {
		return false
	}
	isBool := t.sort.K == SBool
	fp := t.op == OUF || isFP(t.sort) || isFP(t.a[0].sort)
	if !isBool {
		if t.sort.K != SBV && !isFP(t.sort) {
			return false
		}
		u.v = make([]uint64, n)
	}
	w := t.sort.W
	m := mask(w)
	aw := t.a[0].sort.W
	for i := 0; i < n; i++ {
		var x, y, r uint64
		x = arg[0](i)
		if na > 1 {
			y = arg[1](i)
		}
		if fp && t.op != OIte {
			var ok bool
			if r, ok = evalOp(t, [3]uint64{x, y}); !ok {
				if t.op != OFToS {
					return false
				}
				r = 1 << 63 & m // what the processor yields
			}
			if isBool && r != 0 {
				u.set(i)
			} else if !isBool {
				u.v[i] = r
			}
			continue
		}
		switch t.op {
		case ONot:
			r = 1 - x
		case OAnd:
			r = x & y
		case OEq:
			r = b2u(x == y)
		case OIte:
			r = y
			if x == 0 {
				r = arg[2](i)
			}
		case OAdd, OSub, OMul, OUdiv, OUrem, OSdiv, OSrem, OBand, OBor, OBxor, OShl, OLshr, OAshr:
			var ok bool
			r, ok = c.foldBin(t.op, w, x, y)
			if !ok {
				return false
			}
		case OBnot:
			r = ^x & m
		case ONeg:
			r = -x & m
		case OZext:
			r = x
		case OSext:
			r = uint64(sx(x, aw)) & m
		case OExtract:
			r = x >> t.val & m
		case OConcat:
			r = x<<t.a[1].sort.W | y
		case OUlt:
			r = b2u(x < y)
		case OUle:
			r = b2u(x <= y)
		case OSlt:
			r = b2u(sx(x, aw) < sx(y, aw))
		case OSle:
			r = b2u(sx(x, aw) <= sx(y, aw))
		default:
			return false
		}
		if isBool {
			if r != 0 {
				u.set(i)
			}
		} else {
			u.v[i] = r
		}
	}
	t.ut = u
	return true
}

// canon is called for every new term; it returns the term to use instead.
func (c *Ctx) canon(t *Term) *Term {
	v := c.unaryVar(t)
	if v == nil || !c.tabulate(t, v) || t == v {
		return t
	}
	n := domSize(v)
	if isFP(t.sort) {
		for _, x := range t.ut.v {
			if x != t.ut.v[0] {
				return t
			}
		}
		return c.mk(OConst, t.sort, t.ut.v[0], "", nil)
	}
	if t.sort.K == SBV {
		lo, hi := t.ut.v[0], t.ut.v[0]
		for _, x := range t.ut.v {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		t.lo, t.hi = lo, hi
		if c.inCanon {
			return t
		}
		if lo == hi {
			return c.BV(lo, int(t.sort.W))
		}
		if t.op != OIte && !t.hasFP {
			return t
		}
		var seg []int // starts
		for i := 0; i < n && len(seg) <= 24; i++ {
			if i == 0 || t.ut.v[i] != t.ut.v[i-1] {
				seg = append(seg, i)
			}
		}
		if len(seg) > 24 {
			return t
		}
		key := ucKey{v: v.id, w: t.sort.W}
		for _, s := range seg {
			key.s += strconv.Itoa(s) + ":" + strconv.FormatUint(t.ut.v[s], 36) + ","
		}
		if r, ok := c.ucanon[key]; ok {
			return r
		}
		c.inCanon = true
		r := c.segTree(v, seg, func(s int) *Term { return c.BV(t.ut.v[s], int(t.sort.W)) })
		c.inCanon = false
		c.ucanon[key] = r
		return r
	}
	if c.inCanon {
		return t
	}
	return c.setTerm(v, t.ut)
}

type ucKey struct {
	v int32
	w uint8
	b [4]uint64
	s string
}

func (c *Ctx) segTree(v *Term, seg []int, leaf func(int) *Term) *Term {
	if len(seg) == 1 {
		return leaf(seg[0])
	}
	h := len(seg) / 2
	k := c.Ult(v, c.BV(uint64(seg[h]), int(v.sort.W)))
	return c.Ite(k, c.segTree(v, seg[:h], leaf), c.segTree(v, seg[h:], leaf))
}

// setTerm is the canonical membership condition of v in the set u.
func (c *Ctx) setTerm(v *Term, u *utab) *Term {
	n := domSize(v)
	var seg []int
	for i := 0; i < n; i++ {
		if i == 0 || u.get(i) != u.get(i-1) {
			seg = append(seg, i)
		}
	}
	if len(seg) == 1 {
		return c.Bool(u.get(0))
	}
	if u.get(0) {
		nu := &utab{}
		for i := 0; i < n; i++ {
			if !u.get(i) {
				nu.set(i)
			}
		}
		return c.Not(c.setTerm(v, nu))
	}
	key := ucKey{v: v.id, b: u.b}
	if r, ok := c.ucanon[key]; ok {
		return r
	}
	w := int(v.sort.W)
	old := c.inCanon
	c.inCanon = true
	var r *Term
	lim := func(k int) *Term { return c.mk(OUlt, boolSort, 0, "", nil, v, c.BV(uint64(k), w)) }
	switch {
	case len(seg) == 2 && seg[1] == n-1 || len(seg) == 3 && seg[2] == seg[1]+1:
		r = c.Eq(v, c.BV(uint64(seg[1]), w))
	case len(seg) == 2:
		r = c.Not(lim(seg[1]))
	case len(seg) == 3:
		r = c.And(c.Not(lim(seg[1])), lim(seg[2]))
	default:
		r = c.boolTree(v, seg, u)
	}
	c.inCanon = old
	c.ucanon[key] = r
	return r
}

func (c *Ctx) boolTree(v *Term, seg []int, u *utab) *Term {
	if len(seg) == 1 {
		return c.Bool(u.get(seg[0]))
	}
	h := len(seg) / 2
	k := c.mk(OUlt, boolSort, 0, "", nil, v, c.BV(uint64(seg[h]), int(v.sort.W)))
	return c.Ite(k, c.boolTree(v, seg[:h], u), c.boolTree(v, seg[h:], u))
}

// unaryFeasible decides pc && cond for a condition on one small variable, if
// the tables suffice.
func (x *Exec) unaryFeasible(st *State, cond *Term) (SatResult, *Model) {
	if cond.ut == nil || len(cond.vars) != 1 {
		return Unknown, nil
	}
	id := cond.vars[0]
	d := cond.ut.b
	multi := false
	for _, p := range st.pc {
		if len(p.vars) == 1 {
			if p.vars[0] != id {
				continue
			}
			if p.ut != nil {
				for i := range d {
					d[i] &= p.ut.b[i]
				}
				continue
			}
		}
		if !multi && intersects(p.vars, cond.vars) {
			multi = true
		}
	}
	for i, w := range d {
		if w != 0 {
			if multi {
				return Unknown, nil
			}
			return Sat, st.model.extend(map[int32]uint64{id: uint64(i*64 + bits.TrailingZeros64(w))})
		}
	}
	return Unsat, nil
}
