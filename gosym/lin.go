package main

import "math/big"

// Linear normal form of bit-vector terms: sum(co[i]*atom[i]) + k modulo 2^w.

type lin struct {
	w  uint8
	at []*Term
	co []uint64
	k  uint64
}

const linMax = 24

func (c *Ctx) linOf(t *Term) *lin {
	if l, ok := c.lins[t.id]; ok {
		return l
	}
	l := c.lin1(t)
	if len(l.at) > linMax {
		l = &lin{w: t.sort.W, at: []*Term{t}, co: []uint64{1}}
	}
	c.lins[t.id] = l
	return l
}

func (c *Ctx) lin1(t *Term) *lin {
	w := t.sort.W
	switch t.op {
	case OConst:
		return &lin{w: w, k: t.val}
	case OAdd:
		return linAdd(c.linOf(t.a[0]), c.linOf(t.a[1]), 1)
	case OSub:
		return linAdd(c.linOf(t.a[0]), c.linOf(t.a[1]), mask(w))
	case ONeg:
		return linAdd(&lin{w: w}, c.linOf(t.a[0]), mask(w))
	case OMul:
		if t.a[1].op == OConst {
			return linAdd(&lin{w: w}, c.linOf(t.a[0]), t.a[1].val)
		}
	}
	return &lin{w: w, at: []*Term{t}, co: []uint64{1}}
}

// linAdd is a + f*b.
func linAdd(a, b *lin, f uint64) *lin {
	m := mask(a.w)
	r := &lin{w: a.w, k: (a.k + f*b.k) & m}
	i, j := 0, 0
	put := func(t *Term, co uint64) {
		if co &= m; co != 0 {
			r.at = append(r.at, t)
			r.co = append(r.co, co)
		}
	}
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j >= len(b.at) || i < len(a.at) && a.at[i].id < b.at[j].id:
			put(a.at[i], a.co[i])
			i++
		case i >= len(a.at) || b.at[j].id < a.at[i].id:
			put(b.at[j], f*b.co[j])
			j++
		default:
			put(a.at[i], a.co[i]+f*b.co[j])
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) linTerm(l *lin) *Term {
	w := int(l.w)
	var pos, neg *Term
	add := func(p **Term, t *Term) {
		if *p == nil {
			*p = t
			return
		}
		*p = c.mk(OAdd, t.sort, 0, "", nil, *p, t)
	}
	for i, t := range l.at {
		co := l.co[i]
		n := w > 1 && co>>(l.w-1)&1 == 1
		if n {
			co = -co & mask(l.w)
		}
		if co != 1 {
			t = c.mk(OMul, t.sort, 0, "", nil, t, c.BV(co, w))
		}
		if n {
			add(&neg, t)
		} else {
			add(&pos, t)
		}
	}
	var r *Term
	switch {
	case pos == nil && neg == nil:
		return c.BV(l.k, w)
	case neg == nil:
		r = pos
	case pos == nil:
		if l.k != 0 && l.k>>(l.w-1)&1 == 0 {
			r = c.mk(OSub, neg.sort, 0, "", nil, c.BV(l.k, w), neg)
			c.lins[r.id] = l
			return r
		}
		r = c.mk(ONeg, neg.sort, 0, "", nil, neg)
	default:
		r = c.mk(OSub, pos.sort, 0, "", nil, pos, neg)
	}
	if l.k != 0 {
		r = c.mk(OAdd, r.sort, 0, "", nil, r, c.BV(l.k, w))
	}
	c.lins[r.id] = l
	return r
}

// linRange is the exact integer range of the sum with signed coefficients and
// (if signedAtoms) signed atoms.
func (c *Ctx) linRange(l *lin, signed bool) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	k := new(big.Int).SetInt64(sx(l.k, l.w))
	lo.Set(k)
	hi.Set(k)
	for i, t := range l.at {
		co := big.NewInt(sx(l.co[i], l.w))
		var a, b *big.Int
		if signed {
			x, y, _ := c.srange(t)
			a, b = big.NewInt(x), big.NewInt(y)
		} else {
			a, b = new(big.Int).SetUint64(t.lo), new(big.Int).SetUint64(t.hi)
		}
		a, b = new(big.Int).Mul(a, co), new(big.Int).Mul(b, co)
		if a.Cmp(b) > 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return
}

// linExt extends a sum that does not wrap by extending its atoms: a value
// converted to a narrower type and back. Nil if it does not apply.
func (c *Ctx) linExt(a *Term, w int, signed bool) *Term {
	if a.sort.W != 32 || w != 64 || a.op != OAdd && a.op != OSub && a.op != ONeg && a.op != OMul {
		return nil
	}
	l := c.linOf(a)
	if len(l.at) == 1 && l.at[0] == a {
		return nil
	}
	lo, hi := c.linRange(l, signed)
	min, max := big.NewInt(0), big.NewInt(1<<32-1)
	if signed {
		min, max = big.NewInt(-1<<31), big.NewInt(1<<31-1)
	}
	if lo.Cmp(min) < 0 || hi.Cmp(max) > 0 {
		return nil
	}
	r := &lin{w: uint8(w), k: uint64(sx(l.k, l.w))}
	for i, t := range l.at {
		e := c.Zext(t, w)
		if signed {
			e = c.Sext(t, w)
		}
		r = linAdd(r, c.linOf(e), uint64(sx(l.co[i], l.w)))
	}
	return c.linTerm(r)
}

// linDivMod splits l = d*q + r with 0 <= r < d (or r = 0), when the sum does
// not wrap. signed tells how the operands of the division are read.
func (c *Ctx) linDivMod(t *Term, d uint64, signed bool) (q, r *Term, ok bool) {
	w := t.sort.W
	l := c.linOf(t)
	if d == 0 || len(l.at) == 0 || signed && sx(d, w) <= 0 {
		return nil, nil, false
	}
	lo, hi := c.linRange(l, signed)
	D := new(big.Int).SetUint64(d)
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
		if lo.Cmp(new(big.Int).Neg(h)) < 0 || hi.Cmp(h) >= 0 {
			return nil, nil, false
		}
	} else if lo.Sign() < 0 || hi.BitLen() > int(w) || sx(d, w) < 0 {
		return nil, nil, false
	}
	lq, lr := &lin{w: w}, &lin{w: w}
	any := false
	for i, a := range l.at {
		co := sx(l.co[i], w)
		if co%int64(d) == 0 {
			lq.at = append(lq.at, a)
			lq.co = append(lq.co, uint64(co/int64(d))&mask(w))
			any = true
		} else {
			lr.at = append(lr.at, a)
			lr.co = append(lr.co, l.co[i])
		}
	}
	k := sx(l.k, w)
	kq := k / int64(d)
	kr := k % int64(d)
	if !any && kq == 0 {
		return nil, nil, false
	}
	try := func(kq, kr int64) bool {
		lq.k, lr.k = uint64(kq)&mask(w), uint64(kr)&mask(w)
		rlo, rhi := c.linRange(lr, signed)
		if rlo.Sign() == 0 && rhi.Sign() == 0 {
			return true // exact: holds for either sign
		}
		// truncated division needs a non-negative dividend
		return lo.Sign() >= 0 && rlo.Sign() >= 0 && rhi.Cmp(D) < 0
	}
	if !try(kq, kr) {
		if kr < 0 {
			if !try(kq-1, kr+int64(d)) {
				return nil, nil, false
			}
		} else {
			// pick the constant so that the remainder part is non-negative
			rlo, _ := c.linRange(&lin{w: w, at: lr.at, co: lr.co}, signed)
			if !rlo.IsInt64() {
				return nil, nil, false
			}
			m := rlo.Int64() + k
			fl := m / int64(d)
			if m%int64(d) < 0 {
				fl--
			}
			if !try(fl, k-fl*int64(d)) {
				return nil, nil, false
			}
		}
	}
	return c.linTerm(lq), c.linTerm(lr), true
}

// linEq decides or normalises an equation of sums; nil when nothing is gained.
func (c *Ctx) linEq(a, b *Term) *Term {
	la, lb := c.linOf(a), c.linOf(b)
	if len(la.at)+len(lb.at) < 2 && (len(la.at) == 0 || la.co[0] == 1) {
		return nil
	}
	d := linAdd(la, lb, mask(la.w))
	if len(d.at) == 0 {
		return c.Bool(d.k == 0)
	}
	w := la.w
	// single atom: co*x + k = 0 without wrap-around
	if len(d.at) == 1 {
		x := d.at[0]
		co := sx(d.co[0], w)
		k := sx(d.k, w)
		if co == 1 || co == -1 {
			v := uint64(-k) & mask(w)
			if co == -1 {
				v = uint64(k) & mask(w)
			}
			if x == a && b.op == OConst {
				return nil
			}
			return c.Eq(x, c.BV(v, int(w)))
		}
		for _, signed := range []bool{false, true} {
			lo, hi := c.linRange(d, signed)
			if lo.IsInt64() && hi.IsInt64() && lo.Int64() >= -int64(1)<<62 && hi.Int64() <= 1<<62 && w == 64 || lo.BitLen() < int(w) && hi.BitLen() < int(w) {
				if k%co != 0 {
					return c.tFalse
				}
				v := -k / co
				if !signed && v < 0 {
					return c.tFalse
				}
				return c.Eq(x, c.BV(uint64(v)&mask(w), int(w)))
			}
		}
		return nil
	}
	lo, hi := c.linRange(d, false)
	if lo.BitLen() < int(w) && hi.BitLen() < int(w) && (lo.Sign() > 0 || hi.Sign() < 0) {
		return c.tFalse
	}
	lo, hi = c.linRange(d, true)
	if lo.BitLen() < int(w) && hi.BitLen() < int(w) && (lo.Sign() > 0 || hi.Sign() < 0) {
		return c.tFalse
	}
	if len(d.at) >= len(la.at)+len(lb.at) {
		return nil
	}
	// cancelled something: rebuild
	p, n := &lin{w: w}, &lin{w: w}
	for i, t := range d.at {
		if sx(d.co[i], w) < 0 {
			n.at = append(n.at, t)
			n.co = append(n.co, -d.co[i]&mask(w))
		} else {
			p.at = append(p.at, t)
			p.co = append(p.co, d.co[i])
		}
	}
	n.k = -d.k & mask(w)
	x, y := c.linTerm(p), c.linTerm(n)
	if x.op == OConst {
		x, y = y, x
	}
	if x.id > y.id && y.op != OConst {
		x, y = y, x
	}
	return c.mk(OEq, boolSort, 0, "", nil, x, y)
}
