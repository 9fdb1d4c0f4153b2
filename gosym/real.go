package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// Real mode: floating point values are mathematical reals, the elementary
// functions are uninterpreted with interval, monotonicity and near-congruence
// facts. Terms are kept as polynomials over atoms (inputs, function
// applications, inverses) so that algebraically equal computations coincide.

type ival struct{ lo, hi float64 }

var wholeLine = ival{math.Inf(-1), math.Inf(1)}

const slack = 4e-15

func outw(lo, hi float64) ival {
	if math.IsNaN(lo) {
		lo = math.Inf(-1)
	}
	if math.IsNaN(hi) {
		hi = math.Inf(1)
	}
	return ival{lo - math.Abs(lo)*slack - 1e-300, hi + math.Abs(hi)*slack + 1e-300}
}

func mul0(a, b float64) float64 {
	if a == 0 || b == 0 {
		return 0
	}
	return a * b
}

func (a ival) mul(b ival) ival {
	p, q, r, s := mul0(a.lo, b.lo), mul0(a.lo, b.hi), mul0(a.hi, b.lo), mul0(a.hi, b.hi)
	return outw(math.Min(math.Min(p, q), math.Min(r, s)), math.Max(math.Max(p, q), math.Max(r, s)))
}
func (a ival) add(b ival) ival { return outw(a.lo+b.lo, a.hi+b.hi) }
func (a ival) inv() ival {
	if a.lo <= 0 && a.hi >= 0 {
		return wholeLine
	}
	return outw(1/a.hi, 1/a.lo)
}
func (a ival) pow(k int) ival {
	if k < 0 {
		return a.inv().pow(-k)
	}
	if k == 1 {
		return a
	}
	if k%2 == 0 {
		l, h := math.Pow(a.lo, float64(k)), math.Pow(a.hi, float64(k))
		if a.lo <= 0 && a.hi >= 0 {
			return outw(0, math.Max(l, h))
		}
		return outw(math.Min(l, h), math.Max(l, h))
	}
	return outw(math.Pow(a.lo, float64(k)), math.Pow(a.hi, float64(k)))
}
func (a ival) mag() float64 { return math.Max(math.Abs(a.lo), math.Abs(a.hi)) }

type atomExp struct {
	t *Term
	e int
}

type pterm struct {
	k *big.Rat
	m []atomExp // sorted by term id
}

type poly struct {
	ts []pterm // sorted by key, no zero coefficients
}

const maxPoly = 400

func mkey(m []atomExp) string {
	var b strings.Builder
	for _, a := range m {
		fmt.Fprintf(&b, "%d^%d ", a.t.id, a.e)
	}
	return b.String()
}

func polyConst(r *big.Rat) *poly {
	if r.Sign() == 0 {
		return &poly{}
	}
	return &poly{ts: []pterm{{k: r}}}
}

func (p *poly) isConst() (*big.Rat, bool) {
	if len(p.ts) == 0 {
		return new(big.Rat), true
	}
	if len(p.ts) == 1 && len(p.ts[0].m) == 0 {
		return p.ts[0].k, true
	}
	return nil, false
}

func polyNorm(ts []pterm) *poly {
	type e struct {
		key string
		t   pterm
	}
	idx := map[string]int{}
	var es []e
	for _, t := range ts {
		k := mkey(t.m)
		if i, ok := idx[k]; ok {
			es[i].t.k = new(big.Rat).Add(es[i].t.k, t.k)
			continue
		}
		idx[k] = len(es)
		es = append(es, e{k, t})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].key < es[j].key })
	p := &poly{}
	for _, x := range es {
		if x.t.k.Sign() != 0 {
			p.ts = append(p.ts, x.t)
		}
	}
	return p
}

func polyAdd(a, b *poly, sb int64) *poly {
	ts := append([]pterm(nil), a.ts...)
	s := big.NewRat(sb, 1)
	for _, t := range b.ts {
		ts = append(ts, pterm{new(big.Rat).Mul(t.k, s), t.m})
	}
	return polyNorm(ts)
}

func polyScale(a *poly, k *big.Rat) *poly {
	if k.Sign() == 0 {
		return &poly{}
	}
	p := &poly{}
	for _, t := range a.ts {
		p.ts = append(p.ts, pterm{new(big.Rat).Mul(t.k, k), t.m})
	}
	return p
}

func (c *Ctx) monoMul(a, b []atomExp) []atomExp {
	var r []atomExp
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i].t.id < b[j].t.id:
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].t.id < a[i].t.id:
			r = append(r, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				r = append(r, atomExp{a[i].t, e})
			}
			i++
			j++
		}
	}
	return c.joinExp(r)
}

// joinExp combines exp atoms of a monomial into one.
func (c *Ctx) joinExp(m []atomExp) []atomExp {
	n := 0
	for _, a := range m {
		if a.t.op == OUF && a.t.name == "exp" {
			if a.e != 1 {
				n++
			}
			n++
		}
	}
	if n < 2 {
		return m
	}
	var rest []atomExp
	arg := &poly{}
	for _, a := range m {
		if a.t.op == OUF && a.t.name == "exp" {
			arg = polyAdd(arg, polyScale(c.poly(a.t.a[0]), big.NewRat(int64(a.e), 1)), 1)
		} else {
			rest = append(rest, a)
		}
	}
	if _, ok := arg.isConst(); ok && len(arg.ts) == 0 {
		return rest
	}
	t := c.expAtom(arg)
	if t == nil {
		return m
	}
	rest = append(rest, atomExp{t, 1})
	sort.Slice(rest, func(i, j int) bool { return rest[i].t.id < rest[j].t.id })
	return rest
}

// expAtom gives the UF application exp(arg) or nil if it simplified away.
func (c *Ctx) expAtom(arg *poly) *Term {
	return c.ufAtom("exp", c.polyTerm(arg))
}

func (c *Ctx) polyMul(a, b *poly) *poly {
	if len(a.ts)*len(b.ts) > maxPoly {
		return nil
	}
	var ts []pterm
	for _, x := range a.ts {
		for _, y := range b.ts {
			ts = append(ts, pterm{new(big.Rat).Mul(x.k, y.k), c.monoMul(x.m, y.m)})
		}
	}
	return polyNorm(ts)
}

func atomPoly(t *Term) *poly {
	return &poly{ts: []pterm{{big.NewRat(1, 1), []atomExp{{t, 1}}}}}
}

// poly gives the polynomial normal form of a real term.
func (c *Ctx) poly(t *Term) *poly {
	if p, ok := c.polys[t.id]; ok {
		return p
	}
	p := c.poly1(t)
	c.polys[t.id] = p
	return p
}

func (c *Ctx) poly1(t *Term) *poly {
	switch t.op {
	case OConst:
		return polyConst(t.rat)
	case ORAdd:
		return polyAdd(c.poly(t.a[0]), c.poly(t.a[1]), 1)
	case ORSub:
		return polyAdd(c.poly(t.a[0]), c.poly(t.a[1]), -1)
	case ORNeg:
		return polyScale(c.poly(t.a[0]), big.NewRat(-1, 1))
	case ORMul:
		if p := c.polyMul(c.poly(t.a[0]), c.poly(t.a[1])); p != nil {
			return p
		}
	case ORDiv:
		if q := c.polyInv(c.poly(t.a[1])); q != nil {
			if p := c.polyMul(c.poly(t.a[0]), q); p != nil {
				return p
			}
		}
	}
	return atomPoly(t)
}

// polyInv gives 1/p (the caller accepts that p is nonzero: divisions whose
// divisor may be zero are cut before).
func (c *Ctx) polyInv(p *poly) *poly {
	if len(p.ts) == 0 {
		return nil
	}
	if len(p.ts) == 1 {
		t := p.ts[0]
		m := make([]atomExp, len(t.m))
		for i, a := range t.m {
			m[i] = atomExp{a.t, -a.e}
		}
		return &poly{ts: []pterm{{new(big.Rat).Inv(t.k), c.joinExp(m)}}}
	}
	k := p.ts[0].k
	n := polyScale(p, new(big.Rat).Inv(k))
	at := c.polyTerm(n)
	// near-equal denominators share one atom
	iv := c.ivalPoly(n)
	if iv.lo > 0 || iv.hi < 0 {
		for _, o := range c.invs {
			if o == at {
				break
			}
			d := c.ivalPoly(polyAdd(n, c.poly(o), -1))
			if e := d.mag(); e <= 1e-7 {
				oi := c.ival(o)
				if oi.lo > 0 && iv.lo > 0 || oi.hi < 0 && iv.hi < 0 {
					w := iv.inv().mag() * oi.inv().mag() * e
					dl := c.boundedVar(fmt.Sprintf("$inv%d~%d", at.id, o.id), -w, w)
					r := &poly{ts: []pterm{{new(big.Rat).Inv(k), []atomExp{{o, -1}}}}}
					return polyAdd(r, polyScale(atomPoly(dl), new(big.Rat).Inv(k)), 1)
				}
			}
		}
		seen := false
		for _, o := range c.invs {
			seen = seen || o == at
		}
		if !seen {
			c.invs = append(c.invs, at)
		}
	}
	return &poly{ts: []pterm{{new(big.Rat).Inv(k), []atomExp{{at, -1}}}}}
}

// polyTerm rebuilds a canonical term.
func (c *Ctx) polyTerm(p *poly) *Term {
	if len(p.ts) == 0 {
		return c.Rat(new(big.Rat))
	}
	var r *Term
	for _, t := range p.ts {
		var m *Term
		for _, a := range t.m {
			e := a.e
			b := a.t
			if e < 0 {
				b = c.mk(ORDiv, realSort, 0, "", nil, c.Rat(big.NewRat(1, 1)), a.t)
				c.polys[b.id] = &poly{ts: []pterm{{big.NewRat(1, 1), []atomExp{{a.t, -1}}}}}
				e = -e
			}
			for i := 0; i < e; i++ {
				if m == nil {
					m = b
				} else {
					m = c.mk(ORMul, realSort, 0, "", nil, m, b)
				}
			}
		}
		if m != nil && len(t.m) > 0 {
			c.polys[m.id] = &poly{ts: []pterm{{big.NewRat(1, 1), t.m}}}
		}
		var x *Term
		switch {
		case m == nil:
			x = c.Rat(t.k)
		case t.k.Cmp(big.NewRat(1, 1)) == 0:
			x = m
		default:
			x = c.mk(ORMul, realSort, 0, "", nil, m, c.Rat(t.k))
		}
		if r == nil {
			r = x
		} else {
			r = c.mk(ORAdd, realSort, 0, "", nil, r, x)
		}
	}
	c.polys[r.id] = p
	return r
}

func (c *Ctx) boundedVar(name string, lo, hi float64) *Term {
	t := c.Var(name, realSort)
	c.rb[t.id] = ival{lo, hi}
	return t
}

// ival bounds a real term by interval arithmetic.
func (c *Ctx) ival(t *Term) ival {
	if b, ok := c.rb[t.id]; ok {
		return b
	}
	b := c.ival1(t)
	c.rb[t.id] = b
	return b
}

func ratIval(r *big.Rat) ival {
	f, exact := r.Float64()
	if exact {
		return ival{f, f}
	}
	return outw(f, f)
}

func (c *Ctx) ival1(t *Term) ival {
	switch t.op {
	case OConst:
		return ratIval(t.rat)
	case OVar:
		return wholeLine
	case OIte:
		a, b := c.ival(t.a[1]), c.ival(t.a[2])
		return ival{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)}
	case ORFromU:
		return ival{float64(t.a[0].lo), float64(t.a[0].hi)}
	case ORFromS:
		l, h, ok := c.srange(t.a[0])
		if ok {
			return outw(float64(l), float64(h))
		}
	case ORTrunc, ORFloor:
		a := c.ival(t.a[0])
		return ival{math.Floor(a.lo), math.Ceil(a.hi)}
	case ORAdd, ORSub, ORMul, ORDiv, ORNeg:
		return c.ivalPoly(c.poly(t))
	case OUF:
		return c.ivalUF(t)
	}
	return wholeLine
}

func (c *Ctx) ivalPoly(p *poly) ival {
	r := ival{0, 0}
	for _, t := range p.ts {
		m := ratIval(t.k)
		for _, a := range t.m {
			if len(p.ts) == 1 && len(t.m) == 1 && a.e == 1 && (a.t.op == ORAdd || a.t.op == ORMul || a.t.op == ORDiv || a.t.op == ORSub) {
				// an atom that could not be normalised
				m = m.mul(c.ivalRaw(a.t))
				continue
			}
			m = m.mul(c.ival(a.t).pow(a.e))
		}
		r = r.add(m)
	}
	return r
}

func (c *Ctx) ivalRaw(t *Term) ival {
	switch t.op {
	case ORAdd:
		return c.ival(t.a[0]).add(c.ival(t.a[1]))
	case ORMul:
		return c.ival(t.a[0]).mul(c.ival(t.a[1]))
	case ORDiv:
		return c.ival(t.a[0]).mul(c.ival(t.a[1]).inv())
	case ORSub:
		b := c.ival(t.a[1])
		return c.ival(t.a[0]).add(ival{-b.hi, -b.lo})
	}
	return wholeLine
}

var realFns = map[string]func(float64) float64{"sin": math.Sin, "cos": math.Cos, "tan": math.Tan, "exp": math.Exp, "ln": math.Log, "sqrt": math.Sqrt, "atan": math.Atan}

func (c *Ctx) ivalUF(t *Term) ival {
	a := c.ival(t.a[0])
	f := realFns[t.name]
	w := func(lo, hi float64) ival {
		return ival{lo - math.Abs(lo)*1e-14 - 1e-15, hi + math.Abs(hi)*1e-14 + 1e-15}
	}
	const h = math.Pi / 2
	switch t.name {
	case "sin", "cos":
		lo, hi := a.lo, a.hi
		if !(hi-lo < 2*math.Pi) || math.Abs(lo) > 1e6 {
			return ival{-1, 1}
		}
		off := h // maxima of sin at h + 2kπ
		if t.name == "cos" {
			off = 0
		}
		r := w(math.Min(f(lo), f(hi)), math.Max(f(lo), f(hi)))
		if k := math.Ceil((lo - off) / (2 * math.Pi)); off+k*2*math.Pi <= hi+1e-9 {
			r.hi = 1
		}
		if k := math.Ceil((lo - off - math.Pi) / (2 * math.Pi)); off+math.Pi+k*2*math.Pi <= hi+1e-9 {
			r.lo = -1
		}
		return ival{math.Max(r.lo, -1), math.Min(r.hi, 1)}
	case "tan":
		if a.lo > -h+1e-6 && a.hi < h-1e-6 {
			return w(f(a.lo), f(a.hi))
		}
	case "exp":
		r := w(f(a.lo), f(a.hi))
		r.lo = math.Max(r.lo, 0)
		return r
	case "ln":
		lo := math.Inf(-1)
		if a.lo > 0 {
			lo = math.Log(a.lo)
		}
		if a.hi > 0 {
			return w(lo, math.Log(a.hi))
		}
	case "sqrt":
		return w(math.Sqrt(math.Max(a.lo, 0)), math.Sqrt(math.Max(a.hi, 0)))
	case "atan":
		return w(f(a.lo), f(a.hi))
	}
	return wholeLine
}

// ufAtom creates or reuses the application f(arg); near-equal arguments give
// the existing application plus a bounded error.
func (c *Ctx) ufAtom(name string, arg *Term) *Term {
	return c.UF(name, realSort, arg)
}

// lipschitz constant of f on an interval covering both arguments
func lipschitz(name string, a ival) float64 {
	switch name {
	case "sin", "cos", "atan":
		return 1
	case "tan":
		if a.lo > -1.5 && a.hi < 1.5 {
			m := math.Max(math.Abs(a.lo), math.Abs(a.hi))
			t := math.Tan(m)
			return 1 + t*t
		}
	case "exp":
		return math.Exp(a.hi) * (1 + 1e-9)
	case "ln":
		if a.lo > 0 {
			return 1 / a.lo * (1 + 1e-9)
		}
	case "sqrt":
		if a.lo > 0 {
			return 0.5 / math.Sqrt(a.lo) * (1 + 1e-9)
		}
	}
	return math.Inf(1)
}

// RUF applies an elementary function to a real term.
func (c *Ctx) RUF(name string, arg *Term) *Term {
	p := c.poly(arg)
	if k, ok := p.isConst(); ok {
		f, _ := k.Float64()
		v := realFns[name](f)
		if !finite(v) {
			panic(unsupported("non-finite " + name + " in real arithmetic"))
		}
		return c.RealF(v)
	}
	switch name {
	case "sin", "tan", "cos", "atan":
		if p.ts[len(p.ts)-1].k.Sign() < 0 {
			r := c.RUF(name, c.polyTerm(polyScale(p, big.NewRat(-1, 1))))
			if name == "cos" {
				return r
			}
			return c.RNeg(r)
		}
	case "ln":
		if len(p.ts) == 1 && (len(p.ts[0].m) > 1 || p.ts[0].k.Cmp(big.NewRat(1, 1)) != 0 || p.ts[0].m[0].e != 1 || isExp(p.ts[0].m[0].t)) {
			t := p.ts[0]
			ok := t.k.Sign() > 0
			for _, a := range t.m {
				ok = ok && c.ival(a.t).lo >= 0
			}
			if ok {
				f, _ := t.k.Float64()
				r := c.RealF(math.Log(f))
				for _, a := range t.m {
					var l *Term
					if isExp(a.t) {
						l = a.t.a[0]
					} else {
						l = c.RUF("ln", a.t)
					}
					r = c.RBin(ORAdd, r, c.RBin(ORMul, l, c.RealF(float64(a.e))))
				}
				return c.polyTerm(c.poly(r))
			}
		}
	case "exp":
		// exp(ln x) = x
		if len(p.ts) == 1 && len(p.ts[0].m) == 1 && p.ts[0].m[0].e == 1 && p.ts[0].k.Cmp(big.NewRat(1, 1)) == 0 {
			if l := p.ts[0].m[0].t; l.op == OUF && l.name == "ln" {
				return l.a[0]
			}
		}
	}
	at := c.polyTerm(p)
	ai := c.ival(at)
	for _, o := range c.ufs[name] {
		if o.a[0] == at {
			return o
		}
	}
	for _, o := range c.ufs[name] {
		if o.sort.K != SReal {
			continue
		}
		d := c.ivalPoly(polyAdd(p, c.poly(o.a[0]), -1)).mag()
		if d <= 1e-7 {
			oi := c.ival(o.a[0])
			w := d * lipschitz(name, ival{math.Min(ai.lo, oi.lo), math.Max(ai.hi, oi.hi)})
			if finite(w) {
				dl := c.boundedVar(fmt.Sprintf("$%s%d~%d", name, at.id, o.a[0].id), -w, w)
				return c.RBin(ORAdd, o, dl)
			}
		}
	}
	return c.UF(name, realSort, at)
}

func isExp(t *Term) bool { return t.op == OUF && t.name == "exp" }

// canonR gives the canonical form of a real term.
func (c *Ctx) canonR(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	return c.polyTerm(c.poly(t))
}

// axiomsFor gives facts about the inputs and function applications in ts.
func (c *Ctx) axiomsFor(ts []*Term) []*Term {
	uf := false
	for _, t := range ts {
		uf = uf || t.hasReal || t.hasUF
	}
	if !uf {
		return nil
	}
	var r []*Term
	byName := map[string][]*Term{}
	for _, id := range varUnion(ts) {
		t := c.terms[id]
		if t.sort.K != SReal {
			r = append(r, c.fpAxioms(t)...)
			continue
		}
		r = append(r, c.boundFacts(t)...)
		if t.op == OUF {
			byName[t.name] = append(byName[t.name], t)
		}
	}
	names := make([]string, 0, len(byName))
	for n := range byName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		us := byName[n]
		if len(us) > 8 {
			us = us[:8]
		}
		for i, u := range us {
			for _, v := range us[:i] {
				a, b := c.ival(u.a[0]), c.ival(v.a[0])
				lo, hi := math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)
				dir := 0
				switch n {
				case "exp", "ln", "sqrt", "atan":
					dir = 1
				case "sin", "tan":
					if lo >= -math.Pi/2+1e-7 && hi <= math.Pi/2-1e-7 {
						dir = 1
					}
				case "cos":
					if lo >= 0 && hi <= math.Pi {
						dir = -1
					} else if lo >= -math.Pi && hi <= 0 {
						dir = 1
					}
				}
				if dir == 0 {
					continue
				}
				lt := func(p, q *Term) *Term { return c.RCmp(ORLt, p, q) }
				if dir > 0 {
					r = append(r, c.Eq(lt(u.a[0], v.a[0]), lt(u, v)), c.Eq(lt(v.a[0], u.a[0]), lt(v, u)))
				} else {
					r = append(r, c.Eq(lt(u.a[0], v.a[0]), lt(v, u)), c.Eq(lt(v.a[0], u.a[0]), lt(u, v)))
				}
			}
		}
	}
	return r
}

// boundFacts states the interval of a real variable or application.
func (c *Ctx) boundFacts(t *Term) []*Term {
	var r []*Term
	b := c.ival(t)
	if isExp(t) {
		r = append(r, c.RCmp(ORLt, c.RealF(0), t))
	}
	if finite(b.lo) {
		r = append(r, c.Not(c.mk(ORLt, boolSort, 0, "", nil, t, c.RealF(b.lo))))
	}
	if finite(b.hi) {
		r = append(r, c.Not(c.mk(ORLt, boolSort, 0, "", nil, c.RealF(b.hi), t)))
	}
	return r
}

// lemmasFor gives the facts found by refine for the applications in ts.
func (c *Ctx) lemmasFor(ts []*Term) []*Term {
	var r []*Term
	for _, id := range varUnion(ts) {
		r = append(r, c.lems[id]...)
	}
	return r
}

// refine adds facts about the applications in ts at the argument values of a
// model that is wrong about them.
func (c *Ctx) refine(ts []*Term, n *Model, got map[int32]uint64) bool {
	added := false
	for _, id := range varUnion(ts) {
		t := c.terms[id]
		if t.op != OUF || t.sort.K != SReal || len(c.lems[id]) > 60 {
			continue
		}
		p, ok := n.Real(t.a[0])
		if !ok {
			continue
		}
		f := realFns[t.name]
		v := f(p)
		g, has := got[id]
		if !finite(v) || has && math.Abs(math.Float64frombits(g)-v) <= 1e-12*(1+math.Abs(v)) {
			continue
		}
		ls := c.pointFacts(t, p, v)
		c.lems[id] = append(c.lems[id], ls...)
		added = added || len(ls) > 0
	}
	return added
}

// pointFacts states what the value v of a function at p says about t.
func (c *Ctx) pointFacts(t *Term, p, v float64) []*Term {
	a := t.a[0]
	imp := func(p, q *Term) *Term { return c.Not(c.And(p, c.Not(q))) }
	le := func(p, q *Term) *Term { return c.RCmp(ORLe, p, q) }
	eps := math.Abs(v)*1e-14 + 1e-15
	pr, lo, hi := c.RealF(p), c.RealF(v-eps), c.RealF(v+eps)
	line := func(d float64) *Term {
		return c.RBin(ORMul, c.RealF(d), c.RBin(ORSub, a, pr))
	}
	iv := c.ival(a)
	dir := 0
	var r []*Term
	switch t.name {
	case "exp", "ln", "sqrt", "atan":
		dir = 1
	case "tan", "sin":
		if iv.lo >= -math.Pi/2+1e-7 && iv.hi <= math.Pi/2-1e-7 {
			dir = 1
		}
	case "cos":
		if iv.lo >= 0 && iv.hi <= math.Pi {
			dir = -1
		} else if iv.lo >= -math.Pi && iv.hi <= 0 {
			dir = 1
		}
	}
	if dir > 0 {
		r = append(r, imp(le(a, pr), le(t, hi)), imp(le(pr, a), le(lo, t)))
	} else if dir < 0 {
		r = append(r, imp(le(a, pr), le(lo, t)), imp(le(pr, a), le(t, hi)))
	}
	// tangents, with the slope rounded in the safe direction on each side
	tangent := func(d float64, above bool) {
		s := math.Abs(d) * 1e-13
		for _, dd := range []float64{d - s, d + s} {
			left := le(a, pr)
			if above == (dd > d) { // larger slope is safe right of p for an upper bound
				left = le(pr, a)
			}
			if above {
				r = append(r, imp(left, le(t, c.RBin(ORAdd, hi, line(dd)))))
			} else {
				r = append(r, imp(left, le(c.RBin(ORAdd, lo, line(dd)), t)))
			}
		}
	}
	switch t.name {
	case "exp":
		tangent(v, false)
	case "ln":
		if p > 0 {
			tangent(1/p, true)
		}
	case "sqrt":
		if p > 0 {
			tangent(0.5/v, true)
		}
	case "sin", "cos":
		// |f(x)-f(p)| <= |x-p|
		d := c.RBin(ORSub, a, pr)
		nd := c.RBin(ORSub, pr, a)
		r = append(r, imp(le(pr, a), le(t, c.RBin(ORAdd, hi, d))), imp(le(pr, a), le(c.RBin(ORSub, lo, d), t)),
			imp(le(a, pr), le(t, c.RBin(ORAdd, hi, nd))), imp(le(a, pr), le(c.RBin(ORSub, lo, nd), t)))
	}
	return r
}
