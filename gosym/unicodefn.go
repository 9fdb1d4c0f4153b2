package main

import (
	"sync"
	"unicode"
)

// Character class predicates of package unicode on a symbolic rune. They are
// tabulated from the standard library itself and turned into a decision tree.

type runeSeg struct {
	lo, hi uint32
	kind   uint8 // 0 false, 1 true, 2 even runes, 3 odd runes
}

var runeSegs sync.Map

func segsOf(name string, f func(rune) bool) []runeSeg {
	if s, ok := runeSegs.Load(name); ok {
		return s.([]runeSeg)
	}
	const max = 0x110000
	val := make([]bool, max)
	for r := 0; r < max; r++ {
		val[r] = f(rune(r))
	}
	var segs []runeSeg
	for i := 0; i < max; {
		// longest constant run
		j := i + 1
		for j < max && val[j] == val[i] {
			j++
		}
		// longest alternating run
		k := i + 1
		for k < max && val[k] != val[k-1] {
			k++
		}
		if k-i > 3 && k-i > j-i {
			kind := uint8(2)
			if val[i] != (i%2 == 0) {
				kind = 3
			}
			segs = append(segs, runeSeg{uint32(i), uint32(k - 1), kind})
			i = k
			continue
		}
		kind := uint8(0)
		if val[i] {
			kind = 1
		}
		segs = append(segs, runeSeg{uint32(i), uint32(j - 1), kind})
		i = j
	}
	runeSegs.Store(name, segs)
	return segs
}

func (x *Exec) runeClass(t *Term, segs []runeSeg) *Term {
	c := x.ctx
	w := int(t.sort.W)
	parity := c.Eq(c.Extract(t, 0, 1), c.BV(0, 1))
	leaf := func(k uint8) *Term {
		switch k {
		case 0:
			return c.tFalse
		case 1:
			return c.tTrue
		case 2:
			return parity
		}
		return c.Not(parity)
	}
	var tree func(s []runeSeg) *Term
	tree = func(s []runeSeg) *Term {
		if len(s) == 1 {
			return leaf(s[0].kind)
		}
		m := len(s) / 2
		cond := c.Ult(t, c.BV(uint64(s[m].lo), w))
		if cond.op == OConst {
			if cond.val != 0 {
				return tree(s[:m])
			}
			return tree(s[m:])
		}
		return c.Ite(cond, tree(s[:m]), tree(s[m:]))
	}
	return c.And(c.Ult(t, c.BV(0x110000, w)), tree(segs))
}

func init() {
	for name, f := range map[string]func(rune) bool{
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter,
		"unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
	} {
		unicodeFns[name] = f
	}
	regUnicode() // intrinsics.go initialises first
}

var unicodeFns = map[string]func(rune) bool{}

func regUnicode() {
	for name, f := range unicodeFns {
		regv(func(x *Exec, st *State, a []Value) Value {
			if a[0].K == KScalar {
				return vBool(f(rune(int32(a[0].N))))
			}
			bad(a[0], name)
			return x.fromTerm(x.runeClass(a[0].term(), segsOf(name, f)), TBool)
		}, name)
	}
}
