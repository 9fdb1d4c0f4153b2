package main

import (
	"encoding/binary"
	"math"
)

// Answers are shared between queries that differ only in which variables they
// mention: the key numbers variables by first occurrence.

const shapeNodes = 1500

type shapeEnt struct {
	r SatResult
	m []uint64 // values of the variables in order of first occurrence
}

// shapeKey is "" if the query is too large or not covered.
func shapeKey(ts []*Term) (string, []*Term, bool) {
	pos := map[int32]uint32{}
	var vars []*Term
	uf := false
	b := make([]byte, 0, 512)
	u64 := func(x uint64) { b = binary.AppendUvarint(b, x) }
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if _, done := pos[t.id]; done || !ok {
			return
		}
		if t.hasReal || len(pos) > shapeNodes {
			ok = false
			return
		}
		if t.op != OConst && t.op != OVar {
			for _, a := range t.a {
				if a != nil {
					walk(a)
				}
			}
		}
		b = append(b, byte(t.op), byte(t.sort.K), t.sort.W)
		u64(t.val)
		switch t.op {
		case OConst:
		case OVar:
			vars = append(vars, t)
			u64(t.lo)
			u64(t.hi)
			f := byte(0)
			if t.fin {
				f = 1
			}
			if t.nan {
				f |= 2
			}
			b = append(b, f)
			u64(math.Float64bits(t.flo))
			u64(math.Float64bits(t.fhi))
		default:
			if t.op == OUF {
				uf = true
			}
			u64(uint64(len(t.name)))
			b = append(b, t.name...)
			for _, a := range t.a {
				if a == nil {
					b = append(b, 0)
				} else {
					u64(uint64(pos[a.id]) + 1)
				}
			}
		}
		pos[t.id] = uint32(len(pos))
	}
	for _, t := range ts {
		walk(t)
		if !ok {
			return "", nil, false
		}
		b = append(b, 0xff, 0xff)
		u64(uint64(pos[t.id]))
	}
	return string(b), vars, uf
}
