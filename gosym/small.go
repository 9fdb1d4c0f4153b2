package main

// Floating-point queries over at most 16 bits of input are decided on the
// formula's value table: bit-blasted multipliers take the SMT solvers seconds.

const smallBits = 16

type smallNode struct {
	t   *Term
	arg [3]int
	n   int
}

func (s *Solver) smallCheck(ts []*Term) (SatResult, map[int32]uint64) {
	fp := false
	var base []int32
	for _, t := range ts {
		if t.hasReal {
			return Unknown, nil
		}
		fp = fp || t.hasFP
		base = mergeVars(base, t.base)
	}
	if !fp || len(base) == 0 {
		return Unknown, nil
	}
	size := 1
	for _, id := range base {
		v := s.ctx.terms[id]
		if v.op != OVar {
			return Unknown, nil
		}
		switch {
		case v.sort.K == SBool:
			size *= 2
		case v.sort.K == SBV && v.sort.W <= smallBits:
			size *= domSize(v)
		default:
			return Unknown, nil
		}
		if size > 1<<smallBits {
			return Unknown, nil
		}
	}
	lvlOf := map[int32]int{}
	for i, id := range base {
		lvlOf[id] = i
	}
	pos := map[int32]int{}
	var nodes []smallNode
	var level []int
	byLevel := make([][]int, len(base))
	var consts []int
	stack := append([]*Term(nil), ts...)
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		if _, ok := pos[t.id]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		if t.op != OConst && t.op != OVar {
			for _, a := range t.a {
				if a == nil {
					break
				}
				if _, ok := pos[a.id]; !ok {
					stack = append(stack, a)
					ready = false
				}
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		nd, lv := smallNode{t: t}, -1
		switch t.op {
		case OConst:
		case OVar:
			lv = lvlOf[t.id]
		default:
			if t.op == OUF && (len(t.name) < 3 || t.name[:3] != "fp.") {
				return Unknown, nil
			}
			for _, a := range t.a {
				if a == nil {
					break
				}
				nd.arg[nd.n] = pos[a.id]
				nd.n++
				if l := level[pos[a.id]]; l > lv {
					lv = l
				}
			}
		}
		k := len(nodes)
		pos[t.id] = k
		nodes = append(nodes, nd)
		level = append(level, lv)
		if lv >= 0 {
			byLevel[lv] = append(byLevel[lv], k)
		} else {
			consts = append(consts, k)
		}
	}
	if len(nodes)*size > 1<<26 {
		return Unknown, nil
	}
	vals := make([]uint64, len(nodes))
	bad := false
	eval := func(ks []int) {
		for _, k := range ks {
			nd := &nodes[k]
			t := nd.t
			switch t.op {
			case OConst:
				vals[k] = t.val
				continue
			case OVar:
				continue
			case OIte:
				if vals[nd.arg[0]] != 0 {
					vals[k] = vals[nd.arg[1]]
				} else {
					vals[k] = vals[nd.arg[2]]
				}
				continue
			case OAnd:
				vals[k] = vals[nd.arg[0]] & vals[nd.arg[1]]
				continue
			case ONot:
				vals[k] = 1 - vals[nd.arg[0]]
				continue
			}
			r, ok := evalOp(t, [3]uint64{vals[nd.arg[0]], vals[nd.arg[1]], vals[nd.arg[2]]})
			if !ok {
				if t.op != OFToS {
					bad = true
					return
				}
				r = 1 << 63 & mask(t.sort.W) // what the processor yields
			}
			vals[k] = r
		}
	}
	asserts := make([][]int, len(base))
	for _, t := range ts {
		k := pos[t.id]
		if level[k] < 0 {
			return Unknown, nil
		}
		asserts[level[k]] = append(asserts[level[k]], k)
	}
	eval(consts)
	cur := make([]uint64, len(base))
	var rec func(l int) bool
	rec = func(l int) bool {
		if l == len(base) {
			return true
		}
		v := s.ctx.terms[base[l]]
		n := 2
		if v.sort.K == SBV {
			n = domSize(v)
		}
		p, has := pos[v.id]
		for i := 0; i < n && !bad; i++ {
			cur[l] = uint64(i)
			if has {
				vals[p] = uint64(i)
			}
			eval(byLevel[l])
			if bad {
				return false
			}
			ok := true
			for _, k := range asserts[l] {
				ok = ok && vals[k] != 0
			}
			if ok && rec(l+1) {
				return true
			}
		}
		return false
	}
	sat := rec(0)
	if bad {
		return Unknown, nil
	}
	if !sat {
		return Unsat, nil
	}
	m := map[int32]uint64{}
	for i, id := range base {
		m[id] = cur[i]
	}
	return Sat, m
}
