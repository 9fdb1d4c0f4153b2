package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Formatting. Concrete operands of basic types are formatted by fmt itself;
// strings (symbolic ones too), errors and Stringers are spliced in for plain
// %s and %v. Everything else yields an opaque string, which may be passed on
// but not looked into.

// fmtArg is an operand of a formatting function as text, if ok.
func (x *Exec) fmtConcrete(a Value) (any, bool) {
	i := a.iface()
	if i == nil {
		if a.K == KIface {
			return nil, true
		}
		return nil, false
	}
	if _, named := i.t.(*types.Named); named {
		return nil, false
	}
	if _, basic := i.t.(*types.Basic); !basic {
		return nil, false
	}
	switch i.v.K {
	case KStr:
		s, ok := i.v.P.(string)
		return s, ok
	case KScalar:
		switch i.v.T {
		case TBool:
			return i.v.N != 0, true
		case TF32:
			return i.v.f32(), true
		case TF64:
			return i.v.f64(), true
		case TU8:
			return byte(i.v.N), true
		case TI32:
			return rune(int32(i.v.N)), true
		}
		if i.v.T.signed() {
			return int64(i.v.N), true
		}
		return i.v.N, true
	}
	return nil, false
}

// fmtText calls the Error or String method of an operand; nil if it has none.
func (x *Exec) fmtText(st *State, a Value) []Out {
	i := a.iface()
	if i == nil {
		return nil
	}
	if b, ok := i.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && i.v.K == KStr && !isOpaque(i.v) {
		if types.NewMethodSet(i.t).Len() == 0 {
			return one(st, i.v)
		}
	}
	for _, name := range []string{"Error", "String"} {
		sel := types.NewMethodSet(i.t).Lookup(nil, name)
		if sel == nil {
			continue
		}
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
			continue
		}
		m := sel.Obj().(*types.Func)
		return x.invoke(st, a, m, nil, nil)
	}
	return nil
}

type fmtPart struct {
	st *State
	v  Value
}

func (x *Exec) cat(a, b Value) Value {
	if isOpaque(a) || isOpaque(b) {
		return opaqueStr("formatting")
	}
	if sa, ok := a.P.(string); ok {
		if sb, ok := b.P.(string); ok {
			return vStr(sa + sb)
		}
	}
	return mkStr(append(append([]Value(nil), strBytes(a)...), strBytes(b)...))
}

// sprintf formats like fmt.Sprintf; the paths differ where a String method
// of an operand branches.
func (x *Exec) sprintf(st *State, f, argv Value) []Out {
	fs, ok := f.P.(string)
	if !ok {
		return one(st, opaqueStr("format"))
	}
	args := x.sliceCells(st, argv)
	parts := []fmtPart{{st, vStr("")}}
	add := func(v Value) {
		for k := range parts {
			parts[k].v = x.cat(parts[k].v, v)
		}
	}
	n := 0
	for k := 0; k < len(fs); {
		if fs[k] != '%' {
			e := strings.IndexByte(fs[k:], '%')
			if e < 0 {
				e = len(fs) - k
			}
			add(vStr(fs[k : k+e]))
			k += e
			continue
		}
		b := k
		for k++; k < len(fs) && strings.IndexByte("+-# 0123456789.", fs[k]) >= 0; k++ {
		}
		if k >= len(fs) || fs[k] == '*' || fs[k] == '[' || fs[k] >= 0x80 {
			return one(st, opaqueStr("format"))
		}
		verb := fs[b : k+1]
		k++
		if fs[k-1] == '%' {
			add(vStr(fmt.Sprintf(verb)))
			continue
		}
		if n >= len(args) || verb[len(verb)-1] == 'T' {
			return one(st, opaqueStr("format"))
		}
		a := args[n]
		n++
		if c, ok := x.fmtConcrete(a); ok {
			add(vStr(fmt.Sprintf(verb, c)))
			continue
		}
		var next []fmtPart
		for _, p := range parts {
			outs := []Out(nil)
			if verb[len(verb)-1] == 's' || verb[len(verb)-1] == 'v' {
				outs = x.fmtText(p.st, a)
			}
			if outs == nil {
				next = append(next, fmtPart{p.st, opaqueStr("format arg")})
				continue
			}
			for _, o := range outs {
				v := o.v
				if o.pan != nil || isOpaque(v) {
					v = opaqueStr("format arg")
				} else if len(verb) > 2 {
					s, ok := v.P.(string)
					if !ok || strings.IndexByte(verb, '#') >= 0 {
						v = opaqueStr("format arg")
					} else {
						v = vStr(fmt.Sprintf(verb[:len(verb)-1]+"s", s))
					}
				}
				next = append(next, fmtPart{o.st, x.cat(p.v, v)})
			}
		}
		parts = next
	}
	var outs []Out
	for _, p := range parts {
		v := p.v
		if n < len(args) {
			v = opaqueStr("format")
		}
		outs = append(outs, Out{st: p.st, v: v})
	}
	return outs
}

// sprint formats like fmt.Sprint (ln: Sprintln).
func (x *Exec) sprint(st *State, argv Value, ln bool) []Out {
	args := x.sliceCells(st, argv)
	var as []any
	for _, a := range args {
		c, ok := x.fmtConcrete(a)
		if !ok {
			as = nil
			break
		}
		as = append(as, c)
	}
	if len(as) == len(args) {
		if ln {
			return one(st, vStr(fmt.Sprintln(as...)))
		}
		return one(st, vStr(fmt.Sprint(as...)))
	}
	f := ""
	str := true
	for k, a := range args {
		// blanks go between operands neither of which is a string
		i := a.iface()
		s := false
		if i != nil {
			b, ok := i.t.Underlying().(*types.Basic)
			s = ok && b.Info()&types.IsString != 0
		}
		if ln && k > 0 || !s && !str {
			f += " "
		}
		str = s
		f += "%v"
	}
	if ln {
		f += "\n"
	}
	return x.sprintf(st, vStr(f), argv)
}

// fprint hands the text to the writer's Write method. Text for an *os.File
// (standard output, standard error) is not modelled.
func (x *Exec) fprint(w Value, outs []Out) []Out {
	var res []Out
	for _, o := range outs {
		i := w.iface()
		if i == nil {
			res = append(res, Out{st: o.st, pan: x.rtPanic(o.st, "invalid memory address or nil pointer dereference")})
			continue
		}
		if i.t.String() == "*os.File" {
			res = append(res, Out{st: o.st, v: vTuple(vInt(0), Value{K: KIface})})
			continue
		}
		sel := types.NewMethodSet(i.t).Lookup(nil, "Write")
		if sel == nil || isOpaque(o.v) {
			panic(unsupported("text written by fmt.Fprint"))
		}
		buf := x.newSlice(o.st, append([]Value(nil), strBytes(o.v)...), 1, "formatted text")
		res = append(res, x.invoke(o.st, w, sel.Obj().(*types.Func), []Value{buf}, nil)...)
	}
	return res
}

func regFmt() {
	reg(func(x *Exec, st *State, args []Value, _ *ssa.Function) []Out {
		return x.sprintf(st, args[0], args[1])
	}, "fmt.Sprintf")
	reg(func(x *Exec, st *State, args []Value, _ *ssa.Function) []Out {
		return x.sprint(st, args[0], false)
	}, "fmt.Sprint")
	reg(func(x *Exec, st *State, args []Value, _ *ssa.Function) []Out {
		return x.sprint(st, args[0], true)
	}, "fmt.Sprintln")
	regv(func(x *Exec, st *State, args []Value) Value { return vTuple(vInt(0), Value{K: KIface}) },
		"fmt.Printf", "fmt.Println", "fmt.Print")
	reg(func(x *Exec, st *State, args []Value, _ *ssa.Function) []Out {
		if i := args[0].iface(); i != nil && i.t.String() == "*os.File" {
			return x.fprint(args[0], one(st, vStr("")))
		}
		return x.fprint(args[0], x.sprintf(st, args[1], args[2]))
	}, "fmt.Fprintf")
	for _, ln := range []bool{false, true} {
		ln := ln
		name := "fmt.Fprint"
		if ln {
			name = "fmt.Fprintln"
		}
		reg(func(x *Exec, st *State, args []Value, _ *ssa.Function) []Out {
			if i := args[0].iface(); i != nil && i.t.String() == "*os.File" {
				return x.fprint(args[0], one(st, vStr("")))
			}
			return x.fprint(args[0], x.sprint(st, args[1], ln))
		}, name)
	}
}
