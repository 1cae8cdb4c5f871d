package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of the strconv functions used on symbolic text.

func init() {
	intrinsics["strconv.Atoi"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		return e.parseDec(st, args, cc, fn, 64)
	}
	intrinsics["strconv.ParseInt"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		base, ok1 := args[1].(*Term)
		bits, ok2 := args[2].(*Term)
		if !ok1 || !ok2 || !base.IsConst() || !bits.IsConst() || base.val != 10 {
			return e.callReal(st, fn, args, cc)
		}
		b := int(bits.val)
		if b == 0 {
			b = 64
		}
		return e.parseDec(st, args, cc, fn, b)
	}
	intrinsics["strconv.Itoa"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		return e.formatDec(st, args[0].(*Term))
	}
	intrinsics["strconv.FormatInt"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		if b := args[1].(*Term); !b.IsConst() || b.val != 10 {
			return e.callReal(st, fn, args, cc)
		}
		return e.formatDec(st, args[0].(*Term))
	}
}

func (e *Eng) parseDec(st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function, bits int) []Outcome {
	s, ok := e.resolve(st, args[0]).(*Str)
	if !ok || s.opaque != "" || s.rope != nil {
		return e.callReal(st, fn, args, cc)
	}
	if _, k := s.constant(); k {
		return e.callReal(st, fn, args, cc)
	}
	n := e.conc(st, s.len)
	if n == 0 || n > 18 {
		return e.callReal(st, fn, args, cc)
	}
	c := e.c
	b0 := s.bytes[0]
	sign := c.Or(c.Eq(b0, c.Const(8, '+')), c.Eq(b0, c.Const(8, '-')))
	ys, st := e.branch(st, sign)
	var outs []Outcome
	if ys != nil {
		outs = append(outs, e.callReal(ys, fn, args, cc)...)
	}
	if st == nil {
		return outs
	}
	ok2 := c.tru
	v := c.Int(0)
	for i := 0; i < n; i++ {
		d := c.Sub(s.bytes[i], c.Const(8, '0'))
		nine := c.Const(8, 9)
		in := c.Ule(d, nine)
		ok2 = c.And(ok2, in)
		v = c.Add(c.Mul(v, c.Int(10)), c.Zext(c.Ite(in, d, nine), 64))
	}
	if bits < 64 {
		ok2 = c.And(ok2, c.Ult(v, c.Const(64, 1<<(bits-1))))
	}
	good, bad := e.branch(st, ok2)
	if good != nil {
		outs = append(outs, Outcome{st: good, ret: Tuple{v, Iface{}}})
	}
	if bad != nil {
		outs = append(outs, Outcome{st: bad, ret: Tuple{c.Int(0), e.opaqueErr(bad, "strconv")}})
	}
	return outs
}

func (e *Eng) formatDec(st *State, v *Term) []Outcome {
	c := e.c
	v = c.Sext(v, 64)
	if v.IsConst() {
		return ret(st, e.constStr(itoa(int64(v.val))))
	}
	var outs []Outcome
	neg, pos := e.branch(st, c.Slt(v, c.Int(0)))
	emit := func(st *State, v *Term, prefix []*Term) {
		pow := uint64(10)
		for k := 1; k <= 19 && st != nil; k++ {
			var here *State
			if k == 19 {
				here, st = st, nil
			} else {
				here, st = e.branch(st, c.Ult(v, c.Const(64, pow)))
			}
			if here != nil {
				bs := append([]*Term(nil), prefix...)
				d := make([]*Term, k)
				p := uint64(1)
				for i := k - 1; i >= 0; i-- {
					q := c.Urem(c.Udiv(v, c.Const(64, p)), c.Int(10))
					d[i] = c.Add(c.Extract(q, 0, 8), c.Const(8, '0'))
					p *= 10
				}
				bs = append(bs, d...)
				outs = append(outs, Outcome{st: here, ret: &Str{bytes: bs, len: c.Int(len(bs))}})
			}
			pow *= 10
		}
	}
	if pos != nil {
		emit(pos, v, nil)
	}
	if neg != nil {
		emit(neg, c.BNeg(v), []*Term{c.Const(8, '-')})
	}
	return outs
}

func itoa(v int64) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	u := uint64(v)
	if neg {
		u = -u
	}
	var b []byte
	for u > 0 {
		b = append([]byte{byte('0' + u%10)}, b...)
		u /= 10
	}
	if neg {
		b = append([]byte{'-'}, b...)
	}
	return string(b)
}

var _ = types.Typ
