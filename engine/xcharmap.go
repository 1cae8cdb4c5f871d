package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const charmapPath = "golang.org/x/text/encoding/charmap"

// charmapField gives the slot of a field of charmap.Charmap.
func (e *Eng) charmapField(fn *ssa.Function, name string) int {
	ct := fn.Pkg.Prog.ImportedPackage(charmapPath).Type("Charmap").Type()
	l := e.layout(ct)
	su := ct.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return l.foff[i]
		}
	}
	panic(engErr("no field " + name + " in charmap.Charmap"))
}

// charmapOf finds the Charmap of an *encoding.Encoder; repl tells whether it replaces
// what it cannot encode.
func (e *Eng) charmapOf(st *State, enc Value) (cm Ptr, repl, ok bool) {
	for depth := 0; depth < 4; depth++ {
		p, isP := e.resolve(st, enc).(Ptr)
		if !isP || p.obj == 0 {
			return Ptr{}, false, false
		}
		f, isI := e.obj(st, p.obj).get(p.off).(Iface)
		if !isI || f.typ == nil {
			return Ptr{}, false, false
		}
		switch f.typ.String() {
		case charmapPath + ".charmapEncoder":
			vs := []Value{f.val}
			if a, isA := f.val.(*Agg); isA {
				vs = a.slots
			}
			for _, v := range vs {
				if q, isQ := v.(Ptr); isQ {
					return q, repl, true
				}
			}
			return Ptr{}, false, false
		case "*golang.org/x/text/encoding.errorHandler":
			q, isQ := e.resolve(st, f.val).(Ptr)
			if !isQ {
				return Ptr{}, false, false
			}
			h, isF := e.obj(st, q.obj).get(q.off + 1).(*Closure)
			if !isF || h.fn == nil || h.fn.Name() != "errorToReplacement" {
				return Ptr{}, false, false
			}
			repl = true
			enc = e.obj(st, q.obj).get(q.off)
		default:
			return Ptr{}, false, false
		}
	}
	return Ptr{}, false, false
}

// encodeRune gives the byte of a rune in a charmap, and whether there is one.
func (e *Eng) encodeRune(st *State, fn *ssa.Function, cm Ptr, r *Term) (b, ok *Term) {
	c := e.c
	o := e.obj(st, cm.obj)
	off := cm.off + e.charmapField(fn, "encode")
	lowT, okc := e.loadSlot(st, o, Ptr{obj: cm.obj, off: cm.off + e.charmapField(fn, "low")}, 0).(*Term)
	if !okc || !lowT.IsConst() {
		panic(engErr("charmap with unknown tables"))
	}
	b, ok = c.Const(8, 0), c.fls
	for i := int(lowT.val); i < 256; i++ {
		t := e.loadSlot(st, o, Ptr{obj: cm.obj, off: off + i}, 0).(*Term)
		if !t.IsConst() {
			panic(engErr("charmap with unknown tables"))
		}
		hit := c.Eq(r, c.Const(32, t.val&(1<<24-1)))
		ok = c.Or(ok, hit)
		b = c.Ite(hit, c.Const(8, t.val>>24), b)
	}
	return b, ok
}

// charmapEncode models encoding.Encoder.String (and Bytes) for charmap encoders: the
// text is cut into characters, each mapped by the package's own encode table.
func (e *Eng) charmapEncode(st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function, bytes bool) []Outcome {
	c := e.c
	var s *Str
	if bytes {
		x, ok := e.resolve(st, args[1]).(Slice)
		if !ok {
			panic(engErr("encoder input"))
		}
		s = e.resolve(st, e.bytesToStr(st, x)).(*Str)
	} else {
		s = e.resolve(st, args[1]).(*Str)
	}
	cm, repl, ok := e.charmapOf(st, args[0])
	if !ok {
		return e.callReal(st, fn, args, cc)
	}
	give := func(st *State, r *Str, err Value) Outcome {
		var v Value = r
		if bytes {
			v = e.strToBytes(st, r)
		}
		return Outcome{st: st, ret: Tuple{v, err}}
	}
	fail := func(st *State) Outcome {
		var v Value = e.emptyStr
		if bytes {
			v = Slice{esz: 1, len: c.Int(0), cap: c.Int(0)}
		}
		return Outcome{st: st, ret: Tuple{v, e.opaqueErr(st, "repertoire")}}
	}
	_, konst := s.constant()
	if !konst && (s.opaque != "" || s.rope != nil || !s.len.IsConst() && len(s.bytes) > e.cfgInt("exactcm", 0) || s.len.IsConst() && int(s.len.val) > e.cfgInt("exactcm", 0)) {
		e.note("charmap encoding of long text gives unknown text (no longer than it) or an error")
		key := "charenc:" + valueKey(cm) + valueKey(s)
		bad := c.Var("bad"+key, 0)
		var outs []Outcome
		yes, no := e.branch(st, bad)
		if no != nil {
			outs = append(outs, give(no, e.opaqueMax(key, s.len), Iface{}))
		}
		if yes != nil {
			outs = append(outs, fail(yes))
		}
		return outs
	}
	o := e.obj(st, cm.obj)
	sup, okc := e.loadSlot(st, o, Ptr{obj: cm.obj, off: cm.off + e.charmapField(fn, "asciiSuperset")}, 0).(*Term)
	if !okc || sup != c.tru {
		return e.callReal(st, fn, args, cc)
	}
	rt := e.loadSlot(st, o, Ptr{obj: cm.obj, off: cm.off + e.charmapField(fn, "replacement")}, 0).(*Term)
	type path struct {
		st  *State
		i   int
		acc []*Term
	}
	type key struct{ i, n int }
	var outs []Outcome
	var failed *State
	addFail := func(s *State) {
		if failed == nil {
			failed = s
		} else {
			failed, _ = e.mergeStates(failed, s)
		}
	}
	cur := map[key]*path{{0, 0}: {st, 0, nil}}
	for i := 0; i <= len(s.bytes); i++ {
		for n := 0; n <= i; n++ {
			p := cur[key{i, n}]
			if p == nil {
				continue
			}
			more, end := e.branch(p.st, c.Ult(c.Int(i), s.len))
			if end != nil {
				outs = append(outs, give(end, &Str{bytes: p.acc, len: c.Int(len(p.acc))}, Iface{}))
			}
			if more == nil {
				continue
			}
			put := func(st *State, size int, b *Term) {
				k := key{i + size, n + 1}
				acc := append(p.acc[:len(p.acc):len(p.acc)], b)
				q := cur[k]
				if q == nil {
					cur[k] = &path{st, i + size, acc}
					return
				}
				m, sel := e.mergeStates(q.st, st)
				na := make([]*Term, len(acc))
				for j := range na {
					na[j] = c.Ite(sel, q.acc[j], acc[j])
				}
				*q = path{m, i + size, na}
			}
			at := func(k int) *Term {
				if i+k < len(s.bytes) {
					return s.bytes[i+k]
				}
				return c.Const(8, 0)
			}
			b0 := at(0)
			asc, rest := e.branch(more, c.Ult(b0, c.Const(8, 0x80)))
			if asc != nil {
				put(asc, 1, b0)
			}
			join := func(top uint8, n int) *Term {
				r := c.Extract(b0, 0, top)
				for k := 1; k <= n; k++ {
					r = c.Concat(r, c.Extract(at(k), 0, 6))
				}
				return c.Zext(r, 32)
			}
			rng := func(b *Term, lo, hi uint64) *Term {
				return c.And(c.Ule(c.Const(8, lo), b), c.Ule(b, c.Const(8, hi)))
			}
			cont := func(k int) *Term {
				return c.And(rng(at(k), 0x80, 0xBF), c.Ult(c.Int(i+k), s.len))
			}
			forms := []struct {
				size int
				cond *Term
				r    *Term
			}{
				{2, c.And(rng(b0, 0xC2, 0xDF), cont(1)),
					join(5, 1)},
				{3, c.And(rng(b0, 0xE0, 0xEF), c.And(cont(1), c.And(cont(2),
					c.And(c.Or(c.Not(c.Eq(b0, c.Const(8, 0xE0))), c.Ule(c.Const(8, 0xA0), at(1))),
						c.Or(c.Not(c.Eq(b0, c.Const(8, 0xED))), c.Ule(at(1), c.Const(8, 0x9F))))))),
					join(4, 2)},
				{4, c.And(rng(b0, 0xF0, 0xF4), c.And(cont(1), c.And(cont(2), c.And(cont(3),
					c.And(c.Or(c.Not(c.Eq(b0, c.Const(8, 0xF0))), c.Ule(c.Const(8, 0x90), at(1))),
						c.Or(c.Not(c.Eq(b0, c.Const(8, 0xF4))), c.Ule(at(1), c.Const(8, 0x8F)))))))),
					join(3, 3)},
			}
			for _, f := range forms {
				if rest == nil {
					break
				}
				var yes *State
				yes, rest = e.branch(rest, f.cond)
				if yes == nil {
					continue
				}
				b, ok := e.encodeRune(yes, fn, cm, f.r)
				have, not := e.branch(yes, ok)
				if have != nil {
					put(have, f.size, b)
				}
				if not != nil {
					if repl {
						put(not, f.size, rt)
					} else {
						addFail(not)
					}
				}
			}
			if rest != nil { // not valid UTF-8
				if repl {
					put(rest, 1, rt)
				} else {
					addFail(rest)
				}
			}
		}
	}
	if failed != nil {
		outs = append(outs, fail(failed))
	}
	return outs
}

func init() {
	intrinsics["(*golang.org/x/text/encoding.Encoder).String"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		return e.charmapEncode(st, args, cc, fn, false)
	}
	intrinsics["(*golang.org/x/text/encoding.Encoder).Bytes"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		return e.charmapEncode(st, args, cc, fn, true)
	}
	intrinsics["(*golang.org/x/text/encoding.Decoder).Bytes"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		s := e.bytesToStr(st, e.resolve(st, args[1]))
		outs := e.charmapDecode(st, []Value{args[0], s}, cc, fn)
		for i, o := range outs {
			t := o.ret.(Tuple)
			outs[i].ret = Tuple{e.strToBytes(o.st, t[0].(*Str)), t[1]}
		}
		return outs
	}
	intrinsics["(*"+charmapPath+".Charmap).EncodeRune"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		cm, ok := e.resolve(st, args[0]).(Ptr)
		if !ok {
			return e.callReal(st, fn, args, cc)
		}
		r := args[1].(*Term)
		sup, okc := e.loadSlot(st, e.obj(st, cm.obj), Ptr{obj: cm.obj, off: cm.off + e.charmapField(fn, "asciiSuperset")}, 0).(*Term)
		if !okc || sup != e.c.tru {
			return e.callReal(st, fn, args, cc)
		}
		asc := e.c.Ult(r, e.c.Const(32, 0x80))
		b, have := e.encodeRune(st, fn, cm, r)
		rt := e.loadSlot(st, e.obj(st, cm.obj), Ptr{obj: cm.obj, off: cm.off + e.charmapField(fn, "replacement")}, 0).(*Term)
		b = e.c.Ite(asc, e.c.Extract(r, 0, 8), e.c.Ite(have, b, rt))
		return ret(st, Tuple{b, e.c.Or(asc, have)})
	}
}
